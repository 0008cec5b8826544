"""tools/mutate.py OUT.jsonl [--files A,B] [--stride K] [--slots S] [--seed N]: mutation runs of the checks.

Makes small edits (operators, comparisons, constants, conditions, deleted statements) to the Python sources, one at a time, in
scratch copies of /repo under /tmp/mut, runs the checks that watch the file, and notes which edits none of them reports.
Never touches /repo."""
import ast, json, os, random, shutil, subprocess, sys, threading, queue, argparse

MAP = {
    'common/capacitance_matrix.py': 'C10', 'fastcap/fastcap_runner.py': 'C10 C14 C15', 'fastercap/fastercap_runner.py': 'C10 C14 C15',
    'fastercap/fastercap_input_builder.py': 'C09', 'fastercap/fastercap_model_generator.py': 'C08 C09', 'kpex_cli.py': 'C25 C15 C14 C13 C05 C09 C26',
    'klayout/lvs_runner.py': 'C14 C13 C15 C26', 'klayout/lvsdb_extractor.py': 'C22 C06 C05', 'klayout/netlist_csv.py': 'C11', 'klayout/netlist_expander.py': 'C11',
    'klayout/netlist_reducer.py': 'C12', 'klayout/repair_rdb.py': 'C20', 'klayout/shapes_pb2_converter.py': 'C21', 'klayout/rex_core.py': 'C06', 'log/logger.py': 'C26 C15',
    'magic/magic_runner.py': 'C18 C14', 'magic/magic_ext_data_structures.py': 'C18', 'magic/magic_ext_file_parser.py': 'C18', 'magic/magic_log_analyzer.py': 'C18',
    'netlist/netlist_cli.py': 'C19 C20', 'netlistsvg/netlist_json.py': 'C19', 'netlistsvg/netlistsvg_runner.py': 'C19', 'rcx25/c/geometry_restorer.py': 'C24 C02 C03',
    'rcx25/c/overlap_extractor.py': 'C01 C05', 'rcx25/c/polygon_utils.py': 'C02 C03 C01', 'rcx25/c/sidewall_and_fringe_extractor.py': 'C02 C03 C24 C05', 'rcx25/extraction_reporter.py': 'C24 C05',
    'rcx25/extraction_results.py': 'C23 C05', 'rcx25/extractor.py': 'C01 C03 C06 C05 C04', 'rcx25/netlist_expander.py': 'C05', 'rcx25/r/resistor_network.py': 'C07 C06', 'rcx25/r/conductance.py': 'C07 C06',
    'rcx25/r/r_extractor.py': 'C06 C05', 'rcx25/types.py': 'C05', 'rcx25/pex_mode.py': 'C15', 'tech_info.py': 'C16 C17 C01 C02 C03 C06 C09', 'util/argparse_helpers.py': 'C15', 'util/multiple_choice.py': 'C17',
    'env.py': 'C15', 'pdk_config.py': 'C15'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.BitOr: '&', ast.BitAnd: '|', ast.FloorDiv: '/', ast.Mod: '*', ast.BitXor: '|'}
N = {'C14': 140, 'C15': 160, 'C13': 100, 'C01': 700, 'C02': 500, 'C03': 500, 'C10': 1200, 'C08': 1200, 'C09': 120, 'C18': 3000, 'C23': 3000, 'C05': 300, 'C06': 800, 'C04': 250, 'C26': 36}      # fewer cases than the quick tier
LOG = {'info', 'debug', 'warning', 'error', 'rule', 'subproc', 'print'}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()) + 1)
    raw = src.encode()

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = pos(n)
        return raw[a:b].decode()
    out = []

    def add(n, new, kind):
        a, b = pos(n)
        out.append((n.lineno, kind, a, b, new))

    def logcall(n):
        return isinstance(n, ast.Call) and (getattr(n.func, 'id', None) in LOG or getattr(n.func, 'attr', None) in LOG)

    def visit(n):
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise, ast.Assert, ast.AnnAssign)) and not isinstance(n, ast.AnnAssign):
            return
        if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or logcall(n.value)):
            return
        if isinstance(n, ast.JoinedStr):
            return
        if isinstance(n, ast.arg):
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                visit(n.value)
            return
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.args.defaults + [d for d in n.args.kw_defaults if d]:
                visit(d)
            for b in n.body:
                visit(b)
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, f"({text(n.left)} {CMP[type(n.ops[0])]} {text(n.comparators[0])})", 'cmp')
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})", 'bin')
        if isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + op.join(f"({text(v)})" for v in n.values) + ')', 'bool')
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                o = ' and ' if isinstance(n.op, ast.And) else ' or '
                add(n, '(' + o.join(f"({text(v)})" for v in rest) + ')', 'drop-operand')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, f"({text(n.operand)})", 'not')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add(n, f"({text(n.operand)})", 'neg')
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), 'const')
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), 'const')
            elif isinstance(n.value, float):
                add(n, repr(n.value * 1.5 + (n.value == 0)), 'const')
        if isinstance(n, (ast.If, ast.IfExp)):
            add(n.test, 'True', 'if-true')
            add(n.test, 'False', 'if-false')
        if isinstance(n, (ast.Continue, ast.Break)):
            add(n, 'pass', 'jump')
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, 'pass', 'delete')
        if isinstance(n, ast.AugAssign):
            add(n, 'pass', 'delete')
        if isinstance(n, ast.Call) and not logcall(n):
            if len(n.args) == 2 and not n.keywords and not isinstance(n.args[0], ast.Starred) and not isinstance(n.args[1], ast.Starred):
                add(n, f"{text(n.func)}({text(n.args[1])}, {text(n.args[0])})", 'swap')
            if isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'set', 'list', 'abs', 'min', 'max', 'round', 'reversed'):
                new = {'min': 'max', 'max': 'min'}.get(n.func.id)
                if new:
                    add(n.func, new, 'func')
                elif len(n.args) == 1:
                    add(n, f"({text(n.args[0])})", 'func')
            if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords and n.func.attr in ('merged', 'lower', 'upper', 'strip', 'copy', 'dup', 'swapped_points', 'values', 'rstrip'):
                add(n, f"{text(n.func.value)}", 'drop-call')
        for ch in ast.iter_child_nodes(n):
            if isinstance(n, ast.AnnAssign) and ch is n.annotation:
                continue
            visit(ch)
    visit(tree)
    seen, res = set(), []
    for ln, kind, a, b, new in out:
        m = raw[:a] + new.encode() + raw[b:]
        if m in seen:
            continue
        seen.add(m)
        try:
            ast.parse(m.decode())
        except SyntaxError:
            continue
        res.append(dict(line=ln, kind=kind, old=raw[a:b].decode(), new=new, a=a, b=b))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--files')
    ap.add_argument('--stride', type=int, default=1)
    ap.add_argument('--offset', type=int, default=0)
    ap.add_argument('--slots', type=int, default=4)
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--again', help='run only those edits that survived in this earlier result file')
    a = ap.parse_args()
    work = '/tmp/mut'
    os.makedirs(work, exist_ok=True)
    shutil.rmtree(work + '/src', ignore_errors=True)
    shutil.copytree('/repo/klayout_pex', work + '/src')
    root = work + '/src/'
    files = [f for f in MAP if not a.files or any(x in f for x in a.files.split(','))]
    jobs = []
    for f in files:
        ms = mutants(root + f)
        jobs += [(f, m) for i, m in enumerate(ms) if i % a.stride == a.offset]
        print(f, len(ms))
    print('total', len(jobs))
    if a.list:
        return
    if a.again:
        alive = set()
        for l in open(a.again):
            d = json.loads(l)
            if 1 not in d['res'].values():
                alive.add((d['file'], d['line'], d['old'], d['new']))
        jobs = [(f, m) for f, m in jobs if (f, m['line'], m['old'], m['new']) in alive]
        print('to run again', len(jobs))
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d['file'], d['a'], d['b'], d['new']))
    q = queue.Queue()
    for f, m in jobs:
        if (f, m['a'], m['b'], m['new']) not in done:
            q.put((f, m))
    lock = threading.Lock()

    def slot(k):
        repo, ver = f"{work}/repo{k}", f"{work}/verif{k}"
        for s, d in (('/repo', repo), ('/verif', ver)):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            subprocess.run(['cp', '-a', s, d], check=True)
        shutil.rmtree(ver + '/.git', ignore_errors=True)
        env = dict(os.environ, PYTHONPATH=repo, KV_REPO=repo, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', VERIF_SEED='1', VERIF_TIER='quick', COLUMNS='200', LC_ALL='C.UTF-8',
                   KV_FIRST='1', KV_WORKERS=str(max(1, 8 // a.slots)), TMPDIR=f"{work}/tmp{k}")
        os.makedirs(env['TMPDIR'], exist_ok=True)
        while True:
            try:
                f, m = q.get_nowait()
            except queue.Empty:
                return
            p = f"{repo}/klayout_pex/{f}"
            raw = open(root + f, 'rb').read()
            open(p, 'wb').write(raw[:m['a']] + m['new'].encode() + raw[m['b']:])
            res = {}
            for c in MAP[f].split():
                r = subprocess.run(['timeout', '-k', '5', '300', '/opt/venv/bin/python', '-B', ver + '/checks/run.py', c] + (['--n', str(N[c])] if c in N else []), env=env, cwd=ver, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
                res[c] = r.returncode
                if r.returncode == 1:
                    t = r.stdout.decode(errors='replace')
                    i = t.find('  [')
                    res['why'] = t[i:i + 100]
                    break
            shutil.rmtree(env['TMPDIR'], ignore_errors=True)
            os.makedirs(env['TMPDIR'], exist_ok=True)
            open(p, 'wb').write(raw)
            with lock:
                with open(a.out, 'a') as o:
                    o.write(json.dumps(dict(file=f, **m, res=res)) + '\n')
    ts = [threading.Thread(target=slot, args=(k,)) for k in range(a.slots)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for k in range(a.slots):
        for n in ('repo', 'verif', 'tmp'):
            shutil.rmtree(f"{work}/{n}{k}", ignore_errors=True)


main()
