"""C26: runs at the same time or one after another do not disturb each other, and each leaves a complete record."""
import collections, contextlib, gzip, hashlib, io, json, logging, os, random, re, shlex, shutil, signal, sys, time, traceback
import klayout.db as kdb
import kvcli, kvcore, kvfake, kvflow, kvlvs

SUBPROCESS = 12
LEVELS = {'all': 0, 'debug': 10, 'subprocess': 12, 'verbose': 15, 'info': 20, 'warning': 30, 'error': 40, 'critical': 50}
TOOLNAME = {'lvs': 'KLayout', 'fc': 'FasterCap', 'f2': 'FastCap2', 'magic': 'MAGIC'}


# ---------------------------------------------------------------- inside the child: the monitored run

class Probe:
    """everything the program says to its logger, whatever the logger makes of it"""

    def __init__(self):
        self.said, self.mark = [], None
        lg = logging.getLogger('__kpex__')
        for name, level in (('debug', 10), ('info', 20), ('warning', 30), ('error', 40), ('critical', 50)):
            setattr(lg, name, self.wrap(getattr(logging.Logger, name).__get__(lg), level))
        log = logging.Logger.log.__get__(lg)

        def any_level(level, msg, *a, **k):
            self.said.append((int(level), str(msg) % a if a else str(msg)))
            return log(level, msg, *a, **k)
        lg.log = any_level

    def wrap(self, f, level):
        def g(msg, *a, **k):
            self.said.append((level, str(msg) % a if a else str(msg)))
            return f(msg, *a, **k)
        return g


def child(jobs, root, fd, run, delay, seed):
    """runs the jobs one after another in this process; delay: probability and length of pauses at file operations"""
    rng = random.Random(seed)
    watched = ('open', 'os.rename', 'shutil.move', 'shutil.copyfile', 'os.remove', 'os.mkdir', 'os.listdir')

    def hook(event, args):
        if event in watched and args and isinstance(args[0], (str, bytes)):
            p = os.path.abspath(os.fsdecode(args[0]))
            if p.startswith(root):
                os.write(fd, f"{run} {event}\n".encode())
                if rng.random() < delay[0]:
                    time.sleep(rng.random() * delay[1])
    sys.addaudithook(hook)
    probe = Probe()
    from klayout_pex.kpex_cli import KpexCLI
    from klayout_pex.tech_info import TechInfo
    orig = TechInfo.from_json

    def from_json(*a, **k):
        if probe.mark is None:
            probe.mark = len(probe.said)
        return orig(*a, **k)
    TechInfo.from_json = from_json
    out = []
    for j in jobs:
        probe.said, probe.mark = [], None
        os.environ.update(j['env'])
        sys.argv = ['kpex'] + j['args']
        r = dict(status=0, tb='')
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
                KpexCLI().main(['main'] + j['args'])
        except SystemExit as e:
            r['status'] = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except BaseException as e:
            r['status'], r['tb'] = 1, traceback.format_exc()[-1500:]
        for h in logging.getLogger('__kpex__').handlers:
            h.flush()
        r.update(said=probe.said, mark=len(probe.said) if probe.mark is None else probe.mark, argv=' '.join(map(shlex.quote, sys.argv)),
                 end=time.time())
        if j.get('keep_log'):
            # what the log says now: later runs of this process must not change it
            r['record'] = {p: open(p, 'rb').read().decode('utf-8', 'replace') for p in j['logs'] if os.path.isfile(p)}
        out.append(r)
    return out


def start(c, jobs, run, delay, tag):
    """forks a process for the jobs; returns (pid, path of its report)"""
    path = os.path.join(c.dir, f"report-{tag}-{run}.json")
    fd = os.open(os.path.join(c.dir, f"events-{tag}.txt"), os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    seed = c.rng.random()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(100)
            kvflow.reset_logging()
            res = child(jobs, c.dir, fd, run, delay, seed)
            with open(path + '.part', 'w', encoding='utf-8', errors='surrogatepass') as f:
                json.dump(res, f)
            os.rename(path + '.part', path)
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(fd)
    return pid, path


def finish(c, started):
    out = []
    for pid, path in started:
        os.waitpid(pid, 0)
        if not os.path.exists(path):
            c.inconclusive.append(f"case {c.idx}: a monitored run left no report")
            return None
        out.append(json.load(open(path, encoding='utf-8', errors='surrogatepass')))
    return out


# ---------------------------------------------------------------- oracles

def snapshot(run_dir, base):
    """{relative path: content} of the files that state results, free of paths"""
    out = {}
    for d, _, fs in os.walk(run_dir):
        for f in fs:
            p = os.path.join(d, f)
            if not f.endswith(('.csv', '.cir', '.spice', '.rdb.gz', '.lst', '.geo', '.stl', '.tcl', '.ext')):
                continue
            b = open(p, 'rb').read()
            if f.endswith('.gz'):
                b = gzip.decompress(b)
            out[os.path.relpath(p, run_dir)] = b.replace(os.path.realpath(base).encode(), b'@').replace(base.encode(), b'@')
    return out


def check_log(c, what, run_dir, r, level):
    """the log files hold what the run said"""
    plain, form = (os.path.join(run_dir, n) for n in ('kpex_plain.log', 'kpex.log'))
    if not (os.path.isfile(plain) and os.path.isfile(form)):
        return c.violate('no-log', f"{what}: no kpex_plain.log and kpex.log in the directory of the run: {sorted(os.listdir(run_dir)) if os.path.isdir(run_dir) else None}")
    said = [tuple(x) for x in r['said']]
    head = 1 if said and said[0][1] == r['argv'] else 0      # the command line is said before there is a place for the log
    text = open(plain, 'rb').read().decode('utf-8', 'replace')
    keep = max(LEVELS[level], SUBPROCESS)

    def expected(start, cut):
        return [(l, m) for i, (l, m) in enumerate(said) if i >= start and (l >= keep or (i < cut and l >= SUBPROCESS))]
    for s in range(head, -1, -1):
        # while the arguments are checked everything from level 'subprocess' on may be written
        for cut in sorted({r['mark'], 0} | set(range(r['mark'] + 1))):
            want = expected(s, cut)
            if text == ''.join(m + '\n' for _, m in want):
                break
        else:
            continue
        break
    else:
        got, want = text.split('\n'), ''.join(m + '\n' for _, m in expected(head, r['mark'])).split('\n')
        k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        return c.violate('log-content', f"{what}: kpex_plain.log has {len(got)} lines, the run said {len(want)}; line {k}: {got[k:k + 2]!r:.300} "
                         f"instead of {want[k:k + 2]!r:.300}")
    c.count('messages found in the logs', len(want))
    ft = open(form, 'rb').read().decode('utf-8', 'replace')
    pos = 0
    for l, m in want:
        g = re.compile(r'\[\d{4}-\d\d-\d\d \d\d:\d\d:\d\d,\d{3}\] \[(\w+)\]    ').match(ft, pos)
        if not g or g.group(1) != {v: k for k, v in LEVELS.items()}[l].upper() or not ft.startswith(m + '\n', g.end()):
            return c.violate('log-formatted', f"{what}: kpex.log has {ft[pos:pos + 120]!r} where {m[:120]!r} of level {l} belongs")
        pos = g.end() + len(m) + 1
    c.expect(pos == len(ft), 'log-formatted', f"{what}: kpex.log goes on with {ft[pos:pos + 200]!r}")
    return text


def check_tools(c, what, run_dir, r, level, tees):
    """logs of the tools hold exactly what the tools said, and so does the run's log"""
    for t, p in tees.items():
        if not os.path.isfile(p):
            continue
        text = open(p, 'rb').read().decode('utf-8', 'backslashreplace').replace('\r\n', '\n')
        found = False
        for d, _, fs in os.walk(run_dir):
            for f in fs:
                if f.endswith(('.log', '.txt')) and not f.startswith('kpex'):
                    found |= open(os.path.join(d, f), encoding='utf-8', errors='replace').read() == text
        c.count('tool logs compared')
        if not c.expect(found, 'tool-log', f"{what}: no log file holds the {len(text)} characters {TOOLNAME[t]} printed"):
            return
        lines = text.split('\n')
        if lines[-1] == '':
            lines.pop()
        said = [m for l, m in r['said'] if l == SUBPROCESS]
        n = len(lines)
        c.count('lines of tools looked up', n)
        if not any(said[i:i + n] == lines for i in range(len(said) - n + 1)):
            i = next((i for i, m in enumerate(said) if m == lines[0]), 0)
            k = next((k for k in range(n) if i + k >= len(said) or said[i + k] != lines[k]), 0)
            c.violate('tool-lines', f"{what}: the run's log has {said[i + k:i + k + 1]!r:.200} where {TOOLNAME[t]} printed {lines[k]!r:.200}")
            return


# ---------------------------------------------------------------- workload

def inputs(c, pdk):
    """[(option, path, [cells], [top cells])]"""
    rng = c.rng
    r = []
    d = os.path.join(c.dir, 'in')
    os.makedirs(d, exist_ok=True)
    for k in range(rng.randint(1, 2)):
        ly = kdb.Layout()
        names = ['TOP', 'ALT', 'my_cell'][:rng.choice([1, 2, 2, 3])]
        for n in names:
            part = kvcli.small_layout(rng, pdk, n=3, size=2200, namer=lambda i: f"{n[0]}{i}").to_kdb(top='X', pins=True)
            cell = ly.create_cell(n)
            for li in part.layer_indexes():
                cell.shapes(ly.layer(part.get_info(li))).insert(part.top_cell().shapes(li))
        p = os.path.join(d, f"chip{k}.{rng.choice(['gds', 'gds.gz', 'oas'])}")
        ly.write(p)
        r.append(('--gds', p, names, names))
    if rng.random() < 0.5:
        n = rng.choice(['TOP', 'db'])
        ly = kvcli.small_layout(rng, pdk, n=3, size=2200, namer=lambda i: f"D{i}").to_kdb(top=n, pins=True)
        p = os.path.join(d, 'data.lvsdb.gz')
        kvlvs.extract(ly, n, pdk).write(p)
        r.append(('--lvsdb', p, [n], [n]))
    return r


def stem(p):
    b = os.path.basename(p)
    return re.sub(r'\.(gds|gds\.gz|oas|lvsdb\.gz)$', '', b)


def make_jobs(c, pdk, k):
    rng = c.rng
    ins = inputs(c, pdk)
    rc = os.path.join(c.dir, 'magicrc')
    open(rc, 'w').close()
    jobs = []
    for i in range(k):
        opt, path, cells, tops = rng.choice(ins)
        cell = rng.choice(cells)
        eng = {e for e in ('fc', 'f2', '25') if rng.random() < {'25': 0.7}.get(e, 0.25)}
        if opt == '--gds' and rng.random() < 0.2:
            eng.add('magic')
        eng = eng or {'25'}
        a = ['--pdk', pdk, opt, path] + [kvcli.FLAG[e] for e in sorted(eng)] + ['--diel', 'none']
        if opt == '--gds' and (len(tops) > 1 or rng.random() < 0.3):
            a += ['--cell', cell]
        if 'magic' in eng:
            a += ['--magicrc', rc]
        level = rng.choice(list(LEVELS) + ['subprocess'] * 4)
        if level != 'subprocess' or rng.random() < 0.3:
            a += ['--log_level', level]
        if '25' in eng:
            a += ['--mode', rng.choice(['CC', 'RC', 'R'])]
        if opt == '--gds':
            a += ['--cache-lvs', rng.choice(['yes', 'yes', 'no'])]
        modes = {}
        for t in ('lvs', 'fc', 'f2', 'magic'):
            if rng.random() < 0.2:
                modes[t] = 'noise'
            elif rng.random() < 0.04:
                modes[t] = 'fail'
        bad = None
        if rng.random() < 0.12:
            bad = rng.choice(['cell', 'engine', 'magicrc', 'file'])
            if bad == 'cell' and opt == '--gds':
                a = [x for x in a if x not in ('--cell', cell)] + ['--cell', 'nosuchcell']
                cell = 'nosuchcell'
            elif bad == 'file':
                a[a.index(opt) + 1] = path + '.missing'
            elif bad == 'magicrc' and opt == '--gds':
                a += ['--magic', '--magicrc', os.path.join(c.dir, 'nothing')]
            else:
                a = [x for x in a if x not in kvcli.FLAG.values()]
        jobs.append(dict(input=path, opt=opt, cell=cell, args=a, eng=sorted(eng), modes=modes, level=level, bad=bad, id=i))
    return jobs


def place(c, job, base, cache, tag):
    """the job with an output directory, a cache and tools of its own"""
    d = os.path.join(c.dir, f"log-{tag}-{job['id']}")
    os.makedirs(d, exist_ok=True)
    env = kvcli.env(d, job['modes'])
    tees = {}
    for t, var in kvcli.EXEVAR.items():
        tees[t] = os.path.join(d, f"{t}.out")
        w = os.path.join(d, f"{t}.sh")
        with open(w, 'w') as f:
            f.write(f'#!/bin/bash\nset -o pipefail\n"{env[var]}" "$@" 2>&1 | tee "{tees[t]}"\n')
        os.chmod(w, 0o755)
        env[var] = w
    a = job['args'] + ['--out_dir', base]
    if cache:
        a += ['--cache-dir', cache]
    run_dir = os.path.join(base, f"{stem(job['input'])}__{job['cell']}")
    return dict(job, args=a, env=env, tees=tees, run_dir=os.path.abspath(run_dir), base=base, keep_log=True,
                logs=[os.path.abspath(os.path.join(run_dir, n)) for n in ('kpex_plain.log', 'kpex.log')])


def what_of(c, j, tag):
    return f"{tag}: kpex {' '.join(j['args'])} modes {j['modes']}".replace(c.dir + '/', '')


def judge(c, j, r, tag):
    """record of one run"""
    what = what_of(c, j, tag)
    if r['tb'] and not j['modes']:
        c.violate('run-crashed', f"{what}: {r['tb'][-900:]}")
        return
    if j['bad'] == 'file':
        # no directory of the run: its messages are among those in the output directory
        said = ''.join(m + '\n' for l, m in r['said'][1 if r['said'] and r['said'][0][1] == r['argv'] else 0:] if l >= SUBPROCESS)
        texts = [open(os.path.join(d, f), 'rb').read().decode('utf-8', 'replace') for d, _, fs in os.walk(j['base']) for f in fs
                 if f.startswith('kpex_plain')]
        c.count('refused runs without a directory')
        c.expect(r['status'] != 0 and any(said in x for x in texts), 'log-of-refused-run',
                 f"{what}: status {r['status']}, no log in the output directory says {said[:300]!r}")
        return
    check_log(c, what, j['run_dir'], r, j['level'])
    check_tools(c, what, j['run_dir'], r, j['level'], j['tees'])
    c.count('runs with complete records')
    c.saw(['record', j['eng'], j['level'], len(r['said']), r['status'], sorted(j['modes'].items())])


def together(c):
    """several runs at once, into one output directory or with one cache"""
    rng = c.rng
    pdk = rng.choice(['sky130A', 'ihp_sg13g2'])
    jobs = make_jobs(c, pdk, rng.randint(2, 4))
    alone = []
    for j in jobs:
        base = os.path.join(c.dir, f"solo{j['id']}", 'out')
        alone.append(place(c, j, base, None, 'solo'))
    rs = finish(c, [start(c, [j], j['id'], (0, 0), f"solo{j['id']}") for j in alone])
    if rs is None:
        return
    for j, r in zip(alone, rs):
        judge(c, j, r[0], 'alone')
        j['status'], j['results'] = r[0]['status'], snapshot(j['run_dir'], j['base'])
    if c.violations:
        return
    for rep in range(2 if c.tier == 'quick' else 4):
        taken = collections.defaultdict(set)
        cache = os.path.join(c.dir, f"cache{rep}") if rng.random() < 0.5 else None
        par = []
        for j in jobs:
            key = (stem(j['input']), j['cell'])
            b = 0
            while key in taken[b]:
                b += 1
            taken[b].add(key)
            par.append(place(c, j, os.path.join(c.dir, f"par{rep}-{b}", 'out'), cache, f"par{rep}"))
        delay = rng.choice([(0.05, 0.01), (0.3, 0.02), (0.6, 0.05), (0.1, 0.2), (0, 0)])
        rs = finish(c, [start(c, [j], j['id'], delay, f"par{rep}") for j in par])
        if rs is None:
            return
        ev = open(os.path.join(c.dir, f"events-par{rep}.txt")).read().split('\n')
        c.count('file operations of concurrent runs', len(ev) - 1)
        c.count('switches between concurrent runs', sum(a.split(' ')[0] != b.split(' ')[0] for a, b in zip(ev, ev[1:-1])))
        c.saw(['order', hashlib.sha1('\n'.join(ev).encode()).hexdigest()])
        c.count('runs at the same time', len(par))
        c.count('concurrent runs sharing an output directory', len(par) - len({j['base'] for j in par}))
        for j, r, a in zip(par, rs, alone):
            what = what_of(c, j, f"together with {len(par) - 1} others, delays {delay}")
            if r[0]['status'] != a['status']:
                c.violate('status-differs', f"{what}: status {r[0]['status']} instead of {a['status']} alone; {r[0]['tb'][-900:]} "
                          f"{[m for l, m in r[0]['said'] if l >= 40][:3]}")
                continue
            judge(c, j, r[0], f"together with {len(par) - 1} others")
            got = snapshot(j['run_dir'], j['base'])
            c.count('results compared with those of the run alone', len(got))
            if got != a['results']:
                diff = sorted(k for k in set(got) | set(a['results']) if got.get(k) != a['results'].get(k))
                c.violate('result-differs', f"{what}: {diff[:5]} are not as of the run alone")
        if c.violations:
            return


def in_turn(c):
    """several runs one after another, in one process or several, into the same directories"""
    rng = c.rng
    pdk = rng.choice(['sky130A', 'ihp_sg13g2'])
    jobs = make_jobs(c, pdk, rng.randint(1, 3))
    base = os.path.join(c.dir, 'out')
    kept = collections.defaultdict(list)          # run directory -> contents of logs of earlier runs, in order
    n = 0
    for batch in range(rng.randint(1, 2)):
        seq = [dict(place(c, dict(rng.choice(jobs), id=100 * batch + i), base, None, 'seq')) for i in range(rng.randint(1, 4))]
        rs = finish(c, [start(c, seq, batch, (0, 0), f"seq{batch}")])
        if rs is None:
            return
        last = {j['run_dir']: i for i, j in enumerate(seq)}
        for i, (j, r) in enumerate(zip(seq, rs[0])):
            what = what_of(c, j, f"run {n} of a sequence")
            n += 1
            if r['tb'] and not j['modes']:
                c.violate('run-crashed', f"{what}: {r['tb'][-900:]}")
                return
            for p in j['logs']:
                if p in r['record']:
                    kept[p].append(r['record'][p])
            c.count('runs in sequences')
            if last[j['run_dir']] == i:
                judge(c, j, r, f"run {n} of a sequence")
    for p, want in kept.items():
        d, b = os.path.split(p)
        have = collections.Counter(open(os.path.join(d, f), 'rb').read().decode('utf-8', 'replace')
                                   for f in os.listdir(d) if f.startswith(b[:-4]) and f.endswith('.log')
                                   and (f == b or re.match(re.escape(b[:-4]) + r'(?!_plain)_.*\.bak\.log$', f)))
        c.count('earlier logs looked up', len(want))
        lost = collections.Counter(want) - have
        if lost:
            x = next(iter(lost))
            c.violate('earlier-log-lost', f"{os.path.relpath(p, c.dir)}: of {len(want)} runs {sum(lost.values())} have no log any more, e.g. the one "
                      f"beginning {x[:150]!r}; files {sorted(os.listdir(d))[:20]}")
            return


def case(c):
    logging.disable(logging.NOTSET)
    (in_turn if c.idx % 3 == 2 else together)(c)


def main():
    ck = kvcore.Check('C26', 'kpex command lines (several inputs, cells, engines, levels, noisy and failing tools, refused ones) alone, at the same '
                      'time with pauses injected at file operations, and in sequence in one process; an evaluation is one run whose log is '
                      'compared with what it said, or one interleaving of file operations; distinct by that',
                      required=['messages found in the logs', 'tool logs compared', 'lines of tools looked up', 'runs at the same time',
                                'concurrent runs sharing an output directory', 'results compared with those of the run alone',
                                'switches between concurrent runs', 'earlier logs looked up', 'runs in sequences', 'refused runs without a directory'],
                      assumptions=['two runs at the same time never have the same run directory (output directory, input name and cell)'])
    ck.run(case, 100, 1500)
    ck.finish()
