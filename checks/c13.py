"""C13: whatever runs came before, a run reports the parasitics of the inputs it was given."""
import contextlib, glob, hashlib, logging, os, random, shutil, signal, subprocess, sys
import klayout.db as kdb
import kvcli, kvcore, kvflow, kvlvs

PDKS = ['sky130A', 'ihp_sg13g2']
SECOND = ['alt', 'Top', 'top', 'TOP1']


def both(rng, path, cells):
    """a layout file usable with both technologies; one or two top cells"""
    ly = kdb.Layout()
    ly.dbu = 0.001
    for j, name in enumerate(cells):
        cell = ly.create_cell(name)
        for pdk in PDKS:
            L = kvcli.small_layout(rng, pdk, n=3, size=2200, namer=lambda k: f"{'Ta'[j]}{k}")
            part = L.to_kdb(top='X', pins=True)
            for li in part.layer_indexes():
                cell.shapes(ly.layer(part.get_info(li))).insert(part.top_cell().shapes(li))
    ly.write(path)


class Tree:
    """a scratch copy of the program whose LVS decks may be edited; runs as a process of its own"""

    def __init__(self, d):
        self.dir = os.path.join(d, 'tree')
        shutil.copytree(os.path.join(kvflow.REPO, 'klayout_pex'), os.path.join(self.dir, 'klayout_pex'),
                        ignore=shutil.ignore_patterns('__pycache__'))
        os.symlink(os.path.join(kvflow.REPO, 'klayout_pex_protobuf'), os.path.join(self.dir, 'klayout_pex_protobuf'))
        open(os.path.join(self.dir, '.git'), 'w').close()
        for p in glob.glob(os.path.join(kvflow.REPO, 'pdk', '*', 'libs.tech', 'kpex', '**', '*.lvs'), recursive=True):
            q = os.path.join(self.dir, os.path.relpath(p, kvflow.REPO))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            shutil.copy(p, q)
        self.tag = {p: '' for p in PDKS}

    def edit(self, rng, pdk, tag):
        """a changed rule in the deck or in a file it includes; the result is that all names end with the tag"""
        fs = sorted(glob.glob(os.path.join(self.dir, 'pdk', pdk, 'libs.tech', 'kpex', '**', '*.lvs'), recursive=True))
        for f in fs:
            s = [x for x in open(f, encoding='utf-8').read().split('\n') if not x.startswith('# kvtag ')]
            open(f, 'w', encoding='utf-8').write('\n'.join(s))
        f = rng.choice(fs)
        st = os.stat(f)
        with open(f, 'a', encoding='utf-8') as o:
            o.write(f"\n# kvtag {tag}\n")
        if rng.random() < 0.5:
            os.utime(f, ns=(st.st_atime_ns, st.st_mtime_ns))
        self.tag[pdk] = tag

    def run(self, args, env):
        p = subprocess.run([sys.executable, '-B', '-m', 'klayout_pex.kpex_cli'] + args, env={**os.environ, **env, 'PYTHONPATH': self.dir},
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=self.dir_of_case)
        return p.returncode, p.stdout.decode('utf-8', 'replace')


def crash_run(args, env, k, after):
    """runs kpex in a child that dies at (or right after) the k-th file operation following the start of LVS"""
    pid = os.fork()
    if pid:
        st = os.waitpid(pid, 0)[1]
        with contextlib.suppress(ProcessLookupError):
            os.killpg(pid, signal.SIGKILL)     # and the tool it was running
        return st
    try:
        os.setpgid(0, 0)
        state = dict(on=False, n=0)

        def prof(frame, event, arg):
            if event not in ('c_call', 'c_return'):
                return
            nm = getattr(arg, '__name__', '')
            if nm == 'fork_exec' or nm == 'posix_spawn':
                state['on'] = True
            if state['on'] and (getattr(arg, '__module__', None) in ('posix', '_io', 'io') or nm in ('read', 'write', 'flush', 'close', 'sendfile')):
                if event == ('c_return' if after else 'c_call'):
                    state['n'] += 1
                    if state['n'] >= k:
                        os._exit(97)
        sys.setprofile(prof)
        r = kvflow.kpex(args, env)
        os._exit(0 if r.status == 0 else 1)
    except BaseException:
        os._exit(98)


def case(c):
    logging.disable(logging.CRITICAL)
    rng = c.rng
    kvcli._ref.clear()
    tree = None
    if c.idx % 8 == 0:
        tree = Tree(c.dir)
        tree.dir_of_case = c.dir
    nvar = 2
    single = rng.random() < 0.4
    cells = ['TOP'] if single else ['TOP', rng.choice(SECOND)]
    variants = []
    for k in range(nvar):
        p = os.path.join(c.dir, f"variant{k}.gds")
        both(rng, p, cells)
        variants.append(p)
    places = [os.path.join(c.dir, d, 'in.gds') for d in ('p', 'q')][:rng.choice([1, 1, 2])]
    now = {}
    for p in places:
        os.makedirs(os.path.dirname(p))
        now[p] = rng.randrange(nvar)
        shutil.copy(variants[now[p]], p)
    sch = {}
    for s in ('a.spice', 'b.spice'):
        p = os.path.join(c.dir, s)
        sch[p] = ''

    def write_sch(p, tag):
        st = os.stat(p) if os.path.exists(p) else None
        with open(p, 'w') as f:
            f.write(f".subckt TOP VDD\n* kvtag {tag}\n.ends\n.end\n")
        sch[p] = tag
        if st and rng.random() < 0.4:
            os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
    for i, p in enumerate(sch):
        write_sch(p, '_' + 'uv'[i])
    outs = [os.path.join(c.dir, 'o1'), os.path.join(c.dir, 'o2')]
    caches = [None, os.path.join(c.dir, 'cc')]
    if rng.random() < 0.5:
        caches = caches[1:]
    if rng.random() < 0.5:
        outs = outs[:1]
    pdks = rng.choice([PDKS, PDKS[:1], PDKS[1:]])
    edits = 0
    story = []
    for step in range(rng.choice([3, 4, 5, 7])):
        # what happens to the inputs
        for _ in range(rng.choice([0, 0, 1, 2])):
            a = rng.random()
            if a < 0.4:
                p = rng.choice(places)
                k = rng.randrange(nvar)
                st = os.stat(p)
                shutil.copy(variants[k], p)
                how = rng.choice(['now', 'old', 'same', 'future'])
                if how == 'old':
                    os.utime(p, (1e9 + edits, 1e9 + edits))
                elif how == 'same':
                    os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
                elif how == 'future':
                    os.utime(p, (4e9, 4e9))
                now[p] = k
                story.append(f"edit {os.path.relpath(p, c.dir)}={k} ({how})")
                c.count('layout edits')
            elif a < 0.5:
                os.utime(rng.choice(places))
            elif a < 0.62:
                p = rng.choice(list(sch))
                edits += 1
                write_sch(p, f"_{'xyz'[edits % 3]}{edits}")
                story.append(f"schematic {os.path.basename(p)} tag {sch[p]}")
                c.count('schematic edits')
            elif a < 0.8:
                fs = [f for d in outs + [os.path.join(c.dir, 'cc')] for f in
                      glob.glob(os.path.join(d, '**', '*.lvsdb*'), recursive=True) + glob.glob(os.path.join(d, '.kpex_cache', '**', '*.lvsdb*'), recursive=True)]
                if fs:
                    f = rng.choice(sorted(fs))
                    b = open(f, 'rb').read()
                    how = rng.choice(['empty', 'half', 'garbage', 'unlink'])
                    if how == 'unlink':
                        os.unlink(f)
                    else:
                        open(f, 'wb').write(dict(empty=b'', half=b[:rng.randrange(max(1, len(b)))], garbage=os.urandom(0) + b'not a database\n')[how])
                    story.append(f"{how} {os.path.relpath(f, c.dir)}")
                    c.count('databases damaged')
            elif a < 0.88:
                shutil.rmtree(rng.choice(outs), ignore_errors=True)
                story.append('output directory removed')
            elif tree:
                edits += 1
                tree.edit(rng, rng.choice(pdks), f"_d{edits}")
                story.append(f"deck edit {tree.tag}")
                c.count('deck edits')
        gds, pdk, out = rng.choice(places), rng.choice(pdks), rng.choice(outs)
        cell = rng.choice(cells)
        schem = rng.choice([None] * 4 + list(sch))
        cache = rng.choice([None, None, True, True, True, False])
        cdir = rng.choice(caches)
        mode = rng.choice(['ok'] * 6 + ['fail', 'silent', 'truncate', 'killed', 'noise', 'failafter'])
        crash = tree is None and rng.random() < 0.2
        args = ['--pdk', pdk, '--gds', gds, '--out_dir', out, '--2.5D', '--log_level', 'error']
        if not single or rng.random() < 0.3:
            args += ['--cell', cell]
        if schem:
            args += ['--schematic', schem]
        if cache is not None:
            args += ['--cache-lvs', rng.choice(['y', 'true', 'yes']) if cache else rng.choice(['n', 'false', 'no'])]
        if cdir:
            args += ['--cache-dir', cdir]
        suffix = (sch[schem] if schem else '') + (tree.tag[pdk] if tree else '')
        d = os.path.join(c.dir, 'logs')
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        env = kvcli.env(d, {'lvs': mode})
        before = {p: open(p, 'rb').read() for p in places + list(sch)}
        line = f"{'CRASH ' if crash else ''}run {pdk} {os.path.relpath(gds, c.dir)}={now[gds]} cell {cell} schematic {schem and os.path.basename(schem)}({suffix}) " \
               f"out {os.path.basename(out)} cache {cache} dir {cdir and os.path.basename(cdir)} LVS {mode}"
        story.append(line)
        if crash:
            st = crash_run(args, env, int(2 ** rng.uniform(0, 8)), rng.random() < 0.5)
            c.count('runs crashed' if os.waitstatus_to_exitcode(st) == 97 else 'crash points not reached')
            continue
        if tree:
            status, text = tree.run(args, env)
        else:
            r = kvflow.kpex(args, env)
            status, text = r.status, getattr(r, 'tb', r.out[-500:])
        called = len(kvcli.calls(d, 'lvs'))
        what = ' | '.join(story[-12:])
        c.count('runs')
        c.count('LVS runs' if called else 'cache hits')
        c.saw([pdk, now[gds], cell, suffix, cache, mode, called, hashlib.sha1(what.encode()).hexdigest()[:8]])
        c.expect(all(open(p, 'rb').read() == b for p, b in before.items()), 'input-modified', f"{what}: an input file was modified")
        if cache is False:
            c.expect(called == 1, 'cache-not-disabled', f"{what}: LVS was run {called} times although the cache is disabled")
        if called and mode in ('fail', 'silent', 'truncate', 'killed'):
            c.count('failed LVS runs')
            c.expect(status != 0, 'failure-reported-as-success', f"{what}: status 0 after LVS failed")
            continue
        if status != 0:
            c.violate('run-failed', f"{what}: ended with {status}: {text[-700:]}")
            return
        stem = 'in'
        got = kvcli.csv25(out, stem, cell)
        want = kvcli.reference25(variants[now[gds]], cell, pdk, suffix, c.dir)
        c.count('results compared')
        if got != want:
            c.violate('other-inputs', f"{what}: result {got[:4]}..., expected {want[:4]}...")
            return
        # an immediate repetition is a hit and changes nothing
        if cache is not False and not tree and rng.random() < 0.3:
            r = kvflow.kpex(args, kvcli.env(d, {'lvs': 'fail'}))
            c.count('immediate repetitions')
            c.expect(r.status == 0 and len(kvcli.calls(d, 'lvs')) == called, 'no-hit', f"{what}, repeated: status {r.status}, LVS was called again")
            if r.status == 0:
                c.expect(kvcli.csv25(out, stem, cell) == want, 'hit-differs', f"{what}, repeated: another result")


def main():
    ck = kvcore.Check('C13', 'histories of kpex runs over changing layouts, schematics, LVS decks, cells, technologies, output and cache directories, '
                      'with failing LVS runs, damaged databases and runs that die at a file operation; an evaluation is one run whose result is '
                      'compared with a cold run of the same inputs; distinct by inputs and history',
                      required=['runs', 'cache hits', 'LVS runs', 'failed LVS runs', 'results compared', 'layout edits', 'schematic edits', 'deck edits',
                                'databases damaged', 'runs crashed', 'immediate repetitions'],
                      assumptions=['files a schematic includes do not change while the schematic stays the same',
                                   'the stand-in for LVS makes the schematic and the deck visible in the names of the nets'])
    ck.run(case, 400, 5000)
    return ck.finish()
