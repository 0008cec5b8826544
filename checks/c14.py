"""C14: a failed external tool is never reported as success, a successful one never as a failure."""
import json, logging, os, shutil, stat
import kvcli, kvcore, kvfake, kvflow

BAD = {'lvs': ['fail', 'silent', 'truncate', 'killed', 'killedafter', 'missing', 'noexec'],
       'fc': ['fail', 'silent', 'nomatrix', 'cutoff', 'truncate', 'killed', 'killedafter', 'failafter', 'missing', 'noexec'],
       'f2': ['fail', 'silent', 'nomatrix', 'cutoff', 'truncate', 'killed', 'killedafter', 'failafter', 'missing', 'noexec'],
       'magic': ['fail', 'silent', 'noext', 'truncate', 'killed', 'killedafter', 'failafter', 'nospice', 'missing', 'noexec']}
GOOD = {'lvs': ['noise', 'failafter'], 'fc': ['noise'], 'f2': ['noise'], 'magic': ['noise']}     # LVS: netlists that do not match end with 1
PLAN = [(t, m, True) for t in BAD for m in BAD[t]] + [(t, m, False) for t in GOOD for m in GOOD[t]]
DOWN = {'lvs': {'fc', 'f2', '25'}, 'fc': {'fc'}, 'f2': {'f2'}, 'magic': {'magic'}}


def near(a, b):
    return abs(a - b) <= 2e-6 * max(abs(a), abs(b), 1e-30)


def check_matrix(c, path, salt, what):
    """the raw matrix file states what the solver printed"""
    lines = open(path, encoding='utf-8').read().split('\n')
    printed = lines[0].split(';')
    names = [n.split('_', 1)[1] if salt == 'FasterCap' else n.split('%GROUP')[0] for n in printed]
    want = kvfake.matrix(names, salt)
    got = [[float(x) for x in ln.split(';')] for ln in lines[1:] if ln]
    c.count('matrices compared')
    ok = len(got) == len(want) and all(near(g * 1e6, w) for gr, wr in zip(got, want) for g, w in zip(gr, wr))
    c.expect(ok, 'matrix', f"{what}: {os.path.basename(path)} does not state the matrix of the solver")
    return names


def case(c):
    logging.disable(logging.CRITICAL) if c.rng.random() < 0.5 else logging.disable(logging.NOTSET)
    rng = c.rng
    pdk = rng.choice(['sky130A', 'ihp_sg13g2'])
    kvcli._ref.clear()
    L1 = kvcli.small_layout(rng, pdk, n=3)
    L2 = kvcli.small_layout(rng, pdk, n=3)
    gds = os.path.join(c.dir, 'in.gds')
    kvcli.write_layout(L1, gds)
    engines = {e for e in ('fc', 'f2', '25', 'magic') if rng.random() < {'25': 0.5}.get(e, 0.4)} or {rng.choice(['fc', 'f2', '25', 'magic'])}
    tool, mode, bad = PLAN[c.idx % len(PLAN)]
    if tool == 'lvs':
        engines |= set() if engines & {'fc', 'f2', '25'} else {rng.choice(['fc', 'f2', '25'])}
    else:
        engines.add(tool)
    rc = os.path.join(c.dir, 'magicrc')
    open(rc, 'w').close()
    out = os.path.join(c.dir, 'out')
    if rng.random() < 0.4:
        out = 'out'                       # relative, as by default
    mm = rng.choice(['CC', 'RC', 'R'])
    cache = rng.random() < 0.6

    def run(engines, modes=None, exe=None, tag='run'):
        d = os.path.join(c.dir, f"log-{tag}")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        a = ['--pdk', pdk, '--gds', gds, '--out_dir', out, '--cache-lvs', 'yes' if cache else 'no', '--diel', 'none'] + [kvcli.FLAG[e] for e in sorted(engines)]
        if 'magic' in engines:
            a += ['--magicrc', rc, '--magic_mode', mm]
        before = kvcli.results(out)
        cwd = os.getcwd()
        r = kvflow.kpex(a, kvcli.env(d, modes, exe))
        c.expect(os.getcwd() == cwd, 'cwd', f"the working directory is {os.getcwd()} after a run")
        os.chdir(cwd)
        return r, d, before

    def succeeded(r, d, engines, what):
        c.count('runs expected to succeed')
        if r.status != 0:
            c.violate('good-run-failed', f"{what}: every tool succeeded, but the run ended with {r.status}: {getattr(r, 'tb', r.out[-600:])[-900:]}")
            return False
        cell = os.path.join(out, 'in__TOP')
        suffix = ''
        if '25' in engines:
            got = kvcli.csv25(out, 'in', 'TOP')
            c.count('netlists compared')
            c.expect(got == kvcli.reference25(gds, 'TOP', pdk, suffix, c.dir), 'stale-result', f"{what}: the 2.5D result is not that of this layout")
        for e, nm in (('fc', 'FasterCap'), ('f2', 'FastCap2')):
            if e in engines:
                names = check_matrix(c, os.path.join(cell, f"TOP_{nm}_Result_Matrix_Raw.csv"), nm.rstrip('2'), what)
                lst = os.path.join(cell, 'FasterCap_Input_Files', 'FasterCap_Input_.lst')
                c.expect(names == kvfake.conductors(lst), 'stale-result', f"{what}: matrix of {names}, input of {kvfake.conductors(lst)}")
                for s in ('Expanded_Netlist.cir', 'Reduced_Netlist.cir'):
                    c.expect(os.path.isfile(os.path.join(cell, f"TOP_{nm}_{s}")), 'no-result', f"{what}: no {nm} {s}")
        if 'magic' in engines:
            c.expect(os.path.isfile(os.path.join(cell, f"magic_{mm}", 'TOP_MAGIC_report.rdb.gz')), 'no-result', f"{what}: no MAGIC report")
        return True

    # an earlier run, of another layout or of the same
    history = rng.choice(['none', 'same', 'other', 'other'])
    if history != 'none':
        if history == 'other':
            kvcli.write_layout(L2, gds)
        r, d, _ = run(engines, tag='before')
        if not succeeded(r, d, engines, f"{pdk} {sorted(engines)} first run"):
            return
        if history == 'other':
            kvcli.write_layout(L1, gds)
            if rng.random() < 0.5:
                os.utime(gds, (1e9, 1e9))      # restored from somewhere, with its date

    exe = {}
    if mode == 'missing':
        exe = {tool: os.path.join(c.dir, 'no-such-tool')}
    if mode == 'noexec':
        exe = {tool: os.path.join(c.dir, 'not-executable')}
        open(exe[tool], 'w').write('#!/bin/sh\nexit 0\n')
        os.chmod(exe[tool], 0o644)
    os.environ['KV_SIGNAL'] = str(rng.choice([1, 2, 6, 9, 11, 13, 15]))
    what = f"signal {os.environ['KV_SIGNAL']} " * (mode == 'killedafter') + f"{pdk} engines {sorted(engines)}, history {history}, cache {cache}, {tool} {mode}"
    r, d, before = run(engines, {tool: mode}, exe)
    called = bool(kvcli.calls(d, tool))
    c.saw([pdk, sorted(engines), history, cache, tool, mode, called])
    c.count(f"{tool} {mode}")
    if not called and mode not in ('missing', 'noexec'):
        c.expect(tool == 'lvs' and history == 'same' and cache, 'tool-not-called', f"{what}: the tool was not called")
        c.count('tool spared by the cache')
        bad = False
    elif tool == 'lvs' and mode == 'noexec' and history == 'same' and cache:
        bad = r.status != 0          # may be noticed early or not be needed at all
        c.count('tool spared by the cache')
    if bad:
        c.count('runs expected to fail')
        c.expect(r.status != 0, 'failure-reported-as-success', f"{what}: the run ended with status 0")
        after = kvcli.results(out)
        for p in after:
            e = kvcli.engine_of(p)
            if p.endswith('.pex.spice'):
                continue              # written by MAGIC itself
            if e in DOWN[tool] and after[p] != before.get(p) and not (tool == 'magic' and mode == 'nospice' and p.endswith('.rdb.gz')):
                c.violate('result-of-failed-tool', f"{what}: the failed run wrote {os.path.relpath(p, c.dir)}")
        if tool == 'lvs':
            for t in ('fc', 'f2'):
                c.expect(not kvcli.calls(d, t), 'ran-on', f"{what}: {t} was run although LVS failed")
    else:
        succeeded(r, d, engines, what)

    # afterwards, with working tools
    if rng.random() < 0.7:
        r, d, _ = run(engines, tag='after')
        c.count('recoveries')
        succeeded(r, d, engines, what + ', run again with working tools')


def main():
    ck = kvcore.Check('C14', 'kpex runs with stand-ins for KLayout LVS, FasterCap, FastCap2 and MAGIC that fail in a chosen way, after no or an '
                      'earlier run in the same directory, followed by a healthy run; an evaluation is one run; distinct by technology, '
                      'engines, history, cache, tool and failure',
                      required=['runs expected to fail', 'runs expected to succeed', 'recoveries', 'netlists compared', 'matrices compared'] +
                      [f"{t} {m}" for t in BAD for m in BAD[t] + GOOD[t]],
                      assumptions=['KLayout LVS ending with a positive status after writing a complete database means that the netlists do not '
                                   'match (what the sky130A deck does), not a failure',
                                   'the external tools are stand-ins: none of them is installed here'])
    ck.run(case, 420, 6000)
    return ck.finish()
