"""C10: whatever matrix a field solver prints is parsed and stored without loss.

The generator writes logs the way FasterCap and FastCap print them (several iterations, solver chatter in
between) from a matrix it knows; the monitors compare what the parsers, the CSV files and the averaging
return with that matrix, entry by entry."""
import os, math, stat, json
import kvcore
from kvcore import REPO

NAMES = ['VSUBS', 'VDD', 'VSS', 'A', 'a', '$1', '$10', '$2', 'x[1]', 'x<3>', 'net;1'.replace(';', '.'), 'n-1', 'é', 'Dimension', 'g2_g1_X',
         'Capacitance', '1', '0', '10', '1e5', 'out:1', 'a/b', 'Warning:', 'nan', 'matrix', 'X%GROUP1', '__', '*', '#', 'C', 'N', 'net.', '.', 'b,', '-1', '$1.$0.3',
         'very_long_net_name_of_an_instance_in_a_deep_hierarchy/of/cells/net_17', '(void)', '+', '-', '=', '"q"', '\\BAR']
UNITS = {'': 1.0, 'milli': 1e-3, 'micro': 1e-6, 'nano': 1e-9, 'pico': 1e-12, 'femto': 1e-15, 'atto': 1e-18}


def value(rng, digits):
    r = rng.random()
    if r < 0.05:
        return 0.0
    v = rng.choice([1, -1]) * rng.random() * 10 ** rng.randint(-14, -5)
    return float(f"%.{digits}g" % v)


def matrix(rng, dim, digits):
    m = [[value(rng, digits) for _ in range(dim)] for _ in range(dim)]
    if rng.random() < 0.4:
        for i in range(dim):
            for j in range(dim):
                m[i][j] = -abs(m[i][j]) if i != j else abs(m[i][j])
    return m


def chatter(rng):
    pool = ['GMRES Iteration: ' + ' '.join(map(str, range(rng.randint(1, 40)))), 'Done computing links',
            '*' * 39, 'Precond Type(s) (-p): Jacobi', '', 'Iteration time: 0.0512s (0 days, 0 hours, 0 mins, 0 s)',
            'Warning: capacitance matrix is not diagonally dominant due to row 2', 'Max recursion level: 43',
            'Weighted Frobenius norm of the difference between capacitance (auto option): 0.0166179',
            'Capacitance matrix computation', 'Iteration number #3 ***', 'Iteration allocated memory: 2272140 kilobytes',
            'Dimension of the problem: 3 x 3', '1 2 3', 'Copyright © 2024', 'g1_VDD  1 2 3']
    return [rng.choice(pool) for _ in range(rng.choice([0, 1, 3, 12]))]


def fastercap_log(rng, names, mats, digits, eol, trailing):
    out = []
    for m in mats:
        out += chatter(rng)
        out.append(rng.choice(['', ' ', '\t']) * rng.choice([0, 1]) + 'Capacitance matrix is:')
        out.append(f"Dimension {len(names)} x {len(names)}")
        for n, row in zip(names, m):
            out.append(f"{n}  " + ' '.join(f"%.{digits}g" % v for v in row) + ' ')
        out += chatter(rng)
    if trailing:
        out += ['Solve statistics:', 'Number of input panels: 2419 of which 1315 conductors and 1104 dielectric', '',
                'Total time: 70.873131s (0 days, 0 hours, 1 mins, 10 s)']
    return eol.join(out) + eol


def fastcap_log(rng, names, mats, digits, unit, eol):
    out = []
    w = max(len(n) for n in names)
    pad = rng.random() < 0.7
    for m in mats:
        out += chatter(rng)
        out.append('mksCapDump: Warning - capacitance matrix has non-negative off-diagonals')
        out.append('  row 1 col 4')
        out.append('')
        out.append(f"CAPACITANCE MATRIX, {unit}farads")
        iw = len(str(len(names)))
        out.append(' ' * (w + iw) + ''.join(' %10d' % (j + 1) for j in range(len(names))) + ' ')
        for i, (n, row) in enumerate(zip(names, m)):
            nn = n.ljust(w) if pad else n
            out.append(f"{nn} {(i + 1):>{iw if pad else 1}d} " + ' '.join('%10s' % (f"%.{digits}g" % v) for v in row))
    return eol.join(out) + eol


def same(c, key, what, cm, names, m, factor, rel=0.0):
    if not c.expect(list(cm.conductor_names) == list(names), f"{key}:names", f"{what}: names {cm.conductor_names} instead of {names}"):
        return False
    if not c.expect(cm.dimension == len(names) and len(cm.rows) == len(names) and all(len(r) == len(names) for r in cm.rows),
                    f"{key}:dimension", f"{what}: {len(cm.rows)} rows of {[len(r) for r in cm.rows][:5]} for {len(names)} conductors"):
        return False
    for i, row in enumerate(m):
        for j, v in enumerate(row):
            c.count('entries compared')
            want, got = v * factor, cm[i][j]
            if not (got == want or abs(got - want) <= max(rel, 1e-14) * abs(want)):
                c.violate(f"{key}:value", f"{what}: entry [{i}][{j}] is {got!r} instead of {want!r} (dimension {len(names)})")
                return False
    c.saw([key, len(names), [['%.6g' % v for v in r] for r in m[:3]]])
    return True


def csv_roundtrip(c, cm, sep):
    """a matrix written to CSV and read again is the same; 12 significant digits are kept"""
    from klayout_pex.common.capacitance_matrix import CapacitanceMatrix
    before = ([*cm.conductor_names], [[*r] for r in cm.rows])
    p = os.path.join(c.dir, f"m{c.rng.randrange(10**9)}.csv")
    if sep is None:
        cm.write_csv(p)
        back = CapacitanceMatrix.parse_csv(p)
    else:
        cm.write_csv(p, separator=sep)
        back = CapacitanceMatrix.parse_csv(p, separator=sep)
    c.count('csv round trips')
    if not same(c, 'csv', f"CSV with separator {sep!r}", back, before[0], before[1], 1.0, rel=5.1e-12):
        return
    c.expect((cm.conductor_names, cm.rows) == before, 'csv:writes-into-matrix', "writing a CSV file changed the matrix")
    # a reader of its own
    lines = open(p, encoding='utf-8').read().split('\n')
    s = sep or ';'
    own = [[float(x) for x in ln.split(s)] for ln in lines[1:] if ln]
    c.expect(lines[0].split(s) == before[0] and len(own) == len(before[1]), 'csv:file', f"CSV file starts {lines[:2]}")
    # second generation is identical to the first
    p2 = p + '2'
    back.write_csv(p2, separator=s)
    c.expect(open(p).read() == open(p2).read(), 'csv:second-generation', "writing the parsed matrix gives another file")


def averaged(c, cm):
    before = ([*cm.conductor_names], [[*r] for r in cm.rows])
    av = cm.averaged_off_diagonals()
    c.count('averaged')
    n = len(before[0])
    want = [[before[1][i][i] if i == j else (before[1][i][j] + before[1][j][i]) / 2 for j in range(n)] for i in range(n)]
    if same(c, 'averaged', 'averaged matrix', av, before[0], want, 1.0, rel=1e-12):
        for i in range(n):
            c.expect(av[i][i] == before[1][i][i], 'averaged:diagonal', f"diagonal entry {i} changed")
            for j in range(i):
                c.expect(av[i][j] == av[j][i], 'averaged:symmetry', f"averaged matrix is not symmetric at [{i}][{j}]")
    c.expect((cm.conductor_names, cm.rows) == before, 'averaged:writes-into-matrix', "averaging changed the original matrix")
    # symmetric matrices are fixed points
    again = av.averaged_off_diagonals()
    c.expect(again.rows == av.rows, 'averaged:twice', "averaging an averaged matrix changes it")


def broken(c, parse, text, names, what):
    """an incomplete last matrix must be refused, not misread"""
    p = os.path.join(c.dir, 'broken.txt')
    with open(p, 'w') as f:
        f.write(text)
    try:
        cm = parse(p)
    except Exception as e:
        if isinstance(e, (IndexError, AttributeError, UnboundLocalError)):
            c.violate(f"broken:{type(e).__name__}", f"{what}: {e!r}")
        c.count('broken logs refused')
        c.saw(['broken', what, len(names)])
        return
    c.violate('broken:accepted', f"{what}: accepted as a matrix of {cm.dimension} conductors {cm.conductor_names[:4]} rows {cm.rows[:2]}",
              log=text[-1500:])


def through_exe(c, engine, text, names, m, factor):
    """the run functions write the log exactly as printed; the parser then sees the same"""
    from klayout_pex.fastercap import fastercap_runner as fr
    from klayout_pex.fastcap import fastcap_runner as fc
    src = os.path.join(c.dir, 'out.txt')
    with open(src, 'w', newline='') as f:
        f.write(text)
    exe = os.path.join(c.dir, 'exe')
    with open(exe, 'w') as f:
        f.write(f"#!/bin/sh\necho \"$@\" > '{c.dir}/argv'\npwd > '{c.dir}/cwd'\ncat '{src}'\n")
    os.chmod(exe, 0o755)
    lst = os.path.join(c.dir, 'a.lst')
    open(lst, 'w').write('* x\n')
    log = os.path.join(c.dir, 'log.txt')
    import kvflow
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        if engine == 'fastercap':
            fr.run_fastercap(exe, lst, log, 0.05, 0.5, 0.5, None, True, False, False)
            cm = fr.fastercap_parse_capacitance_matrix(log)
        else:
            # FastCap runs in the folder of its list file; the executable is named in any of the usual ways
            opts, want = {}, {'-o': 2.0, '-p': 1.0, '-t': 0.01}
            for k, fl, vals in (('expansion_order', '-o', [1, 2, 3]), ('partitioning_depth', '-d', [3, 5, 'auto']), ('permittivity_factor', '-p', [1.0, 3.9]), ('iterative_tolerance', '-t', [0.05, 0.001])):
                if c.rng.random() < 0.4:
                    opts[k] = c.rng.choice(vals)
                    if opts[k] != 'auto':
                        want[fl] = float(opts[k])
            sub = os.path.join(c.dir, 'sub')
            os.makedirs(sub, exist_ok=True)
            lst = os.path.join(c.rng.choice([sub, 'sub']), 'b.lst')
            open(lst, 'w').write('* x\n')
            how = c.rng.choice(['absolute', 'relative', 'path'])
            old = os.environ['PATH']
            if how == 'path':
                os.environ['PATH'] = c.dir + os.pathsep + old
            log = c.rng.choice([log, 'log.txt'])
            try:
                fc.run_fastcap({'absolute': exe, 'relative': './exe', 'path': 'exe'}[how], lst, log, **opts)
            finally:
                os.environ['PATH'] = old
            cm = fc.fastcap_parse_capacitance_matrix(log)
            argv = open(os.path.join(c.dir, 'argv')).read().split()
            c.expect(argv.count('-lb.lst') == 1 and {t[:2]: float(t[2:]) for t in argv if t[:2] != '-l'} == want and len(argv) == len(want) + 1, 'fastcap-options', f"run_fastcap {opts} called FastCap with {argv}")
            cwd = open(os.path.join(c.dir, 'cwd')).read().strip()
            c.expect(os.path.realpath(cwd) == os.path.realpath(sub), 'fastcap-folder', f"FastCap was run in {cwd}, its list file is in {sub}")
            c.count('fastcap executable ' + how)
    c.count(f"{engine} runs")
    if engine == 'fastercap' or True:
        got = open(log, encoding='utf-8').read()
        c.expect(got.split() == text.split(), 'log:differs', f"{engine} log is not what the solver printed")
    same(c, engine, f"{engine} run", cm, names, m, factor)


def case(c):
    from klayout_pex.fastercap.fastercap_runner import fastercap_parse_capacitance_matrix as pf
    from klayout_pex.fastcap.fastcap_runner import fastcap_parse_capacitance_matrix as pc
    import logging
    logging.disable(logging.CRITICAL) if c.idx % 3 else None
    rng = c.rng
    dim = rng.choice([1, 2, 2, 3, 4, 5, 9, 10, 11, 12, 25, 40 if c.idx % 10 == 0 else 6])
    base = rng.sample(NAMES, min(dim, len(NAMES)))
    while len(base) < dim:
        base.append(f"n{len(base)}")
    digits = rng.choice([3, 4, 6, 6, 9])
    mats = [matrix(rng, dim, digits) for _ in range(rng.choice([1, 1, 2, 4]))]
    eol = '\n'
    p = os.path.join(c.dir, 'log.txt')
    names = [f"g{rng.choice([1, 1, 1, 12])}_{n}" for n in base]
    text = fastercap_log(rng, names, mats, digits, eol, rng.random() < 0.8)
    with open(p, 'w', encoding='utf-8') as f:
        f.write(text)
    cm = pf(p)
    c.count('fastercap logs')
    if not same(c, 'fastercap', 'FasterCap log', cm, names, mats[-1], 1e-6):
        return
    averaged(c, cm)
    csv_roundtrip(c, cm, rng.choice([None, ';', '\t', '|']))
    csv_roundtrip(c, cm.averaged_off_diagonals(), ';')

    unit = rng.choice(list(UNITS)) if rng.random() < 0.5 else 'pico'
    if unit == '':
        unit = rng.choice(['', 'pico'])
    cnames = [f"{n}%GROUP{i + 1}" for i, n in enumerate(base)]
    if rng.random() < 0.2:
        cnames = [cnames[i // 2 * 2] for i in range(dim)]          # conductors of several groups of one name
    # FastCap prints at most 4 digits and picks the unit to suit
    s = 10 ** rng.randint(3, 12)
    fm = [[[float('%.4g' % (v * s)) for v in r] for r in m] for m in mats]
    ftext = fastcap_log(rng, cnames, fm, 4, unit, eol)
    with open(p, 'w', encoding='utf-8') as f:
        f.write(ftext)
    cm = pc(p)
    c.count('fastcap logs')
    factor = UNITS[unit] * 1e-6
    if not same(c, 'fastcap', f"FastCap log in {unit}farads", cm, cnames, fm[-1], factor):
        return
    averaged(c, cm)
    csv_roundtrip(c, cm, ';')

    if c.idx % 4 == 0:
        # cut the log in the middle of its last matrix: fewer rows, or fewer entries in the last row
        for nm, parse, tx, head in (('fastercap', pf, text, 'Capacitance matrix is:'), ('fastcap', pc, ftext, 'CAPACITANCE MATRIX')):
            lines = tx.split(eol)
            at = max(i for i, ln in enumerate(lines) if head in ln)
            last = at + 1 + dim
            k = rng.randint(at, last)
            cut = lines[:k + 1]
            how = rng.choice(['line', 'middle']) if k > at else 'line'
            if how == 'middle' and k > at + 1:
                cells = cut[-1].split()
                drop = rng.randint(1, dim)
                cut[-1] = ' '.join(cells[:len(cells) - drop])
            elif k == last:
                cut = cut[:-1]
            broken(c, parse, eol.join(cut) + eol, base, f"{nm} log cut in its last matrix")
        broken(c, pf, eol.join(chatter(rng)) + eol, base, 'FasterCap log without matrix')
        broken(c, pc, eol.join(chatter(rng)) + eol, base, 'FastCap log without matrix')
    if c.idx % 5 == 0:
        through_exe(c, 'fastercap', text, names, mats[-1], 1e-6)
        through_exe(c, 'fastcap', ftext, cnames, fm[-1], factor)
    c.sample = dict(dim=dim, iterations=len(mats), names=names[:4], first_row=mats[-1][0][:4])
    logging.disable(logging.NOTSET)


def main():
    ck = kvcore.Check('C10', 'random capacitance matrices (1..40 conductors, awkward names, 1..4 iterations, several units) printed '
                      'in the solvers\' log formats; an evaluation is a parsed, averaged or re-read matrix compared entry by entry; '
                      'distinct by kind, dimension and leading entries',
                      required=['entries compared', 'csv round trips', 'averaged', 'broken logs refused', 'fastercap runs', 'fastcap runs'],
                      assumptions=['log formats as in testdata (FasterCap_Output, FastCap_Output); conductor names contain no whitespace and, '
                                   'for CSV, not the separator', 'FasterCap prints farad and FastCap the stated unit for a model whose '
                                   'micrometres are taken for metres, hence the factor 1e-6'])
    ck.run(case, 6000, 60000)
    ck.finish()
