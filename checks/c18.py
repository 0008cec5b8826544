"""C18: the MAGIC script asks for what was asked, Tcl reads it as meant, the .ext files are read completely and the report shows them."""
import glob, inspect, logging, math, os, random, re, shutil
import klayout.db as kdb
import klayout.rdb as rdb
import kvcli, kvcore, kvfake, kvflow, kvlvs

PLAIN = ['VDD', 'VSS', 'out', 'A', 'clk_1', 'n1', 'Z9']
NAMES = PLAIN + ['a_27_47#', 'm1_n135_n200#', 'w_n38_261#', 'out[3]', 'bus[0]', 'data<3>', 'X0/A', 'X1/X2/a_1_1#', 'vdd!', 'gnd!', 'x$1', 'net.7',
                 'clk-n', 'a+b', 'q\\0', 'my net', 'B*', "it's", 'a,b', '(x)', '{y}', 'VDD.n1', 'VDD.t0', 'a_27_47#.n12', 'out[3].t2', 'µ', 'a=b', '%s', ';', '|', '@1',
                 'port', 'node', '1', '-5', 'n' * 120]
LAYERS = ['m1', 'm5', 'li1', 'ndiff', 'pw', 'poly', 'space', 'mvnwell', 'via1', 'li', 'psd', 'metal1', 'ndiffc', 'dnw', 'nw']
MODELS = ['sky130_fd_pr__nfet_01v8', 'sky130_fd_pr__pfet_01v8', 'sg13_lv_nmos', 'None', 'nmos', 'sky130_fd_pr__cap_mim_m3_1', 'D1', 'nfet.v2', 'rpoly$1', 'a-b', 'é', 'mos[1]']
TYPES = ['fet', 'mosfet', 'asymmetric', 'bjt', 'devres', 'devcap', 'devcaprev', 'vsource', 'diode', 'pdiode', 'ndiode', 'subckt', 'rsubckt', 'msubckt', 'csubckt']
CELLS = ['TOP', 'inv', 'sky130_fd_sc_hd__inv_1', 'nfet$1', 'cell.v2', 'a-b', 'X_flat', 'mux[2]', 'pcell$$1', 'é', 'n' * 60]
FILES = ['plain', 'with space', 'br[ack]et', 'dollar$x', 'cur{ly', 'quo"te', 'semi;colon', 'hash#1', 'é', 'back\\slash', "apo'", '{a}', '[exit]', '$env(HOME)', 'a}b']


def name(rng):
    n = rng.choice(NAMES if rng.random() < 0.7 else PLAIN)
    if rng.random() < 0.2:
        n += rng.choice(['_%d' % rng.randint(0, 99), '#', '.n%d' % rng.randint(0, 30), '[%d]' % rng.randint(0, 9)])
    return n


def coord(rng):
    return rng.choice([0, 1, -1, 7, 20, rng.randint(-300, 300), rng.randint(-40000, 40000), rng.randint(-3000000, 3000000)])


def cap(rng):
    """as printf's %g does it"""
    return '%g' % rng.choice([0, 1, 250, rng.random(), rng.random() * 100, rng.random() * 1e4, rng.random() * 1e7, rng.random() * 1e-6, rng.randint(0, 99999), rng.random() * 1e9])


def ohm(rng):
    return '%g' % rng.choice([0, 1, rng.random(), rng.random() * 100, rng.random() * 1e5, rng.random() * 1e8, rng.random() * 1e-5, 1e6, 123456, 1e10, -rng.random()])


NOISE = ['cap "A" "B" 12.5', 'equiv "VDD" "vdd!"', 'subcap "A" -12.5', 'use inv inv_0 1 0 0 0 1 0', 'merge "X0/A" "B" -20.5 0 0', 'attr "VDD" 0 0 1 1 m1 "port"',
         'parameters sky130_fd_pr__nfet_01v8 l=l w=w', 'killnode "x"', '', '# node "a" 1 1 1 1 m1 0', 'distance "a" "b" 3 4', 'nodes "a" 1 2 3 4 m1 0 0',
         'fet pfet 37 19 38 20 3 8 "VDD" "in" 2 0 "out" 3 0 "VDD" 3 0', 'property "port 1"', 'abstract', 'cap "node" "port" 3']
HEAD = ['timestamp 1709050000', 'version 8.3', 'tech sky130A', 'style ngspice()', 'scale 1000 1 500000', 'resistclasses 4400000 2200000 950000 3050000',
        'parameters sky130_fd_pr__nfet_01v8 l=l w=w a1=as p1=ps']


def gen_ext(rng, n):
    """(text, ports, nodes, devices) of one .ext file"""
    ports, nodes, devs = [], [], []
    lines = rng.sample(HEAD, rng.randint(0, len(HEAD)))
    pool = [name(rng) for _ in range(max(1, n // 2))]
    for _ in range(n):
        k = rng.random()
        nm = rng.choice(pool) if rng.random() < 0.3 else name(rng)
        if k < 0.3:
            a = [coord(rng) for _ in range(4)]
            a = [min(a[0], a[2]), min(a[1], a[3]), max(a[0], a[2]), max(a[1], a[3])]
            if rng.random() < 0.3:
                a[2:] = a[:2]
            ly = rng.choice(LAYERS)
            lines.append(f'port "{nm}" {rng.randint(0, 300)} {a[0]} {a[1]} {a[2]} {a[3]} {ly}')
            ports.append((nm, *a, ly))
        elif k < 0.65:
            r, cc, x, y, ly = rng.choice([0, 41, rng.randint(0, 10 ** 7)]), cap(rng), coord(rng), coord(rng), rng.choice(LAYERS)
            lines.append(f'{rng.choice(["node", "node", "node", "substrate"])} "{nm}" {r} {cc} {x} {y} {ly}' + ''.join(f" {rng.randint(0, 99999)} {rng.randint(0, 9999)}" for _ in range(rng.randint(1, 30))))
            nodes.append((nm, r, float(cc), x, y, ly))
        elif k < 0.8:
            t, m, x, y = rng.choice(TYPES), rng.choice(MODELS), coord(rng), coord(rng)
            a = [x, y, x + rng.choice([1, rng.randint(1, 500)]), y + rng.choice([1, rng.randint(1, 500)])]
            lines.append(f'device {t} {m} {a[0]} {a[1]} {a[2]} {a[3]} ' + rng.choice([f'l=30 w=84 "{nm}" "{name(rng)}" 60 0 "{name(rng)}" 84 8904,274 "B" 84 0', f'30 84 "{nm}" "{name(rng)}" 60 0', f'"{nm}" "{name(rng)}" 1 0']))
            devs.append((t, m, *a))
        else:
            lines.append(rng.choice(NOISE))
    return '\n'.join(lines) + rng.choice(['\n', '\n', '']), ports, nodes, devs


def gen_res(rng, n):
    lines, rn, rs = rng.sample(['scale 1000 1 0.5', 'killnode "a_1_1#"', '# generated'], rng.randint(0, 3)), [], []
    for _ in range(n):
        k = rng.random()
        if k < 0.5:
            nm, cc, x, y = name(rng), cap(rng), coord(rng), coord(rng)
            lines.append(f'rnode "{nm}" 0 {cc} {x} {y} 0')
            rn.append((nm, 0, float(cc), x, y))
        elif k < 0.9:
            pool = [r[0] for r in rn]
            a, b = (rng.choice(pool) if pool and rng.random() < 0.8 else name(rng) for _ in range(2))
            v = ohm(rng)
            lines.append(f'resist "{a}" "{b}" {v}')
            rs.append((a, b, float(v)))
        else:
            lines.append(rng.choice(NOISE))
    return '\n'.join(lines) + rng.choice(['\n', '\n', '']), rn, rs


def gen_tree(rng, d, cells):
    """.ext files of several cells and what they state; {cell: (ports, nodes, devices, (rnodes, resistors)|None)}"""
    tree = {}
    for cell in cells:
        t, p, n, dv = gen_ext(rng, rng.choice([0, 3, 10, 30]))
        with open(os.path.join(d, cell + '.ext'), 'w', encoding='utf-8') as f:
            f.write(t)
        res = None
        if rng.random() < 0.6:
            t, a, b = gen_res(rng, rng.choice([0, 3, 10, 30]))
            with open(os.path.join(d, cell + '.res.ext'), 'w', encoding='utf-8') as f:
                f.write(t)
            res = (a, b)
        tree[cell] = (p, n, dv, res)
    return tree


def flat(run):
    out = {}
    for cell, e in run.cells.items():
        x, r = e.ext_data, e.res_ext_data
        out[cell] = ([(p.net, p.x_bot, p.y_bot, p.x_top, p.y_top, p.layer) for p in x.ports], [(n.net, n.int_r, n.fin_c, n.x_bot, n.y_bot, n.layer) for n in x.nodes],
                     [(str(v.device_type), v.model, v.x_bot, v.y_bot, v.x_top, v.y_top) for v in x.devices],
                     None if r is None else ([(n.name, n.int_r, n.fin_c, n.x_bot, n.y_bot) for n in r.rnodes], [(s.node1, s.node2, s.value_ohm) for s in r.resistors]))
    return out


def compare_run(c, what, got, tree):
    c.expect(set(got) == set(tree), 'cells', f"{what}: cells {sorted(got)} read, files of {sorted(tree)} present")
    for cell in set(got) & set(tree):
        g, w = got[cell], tree[cell]
        c.expect((g[3] is None) == (w[3] is None), 'res-file', f"{what}: cell {cell}: resistance data {'missing' if g[3] is None else 'invented'}")
        for kind, a, b in [('port', g[0], w[0]), ('node', g[1], w[1]), ('device', g[2], w[2])] + ([('resistor-node', g[3][0], w[3][0]), ('resistor', g[3][1], w[3][1])] if g[3] and w[3] else []):
            c.count('entries of .ext files compared', len(b))
            if sorted(a) != sorted(b):
                miss, more = [x for x in b if x not in a], [x for x in a if x not in b]
                c.violate(kind, f"{what}: cell {cell}: {len(a)} of {len(b)} {kind}s read; missing {miss[:3]}, not in the file {more[:3]}")


def read_report(path):
    """{category leaf name: ...} → list of (kind, name, cell, [values]) and all category paths"""
    r = rdb.ReportDatabase('')
    r.load(path)
    cats, items = [], []

    def walk(k, p):
        p = p + (k.name(),)
        cats.append(p)
        for s in k.each_sub_category():
            walk(s, p)
    for k in r.each_category():
        walk(k, ())
    paths = {}

    def index(k, p):
        p = p + (k.name(),)
        paths[k.rdb_id()] = p
        for s in k.each_sub_category():
            index(s, p)
    for k in r.each_category():
        index(k, ())
    for i in r.each_item():
        vs = [v for v in i.each_value()]
        items.append((paths[i.category_id()], r.cell_by_id(i.cell_id()).qname(), [v.polygon().bbox() if v.is_polygon() else v.box() for v in vs if v.is_polygon() or v.is_box()]))
    return cats, items


def take(pool, ok):
    for k, x in enumerate(pool):
        if ok(x):
            return pool.pop(k)
    return None


def compare_report(c, what, path, tree, dbu):
    cats, items = read_report(path)
    leaf = {p[-1] for p in cats if len(p) == 3}
    pool = {}
    for p, cell, boxes in items:
        for b in boxes:
            pool.setdefault((p[1] if len(p) > 1 else '', cell), []).append((p[-1], b))
    tol = dbu / 2 + 1e-6

    def rect(b, x1, y1, x2, y2):
        return all(abs(u - v / 200) <= tol for u, v in ((b.left, x1), (b.bottom, y1), (b.right, x2), (b.top, y2)))

    def point(b, x, y):
        return b.left - tol <= x / 200 <= b.right + tol and b.bottom - tol <= y / 200 <= b.top + tol and b.width() <= 0.5 and b.height() <= 0.5 and \
            min(abs(b.left - x / 200), abs(b.center().x - x / 200)) <= tol and min(abs(b.bottom - y / 200), abs(b.center().y - y / 200)) <= tol

    for cell, (ports, nodes, devs, res) in tree.items():
        jobs = [('Ports', p, lambda b, p=p: rect(b, *p[1:5]), (p[0], p[5])) for p in ports] + [('Nodes', n, lambda b, n=n: point(b, n[3], n[4]), (n[0], n[5])) for n in nodes] + \
               [('Devices', d, lambda b, d=d: rect(b, *d[2:6]), (d[0], d[1])) for d in devs]
        if res:
            jobs += [('Resistor Nodes', n, lambda b, n=n: point(b, n[3], n[4]), (n[0],)) for n in res[0]]
            for r in res[1]:
                for end in r[:2]:
                    jobs += [('Resistors', (r, n), lambda b, n=n: point(b, n[3], n[4]), r[:2]) for n in res[0] if n[0] == end]
        for kind, what_, ok, words in jobs:
            p = pool.get((kind, cell), [])
            c.count('report items compared')
            if take(p, lambda x: all(w in x[0] for w in words) and ok(x[1])) is None:
                near = [f"{x[0]} {x[1]}" for x in p if all(w in x[0] for w in words)]
                c.violate(f"report-{kind.lower().replace(' ', '-')}", f"{what}: cell {cell}: {kind} {what_} is not in the report at its place; entries of this name: {near[:3]}")
        for r in (res[1] if res else []):
            def states(n):
                m = re.search(r'=\s*(\S+)\s*Ω', n)
                return r[0] in n and r[1] in n and m and float(m.group(1)) == r[2]
            c.expect(any(states(n) for n in leaf), 'report-resistor-value', f"{what}: no category states resistor {r}")
    extra = [(k, x) for k, v in pool.items() for x in v]
    c.expect(not extra, 'report-extra', f"{what}: {len(extra)} items of the report belong to nothing in the files: {[(k, x[0], str(x[1])) for k, x in extra[:3]]}")


def check_script(c, what, path, o):
    """o: gds, cell, run, out, mode, cth, rth, tol, halo, short, merge"""
    cmds = kvfake.tcl_commands(path)
    if cmds and cmds[-1][0] == '__error__':
        return c.violate('tcl-error', f"{what}: Tcl refuses the script: {cmds[-1][1]}")
    c.count('script commands interpreted', len(cmds))
    st, spice, ended = {}, None, False
    cur, cells, extracted = None, {}, None
    order = []
    for w in cmds:
        if ended:
            break
        t = tuple(w)
        if t[:2] == ('gds', 'read'):
            c.expect(len(w) == 3 and os.path.abspath(w[2]) == os.path.abspath(o['gds']), 'gds', f"{what}: the script reads {w[2:]} instead of {o['gds']!r}")
            cells[o['cell']] = 'original'
        elif w[0] == 'load':
            if len(w) < 2 or w[1] not in cells:
                c.violate('cell', f"{what}: the script loads {w[1:]}, cells are {sorted(cells)}")
            cur = w[1] if len(w) > 1 else None
        elif w[0] == 'flatten':
            c.expect(cells.get(cur) is not None, 'cell', f"{what}: flatten of {cur}")
            cells[w[-1]] = cells.get(cur)
        elif t[:2] == ('cellname', 'delete'):
            cells.pop(w[2], None)
        elif t[:2] == ('cellname', 'rename'):
            cells[w[3]] = cells.pop(w[2], None)
            cur = w[3] if cur == w[2] else cur
        elif w[0] == 'extract':
            if t == ('extract', 'all'):
                c.expect(cur == o['cell'] and cells.get(cur) == 'original', 'cell', f"{what}: extracts {cur} ({cells.get(cur)}) instead of {o['cell']}")
                extracted = dict(st)
                order.append('extract')
            elif w[1] in ('do', 'no'):
                st[w[2]] = w[1] == 'do'
            elif w[1] in ('path', 'halo'):
                c.expect(len(w) == 3, 'words', f"{what}: {w}")
                st[w[1]] = w[2] if len(w) > 2 else None
        elif w[0] == 'extresist':
            if t == ('extresist', 'all'):
                order.append('extresist')
                st['tolerance-used'] = st.get('extresist tolerance')
            elif w[1] == 'tolerance':
                st['extresist tolerance'] = w[2]
        elif w[0] == 'ext2sim' and len(w) == 1:
            order.append('ext2sim')
        elif w[0] == 'ext2spice':
            if '-o' in w or len(w) == 1:
                spice = w[1:]
                order.append('ext2spice')
                final = dict(st)
            else:
                st[' '.join(w[:-1])] = w[-1]
        elif w[0] == 'quit':
            ended = True
    c.expect(ended, 'quit', f"{what}: the script does not end MAGIC")
    if extracted is None or spice is None:
        return c.violate('steps', f"{what}: steps {order}: no extraction or no netlist")
    num = lambda v: float(v) if v is not None and re.fullmatch(r'-?[\d.]+(e[-+]?\d+)?', v) else None
    opt = lambda f: spice[spice.index(f) + 1] if f in spice and spice.index(f) + 1 < len(spice) else None
    same = lambda a, b: a is not None and b is not None and os.path.abspath(a) == os.path.abspath(b)
    c.expect(same(opt('-o'), o['out']) and len(spice) == 4, 'netlist-path', f"{what}: netlist goes to {spice}, asked for {o['out']!r}")
    c.expect(same(opt('-p'), o['run']) and same(extracted.get('path'), o['run']), 'run-dir', f"{what}: extract path {extracted.get('path')!r}, ext2spice {opt('-p')!r}, asked for {o['run']!r}")
    h = num(extracted.get('halo'))
    if o['halo'] is None:
        c.expect('halo' not in extracted, 'halo', f"{what}: halo {extracted.get('halo')} although none was asked for")
    else:
        c.expect(h is not None and abs(h - o['halo'] * 200) <= 0.5001, 'halo', f"{what}: extract halo {extracted.get('halo')} for {o['halo']} µm")
    res, capx = o['mode'] in ('RC', 'R'), o['mode'] in ('CC', 'RC')
    c.expect(extracted.get('resistance', False) == res, 'resistance', f"{what}: extraction with resistance={extracted.get('resistance')}")
    c.expect(extracted.get('capacitance', True) == capx and extracted.get('coupling', True) == capx, 'capacitance',
             f"{what}: extraction with capacitance={extracted.get('capacitance')}, coupling={extracted.get('coupling')}")
    c.expect(('extresist' in order) == res and order.count('extract') == 1 and (not res or order.index('extract') < order.index('extresist') < order.index('ext2spice')), 'steps', f"{what}: steps {order}")
    c.expect((final.get('ext2spice extresist') == 'on') == res, 'extresist', f"{what}: ext2spice extresist {final.get('ext2spice extresist')}")
    if res:
        c.expect(num(final.get('tolerance-used')) == o['tol'], 'tolerance', f"{what}: extresist tolerance {final.get('tolerance-used')} instead of {o['tol']}")
        c.expect(num(final.get('ext2spice rthresh')) == o['rth'], 'rthresh', f"{what}: rthresh {final.get('ext2spice rthresh')} instead of {o['rth']}")
    if capx:
        c.expect(num(final.get('ext2spice cthresh')) == o['cth'], 'cthresh', f"{what}: cthresh {final.get('ext2spice cthresh')} instead of {o['cth']}")
    c.expect(final.get('ext2spice short') == o['short'] and final.get('ext2spice merge') == o['merge'], 'short-merge',
             f"{what}: short {final.get('ext2spice short')}, merge {final.get('ext2spice merge')} instead of {o['short']}, {o['merge']}")
    c.expect(final.get('ext2spice format') == 'ngspice', 'format', f"{what}: format {final.get('ext2spice format')}")
    c.count('mode ' + o['mode'])
    c.count('halo' if o['halo'] is not None else 'no halo')


def options(rng):
    return dict(mode=rng.choice(['CC', 'RC', 'R']), cth=rng.choice([0.01, 0, 1e-5, 1.5, round(rng.random(), 4), 3e-7]), rth=rng.choice([100, 0, 1, rng.randint(0, 10 ** 7)]),
                tol=rng.choice([1, 1.0, 0.5, 10.0, 1e-6, round(rng.random() * 9, 3)]), halo=rng.choice([None, None, 0, 8.0, 0.5, 1, 0.0025, round(rng.random() * 50, 4), 3.333]),
                short=rng.choice(['none', 'resistor', 'voltage']), merge=rng.choice(['none', 'conservative', 'aggressive']))


def case_script(c, rng):
    from klayout_pex.magic import magic_runner as M
    o = options(rng)
    d = os.path.join(c.dir, rng.choice(FILES) if rng.random() < 0.6 else 'w')
    os.makedirs(d)
    o.update(cell=rng.choice(CELLS), gds=os.path.join(d, rng.choice(FILES) + '.gds'), run=os.path.join(d, rng.choice(FILES)), out=os.path.join(d, rng.choice(FILES) + '.pex.spice'))
    script = os.path.join(c.dir, 'script.tcl')
    if rng.random() < 0.2:
        os.chdir(d)
        for k in ('gds', 'run', 'out'):
            o[k] = os.path.relpath(o[k], d)
    M.prepare_magic_script(gds_path=o['gds'], cell_name=o['cell'], run_dir_path=o['run'], script_path=script, output_netlist_path=o['out'], pex_mode=M.MagicPEXMode(o['mode']),
                           c_threshold=o['cth'], r_threshold=o['rth'], tolerance=o['tol'], halo=o['halo'], short_mode=M.MagicShortMode(o['short']), merge_mode=M.MagicMergeMode(o['merge']))
    if any(ch in o['cell'] + o['gds'] + o['run'] + o['out'] for ch in ' []${}";#\\'):
        c.count('names Tcl would interpret')
    check_script(c, f"script for {o}", script, o)
    c.count('script')
    c.saw(('script', tuple(sorted((k, str(v)) for k, v in o.items() if k not in ('gds', 'run', 'out')))))


def case_tree(c, rng):
    from pathlib import Path
    from klayout_pex.magic.magic_ext_file_parser import parse_magic_pex_run
    from klayout_pex.magic.magic_log_analyzer import MagicLogAnalyzer
    d = os.path.join(c.dir, 'ext')
    os.makedirs(d)
    cells = rng.sample([x for x in CELLS], rng.choice([1, 1, 1, 2, 3, 5]))
    if rng.random() < 0.1:
        cells += [cells[0] + '.ext', cells[0] + '.extra.ext'][:rng.randint(1, 2)]
        c.count('cell names that look like file endings')
    if rng.random() < 0.05:
        shutil.rmtree(d)
        os.makedirs(d)
        if rng.random() < 0.5:
            with open(os.path.join(d, 'TOP.sim'), 'w') as f:
                f.write('| units: 0.5\n')
        try:
            got = parse_magic_pex_run(Path(d))
            c.expect(False, 'nothing-read', f"a directory without .ext files was read as {list(got.cells)}")
        except Exception:
            c.count('empty directory refused')
        return
    tree = gen_tree(rng, d, cells)
    for junk in ('TOP.sim', 'TOP.nodes', 'x.ext.bak', 'y.spice'):
        if rng.random() < 0.3:
            with open(os.path.join(d, junk), 'w') as f:
                f.write('node "junk" 1 2 3 4 m1 0 0\n')
    what = f"files of {sorted(tree)}"
    c.saw(('tree', tuple(sorted((k, len(v[0]), len(v[1]), len(v[2]), v[3] and len(v[3][0])) for k, v in tree.items()))))
    run = parse_magic_pex_run(Path(d))
    compare_run(c, what, flat(run), tree)
    for t in tree.values():
        for k, e in zip(('port', 'node', 'device'), t):
            for x in e:
                nm = x[0]
                c.count(k)
                if k == 'node' and x[2] != int(x[2]):
                    c.count('fractional capacitance')
                if k != 'device' and not re.fullmatch(r'\w+', nm):
                    c.count('special characters in node names')
        if t[3]:
            c.count('resistor file')
            if any('e' in '%g' % r[2] for r in t[3][1]):
                c.count('resistance with exponent')
    if len(tree) > 1:
        c.count('several cells')
    dbu = rng.choice([0.001, 0.001, 0.005, 0.0005, 0.002, 0.01])
    p = os.path.join(c.dir, 'r.rdb' + rng.choice(['', '.gz']))
    report = rdb.ReportDatabase('')
    MagicLogAnalyzer(magic_pex_run=run, report=report, dbu=dbu).analyze()
    report.save(p)
    compare_report(c, what + f", dbu {dbu}", p, tree, dbu)
    c.count('report')


def case_main(c, rng):
    """the log analyzer as a program of its own"""
    import sys
    from klayout_pex.magic import magic_log_analyzer as A
    d = os.path.join(c.dir, rng.choice(FILES))
    os.makedirs(d)
    tree = gen_tree(rng, d, rng.sample(CELLS, rng.choice([1, 2])))
    out = rng.choice([None, os.path.join(c.dir, 'my.rdb'), os.path.join(c.dir, 'my.rdb.gz')])
    old = sys.argv

    def run(d):
        sys.argv = ['magic_log_analyzer', '-m', d] + (['-o', out] if out else [])
        try:
            A.main()
        except SystemExit as e:
            if e.code:
                raise
        finally:
            sys.argv = old

    # a directory that is missing (or is a file) is refused
    bad = os.path.join(c.dir, 'missing')
    if rng.random() < 0.4:
        open(bad, 'w').write('port "A" 1 0 0 1 1 m1\n')
    try:
        run(bad)
        c.violate('analyzer-missing', f"magic_log_analyzer -m {bad} ended normally")
    except (Exception, SystemExit):
        pass
    c.expect(not (out and os.path.exists(out)), 'analyzer-missing', f"magic_log_analyzer -m {bad} wrote a report")
    run(d)
    p = out or os.path.join(d, 'report.rdb.gz')
    if not os.path.exists(p):
        return c.violate('analyzer-output', f"magic_log_analyzer -m {d} {'-o ' + out if out else ''}: no report at {p}")
    compare_report(c, f"magic_log_analyzer, files of {sorted(tree)}", p, tree, 0.001)
    c.count('analyzer program' + (' with default output' if out is None else ''))


def case_cli(c, rng):
    cell = rng.choice([x for x in CELLS if x != 'é'])
    ly = kdb.Layout()
    ly.dbu = rng.choice([0.001, 0.001, 0.005])
    t = ly.create_cell(cell)
    li = ly.layer(68, 20)
    t.shapes(li).insert(kdb.Box(0, 0, 1000, 1000))
    if rng.random() < 0.5:
        sub = ly.create_cell('sub')
        sub.shapes(li).insert(kdb.Box(0, 0, 100, 100))
        t.insert(kdb.CellInstArray(sub.cell_index(), kdb.Trans(2000, 0)))
    w = os.path.join(c.dir, rng.choice(FILES) if rng.random() < 0.5 else 'w')
    os.makedirs(w)
    gds = os.path.join(w, rng.choice(FILES) + '.gds')
    ly.write(gds)
    ext = os.path.join(c.dir, 'result')
    os.makedirs(ext)
    tree = gen_tree(rng, ext, [cell])
    rc = os.path.join(w, 'x.magicrc')
    open(rc, 'w').close()
    logs = os.path.join(c.dir, 'logs')
    os.makedirs(logs)
    out = os.path.join(w, rng.choice(FILES))
    a = ['--pdk', 'sky130A', '--gds', gds, '--magic', '--magicrc', rc, '--out_dir', out, '--log_level', 'error']
    o = dict(mode='CC', cth=0.01, rth=100, tol=1.0, halo=None, short='none', merge='none')
    new = options(rng)
    for k, f in (('mode', 'mode'), ('cth', 'cthresh'), ('rth', 'rthresh'), ('tol', 'tolerance'), ('halo', 'halo'), ('short', 'short'), ('merge', 'merge')):
        if rng.random() < 0.7 and new[k] is not None:
            o[k] = new[k]
            a += [f"--magic_{f}", str(new[k])]
        else:
            c.count('default of an option')
    if rng.random() < 0.4:
        a += ['--cell', cell]

    what = f"kpex {' '.join(a[2:])}"
    e = kvcli.env(logs)
    e['KV_MAGIC_FILES'] = ext
    r = kvflow.kpex(a, env=e)
    k = kvcli.calls(logs, 'magic')
    if r.status or not k:
        return c.violate('run-failed', f"{what}: {getattr(r, 'tb', r.out)[-900:]}")
    k = k[0]
    script = k['argv'][-1]
    c.expect(os.path.exists(script), 'script-kept', f"{what}: no script at {script}")
    p = os.path.join(c.dir, 'script.tcl')
    with open(p, 'w', encoding='utf-8') as f:
        f.write(k['script'])
    cmds = kvfake.tcl_commands(p)
    rd = [x[2] for x in cmds if x[:2] == ['gds', 'read'] and len(x) > 2]
    dirs = [x[2] for x in cmds if x[:2] == ['extract', 'path'] and len(x) > 2]
    nets = [x[x.index('-o') + 1] for x in cmds if x[0] == 'ext2spice' and '-o' in x]
    if not (len(rd) == len(dirs) == len(nets) == 1):
        return c.violate('steps', f"{what}: {cmds}")
    inside = os.path.realpath(out) + os.sep
    c.expect(all(os.path.realpath(x).startswith(inside) for x in dirs + nets), 'result-place', f"{what}: {dirs}, {nets}")
    o.update(cell=cell, gds=rd[0], run=dirs[0], out=nets[0])
    check_script(c, what, p, o)
    rep = glob.glob(os.path.join(glob.escape(out), '**', '*_MAGIC_report.rdb*'), recursive=True)
    if len(rep) != 1:
        return c.violate('report-file', f"{what}: reports {rep}")
    compare_report(c, what, rep[0], tree, ly.dbu)
    c.count('command line')


def case(c):
    logging.disable(logging.CRITICAL)
    rng = c.rng
    k = c.idx % 20
    if k == 0:
        case_cli(c, rng)
    elif k == 1:
        case_main(c, rng)
    elif k < 9:
        case_script(c, rng)
    else:
        case_tree(c, rng)
    c.sample = {'kind': 'cli main script tree'.split()[0 if k == 0 else 1 if k == 1 else 2 if k < 9 else 3]}


def main():
    ck = kvcore.Check('C18', "MAGIC scripts evaluated by a Tcl interpreter with recording commands against the options; .ext/.res.ext trees of known content against the parsed run "
                      "and against the report, loaded again",
                      required=['script', 'mode CC', 'mode RC', 'mode R', 'halo', 'no halo', 'names Tcl would interpret', 'port', 'node', 'device', 'fractional capacitance',
                                'special characters in node names', 'resistor file', 'resistance with exponent', 'several cells', 'report', 'command line', 'default of an option',
                                'analyzer program', 'analyzer program with default output', 'empty directory refused', 'cell names that look like file endings'],
                      assumptions=['MAGIC itself is not installed: its commands are recorded, not run', 'MAGIC writes names without double quotes and numbers as %d and %g print them',
                                   'coordinates in .ext files count 200 per µm, as the code under test assumes'])
    ck.run(case, 10000, 150000)
    ck.finish()
