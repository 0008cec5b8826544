"""C04: the 2.5D result depends on the physical layout only, not on how it is written down."""
import os, random
import klayout.db as kdb
import kvcore, kvcap, kvflow, kvlvs, kvref, kvsynth

NAMES = ['VDD', 'VSS', 'a', 'b', 'zz', 'in[0]', 'in[1]', 'in[10]', 'x<3>', 'q_bar', 'N!', 'clk.2', 'OUT+', 'OUT-', 'vref#1', '7up',
         'top/inst/n1', 'net_with_a_rather_long_name_that_goes_on', 'M0', 'é1', 'Z9', 'Aa']


def transformed(L, t):
    M = kvsynth.Layout(L.pdk, L.dbu)
    M.parent = dict(L.parent)
    def box(r):
        b = t * kdb.Box(*r)
        return (b.left, b.bottom, b.right, b.top)
    M.shapes = [(m, box(r), o) for m, r, o in L.shapes]
    M.vias = [(v, box(r), o) for v, r, o in L.vias]
    M.extra = [(a, g, box(r), o) for a, g, r, o in L.extra]
    M.order = getattr(L, 'order', None)
    return M


def label(M, namer):
    M.names, M.labels = {}, []
    M.assign_names(namer)


def measure(c, M, opts, tag, **kw):
    """{frozenset(net roots): fF} of one way of writing the layout; None if it could not be judged"""
    extra_poly = kw.pop('far', None)
    ly = M.to_kdb(**kw)
    if extra_poly:
        gds, box, lab = extra_poly
        ly.top_cell().shapes(ly.layer(*gds)).insert(kdb.Box(*box))
    lvs = kvlvs.extract(ly, 'TOP', M.pdk, capdev=bool(M.extra))
    d = os.path.join(c.dir, tag)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, 'in.lvsdb.gz')
    lvs.write(p)
    keep = M.names
    if not M.probe_names(p):
        c.count('variants skipped: LVS nets differ from bookkeeping')
        M.names = keep
        return None
    r, res = kvflow.extract25_file(p, M.pdk, d, **opts)
    if res is None:
        c.violate('crash' if r.exc is None else kvcore.crash_key(r.exc),
                  f"2.5D extraction of variant '{tag}' failed: {r.exc!r}\n{r.out[-600:]}")
        return None
    root = {n: k for k, n in M.names.items()}
    caps, _ = kvflow.summary(res)
    out, other = {}, 0
    for pair, v in caps.items():
        ks = tuple(sorted((-1 if n == 'VSUBS' else root.get(n, -2)) for n in pair))
        if -2 in ks:
            other += 1
            continue
        out[ks] = out.get(ks, 0.0) + v
    return out


def same(c, a, b, tag, tol):
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k, 0.0), b.get(k, 0.0)
        c.count('pairs compared')
        if abs(x - y) > tol(k, x, y):
            c.violate(f"{tag}-changes-result", f"variant '{tag}': nets {k}: {x!r} fF became {y!r} fF "
                      f"({len(a)} -> {len(b)} pairs)")
            return False
        c.saw([tag, round(x, 9)])
    return True


def variants(c):
    rng = c.rng
    pdk = rng.choice(['sky130A', 'sky130A', 'ihp_sg13g2'])
    if rng.random() < 0.4:
        L = kvcap.dense(rng, pdk)
    else:
        L = kvsynth.random_layout(rng, pdk, nmax=rng.choice([4, 8, 14]), size=rng.choice([3000, 8000, 20000]), min_gap=60)
        if pdk == 'sky130A' and rng.random() < 0.15:
            L = kvsynth.random_layout(rng, pdk, nmax=8, size=6000, layers=[0, 1, 2, 3, 6], min_gap=60)
            L.add_mim(rng, rng.randrange(0, 6000), rng.randrange(0, 6000))
    L.dbu = rng.choice([0.001] * 5 + [0.0005, 0.002, 0.005])
    L = transformed(L, kdb.Trans())
    pool = rng.sample(NAMES, len(NAMES))
    unnamed, cased = rng.random() < 0.3, rng.random() < 0.5
    def namer(k):
        if unnamed and k % 3 == 0:
            return None
        if cased and k % 2 and not (unnamed and k % 3 == 1) and namer(k - 1).swapcase() != namer(k - 1):
            return namer(k - 1).swapcase()
        return pool[k] if k < len(pool) else f"N{k}"
    label(L, namer)
    opts = dict(halo=rng.choice([None, 0.5, 2.0, 20.0]), scale=rng.choice([None, True, False]),
                blackbox=False if L.extra else rng.choice([None, True]))
    base = measure(c, L, opts, 'base')
    if base is None:
        return
    # elementary strips one dbu wide are skipped by the engine by design and depend on neither side alone
    T = kvref.Tech(kvflow.tech_json(pdk))
    H = opts['halo'] or T.halo
    kinds = ['again', 'translate', 'rotate', 'mirror', 'split', 'hierarchy', 'shuffle', 'rename', 'far']
    nm = dict(L.names)
    for kind in rng.sample(kinds, 3 if c.tier == 'quick' else 5):
        t = kdb.Trans()
        kw = {}
        if kind == 'translate':
            t = kdb.Trans(rng.choice([1, -7, 123457, -98765, 400000000, -400000003]), rng.choice([0, 3, -11111, 300000001]))
        elif kind == 'rotate':
            t = kdb.Trans(rng.randint(1, 3), False, rng.randrange(-9999, 9999), rng.randrange(-9999, 9999))
        elif kind == 'mirror':
            t = kdb.Trans(rng.randint(0, 3), True, rng.randrange(-9999, 9999), rng.randrange(-9999, 9999))
        elif kind == 'split':
            kw['split'] = random.Random(rng.random())
        elif kind == 'hierarchy':
            kw['hier'] = random.Random(rng.random())
        elif kind == 'shuffle':
            kw['shuffle'] = random.Random(rng.random())
        M = transformed(L, t)
        if kind == 'shuffle':
            # net creation order differs as well
            rng.shuffle(M.shapes)
        if kind == 'rename':
            pool2 = rng.sample(NAMES, len(NAMES))
            label(M, lambda k: pool2[-1 - k] if k < len(pool2) and rng.random() < 0.8 else f"{'zyx'[k % 3]}{k}")
        elif kind == 'shuffle':
            label(M, namer)
        else:
            label(M, namer)
        if kind == 'far':
            xs = [q for _, r, _ in M.shapes for q in r]
            far = max(xs) + 3 * int(H / L.dbu) + 5000
            m = rng.randrange(len(kvlvs.metals(pdk)))
            kw['far'] = (kvlvs.metals(pdk)[m][1], (far, far, far + 2000, far + 700), None)
        got = measure(c, M, opts, kind, **kw)
        if got is None:
            if c.violations:
                return
            continue
        exact = kind in ('again',)
        if exact:
            tol = lambda k, x, y: 0.0
        elif kind == 'far':
            # the substrate plate ends one dbu inside the halo at the layout's outline
            tol = lambda k, x, y: (3 * L.dbu / H if -1 in k else 1e-9) * max(abs(x), abs(y)) + 1e-12
        else:
            tol = lambda k, x, y: 1e-9 * max(abs(x), abs(y)) + 1e-12
        if not same(c, base, got, kind, tol):
            return
        c.count(f"variant {kind}")
    c.sample = dict(pdk=pdk, names=sorted(nm.values())[:6], pairs=len(base), opts=opts)


def raw(c, ly, pdk, opts, tag):
    """capacitances of a layout as {(net, net): fF} under the names the tool gives"""
    lvs = kvlvs.extract(ly, 'TOP', pdk)
    d = os.path.join(c.dir, tag)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, 'in.lvsdb.gz')
    lvs.write(p)
    r, res = kvflow.extract25_file(p, pdk, d, **opts)
    if res is None:
        c.violate('crash' if r.exc is None else kvcore.crash_key(r.exc),
                  f"2.5D extraction of variant '{tag}' failed: {r.exc!r}\n{r.out[-600:]}")
        return None
    return kvflow.summary(res)[0]


def signature(caps):
    """what is left of a result when net names are forgotten: every net's sorted couplings"""
    rows = {}
    for (a, b), v in caps.items():
        for x, y in ((a, b), (b, a)):
            if x != 'VSUBS':
                rows.setdefault(x, []).append((y == 'VSUBS', float('%.9g' % v)))
    return sorted((round(sum(v for _, v in r), 6), len(r), [v for s, v in sorted(r) if s], sorted(v for s, v in r if not s))
                  for r in rows.values())


def instances(c):
    """a block with nets of its own, placed several times, against the same shapes drawn flat"""
    rng = c.rng
    pdk = rng.choice(['sky130A', 'sky130A', 'ihp_sg13g2'])
    B = kvsynth.random_layout(rng, pdk, nmax=rng.choice([3, 5, 8]), size=3000, min_gap=60)
    B.dbu = rng.choice([0.001] * 5 + [0.0005, 0.002, 0.005])
    xs = [q for _, r, _ in B.shapes for q in (r[0], r[2])]
    ys = [q for _, r, _ in B.shapes for q in (r[1], r[3])]
    w, h = max(xs) - min(xs) + rng.choice([200, 500, 3000]), max(ys) - min(ys) + rng.choice([200, 500, 3000])
    nx, ny = rng.randint(1, 3), rng.randint(1, 3)
    nested = rng.random() < 0.4
    labels = rng.random() < 0.5
    opts = dict(halo=rng.choice([None, 2.0]), blackbox=rng.choice([None, True]))
    flat, hier = kdb.Layout(), kdb.Layout()
    flat.dbu = hier.dbu = B.dbu
    hier.create_cell('BLK')
    src = B.to_kdb(top='BLK')
    if not labels:
        for li in src.layer_indexes():
            for s in list(src.cell('BLK').shapes(li).each(kdb.Shapes.STexts)):
                src.cell('BLK').shapes(li).erase(s)
    hier.cell('BLK').copy_tree(src.cell('BLK'))
    host = hier.create_cell('MID') if nested else None
    top = hier.create_cell('TOP')
    if nested:
        host.insert(kdb.CellInstArray(hier.cell('BLK').cell_index(), kdb.Trans()))
        host.insert(kdb.CellInstArray(hier.cell('BLK').cell_index(), kdb.Trans(0, h)))
    for i in range(nx):
        for j in range(ny):
            t = kdb.Trans(i * w, j * h * (2 if nested else 1))
            if rng.random() < 0.2:
                t = t * kdb.Trans(1, 0) * kdb.Trans(-1, 0)
            top.insert(kdb.CellInstArray((host or hier.cell('BLK')).cell_index(), t))
            # KLayout drops subcells without any connection to their parent, so each gets one
            pm, pr, _ = B.shapes[0]
            for q in ((0, h) if nested else (0,)):
                top.shapes(hier.layer(*kvlvs.metals(pdk)[pm][1])).insert(t * kdb.Trans(0, q) * kdb.Box(*pr))
    # a wire of the top cell across everything, on a layer of the block
    m = rng.choice([s[0] for s in B.shapes])
    if rng.random() < 0.5:
        top.shapes(hier.layer(*kvlvs.metals(pdk)[m][1])).insert(kdb.Box(min(xs) - 2000, min(ys) - 800, max(xs) + nx * w, min(ys) - 300))
    flat.dbu = hier.dbu
    ft = flat.create_cell('TOP')
    ft.copy_tree(top)
    ft.flatten(True)
    for li in flat.layer_indexes():       # labels of several instances would give different nets one name
        for x in list(ft.shapes(li).each(kdb.Shapes.STexts)):
            ft.shapes(li).erase(x)
    a, b = raw(c, flat, pdk, opts, 'flat'), None
    if a is not None:
        b = raw(c, hier, pdk, opts, 'hier')
    if a is None or b is None:
        return
    sa, sb = signature(a), signature(b)
    c.count('instance arrays compared')
    c.saw(['instances', nx, ny, nested, len(a), round(sum(a.values()), 6)], len(a))
    if sa != sb:
        ta, tb = sum(a.values()), sum(b.values())
        close = len(sa) == len(sb) and all(x[1] == y[1] and abs(x[0] - y[0]) <= 1e-5 * max(1e-3, abs(x[0])) for x, y in zip(sa, sb))
        if not close:
            c.violate('instances-change-result', f"{nx}x{ny} placements (nested={nested}, labels={labels}): {len(sa)} nets with "
                      f"{len(a)} couplings of {ta:.9g} fF flat, {len(sb)} nets with {len(b)} couplings of {tb:.9g} fF as instances")


def case(c):
    (instances if c.idx % 5 == 4 else variants)(c)


def main():
    ck = kvcore.Check('C04', 'random layouts, each written down in several ways (again, translated, rotated, mirrored, split, '
                      'in subcells, shuffled, renamed, with unrelated far geometry), every one through kpex --2.5D; an '
                      'evaluation is one net pair whose capacitance is compared with that of the first way; distinct by '
                      'variant kind and value',
                      required=['pairs compared', 'instance arrays compared'] + [f"variant {k}" for k in
                      ('again', 'translate', 'rotate', 'mirror', 'split', 'hierarchy', 'shuffle', 'rename', 'far')])
    ck.run(case, 1200, 8000)
    ck.finish()
