"""C01: overlap capacitance == unshielded facing area x coefficient, over random layouts."""
import math, os, random
import klayout.db as kdb
import kvcore, kvflow, kvlvs, kvref, kvsynth

SUB = 'VSUBS'


def compare(c, ref, got, areas, what, tol_of=None):
    for k in set(ref) | set(got):
        a, b = ref.get(k, 0.0), got.get(k, 0.0)
        tol = 1e-9 * max(abs(a), abs(b)) + 1e-12 + (tol_of(k) if tol_of else 0.0)
        c.count('pairs compared')
        if abs(a - b) > tol:
            c.violate(f"overlap:{'missing' if b == 0 else 'spurious' if a == 0 else 'value'}",
                      f"{what}: overlap {k}: expected {a!r} fF, extracted {b!r} fF", key=list(k))
            return False
        c.saw([what, list(k), round(a, 12)])
    return True


def manhattan(c):
    rng = c.rng
    pdk = rng.choice(['sky130A', 'sky130A', 'ihp_sg13g2'])
    style = rng.random()
    nmax = rng.choice([4, 8, 14, 22])
    size = rng.choice([3000, 8000, 20000])
    L = kvsynth.random_layout(rng, pdk, nmax=nmax, size=size)
    mim = False
    if pdk == 'sky130A' and style < 0.25:
        # keep met3/met4 free around the capacitor: it is placed beyond the random part
        L = kvsynth.random_layout(rng, pdk, nmax=nmax, size=size, layers=[0, 1, 2, 3, 6])
        for _ in range(rng.randint(1, 2)):
            L.add_mim(rng, rng.randrange(0, size), rng.randrange(0, size) if not mim else size * 3)
            mim = True
        L.names.clear(); L.labels.clear()
        L.assign_names(kvsynth.cased("N"))
    elif style < 0.4:      # stacked plates: deep shielding sandwiches with shared nets
        L = kvsynth.Layout(pdk)
        objs = [L.new_obj() for _ in range(rng.randint(2, 4))]
        m = len(kvlvs.metals(pdk))
        base = rng.randrange(3000, 9000, 5)
        for i in range(m):
            if rng.random() < 0.25:
                continue
            x = 0
            for _ in range(rng.randint(1, 3)):
                w = rng.randrange(300, base, 5)
                x += rng.randrange(200, 1500, 5)
                o = L.new_obj()
                y = rng.randrange(-500, 500, 5)
                L.shapes.append((i, (x, y, x + w, y + rng.randrange(500, base, 5)), o))
                x += w
        if not L.shapes:
            L.shapes.append((0, (0, 0, 1000, 1000), L.new_obj()))
        # random vias between vertically adjacent plates give nets that sandwich others
        for (ma, ra, oa) in list(L.shapes):
            for (mb, rb, ob) in list(L.shapes):
                it = kvsynth._inter(ra, rb)
                if mb == ma + 1 and it and it[2] - it[0] > 100 and it[3] - it[1] > 100 and rng.random() < 0.5:
                    L.vias.append((ma, (it[0] + 20, it[1] + 20, it[0] + 80, it[1] + 80), oa))
                    L.union(oa, ob)
        L.assign_names(kvsynth.cased("P", lambda: rng.random() < 0.85))
    L.dbu = rng.choice([0.001] * 5 + [0.0005, 0.002, 0.005])
    ly = L.to_kdb(split=random.Random(rng.random()) if rng.random() < 0.3 else None,
                  hier=random.Random(rng.random()) if rng.random() < 0.3 else None)
    lvs = kvlvs.extract(ly, 'TOP', pdk, capdev=mim)
    p = os.path.join(c.dir, 'in.lvsdb.gz')
    lvs.write(p)
    if not L.probe_names(p):
        c.count('cases skipped: LVS nets differ from bookkeeping')
        return
    halo = rng.choice([None, None, 0.5, 2.0, 20.0])
    black = False if mim else rng.choice([None, False, True])
    tp = kvflow.altered_tech(rng, pdk, os.path.join(c.dir, 'tech.json')) if rng.random() < 0.25 else None
    with kvflow.technology(tp) as asked:
        r, res = kvflow.extract25_file(p, pdk, c.dir, halo=halo, scale=rng.choice([None, True, False]), blackbox=black)
    if tp and not asked:
        c.count('cases skipped: technology file not read')
        return
    c.count('layouts under another technology', bool(tp))
    if res is None:
        c.violate('crash' if r.exc is None else kvcore.crash_key(r.exc),
                  f"2.5D extraction of a valid layout failed: {r.exc!r}\n{r.out[-800:]}")
        return
    T = kvref.Tech(tp or kvflow.tech_json(pdk))
    ra = kvref.Raster(L.layer_names(), L.rects_by_layer_net(), L.dbu, T.halo)
    ref, area = ra.overlap(T)
    # bookkeeping on what was exercised
    names = L.layer_names()
    for (lt, nt, lb, nb) in ref:
        c.count('reference overlaps')
    occ = ra.occ
    for i in range(ra.nx):
        for j in range(ra.ny):
            st = [occ[l][i][j] for l in names if occ[l][i][j] is not None]
            if len(st) >= 3 and len(set(st)) < len(st):
                c.count('cells with same-net shields')
            if len(st) >= 3:
                c.count('cells with shields')
    if mim:
        c.count('layouts with MIM plates')
    ov, _, _ = kvflow.tables(res)
    compare(c, ref, ov, area, f"{pdk}")
    c.count('manhattan layouts')
    c.sample = dict(pdk=pdk, halo=halo, mim=mim, shapes=[(names and kvlvs.metals(pdk)[m][6], r_, L.names[L.find(o)])
                                                        for m, r_, o in L.shapes[:6]], overlaps=len(ref))


def rand_poly(rng, size):
    cx, cy = rng.randrange(0, size), rng.randrange(0, size)
    n = rng.randint(3, 8)
    rad = rng.randrange(300, size // 2)
    angs = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
    pts = [kdb.Point(int(cx + rad * rng.uniform(0.3, 1) * math.cos(a)), int(cy + rad * rng.uniform(0.3, 1) * math.sin(a)))
           for a in angs]
    return kdb.Polygon(pts)


def angled(c):
    """any polygon shapes; oracle: boolean set algebra per layer and net on the drawn polygons"""
    rng = c.rng
    pdk = rng.choice(['sky130A', 'ihp_sg13g2'])
    M = kvlvs.metals(pdk)
    size = rng.choice([4000, 12000])
    lays = sorted(rng.sample(range(len(M)), rng.randint(2, 4)))
    ly = kdb.Layout(); ly.dbu = rng.choice([0.001] * 3 + [0.0005, 0.002, 0.005])
    top = ly.create_cell('TOP')
    regs = {}
    k = 0
    for m in lays:
        taken = kdb.Region()
        for _ in range(rng.randint(1, 4)):
            p = kdb.Region(rand_poly(rng, size)).merged()
            p = kdb.Region(list(p.each())[:1]) if p.count() else p
            if p.area() < 10000 or not (p.sized(20) & taken).is_empty() or not (p & taken.sized(20)).is_empty() \
                    or not (p & taken).is_empty():
                continue
            poly = list(p.each())[0]
            # a label strictly inside: centre of the largest trapezoid
            tz = max(p.decompose_trapezoids_to_region().each(), key=lambda q: q.area())
            bb = tz.bbox().center()
            if not poly.inside(bb):
                continue
            taken += p
            n = f"Q{k}"
            k += 1
            regs.setdefault(m, []).append((n, poly))
            top.shapes(ly.layer(kdb.LayerInfo(*M[m][1]))).insert(poly)
            top.shapes(ly.layer(kdb.LayerInfo(*M[m][5]))).insert(kdb.Text(n, kdb.Trans(bb.x, bb.y)))
    if k < 2:
        return
    lvs = kvlvs.extract(ly, 'TOP', pdk)
    if any(',' in n.name for n in lvs.netlist().circuit_by_name('TOP').each_net()):
        c.count('cases skipped: LVS nets differ from bookkeeping')
        return
    r, res = kvflow.extract25(lvs, pdk, c.dir)
    if res is None:
        c.violate(kvcore.crash_key(r.exc) if r.exc else 'crash',
                  f"2.5D extraction of an angled layout failed: {r.exc!r}\n{r.out[-800:]}")
        return
    T = kvref.Tech(kvflow.tech_json(pdk))
    order = sorted(regs)
    ref, tol = {}, {}
    levels = [None] + order
    for bi, b in enumerate(levels):
        for ti in range(bi + 1, len(levels)):
            t = levels[ti]
            between = kdb.Region()
            for x in levels[bi + 1:ti]:
                for _, p in regs[x]:
                    between.insert(p)
            bots = [(SUB, None)] if b is None else regs[b]
            for nt, pt in regs[t]:
                for nb, pb in bots:
                    rg = kdb.Region(pt)
                    if pb is not None:
                        rg &= kdb.Region(pb)
                    per = rg.perimeter() + between.perimeter()
                    rg -= between
                    lt, lb = M[t][6], SUB if b is None else M[b][6]
                    coef = T.ovl.get((lt, lb))
                    if coef is None:
                        continue
                    key = (lt, nt, lb, nb)
                    ref[key] = rg.area() * ly.dbu ** 2 * coef / 1000.0
                    tol[key] = (per * 2 + 20) * ly.dbu ** 2 * coef / 1000.0
    ov, _, _ = kvflow.tables(res)
    ref = {k: v for k, v in ref.items() if v > 0 or k in ov}
    if compare(c, ref, ov, None, f"angled {pdk}", lambda k: tol.get(k, 0.0)):
        c.count('angled layouts')


def case(c):
    angled(c) if c.idx % 5 == 4 else manhattan(c)


def main():
    ck = kvcore.Check('C01', 'random layouts (rectangles, L/U/ring bodies, via-connected nets, plate sandwiches, MIM '
                      'capacitors, angled polygons) through kpex --2.5D; an evaluation is one (layer,net)-(layer,net) '
                      'overlap compared with the reference; distinct by layers, nets and value',
                      required=['manhattan layouts', 'angled layouts', 'cells with same-net shields',
                                'layouts with MIM plates'],
                      assumptions=['LVS stand-in registers layers under the LVS deck names',
                                   'coefficients are read from the generated technology JSON'])
    ck.run(case, 4000, 20000)
    ck.finish()
