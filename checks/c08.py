"""C08: the 3D panels of the FasterCap model are exactly the material interfaces of the prescribed solids."""
import random, math, os
import numpy as np
import klayout.db as kdb
import kvcore


def rect(rng, n, step):
    x, y = rng.randrange(0, n), rng.randrange(0, n)
    w, h = rng.randint(1, max(1, n // 2)), rng.randint(1, max(1, n // 2))
    return (x * step, y * step, (x + w) * step, (y + h) * step)


def region(rects):
    r = kdb.Region()
    for q in rects:
        r.insert(kdb.Box(*q))
    return r


class Model:
    """solids as (rects, z0, z1) in dbu, by net and by material"""

    def __init__(self, rng):
        self.rng = rng
        self.cond, self.diel = [], []     # (name, rects, z0, z1)
        self.materials = []               # (name, k) in order of priority


def solids(rng, exact):
    m = Model(rng)
    n = rng.choice([4, 6, 9])
    step = rng.choice([1, 10, 100, 333] if exact else [100, 333])     # refined triangles end on grid points
    zs = sorted(rng.sample(range(0, 30), rng.randint(3, 7)))
    zstep = rng.choice([1, 7, 100] if exact else [60, 100])
    zs = [z * zstep for z in zs]
    nets = [f"n{i}" for i in range(rng.randint(0, 4))]
    placed = []
    for net in nets:
        for _ in range(rng.randint(1, 3)):
            i = rng.randrange(len(zs) - 1)
            j = min(len(zs) - 1, i + rng.choice([1, 1, 2]))
            rs = [rect(rng, n, step) for _ in range(rng.choice([1, 1, 2, 3]))]
            if rng.random() < 0.2:          # ring
                x1, y1, x2, y2 = rect(rng, n, step)
                x2, y2 = x1 + 3 * step, y1 + 3 * step
                rs = [(x1, y1, x2, y1 + step), (x1, y2 - step, x2, y2), (x1, y1, x1 + step, y2), (x2 - step, y1, x2, y2)]
            # different nets neither overlap nor touch
            bad = False
            for (o, qs, a, b) in placed:
                if o != net and not (zs[j] < a or b < zs[i]) and any(
                        not (r[2] < q[0] or q[2] < r[0] or r[3] < q[1] or q[3] < r[1]) for r in rs for q in qs):
                    bad = True
            if bad:
                continue
            placed.append((net, rs, zs[i], zs[j]))
    m.cond = placed
    nm = rng.randint(0, 4)
    ks = [rng.choice([1.0, 2.5, 3.9, 3.9, 4.05, 7.5, 8.4]) for _ in range(nm)]
    m.materials = [(f"m{i}", k) for i, k in enumerate(ks)]
    for name, k in m.materials:
        for _ in range(rng.randint(0, 2)):
            i = rng.randrange(len(zs) - 1)
            j = rng.randint(i + 1, len(zs) - 1)
            style = rng.random()
            if style < 0.4:                 # sheet over everything
                rs = [(-2 * step, -2 * step, (2 * n + 2) * step, (2 * n + 2) * step)]
            elif style < 0.7 and placed:    # conformal coat around a conductor
                _, qs, a, b = rng.choice(placed)
                d = rng.choice([1, 1, 2]) * step
                rs = [(q[0] - d, q[1] - d, q[2] + d, q[3] + d) for q in qs]
                i, j = zs.index(a), zs.index(b)
                if rng.random() < 0.5 and j + 1 < len(zs):
                    j += 1
            else:
                rs = [rect(rng, n, step) for _ in range(rng.choice([1, 2, 3]))]
            m.diel.append((name, rs, zs[i], zs[j]))
    return m


def voxels(m):
    """material index per voxel: 0 void, 1.. materials, -1.. nets; breakpoints of the axes"""
    ax = []
    allr = [r for _, rs, _, _ in m.cond + m.diel for r in rs]
    for lo, hi in ((0, 2), (1, 3)):
        ax.append(sorted({r[lo] for r in allr} | {r[hi] for r in allr}))
    ax.append(sorted({z for _, _, a, b in m.cond + m.diel for z in (a, b)}))
    # one empty voxel around
    ax = [[v[0] - 1] + v + [v[-1] + 1] for v in ax]
    shape = tuple(len(v) - 1 for v in ax)
    V = np.zeros(shape, dtype=int)
    ix = [{v: i for i, v in enumerate(a)} for a in ax]
    def put(rs, z0, z1, val):
        for r in rs:
            V[ix[0][r[0]]:ix[0][r[2]], ix[1][r[1]]:ix[1][r[3]], ix[2][z0]:ix[2][z1]] = val
    names = [n for n, _ in m.materials]
    for k in range(len(names) - 1, -1, -1):          # later materials have lower priority
        for n, rs, a, b in m.diel:
            if n == names[k]:
                put(rs, a, b, k + 1)
    nets = []
    for n, rs, a, b in m.cond:
        if n not in nets:
            nets.append(n)
        put(rs, a, b, -(nets.index(n) + 1))
    return V, ax, nets


def expected(m):
    """{(net or None, inside material, outside material, axis, plane, side): Region of the panel}; side: the normal's sign,
    which points to the outside; dielectric pairs are given in both orders of inside and outside"""
    V, ax, nets = voxels(m)
    mats = [None] + [n for n, _ in m.materials]
    out = {}
    for d in range(3):
        u, v = [a for a in range(3) if a != d]
        lo = np.moveaxis(V, d, 0)[:-1]
        hi = np.moveaxis(V, d, 0)[1:]
        for k, i, j in zip(*np.nonzero(lo != hi)):
            a, b = int(lo[k, i, j]), int(hi[k, i, j])
            plane = ax[d][k + 1]
            box = kdb.Box(ax[u][i], ax[v][j], ax[u][i + 1], ax[v][j + 1])
            if a < 0 and b < 0:
                raise AssertionError('touching nets')
            if a < 0 or b < 0:
                net = nets[-min(a, b) - 1]
                key = (net, None, mats[max(a, b)], d, plane, 1 if a < 0 else -1)
            else:
                # normalise: inside is the lower of the two, normal then points up
                key = (None, mats[a], mats[b], d, plane, 1)
            out.setdefault(key, kdb.Region()).insert(box)
    return {k: r.merged() for k, r in out.items()}, nets


def panels(c, gen, dbu):
    """the same from the generated triangles; None after a violation"""
    out = {}
    for table, cond in ((gen.diel_data, False), (gen.cond_data, True)):
        for key, tris in table.items():
            for t in tris:
                c.count('triangles seen')
                P = [(p.x / dbu, p.y / dbu, p.z / dbu) for p in (t.p0, t.p1, t.p2)]
                Q = [tuple(round(x) for x in p) for p in P]
                if any(abs(a - b) > 1e-3 for p, q in zip(P, Q) for a, b in zip(p, q)):
                    c.violate('off-grid', f"panel {key} {t} is not on the grid")
                    return None
                e1 = [Q[1][i] - Q[0][i] for i in range(3)]
                e2 = [Q[2][i] - Q[0][i] for i in range(3)]
                nrm = [e1[1] * e2[2] - e1[2] * e2[1], e1[2] * e2[0] - e1[0] * e2[2], e1[0] * e2[1] - e1[1] * e2[0]]
                nz = [i for i in range(3) if nrm[i]]
                if len(nz) != 1:
                    c.violate('degenerate', f"panel {key} {t} has normal {nrm}")
                    return None
                rp = t.outside_reference_point()
                dot = sum((a - b) * n for a, b, n in zip((rp.x, rp.y, rp.z), (t.p0.x, t.p0.y, t.p0.z), nrm))
                if not dot > 0:
                    c.violate('reference-point', f"reference point {rp} of {t} is not on the outside")
                    return None
                d = nz[0]
                side = 1 if nrm[d] > 0 else -1
                u, v = [a for a in range(3) if a != d]
                if cond:
                    k = (key.net_name, None, key.outside, d, Q[0][d], side)
                elif side > 0:
                    k = (None, key.inside, key.outside, d, Q[0][d], 1)
                else:
                    k = (None, key.outside, key.inside, d, Q[0][d], 1)
                out.setdefault(k, []).append(kdb.Polygon([kdb.Point(q[u], q[v]) for q in Q]))
    return out


def build(m, rng, dbu, amax, b, order=None):
    from klayout_pex.fastercap.fastercap_model_generator import FasterCapModelBuilder
    bld = FasterCapModelBuilder(dbu=dbu, k_void=1.0, delaunay_amax=amax, delaunay_b=b)
    for n, k in m.materials:
        bld.add_material(n, k)
    adds = [('d', x) for x in m.diel] + [('c', x) for x in m.cond]
    if order:
        order.shuffle(adds)
    off = rng.choice([0.0, 0.0, 0.3])        # heights between two grid steps belong to the lower one
    for kind, (n, rs, z0, z1) in adds:
        f = bld.add_dielectric if kind == 'd' else bld.add_conductor
        zz, hh = (z0 + off) * dbu, (z1 - z0) * dbu
        f(n, region(rs), zz, hh)
    return bld.generate()


def manhattan(c):
    rng = c.rng
    exact = rng.random() < 0.35
    m = solids(rng, exact)
    dbu = rng.choice([0.001, 0.001, 0.005, 0.01])
    area = max([(r[2] - r[0]) * (r[3] - r[1]) for _, rs, _, _ in m.cond + m.diel for r in rs] + [1])
    amax, b = 0.0, 0.0
    if not exact:
        amax = 0.0 if rng.random() < 0.5 else area * dbu * dbu / rng.choice([1.5, 4.0, 10.0])
        b = rng.choice([0.0, 0.5, 0.5, 1.0]) if amax == 0.0 else 0.5
    gen = build(m, rng, dbu, amax, b, rng if rng.random() < 0.3 else None)
    if gen is None:
        if m.cond or m.diel:
            c.violate('nothing', 'no model for a non-empty set of solids')
        return
    want, nets = expected(m)
    got = panels(c, gen, dbu)
    if got is None:
        return
    mats = dict(m.materials)
    for k in sorted(set(want) | set(got), key=str):
        w = want.get(k, kdb.Region())
        r = kdb.Region()
        for p in got.get(k, []):
            r.insert(p)
        total = sum(p.area2() for p in got.get(k, [])) / 2
        r2 = r.merged()
        c.count('interfaces compared')
        if (r2 ^ w).area() > 0:
            miss, more = (w - r2).area(), (r2 - w).area()
            c.violate('missing-surface' if miss else 'extra-surface',
                      f"interface net={k[0]} inside={k[1]} outside={k[2]}, normal axis {'xyz'[k[3]]} at {k[4]} dbu, side {k[5]}: "
                      f"area {miss} dbu^2 missing, {more} too much (of {w.area()}); solids cond {m.cond} diel {m.diel} materials {m.materials}")
            return
        if abs(total - w.area()) > 0.5:
            c.violate('overlapping-panels', f"interface {k}: panels add up to {total} dbu^2 for a surface of {w.area()}")
            return
        c.saw([str(k), w.area()])
    if amax > 0:
        big = max(p.area2() for ps in got.values() for p in ps) * dbu * dbu / 2
        if big > amax * 1.05:
            c.violate('max-area', f"a panel has {big} um^2, at most {amax} were asked for")
    c.count('models with dielectrics' if m.diel else 'models without dielectrics')
    if m.cond:
        c.count('models with conductors')
    closed(c, gen, m, dbu)
    c.sample = dict(nets=nets, materials=m.materials, interfaces=len(want))


def volume(tris):
    """(signed enclosed volume, |sum of area vectors|, total area)"""
    vol, s, area = 0.0, [0.0, 0.0, 0.0], 0.0
    for t in tris:
        a, b, d = [(p.x, p.y, p.z) for p in (t.p0, t.p1, t.p2)]
        cr = [b[1] * d[2] - b[2] * d[1], b[2] * d[0] - b[0] * d[2], b[0] * d[1] - b[1] * d[0]]
        vol += (a[0] * cr[0] + a[1] * cr[1] + a[2] * cr[2]) / 6
        u = [b[i] - a[i] for i in range(3)]
        v = [d[i] - a[i] for i in range(3)]
        n = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
        for i in range(3):
            s[i] += n[i] / 2
        area += math.sqrt(sum(x * x for x in n)) / 2
    return vol, math.sqrt(sum(x * x for x in s)), area


def closed(c, gen, m, dbu):
    """the generator's own consistency check agrees with itself: no error on a surface that was just found correct"""
    import klayout_pex.fastercap.fastercap_model_generator as g
    errs = []
    old = g.error
    g.error = lambda *a, **k: errs.append(a)
    try:
        if sum(len(v) for v in gen.cond_data.values()) + sum(len(v) for v in gen.diel_data.values()) < 250:
            gen.check()
            c.count('self checks run')
    finally:
        g.error = old
    if errs:
        c.count('self check errors')


def polygon(rng, n=None, size=3000):
    """a star-shaped random polygon, angled edges"""
    n = n or rng.randint(3, 8)
    cx, cy = rng.randrange(-size, size), rng.randrange(-size, size)
    a0 = rng.random() * 2 * math.pi
    pts = []
    for k in range(n):
        a = a0 + 2 * math.pi * k / n
        r = size * rng.uniform(0.25, 0.5)
        pts.append(kdb.Point(int(cx + r * math.cos(a)), int(cy + r * math.sin(a))))
    return kdb.Polygon(pts)


def angled(c):
    """angled polygons: enclosed volumes, closure and orientation per net and dielectric"""
    from klayout_pex.fastercap.fastercap_model_generator import FasterCapModelBuilder
    rng = c.rng
    dbu = 0.001
    amax = rng.choice([0.0, 0.0, 0.5])
    bld = FasterCapModelBuilder(dbu=dbu, k_void=3.5, delaunay_amax=amax, delaunay_b=rng.choice([0.0, 0.5, 1.0]))
    nets, mats = {}, {}
    z = 0
    coat = rng.random() < 0.5
    sheet = rng.random() < 0.5
    bld.add_material('coat', 4.0)
    bld.add_material('sheet', 3.0)
    used = kdb.Region()
    box = kdb.Region(kdb.Box(-9000, -9000, 9000, 9000))
    vol = dict(coat=0.0, sheet=0.0)
    per = 0.0
    ztot = 0
    for k in range(rng.randint(1, 4)):
        h = rng.randint(50, 900)
        r = kdb.Region()
        for _ in range(rng.randint(1, 3)):
            q = kdb.Region(polygon(rng))
            # (coats that cut angled edges: see any_angle_snap)
            if (r & q.sized(500, 2)).is_empty():
                r += q
        r.merge()
        if rng.random() < 0.3:
            inner = kdb.Region(polygon(rng, size=1200))
            r -= inner
        if r.is_empty():
            continue
        bld.add_conductor(f"n{k}", r, z * dbu, h * dbu)
        nets[f"n{k}"] = (r.area() * h, r.perimeter() * h + r.area())
        c_reg = kdb.Region()
        if coat:
            c_reg = r.sized(rng.choice([50, 200]), 2)
            bld.add_dielectric('coat', c_reg, z * dbu, h * dbu)
            vol['coat'] += (c_reg - r).area() * h
        if sheet:
            bld.add_dielectric('sheet', box, z * dbu, h * dbu)
            vol['sheet'] += (box - c_reg - r).area() * h
        per += (r.perimeter() + c_reg.perimeter()) * h
        z += h
        gap = rng.choice([0, 100]) if sheet or coat else rng.choice([10, 100])
        gap = max(gap, 10)
        if sheet:
            bld.add_dielectric('sheet', box, z * dbu, gap * dbu)
            vol['sheet'] += box.area() * gap
        z += gap
    if not nets:
        return
    gen = bld.generate()
    def tris(name, diel):
        out = []
        for k, v in gen.diel_data.items():
            if diel and k.inside == name:
                out += v
            elif diel and k.outside == name:
                out += [t.reversed() for t in v]
        for k, v in gen.cond_data.items():
            if diel and k.outside == name:
                out += [t.reversed() for t in v]
            elif not diel and k.net_name == name:
                out += v
        return out
    u = dbu ** 3
    for n, (v, s) in nets.items():
        got, open_, area = volume(tris(n, False))
        c.count('angled volumes compared')
        if abs(got - v * u) > 4 * s * u + 1e-9:
            c.violate('volume', f"net {n}: panels enclose {got!r} um^3, the polygon extruded has {v * u!r}")
            return
        if open_ > 4e-3 * math.sqrt(area) + 1e-3:
            c.violate('open-surface', f"net {n}: area vectors of the panels add up to {open_!r} um^2")
            return
        c.saw(['volume', '%.9g' % (v * u)])
    for n, on in (('coat', coat), ('sheet', sheet)):
        got, open_, area = volume(tris(n, True))
        if not on:
            if area:
                c.violate('extra-surface', f"dielectric {n} without solids has panels")
            continue
        c.count('angled dielectrics compared')
        if abs(got - vol[n] * u) > 6 * (per + 36000 * z) * u + 1e-9:
            c.violate('volume', f"dielectric {n}: panels enclose {got!r} um^3, the solids have {vol[n] * u!r}")
            return
        if open_ > 4e-3 * math.sqrt(area) + 1e-2:
            c.violate('open-surface', f"dielectric {n}: area vectors of the panels add up to {open_!r} um^2")
            return
        c.saw(['volume', n, '%.9g' % (vol[n] * u)])


def any_angle_snap(c):
    """one fixed layout, in which angled edges of a coat and of a conductor cross off the grid"""
    from klayout_pex.fastercap.fastercap_model_generator import FasterCapModelBuilder
    cond = ['(1043,-3072;54,-1863;455,-839;370,-1233;753,-1504;1226,-1366;1254,-907;1058,-575;646,-459;467,-810;618,-424;2026,-892;'
            '2475,-2279)', '(2396,-1301;1646,-418;2261,452;3211,230;3372,-759)']
    coat = ['(1031,-3136;-3,-1872;427,-774;589,-362;2066,-853;2535,-2303/762,-1449;1178,-1328;1203,-919;1026,-618;672,-518;504,-848;'
            '426,-1211)', '(2384,-1365;1583,-421;2240,508;3255,271;3427,-786)']
    rc, rd = kdb.Region(), kdb.Region()
    for q in cond:
        rc.insert(kdb.Polygon.from_s(q))
    for q in coat:
        rd.insert(kdb.Polygon.from_s(q))
    bld = FasterCapModelBuilder(dbu=0.001, k_void=1.0, delaunay_amax=0.0, delaunay_b=0.0)
    bld.add_material('coat', 4.0)
    bld.add_material('sheet', 3.0)
    bld.add_conductor('n0', rc, 0.0, 0.769)
    bld.add_dielectric('coat', rd, 0.0, 0.769)
    bld.add_dielectric('sheet', kdb.Region(kdb.Box(-9000, -9000, 9000, 9000)), 0.0, 0.769)
    gen = bld.generate()
    got, open_, _ = volume([t for v in gen.cond_data.values() for t in v])
    want = rc.area() * 769e-9
    c.count('any-angle crossing probed')
    if abs(got - want) > 0.005 or open_ > 0.02:
        c.violate('any-angle-snap', f"panels of the conductor enclose {got:.4f} um^3 instead of {want:.4f}; their area vectors add up to "
                  f"{open_:.4f} um^2")


def case(c):
    import klayout_pex.fastercap.fastercap_model_generator as g
    g.info = g.debug = g.error = lambda *a, **k: None      # (the messages, formatted with every region, take most of the time)
    try:
        if c.idx == 0:
            any_angle_snap(c)
        else:
            (angled if c.idx % 6 == 5 else manhattan)(c)
    except RuntimeError as e:
        if 'Internal error' not in str(e) or 'Region.delaunay' not in str(e):
            raise
        c.count('models KLayout cannot triangulate (internal error of Region.delaunay)')


def main():
    ck = kvcore.Check('C08', 'random stacks of conductors and dielectrics (sheets, coats, arbitrary boxes, angled polygons) through '
                      'FasterCapModelBuilder.generate; an evaluation is one material interface in one plane (or one enclosed volume); '
                      'distinct by materials, plane and area',
                      required=['interfaces compared', 'models with dielectrics', 'models with conductors', 'angled volumes compared',
                                'angled dielectrics compared', 'self checks run'],
                      assumptions=['solids of different nets neither overlap nor touch'])
    ck.run(case, 4000, 60000)
    ck.finish()
