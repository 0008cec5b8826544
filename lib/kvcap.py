"""Shared workload of the 2.5D capacitance checks: random layouts through kpex --2.5D plus the reference."""
import os, random
import kvcore, kvflow, kvlvs, kvref, kvsynth


class CapCase:
    pass


def dense(rng, pdk):
    """parallel wires on one to three adjacent layers, gaps around minimum spacing up to beyond the halo"""
    L = kvsynth.Layout(pdk)
    m = len(kvlvs.metals(pdk))
    k = rng.randint(1, 3)
    s = rng.randint(0, m - k)
    for i in range(s, s + k):
        horiz = rng.random() < 0.5
        p = rng.randrange(0, 2000, 5)
        for _ in range(rng.randint(2, 6)):
            w = rng.randrange(100, 900, 5)
            a = rng.randrange(-3000, 3000, 5)
            b = a + rng.randrange(300, 9000, 5)
            o = L.new_obj()
            L.shapes.append((i, (a, p, b, p + w) if horiz else (p, a, p + w, b), o))
            p += w + rng.choice([60, 140, 145, 200, 500, 1000, 1995, 2000, 2005, 3000, 7990, 8000, 8005])
    for (ma, ra, oa) in L.shapes:
        for (mb, rb, ob) in L.shapes:
            it = kvsynth._inter(ra, rb)
            if mb == ma + 1 and it and it[2] - it[0] > 100 and it[3] - it[1] > 100 and rng.random() < 0.25:
                L.vias.append((ma, (it[0] + 20, it[1] + 20, it[0] + 80, it[1] + 80), oa))
                L.union(oa, ob)
    L.assign_names(kvsynth.cased("W", lambda: rng.random() < 0.9))
    return L


def run(c, small=False):
    """one random layout through the command line; None if it could not be judged"""
    rng = c.rng
    pdk = rng.choice(['sky130A', 'sky130A', 'ihp_sg13g2'])
    style = rng.random()
    size = rng.choice([3000, 8000, 20000])
    nmax = rng.choice([4, 8, 14] if small else [4, 8, 14, 20])
    mim = False
    if style < 0.3:
        L = dense(rng, pdk)
    elif pdk == 'sky130A' and style < 0.4:
        L = kvsynth.random_layout(rng, pdk, nmax=nmax, size=size, layers=[0, 1, 2, 3, 6])
        L.add_mim(rng, rng.randrange(0, size), rng.randrange(0, size))
        mim = True
        L.names.clear(); L.labels.clear()
        L.assign_names(kvsynth.cased("N"))
    else:
        L = kvsynth.random_layout(rng, pdk, nmax=nmax, size=size, min_gap=1 if pdk == 'sky130A' else 60)
    L.dbu = rng.choice([0.001] * 5 + [0.0005, 0.002, 0.005])
    ly = L.to_kdb(split=random.Random(rng.random()) if rng.random() < 0.3 else None,
                  hier=random.Random(rng.random()) if rng.random() < 0.3 else None)
    lvs = kvlvs.extract(ly, 'TOP', pdk, capdev=mim)
    p = os.path.join(c.dir, 'in.lvsdb.gz')
    lvs.write(p)
    if not L.probe_names(p):
        c.count('cases skipped: LVS nets differ from bookkeeping')
        return None
    k = CapCase()
    k.pdk, k.L, k.mim = pdk, L, mim
    k.halo_opt = rng.choice([None, None, 0.5, 2.0, 3.3, 20.0])
    k.scale_opt = rng.choice([None, True, False])
    k.scale = True if k.scale_opt is None else k.scale_opt
    black = False if mim else rng.choice([None, False, True])
    k.tech_path = kvflow.altered_tech(rng, pdk, os.path.join(c.dir, 'tech.json')) if rng.random() < 0.25 else None
    with kvflow.technology(k.tech_path) as asked:
        r, k.res = kvflow.extract25_file(p, pdk, c.dir, halo=k.halo_opt, scale=k.scale_opt, blackbox=black)
    if k.tech_path and not asked:
        c.count('cases skipped: technology file not read')
        return None
    c.count('layouts under another technology', bool(k.tech_path))
    if k.res is None:
        c.violate('crash' if r.exc is None else kvcore.crash_key(r.exc),
                  f"2.5D extraction of a valid layout failed: {r.exc!r}\n{r.out[-800:]}")
        return None
    k.T = kvref.Tech(k.tech_path or kvflow.tech_json(pdk))
    k.halo = k.halo_opt if k.halo_opt is not None else k.T.halo
    k.ref = kvref.Raster(L.layer_names(), L.rects_by_layer_net(), L.dbu, k.halo)
    k.lo, k.hi = int(k.halo / L.dbu) - 1, int(k.halo / L.dbu) + 3
    k.ov, k.sw, k.fr = kvflow.tables(k.res)
    c.count('layouts')
    c.count('layouts with a database unit other than 1 nm', L.dbu != 0.001)
    if mim:
        c.count('layouts with MIM plates')
    if L.vias:
        c.count('layouts with vias')
    c.sample = dict(pdk=pdk, halo=k.halo, scale=k.scale, shapes=[(kvlvs.metals(pdk)[m][6], r_, L.names[L.find(o)])
                                                                for m, r_, o in L.shapes[:5]])
    return k
