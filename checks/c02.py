"""C02: sidewall capacitance == facing length x coefficient / (distance + offset), each pair once."""
import kvcore, kvcap, kvflow, kvlvs, kvref, kvsynth, os

OWN = 'own-body-not-shielding'


def judge(c, k):
    lo, n1 = k.ref.sidewall(k.T, k.lo)
    hi, n2 = k.ref.sidewall(k.T, k.hi)
    thin = k.ref.thin
    alt = None
    c.count('facing edge stretches in reference', n2)
    for key in sorted(set(hi) | set(k.sw), key=str):
        a, b, g = lo.get(key, 0.0), hi.get(key, 0.0), k.sw.get(key, 0.0)
        tol = 1e-9 * max(abs(b), abs(g)) + 1e-12 + thin.get(key, 0.0)
        c.count('pairs compared')
        if a - tol <= g <= b + tol:
            c.saw([k.pdk, key[0], sorted(key[1]), round(g, 12)])
            continue
        if alt is None:
            alt = (k.ref.sidewall(k.T, k.lo, through_self=True)[0], k.ref.sidewall(k.T, k.hi, through_self=True)[0])
        a2, b2 = alt[0].get(key, 0.0), alt[1].get(key, 0.0)
        tol += k.ref.thin.get(key, 0.0)
        if a2 - tol <= g <= b2 + tol:
            c.violate(OWN, f"{k.pdk}: sidewall {key[0]} {sorted(key[1])}: {g!r} fF includes coupling through the "
                           f"edge's own body; correct is {b!r} fF")
            c.count('pairs explained by the own-body finding')
            continue
        c.violate(f"sidewall:{'missing' if g == 0 else 'spurious' if b == 0 else 'value'}",
                  f"{k.pdk} halo {k.halo}: sidewall {key[0]} {sorted(key[1])}: expected [{a!r}, {b!r}] fF, extracted {g!r} fF")
        return
    for (l, nets) in k.sw:
        if len(nets) == 1:
            c.violate('sidewall:same-net', f"sidewall between a net and itself: {l} {sorted(nets)}")


def probe_own_body(c):
    """deterministic layout of the recorded finding: a U of net A around nothing, wire of net B below it"""
    L = kvsynth.Layout('sky130A')
    a, b = L.new_obj(), L.new_obj()
    for r in ((0, 0, 4000, 200), (0, 0, 200, 2000), (1000, 0, 1200, 2000)):
        L.shapes.append((1, r, a))
    L.shapes.append((1, (-1000, 0, -500, 2000), b))
    L.assign_names(lambda i: 'Aa'[i])
    lvs = kvlvs.extract(L.to_kdb(), 'TOP', 'sky130A')
    k = kvcap.CapCase()
    r, k.res = kvflow.extract25(lvs, 'sky130A', c.dir, halo=8.0)
    if k.res is None:
        c.violate(kvcore.crash_key(r.exc), f"2.5D extraction of the probe failed: {r.exc!r}")
        return
    k.pdk, k.L, k.halo = 'sky130A', L, 8.0
    k.T = kvref.Tech(kvflow.tech_json('sky130A'))
    k.ref = kvref.Raster(L.layer_names(), L.rects_by_layer_net(), L.dbu, k.halo)
    k.lo, k.hi = 7999, 8003
    _, k.sw, _ = kvflow.tables(k.res)
    judge(c, k)
    c.count('probe of the recorded finding')


def case(c):
    if c.idx == 0:
        return probe_own_body(c)
    k = kvcap.run(c)
    if k:
        judge(c, k)


def main():
    ck = kvcore.Check('C02', 'random layouts (wires at gaps around the halo, L/U/ring bodies, via-connected nets, split and '
                      'hierarchical drawings) through kpex --2.5D; an evaluation is one (layer, net pair) sidewall value '
                      'compared with the raster reference evaluated at halo -1/+3 dbu; distinct by layer, nets and value',
                      required=['layouts', 'layouts with vias', 'facing edge stretches in reference',
                                'probe of the recorded finding', 'pairs compared'],
                      assumptions=['LVS stand-in registers layers under the LVS deck names',
                                   'coefficients are read from the generated technology JSON'])
    ck.run(case, 3500, 20000)
    ck.finish()
