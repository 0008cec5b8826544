"""C03: fringe capacitance == length x coefficient x visible arctan share of the halo."""
import kvcore, kvcap


def case(c):
    k = kvcap.run(c)
    if not k:
        return
    lo, n1 = k.ref.fringe(k.T, k.lo, k.halo, k.scale)
    hi, n2 = k.ref.fringe(k.T, k.hi, k.halo, k.scale)
    for key in sorted(set(hi) | set(k.fr), key=str):
        a, b, g = lo.get(key, 0.0), hi.get(key, 0.0), k.fr.get(key, 0.0)
        n = max(n1.get(key, 0), n2.get(key, 0))
        # window borders are on the dbu grid: one dbu per elementary strip
        tol = 1e-4 * n * max(1, k.L.dbu / 0.001) + 1e-6 * max(abs(b), abs(g)) + 1e-9
        if k.tech_path:
            tol += k.ref.slack.get(key, 0.0)
        c.count('pairs compared')
        if a - tol <= g <= b + tol:
            c.saw([k.pdk, list(key), k.scale, round(g, 9)])
            c.count('with --scale' if k.scale else 'without --scale')
            continue
        c.violate(f"fringe:{'missing' if g == 0 else 'spurious' if b == 0 else 'value'}",
                  f"{k.pdk} halo {k.halo} scale {k.scale}: fringe {key}: expected [{a!r}, {b!r}] +- {tol:.2g} fF, extracted {g!r} fF")
        return
    for key in k.fr:
        if key[1] == key[3]:
            c.violate('fringe:same-net', f"fringe between shapes of one net: {key}")


def main():
    ck = kvcore.Check('C03', 'random layouts as in C02 with random --halo and --scale through kpex --2.5D; an evaluation is '
                      'one (inside layer, net)-(outside layer, net) fringe value compared with the raster reference; '
                      'distinct by layers, nets, scale and value',
                      required=['layouts', 'with --scale', 'without --scale', 'pairs compared', 'layouts with vias'],
                      assumptions=['fringe windows may be off by one dbu per elementary strip'])
    ck.run(case, 2500, 15000)
    ck.finish()
