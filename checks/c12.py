"""C12: reduction keeps the electrical behaviour. The nodal admittance matrix of the R/L/C network is re-assembled before
and after reduction at several complex frequencies, with nets that vanished eliminated by the Schur complement."""
import collections
import numpy as np
import klayout.db as kdb
import kvcore, kvnet

RLC = {'RES': 'R', 'CAP': 'C', 'IND': 'L', 'RESB': 'R', 'CAPB': 'C', 'PEX_CAP': 'C', 'PEX_RES': 'R'}


def random_netlist(rng):
    nl, ck = kvnet.netlist(rng, ndev=rng.choice([0, 0, 1, 3]), kinds=['NMOS', 'PMOS', 'DIO', 'NPN'], unconnected=False,
                           nnets=rng.randint(2, 9))
    cls = {k.name: k for k in nl.each_device_class()}
    for nm, kc in (('PEX_CAP', kdb.DeviceClassCapacitor), ('PEX_RES', kdb.DeviceClassResistor)):
        d = kc()
        d.name = nm
        nl.add(d)
        cls[nm] = d
    nets = list(ck.each_net())
    kinds = rng.choice([['PEX_CAP', 'PEX_RES'], ['PEX_CAP'], ['PEX_CAP', 'PEX_CAP', 'PEX_RES', 'CAP', 'RES', 'IND'], list(RLC)])
    made = []
    for i in range(rng.choice([1, 3, 6, 12, 25])):
        k = rng.choice(kinds)
        a, b = rng.choice(nets), rng.choice(nets)
        w = rng.choice(nets)
        if made and rng.random() < 0.35:
            k, a, b, w = rng.choice(made)
            if rng.random() < 0.5:
                a, b = b, a
        if a is b and rng.random() < 0.7:
            continue
        made.append((k, a, b, w))
        d = ck.create_device(cls[k], f"{k}_{i}")
        if rng.random() < 0.97:
            d.connect_terminal('A', a)
        d.connect_terminal('B', b)
        if k in ('RESB', 'CAPB'):
            d.connect_terminal('W', w)
        p = RLC[k]
        v = (rng.choice([0.0, 1.0, 10.0, rng.random() * 1000, rng.random() * 10 ** rng.randint(-7, -1)]) if p == 'R' else
             rng.choice([1e-16, 2e-17, 3e-17, 4.9e-17, 5.1e-17, rng.random() * 1e-16, rng.random() * 1e-14]) if p == 'C' else rng.random() * 1e-9 + 1e-12)
        if k == 'RESB' and v == 0.0:
            v = 1.0
        d.set_parameter(p, v)
        for q in ('A', 'P'):
            if p != 'L' and rng.random() < 0.4:
                d.set_parameter(q, rng.choice([1.0, 0.25, rng.random()]))
    return nl, ck


class UF:
    def __init__(self):
        self.p = {}

    def find(self, x):
        self.p.setdefault(x, x)
        while self.p[x] != x:
            x = self.p[x]
        return x

    def join(self, a, b):
        self.p[self.find(a)] = self.find(b)


def network(ck):
    """(list of two-terminal elements (kind, a, b, value), other devices)"""
    two, other = [], []
    for d in ck.each_device():
        k = d.device_class().name
        if k in RLC:
            a, b = d.net_for_terminal('A'), d.net_for_terminal('B')
            w = d.net_for_terminal('W') if k in ('RESB', 'CAPB') else None
            two.append((k, a.expanded_name() if a else None, b.expanded_name() if b else None, d.parameter(RLC[k]),
                        w.expanded_name() if w else None))
        else:
            other.append(d)
    return two, other


def merged(two):
    uf = UF()
    for k, a, b, v, w in two:
        if RLC[k] == 'R' and v == 0.0 and a is not None and b is not None:
            uf.join(a, b)
    return uf


def admittance(two, uf, s, scale):
    nodes = sorted({uf.find(x) for k, a, b, v, w in two for x in (a, b) if x is not None})
    pos = {x: i for i, x in enumerate(nodes)}
    y = np.zeros((len(nodes),) * 2, complex)
    for k, a, b, v, w in two:
        if a is None or b is None:
            continue
        i, j = pos[uf.find(a)], pos[uf.find(b)]
        if i == j:
            continue
        p = RLC[k]
        if p == 'R':
            g = 1 / v
        elif p == 'C':
            g = s * v
        else:
            g = 1 / (s * v)
        y[i, i] += g
        y[j, j] += g
        y[i, j] -= g
        y[j, i] -= g
    return nodes, y


def schur(nodes, y, keep):
    """eliminates every node that is not kept (floating ones have nothing to eliminate)"""
    nodes = list(nodes)
    for x in [n for n in nodes if n not in keep]:
        i = nodes.index(x)
        d = y[i, i]
        if abs(d) > 0:
            y = y - np.outer(y[:, i], y[i, :]) / d
        y = np.delete(np.delete(y, i, 0), i, 1)
        nodes.pop(i)
    return nodes, y


def others(ds):
    """devices that are neither R, L nor C, and inductors: exactly as they are"""
    return collections.Counter(repr(kvnet.device(d)) for d in ds)


def sizes(ck):
    out = {}
    for d in ck.each_device():
        k = d.device_class().name
        if RLC.get(k) in ('R', 'C'):
            ts = [d.net_for_terminal(t.id()) for t in d.device_class().terminal_definitions()]
            ts = [n.expanded_name() if n else '' for n in ts]
            o = out.setdefault((k, tuple(sorted(ts[:2])), tuple(ts[2:])), [0.0, 0.0])
            for i, q in enumerate('AP'):
                o[i] += d.parameter(q)
    return out


def multiset(two):
    return collections.Counter((k, tuple(sorted(map(str, (a, b)))), '%.9g' % v, w) for k, a, b, v, w in two)


def case(c):
    from klayout_pex.klayout.netlist_reducer import NetlistReducer
    import logging
    logging.disable(logging.CRITICAL)
    rng = c.rng
    nl, ck = random_netlist(rng)
    before = kvnet.image(nl)
    T = rng.choice([None, None, 0.05e-15, 1e-16, 1e-17, 0.0])
    r0 = NetlistReducer.reduce(netlist=nl, top_cell_name='TOP', cap_threshold=0.0)
    rt = NetlistReducer.reduce(netlist=nl, top_cell_name='TOP') if T is None else \
        NetlistReducer.reduce(netlist=nl, top_cell_name='TOP', cap_threshold=T)
    if not c.expect(kvnet.image(nl) == before, 'input', "the expanded netlist was modified by reducing it"):
        return
    two, oth = network(ck)
    c0, ct = r0.circuit_by_name('TOP'), rt.circuit_by_name('TOP')
    two0, oth0 = network(c0)
    twot, otht = network(ct)
    # pins stay, on the same nets
    pins = [(p.name(), (lambda n: n.expanded_name() if n else None)(ck.net_for_pin(p.id()))) for p in ck.each_pin()]
    for what, x in (('reduced', ct), ('reduced without threshold', c0)):
        got = [(p.name(), (lambda n: n.expanded_name() if n else None)(x.net_for_pin(p.id()))) for p in x.each_pin()]
        c.expect(got == pins, 'pins', f"{what}: pins {got} instead of {pins}")
        c.count('pins compared', len(pins))
        nets = [n.expanded_name() for n in x.each_net()]
        c.expect(nets == [n.expanded_name() for n in ck.each_net()], 'nets', f"{what}: nets {nets}")
    # other devices
    a = others(oth)
    for what, o in (('reduced', otht), ('reduced without threshold', oth0)):
        b = others(o)
        c.count('other devices compared', len(a))
        c.expect(a == b, 'devices', f"{what}: devices {dict(b)} instead of {dict(a)}")
    # threshold: only capacitors below it are dropped, everything else as without threshold
    th = 0.05e-15 if T is None else T
    m0, mt = multiset(two0), multiset(twot)
    drop = collections.Counter({k: n for k, n in multiset([x for x in two0 if RLC[x[0]] == 'C' and x[3] < th]).items()})
    c.count('capacitors below threshold', sum(drop.values()))
    if not c.expect(mt == m0 - drop, 'threshold', f"threshold {th}: devices missing {dict((m0 - drop) - mt)}, left over {dict(mt - (m0 - drop))}"):
        return
    # everything that can be combined in parallel is combined
    seen = collections.Counter((k, tuple(sorted(map(str, (x, y)))), w) for k, x, y, v, w in two0 if k != 'IND' and x != y and None not in (x, y))
    par = [k for k, n in seen.items() if n > 1]
    c.expect(not par, 'uncombined', f"devices still parallel: {par[:3]}")
    # areas and perimeters of parallel devices add up
    geo, geo0 = sizes(ck), sizes(c0)
    c.expect(set(geo) == set(geo0) and all(kvcore.close(geo[k][i], geo0[k][i]) for k in geo for i in (0, 1)), 'sizes', f"areas and perimeters {geo} became {geo0}"[:1500])
    # admittance
    keep = {p[1] for p in pins if p[1]} | {n.expanded_name() for n in c0.each_net() if n.terminal_count() or n.pin_count()}
    keep |= {(lambda n: n.expanded_name() if n else None)(d.net_for_terminal(t.id())) for d in oth for t in d.device_class().terminal_definitions()}
    bulk = {w for *_, w in two if w}
    c.expect({w for *_, w in two0 if w} <= bulk, 'bulk', "a bulk terminal moved to another net")
    uf, uf0 = merged(two), merged(two0)
    # nets joined by 0 ohm before and after, seen from the kept nets
    ks = sorted(x for x in keep if x)
    for i, x in enumerate(ks):
        for y in ks[:i]:
            same = uf.find(x) == uf.find(y)
            if not c.expect(same == (uf0.find(x) == uf0.find(y)), 'short', f"{x} and {y} are {'' if same else 'not '}shorted before, the opposite after"):
                return
    # a common representative for each group of shorted nets
    rep = {}
    for x in ks:
        rep.setdefault(uf.find(x), x)
    ren = lambda u: (lambda x: rep.get(u.find(x), u.find(x)))
    class R:
        def __init__(self, u, grp):
            self.u, self.grp = u, grp
        def find(self, x):
            return self.grp.get(self.u.find(x), self.u.find(x))
    g0 = {}
    for x in ks:
        g0.setdefault(uf0.find(x), rep[uf.find(x)])
    A, B = R(uf, rep), R(uf0, g0)
    kept = set(rep.values())
    for s in (1j * 1e12, 3e12 + 2e12j, 1e9j + 1e8):
        n1, y1 = schur(*admittance(two, A, s, 1), kept)
        n2, y2 = schur(*admittance(two0, B, s, 1), kept)
        names = sorted(set(n1) | set(n2))
        def full(ns, y):
            f = np.zeros((len(names),) * 2, complex)
            ix = [names.index(x) for x in ns]
            for i, p in enumerate(ix):
                for j, q in enumerate(ix):
                    f[p, q] = y[i, j]
            return f
        f1, f2 = full(n1, y1), full(n2, y2)
        sc = max(np.abs(f1).max() if f1.size else 0, np.abs(f2).max() if f2.size else 0)
        c.count('admittance entries compared', f1.size)
        if f1.size:
            err = np.abs(f1 - f2)
            diag = np.abs(np.diag(f1)) + np.abs(np.diag(f2))
            tol = 1e-7 * np.sqrt(np.outer(diag, diag)) + 1e-12 * sc
            if not c.expect(bool((err <= tol).all()), 'admittance', f"s={s}: admittance between {names[:6]} changed by {err.max()} of {sc}"):
                return
    if two:
        c.saw([sorted(map(repr, two))[:6], len(two0)])
    # reducing what is reduced changes nothing more
    again = NetlistReducer.reduce(netlist=r0, top_cell_name='TOP', cap_threshold=0.0)
    t2, o2 = network(again.circuit_by_name('TOP'))
    c.count('reduced twice')
    c.expect(multiset(t2) == m0 and others(o2) == others(oth0), 'twice', "reducing a reduced netlist changes it once more")
    again = NetlistReducer.reduce(netlist=rt, top_cell_name='TOP', cap_threshold=th)
    c.expect(kvnet.image(again) == kvnet.image(rt), 'twice', f"reducing a netlist reduced with threshold {th} changes it once more")
    c.count('devices combined', len(two) - len(two0))
    c.sample = dict(before=[repr(x) for x in two[:3]], after=[repr(x) for x in two0[:3]])
    logging.disable(logging.NOTSET)


def main():
    ck = kvcore.Check('C12', 'random netlists of parallel, reversed, chained, self-shorted, zero-ohm and dangling R/L/C devices around transistors, '
                      'diodes and pins; an evaluation is a reduced netlist whose admittance matrix at three complex frequencies equals '
                      'that of the input; distinct by device set',
                      required=['admittance entries compared', 'pins compared', 'other devices compared', 'capacitors below threshold',
                                'devices combined', 'reduced twice'],
                      assumptions=['nets have distinct names', 'values are positive (resistors may be zero)'])
    ck.run(case, 8000, 80000)
    ck.finish()
