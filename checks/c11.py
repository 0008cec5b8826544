"""C11: the expanded netlist is the circuit of the Maxwell matrix plus the original netlist."""
import os, collections
import klayout.db as kdb
import kvcore, kvnet


def maxwell(rng, n):
    """physical Maxwell matrix: coupling capacitances and capacitances to ground, some of them zero"""
    c = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            v = 0.0 if rng.random() < 0.25 else rng.random() * 10 ** rng.randint(-21, rng.choice([-13, -13, -10]))
            c[i][j] = c[j][i] = v
    m = [[-c[i][j] if i != j else sum(c[i]) for j in range(n)] for i in range(n)]
    noise = []
    if rng.random() < 0.2 and n > 2:        # numerical noise of the solver: slightly positive coupling
        i, j = rng.sample(range(n), 2)
        m[i][j] = m[j][i] = rng.random() * 1e-20
        noise.append((min(i, j), max(i, j)))
    return m


def case(c):
    from klayout_pex.klayout.netlist_expander import NetlistExpander
    from klayout_pex.klayout.netlist_csv import NetlistCSVWriter
    from klayout_pex.common.capacitance_matrix import CapacitanceMatrix
    import logging
    logging.disable(logging.CRITICAL)
    rng = c.rng
    nl, ck = kvnet.netlist(rng, unnamed=rng.random() < 0.5)
    if rng.random() < 0.3:                   # a further circuit of another name must stay out of it
        other = kdb.Circuit()
        other.name = rng.choice(['OTHER', 'top'])
        nl.add(other)
        o = other.create_net('A')
        other.connect_pin(other.create_pin('A'), o)
    black = rng.random() < 0.6
    allnets = [n.expanded_name() for n in ck.each_net()]
    part = [n for n in allnets if n != 'VSUBS' and rng.random() < 0.85]
    rng.shuffle(part)
    if len(set(part)) != len(part):
        part = list(dict.fromkeys(part))
    cond = ['VSUBS'] + part
    engine = rng.choice(['fastercap', 'fastercap', 'fastcap'])
    m = maxwell(rng, len(cond))
    names = [f"g{rng.choice([1, 1, 1, 17])}_{n}" if engine == 'fastercap' else f"{n}%GROUP{i + 1}" for i, n in enumerate(cond)]
    cm = CapacitanceMatrix(conductor_names=names, rows=[[*r] for r in m])
    before, mbefore = kvnet.image(nl), ([*names], [[*r] for r in m])
    had_vsubs, had_gnd = 'VSUBS' in allnets, 'GND' in allnets
    out = NetlistExpander.expand(extracted_netlist=nl, top_cell_name='TOP', cap_matrix=cm, blackbox_devices=black)
    tag = f"{engine}, {len(cond)} conductors, {'black' if black else 'white'}box"
    c.expect(kvnet.image(nl) == before, 'input-netlist', f"{tag}: the extracted netlist was modified")
    c.expect((cm.conductor_names, cm.rows) == mbefore, 'input-matrix', f"{tag}: the matrix was modified")
    t = out.circuit_by_name('TOP')
    # --- original netlist
    orig = {x[0]: x for x in before}
    now = {x[0]: x for x in kvnet.image(out)}
    c.expect(set(now) == set(orig), 'circuits', f"{tag}: circuits {sorted(now)}")
    for k in set(now) - {'TOP'}:
        c.expect(now[k] == orig[k], 'other-circuit', f"{tag}: circuit {k} was changed")
    c.expect(now['TOP'][1] == orig['TOP'][1], 'pins', f"{tag}: pins {now['TOP'][1]} instead of {orig['TOP'][1]}")
    added = collections.Counter(now['TOP'][2]) - collections.Counter(orig['TOP'][2])
    lost = collections.Counter(orig['TOP'][2]) - collections.Counter(now['TOP'][2])
    want_added = collections.Counter(['FC_GND'] + ([] if had_vsubs else ['VSUBS']) + ([] if had_gnd else ['GND']))
    c.expect(not lost and added == want_added, 'nets', f"{tag}: nets added {dict(added)}, lost {dict(lost)}")
    caps, shorts, rest = [], [], []
    for d in t.each_device():
        k = d.device_class().name
        (caps if k == 'PEX_CAP' else shorts if k == 'PEX_RES' else rest).append(d)
    got_rest = tuple(sorted(repr(kvnet.device(d)) for d in rest))
    want_rest = orig['TOP'][3] if black else ()
    c.count('devices compared', len(want_rest))
    c.expect(got_rest == want_rest, 'devices', f"{tag}: {len(got_rest)} original devices, should be {len(want_rest)}")
    # --- capacitors
    n = len(cond)
    exp = {}
    for i in range(n):
        for j in range(i + 1, n):
            if -m[i][j] > 0:
                exp.setdefault((cond[i], cond[j]), []).append(-m[i][j])
        if i > 0:
            exp.setdefault((cond[0], cond[i]), []).append(sum(m[i]))
    scale = max([abs(x) for r in m for x in r] + [1e-30])
    got = {}
    for d in caps:
        a, b = (d.net_for_terminal(x) for x in 'AB')
        if not c.expect(a is not None and b is not None, 'unconnected', f"{tag}: {d.name} is not connected"):
            return
        c.expect(d.parameter('C') > 0, 'negative', f"{tag}: {d.name} has {d.parameter('C')}")
        c.expect(d.parameter('A') == 0 and d.parameter('P') == 0, 'parameters', f"{tag}: {d.name} got other parameters")
        a, b = a.expanded_name(), b.expanded_name()
        key = (a, b) if (a, b) in exp else (b, a)
        got.setdefault(key, []).append(d.parameter('C'))
    names_of = [d.name for d in caps]
    c.expect(len(set(names_of)) == len(names_of), 'device-names', f"{tag}: device names repeat {names_of[:6]}")
    for key in set(exp) | set(got):
        e = sorted(x for x in exp.get(key, []) if x > 1e-12 * scale)
        g = sorted(x for x in got.get(key, []) if x > 1e-12 * scale)
        c.count('pairs compared')
        if not c.expect(len(e) == len(g), 'pair', f"{tag}: {len(g)} capacitors {g} between {key}, should be {e}"):
            return
        if not c.expect(all(kvcore.close(x, y, 1e-9, 1e-13 * scale) for x, y in zip(e, g)), 'value', f"{tag}: {key}: {g} instead of {e}"):
            return
        if e:
            c.saw([key, ['%.9g' % x for x in e]])
    # --- the ground shorts
    if any(d.net_for_terminal(x) is None for d in shorts for x in 'AB'):
        c.violate('unconnected', f"{tag}: a ground resistor is not connected")
        return
    sh = sorted(tuple(sorted((d.net_for_terminal('A').expanded_name(), d.net_for_terminal('B').expanded_name()))) for d in shorts)
    c.expect(sh == [('FC_GND', 'GND'), ('GND', 'VSUBS')] and all(d.parameter('R') == 0 for d in shorts), 'ground', f"{tag}: ground resistors {sh}")
    # the capacitors named VSUBS are on the netlist's own substrate net
    if had_vsubs:
        c.count('own substrate net')
    # --- Maxwell matrix of the result, grounded nets merged
    ground = {'VSUBS', 'GND', 'FC_GND'}
    idx = [x for x in cond if x not in ground]
    pos = {x: i for i, x in enumerate(idx)}
    acc = [[0.0] * len(idx) for _ in idx]
    for d in caps:
        a, b = d.net_for_terminal('A').expanded_name(), d.net_for_terminal('B').expanded_name()
        v = d.parameter('C')
        for x, y in ((a, b), (b, a)):
            if x in pos:
                acc[pos[x]][pos[x]] += v
                if y in pos:
                    acc[pos[x]][pos[y]] -= v
    clean = all(m[i][j] <= 0 for i in range(n) for j in range(n) if i != j)
    if clean:
        for x in idx:
            for y in idx:
                c.count('Maxwell entries compared')
                w = m[cond.index(x)][cond.index(y)]
                if not c.expect(kvcore.close(acc[pos[x]][pos[y]], w, 1e-9, 1e-12 * scale), 'maxwell',
                                f"{tag}: Maxwell entry ({x},{y}) of the netlist is {acc[pos[x]][pos[y]]}, matrix says {w}"):
                    return
    # --- CSV: the same capacitors
    p = os.path.join(c.dir, 'n.csv')
    NetlistCSVWriter.write_csv(netlist=out, top_cell_name='TOP', output_path=p)
    rows = [ln.split(';') for ln in open(p, encoding='utf-8').read().split('\n')[1:] if ln]
    want = sorted([d.expanded_name(), d.net_for_terminal('A').expanded_name(), d.net_for_terminal('B').expanded_name()] for d in caps)
    c.count('csv rows compared', len(rows))
    if c.expect(sorted(r[:3] for r in rows) == want, 'csv', f"{tag}: CSV rows {sorted(r[:3] for r in rows)[:4]} instead of {want[:4]}"):
        val = {d.expanded_name(): d.parameter('C') * 1e15 for d in caps}
        for r in rows:
            c.expect(abs(float(r[3]) - val[r[0]]) <= 0.0050001, 'csv-value', f"{tag}: CSV states {r} for {val[r[0]]} fF")
    # --- a conductor that no net has is refused
    if c.idx % 5 == 0:
        bad = CapacitanceMatrix(conductor_names=names[:-1] + ['g1_no such net'] if n > 1 else ['g1_no such net'], rows=[[*r] for r in m])
        try:
            NetlistExpander.expand(extracted_netlist=nl, top_cell_name='TOP', cap_matrix=bad, blackbox_devices=black)
            c.violate('unknown-conductor', f"{tag}: a conductor without a net was accepted")
        except Exception as e:
            c.count('unknown conductor refused')
            c.expect(not isinstance(e, (AttributeError, IndexError)), 'unknown-crash', repr(e))
    c.sample = dict(conductors=names[:5], first_row=m[0][:4], capacitors=len(caps), devices=len(rest))
    logging.disable(logging.NOTSET)


def main():
    ck = kvcore.Check('C11', 'random netlists (devices of nine classes, unnamed nets, with or without VSUBS and GND) and random Maxwell '
                      'matrices over their nets in both solvers\' naming; an evaluation is a conductor pair whose capacitors are compared; '
                      'distinct by pair and value',
                      required=['pairs compared', 'Maxwell entries compared', 'devices compared', 'own substrate net', 'csv rows compared',
                                'unknown conductor refused'],
                      assumptions=['the substrate VSUBS is the first conductor, as in every input file kpex writes', 'matrices are symmetric (the '
                                   'flow averages them first)', 'nets have distinct names'])
    ck.run(case, 10000, 100000)
    ck.finish()
