"""C05: summary, CSV, SPICE and report of one 2.5D run tell the same story; the original circuit is kept."""
import os, re, collections, gzip, random
import klayout.db as kdb
import klayout.rdb as rdb
import kvcore, kvcap, kvflow, kvlvs, kvsynth

NAMES = ['VDD', 'VSS', 'VSUBS', 'a', 'A', 'zz', 'in[0]', 'in[1]', 'x<3>', 'q_bar', 'N!', 'clk.2', 'OUT+', 'OUT-', 'vref#1',
         '7up', 'top/inst/n1', 'net_with_a_rather_long_name_that_goes_on_and_on_and_on_for_a_while', 'M0', 'Z9', 'Aa', 'aA',
         'FC', 'q,r', 'n 1', '(p)', 'sky130_gnd', 'B', 'b']


def unmangle(s):
    """KLayout's SPICE writer escapes what SPICE cannot say"""
    s = re.sub(r'((?:\\?\\x[0-9a-f]{2})+)',
               lambda m: bytes(int(h, 16) for h in re.findall(r'x([0-9a-f]{2})', m.group(1))).decode('utf-8', 'replace'),
               s.replace('|', ','))
    return re.sub(r'\\+\$', '$', s)


def read_spice(path, top):
    """(pins, {device name: (nets, value/model words)}) of the top circuit"""
    lines = []
    for l in open(path, encoding='utf-8'):
        l = l.rstrip('\n')
        if l.startswith('+'):
            lines[-1] += ' ' + l[1:]
        else:
            lines.append(l)
    pins, devs, cur, extra = None, [], None, []
    for l in lines:
        w = l.split()
        if not w or w[0].startswith('*'):
            continue
        k = w[0].upper()
        if k == '.SUBCKT':
            cur = unmangle(w[1])
            if cur == top:
                if pins is not None:
                    extra.append('second .SUBCKT')
                pins = [unmangle(x) for x in w[2:]]
        elif k == '.ENDS':
            cur = None
        elif cur == top:
            devs.append(w)
        else:
            extra.append(l)
    return pins, devs, extra


def parse_devices(devs):
    """C/R of the extraction as (kind, name, net, net, value); everything else as whole lines"""
    ext, rest = [], []
    for w in devs:
        if re.match(r'[CR]ext_\d+$', w[0]) and len(w) == 5:
            ext.append((w[0][0], w[0], unmangle(w[1]), unmangle(w[2]), float(w[3]), w[4]))
        else:
            rest.append(' '.join([w[0]] + [unmangle(x) for x in w[1:]]))
    return ext, rest


def original(p, dirname, top, drop_caps):
    """pins and device lines of the flattened LVS netlist, written by KLayout without the code under test"""
    l = kdb.LayoutVsSchematic()
    l.read(p)
    nl = l.netlist()
    nl.flatten()
    ci = nl.circuit_by_name(top)
    ncap = 0
    if drop_caps:
        for d in [d for d in ci.each_device() if isinstance(d.device_class(), kdb.DeviceClassCapacitor)]:
            ci.remove_device(d)
            ncap += 1
    else:
        ncap = sum(isinstance(d.device_class(), kdb.DeviceClassCapacitor) for d in ci.each_device())
    w = kdb.NetlistSpiceWriter()
    w.use_net_names, w.with_comments = True, False
    f = os.path.join(dirname, 'orig.spice')
    nl.write(f, w)
    pins, devs, extra = read_spice(f, top)
    return pins, sorted(' '.join([w[0]] + [unmangle(x) for x in w[1:]]) for w in devs), ncap, \
        {n.expanded_name() for n in ci.each_net()}


def layout(c):
    rng = c.rng
    pdk = rng.choice(['sky130A', 'sky130A', 'ihp_sg13g2'])
    if rng.random() < 0.4:
        L = kvcap.dense(rng, pdk)
    else:
        L = kvsynth.random_layout(rng, pdk, nmax=rng.choice([3, 6, 12]), size=rng.choice([3000, 8000]), min_gap=60)
    L.names.clear(); L.labels.clear()
    L.dbu = rng.choice([0.001] * 5 + [0.0005, 0.002, 0.005])
    far = 40000
    nmos = 0
    if rng.random() < 0.5:
        for row in range(rng.randint(1, 2)):
            nmos += L.add_mos(rng, far, 6000 * row)
    ncap = 0
    if pdk == 'sky130A' and rng.random() < 0.3:
        for k in range(rng.randint(1, 4)):
            L.add_mim(rng, -20000, -20000 + 8000 * k)
            ncap += 1
    zoo = []
    if rng.random() < 0.3:
        zoo = [rng.choice(sorted(kvlvs.ZOO)) for _ in range(rng.randint(1, 4))]
        for k, cls in enumerate(zoo):
            L.add_zoo(rng, cls, 20000 + 8000 * k, -30000)
    pool = rng.sample(NAMES, len(NAMES))
    share = rng.choice([0.5, 0.8, 1.0])
    L.assign_names(lambda k: (pool[k] if k < len(pool) else f"n{k}") if rng.random() < share else None)
    pins = rng.random() < 0.6
    if pins:
        for m, p, t in L.labels:
            if rng.random() < 0.8:
                L.pins.append((m, (p[0] - 30, p[1] - 30, p[0] + 30, p[1] + 30)))
    return pdk, L, nmos, ncap, pins, sorted(set(zoo))


def num(x):
    return float(x)


def case(c):
    rng = c.rng
    pdk, L, nmos, ncap, pins, zoo = layout(c)
    mode = rng.choice(['CC', 'CC', 'RC', 'RC', 'R'])
    black = rng.choice([None, True, False])
    top = rng.choice(['TOP', 'TOP', 'my_cell', 'Cell$1'])
    ly = L.to_kdb(top=top, pins=pins, hier=random.Random(rng.random()) if rng.random() < 0.3 else None)
    lvs = kvlvs.extract(ly, top, pdk, devices=nmos > 0, capdev=ncap > 0, zoo=zoo)
    for k in zoo:
        c.count('devices of kind ' + k)
    if rng.random() < 0.3:
        # devices keep names and the netlist may be simplified by the deck
        lvs.netlist().combine_devices()
    if rng.random() < 0.5:
        lvs.netlist().flatten()       # as the decks' align does with cells the schematic does not have
    p = os.path.join(c.dir, 'in.lvsdb.gz')
    lvs.write(p)
    chk = kdb.LayoutVsSchematic()
    chk.read(p)
    chk.netlist().flatten()
    ci = chk.netlist().circuit_by_name(top)
    nn = [n.expanded_name() for n in ci.each_net()] if ci else []
    if not nn:
        c.count('cases skipped: KLayout drops cells without a connection')
        return
    if len(set(nn)) != len(nn):
        c.count('cases skipped: KLayout gave two nets one name')
        return
    r, res = kvflow.extract25_file(p, pdk, c.dir, mode=mode, blackbox=black, log=rng.choice(['error', 'warning']))
    if res is None:
        c.violate('crash' if r.exc is None else kvcore.crash_key(r.exc),
                  f"{mode} extraction of a valid layout failed: {r.exc!r}\n{r.out[-800:]}")
        return
    out = [os.path.join(b, f) for b, _, fs in os.walk(os.path.join(c.dir, 'out')) for f in fs]
    def one(suffix):
        fs = [f for f in out if f.endswith(suffix)]
        c.expect(len(fs) == 1, 'missing-output', f"{len(fs)} files {suffix} among {sorted(map(os.path.basename, out))}")
        return fs[0] if fs else None
    csvp, spp, rdbp = one('_k25d_pex_netlist.csv'), one('_k25d_pex_netlist.spice'), one('_k25d_pex_report.rdb.gz')
    if c.violations:
        return
    # -- own sums over the raw contributions
    caps, raws = {}, {}
    for table, nets in ((res.overlap_table, lambda k: (k.net_top, k.net_bot)), (res.sidewall_table, lambda k: (k.net1, k.net2)),
                        (res.sideoverlap_table, lambda k: (k.net_inside, k.net_outside))):
        for k, es in table.items():
            pr = tuple(sorted(nets(k)))
            for e in es:
                caps.setdefault(pr, []).append(e.cap_value)
    caps = {k: sum(v) for k, v in caps.items()}
    for net in res.r_extraction_result.networks:
        nm = {n.node_id: n.net_name for n in net.nodes}
        for e in net.elements:
            pr = tuple(sorted((nm[e.node_a.node_id], nm[e.node_b.node_id])))
            raws.setdefault(pr, []).append(e.resistance)
    ress = {k: 0.0 if min(v) == 0 else 1.0 / sum(1.0 / x for x in v) for k, v in raws.items()}
    if mode == 'R':
        c.expect(not caps, 'caps-in-R-mode', f"{len(caps)} capacitances in R mode")
    if mode == 'CC':
        c.expect(not ress, 'resistances-in-C-mode', f"{len(ress)} resistances in CC mode")
    # -- CSV
    rows = kvflow.read_csv(csvp)
    got = collections.Counter()
    for dev, a, b, cap, ohm in rows:
        pr = tuple(sorted((a, b)))
        kind = 'C' if cap is not None else 'R'
        got[(kind, pr)] += 1
        want = (caps if kind == 'C' else ress).get(pr)
        c.count('CSV rows compared')
        if want is None:
            c.violate('csv-extra', f"CSV has {kind} {pr} that was not extracted")
            return
        if abs((cap if kind == 'C' else ohm) - want) > 0.00051:
            c.violate('csv-value', f"CSV says {kind} {pr} = {cap if kind == 'C' else ohm}, extracted {want!r}")
            return
        if not dev.startswith(kind):
            c.violate('csv-device', f"CSV row {dev} is a {kind}")
    names = [x[0] for x in rows]
    c.expect(len(set(names)) == len(names), 'csv-device', 'two CSV rows have one device name')
    for kind, t in (('C', caps), ('R', ress)):
        for pr in t:
            if got[(kind, pr)] != 1:
                c.violate('csv-missing', f"{kind} {pr} = {t[pr]!r} has {got[(kind, pr)]} rows in the CSV")
                return
    # -- SPICE
    spins, devs, extra = read_spice(spp, top)
    ext, rest = parse_devices(devs)
    if spins is None or extra:
        c.violate('spice-circuit', f"SPICE top circuit {top}: pins {spins}, further lines {extra[:3]}")
        return
    seen = collections.Counter()
    for kind, name, a, b, val, model in ext:
        pr = tuple(sorted((a, b)))
        seen[(kind, pr)] += 1
        want = (caps if kind == 'C' else ress).get(pr)
        c.count('SPICE devices compared')
        if want is None:
            c.violate('spice-extra', f"SPICE has {kind} between {pr} that was not extracted")
            return
        w = want * 1e-15 if kind == 'C' else want
        if not kvcore.close(val, w, 1e-9, 1e-30 if kind == 'C' else 1e-12):
            c.violate('spice-value', f"SPICE {name} {pr} = {val!r}, extracted {want!r} {'fF' if kind == 'C' else 'ohm'}")
            return
        if a == b:
            c.violate('shorted-' + ('capacitor' if kind == 'C' else 'resistor'), f"{name} connects net {a} with itself")
        c.saw([kind, pr, '%.6g' % want])
    for kind, t in (('C', caps), ('R', ress)):
        for pr in t:
            if seen[(kind, pr)] != 1:
                c.violate('spice-missing', f"{kind} {pr} = {t[pr]!r} occurs {seen[(kind, pr)]} times in the SPICE netlist")
                return
    # -- the circuit that was there before
    drop = not black      # --blackbox is off by default
    opins, odevs, nc, onets = original(p, c.dir, top, drop)
    c.count('original devices compared', len(odevs))
    if nc:
        c.count('MIM devices removed' if drop else 'MIM devices kept', nc)
    if spins != opins:
        c.violate('pins', f"pins {opins} became {spins}")
    if sorted(rest) != odevs:
        miss = list((collections.Counter(odevs) - collections.Counter(rest)).elements())
        more = list((collections.Counter(rest) - collections.Counter(odevs)).elements())
        c.violate('original-devices', f"blackbox {black}: original devices missing {miss[:3]}, unexpected {more[:3]}")
    # -- names: every net of the couplings is a net of the circuit, VSUBS, or an internal node of R extraction
    for pr in caps:
        for n in pr:
            if n not in onets and n != 'VSUBS':
                c.violate('unknown-net', f"capacitance at net {n!r}, which the circuit does not have")
    # -- report
    rp = rdb.ReportDatabase('')
    rp.load(rdbp)
    tree = {}
    for cat in rp.each_category():
        tree[cat.name()] = cat
    def subs(cat):
        return list(cat.each_sub_category()) if cat is not None else []
    def fF(s):
        return float(re.search(r'(-?[0-9.e+-]+) fF$', s).group(1))
    rep = collections.Counter()
    for a in subs(tree.get('[C] Overlap')):
        for b in subs(a):
            for n in subs(b):
                for e in subs(n):
                    rep[('overlap', a.name().split('=', 1)[1], b.name().split('=', 1)[1], n.name(), fF(e.name()))] += 1
                    c.expect(all(x.num_items() > 0 for x in subs(e)) and len(subs(e)) == 3, 'report-shapes',
                             f"overlap {n.name()} {e.name()} has no shapes")
    for a in subs(tree.get('[C] Sidewall')):
        for b in subs(a):
            for n in subs(b):
                for e in subs(n):
                    rep[('sidewall', a.name().split('=', 1)[1], b.name().split('=', 1)[1], n.name().split('=', 1)[1], fF(e.name()))] += 1
                    c.expect(e.num_items() == 2, 'report-shapes', f"sidewall {e.name()} shows {e.num_items()} edges")
    for a in subs(tree.get('[C] Fringe / Side Overlap')):
        for b in subs(a):
            for d in subs(b):
                for n in subs(d):
                    for e in subs(n):
                        rep[('fringe', a.name().split('=', 1)[1], b.name().split('=', 1)[1], d.name().split('=', 1)[1],
                             n.name().split('=', 1)[1], fF(e.name()))] += 1
    want = collections.Counter()
    for k, es in res.overlap_table.items():
        for e in es:
            want[('overlap', k.layer_top, k.layer_bot, f"{k.net_top} – {k.net_bot}", round(e.cap_value, 3))] += 1
    for k, es in res.sidewall_table.items():
        for e in es:
            want[('sidewall', k.layer, k.net1, k.net2, round(e.cap_value, 3))] += 1
    for k, es in res.sideoverlap_table.items():
        for e in es:
            want[('fringe', k.layer_inside, k.net_inside, k.layer_outside, k.net_outside, round(e.cap_value, 3))] += 1
    c.count('report entries compared', sum(want.values()))
    if rep != want:
        c.violate('report', f"report lacks {list((want - rep).elements())[:3]}, has in addition {list((rep - want).elements())[:3]}")
    nrep = collections.Counter()
    for a in subs(tree.get('[R] Extraction Result')):
        if a.name() == 'Networks':
            for n in subs(a):
                for s in subs(n):
                    nrep[(n.name()[4:], s.name())] += len(subs(s))
    nwant = collections.Counter()
    for net in res.r_extraction_result.networks:
        nwant[(net.net_name, 'Elements')] += len(net.elements)
        nwant[(net.net_name, 'Nodes')] += len(net.nodes)
    nrep, nwant = +nrep, +nwant
    if nrep != nwant:
        c.violate('report-networks', f"networks in the report: {dict(nrep - nwant)} more, {dict(nwant - nrep)} less")
    c.count('report resistors compared', sum(v for k, v in nwant.items() if k[1] == 'Elements'))
    c.count(f"runs in {mode} mode")
    if nmos:
        c.count('runs with transistors')
    if rng.random() < 0.05:
        c.sample = dict(pdk=pdk, mode=mode, blackbox=black, rows=[list(map(str, x)) for x in rows[:4]])


def main():
    ck = kvcore.Check('C05', 'random layouts with and without transistors, MIM capacitors, pins, unnamed and oddly named nets '
                      'through kpex --2.5D in CC, RC and R mode; an evaluation is one extracted element followed through '
                      'raw tables, CSV and SPICE; distinct by net pair and value',
                      required=['CSV rows compared', 'SPICE devices compared', 'original devices compared', 'MIM devices removed',
                                'MIM devices kept', 'report entries compared', 'report resistors compared', 'runs with transistors',
                                'runs in CC mode', 'runs in RC mode', 'runs in R mode'])
    ck.run(case, 1500, 8000)
    ck.finish()
