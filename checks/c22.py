"""C22: preparing the LVS database conserves geometry per net and layer."""
import json, logging, os
import klayout.db as kdb
import kvcore, kvflow, kvlvs, kvsynth

DEVICE_KINDS = ('KIND_DEVICE_RESISTOR', 'KIND_DEVICE_CAPACITOR')
_tech = {}


def tech(pdk, path=None):
    """{LVS name: (gds pair, kind, canonical name)}, {canonical name: (pin pair, label pair)} straight from the JSON file"""
    if path or pdk not in _tech:
        j = json.load(open(path or kvflow.tech_json(pdk)))
        pair = lambda g: (g.get('layer', 0), g.get('datatype', 0)) if g else None
        comp = {l['layer_info']['name']: (pair(l['layer_info']['drw_gds_pair']), l['kind'], l.get('original_layer_name'))
                for l in j['lvs_computed_layers']}
        lay = {l['name']: (pair(l.get('drw_gds_pair')), pair(l.get('pin_gds_pair')), pair(l.get('label_gds_pair'))) for l in j['layers']}
        _tech[pdk] = comp, lay
    return _tech[pdk]


def expected(path):
    """{LVS layer name: {net name: merged region}} from a separate reading of the database with KLayout's own queries"""
    lvs = kdb.LayoutVsSchematic()
    lvs.read(path)
    lvs.netlist().flatten()
    if len(lvs.internal_layout().top_cells()) != 1:
        return None, None
    top = lvs.internal_layout().top_cell().name
    ck = lvs.netlist().circuit_by_name(top)
    out = {}
    texts = {}
    for li in lvs.layer_indexes():
        name = lvs.layer_name(li)
        reg = lvs.layer_by_index(li)
        for net in (ck.each_net() if ck else ()):
            if isinstance(reg, kdb.Texts):
                continue
            r = lvs.shapes_of_net(net, reg, True)
            if r is not None and not r.is_empty():
                n = net.expanded_name()
                out.setdefault(name, {}).setdefault(n, kdb.Region())
                out[name][n] += r
    for d in out.values():
        for r in d.values():
            r.merge()
    return out, lvs


def by_net(region):
    """{net property: merged region} of shapes with properties"""
    out = {}
    it, tr = region.begin_shapes_rec()
    while not it.at_end():
        s = it.shape()
        if s.is_text():
            it.next()
            continue
        out.setdefault(s.property('net'), kdb.Region()).insert(tr * it.trans() * s.polygon)
        it.next()
    for r in out.values():
        r.merge()
    return out


def same(a, b):
    return (a ^ b).is_empty()


def layout(c):
    rng = c.rng
    pdk = rng.choice(['sky130A', 'sky130A', 'ihp_sg13g2'])
    L = kvsynth.random_layout(rng, pdk, nmax=rng.choice([3, 6, 12]), size=rng.choice([3000, 9000]), min_gap=60,
                              namer=lambda k: f"N{k}" if rng.random() < 0.75 else None)
    mim = mos = False
    if pdk == 'sky130A' and rng.random() < 0.35:
        L.add_mim(rng, 30000, 0)
        if rng.random() < 0.4:
            L.add_mim(rng, 50000, 0)
        mim = True
    if rng.random() < 0.35:
        mos = rng.choice([True, True, 'floating bulk'])
        L.add_mos(rng, -30000, 0, diode=rng.random() < 0.4)
    for m, p, t in list(L.labels):
        if rng.random() < 0.6:
            # the label in the middle, on a border or on a corner of its pin
            dx, dy = rng.choice([(0, 0)] * 4 + [(40, 0), (-40, 0), (0, 40), (40, 40), (-40, 40), (-40, -40)])
            L.pins.append((m, (p[0] + dx - 40, p[1] + dy - 40, p[0] + dx + 40, p[1] + dy + 40)))
    if rng.random() < 0.35:
        # an L-shaped pin around the conductor, label and maybe pin of another net
        m = rng.randrange(len(kvlvs.metals(pdk)))
        x, y, t = -90000 - rng.randrange(0, 3000, 5), rng.randrange(0, 3000, 5), rng.choice([100, 240])
        s = 2 * t + rng.randrange(600, 2000, 5)
        a, b = L.new_obj(), L.new_obj()
        L.shapes += [(m, (x, y, x + s, y + t), a), (m, (x, y, x + t, y + s), a)]
        i = (x + t + 100, y + t + 100, x + s, y + s)
        L.shapes.append((m, i, b))
        for o, n in ((a, 'outer'), (b, 'inner')):
            L.names[o] = n
        el = [(x, y), (x + s, y), (x + s, y + t), (x + t, y + t), (x + t, y + s), (x, y + s)]
        el = el if rng.random() < 0.5 else [(2 * x + s - px, py) for px, py in el]
        if el[0][0] != x:                # mirrored: so are the conductors
            L.shapes[-3:] = [(m, (2 * x + s - r[2], r[1], 2 * x + s - r[0], r[3]), o) for m, r, o in L.shapes[-3:]]
            i = L.shapes[-1][1]
        L.pins.append((m, el))
        if rng.random() < 0.7:
            L.labels.append((m, (rng.choice([el[0], el[1], ((el[0][0] + el[3][0]) // 2, y + t // 2)])), 'outer'))
        L.labels.append((m, ((i[0] + i[2]) // 2, (i[1] + i[3]) // 2), 'inner'))
        if rng.random() < 0.5:
            L.pins.append((m, i))
    odd = rng.random() < 0.35
    if rng.random() < 0.1:               # nothing but specks: one layer holds a speck only
        m = rng.randrange(len(kvlvs.metals(pdk)))
        if not any(q[0] == m for q in L.shapes) and not any(v in (m, m - 1) for v, _, _ in L.vias):
            w, h = rng.choice([(5, 5), (1, 1), (2, 40), (10, 5)])
            o = L.new_obj()
            L.shapes.append((m, (70000, 0, 70000 + w, h), o))
            L.names[o] = 'speck'
            L.labels.append((m, (70000, 0), 'speck'))
            L.specks = True
    if odd:
        for k, g in enumerate([(250, 7), (46, 0), (46, 1), (46, 0), (46, 1), (251, 3), (252, 9), (253, 0), (0, 5), (254, 254)]):
            if rng.random() < 0.7 and (g[0] != 46 or pdk == 'ihp_sg13g2'):
                y = -9000 - 1500 * k
                L.extra.append((None, g, (0, y, 2000, y + 900), L.new_obj()))
                if rng.random() < 0.7:
                    L.shapes.append((1, (1500, y + 100, 3000, y + 300), L.new_obj()))
    L.dbu = rng.choice([0.001] * 4 + [0.005, 0.0005])
    return pdk, L, mim, mos, odd


def case(c):
    from klayout_pex.klayout.lvsdb_extractor import KLayoutExtractionContext
    from klayout_pex.tech_info import TechInfo
    logging.disable(logging.CRITICAL)
    rng = c.rng
    pdk, L, mim, mos, odd = layout(c)
    hier = rng.random() < 0.5
    top = rng.choice(['TOP', 'top_cell', 'A$1'])
    ly = L.to_kdb(top=top, pins=True, hier=rng if hier else None, split=rng if rng.random() < 0.3 else None,
                  shuffle=rng if rng.random() < 0.5 else None, top_last=hier and rng.random() < 0.5,
                  sublabels=rng if rng.random() < 0.4 else None)
    lvs = kvlvs.extract(ly, top, pdk, devices=mos, capdev=mim, odd=odd)
    path = os.path.join(c.dir, 'in.lvsdb' + rng.choice(['', '.gz']))
    lvs.write(path)
    tj = kvflow.tech_json(pdk)
    if odd and rng.random() < 0.5:
        # a technology that knows the odd layers: all of them make up one conductor, or they belong to one there is
        j = json.load(open(tj))
        own = rng.random() < 0.5
        if own:
            j['layers'].append(dict(name='odd', purpose='PURPOSE_METAL', drw_gds_pair=dict(layer=777, datatype=1)))
        like = rng.choice([l for l in j['lvs_computed_layers'] if l['kind'] == 'KIND_REGULAR' and l.get('original_layer_name') in {x['name'] for x in j['layers']}
                           and l['layer_info']['name'] not in {m[0] for m in kvlvs.metals(pdk)}])
        for n in rng.sample(['odd_con', 'odder_con', 'oddest_con'], rng.choice([1, 2, 3, 3, 3])):
            e = json.loads(json.dumps(like))
            e['layer_info']['name'] = n
            if own:
                e['original_layer_name'], e['layer_info']['drw_gds_pair'] = 'odd', dict(layer=777, datatype=1)
            j['lvs_computed_layers'].append(e)
        tj = os.path.join(c.dir, 'tech.json')
        json.dump(j, open(tj, 'w'))
        c.count('technologies that know the odd layers')
    if rng.random() < 0.15:
        # a technology in which any layer may be the body of a resistor or capacitor
        j = json.load(open(tj))
        for l in rng.sample([l for l in j['lvs_computed_layers'] if l['kind'] == 'KIND_REGULAR'], rng.randint(1, 6)):
            l['kind'] = rng.choice(DEVICE_KINDS)
        tj = os.path.join(c.dir, 'tech.json')
        json.dump(j, open(tj, 'w'))
        c.count('technologies with other device layers')
    comp, lay = tech(tj, tj)
    want, ref = expected(path)
    if want is None:                     # KLayout dropped the top cell: nothing in it was connected
        c.count('databases without a circuit')
        return
    black = rng.random() < 0.5
    db = kdb.LayoutVsSchematic()
    db.read(path)
    t = TechInfo.from_json(tj, dielectric_filter=None)
    ctx = KLayoutExtractionContext.prepare_extraction(lvsdb=db, top_cell=top, tech=t, blackbox_devices=black)
    what = f"{pdk} blackbox={black} hier={hier} mos={mos} mim={mim}"

    # per pair: all source layers that are not blackboxed
    pairs, dropped = {}, set()
    for name, nets in want.items():
        if name not in comp:
            c.count('layers unknown to the technology')
            continue
        pair, kind, canon = comp[name]
        if black and kind in DEVICE_KINDS:
            dropped.add(name)
            continue
        if kind == 'KIND_LABEL':
            continue
        for n, r in nets.items():
            pairs.setdefault(pair, {}).setdefault(n, kdb.Region())
            pairs[pair][n] += r
    for pair, nets in pairs.items():
        for r in nets.values():
            r.merge()
        names = [n for n in want if n in comp and comp[n][0] == pair]
        whole = ctx.shapes_of_layer(pair)
        if whole is None:
            c.violate('layer-lost', f"{what}: layer {names} {pair} has shapes of {sorted(nets)}, but none are extracted")
            return
        got = by_net(whole)
        c.count('layers compared')
        if set(got) != set(nets) or any(not same(got[n], nets[n]) for n in nets):
            bad = sorted(str(n) for n in set(got) | set(nets) if n not in got or n not in nets or not same(got[n], nets[n]))
            c.violate('layer-differs', f"{what}: shapes of layer {names} {pair} differ for nets {bad}: "
                      f"{[(str(got.get(b)), str(nets.get(b))) for b in bad][:2]}"[:900])
            return
        for n, r in nets.items():
            q = ctx.shapes_of_net(pair, n)
            c.count('net shapes compared')
            if q is None or not same(q.merged(), r):
                c.violate('net-differs', f"{what}: shapes of net {n} on {names} {pair}: {q} instead of {r}"[:900])
                return
            c.saw([pdk, pair, n, black, str(r)])
        c.expect(not ctx.shapes_of_net(pair, 'no such net') or ctx.shapes_of_net(pair, 'no such net').is_empty(),
                 'net-differs', f"{what}: a net that does not exist has shapes")
    extra = [p for p in ctx.extracted_layers if p not in pairs and
             any(not sl.region.is_empty() and sl.region.area() > 0 for sl in ctx.extracted_layers[p].source_layers)]
    c.expect(not extra, 'layer-invented', f"{what}: extracted layers {extra} without shapes in the database (dropped {sorted(dropped)})")
    if black:
        for n in dropped:
            c.count('device layers blackboxed')
            c.expect(comp[n][0] in pairs or comp[n][0] not in ctx.extracted_layers, 'blackbox-kept',
                     f"{what}: layer {n} of a blackboxed device is still there")
    c.count('layers shared by two of the database', sum(len([n for n in want if n in comp and comp[n][0] == pair]) > 1 for pair in pairs))
    c.count('layers shared by three of the database', sum(len([n for n in want if n in comp and comp[n][0] == pair]) > 2 for pair in pairs))
    if rng.random() < 0.7:
        unnamed = {l.lvs_layer_name: l.region for l in ctx.unnamed_layers}
        for n, r in unnamed.items():
            c.expect(n in want and n not in comp, 'unnamed', f"{what}: layer {n} listed as unknown to the technology")

    # what was drawn: the same, seen from the generator
    if not L.probe_names(path):
        c.count('layouts with other connectivity')
    else:
        canon = {}
        for pair, nets in pairs.items():
            for name in want:
                if name in comp and comp[name][0] == pair and comp[name][1] == 'KIND_REGULAR':
                    canon.setdefault(comp[name][2], pair)
        for m, rects in drawn(L).items():
            name = kvlvs.metals(pdk)[m][0]
            pair = comp[name][0]
            if name in dropped:
                continue
            for net, rs in rects.items():
                r = kdb.Region()
                for x in rs:
                    r.insert(kdb.Box(*x))
                q = ctx.shapes_of_net(pair, net)
                c.count('drawn conductors compared')
                if q is None or not same(q, r):
                    c.violate('drawing-differs', f"{what}: {name} of net {net} drawn as {rs}, extracted as {q}"[:900])
                    return

    if ref.netlist().circuit_by_name(ref.internal_layout().top_cell().name) is None:
        c.count('databases without a circuit')
        return

    # labels and pins of every conductor layer; what the database holds is expected (KLayout drops what is not connected upwards)
    by_pair = {}
    for li in ref.layer_indexes():
        name = ref.layer_name(li)
        if name in comp:
            by_pair.setdefault(comp[name][0], []).append(li)
    circuit = ref.netlist().circuit_by_name(ref.internal_layout().top_cell().name)
    rec = {}
    for m, (name, g, pn, pg, ln, lg, cn) in enumerate(kvlvs.metals(pdk)):
        gp, pinp, labp = lay[cn]
        exp = texts_of(ref, circuit, by_pair.get(labp, []))
        got = sorted((x.string, x.x, x.y) for x in ctx.labels_of_layer(gp).each())
        c.count('labels looked up', len(exp))
        c.expect(set(got) == exp, 'labels', f"{what}: labels of {cn}: {got}, in the database: {sorted(exp)}")
        nets = pairs.get(pinp, {})
        c.count('pins looked up', len(nets))
        pins = by_net(ctx.pins_of_layer(gp))
        c.expect(set(pins) == set(nets) and all(same(pins[n], nets[n]) for n in nets), 'pins',
                 f"{what}: pins of {cn}: { {str(k): str(v) for k, v in pins.items()} }, in the database: { {str(k): str(v) for k, v in nets.items()} }")
        if gp not in pairs and not any(canon == cn and pr in pairs for pr, kind, canon in comp.values()):
            continue                      # nothing on the conductor itself
        for t_, x, y in exp:
            owners = {n for n, r in nets.items() if any(p.inside(kdb.Point(x, y)) for p in r.each())}
            if owners:
                rec[(t_, x, y, cn)] = owners
    got = {}
    for ps in ctx.pins_pb2_by_layer.values():
        for p in ps:
            got.setdefault((p.label, p.label_point.x, p.label_point.y, p.layer.canonical_layer_name), set()).add(p.net_name)
            c.expect(p.label_point.net == p.net_name, 'pin-records', f"{what}: pin {p.label} of net {p.net_name} has label point of {p.label_point.net}")
    c.count('pin records compared', len(rec))
    c.expect(set(got) == set(rec) and all(len(v) == 1 and v <= rec[k] for k, v in got.items()), 'pin-records',
             f"{what}: pin records {sorted((k, sorted(v)) for k, v in got.items())}, expected {sorted((k, sorted(v)) for k, v in rec.items())}")

    # devices: every terminal with its net and its shapes
    devs = ctx.devices_by_name
    c.expect(len(devs) == len(list(circuit.each_device())), 'devices', f"{what}: {len(devs)} devices of {len(list(circuit.each_device()))}")
    for d in circuit.each_device():
        p = devs.get(d.expanded_name())
        if p is None:
            c.violate('devices', f"{what}: device {d.expanded_name()} is missing")
            continue
        c.count('devices compared')
        c.expect((p.device_class_name, {(x.name, x.value) for x in p.parameters}) ==
                 (d.device_class().name, {(q.name, d.parameter(q.id())) for q in d.device_class().parameter_definitions()}),
                 'device-parameters', f"{what}: device {p.device_name} differs")
        c.count('terminals without a net', sum(d.net_for_terminal(q.id()) is None for q in d.device_class().terminal_definitions()))
        tn = {x.name: x.net_name for x in p.terminals}
        en = {q.name: (d.net_for_terminal(q.id()).expanded_name() if d.net_for_terminal(q.id()) else '') for q in d.device_class().terminal_definitions()}
        c.expect(tn == en and len(p.terminals) == len(en), 'device-terminals', f"{what}: terminals of {p.device_name}: {tn}, not {en}")
        for q in d.device_class().terminal_definitions():
            net = d.net_for_terminal(q.id())
            ts = [x for x in p.terminals if x.name == q.name]
            if net is None or len(ts) != 1:
                continue
            exp = {}
            for nt in net.each_terminal():
                if nt.device().id() == d.id() and nt.terminal_id() == q.id():
                    for li, r in ref.shapes_of_terminal(nt).items():
                        nm = ref.layer_name(li)
                        if nm in comp and not (black and comp[nm][1] in DEVICE_KINDS) and not r.is_empty():
                            exp.setdefault(comp[nm][2], kdb.Region())
                            exp[comp[nm][2]] += r
            gotr = {}
            for rl in ts[0].region_by_layer:
                r = gotr.setdefault(rl.layer.canonical_layer_name, kdb.Region())
                for g in rl.region.polygons:
                    r.insert(kdb.Polygon([kdb.Point(v.x, v.y) for v in g.hull_points]))
            gotr = {k: r for k, r in gotr.items() if not r.is_empty()}
            c.count('terminal shapes compared')
            c.count('terminals that share their net with another of the device', sum(nt.device().id() == d.id() for nt in net.each_terminal()) > 1)
            c.expect(set(gotr) == set(exp) and all(same(gotr[k], exp[k]) for k in exp), 'terminal-shapes',
                     f"{what}: shapes of terminal {q.name} of {p.device_name}: { {k: str(v) for k, v in gotr.items()} }, "
                     f"in the database: { {k: str(v) for k, v in exp.items()} }"[:900])


def texts_of(ref, circuit, indexes):
    """{(text, x, y)} on some layers of a database"""
    out = set()
    top = ref.internal_layout().top_cell()
    for li in indexes:
        it = top.begin_shapes_rec(li)
        while not it.at_end():
            sh = it.shape()
            if sh.is_text():
                t = sh.text.transformed(it.trans())
                out.add((t.string, t.x, t.y))
            it.next()
    return out


def drawn(L):
    out = {}
    for m, r, o in L.shapes:
        out.setdefault(m, {}).setdefault(L.names[L.find(o)], []).append(r)
    return out


def plain(region):
    it, tr = region.begin_shapes_rec()
    while not it.at_end():
        if not it.shape().is_text():
            yield tr * it.trans() * it.shape().polygon
        it.next()


def main():
    ck = kvcore.Check('C22', 'random layouts (flat and hierarchical, unnamed nets, MOS and MIM devices, pins, labels) written as LVS '
                      'databases and prepared for extraction; an evaluation is one net on one layer compared with what a separate '
                      'reading of the database holds and with what was drawn; distinct by technology, layer, net and shape',
                      required=['layers compared', 'net shapes compared', 'drawn conductors compared', 'labels looked up', 'pins looked up',
                                'pin records compared', 'devices compared', 'device layers blackboxed'],
                      assumptions=['the LVS database comes from KLayout\'s own engine under the layer names of the PDK decks'])
    ck.run(case, 3000, 20000)
    ck.finish()
