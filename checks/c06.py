"""C06: extracted resistances: positive, analytically right, ports connected exactly within their net."""
import os, random, math, json
import klayout.db as kdb
import kvcore, kvflow, kvlvs, kvsynth

CANON = {(93, 44): 'nsdm', (94, 20): 'psdm', (7, 0): 'nSD', (14, 0): 'pSD'}
POINT, BOX = 1, 3         # Location.Kind of vertex ports and of polygon ports


_alt = {}                  # the case under way uses another technology: 'rng', 'dir', then 'path'


class RTech:
    """sheet and cut resistances read from the technology JSON with the json module"""

    def __init__(self, pdk):
        j = json.load(open(kvflow.tech_json(pdk)))
        r = j['process_parasitics']['resistance']
        if _alt:
            # no two layers, cuts or contacts of the same resistance
            rng = _alt['rng']
            for f in ('layers', 'vias', 'contacts'):
                for x in r.get(f, []):
                    x['resistance'] = round(x['resistance'] * 10 ** rng.uniform(-0.7, 0.7), 3)
            _alt['path'] = os.path.join(_alt['dir'], 'tech.json')
            json.dump(j, open(_alt['path'], 'w'))
        self.sheet = {l['layer_name']: l['resistance'] / 1000.0 for l in r.get('layers', [])}     # ohm/sq
        self.via = {v['via_name']: v['resistance'] / 1000.0 for v in r.get('vias', [])}             # ohm/cut
        self.contact = {c['contact_name']: c['resistance'] / 1000.0 for c in r.get('contacts', [])}
        self.contacts = {}
        for l in j['process_stack']['layers']:
            for sub in ('metal_layer', 'diffusion_layer', 'nwell_layer', 'substrate_layer'):
                ca = l.get(sub, {}).get('contact_above')
                if ca:
                    self.contacts[ca['name']] = ca

    def cut(self, pdk, i):
        """(ohm of one cut of nominal width, nominal width um) of the via above metal i"""
        ca = self.contacts[kvlvs.vias(pdk)[i][0]]
        w = ca['width']
        if kvlvs.vias(pdk)[i][0] in self.contact:
            return self.contact[kvlvs.vias(pdk)[i][0]], w
        for n, r in self.via.items():
            if n.lower() == VIA[pdk][i].lower():
                return r, w
        raise KeyError((pdk, i, self.via))


VIA = {'sky130A': ['licon', 'mcon', 'via', 'via2', 'via3', 'via4'],
       'ihp_sg13g2': ['Cont', 'Via1', 'Via2', 'Via3', 'Via4', 'TopVia1', 'TopVia2']}


def effective(net, ports):
    """effective resistance matrix between the given node ids of a network (numpy Laplacian)"""
    import numpy as np
    short = {n.node_id: n.node_id for n in net.nodes}        # nodes joined by zero resistances
    def f(x):
        while short[x] != x:
            x = short[x]
        return x
    for e in net.elements:
        if e.resistance <= 1e-12:
            short[f(e.node_a.node_id)] = f(e.node_b.node_id)
    ids = sorted({f(k) for k in short})
    ix = {k: ids.index(f(k)) for k in short}
    G = np.zeros((len(ids), len(ids)))
    for e in net.elements:
        a, b = ix[e.node_a.node_id], ix[e.node_b.node_id]
        if a == b:
            continue
        g = 1.0 / e.resistance
        G[a, a] += g; G[b, b] += g; G[a, b] -= g; G[b, a] -= g
    out = {}
    comp = components(net)
    for p in ports:
        for q in ports:
            if comp[p] != comp[q]:
                out[(p, q)] = float('inf')
                continue
            if ix[p] == ix[q]:
                out[(p, q)] = 0.0
                continue
            keep = [i for i, k in enumerate(ids) if i != ix[q] and comp[k] == comp[p]]
            rhs = np.zeros(len(keep)); rhs[keep.index(ix[p])] = 1.0
            out[(p, q)] = float(np.linalg.solve(G[np.ix_(keep, keep)], rhs)[keep.index(ix[p])])
    return out


def components(net):
    par = {n.node_id: n.node_id for n in net.nodes}
    def f(x):
        while par[x] != x:
            x = par[x]
        return x
    for e in net.elements:
        par[f(e.node_a.node_id)] = f(e.node_b.node_id)
    return {n.node_id: f(n.node_id) for n in net.nodes}


def run(c, ly, pdk, tag='', devices=False, capdev=False, blackbox=None, mode='R'):
    lvs = kvlvs.extract(ly, 'TOP', pdk, devices=devices, capdev=capdev)
    d = os.path.join(c.dir, 'r' + tag)
    with kvflow.technology(_alt.get('path')) as asked:
        r, res = kvflow.extract25(lvs, pdk, d, mode=mode, blackbox=blackbox)
    c.count('layouts under another technology', bool(_alt.get('path')))
    if res is None:
        c.violate('crash' if r.exc is None else kvcore.crash_key(r.exc),
                  f"resistance extraction of a valid layout failed: {r.exc!r}\n{r.out[-700:]}")
        return None, None
    return res.r_extraction_result.networks, d


def point(n):
    l = n.location
    if l.HasField('point') if hasattr(l, 'HasField') else False:
        return (l.point.x, l.point.y)
    return None


def sane(c, nets):
    for net in nets:
        for e in net.elements:
            c.count('resistors seen')
            if not (math.isfinite(e.resistance) and e.resistance >= 0):
                c.violate('not-physical', f"net {net.net_name}: resistance {e.resistance!r}")
                return False
    return True


def database_unit(c):
    u = c.rng.choice([0.001] * 5 + [0.0005, 0.002, 0.005])
    if u != 0.001:
        c.count('layouts with a database unit other than 1 nm')
    return u


class Draw:
    def __init__(self, pdk, dbu=0.001):
        self.pdk = pdk
        self.ly = kdb.Layout(); self.ly.dbu = dbu
        self.c = self.ly.create_cell('TOP')
        self.M, self.V = kvlvs.metals(pdk), kvlvs.vias(pdk)

    def box(self, g, r):
        self.c.shapes(self.ly.layer(*g)).insert(kdb.Box(*r))

    def wire(self, m, r):
        self.box(self.M[m][1], r)

    def cut(self, i, r):
        self.box(self.V[i][1], r)

    def pin(self, m, r, name, at=None):
        self.box(self.M[m][3], r)
        x, y = at or ((r[0] + r[2]) // 2, (r[1] + r[3]) // 2)
        self.c.shapes(self.ly.layer(*self.M[m][5])).insert(kdb.Text(name, x, y))
        return x, y


def pins_at(net, pts, reach=0, layer=None):
    """node ids of the vertex ports nearest to the given (x, y), None where there is none within reach: the
    square counting algorithm moves ports onto the centre line of the piece of wire they are on"""
    out = []
    for k, (x, y) in enumerate(pts):
        best = None
        for n in net.nodes:
            if n.location.kind != POINT or (layer and n.layer_name != layer[k]):
                continue
            d = max(abs(n.location.point.x - x), abs(n.location.point.y - y))
            if d <= reach and (best is None or d < best[0]):
                best = (d, n.node_id)
        out.append(best[1] if best else None)
    return out


def internal_names(c, nets):
    """a node that is no port belongs to one network only: its name must not come back in another one"""
    owner = {}
    for net in nets:
        for n in net.nodes:
            if n.net_name == net.net_name:
                continue
            c.count('internal nodes seen')
            if owner.setdefault(n.net_name, net.net_name) != net.net_name:
                c.violate('node-name-shared', f"the networks of {net.net_name} and {owner[n.net_name]} both have a node {n.net_name}")
                return False
    return True


def wires(c):
    """straight wires with 2..5 pins: sheet resistance x squares between every two of them"""
    rng = c.rng
    pdk = rng.choice(['sky130A', 'ihp_sg13g2'])
    T = RTech(pdk)
    D = Draw(pdk, database_unit(c))
    want = []
    y0 = 0
    for k in range(rng.randint(1, 4)):
        m = rng.randrange(len(D.M))
        w = rng.randrange(140, 2000, 10)
        l = rng.randrange(max(3 * w, 2000), 40000, 10)
        horiz = rng.random() < 0.5
        n = rng.randint(2, 5)
        pos = sorted(rng.sample(range(60, l - 60, 10), n))
        if min([b - a for a, b in zip(pos, pos[1:])] or [999]) < 200:
            continue
        ox, oy = rng.randrange(-9000, 9000), y0
        pts = []
        for p in pos:
            q = (p - 50, 0, p + 50, w)
            r = q if horiz else (q[1], q[0], q[3], q[2])
            r = (r[0] + ox, r[1] + oy, r[2] + ox, r[3] + oy)
            pts.append(D.pin(m, r, f"N{k}"))
        full = (0, 0, l, w) if horiz else (0, 0, w, l)
        D.wire(m, (full[0] + ox, full[1] + oy, full[2] + ox, full[3] + oy))
        y0 += (w if horiz else l) + 3000
        want.append((f"N{k}", m, w, pos, pts))
    if not want:
        return
    nets, _ = run(c, D.ly, pdk)
    if nets is None or not sane(c, nets):
        return
    byname = {n.net_name: n for n in nets}
    for name, m, w, pos, pts in want:
        net = byname.get(name)
        if net is None:
            c.violate('net-missing', f"{pdk}: no resistor network for net {name} on {D.M[m][6]}")
            continue
        ids = pins_at(net, pts)
        if None in ids:
            c.violate('port-missing', f"{pdk} {D.M[m][6]}: pin at {pts[ids.index(None)]} of net {name} is not in the network")
            continue
        E = effective(net, ids)
        comp = components(net)
        sh = T.sheet[D.M[m][6]]
        for i in range(len(ids)):
            for j in range(i + 1, len(ids)):
                if comp[ids[i]] != comp[ids[j]]:
                    c.violate('ports-not-connected', f"{pdk} {D.M[m][6]}: pins of net {name} are not connected")
                    return
                exp = sh * (pos[j] - pos[i]) / w
                got = E[(ids[i], ids[j])]
                c.count('wire stretches compared')
                if abs(got - exp) > 0.01 * exp + 1e-6:
                    c.violate('wire-resistance', f"{pdk} {D.M[m][6]} w={w} l={pos[j]-pos[i]}: expected {exp!r} ohm, got {got!r}")
                    return
                c.saw([pdk, m, round(got, 9)])


def vias(c):
    """wire - one or more cuts - wire, up to the full stack in series"""
    rng = c.rng
    pdk = rng.choice(['sky130A', 'ihp_sg13g2'])
    T = RTech(pdk)
    D = Draw(pdk, database_unit(c))
    n = len(D.M)
    lo = rng.randrange(0, n - 1)
    hi = rng.randrange(lo + 1, min(n, lo + 4))
    w = 2000
    exp = 0.0
    x = 0
    detail = []
    for m in range(lo, hi):
        # from x to x+l on metal m, cut there, next metal continues
        l = rng.randrange(3000, 9000, 10)
        rc, nom = T.cut(pdk, m)
        cw = int(round(nom / D.ly.dbu))
        D.wire(m, (x - 500, 0, x + l + 500, w))
        k = rng.randint(1, 3) if 3 * cw + 600 < w else 1
        ys = [200 + i * (cw + 200) for i in range(k)]
        for y in ys:
            D.cut(m, (x + l - cw // 2, y, x + l - cw // 2 + cw, y + cw))
        detail.append((D.M[m][6], l, k, rc))
        exp += T.sheet[D.M[m][6]] * l / w + rc / k
        x += l
    l = rng.randrange(3000, 9000, 10)
    D.wire(hi, (x - 500, 0, x + l + 500, w))
    exp += T.sheet[D.M[hi][6]] * l / w
    twin = rng.random() < 0.25
    last = 'B' if twin else 'A'
    a = D.pin(lo, (-100, 0, 100, w), 'A', (0, w // 2))
    b = D.pin(hi, (x + l - 100, 0, x + l + 100, w), last, (x + l, w // 2))
    if twin:
        # the same again beside it, the two nets share the text of one of their labels
        for li in D.ly.layer_indexes():
            for q in list(D.c.shapes(li).each()):
                D.c.shapes(li).insert(kdb.Text('C', q.text.trans) if q.is_text() and q.text.string == 'B' else q).transform(kdb.Trans(0, 5000))
        c.count('nets that share a label')
    nets, _ = run(c, D.ly, pdk)
    if nets is None or not sane(c, nets) or not internal_names(c, nets):
        return
    net = next((q for q in nets if set(q.net_name.split(',')) == {'A', last}), None)
    ids = pins_at(net, [a, b]) if net else [None]
    if twin and net and not any(set(q.net_name.split(',')) == {'A', 'C'} and len(q.nodes) == len(net.nodes) and
                                len(q.elements) == len(net.elements) for q in nets):
        c.violate('net-missing', f"{pdk}: two equal via chains, but networks {[(q.net_name, len(q.nodes), len(q.elements)) for q in nets]}")
        return
    if None in ids:
        c.violate('port-missing', f"{pdk}: pins of the via chain {detail} not in the network")
        return
    if len(set(components(net)[i] for i in ids)) != 1:
        c.violate('ports-not-connected', f"{pdk}: pins over the via chain {detail} are not connected")
        return
    got = effective(net, ids)[(ids[0], ids[1])]
    c.count('via chains compared')
    # squares are counted between cut borders and centres: half a cut of slack on every wire
    tol = 0.02 * exp + 0.4 * max(T.sheet[D.M[m][6]] for m in range(lo, hi + 1))
    if abs(got - exp) > tol:
        c.violate('via-resistance', f"{pdk}: via chain {detail} -> {D.M[hi][6]} l={l}: expected {exp!r} +- {tol:.3g} ohm, got {got!r}")
        return
    c.saw([pdk, lo, hi, round(got, 9)])


def connectivity(c):
    """random nets over several layers with pins anywhere on them"""
    rng = c.rng
    pdk = rng.choice(['sky130A', 'ihp_sg13g2'])
    two = rng.random() < 0.3                # nets with labels of different text
    L = kvsynth.random_layout(rng, pdk, nmax=rng.choice([4, 8, 12]), size=rng.choice([3000, 8000]), min_gap=60)
    L.dbu = database_unit(c)
    M = kvlvs.metals(pdk)
    L.names, L.labels = {}, []
    L.assign_names(lambda k: None)
    # pins: label + pin shape inside drawn rectangles
    want = {}
    for k, (m, r, o) in enumerate(L.shapes):
        if rng.random() < (0.95 if two else 0.5) and r[2] - r[0] >= 100 and r[3] - r[1] >= 100:
            x = rng.randrange(r[0] + 40, r[2] - 40)
            y = rng.randrange(r[1] + 40, r[3] - 40)
            pr = (x - 30, y - 30, x + 30, y + 30)
            if any(mm == m and kvsynth._touch(pr, q, 20) for mm, q in L.pins):
                continue
            if any(v in (m, m - 1) and kvsynth._touch(pr, q, 20) for v, q, _ in L.vias):
                continue
            L.pins.append((m, pr))
            root = L.find(o)
            L.labels.append((m, (x, y), rng.choice([f"P{root}b", 'A', 'A', 'A']) if two and root in want else f"P{root}"))
            want.setdefault(root, []).append((m, (x, y)))
            # a pin of the same net at the same place on another layer
            for m2, r2, o2 in L.shapes:
                if m2 != m and L.find(o2) == root and r2[0] <= pr[0] and r2[1] <= pr[1] and pr[2] <= r2[2] and pr[3] <= r2[3] and \
                        not any(mm == m2 and kvsynth._touch(pr, q, 20) for mm, q in L.pins) and \
                        not any(v in (m2, m2 - 1) and kvsynth._touch(pr, q, 20) for v, q, _ in L.vias):
                    L.pins.append((m2, pr))
                    L.labels.append((m2, (x, y), L.labels[-1][2]))
                    want[root].append((m2, (x, y)))
                    c.count('pins above one another')
                    break
    if not want:
        return
    ly = L.to_kdb(pins=True, hier=None)
    nets, d = run(c, ly, pdk)
    if nets is None or not sane(c, nets) or not internal_names(c, nets):
        return
    byname = {}
    for n in nets:
        if n.net_name in byname and len(n.nodes) and len(byname[n.net_name].nodes):
            c.violate('net-twice', f"two networks for net {n.net_name}")
            return
        byname[n.net_name] = n
    for root, ps in want.items():
        texts = sorted({t for m, at, t in L.labels if (m, at) in ps})
        name = ','.join(texts)
        net = next((q for k, q in byname.items() if sorted(k.split(',')) == texts), None)
        if len(texts) > 1:
            c.count('nets with several labels')
        if net is None:
            c.violate('net-missing', f"{pdk}: no network for {name} with pins {ps}")
            return
        lay = [M[m][6] for m, _ in ps]
        wide = 30 + max(max(min(r[2] - r[0], r[3] - r[1]) for m, r, o in L.shapes if L.find(o) == root), 1)
        ids = pins_at(net, [p for _, p in ps], wide, lay)
        c.count('pins looked up', len(ps))
        n_ports = sum(1 for n in net.nodes if n.location.kind == POINT)
        if None in ids or n_ports != len(ps):
            c.violate('port-missing', f"{pdk}: net {name} has pins {ps}, but {n_ports} port nodes, {ids}")
            return
        comp = components(net)
        mine = [(v, r) for v, r, o in L.vias if L.find(o) == root]
        if any(v == v2 and kvsynth._touch(r, r2, 0) and r != r2 for v, r in mine for v2, r2 in mine):
            # cuts that run into one another (never legal): KLayout's square counting takes the box of the merged cut
            # for the port, and may find no path from it over a narrower wire
            c.count('nets with merged cuts, connection not judged')
            continue
        if len({comp[i] for i in ids}) != 1:
            c.violate('ports-not-connected', f"{pdk}: pins {ps} of net {name} fall into {len({comp[i] for i in ids})} parts: "
                      f"{[ (M[m][6], r) for m, r, o in L.shapes if L.find(o) == root]} vias {[(v,r) for v,r,o in L.vias if L.find(o)==root]}")
            return
        c.saw([pdk, sorted(map(str, ps))])
        for n in net.nodes:
            if n.location.kind == POINT and n.net_name != net.net_name:
                c.violate('foreign-port', f"{pdk}: port of net {n.net_name} in the network of {name}")
                return
    c.count('random layouts')


def transistors(c):
    """rows of MOS fingers: every source, drain and gate polygon is a port of its net's network"""
    rng = c.rng
    pdk = rng.choice(['sky130A', 'ihp_sg13g2'])
    D = Draw(pdk, database_unit(c))
    T = RTech(pdk)
    gate_layer = D.M[0][6]
    expect = []                   # (terminal layer, x range, net or None)
    y = 0
    serial = 0
    for row in range(rng.randint(1, 3)):
        n = rng.randint(1, 4)
        w = rng.randrange(500, 2000, 10)
        _, _, nsd, cname, con = rng.choice(kvlvs.DIFF[pdk])
        canon = CANON[nsd]
        side = int(round(T.contacts[cname]['width'] / D.ly.dbu))
        x = 0
        pitch = 1000
        for k in range(n + 1):                    # source/drain k at [x, x+850), gates between
            x0 = k * pitch
            left, right = (x0, x0 + 850)
            D.box(con, (x0 + 340, y + 100, x0 + 340 + side, y + 100 + side))
            name = f"SD{serial}" if rng.random() < 0.6 else None
            serial += 1
            D.wire(1, (x0 + 300, y + 50, x0 + 550, y + w + 3000))
            if name:
                D.pin(1, (x0 + 350, y + w + 2800, x0 + 450, y + w + 2900), name)
            expect.append((canon, (left, y, right, y + w), name, cname))
            if k < n:
                g = x0 + 850
                D.wire(0, (g, y - 200, g + 150, y + w + 500))
                D.wire(0, (g - 50, y + w + 450, g + 250, y + w + 900))
                gname = f"G{serial}" if rng.random() < 0.6 else None
                serial += 1
                if gname:
                    if rng.random() < 0.5:
                        D.pin(0, (g + 50, y + w + 600, g + 110, y + w + 660), gname)
                    else:
                        s0 = int(round(T.cut(pdk, 0)[1] / D.ly.dbu))
                        D.cut(0, (g, y + w + 600, g + s0, y + w + 600 + s0))
                        D.wire(1, (g - 20, y + w + 550, g + 190, y + w + 2000))
                        D.pin(1, (g + 50, y + w + 1800, g + 110, y + w + 1860), gname)
                        if rng.random() < 0.5:
                            # diode: the gate's strap goes on to the next (or previous) source/drain strap
                            side_x = (g - 20, x0 + 1550) if rng.random() < 0.5 else (x0 + 300, g + 190)
                            D.wire(1, (side_x[0], y + w + 1500, side_x[1], y + w + 1700))
                            c.count('diode-connected transistors')
                expect.append((gate_layer, (g, y, g + 150, y + w), gname, None))
        D.box(nsd, (0, y, n * pitch + 850, y + w))
        D.box((122, 16), (-500, y - 500, n * pitch + 450, y + w + 500))
        y += w + 6000
    mode = rng.choice(['R', 'RC'])
    nets, _ = run(c, D.ly, pdk, devices=True, mode=mode)
    if nets is None or not sane(c, nets) or not internal_names(c, nets):
        return
    for layer, (x1, y1, x2, y2), name, cname in expect:
        c.count('device terminals looked up')
        hit = [(net, n) for net in nets for n in net.nodes if n.layer_name == layer and n.location.kind == BOX and n.net_name == net.net_name
               and max(n.location.box.lower_left.x, x1) < min(n.location.box.upper_right.x, x2)
               and max(n.location.box.lower_left.y, y1) < min(n.location.box.upper_right.y, y2)]
        if not hit:
            c.violate('terminal-missing', f"no port for the {layer} terminal at {(x1, y1, x2, y2)} (net {name or 'without label'})")
            return
        if name and any(name not in net.net_name.split(',') for net, _ in hit):
            c.violate('terminal-net', f"the {layer} terminal at {(x1, y1, x2, y2)} of net {name} is in the network of {hit[0][0].net_name}")
            return
        if len({net.net_name for net, _ in hit}) != 1:
            c.violate('terminal-net', f"the {layer} terminal at {(x1, y1, x2, y2)} is a port of several nets")
            return
        net, node = hit[0]
        comp = components(net)
        pins = [n for n in net.nodes if n.location.kind == POINT]
        if any(n.net_name != net.net_name for n in pins):
            c.violate('foreign-port', f"ports of net {net.net_name} belong to {sorted({n.net_name for n in pins})}")
            return
        if name and not pins:
            c.violate('port-missing', f"the pin of net {name} is not in the network")
            return
        for pn in pins:
            if comp[pn.node_id] != comp[node.node_id]:
                c.violate('ports-not-connected', f"pin and {layer} terminal of net {name} are not connected")
                return
            r = effective(net, [pn.node_id, node.node_id])[(pn.node_id, node.node_id)]
            lowest = (T.cut(pdk, 0)[0] if pn.layer_name == D.M[1][6] else 0.0) if layer == gate_layer else T.contact[cname]
            if layer != gate_layer:
                # one contact, then the strap up to the pin
                up = abs(pn.location.point.y - (y1 + 270))
                upper = lowest + T.sheet[D.M[1][6]] * (up / 250.0 + 2)
                if r > upper * 1.02:
                    c.violate('contact-resistance', f"{pdk}: {r!r} ohm between pin and {layer} terminal of {name}, at most {upper!r} expected")
                    return
            if not r >= lowest * 0.999:
                c.violate('contact-missing', f"{r!r} ohm between pin and {layer} terminal of {name}, less than the contact's {lowest!r}")
                return
            c.saw(['t', layer, round(r, 9)])


def mim(c):
    """a MIM capacitor without blackboxing: its plates belong to the wires that contact them"""
    L = kvsynth.Layout('sky130A')
    L.add_mim(c.rng, 0, 0)
    L.assign_names(lambda k: 'Aa'[k])
    for m, p, t in L.labels:
        L.pins.append((m, (p[0] - 40, p[1] - 40, p[0] + 40, p[1] + 40)))
    black = c.rng.random() < 0.5
    nets, _ = run(c, L.to_kdb(pins=True), 'sky130A', capdev=True, blackbox=black)
    if nets is None or not sane(c, nets):
        return
    byname = {n.net_name: n for n in nets}
    for name in 'Aa':
        net = byname.get(name)
        pins = [n.node_id for n in net.nodes if n.location.kind == POINT] if net else []
        if len(pins) != 1:
            c.violate('port-missing', f"MIM: pin of net {name} has {len(pins)} nodes, blackbox {black}")
            return
        c.count('MIM nets')
        c.saw(['mim', name, black, len(net.nodes)])
        if black:
            continue
        plates = [n.node_id for n in net.nodes if n.location.kind == BOX and n.net_name == name]
        comp = components(net)
        if name == 'A' and not plates:
            c.violate('mim-plate-missing', f"MIM: the plate terminal of net {name} on met3_cap has no node")
        if not plates or any(comp[p] != comp[pins[0]] for p in plates):
            c.violate('mim-plate-not-connected', f"MIM: plate terminal of net {name}: nodes {plates}, not connected to the net's pin")


def ring(c):
    """a rectangular ring between two pins: two arms in parallel, the hole carries no current"""
    rng = c.rng
    pdk = rng.choice(['sky130A', 'ihp_sg13g2'])
    T = RTech(pdk)
    D = Draw(pdk, database_unit(c))
    m = rng.randrange(len(D.M))
    w = rng.randrange(200, 1000, 20)
    W, H = rng.randrange(8 * w, 30 * w, 20), rng.randrange(8 * w, 30 * w, 20)
    ox, oy = rng.randrange(-9000, 9000, 10), rng.randrange(-9000, 9000, 10)
    outer, hole = kdb.Region(kdb.Box(0, 0, W, H)), kdb.Region(kdb.Box(w, w, W - w, H - w))
    solid = rng.random() < 0.5              # drawn as a polygon with a hole or as four boxes
    move = kdb.Trans(ox, oy)
    lay = D.ly.layer(*D.M[m][1])
    if solid:
        for p in (outer - hole).each():
            D.c.shapes(lay).insert(p.transformed(move))
    else:
        for b in ((0, 0, W, w), (0, H - w, W, H), (0, 0, w, H), (W - w, 0, W, H)):
            D.c.shapes(lay).insert(kdb.Box(*b).transformed(move))
    y = rng.randrange(3 * w, H - 3 * w, 10)
    a = D.pin(m, (ox, oy + y - 50, ox + w, oy + y + 50), 'A')
    b = D.pin(m, (ox + W - w, oy + y - 50, ox + W, oy + y + 50), 'A')
    nets, _ = run(c, D.ly, pdk)
    if nets is None or not sane(c, nets):
        return
    net = next((q for q in nets if q.net_name == 'A'), None)
    ids = pins_at(net, [a, b], w) if net else [None]
    if None in ids or ids[0] == ids[1]:
        c.violate('port-missing', f"{pdk}: pins of the ring {W}x{H} w={w} not in the network")
        return
    if len(set(components(net)[i] for i in ids)) != 1:
        c.violate('ports-not-connected', f"{pdk}: pins of the ring {W}x{H} w={w} are not connected")
        return
    got = effective(net, ids)[(ids[0], ids[1])] / T.sheet[D.M[m][6]]
    c.count('rings compared')
    # squares along the inner and the outer border of both arms
    inner = [(2 * (l - w) + W - 2 * w) / w for l in (y, H - y)]
    outer_ = [(2 * l + W) / w for l in (y, H - y)]
    lo, hi = (1 / sum(1 / q for q in arms) for arms in (inner, outer_))
    if not lo * 0.98 <= got <= hi * 1.02:
        c.violate('ring-resistance', f"{pdk} {D.M[m][6]}: ring {W}x{H} w={w}, pins at height {y}: {got!r} squares, "
                  f"between {lo!r} and {hi!r} expected")
        return
    c.saw(['ring', pdk, m, round(got, 9)])


def pieces(c):
    """requests as messages: terminals in several pieces on several layers, several networks, pins among them"""
    import types
    from klayout_pex.rcx25.r.r_extractor import RExtractor
    import klayout_pex_protobuf.kpex.request.pex_request_pb2 as rq_pb2
    from klayout_pex_protobuf.kpex.klayout.r_extractor_tech_pb2 import RExtractorTech
    rng = c.rng
    A = RExtractorTech.Algorithm
    unit = database_unit(c)
    ex = RExtractor(types.SimpleNamespace(dbu=unit), substrate_algorithm=A.ALGORITHM_TESSELATION,
                    wire_algorithm=A.ALGORITHM_SQUARE_COUNTING, delaunay_b=0.5, delaunay_amax=0.0,
                    via_merge_distance=0.0, skip_simplify=rng.random() < 0.5)
    rq = rq_pb2.RExtractionRequest()
    names = ['met1', 'met2', 'met3']
    ids = rng.sample(range(1, 60), 5)
    sheet = [rng.choice([0.125, 0.047, 12.8, 48.2, rng.uniform(0.01, 100)]) for _ in names]
    for n, i, r in zip(names, ids, sheet):
        x = rq.tech.conductors.add()
        x.layer.id, x.layer.canonical_layer_name, x.layer.lvs_layer_name = i, n, n + '_con'
        x.algorithm, x.resistance = A.ALGORITHM_SQUARE_COUNTING, r
    cut = [rng.uniform(0.01, 5.0) for _ in (0, 1)]
    for k in (0, 1):
        x = rq.tech.vias.add()
        x.layer.id, x.layer.canonical_layer_name, x.layer.lvs_layer_name = ids[3 + k], f"via{k + 1}", f"via{k + 1}"
        x.bottom_conductor.id, x.top_conductor.id, x.resistance = ids[k], ids[k + 1], cut[k]
    order = rng.sample(range(3), 3)
    tech = [rq.tech.conductors[k] for k in order]
    rq.tech.ClearField('conductors')
    rq.tech.conductors.extend(tech)

    def box(region, b):
        g = region.polygons.add()
        for x, y in ((b[0], b[1]), (b[0], b[3]), (b[2], b[3]), (b[2], b[1])):
            h = g.hull_points.add()
            h.x, h.y = x, y
    want, y = [], 0
    for name in rng.sample(['A', 'B', 'VDD', 'a', '$3', 'A,B', 'x.y'], rng.randint(1, 4)):
        n = rq.net_extraction_requests.add()
        n.net_name = name
        shapes = {k: [] for k in range(5)}
        ports, wires_ = [], []
        for _ in range(rng.randint(1, 4)):
            w, l = rng.randrange(200, 1200, 20), rng.randrange(8000, 30000, 20)
            m, flip = rng.randrange(3), rng.random() < 0.5
            ox, oy = rng.randrange(-9000, 9000), y
            y += l + 3000
            put = (lambda a, b, ox=ox, oy=oy, w=w, flip=flip: (ox, oy + a, ox + w, oy + b) if flip else (ox + a, oy, ox + b, oy + w))
            shapes[m].append(put(0, l))
            here, at = [], rng.randrange(0, 2000, 20)
            while at < l - 300:
                if rng.random() < 0.35:
                    b = put(at, at + 2)
                    here.append(('pin', (at, (b[0] + 1 if not flip else ox + w // 2, oy + w // 2 if not flip else b[1] + 1)), m))
                else:
                    e = at + rng.randrange(40, 300, 20)
                    here.append(('piece', ((at + e) / 2, put(at, e)), m))
                at += rng.randrange(1500, 9000, 20)
            ports += here
            wires_.append((m, w, here))
            if m < 2 and rng.random() < 0.4 and not flip:
                # a second wire above the end, over one square cut
                s = 150
                cx = l - s - 10
                shapes[3 + m].append((ox + cx, oy + 20, ox + cx + s, oy + 20 + s))
                shapes[m + 1].append((ox + cx - 20, oy, ox + cx + 6000, oy + 200))
                up = ('piece', (0, (ox + cx + 5900, oy, ox + cx + 6000, oy + 200)), m + 1)
                ports.append(up)
                if here:
                    want.append((name, 'via', here[-1], up))
            want.append((name, 'wire', wires_[-1], None))
        for k, bs in shapes.items():
            for part in ([bs] if bs else []):
                l2r = n.region_by_layer.add()
                l2r.layer.id = ids[k]
                l2r.layer.canonical_layer_name = (names + ['via1', 'via2'])[k]
                for b in part:
                    box(l2r.region, b)
        rng.shuffle(ports)
        left = [q for q in ports if q[0] == 'piece']
        k = 0
        while left:                             # terminals of several pieces
            t = n.device_terminals.add()
            t.terminal_id, t.name, t.net_name = k, 'SGDB'[k % 4], name
            k += 1
            mine = left[:rng.choice([1, 2, 3])]
            left = left[len(mine):]
            if len(mine) > 1:
                c.count('terminals in pieces')
            for m in sorted({q[2] for q in mine}):
                l2r = t.region_by_layer.add()
                l2r.layer.id, l2r.layer.canonical_layer_name = ids[m], names[m]
                for q in mine:
                    if q[2] == m:
                        box(l2r.region, q[1][1])
        for q in ports:
            if q[0] == 'pin':
                p = n.pins.add()
                p.label, p.net_name = name, name
                p.layer.id, p.layer.canonical_layer_name = ids[q[2]], names[q[2]]
                p.label_point.x, p.label_point.y = q[1][1]
        want.append((name, 'ports', ports, None))
    before = type(rq)()
    before.CopyFrom(rq)
    nets = ex.extract(rq).networks
    c.expect(before == rq, 'request-changed', 'the request was changed')
    if [x.net_name for x in nets] != [x.net_name for x in rq.net_extraction_requests]:
        c.violate('net-missing', f"networks {[x.net_name for x in nets]} for requests {[x.net_name for x in rq.net_extraction_requests]}")
        return
    if not sane(c, nets) or not internal_names(c, nets):
        return
    by = {x.net_name: x for x in nets}

    def node(net, q):
        for x in by[net].nodes:
            if x.layer_name != names[q[2]]:
                continue
            if q[0] == 'pin' and x.location.kind == POINT and (x.location.point.x, x.location.point.y) == q[1][1] and x.net_name == net:
                return x.node_id
            b = x.location.box
            if q[0] == 'piece' and x.location.kind == BOX and (b.lower_left.x, b.lower_left.y, b.upper_right.x, b.upper_right.y) == q[1][1] and x.net_name == net:
                return x.node_id
        return None
    for name, kind, a, b in want:
        if kind == 'ports':
            lost = [q for q in a if node(name, q) is None]
            c.count('ports looked up', len(a))
            if lost:
                c.violate('port-missing', f"net {name}: no node for the {lost[0][0]} at {lost[0][1][1]} on {names[lost[0][2]]}; nodes "
                          f"{[(x.layer_name, x.node_name) for x in by[name].nodes]}")
                return
    for name, kind, a, b in want:
        if kind == 'via':
            comp = components(by[name])
            c.count('cuts between pieces')
            if comp[node(name, a)] != comp[node(name, b)]:
                c.violate('ports-not-connected', f"net {name}: {a} and {b} are not connected over the cut")
                return
        elif kind == 'wire' and len(a[2]) > 1:
            m, w, here = a
            k = [node(name, q) for q in here]
            E = effective(by[name], k)
            for i in range(len(k) - 1):
                exp = sheet[m] * abs(here[i + 1][1][0] - here[i][1][0]) / w
                got = E[(k[i], k[i + 1])]
                c.count('stretches between pieces')
                if not abs(got - exp) <= 0.01 * exp + sheet[m] * 2.0 / w:
                    c.violate('wire-resistance', f"net {name} {names[m]} w={w}: between {here[i]} and {here[i + 1]} {got!r} ohm, {exp!r} expected")
                    return
                c.saw(['pieces', m, round(got, 9)])


def case(c):
    k = c.idx % 16
    _alt.clear()
    if c.rng.random() < 0.4:
        _alt.update(rng=c.rng, dir=c.dir)
    if k in (5, 13):
        return pieces(c)
    if k == 7:
        return ring(c)
    if k == 15:
        (mim if c.rng.random() < 0.3 else transistors)(c)
    elif k in (3, 11):
        transistors(c)
    else:
        (wires, vias, connectivity)[k % 3](c)


def main():
    ck = kvcore.Check('C06', 'generated straight wires, via chains and random multi-layer nets with pins through kpex --2.5D --mode R, and extraction requests as messages; '
                      'an evaluation is one port-to-port resistance compared with the analytic value or one net whose ports '
                      'are checked for connection; distinct by technology, place and value',
                      required=['wire stretches compared', 'rings compared', 'via chains compared', 'pins looked up', 'resistors seen',
                                'device terminals looked up', 'internal nodes seen', 'terminals in pieces', 'ports looked up', 'stretches between pieces', 'cuts between pieces'],
                      assumptions=['cuts of one via level neither touch nor overlap (KLayout takes the box of merged cuts as one port)', 'sheet and cut resistances are read from the generated technology JSON'])
    ck.run(case, 4000, 9000)
    ck.finish()
