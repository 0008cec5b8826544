"""C24: the extraction report shows every contribution, resistor and request item where it is in the layout."""
import collections, math, os, re
import klayout.db as kdb
import klayout.rdb as rdb
import kvcore, kvflow, kvref
import c05, c22

DBU = 0.001


class Bad(Exception):
    pass


def ahead(e, near, far):
    """the region in front of an edge (body on its right-hand side), between two distances"""
    n = {0: (0, 1), 1: (0, -1), 2: (-1, 0), 3: (1, 0)}[(0 if e.dx() > 0 else 1) if e.dy() == 0 else (2 if e.dy() > 0 else 3)]
    b = kdb.Box(e.p1.x + n[0] * near, e.p1.y + n[1] * near, e.p2.x + n[0] * far, e.p2.y + n[1] * far)
    return kdb.Region(b) if b.width() and b.height() else kdb.Region()


def thin(region):
    """without what is less than four units wide"""
    return region.sized(-2).is_empty()


def up(shape):
    """a shape of the report (µm) in database units; must lie on the grid"""
    t = kdb.CplxTrans(DBU).inverted()
    s = t * shape
    if isinstance(shape, kdb.DEdge):
        if max(abs(a - b) for a, b in zip((s.p1.x, s.p1.y, s.p2.x, s.p2.y), (shape.p1.x / DBU, shape.p1.y / DBU, shape.p2.x / DBU, shape.p2.y / DBU))) > 1e-3:
            raise Bad(f"{shape} is off the grid")
    return s


def items(db, cat):
    """[Edge | Polygon] of the items directly in a category"""
    out = []
    for it in db.each_item_per_category(cat.rdb_id()):
        for v in it.each_value():
            if v.is_edge():
                out.append(up(v.edge()))
            elif v.is_polygon():
                out.append(up(v.polygon()))
            elif v.is_box():
                out.append(kdb.Polygon(up(v.box())))
            elif v.is_path():
                out.append(up(v.path()).polygon())
            elif not v.is_string() and not v.is_text():      # KLayout adds the net of a shape as text
                raise Bad(f"item value {v} shows no shape")
    return out


def subs(cat):
    return list(cat.each_sub_category()) if cat is not None else []


def tail(cat, key):
    n = cat.name()
    if not n.startswith(key + '='):
        raise Bad(f"category {n!r} where {key}=… is expected")
    return n[len(key) + 1:]


def on_boundary(edge, region):
    """the edge is part of the contour"""
    return (kdb.Edges([edge]) - region.merged().edges()).is_empty() and edge.length() > 0


def reg(ps):
    r = kdb.Region()
    for p in ps:
        if not isinstance(p, kdb.Polygon):
            raise Bad(f"{p} is no polygon")
        r.insert(p)
    return r.merged()


def distance(e, f):
    """distance of two parallel manhattan edges that face each other"""
    if e.dx() == 0 and f.dx() == 0:
        return abs(e.p1.x - f.p1.x)
    if e.dy() == 0 and f.dy() == 0:
        return abs(e.p1.y - f.p1.y)
    return None


def span(e):
    return sorted((e.p1.y, e.p2.y)) if e.dx() == 0 else sorted((e.p1.x, e.p2.x))


def window(e, p):
    """(near, far) distance of a polygon from an edge, measured away from the body on the right-hand side of the edge"""
    b = p.bbox()
    if e.dx() == 0:
        x, left = e.p1.x, e.dy() > 0
        return (x - b.right, x - b.left) if left else (b.left - x, b.right - x)
    y, upw = e.p1.y, e.dx() > 0
    return (b.bottom - y, b.top - y) if upw else (y - b.top, y - b.bottom)


def body_side(e, region):
    """the edge, directed so that the region lies on its right-hand side (KLayout's orientation)"""
    m = kdb.Point((e.p1.x + e.p2.x) // 2, (e.p1.y + e.p2.y) // 2)
    probe = kdb.Polygon(kdb.Box(m.x, m.y - 1, m.x + 1, m.y + 1) if e.dx() == 0 else kdb.Box(m.x - 1, m.y, m.x + 1, m.y + 1))
    inside = not (region & kdb.Region(probe)).is_empty()      # to the right / above
    if e.dx() == 0:
        want = e.dy() < 0 if not inside else e.dy() > 0
    else:
        want = e.dx() > 0 if not inside else e.dx() < 0
    return e if want else e.swapped_points()


class Report:
    def __init__(self, c, path, regions, tech, halo, scale, what):
        self.c, self.r, self.tech, self.halo, self.scale, self.what = c, regions, tech, halo, scale, what
        self.seen = collections.Counter()
        self.db = rdb.ReportDatabase('')
        self.db.load(path)
        self.top = {}
        for cat in self.db.each_category():
            if cat.name() in self.top:
                raise Bad(f"two categories {cat.name()!r}")
            self.top[cat.name()] = cat

    def shapes(self, layer, net):
        if layer == kvref.SUB:
            return None
        r = self.r.get(layer, {}).get(net)
        if r is None:
            raise Bad(f"the layout has no net {net!r} on layer {layer!r}")
        return r

    def inside(self, region, layer, net, label):
        s = self.shapes(layer, net)
        if s is not None and not (region - s).is_empty():
            self.c.violate('place', f"{self.what}: {label} {region} is not part of {net!r} on {layer} {s}"[:900])
            return False
        return True

    def numbers(self, cats, label):
        k = []
        for e in cats:
            m = re.match(r'#(\d+)\b', e.name())
            if not m:
                raise Bad(f"{label}: entry {e.name()!r} without number")
            k.append(int(m.group(1)))
        self.c.expect(sorted(k) == list(range(1, len(k) + 1)), 'numbers', f"{self.what}: {label}: entries numbered {sorted(k)}")

    @staticmethod
    def value(name):
        return float(re.search(r'(-?[0-9.e+-]+) fF$', name).group(1))

    def overlaps(self):
        c = self.c
        for a in subs(self.top.get('[C] Overlap')):
            T = tail(a, 'top_layer')
            for b in subs(a):
                B = tail(b, 'bot_layer')
                for n in subs(b):
                    nt, nb = n.name().split(' – ')
                    self.numbers(subs(n), 'overlap')
                    for e in subs(n):
                        s = {x.name(): items(self.db, x) for x in subs(e)}
                        if set(s) != {'Top Polygon', 'Bottom Polygon', 'Overlap Area'}:
                            raise Bad(f"overlap {e.name()} shows {sorted(s)}")
                        if len(s['Top Polygon']) != 1 or len(s['Bottom Polygon']) != 1:
                            raise Bad(f"overlap {e.name()} shows {len(s['Top Polygon'])} top and {len(s['Bottom Polygon'])} bottom polygons")
                        top, bot, area = (reg(s[k]) for k in ('Top Polygon', 'Bottom Polygon', 'Overlap Area'))
                        what = f"overlap {T}({nt}) – {B}({nb}) {e.name()}"
                        if not (self.inside(top, T, nt, what + ' top polygon') and self.inside(bot, B, nb, what + ' bottom polygon')):
                            return
                        c.expect((area - (top & bot)).is_empty() and not area.is_empty(), 'overlap-area',
                                 f"{self.what}: {what}: area {area} is not in both polygons")
                        want = area.area() * DBU ** 2 * self.tech.ovl[(T, B)] / 1000.0
                        c.expect(abs(want - self.value(e.name())) < 0.00051, 'overlap-value',
                                 f"{self.what}: {what}: the area shown has {want} fF")
                        c.count('overlaps located')
                        self.seen['overlaps'] += 1
                        c.saw(['o', T, B, str(area)])

    def sidewalls(self):
        c = self.c
        for a in subs(self.top.get('[C] Sidewall')):
            L = tail(a, 'layer')
            for b in subs(a):
                ni = tail(b, 'inside')
                for n in subs(b):
                    no = tail(n, 'outside')
                    self.numbers(subs(n), 'sidewall')
                    for e in subs(n):
                        what = f"{self.what}: sidewall {L} {ni} – {no} {e.name()}"
                        m = re.match(r'#\d+: len (\S+) µm, distance (\S+) µm, (\S+) fF$', e.name())
                        es = items(self.db, e)
                        if not m or len(es) != 2 or not all(isinstance(x, kdb.Edge) for x in es):
                            raise Bad(f"{what} shows {es}")
                        ri, ro = self.shapes(L, ni), self.shapes(L, no)
                        d = distance(*es)
                        ok = on_boundary(es[0], ri) and on_boundary(es[1], ro) or on_boundary(es[1], ri) and on_boundary(es[0], ro)
                        c.expect(ok, 'place', f"{what}: edges {[str(x) for x in es]} are not on the contours of {ni} and {no}")
                        c.expect(d is not None and abs(d * DBU - float(m.group(2))) < 1e-6, 'sidewall-distance',
                                 f"{what}: edges {[str(x) for x in es]} are {d} apart")
                        c.expect(all(abs(x.length() * DBU - float(m.group(1))) < 1e-6 for x in es) and span(es[0]) == span(es[1]),
                                 'sidewall-length', f"{what}: edges {[str(x) for x in es]}")
                        cap, off = self.tech.side[L]
                        want = float(m.group(1)) * cap / (float(m.group(2)) + off) / 2000.0
                        c.expect(abs(want - float(m.group(3))) < 0.00051, 'sidewall-value', f"{what}: the edges shown have {want} fF")
                        c.count('sidewalls located')
                        self.seen['sidewalls'] += 1
                        c.saw(['s', L, sorted(map(str, es))])

    def fringes(self):
        c = self.c
        for a in subs(self.top.get('[C] Fringe / Side Overlap')):
            I = tail(a, 'inside_layer')
            for b in subs(a):
                ni = tail(b, 'inside_net')
                for l in subs(b):
                    O = tail(l, 'outside_layer')
                    for n in subs(l):
                        no = tail(n, 'outside_net')
                        self.numbers(subs(n), 'fringe')
                        for e in subs(n):
                            what = f"{self.what}: fringe {I}({ni}) – {O}({no}) {e.name()}"
                            s = {x.name(): items(self.db, x) for x in subs(e)}
                            if not {'Inside Edge', 'Outside Polygon'} <= set(s) <= {'Inside Edge', 'Outside Polygon', 'Lateral Shield'} or \
                               any(len(v) != 1 for v in s.values()) or not isinstance(s['Inside Edge'][0], kdb.Edge):
                                raise Bad(f"{what} shows {s}")
                            edge, poly = s['Inside Edge'][0], s['Outside Polygon'][0]
                            ri = self.shapes(I, ni)
                            if not on_boundary(edge, ri):
                                c.violate('place', f"{what}: edge {edge} is not on the contour of {ni}: {ri}"[:900])
                                return
                            if not self.inside(reg([poly]), O, no, what + ' outside polygon'):
                                return
                            edge = body_side(edge, ri)
                            near, far = window(edge, poly)
                            box = poly.bbox()
                            sp = span(edge)
                            lat = (box.bottom, box.top) if edge.dx() == 0 else (box.left, box.right)
                            c.expect(-1 <= near < far <= self.halo / DBU + 2 and sp[0] - 1 <= lat[0] < lat[1] <= sp[1] + 1, 'fringe-window',
                                     f"{what}: polygon {poly} is not in front of the edge {edge} within the halo {self.halo}")
                            k, oc = self.tech.fr[(I, O)], self.tech.ovl.get((I, O), self.tech.ovl.get((O, I)))
                            al = oc * 0.02
                            f = (2 / math.pi) * (math.atan(al * far * DBU) - math.atan(al * max(near, 0) * DBU))
                            if self.scale:
                                f /= min(1.0, (2 / math.pi) * math.atan(al * self.halo))
                            want = f * edge.length() * DBU * k / 1000.0
                            c.expect(abs(want - self.value(e.name())) < 0.00051, 'fringe-value',
                                     f"{what}: edge {edge} and polygon {poly} have {want} fF")
                            c.count('fringes located')
                            self.seen['fringes'] += 1
                            c.saw(['f', I, O, str(edge), str(poly)])
                            if 'Lateral Shield' not in s:
                                lat = [x for r in self.r[I].values() for x in (r & ahead(edge, 1, int(self.halo / DBU) - 2)).each()]
                                c.count('fringes without shield')
                                c.expect(all(thin(kdb.Region(x)) for x in lat), 'shield-missing',
                                         f"{what}: no lateral shield is shown, but {lat[:1]} faces the edge {edge}")
                            else:
                                sh = s['Lateral Shield'][0]
                                c.count('lateral shields located')
                                w = window(edge, sh)
                                same = kdb.Region()
                                for r in self.r[I].values():
                                    same += r
                                front = [x for x in sh.each_edge() if x.length() and x.d().vprod(edge.d()) == 0 and distance(x, edge) == max(w[0], 0)]
                                c.expect(w[0] >= -1 and w[1] >= far and (reg([sh]) & reg([poly])).is_empty() and
                                         any(on_boundary(x, same) for x in front), 'shield',
                                         f"{what}: lateral shield {sh} does not start at a conductor on {I} and end behind {poly}")

    def neighbourhoods(self):
        c = self.c
        for a in subs(self.top.get('[C] Edge Neighborhood Visitor')):
            I = tail(a, 'inside_layer')
            for b in subs(a):
                ni = tail(b, 'inside_net')
                for iv in subs(b):
                    m = re.match(r'Edge Interval: [(\[](\S+), (\S+)[)\]]$', iv.name())
                    if not m:
                        raise Bad(iv.name())
                    self.numbers(subs(iv), 'neighbourhood')
                    for e in subs(iv):
                        what = f"{self.what}: neighbourhood {I}({ni}) {iv.name()} {e.name()}"
                        edge, shown = None, collections.defaultdict(kdb.Region)
                        for x in subs(e):
                            s = items(self.db, x)
                            if x.name() == 'Edge':
                                if len(s) != 1 or not isinstance(s[0], kdb.Edge):
                                    raise Bad(f"{what} shows {s} as edge")
                                edge = s[0]
                                if I != kvref.SUB:
                                    c.expect(on_boundary(edge, self.shapes(I, ni)), 'place', f"{what}: edge {edge} is not on the contour of {ni}")
                                c.count('neighbourhood edges located')
                                continue
                            if edge is None:
                                raise Bad(f"{what} shows neighbours before the edge")
                            k, name = re.match(r'Child (\d+): (.*)$', x.name()).groups()
                            where = self.r.get(I if name == 'None' else name, {})
                            r = reg(s)
                            shown[name] += r
                            c.count('neighbours located')
                            if name != kvref.SUB and not (name == 'None' and I == kvref.SUB):
                                u = kdb.Region()
                                for q in where.values():
                                    u += q
                                c.expect((r - u).is_empty() and not r.is_empty(), 'place', f"{what}: {x.name()} {r} is not on layer {name} {u}"[:900])
                        if edge is None:
                            raise Bad(f"{what} shows no edge")
                        if I == kvref.SUB:
                            continue
                        a, b = float(m.group(1)), float(m.group(2))
                        d = kdb.DVector(edge.p2 - edge.p1) * (1.0 / edge.length())
                        part = kdb.Edge(kdb.Point(edge.p1.x + round(d.x * a), edge.p1.y + round(d.y * a)),
                                        kdb.Point(edge.p1.x + round(d.x * b), edge.p1.y + round(d.y * b)))
                        win = ahead(part, 1, int(self.halo / DBU) - 2)
                        for layer in set(self.tech.side) & set(self.r):
                            want = kdb.Region()
                            for q in self.r[layer].values():
                                want += q
                            want &= win
                            got = shown[layer] + (shown['None'] if layer == I else kdb.Region()) & win
                            c.count('neighbourhoods compared')
                            c.expect(thin(want ^ got), 'neighbours',
                                     f"{what}: neighbours on {layer} of {part} are {got}, not {want}"[:900])

    # -- resistance
    def flat(self, cat, path=()):
        """[(path, shape or None)] of everything below a category"""
        out = []
        for x in subs(cat):
            p = path + (x.name(),)
            s = items(self.db, x)
            out.append((p, s))
            out += self.flat(x, p)
        return out

    def compare(self, title, want):
        """want: {path: [shapes]} (shapes of one path compared as a merged area, or as a multiset if listed as 'each')"""
        got = collections.defaultdict(list)
        for p, s in self.flat(self.top.get(title)):
            got[p] += s
        miss, more = sorted(set(want) - set(got)), sorted(p for p in set(got) - set(want) if len(p) > 1 or got[p])
        if miss or more:
            self.c.violate('entries', f"{self.what}: {title} lacks {miss[:2]} and has in addition {more[:2]}")
            return
        for p, (how, shapes) in want.items():
            self.c.count('entries of R requests and results')
            if how == 'each':
                ok = len(got[p]) == len(shapes) and (reg(got[p]) ^ reg(shapes)).area() == 0
            elif how == 'arrow':
                ok = len(got[p]) == len(shapes) and arrows(got[p], shapes)
            else:
                ok = (reg(got[p]) ^ reg(shapes)).area() == 0 if shapes or got[p] else True
            if not ok:
                self.c.violate('place', f"{self.what}: {title} {p} shows {[str(x) for x in got[p]][:4]}, not {[str(x) for x in shapes][:4]}"[:900])
                return

    def request(self, rq):
        want = {}

        def add(path, how='area', shapes=()):
            for i in range(1, len(path)):
                want.setdefault(path[:i], ('area', []))
            h, s = want.setdefault(path, (how, []))
            want[path] = (how, s + list(shapes))

        def pins(ps, path):
            for p in ps:
                x, y = p.label_point.x, p.label_point.y
                add(path + (f"{p.label} (net {p.net_name} on layer {p.layer.canonical_layer_name})", 'label point'), 'each',
                    [kdb.Polygon(kdb.Box(x - 5, y - 5, x + 5, y + 5))])

        def terminals(ts, path):
            for t in ts:
                for lr in t.region_by_layer:
                    add(path + (f"{t.name}: net {t.net_name}, layer {lr.layer.canonical_layer_name}",), 'area', polys(lr.region))
        T = ('[R] Extraction Tech',)
        name = {x.layer.id: x.layer.canonical_layer_name for x in rq.tech.conductors}
        add(T + (f"Skip simplify: {rq.tech.skip_simplify}",))
        add(T + ('Conductors',)); add(T + ('Vias',))
        for x in rq.tech.conductors:
            add(T + ('Conductors', f"{x.layer.id}: {x.layer.canonical_layer_name} (LVS {x.layer.lvs_layer_name}), {round(x.resistance, 3)} mΩ/µm^2"))
        for x in rq.tech.vias:
            add(T + ('Vias', f"{x.layer.id}: {x.layer.canonical_layer_name} (LVS {x.layer.lvs_layer_name}, "
                     f"{name[x.bottom_conductor.id]}↔︎{name[x.top_conductor.id]}), {round(x.resistance, 3)} mΩ/µm^2"))
        for d in rq.devices:
            P = ('Devices', f"{d.device_name}: {d.device_class_name}")
            add(P + ('Params',)); add(P + ('Terminals',))
            for p in d.parameters:
                add(P + ('Params', f"{p.name}: {p.value}"))
            terminals(d.terminals, P + ('Terminals',))
        pins(rq.pins, ('Pins',))
        for r in rq.net_extraction_requests:
            P = ('Network Extraction Request', f"Net {r.net_name}")
            for k in ('Pins', 'Device Terminals', 'Layer Regions'):
                add(P + (k,))
            pins(r.pins, P + ('Pins',))
            terminals(r.device_terminals, P + ('Device Terminals',))
            for lr in r.region_by_layer:
                add(P + ('Layer Regions', f"Layer {lr.layer.canonical_layer_name}"), 'area', polys(lr.region))
        self.compare('[R] Extraction Request', want)

    def result(self, rs):
        want = {}
        for n in rs.networks:
            P = ('Networks', f"Net {n.net_name}")
            for p in (P[:1], P, P + ('Nodes',), P + ('Elements',)):
                want.setdefault(p, ('area', []))
            where = {}
            for x in n.nodes:
                b = where[x.node_id] = (x, place(x))
                p = P + ('Nodes', f"{x.node_name}, port net {x.net_name}, layer {x.layer_name}")
                want[p] = ('each', want.get(p, ('each', []))[1] + [kdb.Polygon(b[1])])
            for e in n.elements:
                (a, ba), (b, bb) = where[e.node_a.node_id], where[e.node_b.node_id]
                ohm = f"{round(e.resistance, 3)} Ω" if e.resistance >= 0.001 else f"{round(e.resistance * 1000.0, 6)} mΩ"
                p = P + ('Elements', f"{a.node_name} ({a.layer_name}) ↔︎ {b.node_name} ({b.layer_name}): {ohm}")
                want[p] = ('arrow', want.get(p, ('arrow', []))[1] + [(ba.center(), bb.center())])
        self.compare('[R] Extraction Result', want)


def place(node):
    """marker of a node: its box, or a square of ten units around its point"""
    l = node.location
    if l.WhichOneof('location') == 'box' if 'location' in l.DESCRIPTOR.oneofs_by_name else l.kind == 3:
        b = l.box
        return kdb.Box(b.lower_left.x, b.lower_left.y, b.upper_right.x, b.upper_right.y)
    x, y = l.point.x, l.point.y
    return kdb.Box(x - 5, y - 5, x + 5, y + 5)


def polys(region):
    return [kdb.Polygon([kdb.Point(p.x, p.y) for p in g.hull_points]) for g in region.polygons]


def arrows(got, want):
    """every line from node to node is shown by a slim polygon that ends at both"""
    left = list(got)
    for a, b in sorted(want, key=lambda x: x[0] == x[1]):
        for g in left:
            bb = g.bbox()
            if a == b and g.area() == 0:         # nodes above each other: nothing to be seen
                left.remove(g)
                break
            box = kdb.Box(a, b)
            if all(abs(p - q) <= 4 for p, q in zip((bb.left, bb.bottom, bb.right, bb.top), (box.left, box.bottom, box.right, box.top))) and \
               (a == b or min(seg(g, a), seg(g, b)) >= 0):
                left.remove(g)
                break
        else:
            return False
    return not left


def seg(poly, p):
    """>= 0 if the point is within 4 units of the polygon"""
    probe = kdb.Region(kdb.Box(p.x - 4, p.y - 4, p.x + 4, p.y + 4))
    return 0 if not (probe & kdb.Region(poly)).is_empty() else -1


def regions(path, pdk, black):
    """{canonical layer: {net: region}} of the database, read without the code under test"""
    want, ref = c22.expected(path)
    comp, lay = c22.tech(pdk)
    canon = {}
    for name, (drw, pin, lab) in lay.items():
        canon.setdefault(drw, []).append(name)
    out = {}
    for name, nets in want.items():
        if name not in comp or comp[name][1] == 'KIND_LABEL' or (black and comp[name][1] in c22.DEVICE_KINDS):
            continue
        for k in canon.get(comp[name][0], []) + [comp[name][2]]:
            d = out.setdefault(k, {})
            for n, r in nets.items():
                d[n] = (d.get(n, kdb.Region()) + r).merged()
    return out


NAMES = ['A', 'a', 'VDD', 'VDD,VPWR', 'net.1', '$3', 'x[0]', 'in<1>', 'clk/d', 'B', 'out_n', '\\$4']


def direct(c):
    global DBU
    """requests and results as messages: everything a reporter may be given, not only what the extractor makes of a layout"""
    from klayout_pex.rcx25.extraction_reporter import ExtractionReporter
    import klayout_pex_protobuf.kpex.request.pex_request_pb2 as rq_pb2
    import klayout_pex_protobuf.kpex.result.pex_result_pb2 as rs_pb2
    rng = c.rng
    rq, rs = rq_pb2.RExtractionRequest(), rs_pb2.RExtractionResult()
    names = rng.sample(NAMES, 8)
    layers = rng.sample(['met1', 'met2', 'li1', 'poly', 'via', 'mcon', 'nwell', 'met4'], 7)
    conductors, vias = layers[:4], layers[4:]

    def ohm():
        return rng.choice([0.0, 1e-9, 0.00012345, 0.0004, 0.00099, 0.001, 0.0011, 0.5, 12.8, 3.14159265, 361000.0, 5e7,
                           rng.uniform(0, 0.002), 10 ** rng.uniform(-7, 7)])

    def layer(ref, name):
        ref.id = 1 + layers.index(name)
        ref.canonical_layer_name = name
        ref.lvs_layer_name = name + '_con'

    def point(p):
        p.x, p.y = rng.randrange(-9000, 9000), rng.randrange(-9000, 9000)
        if rng.random() < 0.3:
            p.net = rng.choice(names)

    def box(b):
        w, h = rng.randrange(2, 900), rng.randrange(2, 900)
        b.lower_left.x, b.lower_left.y = rng.randrange(-9000, 9000), rng.randrange(-9000, 9000)
        b.upper_right.x, b.upper_right.y = b.lower_left.x + w, b.lower_left.y + h
        if rng.random() < 0.3:
            b.net = rng.choice(names)

    def region(out):
        for _ in range(rng.randrange(1, 4)):
            p = out.polygons.add()
            x, y, w, h = (rng.randrange(-9000, 9000), rng.randrange(-9000, 9000), rng.randrange(20, 900), rng.randrange(20, 900))
            hull = [(x, y), (x, y + h), (x + w, y + h), (x + w, y)]
            if rng.random() < 0.4:
                hull = hull[:2] + [(x + w // 2, y + h), (x + w // 2, y + h // 2), (x + w, y + h // 2), (x + w, y)]
            for u, v in hull:
                q = p.hull_points.add()
                q.x, q.y = u, v
            if rng.random() < 0.3:
                p.net = rng.choice(names)

    def by_layer(out, pool):
        for n in rng.sample(pool, rng.randrange(0, 3)):
            lr = out.add()
            layer(lr.layer, n)
            region(lr.region)

    def pin(out):
        p = out.add()
        p.label, p.net_name = rng.choice(names), rng.choice(names)
        layer(p.layer, rng.choice(conductors))
        point(p.label_point)

    def terminal(out, i):
        t = out.add()
        t.terminal_id, t.name, t.net_name = i, 'SGDB'[i], rng.choice(names)
        by_layer(t.region_by_layer, layers)

    rq.tech.skip_simplify = rng.random() < 0.5
    for n in conductors:
        x = rq.tech.conductors.add()
        layer(x.layer, n)
        x.resistance = ohm()
    for n in vias:
        x = rq.tech.vias.add()
        layer(x.layer, n)
        layer(x.bottom_conductor, rng.choice(conductors))
        layer(x.top_conductor, rng.choice(conductors))
        x.resistance = ohm()
    for i in range(rng.randrange(4)):
        d = rq.devices.add()
        d.id, d.device_name, d.device_class_name = i + 1, f"${i + 1}" if rng.random() < 0.7 else f"X{i}", rng.choice(['NFET', 'pfet_01v8', 'RES', 'CAP'])
        for k, n in enumerate(rng.sample(['L', 'W', 'AS', 'R', 'C'], rng.randrange(4))):
            p = d.parameters.add()
            p.id, p.name, p.value = k, n, ohm()
        for k in range(rng.randrange(5)):
            terminal(d.terminals, k)
    for _ in range(rng.randrange(5)):
        pin(rq.pins)
    for n in rng.sample(names, rng.randrange(4)):
        r = rq.net_extraction_requests.add()
        r.net_name = n
        for _ in range(rng.randrange(3)):
            pin(r.pins)
        for k in range(rng.randrange(4)):
            terminal(r.device_terminals, k)
        by_layer(r.region_by_layer, layers)
    for n in rng.sample(names, rng.randrange(4)):
        w = rs.networks.add()
        w.net_name = n
        ids = rng.sample(range(0, 40), rng.randrange(1, 8))
        for i in ids:
            x = w.nodes.add()
            x.node_id, x.node_name, x.layer_name, x.net_name = i, rng.choice([f"{n}.{i}", rng.choice(names), 'via']), rng.choice(layers), rng.choice([n, f"{n}.{i}"])
            x.location.kind = rng.choice([1, 3])
            (point if x.location.kind == 1 else box)(getattr(x.location, 'point' if x.location.kind == 1 else 'box'))
        for k in range(rng.randrange(0, 12)):
            e = w.elements.add()
            e.element_id, e.node_a.node_id, e.node_b.node_id, e.resistance = k, rng.choice(ids), rng.choice(ids), ohm()
    q, s = type(rq)(), type(rs)()
    q.CopyFrom(rq)
    s.CopyFrom(rs)
    cell = rng.choice(['TOP', 'a.b', 'Cell$1'])
    DBU = rng.choice([0.001] * 5 + [0.0005, 0.002, 0.005])
    er = ExtractionReporter(cell_name=cell, dbu=DBU)
    er.output_rex_request(request=q)
    er.output_rex_result(result=s)
    path = os.path.join(c.dir, 'report.rdb.gz')
    er.save(path)
    what = 'messages'
    try:
        rp = Report(c, path, {}, None, 0, True, what)
        c.expect([x.name() for x in rp.db.each_cell()] == [cell], 'cell', f"{what}: the report is about another cell than {cell}")
        c.expect(q == rq and s == rs, 'input', 'the messages were changed')
        if rq.ByteSize():
            rp.request(rq)
        rp.result(rs)
        c.saw(['m', len(rq.devices), len(rq.pins), len(rs.networks), sum(len(n.elements) for n in rs.networks)])
    except Bad as e:
        c.violate('unreadable', f"{what}: {e}")
    c.count('reports of messages')


def case(c):
    global DBU
    from klayout_pex.rcx25.r.r_extractor import RExtractor
    if c.idx % 4 == 3:
        return direct(c)
    rng = c.rng
    pdk, L, nmos, ncap, pins, zoo = c05.layout(c)
    DBU = L.dbu
    if DBU != 0.001:
        c.count('layouts with a database unit other than 1 nm')
    mode = rng.choice(['CC', 'CC', 'RC', 'R'])
    black = rng.choice([None, True, False])
    top = rng.choice(['TOP', 'my_cell', 'Cell$1', 'a.b'])
    ly = L.to_kdb(top=top, pins=pins)
    import kvlvs
    lvs = kvlvs.extract(ly, top, pdk, devices=nmos > 0, capdev=ncap > 0, zoo=zoo)
    path = os.path.join(c.dir, 'in.lvsdb.gz')
    lvs.write(path)
    chk = kdb.LayoutVsSchematic()
    chk.read(path)
    chk.netlist().flatten()
    ci = chk.netlist().circuit_by_name(top)
    nn = [n.expanded_name() for n in ci.each_net()] if ci else []
    if not nn or len(set(nn)) != len(nn):
        c.count('cases skipped: no circuit, or two nets of one name')
        return
    halo = rng.choice([None, None, 2.0, 20.0]) if mode != 'R' else None
    scale = rng.choice([None, True, False])
    debug = mode != 'R' and len(L.shapes) < 7 and rng.random() < 0.5
    asked = []
    orig = RExtractor.prepare_request

    def spy(self, *a, **k):
        rq = orig(self, *a, **k)
        q = type(rq)()
        q.CopyFrom(rq)
        asked.append(q)
        return rq
    RExtractor.prepare_request = spy
    tp = kvflow.altered_tech(rng, pdk, os.path.join(c.dir, 'tech.json')) if rng.random() < 0.25 else None
    c.count('layouts under another technology', bool(tp))
    try:
        with kvflow.technology(tp):
            r, res = kvflow.extract25_file(path, pdk, c.dir, halo=halo, scale=scale, mode=mode, blackbox=black, log='debug' if debug else 'error')
    finally:
        RExtractor.prepare_request = orig
    if res is None:
        c.violate('crash' if r.exc is None else kvcore.crash_key(r.exc), f"{mode} extraction of a valid layout failed: {r.exc!r}\n{r.out[-800:]}")
        return
    out = [os.path.join(b, f) for b, _, fs in os.walk(os.path.join(c.dir, 'out')) for f in fs if f.endswith('_k25d_pex_report.rdb.gz')]
    if len(out) != 1:
        c.violate('missing-report', f"{len(out)} reports were written")
        return
    what = f"{pdk} {mode} blackbox {black} halo {halo} scale {scale}"
    tech = kvref.Tech(tp or kvflow.tech_json(pdk))
    try:
        rp = Report(c, out[0], regions(path, pdk, bool(black)), tech, tech.halo if halo is None else halo,
                    True if scale is None else scale, what)
        cells = [x.name() for x in rp.db.each_cell()]
        c.expect(cells == [top], 'cell', f"{what}: the report is about the cells {cells}, not {top}")
        rp.overlaps()
        rp.sidewalls()
        rp.fringes()
        rp.neighbourhoods()
        for kind, table in (('overlaps', res.overlap_table), ('sidewalls', res.sidewall_table), ('fringes', res.sideoverlap_table)):
            n = sum(len(v) for v in table.values())
            c.expect(rp.seen[kind] == n or c.violations, 'entries', f"{what}: {rp.seen[kind]} {kind} in the report, {n} extracted")
        if debug:
            c.count('runs with edge neighbourhoods')
        if mode == 'CC':
            c.expect(not asked and '[R] Extraction Result' not in rp.top, 'entries', f"{what}: resistances in the report")
        else:
            if len(asked) != 1:
                c.violate('request', f"{what}: {len(asked)} resistance extractions")
                return
            rp.request(asked[0])
            rp.result(res.r_extraction_result)
    except (Bad, AttributeError, ValueError, KeyError) as e:
        import traceback
        if isinstance(e, Bad):
            c.violate('unreadable', f"{what}: {e}")
        else:
            raise
    c.count(f"runs in {mode} mode")


def main():
    ck = kvcore.Check('C24', 'random layouts with transistors, MIM capacitors and other devices, pins and oddly named nets through kpex '
                      '--2.5D, and random R requests and results as messages; every entry of the report database compared with the geometry of the LVS database and the technology; '
                      'an evaluation is one report entry; distinct by layers and geometry',
                      required=['overlaps located', 'sidewalls located', 'fringes located', 'lateral shields located',
                                'neighbourhood edges located', 'neighbours located', 'entries of R requests and results',
                                'runs in CC mode', 'runs in RC mode', 'runs in R mode', 'runs with edge neighbourhoods', 'neighbourhoods compared', 'fringes without shield', 'reports of messages'],
                      assumptions=['shapes without area (line-like ports, resistors between nodes above each other) need not be visible'])
    ck.run(case, 1200, 6000)
    ck.finish()
