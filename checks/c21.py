"""C21: geometry survives the protobuf conversion unchanged."""
import math
import klayout.db as kdb
import kvcore

NETS = ['', 'A', 'VDD', '$1', 'x[3]', 'net 7', 'é', '"q"', 'a;b', 'n' * 200, '\U0001f600', 'a\nb', '1.5', '7']
BIG = 2 ** 31 - 1


def coord(rng, kind):
    if kind == 'big':
        return rng.choice([rng.randint(-BIG // 4, BIG // 4), rng.randint(-10, 10), BIG // 4, -BIG // 4])
    if kind == 'neg':
        return rng.randint(-5000, -1)
    return rng.randint(-3000, 3000)


def polygon(rng):
    kind = rng.choice(['small', 'small', 'neg', 'big'])
    how = rng.choice(['box', 'manhattan', 'manhattan', 'any', 'ring', 'holes', 'holes', 'island'])
    s = 1000 if kind != 'big' else 10 ** 8
    x, y = coord(rng, kind), coord(rng, kind)
    if how == 'box':
        return kdb.Polygon(kdb.Box(x, y, x + rng.randint(1, s), y + rng.randint(1, s)))
    if how == 'any':
        n = rng.randint(3, 12)
        pts = []
        for i in range(n):
            a = 2 * math.pi * i / n
            r = rng.randint(s // 10, s)
            pts.append(kdb.Point(x + int(r * math.cos(a)), y + int(r * math.sin(a))))
        return kdb.Polygon(pts)
    r = kdb.Region()
    for _ in range(rng.randint(1, 5)):
        a, b = x + rng.randint(0, s), y + rng.randint(0, s)
        r.insert(kdb.Box(a, b, a + rng.randint(s // 4, s), b + rng.randint(s // 4, s)))
    if how in ('ring', 'holes', 'island'):
        r.insert(kdb.Box(x, y, x + 3 * s, y + 3 * s))
        cut = kdb.Region()
        for _ in range(1 if how == 'ring' else rng.randint(1, 6)):
            a, b = x + rng.randint(1, 2 * s), y + rng.randint(1, 2 * s)
            cut.insert(kdb.Box(a, b, a + rng.randint(1, s - 1), b + rng.randint(1, s - 1)))
        r -= cut
    r.merge()
    ps = sorted(r.each(), key=lambda p: -p.area())
    return ps[0]


def key(p):
    return sorted(str(q) for q in kdb.Region(p).merged().each())


def has_holes(p):
    return p.holes() > 0


def case(c):
    from klayout_pex.klayout.shapes_pb2_converter import ShapesConverter
    import klayout_pex_protobuf.kpex.geometry.shapes_pb2 as pb
    rng = c.rng
    conv = ShapesConverter(dbu=rng.choice([0.001, 0.005, 0.0001, 1.0]))
    # --- points
    for _ in range(4):
        k = rng.choice(['small', 'neg', 'big'])
        p = kdb.Point(coord(rng, k), coord(rng, k))
        m = pb.Point()
        conv.klayout_point_to_pb(p, m)
        m2 = pb.Point()
        m2.ParseFromString(m.SerializeToString())
        c.count('points')
        c.expect(conv.klayout_point(m2) == p and (m2.x, m2.y) == (p.x, p.y), 'point', f"{p} became {conv.klayout_point(m2)}")
    # --- boxes (only read)
    for _ in range(2):
        k = rng.choice(['small', 'neg', 'big'])
        a, b = coord(rng, k), coord(rng, k)
        box = kdb.Box(a, b, a + rng.randint(0, 10000), b + rng.randint(0, 10000))
        m = pb.Box()
        m.lower_left.x, m.lower_left.y, m.upper_right.x, m.upper_right.y = box.left, box.bottom, box.right, box.top
        m.net = rng.choice(NETS)
        g = conv.klayout_box(m)
        c.count('boxes')
        c.expect((g.left, g.bottom, g.right, g.top) == (box.left, box.bottom, box.right, box.top), 'box', f"{box} became {g}")
        c.expect(getattr(g, 'property', lambda k: None)('net') == (m.net or None), 'box-net', f"net {m.net!r} of a box, got {g}")
    # --- polygons
    pgs = []
    for _ in range(rng.randint(1, 5)):
        p, net = polygon(rng), rng.choice(NETS)
        src = kdb.PolygonWithProperties(p, {'net': net} if net else {})
        before = str(src)
        m = pb.Polygon()
        conv.klayout_polygon_to_pb(src, m)
        c.expect(str(src) == before, 'source-modified', f"converting modified {before}")
        m2 = pb.Polygon()
        m2.ParseFromString(m.SerializeToString())
        g = conv.klayout_polygon(m2)
        c.count('polygons')
        c.count('polygons with holes', 1 if has_holes(p) else 0)
        c.expect(m2.net == net, 'net', f"net {net!r} became {m2.net!r}")
        gn = g.property('net') if isinstance(g, kdb.PolygonWithProperties) else None
        c.expect(gn == (net or None), 'net', f"net {net!r} of a polygon became {gn!r}")
        gp = kdb.Polygon([kdb.Point(q.x, q.y) for q in g.each_point_hull()]) if isinstance(g, kdb.PolygonWithProperties) else g
        x = kdb.Region(p) ^ kdb.Region(gp)
        if not c.expect(x.is_empty() and gp.area() == p.area(), 'polygon', f"polygon with {p.holes()} holes, area {p.area()}, became one of area {gp.area()}"
                        f"; {str(p)[:300]} -> {str(gp)[:300]}"):
            return
        if not has_holes(p):
            c.expect(gp == p, 'polygon-points', f"{str(p)[:200]} became {str(gp)[:200]}")
        c.saw([str(p), net])
        pgs.append((p, net))
    # --- a region with nets: same polygons under the same nets
    r = kdb.Region()
    r.enable_properties()
    for p, net in pgs:
        r.insert(kdb.PolygonWithProperties(p, {'net': net} if net else {}))
    m = pb.Region()
    conv.klayout_region_to_pb(r, m)
    m2 = pb.Region()
    m2.ParseFromString(m.SerializeToString())
    c.expect(len(m2.polygons) == len(pgs), 'region-count', f"{len(pgs)} polygons became {len(m2.polygons)}")
    g = conv.klayout_region(m2)
    c.count('regions')
    def by_net(region):
        out = {}
        for q in region.each():
            n = q.property('net') or ''
            out.setdefault(n, kdb.Region()).insert(kdb.Polygon([kdb.Point(t.x, t.y) for t in q.each_point_hull()]) if q.holes() == 0 else
                                                   _plain(q))
        return out
    a, b = by_net(r), by_net(g)
    if c.expect(set(a) == set(b), 'region-nets', f"nets {sorted(a)} became {sorted(b)}"):
        for n in a:
            c.expect((a[n] ^ b[n]).is_empty(), 'region', f"shapes of net {n!r} changed: {a[n].merged().area()} -> {b[n].merged().area()}")
    c.sample = dict(polygon=str(pgs[0][0])[:200], net=pgs[0][1])


def _plain(q):
    p = kdb.Polygon([kdb.Point(t.x, t.y) for t in q.each_point_hull()])
    for h in range(q.holes()):
        p.insert_hole([kdb.Point(t.x, t.y) for t in q.each_point_hole(h)])
    return p


def main():
    ck = kvcore.Check('C21', 'random points, boxes, polygons (Manhattan, any-angle, rings, several holes, negative and large coordinates) and regions '
                      'with awkward net names, through serialized protobuf and back; an evaluation is one polygon; distinct by geometry and net',
                      required=['points', 'boxes', 'polygons', 'polygons with holes', 'regions'],
                      assumptions=['holes may come back connected to the hull by a cut line (the protobuf polygon has none); geometry is '
                                   'compared as covered area'])
    ck.run(case, 10000, 150000)
    ck.finish()
