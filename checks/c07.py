"""C07: resistor network operations keep the effective resistance between the nodes that remain."""
import random, math, re
import klayout.db as kdb
import numpy as np
import kvcore


def snapshot(nw):
    """{(a, b): conductance} of the network, both directions checked against each other"""
    out = {}
    for (a, b), g in nw.s.items():
        out[frozenset((a, b))] = g.cond
    return out


class Ref:
    """the electrical network by its own bookkeeping: an edge list, eliminated nodes stay in it"""

    def __init__(self):
        self.edges = []
        self.alias = {}

    def f(self, x):
        while self.alias.get(x, x) != x:
            x = self.alias[x]
        return x

    def laplacian(self, edges):
        ids = sorted({self.f(x) for e in edges for x in e[:2]})
        ix = {k: i for i, k in enumerate(ids)}
        G = np.zeros((len(ids), len(ids)))
        for a, b, g in edges:
            a, b = ix[self.f(a)], ix[self.f(b)]
            if a != b:
                G[a, a] += g; G[b, b] += g; G[a, b] -= g; G[b, a] -= g
        return ids, ix, G


def reff(edges, f, pairs):
    """effective resistances; inf across components"""
    par = {}
    def r(x):
        par.setdefault(x, x)
        while par[x] != x:
            x = par[x]
        return x
    for a, b, g in edges:
        if g > 0:
            par[r(f(a))] = r(f(b))
    groups = {}
    for x in list(par):
        groups.setdefault(r(x), []).append(x)
    inv = {}
    for root, xs in groups.items():
        xs = sorted(xs)
        ix = {k: i for i, k in enumerate(xs)}
        G = np.zeros((len(xs), len(xs)))
        for a, b, g in edges:
            a, b = f(a), f(b)
            if a in ix and b in ix and a != b:
                i, j = ix[a], ix[b]
                G[i, i] += g; G[j, j] += g; G[i, j] -= g; G[j, i] -= g
        inv[root] = (ix, np.linalg.pinv(G, hermitian=True, rcond=1e-15) if len(xs) > 1 else None)
    out = {}
    for a, b in pairs:
        a2, b2 = f(a), f(b)
        if a2 == b2:
            out[(a, b)] = 0.0
        elif a2 not in par or b2 not in par or r(a2) != r(b2):
            out[(a, b)] = math.inf
        else:
            ix, P = inv[r(a2)]
            i, j = ix[a2], ix[b2]
            out[(a, b)] = P[i, i] + P[j, j] - 2 * P[i, j]
    return out


def network(c):
    from klayout_pex.rcx25.r.resistor_network import ResistorNetwork
    from klayout_pex.rcx25.r.conductance import Conductance
    rng = c.rng
    nw = ResistorNetwork()
    n = rng.choice([2, 3, 4, 6, 10, 18])
    hub = rng.random() < 0.05           # a node with very many neighbours (a plane with many ports)
    if hub:
        n = rng.choice([24, 24, 40, 40, 40, 56, 70])
    pts = rng.sample([kdb.Point(x, y) for x in range(-6, 7) for y in range(-6, 7)], n)
    ids = [nw.node_id(p) for p in pts]
    c.expect(len(set(ids)) == n, 'node-id', 'two points share a node id')
    for p, i in zip(pts, ids):
        if nw.node_id(p) != i or nw.location(i) != p or not nw.has_node(p):
            c.violate('node-id', f"node of {p} is {nw.node_id(p)}, was {i}; location {nw.location(i)}")
            return
    scale = 10.0 ** rng.randint(-9 if n <= 4 else -7, 3)      # (conductances under 1e-10 S count as none)
    spread = rng.choice([0, 1, 2] if scale > 1e-5 else [0, 1] if scale > 1e-8 else [0])
    if n > 40:
        spread = min(spread, 1)         # (the reference solves with doubles)
    edges = []
    alias = {}
    def f(x):
        while alias.get(x, x) != x:
            x = alias[x]
        return x
    def add(a, b):
        g = scale * 10 ** (rng.uniform(-spread, spread))
        edges.append((a, b, g))
        if rng.random() < 0.5:
            a, b = b, a
        nw.add_cond(a, b, Conductance(g))
    dens = rng.choice([0.8, 1.2, 2.0, 3.5])
    groups = 2 if rng.random() < 0.3 else 1
    for _ in range(max(1, int(n * dens))):
        a, b = rng.sample(ids, 2)
        if groups == 2 and (ids.index(a) % 2 != ids.index(b) % 2):
            continue
        add(a, b)
        if rng.random() < 0.2:
            add(a, b)
    if hub:
        for b in ids[1:]:
            add(ids[0], b)
        c.count('networks with a hub')
    precious = rng.sample(ids[1:] if hub else ids, rng.randint(0, n - 1 if hub else n) if n < 60 or rng.random() < 0.4 else n - rng.randint(1, 4))
    for p in precious:
        nw.mark_precious(p)
        if rng.random() < 0.3:
            nw.name(p, f"P{p}")
    alive = list(ids)

    def compare(what, nodes):
        pairs = [(a, b) for i, a in enumerate(nodes) for b in nodes[i + 1:]]
        if len(pairs) > 40:
            pairs = rng.sample(pairs, 40)
        want = reff(edges, f, pairs)
        now = [(*sorted(k), g) for k, g in snapshot(nw).items() if len(k) == 2]
        for (a, b, g) in now:
            if not (g > 0 and math.isfinite(g)):
                c.violate('bad-conductance', f"{what}: conductance {g!r} between {a} and {b}")
                return False
        got = reff(now, lambda x: x, [(f(a), f(b)) for a, b in pairs])
        for (a, b) in pairs:
            w, g = want[(a, b)], got[(f(a), f(b))]
            c.count('resistances compared')
            if (math.isinf(w) != math.isinf(g)) or (math.isfinite(w) and abs(w - g) > (1e-6 if n <= 40 else 1e-5) * max(w, 1e-9 / scale)):
                c.violate('effective-resistance', f"{what}: resistance between {a} and {b} is {g!r}, was {w!r} "
                          f"({len(edges)} resistors, {n} nodes)")
                return False
            if math.isfinite(w) and w > 0:
                c.saw([what, '%.9g' % w])
        for (a, b) in list(nw.s):
            if (b, a) not in nw.s or nw.s[(a, b)].cond != nw.s[(b, a)].cond:
                c.violate('tables', f"{what}: {a},{b} differs from {b},{a}")
                return False
        for a, star in nw.node_to_s.items():
            if sorted(o for _, o in star) != sorted(b for (x, b) in nw.s if x == a) or \
                    any(g.cond != nw.s[(a, o)].cond for g, o in star):
                c.violate('tables', f"{what}: star of node {a} does not match the resistor table")
                return False
        if nw.check() != 0:
            c.violate('self-check', f"{what}: the network's own check reports errors")
            return False
        return True

    if not compare('built', alive):
        return
    for step in range(rng.randint(1, 6)):
        op = rng.random()
        if op < 0.45 and len(alive) > 2:
            x = rng.choice(alive)
            nw.eliminate_node(x)
            if nw.location(x) is None:
                alive.remove(x)
            elif any(x in e for e in nw.s):
                c.violate('not-eliminated', f"node {x} still has resistors")
                return
            else:
                alive.remove(x)      # had no resistors
            c.count('nodes eliminated')
            what = 'eliminate_node'
        elif op < 0.65 and len(alive) > 2:
            a, b = rng.sample(alive, 2)
            had = b in nw.node_to_s
            nw.connect_nodes(a, b)
            if had:
                alias[b] = a
                if b in nw.node_to_s or nw.location(b) is not None:
                    c.violate('not-joined', f"node {b} is still there after joining it to {a}")
                    return
            alive.remove(b)
            c.count('nodes joined')
            what = 'connect_nodes'
        elif op < 0.85 and len(alive) >= 2:
            a, b = rng.sample(alive, 2)
            add(a, b)
            what = 'add_cond'
        else:
            break
        if not compare(what, alive):
            return
    nw.eliminate_all()
    c.count('networks eliminated')
    left = [x for x in alive if x in precious]
    for x in left:
        if nw.location(x) is None:
            c.violate('precious', f"precious node {x} is gone")
            return
    other = [x for x in nw.node_to_s if x not in nw.precious]
    if other:
        c.violate('not-eliminated', f"nodes {other} are left after eliminate_all")
        return
    if not compare('eliminate_all', left):
        return
    # what is printed is what is stored
    txt = nw.to_string(True).split('Resistors:')[1].strip().splitlines()
    back = {nw.node_names.get(x, str(x)): x for x in nw.locations}
    seen = {}
    for l in txt:
        m = re.match(r'\s*(\S+),(\S+): (\S+)$', l)
        seen[frozenset((back[m.group(1)], back[m.group(2)]))] = float(m.group(3))
    want = snapshot(nw)
    if set(seen) != set(want) or any(abs(seen[k] * want[k] - 1) > 1e-5 for k in seen):
        c.violate('printed', f"printed resistors {seen} are not those stored {want}")
        return
    c.sample = dict(nodes=n, resistors=len(edges), left=len(left))


def triangles(c):
    from klayout_pex.rcx25.r.resistor_network import ResistorNetwork
    rng = c.rng
    for _ in range(20):
        m = rng.choice([1000, 100000])
        pts = [kdb.Point(rng.randrange(-m, m), rng.randrange(-m, m)) for _ in range(3)]
        if rng.random() < 0.3:           # all but right-angled, by a few units either way
            m = 10 ** rng.randint(3, 7)
            a, b, k = rng.randrange(1, m), rng.randrange(0, m), rng.randint(1, 5)
            near = lambda x, y: kdb.Point(pts[0].x + x + rng.randint(-3, 3), pts[0].y + y + rng.randint(-3, 3))
            pts = rng.sample([pts[0], near(a, b), near(-b * k, a * k)], 3)
            c.count('all but right-angled triangles')
        p = kdb.Polygon(pts)
        if p.num_points() != 3 or p.area() < m:
            continue
        h = list(p.each_point_hull())
        sq = lambda u, v: (u.x - v.x) ** 2 + (u.y - v.y) ** 2
        q = [sq(h[(k + 2) % 3], h[(k + 1) % 3]) for k in range(3)]     # opposite of point k, exactly
        obtuse = [k for k in range(3) if q[k] > (q[(k + 1) % 3] + q[(k + 2) % 3]) * (1 + 1e-9)]
        acute = all(q[k] < (q[(k + 1) % 3] + q[(k + 2) % 3]) * (1 - 1e-9) for k in range(3))
        out = ResistorNetwork.expand_skinny_tris(p)
        c.count('triangles split' if len(out) > 1 else 'triangles kept')
        if acute and len(out) != 1:
            c.violate('split-acute', f"{p} is not obtuse but was split")
            return
        if obtuse and len(out) != 2:
            c.violate('not-split', f"{p} is obtuse but was not split")
            return
        tol = 2 * sum(math.sqrt(x) for x in q) + 4       # the foot point lies on the grid
        r = kdb.Region()
        for t in out:
            r.insert(t)
        area = sum(t.area() for t in out)
        if abs(area - p.area()) > tol or (r ^ kdb.Region(p)).area() > tol or abs(r.merged().area() - area) > tol:
            c.violate('split-area', f"{p} of area {p.area()} became {[str(t) for t in out]} of area {area}, "
                      f"covering {r.merged().area()}")
            return
        for t in out:
            g = list(t.each_point_hull())
            if len(g) != 3:
                continue
            z = [(g[(k + 2) % 3] - g[(k + 1) % 3]).sq_length() for k in range(3)]
            for k in range(3):
                a, b = math.sqrt(z[(k + 1) % 3]), math.sqrt(z[(k + 2) % 3])
                cos = (z[(k + 1) % 3] + z[(k + 2) % 3] - z[k]) / (2 * a * b)
                if cos < -2.0 / min(a, b) - 1e-9:
                    c.violate('still-obtuse', f"{p} was split into {t}, which is obtuse")
                    return
        c.saw(['tri', str(p)])


def elements(c):
    from klayout_pex.rcx25.r.conductance import Conductance
    rng = c.rng
    for _ in range(30):
        a, b = (10 ** rng.uniform(-6, 6) for _ in range(2))
        A, B = Conductance(a), Conductance(b)
        c.count('elements combined')
        p, s = A.parallel(B), A.serial(B)
        if not (kvcore.close(p.cond, a + b) and kvcore.close(s.cond, a * b / (a + b)) and A.cond == a and B.cond == b):
            c.violate('combine', f"{a!r} and {b!r}: parallel {p.cond!r}, serial {s.cond!r}, operands now {A.cond!r} {B.cond!r}")
            return
        if abs(float(A.res()) * a - 1) > 1e-5 or abs(float(str(A)) / a - 1) > 1e-5:
            c.violate('printed', f"conductance {a!r} prints as {A} and {A.res()} ohm")
            return
        if Conductance(0.0).serial(A).cond != 0 or Conductance(0.0).parallel(A).cond != a:
            c.violate('combine', 'combination with an open circuit')
            return
        c.saw(['el', '%.6g' % a, '%.6g' % b])


def case(c):
    if c.idx % 10 == 8:
        triangles(c)
    elif c.idx % 10 == 9:
        elements(c)
    else:
        network(c)


def main():
    ck = kvcore.Check('C07', 'random resistor graphs under random sequences of eliminate_node, connect_nodes, add_cond and '
                      'eliminate_all, effective resistances re-solved after every step; random triangles; an evaluation is one '
                      'finite effective resistance, triangle or combination; distinct by step and value',
                      required=['resistances compared', 'nodes eliminated', 'nodes joined', 'networks eliminated', 'triangles split',
                                'elements combined'],
                      assumptions=['conductances between 1e-6 and 1e5: below 1e-10 the code treats a node as unconnected by design'])
    ck.run(case, 15000, 120000)
    ck.finish()
