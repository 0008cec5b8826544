"""C23: summarizing an extraction takes every contribution exactly once into its unordered net pair."""
import random, math
import kvcore

POOL = ['VDD', 'vdd', 'Vdd', 'VSS', 'A', 'a', 'B', 'AB', 'BA', 'a-b', 'a.b', 'b', '$1', '$10', '$2', '$1.$0.4', 'VSUBS', 'net 1', 'net', '1', 'é',
        'ß', 'ss', 'SS', 'İ', 'i̇', 'x[1]', 'x[10]', 'x<1>', 'A,B', 'C;D', '', ' ', 'Z', '_', '~', 'O', '0']
LAYERS = ['li1', 'met1', 'met2', 'met3', 'capm', 'VSUBS', 'poly']


def near(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-15


def contributions(rng, names):
    """a history of contributions as plain tuples"""
    out = []
    n = rng.choice([0, 1, 2, 5, 20, 60])
    lo, hi = rng.choice([(0, 0)] * 3 + [(-6, 12), (5, 9), (9, 13)])      # resistors, from a via to an open circuit
    for _ in range(n):
        a, b = rng.choice(names), rng.choice(names)
        kind = rng.choice(['overlap', 'sidewall', 'fringe', 'res', 'res'])
        v = rng.choice([rng.random() * 10 ** rng.randint(-9, 3), rng.randint(1, 9), 0.0 if rng.random() < 0.3 else 1.0])
        if kind == 'res' and lo < hi:
            v = 10 ** rng.uniform(lo, hi)
        out.append((kind, rng.choice(LAYERS), a, rng.choice(LAYERS), b, v))
    for k in range(len(out)):        # repeat and mirror some, so that pairs collide in both orientations
        if rng.random() < 0.5:
            kind, l1, a, l2, b, v = rng.choice(out)
            v *= rng.uniform(0.5, 2)
            if rng.random() < 0.5:
                l1, a, l2, b = l2, b, l1, a
            out.append((rng.choice([kind, kind, 'sidewall']), l1, a, l2, b, (v if kind == 'res' and lo < hi else rng.random() * 5) + 1e-6))
    return out


def build(rng, contribs, cell, networks):
    from klayout_pex.rcx25.extraction_results import (CellExtractionResults, SidewallKey, SidewallCap, OverlapKey, OverlapCap,
                                                      SideOverlapKey, SideOverlapCap)
    res = CellExtractionResults(cell)
    nets = [res.r_extraction_result.networks.add() for _ in range(networks)]
    nodes = [dict() for _ in nets]
    for i, n in enumerate(nets):
        n.net_name = f"w{i}"
    def node(k, name):
        # several nodes may carry one net name (ports of one net), ids are per network
        ids = nodes[k].setdefault(name, [])
        if ids and rng.random() < 0.6:
            return rng.choice(ids)
        nn = nets[k].nodes.add()
        nn.node_id = len(nets[k].nodes) * step + (k if step == 3 else 0)
        nn.node_name = f"{name}.{nn.node_id}"
        nn.net_name = name
        ids.append(nn.node_id)
        return nn.node_id
    el = 0
    step = rng.choice([1, 3])          # node ids of different networks may be the same
    for kind, l1, a, l2, b, v in contribs:
        if kind == 'overlap':
            k = OverlapKey(l1, a, l2, b)
            res.add_overlap_cap(OverlapCap(k, v, 0.0, 1.0, None))
        elif kind == 'sidewall':
            k = SidewallKey(l1, a, b)
            res.add_sidewall_cap(SidewallCap(k, v, 1.0, 1.0, None))
        elif kind == 'fringe':
            k = SideOverlapKey(l1, a, l2, b)
            res.add_sideoverlap_cap(SideOverlapCap(k, v))
        else:
            k = rng.randrange(networks)
            e = nets[k].elements.add()
            el += 1
            e.element_id = el
            e.node_a.node_id = node(k, a)
            e.node_b.node_id = node(k, b)
            e.resistance = v
    return res


def model(contribs):
    caps, ress = {}, {}
    for kind, _, a, _, b, v in contribs:
        (ress if kind == 'res' else caps).setdefault(frozenset((a, b)), []).append(v)
    caps = {k: math.fsum(v) for k, v in caps.items()}
    ress = {k: (0.0 if min(v) == 0 else 1.0 / math.fsum(1.0 / x for x in v)) for k, v in ress.items()}
    return caps, ress


def compare(c, s, want, what):
    ok = True
    for nm, got, w in (('capacitance', s.capacitances, want[0]), ('resistance', s.resistances, want[1])):
        seen = {}
        for k, v in list(got.items()):
            p = frozenset((k.net1, k.net2))
            if p in seen:
                c.violate('pair-twice', f"{what}: {nm} of {sorted(p)} under two keys")
                ok = False
            seen[p] = v
        for p in set(seen) | set(w):
            c.count('pairs compared')
            if p not in seen:
                c.violate('dropped', f"{what}: {nm} of {sorted(p)} = {w[p]!r} is missing")
                ok = False
            elif p not in w:
                c.violate('attributed', f"{what}: {nm} {seen[p]!r} of {sorted(p)} came from nowhere")
                ok = False
            elif not near(seen[p], w[p]):
                c.violate('value', f"{what}: {nm} of {sorted(p)} is {seen[p]!r}, contributions give {w[p]!r}")
                ok = False
            else:
                c.saw([nm, sorted(p), '%.9g' % w[p]])
        # orientation is part of the key: one orientation per pair, whatever the kind of contribution
    for p in {(k.net1, k.net2) for k in s.capacitances} & {(k.net2, k.net1) for k in s.resistances}:
        if p[0] != p[1]:
            c.violate('orientation', f"{what}: {p} is written both ways round")
    return ok


def case(c):
    from klayout_pex.rcx25.extraction_results import ExtractionResults, ExtractionSummary
    rng = c.rng
    names = rng.sample(POOL, rng.choice([1, 2, 3, 6, len(POOL)]))
    contribs = contributions(rng, names)
    want = model(contribs)
    res = build(rng, contribs, 'TOP', rng.randint(1, 3))
    s = res.summarize()
    if not compare(c, s, want, 'one cell'):
        return
    # a second look, and another order of the same history
    if not compare(c, res.summarize(), want, 'second summary'):
        return
    sh = contribs[:]
    rng.shuffle(sh)
    sh = [(k, l2, b, l1, a, v) if rng.random() < 0.5 else (k, l1, a, l2, b, v) for k, l1, a, l2, b, v in sh]
    s2 = build(rng, sh, 'TOP', rng.randint(1, 3)).summarize()
    if not compare(c, s2, want, 'shuffled and flipped history'):
        return
    c.count('histories shuffled')
    if sorted((k.net1, k.net2) for k in s.capacitances) != sorted((k.net1, k.net2) for k in s2.capacitances):
        c.violate('orientation', "the orientation of a pair depends on the order of contributions")
    # split over several cells: summaries of the parts merge to that of the union
    n = rng.randint(1, 4)
    part = [[] for _ in range(n)]
    for x in contribs:
        part[rng.randrange(n)].append(x)
    er = ExtractionResults()
    cells = rng.choice([['c0', 'c1', 'c2', 'c3'], ['inv', 'INV', 'Inv', 'inv$1'], ['a', 'a ', '', 'a.b']])
    for i, p in enumerate(part):
        er.cell_extraction_results[cells[i]] = build(rng, p, cells[i], 1)
    if not compare(c, er.summarize(), want, f"{n} cells"):
        return
    parts = [x.summarize() for x in er.cell_extraction_results.values()]
    rng.shuffle(parts)
    m = ExtractionSummary.merged(parts)
    if not compare(c, m, want, 'merged summaries'):
        return
    k = rng.randint(0, len(parts))
    m2 = ExtractionSummary.merged([ExtractionSummary.merged(parts[:k]), ExtractionSummary.merged(parts[k:])])
    if not compare(c, m2, want, 'merged in two steps'):
        return
    # merging must not write into what it merges
    for x, p in zip([er.cell_extraction_results[cells[i]].summarize() for i in range(n)], part):
        if not compare(c, x, model(p), 'part after merging'):
            return
    c.count('unions compared', 3)
    # tables sort without failing, as the writers do
    try:
        sorted(s.capacitances.items())
        sorted(s.resistances.items())
    except Exception as e:
        c.violate(kvcore.crash_key(e), f"sorting the summary failed: {e!r}")
    c.sample = dict(contributions=contribs[:3], pairs=len(want[0]) + len(want[1]))


def main():
    ck = kvcore.Check('C23', 'random histories of overlap, sidewall, fringe and resistance contributions over few, colliding net '
                      'names; an evaluation is one net pair of a summary compared with its contributions; distinct by pair and value',
                      required=['pairs compared', 'histories shuffled', 'unions compared'])
    ck.run(case, 15000, 200000)
    ck.finish()
