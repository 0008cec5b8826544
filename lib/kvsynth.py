"""Random Manhattan layouts with known nets (independent bookkeeping of who is connected to whom)."""
import random, collections
import klayout.db as kdb
import kvlvs



def cased(prefix, named=lambda: True):
    """net names of which every other two differ in case only"""
    return lambda k: None if not named() else f"{prefix.lower()}{k - 1}" if k % 4 == 1 else f"{prefix}{k}"


class Layout:
    """shapes: list of (metal index, rect, net id); nets named; optional vias between layers"""

    def __init__(self, pdk='sky130A', dbu=0.001):
        self.pdk, self.dbu = pdk, dbu
        self.shapes = []      # (metal idx, (x1,y1,x2,y2), object id)
        self.vias = []        # (via idx, rect, object id)
        self.parent = {}
        self.names = {}       # root -> name
        self.labels = []      # (metal idx, (x,y), text)
        self.pins = []        # (metal idx, rect or six points of an L)
        self.extra = []       # (canonical layer or None, gds, rect, object id): MIM plates and their vias

    def find(self, a):
        while self.parent[a] != a:
            a = self.parent[a]
        return a

    def union(self, a, b):
        ra, rb = self.find(a), self.find(b)
        if ra != rb:
            self.parent[rb] = ra

    def new_obj(self):
        o = len(self.parent)
        self.parent[o] = o
        return o

    def rects_by_layer_net(self):
        out = {}
        for m, r, o in self.shapes:
            canon = kvlvs.metals(self.pdk)[m][6]
            out.setdefault(canon, {}).setdefault(self.names[self.find(o)], []).append(r)
        for canon, gds, r, o in self.extra:
            if canon:
                out.setdefault(canon, {}).setdefault(self.names[self.find(o)], []).append(r)
        return out

    def layer_names(self):
        ls = [m[6] for m in kvlvs.metals(self.pdk)]
        for c, _, _, _ in self.extra:
            if c and c not in ls:
                ls.insert(ls.index('met3') + 1, c)
        return ls

    def add_mim(self, rng, x, y):
        """a MIM capacitor (bottom plate met3_cap with a met3 strap, top plate capm contacted from met4)
        placed at x,y, away from everything else on met3/met4"""
        w, h = rng.randrange(2000, 6000, 5), rng.randrange(2000, 6000, 5)
        b, t = self.new_obj(), self.new_obj()
        self.extra.append(('met3', (70, 220), (x, y, x + w, y + h), b))
        self.shapes.append((4, (x - 800, y, x, y + h), b))
        e = rng.randrange(100, 600, 5)
        self.extra.append(('capm', (89, 44), (x + e, y + e, x + w - e, y + h - e), t))
        self.extra.append((None, (70, 244), (x + e + 100, y + e + 100, x + e + 300, y + e + 300), t))
        x2 = x + w - e - 50 if rng.random() < 0.5 else x + e + rng.randrange(400, 700, 5)
        self.shapes.append((5, (x + e + 50, y + e + 50, x2, y + e + rng.randrange(400, 1000, 5)), t))
        return b, t

    def add_mos(self, rng, x, y, fingers=None, diode=False):
        """a row of MOS fingers with contacted sources/drains and gates; diode: the first gate is tied to its source.
        Returns the number of devices"""
        n = fingers or rng.randint(1, 4)
        w = rng.randrange(500, 2000, 10)
        _, _, sd, _, con = rng.choice(kvlvs.DIFF[self.pdk])
        for k in range(n + 1):
            x0 = x + k * 1000
            o = self.new_obj()
            self.extra.append((None, con, (x0 + 340, y + 100, x0 + 500, y + 260), o))
            self.shapes.append((1, (x0 + 300, y + 50, x0 + 550, y + w + 1500 + 500 * k), o))
            if k < n:
                g = x0 + 850
                po = self.new_obj()
                self.shapes.append((0, (g, y - 200, g + 150, y + w + 500), po))
                if diode and k == 0:
                    self.shapes.append((0, (x0 + 300, y + w + 200, g + 150, y + w + 500), po))
                    self.vias.append((0, (x0 + 320, y + w + 250, x0 + 490, y + w + 420), po))
                    self.union(po, o)
        self.extra.append((None, sd, (x, y, x + n * 1000 + 850, y + w), self.new_obj()))
        self.extra.append((None, (122, 16), (x - 500, y - 500, x + n * 1000 + 1500, y + w + 500), self.new_obj()))
        return n

    def add_zoo(self, rng, cls, x, y):
        """a device of kvlvs.ZOO whose terminals go to strips of metal 1, some of them shared"""
        _, rects, terms = kvlvs.ZOO[cls]
        for role, r in rects:
            self.extra.append((None, kvlvs.zoo_gds(cls, role), (x + r[0], y + r[1], x + r[2], y + r[3]), self.new_obj()))
        for k, (t, (role, r)) in enumerate(terms.items()):
            o = self.new_obj()
            q = (x + r[0], y + r[1], x + r[2], y + r[3])
            self.extra.append((None, kvlvs.zoo_gds(cls, role, True), q, o))
            self.shapes.append((1, (q[0] - 10, q[1] - 10, q[2] + 10, y + 1500 + 400 * k), o))

    def net_names(self):
        return sorted({self.names[self.find(o)] for _, _, o in self.shapes})

    def assign_names(self, namer):
        roots = []
        for _, _, o in self.shapes:
            r = self.find(o)
            if r not in roots:
                roots.append(r)
        for k, r in enumerate(roots):
            self.names[r] = namer(k)
        for r in roots:
            if self.names[r] is None:
                continue
            m, rc, o = next(s for s in self.shapes if self.find(s[2]) == r)
            self.labels.append((m, ((rc[0] + rc[2]) // 2, (rc[1] + rc[3]) // 2), self.names[r]))

    def probe_names(self, lvs):
        """names nets as the LVS sees them; returns False if LVS connectivity differs from ours"""
        if isinstance(lvs, str):
            p, lvs = lvs, kdb.LayoutVsSchematic()
            lvs.read(p)
            return self._names_from_flat(lvs)
        regs = lvs._kv_keep[1]
        byroot = {}
        for m, r, o in self.shapes:
            reg = regs[kvlvs.metals(self.pdk)[m][0]]
            n = lvs.probe_net(reg, kdb.Point((r[0] + r[2]) // 2, (r[1] + r[3]) // 2))
            nm = n.expanded_name() if n else None
            root = self.find(o)
            if nm is None or byroot.setdefault(root, nm) != nm:
                return False
        if len(set(byroot.values())) != len(byroot):
            return False
        self.names = byroot
        return True

    def _names_from_flat(self, lvs):
        """the same from the flattened netlist, whose nets inside subcircuits have names per instance"""
        lvs.netlist().flatten()
        ci = lvs.netlist().circuit_by_name(lvs.internal_layout().top_cell().name)
        if ci is None:
            return False
        where = {}        # metal -> [(region of a net, name)]
        for m in {m for m, _, _ in self.shapes}:
            reg = lvs.layer_by_name(kvlvs.metals(self.pdk)[m][0])
            if reg is None:
                return False
            where[m] = [(r, n.expanded_name()) for n in ci.each_net() for r in [lvs.shapes_of_net(n, reg, True)]
                        if not r.is_empty()]
        byroot = {}
        for m, r, o in self.shapes:
            x, y = (r[0] + r[2]) // 2, (r[1] + r[3]) // 2
            probe = kdb.Region(kdb.Box(x - 1, y - 1, x + 1, y + 1))
            hit = [nm for reg, nm in where[m] if not (reg & probe).is_empty()]
            root = self.find(o)
            if len(hit) != 1 or byroot.setdefault(root, hit[0]) != hit[0]:
                return False
        if len(set(byroot.values())) != len(byroot):
            return False
        self.names = byroot
        return True

    def to_kdb(self, top='TOP', split=None, shuffle=None, pins=False, hier=None, top_last=False, sublabels=None):
        """split: rng -> cut rectangles in two abutting ones; shuffle: rng; hier: rng -> move shapes to
        subcells placed with random transformations"""
        ly = kdb.Layout()
        ly.dbu = self.dbu
        first = [ly.create_cell(f"SUB{k}") for k in range(3)] if top_last else []
        c = ly.create_cell(top)
        items = []
        for m, r, o in self.shapes:
            rs = [r]
            if split:
                rs = []
                x1, y1, x2, y2 = r
                if split.random() < 0.7 and x2 - x1 > 20:
                    xm = split.randrange(x1 + 5, x2 - 5)
                    rs = [(x1, y1, xm, y2), (xm, y1, x2, y2)]
                    if split.random() < 0.5:     # overlapping halves
                        rs[0] = (x1, y1, min(x2, xm + 5), y2)
                elif y2 - y1 > 20:
                    ym = split.randrange(y1 + 5, y2 - 5)
                    rs = [(x1, y1, x2, ym), (x1, ym, x2, y2)]
                else:
                    rs = [r]
            for q in rs:
                items.append((kvlvs.metals(self.pdk)[m][1], q))
        for _canon, gds, r, o in self.extra:
            items.append((gds, r))
        for v, r, o in self.vias:
            items.append((kvlvs.vias(self.pdk)[v][1], r))
        if pins:
            for m, r in self.pins:
                items.append((kvlvs.metals(self.pdk)[m][3], r))
        if shuffle:
            shuffle.shuffle(items)
        subs = []
        if hier:
            subs = first or [ly.create_cell(f"SUB{k}") for k in range(3)]
            trs = []
            for k, s in enumerate(subs):
                t = kdb.Trans(hier.randrange(4), hier.random() < 0.5, hier.randrange(-5000, 5000), hier.randrange(-5000, 5000))
                trs.append(t)
                c.insert(kdb.CellInstArray(s.cell_index(), t))
        for gds, r in items:
            li = ly.layer(kdb.LayerInfo(*gds))
            b = kdb.Box(*r) if len(r) == 4 else kdb.Polygon([kdb.Point(*q) for q in r])
            if subs and hier.random() < 0.6:
                k = hier.randrange(3)
                subs[k].shapes(li).insert(trs[k].inverted() * b)
            elif len(r) == 4 and sum(r) % 4 == 0:
                c.shapes(li).insert(kdb.Polygon(b))
            else:
                c.shapes(li).insert(b)
        for m, p, t in self.labels:
            li = ly.layer(kdb.LayerInfo(*kvlvs.metals(self.pdk)[m][5]))
            if subs and sublabels and sublabels.random() < 0.5:
                k = sublabels.randrange(3)
                subs[k].shapes(li).insert(kdb.Text(t, trs[k].inverted() * kdb.Trans(*p)))
            else:
                c.shapes(li).insert(kdb.Text(t, kdb.Trans(*p)))
        return ly


def _touch(a, b, gap=0):
    return not (a[2] + gap < b[0] or b[2] + gap < a[0] or a[3] + gap < b[1] or b[3] + gap < a[1])


def _inter(a, b):
    r = (max(a[0], b[0]), max(a[1], b[1]), min(a[2], b[2]), min(a[3], b[3]))
    return r if r[0] < r[2] and r[1] < r[3] else None


def random_layout(rng, pdk='sky130A', nmax=12, size=12000, layers=None, grid=5, dens=None, vias=True,
                  namer=None, margin=0, min_gap=1):
    L = Layout(pdk)
    nm = len(kvlvs.metals(pdk))
    if layers is None:
        k = rng.randint(1, min(5, nm))
        s = rng.randint(0, nm - k)
        layers = list(range(s, s + k)) if rng.random() < 0.7 else sorted(rng.sample(range(nm), k))
    n = rng.randint(2, nmax)
    per_layer = collections.defaultdict(list)     # m -> [(rect, obj)]
    for _ in range(n):
        m = rng.choice(layers)
        style = rng.random()
        wmin = 100
        if style < 0.35:
            w, h = rng.randrange(wmin, size // 2, grid), rng.randrange(wmin, size // 2, grid)
        elif style < 0.7:
            w, h = rng.randrange(wmin, 600, grid), rng.randrange(size // 4, size, grid)
            if rng.random() < 0.5:
                w, h = h, w
        else:
            w, h = rng.randrange(wmin, 2000, grid), rng.randrange(wmin, 2000, grid)
        x, y = rng.randrange(0, size, grid), rng.randrange(0, size, grid)
        if rng.random() < 0.3 and per_layer:      # align with / mirror another layer's shape
            q = rng.choice([s for v in per_layer.values() for s in v])[0]
            x, y = q[0] + rng.choice([0, 0, 140, -140]), q[1] + rng.choice([0, 0, 200, -200])
        rects = [(x, y, x + w, y + h)]
        if rng.random() < 0.35:                   # L, U or ring shapes
            kind = rng.choice('LUO')
            t = max(grid, min(w, h) // rng.randint(3, 6))
            if kind == 'L':
                rects = [(x, y, x + w, y + t), (x, y, x + t, y + h)]
            elif kind == 'U':
                rects = [(x, y, x + w, y + t), (x, y, x + t, y + h), (x + w - t, y, x + w, y + h)]
            else:
                rects = [(x, y, x + w, y + t), (x, y + h - t, x + w, y + h), (x, y, x + t, y + h), (x + w - t, y, x + w, y + h)]
        rects = [r for r in rects if r[2] > r[0] and r[3] > r[1]]
        clash = [ob for r in rects for (q, ob) in per_layer[m] if _touch(r, q, min_gap - 1)]
        if clash:
            if rng.random() < 0.55:
                continue
            # join only if it really overlaps every clashing object with positive area
            ok = all(any(_inter(r, q) for r in rects for (q, ob2) in per_layer[m] if ob2 == ob) for ob in set(clash))
            if not ok:
                continue
        o = L.new_obj()
        for r in rects:
            L.shapes.append((m, r, o))
        for ob in set(clash):
            L.union(o, ob)
        for r in rects:
            per_layer[m].append((r, o))
    if vias:
        for m in layers:
            if m + 1 in layers:
                for ra, oa in per_layer[m]:
                    for rb, ob in per_layer[m + 1]:
                        it = _inter(ra, rb)
                        if it and it[2] - it[0] > 60 and it[3] - it[1] > 60 and rng.random() < 0.35:
                            v = (it[0] + 20, it[1] + 20, min(it[2] - 20, it[0] + 170), min(it[3] - 20, it[1] + 170))
                            L.vias.append((m, v, oa))
                            L.union(oa, ob)
    # objects whose vias touch would be shorted as well; vias lie inside both rectangles, so that only
    # matters for overlapping vias, which then already share a conductor
    L.assign_names(namer or cased("N"))
    return L
