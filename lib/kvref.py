"""Independent reference for the 2.5D capacitance model on Manhattan layouts.

Works on a coordinate-compressed raster (no KLayout region operations): every layer is an integer
matrix of net ids; areas, facing lengths and fringe windows are read off the raster directly from the
physical definition.  Coefficients are read from the technology JSON with the json module.
"""
import json, math, collections, bisect

SUB = 'VSUBS'


class Tech:
    def __init__(self, path):
        j = json.load(open(path))
        self.j = j
        cap = j['process_parasitics']['capacitance']
        self.halo = float(j['process_parasitics'].get('side_halo', 0))
        self.area, self.perim = {}, {}
        for s in cap.get('substrates', []):
            self.area[s['layer_name']] = s.get('area_capacitance', 0.0)
            self.perim[s['layer_name']] = s.get('perimeter_capacitance', 0.0)
        self.ovl = {}
        for o in cap.get('overlaps', []):
            self.ovl[(o['top_layer_name'], o['bottom_layer_name'])] = o['capacitance']
        for k, v in self.area.items():
            self.ovl[(k, SUB)] = v
        self.side = {s['layer_name']: (s.get('capacitance', 0.0), s.get('offset', 0.0)) for s in cap.get('sidewalls', [])}
        self.fr = {(s['in_layer_name'], s['out_layer_name']): s['capacitance'] for s in cap.get('sideoverlaps', [])}
        for k, v in self.perim.items():
            self.fr[(k, SUB)] = v


class Raster:
    """rects: {layer: {net: [(x1,y1,x2,y2), ...]}} in dbu; layers: bottom to top names."""

    def __init__(self, layers, rects, dbu, halo_um):
        self.layers, self.dbu = list(layers), dbu
        xs, ys = set(), set()
        allr = [r for l in rects.values() for rs in l.values() for r in rs]
        bx1 = min(r[0] for r in allr); by1 = min(r[1] for r in allr)
        bx2 = max(r[2] for r in allr); by2 = max(r[3] for r in allr)
        h = halo_um / dbu
        self.sub_box = None
        for (a, b, c, d) in allr:
            xs.update((a, c)); ys.update((b, d))
        hh = int(h)
        self.sub_box = (bx1 - hh, by1 - hh, bx2 + hh, by2 + hh)
        xs.update((self.sub_box[0], self.sub_box[2])); ys.update((self.sub_box[1], self.sub_box[3]))
        self.xs, self.ys = sorted(xs), sorted(ys)
        xi = {v: i for i, v in enumerate(self.xs)}
        yi = {v: i for i, v in enumerate(self.ys)}
        nx, ny = len(self.xs) - 1, len(self.ys) - 1
        self.nx, self.ny = nx, ny
        self.occ = {}
        for l in self.layers:
            m = [[None] * ny for _ in range(nx)]
            for net, rs in rects.get(l, {}).items():
                for (a, b, c, d) in rs:
                    for i in range(xi[a], xi[c]):
                        col = m[i]
                        for j in range(yi[b], yi[d]):
                            col[j] = net
            self.occ[l] = m

    # ------------------------------------------------------------------ overlap
    def overlap(self, tech):
        """{(top layer, net_top, bottom layer, net_bot): fF} with nothing conducting in between"""
        area = collections.Counter()
        for i in range(self.nx):
            dx = self.xs[i + 1] - self.xs[i]
            for j in range(self.ny):
                a = dx * (self.ys[j + 1] - self.ys[j])
                low_l, low_n = SUB, SUB
                for l in self.layers:
                    n = self.occ[l][i][j]
                    if n is None:
                        continue
                    if n != low_n:
                        area[(l, n, low_l, low_n)] += a
                    low_l, low_n = l, n
        out = {}
        for k, a in area.items():
            c = tech.ovl.get((k[0], k[2]))
            if c is not None:
                out[k] = a * self.dbu ** 2 * c / 1000.0
        return out, area

    # ------------------------------------------------------------------ edges
    def edges(self, layer):
        """maximal boundary edges: (net, direction, pos index, [segments i]) ; direction in N,S,E,W is
        the outward side"""
        m = self.occ[layer]
        res = []
        for d in 'NS':
            for j in range(self.ny):
                jo = j + 1 if d == 'N' else j - 1
                run = None
                for i in range(self.nx + 1):
                    n = None
                    if i < self.nx and m[i][j] is not None and not (0 <= jo < self.ny and m[i][jo] is not None):
                        n = m[i][j]
                    if run and n != run[0]:
                        res.append((run[0], d, j, run[1]))
                        run = None
                    if n is not None:
                        if not run:
                            run = (n, [])
                        run[1].append(i)
        for d in 'EW':
            for i in range(self.nx):
                io = i + 1 if d == 'E' else i - 1
                run = None
                for j in range(self.ny + 1):
                    n = None
                    if j < self.ny and m[i][j] is not None and not (0 <= io < self.nx and m[io][j] is not None):
                        n = m[i][j]
                    if run and n != run[0]:
                        res.append((run[0], d, i, run[1]))
                        run = None
                    if n is not None:
                        if not run:
                            run = (n, [])
                        run[1].append(j)
        return res

    def strips(self, layer, halo_dbu):
        """for every boundary edge of the layer and every raster strip in front of it:
        (net, direction, length, [(near, far, {other layer: net})...] up to the first same-layer shape,
         (distance, net) of that shape or None)"""
        for net, d, pos, segs in self.edges(layer):
            along = self.xs if d in 'NS' else self.ys
            across = self.ys if d in 'NS' else self.xs
            lo, hi = along[segs[0]], along[segs[-1] + 1]
            step = 1 if d in 'NE' else -1
            base = across[pos + 1] if step == 1 else across[pos]
            ncross = self.ny if d in 'NS' else self.nx
            for s in segs:
                a, b = along[s], along[s + 1]
                if b <= a:
                    continue
                win, lateral = [], None
                p = pos + step
                while 0 <= p < ncross:
                    near = across[p] - base if step == 1 else base - across[p + 1]
                    far = across[p + 1] - base if step == 1 else base - across[p]
                    if near >= halo_dbu:
                        break
                    cell = (s, p) if d in 'NS' else (p, s)
                    same = self.occ[layer][cell[0]][cell[1]]
                    if same is not None:
                        lateral = (near, same)
                        break
                    win.append((near, min(far, halo_dbu), cell))
                    p += step
                yield net, d, b - a, win, lateral

    def strips_through(self, layer, halo_dbu, comp):
        """like strips, but looking through the edge's own body"""
        for net, d, pos, segs in self.edges(layer):
            along = self.xs if d in 'NS' else self.ys
            across = self.ys if d in 'NS' else self.xs
            step = 1 if d in 'NE' else -1
            base = across[pos + 1] if step == 1 else across[pos]
            ncross = self.ny if d in 'NS' else self.nx
            for s in segs:
                a, b = along[s], along[s + 1]
                own = comp[s][pos] if d in 'NS' else comp[pos][s]
                lateral = None
                p = pos + step
                while 0 <= p < ncross:
                    near = across[p] - base if step == 1 else base - across[p + 1]
                    if near >= halo_dbu:
                        break
                    cell = (s, p) if d in 'NS' else (p, s)
                    same = self.occ[layer][cell[0]][cell[1]]
                    if same is not None and comp[cell[0]][cell[1]] != own:
                        lateral = (near, same)
                        break
                    p += step
                yield net, d, b - a, None, lateral

    def bodies(self):
        """{layer: matrix of component ids}: edge-connected bodies of the layer"""
        res = {}
        for l in self.layers:
            m = self.occ[l]
            comp = [[None] * self.ny for _ in range(self.nx)]
            k = 0
            for i in range(self.nx):
                for j in range(self.ny):
                    if m[i][j] is None or comp[i][j] is not None:
                        continue
                    k += 1
                    st = [(i, j)]
                    comp[i][j] = k
                    while st:
                        a, b = st.pop()
                        for c, d in ((a + 1, b), (a - 1, b), (a, b + 1), (a, b - 1)):
                            if 0 <= c < self.nx and 0 <= d < self.ny and comp[c][d] is None and m[c][d] == m[i][j]:
                                comp[c][d] = k
                                st.append((c, d))
            res[l] = comp
        return res

    def sidewall(self, tech, halo_dbu, through_self=False):
        """{(layer, frozenset(nets)): fF}: C = length * coefficient / (distance + offset), per facing pair.
        through_self: look through the own body to the nearest foreign body (the recorded deviation)"""
        out = collections.Counter()
        n = 0
        self.thin = collections.Counter()     # share of strips one dbu wide, which the engine skips by design
        comp = self.bodies() if through_self else None
        for l in self.layers:
            if l not in tech.side:
                continue
            cap, off = tech.side[l]
            for net, d, length, win, lateral in (self.strips(l, halo_dbu) if not through_self
                                                 else self.strips_through(l, halo_dbu, comp[l])):
                if lateral and lateral[1] != net:
                    n += 1
                    c = length * self.dbu * cap / (lateral[0] * self.dbu + off) / 2.0 / 1000.0
                    out[(l, frozenset((net, lateral[1])))] += c
                    if length <= 1:
                        self.thin[(l, frozenset((net, lateral[1])))] += abs(c)
        return out, n

    def fringe(self, tech, halo_dbu, halo_um, scale):
        """{(inside layer, net, outside layer, net): fF}, plus the number of elementary strips behind it"""
        out, cnt = collections.Counter(), collections.Counter()
        self.slack = collections.Counter()     # what one dbu per window border can make
        idx = {l: i for i, l in enumerate([SUB] + self.layers)}
        sb = self.sub_box
        for l in self.layers:
            li = idx[l]
            others = [SUB] + self.layers
            for net, d, length, win, lateral in self.strips(l, halo_dbu):
                lum = length * self.dbu
                acc = collections.defaultdict(list)
                for near, far, (ci, cj) in win:
                    col = {o: (SUB if o == SUB else self.occ[o][ci][cj]) for o in others}
                    for o in others:
                        if o == l or col[o] is None:
                            continue
                        oi = idx[o]
                        between = others[oi + 1:li] if oi < li else others[li + 1:oi]
                        if any(col[b] is not None for b in between):
                            continue
                        if col[o] == net:
                            continue
                        acc[(o, col[o])].append((near, far))
                for (o, onet), wins in acc.items():
                    k = tech.fr.get((l, o))
                    oc = tech.ovl.get((l, o), tech.ovl.get((o, l)))
                    if k is None or oc is None:
                        continue
                    al = oc * 0.02
                    # contiguous windows telescope
                    merged = []
                    for near, far in wins:
                        if merged and merged[-1][1] == near:
                            merged[-1][1] = far
                        else:
                            merged.append([near, far])
                    for near, far in merged:
                        f = (2 / math.pi) * (math.atan(al * far * self.dbu) - math.atan(al * max(near, 0) * self.dbu))
                        if scale:
                            full = (2 / math.pi) * math.atan(al * halo_um)
                            if full < 1.0:
                                f /= full
                        out[(l, net, o, onet)] += f * lum * k / 1000.0
                        self.slack[(l, net, o, onet)] += 2 * (2 / math.pi) * al * self.dbu / \
                            ((2 / math.pi) * math.atan(al * halo_um) if scale else 1.0) * lum * k / 1000.0 / (1 + (al * near * self.dbu) ** 2)
                        cnt[(l, net, o, onet)] += 1
        return out, cnt
