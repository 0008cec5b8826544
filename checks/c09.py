"""C09: the written FasterCap input is the layout, extruded by the technology, and nothing else."""
import glob, json, logging, math, os, re
import numpy as np
import klayout.db as kdb
import kvcli, kvcore, kvfake, kvflow, kvlvs, kvsynth

# process layer -> LVS layer of the stand-in deck
LVS = {'sky130A': dict(poly='poly_con', li1='li_con', met1='met1_con', met2='met2_con', met3_ncap='met3_ncap', met3_cap='met3_cap', capm='capm', met4_ncap='met4_ncap', met5='met5_con',
                       nsd='nsd', psd='psd'),
       'ihp_sg13g2': dict(GatPoly='poly_con', Metal1='metal1_con', Metal2='metal2_con', Metal3='metal3_con', Metal4='metal4_con', metal5_n_cap='metal5_n_cap',
                          TopMetal1='topmetal1_con', TopMetal2='topmetal2_con', nSD='nsd_fet', pSD='psd_fet')}
KINDS = dict(metal='metal_layer', diff='diffusion_layer', side='sidewall_dielectric_layer', conf='conformal_dielectric_layer', simple='simple_dielectric_layer',
             fox='field_oxide_layer', subs='substrate_layer')
NAMES = ['VDD', 'VSS', 'out[3]', 'a/b', '/x', 'net.7', 'bus<0>', 'clk#', 'q!', 'a+b', 'x=y', '..', '~n', 'a:b', 'a;b', '(x)', '%s', '\u00b5m', '\u6f22\u5b57', 'A', 'a', '+', '-1', 'C', 'D', 'N',
         'a' * 200, 'b' * 250 + '1', 'b' * 250 + '2', '\u00e9' * 140, 'x/' * 70 + 'y', '*z', 'a,b', '$x9', '@', '1', '0.5', 'net=x.geo', '\u6f22' * 90, "it's", '"q"', '{b}', '|', '\\n', 'a\\b']


_path = {}                               # the technology file of the case under way, if it is not the one of the PDK


def other_technology(rng, pdk, path):
    """the process stack with other dielectrics and substrate, as a technology file"""
    j = json.load(open(kvflow.tech_json(pdk)))
    ks = {}
    fld = lambda d, *fs: [f for f in fs if d.get(f, 0) > 0]
    for l in j['process_stack']['layers']:
        for k in ('side', 'conf', 'simple', 'fox', 'subs'):
            d = l.get(KINDS[k])
            if d is None:
                continue
            if 'dielectric_k' in d:
                d['dielectric_k'] = ks.setdefault(l['name'], round(rng.uniform(1.1, 9), 3) if rng.random() < 0.6 else d['dielectric_k'])
            for f in fld(d, 'thickness_over_metal', 'thickness_where_no_metal', 'thickness_sidewall', 'width_outside_sidewall', 'height', 'thickness'):
                if rng.random() < 0.6:
                    d[f] = max(0.002, round(d[f] * rng.uniform(0.4, 1.3), 3))
            if k == 'conf' and rng.random() < 0.2:
                d['thickness_where_no_metal'] = rng.choice([0.0, 0.01, 0.03])
    json.dump(j, open(path, 'w'))
    _path['now'] = path
    return path


def stack(pdk):
    out = []
    for l in json.load(open(_path.get('now') or kvflow.tech_json(pdk)))['process_stack']['layers']:
        for k, f in KINDS.items():
            if f in l:
                out.append((l['name'], k, l[f]))
    return out


class Solids:
    def __init__(self, dbu):
        self.dbu, self.cond, self.diel, self.short = dbu, {}, {}, []

    def z(self, v):
        return math.floor(v / self.dbu + 1e-6)

    def add(self, table, name, reg, z, h):
        a, b = self.z(z), self.z(z + h)
        if b > a and not reg.is_empty():
            table.setdefault(name, []).append((reg, a, b))


def solids(pdk, shapes, bbox, dbu, included, from_top=True):
    """from_top: heights of sidewall dielectrics count from the top of the metal, as process_stack.proto says; else from its bottom"""
    S = Solids(dbu)
    st = stack(pdk)
    lv = LVS[pdk]
    block = kdb.Region(bbox.enlarged(math.floor(8 / dbu), math.floor(8 / dbu)))
    diffs = kdb.Region()
    for net in shapes.nets:
        for n, k, p in st:
            if k not in ('metal', 'diff'):
                continue
            z, t = (p.get('z', 0), p.get('thickness', 0)) if k == 'metal' else (0, 0.1)
            r = shapes(lv.get(n), net)
            S.add(S.cond, net, r, z, t)
            if k == 'diff':
                diffs += r
            con = p.get('contact_above', {})
            if con.get('name'):
                S.add(S.cond, net, shapes(con['name'], net), z + t if k == 'metal' else 0, con.get('thickness', 0))
    sub = next(p for n, k, p in st if k == 'subs')
    S.add(S.cond, 'VSUBS', block - diffs.sized(math.floor(1 / dbu)), -sub.get('height', 0) - sub['thickness'], sub['thickness'])
    ks = {}
    fox = next((n, p['dielectric_k']) for n, k, p in st if k == 'fox')
    ks[fox[0]] = fox[1]
    for n, k, p in st:
        if k in ('side', 'conf', 'simple') and n in included:
            ks.setdefault(n, p['dielectric_k'])
    gate = next(p for n, k, p in st if k == 'metal')
    S.add(S.diel, fox[0], block, 0, gate['z'])
    ms = [i for i, (n, k, p) in enumerate(st) if k == 'metal']
    for i in ms:
        n, _, m = st[i]
        mz, mt = m['z'], m['thickness']
        reg = shapes(lv.get(n), None)
        coat, coat_h, nomet_h = None, 0.0, 0.0
        if not reg.is_empty():
            coat, on, inner = reg, n, False
            while True:
                nx = [x for x in st if x[1] in ('side', 'conf') and x[2].get('reference') == on and x[0] in included]
                if not nx:
                    break
                d, k, p = nx[0]
                coat = coat.sized(math.floor(p.get('width_outside_sidewall' if k == 'side' else 'thickness_sidewall', 0) / dbu))
                if k == 'side':
                    h = p.get('height_above_metal', 0)
                    S.short += [d] if on == n and 0 < h < mt and not from_top else []
                    # poly of sky130A: the numbers only make sense from the bottom (0.18, the thickness of poly, and 0.121 on top)
                    coat_h += mt + h if from_top and on == n and h < mt else h or mt
                    inner |= from_top and on == n and h < mt
                else:
                    coat_h += p.get('thickness_over_metal', 0) + (0 if inner else mt)      # the metal itself lies below the innermost coat only
                    inner = True
                S.add(S.diel, d, coat, mz, coat_h)
                if k == 'conf' and p.get('thickness_where_no_metal', 0) > 0:
                    S.add(S.diel, d, block - coat, mz + nomet_h, p['thickness_where_no_metal'])
                    nomet_h += p['thickness_where_no_metal']
                on = d
        above = next((x for x in st[i + 1:] if x[1] in ('simple', 'metal')), None)
        if above is None or above[1] == 'metal' or above[0] not in included:
            continue
        nm = next((st[j] for j in ms if j > i), None)
        h = nm[2]['z'] - mz if nm else 5.0
        if coat is not None:
            S.add(S.diel, above[0], coat, mz + coat_h, h - coat_h)
            S.add(S.diel, above[0], block - coat, mz + nomet_h, h - nomet_h)
        else:
            S.add(S.diel, above[0], block, mz, h)
    return S, ks


def boxes(reg):
    return [t.bbox() for t in reg.decompose_trapezoids_to_region().each()]


def interfaces(S, ks, k_void):
    """{('D', k below, k above, axis, plane) or ('C', net, k outside, axis, plane, side): Region}"""
    order = list(ks)
    layers = [(order.index(n), n, boxes(r), a, b) for n, v in S.diel.items() for r, a, b in v]
    layers.sort(key=lambda x: -x[0])
    nets = sorted(S.cond)
    conds = [(n, boxes(r), a, b) for n in nets for r, a, b in S.cond[n]]
    every = [b for _, _, bs, _, _ in layers for b in bs] + [b for _, bs, _, _ in conds for b in bs]
    ax = [sorted({b.left for b in every} | {b.right for b in every}), sorted({b.bottom for b in every} | {b.top for b in every}),
          sorted({z for x in layers + conds for z in x[-2:]})]
    ax = [[v[0] - 1] + v + [v[-1] + 1] for v in ax]
    V = np.zeros([len(v) - 1 for v in ax], dtype=np.int16)
    ix = [{v: i for i, v in enumerate(a)} for a in ax]

    def put(bs, a, b, val):
        for q in bs:
            V[ix[0][q.left]:ix[0][q.right], ix[1][q.bottom]:ix[1][q.top], ix[2][a]:ix[2][b]] = val
    for o, n, bs, a, b in layers:
        put(bs, a, b, o + 1)
    for n, bs, a, b in conds:
        put(bs, a, b, -(nets.index(n) + 1))
    kof = [k_void] + [ks[n] for n in order]
    # materials of equal permittivity have no interface
    rep = [kof.index(k) for k in kof]
    lut = np.array(rep, dtype=np.int16)
    V = np.where(V >= 0, lut[np.maximum(V, 0)], V)
    out, keep = {}, {}
    for d in range(3):
        u, v = [a for a in range(3) if a != d]
        M = np.moveaxis(V, d, 0)
        for p in range(M.shape[0] - 1):
            lo, hi = M[p], M[p + 1]
            diff = lo != hi
            if not diff.any():
                continue
            plane = ax[d][p + 1]
            for code in np.unique(lo[diff].astype(np.int64) * 100000 + hi[diff]):
                a, b = int((code + 50000) // 100000), 0
                b = int(code - a * 100000)
                mask = diff & (lo == a) & (hi == b)
                if a < 0 and b < 0:
                    raise AssertionError('touching nets')
                if a < 0 or b < 0:
                    key = ('C', nets[-min(a, b) - 1], kof[max(a, b)], d, plane, 1 if a < 0 else -1)
                else:
                    key = ('D', kof[a], kof[b], d, plane)
                r = keep.setdefault(key, kdb.Region())
                for i in np.nonzero(mask.any(axis=1))[0]:
                    row = np.concatenate(([0], mask[i].astype(np.int8), [0]))
                    e = np.diff(row)
                    for s, t in zip(np.nonzero(e == 1)[0], np.nonzero(e == -1)[0]):
                        r.insert(kdb.Box(ax[u][i], ax[v][s], ax[u][i + 1], ax[v][t]))
    for k, r in keep.items():
        out[k] = r.merged()
    return out, nets


def read_model(c, what, lst, dbu, k_void):
    """panels of the files by interface, names of the conductors; None after a violation"""
    d = os.path.dirname(lst)
    out, names, groups, group, prev_plus = {}, {}, [], None, False
    seen_files = set()
    lines = [x.rstrip('\n') for x in open(lst, encoding='utf-8')]
    for line in lines:
        t = line.split()
        if not t or t[0] == '*' or t[0].startswith('*'):
            if 'k_void=' in line:
                c.expect(float(line.split('k_void=')[1]) == k_void, 'k_void', f"{what}: list file says {line}, asked for {k_void}")
            continue
        plus = t[-1] == '+'
        if not ((t[0] == 'C' and len(t) == 6 + plus) or (t[0] == 'D' and len(t) == 10)):
            c.violate('list-syntax', f"{what}: list file line {line!r} does not have the fields FasterCap reads")
            return None
        nums = [float(x) for x in (t[2:6] if t[0] == 'C' else t[2:10])]
        off = nums[1:4] if t[0] == 'C' else nums[2:5]
        c.expect(off == [0, 0, 0], 'offset', f"{what}: {line!r} moves the panels")
        fn = os.path.join(d, t[1])
        if not os.path.isfile(fn):
            c.violate('missing-file', f"{what}: {t[1]!r} of the list file does not exist")
            return None
        if fn in seen_files:
            c.violate('shared-file', f"{what}: {t[1]!r} is used twice")
            return None
        seen_files.add(fn)
        if t[0] == 'C' and not prev_plus:
            group = dict(num=None, name=None, done=False)
            groups.append(group)
        prev_plus = t[0] == 'C' and plus
        panels, renames, numbers = [], [], set()
        for no, ln in enumerate(open(fn, encoding='utf-8')):
            w = ln.split()
            if no == 0:
                c.expect(w[:1] == ['0'], 'geo-header', f"{what}: first line {ln!r} of {t[1]}")
                continue
            if not w:
                continue
            if w[0] == 'T' and len(w) in (11, 14):
                numbers.add(w[1])
                v = [float(x) for x in w[2:]]
                panels.append((v[0:3], v[3:6], v[6:9], v[9:12]))
            elif w[0] == 'N':
                renames.append((w[1], ln.rstrip('\n').split(' ', 2)[2]))
            else:
                c.violate('geo-syntax', f"{what}: line {ln!r} of {t[1]}")
                return None
        if not panels:
            c.violate('empty-file', f"{what}: {t[1]} has no panels")
            return None
        if t[0] == 'C':
            c.expect(len(numbers) == 1 and group['num'] in (None, *numbers), 'conductor-number', f"{what}: {t[1]} uses numbers {numbers}, its conductor {group['num']}")
            group['num'] = list(numbers)[0]
            c.expect(bool(renames) == (not plus), 'rename', f"{what}: {t[1]} ({'more follow' if plus else 'last of its conductor'}) has N lines {renames}")
            if renames:
                c.expect(len(renames) == 1 and renames[0][0] == group['num'], 'rename', f"{what}: {t[1]}: N lines {renames} for conductor {group['num']}")
                group['name'] = renames[0][1]
            gid = ('C', len(groups) - 1)
        else:
            c.expect(not renames, 'rename', f"{what}: {t[1]} is a dielectric and has N lines")
        for p0, p1, p2, rp in panels:
            c.count('panels read')
            P = [[x / dbu for x in p] for p in (p0, p1, p2)]
            Q = [[round(x) for x in p] for p in P]
            if any(abs(a - b) > 1e-3 for p, q in zip(P, Q) for a, b in zip(p, q)):
                c.violate('off-grid', f"{what}: {t[1]} has a vertex off the grid: {P}")
                return None
            e1, e2 = [Q[1][i] - Q[0][i] for i in range(3)], [Q[2][i] - Q[0][i] for i in range(3)]
            n = [e1[1] * e2[2] - e1[2] * e2[1], e1[2] * e2[0] - e1[0] * e2[2], e1[0] * e2[1] - e1[1] * e2[0]]
            nz = [i for i in range(3) if n[i]]
            if not nz:
                c.count('degenerate panels')
                continue
            if len(nz) != 1:
                c.violate('skew', f"{what}: {t[1]} has a panel with normal {n}")
                return None
            ax = nz[0]
            plane = Q[0][ax]
            if len(rp) == 3:
                dist = rp[ax] / dbu - plane
            elif t[0] == 'D':
                dist = nums[5 + ax] / dbu - plane
            else:
                dist = n[ax]
            if dist == 0:
                c.violate('reference-point', f"{what}: {t[1]}: reference point {rp} lies in the panel")
                return None
            side = 1 if dist > 0 else -1
            u, v = [i for i in range(3) if i != ax]
            if t[0] == 'C':
                key = (gid, nums[0], ax, plane, side)
            else:
                ko, ki = nums[0], nums[1]
                key = ('D', ki, ko, ax, plane) if side > 0 else ('D', ko, ki, ax, plane)
            out.setdefault(key, []).append(kdb.Polygon([kdb.Point(q[u], q[v]) for q in Q]))
    nms = [g['name'] for g in groups]
    nrs = [g['num'] for g in groups]
    if None in nms:
        c.violate('unnamed', f"{what}: conductor {nrs[nms.index(None)]} of the list file has no name")
        return None
    c.expect(len(set(nms)) == len(nms), 'shared-name', f"{what}: conductor names {nms} are not unique")
    c.expect(len(set(nrs)) == len(nrs), 'shared-number', f"{what}: conductor numbers {nrs} are not unique")
    res = {}
    for k, v in out.items():
        res[k if k[0] == 'D' else ('C', nms[k[0][1]], *k[1:])] = v
    return res, nms, seen_files


class Shapes:
    """shapes of a net on a layer, asked from KLayout's own database"""

    def __init__(self, path):
        self.lvs = kdb.LayoutVsSchematic()
        self.lvs.read(path)
        self.bbox = self.lvs.internal_layout().top_cell().bbox()
        top = self.lvs.internal_layout().top_cell().name
        self.lvs.netlist().flatten()
        ci = self.lvs.netlist().circuit_by_name(top)
        self._nets = list(ci.each_net())
        self.names = [n.expanded_name() for n in self._nets]
        self.regs, self.memo = {}, {}

    @property
    def nets(self):
        return self.names

    def __call__(self, layer, net):
        if layer is None:
            return kdb.Region()
        if layer not in self.regs:
            self.regs[layer] = self.lvs.layer_by_name(layer) if layer in self.lvs.layer_names() else None
        reg = self.regs[layer]
        if reg is None:
            return kdb.Region()
        key = (layer, net)
        if key not in self.memo:
            if net is None:
                r = kdb.Region()
                for n in self.names:
                    r += self(layer, n)
                self.memo[key] = r.merged()
            else:
                self.memo[key] = self.lvs.shapes_of_net(self._nets[self.names.index(net)], reg, True).merged()
        return self.memo[key]


def layout(rng, pdk, c):
    used = []

    def namer(k):
        n = f"N{k}" if hostile is None else rng.choice([x for x in NAMES if x not in used] or [f"N{k}"])
        used.append(n)
        return n
    hostile = True if rng.random() < 0.5 else None
    while True:
        used.clear()
        L = kvsynth.random_layout(rng, pdk, nmax=rng.choice([3, 5, 8]), size=rng.choice([1500, 4000]), min_gap=60, namer=namer, grid=rng.choice([5, 10]))
        if len({L.find(o) for _, _, o in L.shapes}) >= 2:
            break
    devices = capdev = False
    if rng.random() < 0.3:
        L.add_mos(rng, 9000, 500, rng.randint(1, 2))
        devices = True
    if pdk == 'sky130A' and rng.random() < 0.3:
        L.add_mim(rng, -9000, 0)
        capdev = True
    for o in L.parent:
        r = L.find(o)
        if r not in L.names:
            L.names[r] = f"X{r}"
    return L, devices, capdev


def differences(c, want, got, exact):
    for k in sorted(set(want) | set(got), key=str):
        if k[0] == 'D' and k[1] == k[2]:
            continue
        w = want.get(k, kdb.Region())
        ps = got.get(k, [])
        g = kdb.Region()
        for p in ps:
            g.insert(p)
        total = sum(p.area2() for p in ps) / 2
        g = g.merged()
        c.count('interfaces compared')
        tol = 0 if exact else (w.perimeter() + g.perimeter()) * 1.5
        x = (g ^ w).area()
        if x > tol or abs(total - w.area()) > tol + 0.5:
            miss, more = (w - g).area(), (g - w).area()
            return ('missing-surface' if miss > tol else 'extra-surface' if more > tol else 'overlapping-panels',
                    f"interface {k}: {miss} dbu^2 missing, {more} too much of {w.area()}, panels add up to {total}")


def case(c):
    logging.disable(logging.CRITICAL)
    rng = c.rng
    pdk = rng.choice(['sky130A', 'ihp_sg13g2'])
    L, devices, capdev = layout(rng, pdk, c)
    L.dbu = rng.choice([0.001] * 4 + [0.005, 0.0005])
    ly = L.to_kdb(top='TOP', pins=True, split=rng if rng.random() < 0.3 else None)
    lvs = kvlvs.extract(ly, 'TOP', pdk, devices=devices, capdev=capdev)
    db = os.path.join(c.dir, 'in.lvsdb.gz')
    lvs.write(db)
    _path.clear()
    other = other_technology(rng, pdk, os.path.join(c.dir, 'tech.json')) if rng.random() < 0.4 else None
    names = [n for n, k, p in stack(pdk) if k in ('side', 'conf', 'simple')]
    names = list(dict.fromkeys(names))
    s = rng.random()
    if s < 0.5:
        diel, inc = None, set(names)
    elif s < 0.6:
        diel, inc = 'none', set()
    elif s < 0.8:
        sub = rng.sample(names, rng.randint(1, 3))
        diel, inc = 'all,' + ','.join('-' + x for x in sub), set(names) - set(sub)
    else:
        sub = rng.sample(names, rng.randint(1, len(names) - 1))
        diel, inc = 'none,' + ','.join('+' + x for x in sub), set(sub)
    k_void = rng.choice([None, 1.0, 3.5, 4.1, 2.123])
    b = rng.choice(['0', '0', None, '1.0'])
    amax = rng.choice([None, None, '0', '2.5'])
    logs = os.path.join(c.dir, 'logs')
    os.makedirs(logs)
    out = os.path.join(c.dir, 'out')
    a = ['--pdk', pdk, '--lvsdb', db, '--out_dir', out, '--fastercap', '--log_level', 'error']
    for f, v in (('--diel', diel), ('--k_void', k_void), ('--delaunay_b', b), ('--delaunay_amax', amax)):
        if v is not None:
            a += [f, str(v)] if not str(v).startswith('-') else [f"{f}={v}"]
    if b == '0' and amax is None:
        a += ['--delaunay_amax', '0']
        amax = '0'
    what = f"kpex {' '.join(x for x in a if x not in (db, out))} ({'another process stack, ' if other else ''}dbu {L.dbu}, nets {sorted(set(L.names.values()))[:8]})"[:900]
    with kvflow.technology(other) as asked:
        r = kvflow.kpex(a, env=kvcli.env(logs))
    c.count('other process stacks', bool(other))
    lst = glob.glob(os.path.join(glob.escape(out), '**', 'FasterCap_Input_Files', '*.lst'), recursive=True)
    if len(lst) != 1:
        return c.violate('no-input', f"{what}: {len(lst)} list files; {getattr(r, 'tb', r.out)[-700:]}")
    sh = Shapes(db)
    kv = 3.9 if k_void is None else k_void
    m = read_model(c, what, lst[0], L.dbu, kv)
    if m is None:
        return
    got, names_, _ = m
    exact = b == '0' and amax == '0'
    S, ks = solids(pdk, sh, sh.bbox, L.dbu, inc)
    want, nets = interfaces(S, ks, kv)
    c.expect(sorted(names_) == sorted(nets), 'conductors', f"{what}: conductors {sorted(names_)}, nets with geometry {sorted(nets)}")
    v = differences(c, want, got, exact)
    if v:
        S = solids(pdk, sh, sh.bbox, L.dbu, inc, from_top=False)[0]
        if S.short and not differences(c, interfaces(S, ks, kv)[0], got, exact):
            c.violate(f"sidewall-height:{pdk}:{S.short[0]}", f"{what}: {S.short[0]} ends its height_above_metal above the bottom of the metal, not above the metal")
            c.count('models with a coat that is too low')
        else:
            c.violate(v[0], f"{what}: {v[1]}")
            return
    if not r.status:
        c.count('runs completed')
    else:
        c.violate('run-failed', f"{what}: {getattr(r, 'tb', r.out)[-700:]}")
    c.saw((pdk, diel, k_void, len(want), len(nets), L.dbu))
    c.count('models compared ' + pdk)
    c.count('conductors compared', len(nets))
    for k, f in (('devices', devices), ('MiM capacitors', capdev), ('exact models', exact), ('refined models', not exact), ('dielectrics filtered', diel is not None),
                 ('names with slashes', any('/' in n for n in nets)), ('names too long for a file', any(len(n.encode()) > 220 for n in nets)), ('dbu other than 1 nm', L.dbu != 0.001)):
        if f:
            c.count(k)
    c.sample = dict(pdk=pdk, nets=nets[:5], interfaces=len(want), options=a[6:])


def main():
    ck = kvcore.Check('C09', 'random layouts through kpex --fastercap with a stand-in solver; the written list and panel files are read back and compared, interface by interface, '
                      'with a voxel model built from the technology file and the nets KLayout reports',
                      required=['models compared sky130A', 'models compared ihp_sg13g2', 'interfaces compared', 'panels read', 'devices', 'MiM capacitors', 'exact models', 'refined models',
                                'dielectrics filtered', 'names with slashes', 'names too long for a file', 'dbu other than 1 nm', 'runs completed'],
                      assumptions=['Manhattan layouts', 'heights are rounded down to the database unit, as the model generator documents (C08)',
                                   'net names without blanks (FasterCap separates by them) and not of the form $<number> (KLayout names unnamed nets so)'])
    ck.run(case, 600, 6000)
    ck.finish()
