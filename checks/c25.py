"""C25: all files of a run describe one circuit and one geometry: matrices, netlists, tables, surfaces and layout dumps."""
import collections, glob, gzip, json, logging, os, re
import klayout.db as kdb
import c05, c09, c22, kvcli, kvcore, kvfake, kvflow, kvlvs, kvsynth

THRESHOLD = 0.05e-15


def layout(rng, pdk):
    names = [n for n in c05.NAMES if ' ' not in n]
    rng.shuffle(names)
    unnamed = rng.random() < 0.3
    named = iter(names)
    while True:
        L = kvsynth.random_layout(rng, pdk, nmax=rng.choice([3, 5, 8]), size=rng.choice([1500, 4000]), min_gap=60,
                                  namer=lambda k: None if unnamed and rng.random() < 0.4 else next(named, f"N{k}"), grid=10)
        if len({L.find(o) for _, _, o in L.shapes}) >= 2 and L.labels:
            break
        named = iter(names)
    mos = mim = odd = False
    if rng.random() < 0.4:
        L.add_mos(rng, 9000, 500, rng.randint(1, 2))
        mos = True
    if pdk == 'sky130A' and rng.random() < 0.4:
        L.add_mim(rng, -9000, 0)
        mim = True
    for m, p, t in list(L.labels):
        if rng.random() < 0.5:
            L.pins.append((m, (p[0] - 40, p[1] - 40, p[0] + 40, p[1] + 40)))
    if rng.random() < 0.3:
        odd = True
        for k, g in enumerate([(250, 7), (251, 3), (46, 0), (46, 1), (46, 0), (46, 1), (253, 0), (0, 5), (254, 254)]):
            if rng.random() < 0.7 and (g[0] != 46 or pdk == 'ihp_sg13g2'):
                y = -9000 - 1500 * k
                L.extra.append((None, g, (0, y, 2000, y + 900 - 10 * k), L.new_obj()))
                L.shapes.append((1, (1500, y + 100, 3000, y + 300), L.new_obj()))
    L.dbu = rng.choice([0.001] * 4 + [0.005, 0.0005])
    return L, mos, mim, odd


def read_matrix(path):
    ls = open(path, encoding='utf-8').read().split('\n')
    return ls[0].split(';'), [[float(x) for x in ln.split(';')] for ln in ls[1:] if ln]


def elements(devs):
    """parasitic capacitors {pair: [F]}, ground resistors, further lines of a netlist written by kpex"""
    cap, res, rest, names = collections.defaultdict(list), [], [], []
    for w in devs:
        if w[-1] in ('PEX_CAP', 'PEX_RES') and len(w) == 5:
            pr = tuple(sorted((c05.unmangle(w[1]), c05.unmangle(w[2]))))
            names.append(w[0])
            if w[-1] == 'PEX_CAP':
                cap[pr].append(float(w[3]))
            else:
                res.append((pr, float(w[3])))
        else:
            rest.append(' '.join([w[0]] + [c05.unmangle(x) for x in w[1:]]))
    return cap, sorted(res), sorted(rest), names


def close(a, b, scale):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-11 * scale


def solver(c, cell, tag, salt, names, top, black, opins, odevs, what):
    """files of one field solver"""
    fn = lambda s: os.path.join(cell, f"{top}_{tag}_{s}")
    try:
        rawn, raw = read_matrix(fn('Result_Matrix_Raw.csv'))
        avgn, avg = read_matrix(fn('Result_Matrix_Avg.csv'))
    except OSError as e:
        return c.violate('no-file', f"{what}: {e}")
    n = len(names)
    got = [re.sub(r'^g\d+_', '', x) if tag == 'FasterCap' else re.sub(r'%GROUP\d+$', '', x) for x in rawn]
    c.expect(got == names and avgn == rawn, 'matrix-names', f"{what}: matrices of {rawn} and {avgn}, conductors {names}")
    want = kvfake.matrix(names, salt)
    sc = max(abs(x) for r in raw for x in r)
    # the stand-in for FastCap2 prints nanofarads with six digits
    if not c.expect(len(raw) == n and all(abs(g - w * 1e-6) <= 2e-6 * abs(w * 1e-6) for gr, wr in zip(raw, want) for g, w in zip(gr, wr)),
                    'matrix-raw', f"{what}: {tag} raw matrix {raw[:2]}, printed {want[:2]} (1e-6)"):
        return
    c.count('matrix entries compared', n * n)
    for i in range(n):
        for j in range(n):
            w = raw[i][i] if i == j else (raw[i][j] + raw[j][i]) / 2
            if not c.expect(close(avg[i][j], w, 0), 'matrix-averaged', f"{what}: {tag} averaged ({i},{j}) {avg[i][j]}, raw {raw[i][j]} and {raw[j][i]}"):
                return
    # expanded netlist
    exp = collections.defaultdict(list)
    for i in range(n):
        for j in range(i + 1, n):
            exp[tuple(sorted((names[i], names[j])))].append(-avg[i][j])
        if i:
            exp[tuple(sorted((names[0], names[i])))].append(sum(avg[i]))
    noise = 1e-9 * sc
    for s, reduced in (('Expanded_Netlist.cir', False), ('Reduced_Netlist.cir', True)):
        if not os.path.isfile(fn(s)):
            return c.violate('no-file', f"{what}: no {tag} {s}")
        pins, devs, extra = c05.read_spice(fn(s), top)
        if pins is None or extra:
            return c.violate('spice-circuit', f"{what}: {tag} {s}: pins {pins}, further lines {extra[:3]}")
        cap, res, rest, dn = elements(devs)
        c.expect(pins == opins, 'pins', f"{what}: {tag} {s}: pins {pins}, in the layout {opins}")
        c.expect(len(set(dn)) == len(dn), 'device-names', f"{what}: {tag} {s}: {dn}")
        want_rest = odevs if black else []
        keep = (lambda l: [x for x in l if x[0] not in 'CR']) if reduced else (lambda l: l)
        c.count('original devices compared', len(keep(want_rest)))
        c.expect(keep(rest) == keep(want_rest), 'devices', f"{what}: {tag} {s}: devices {rest}, in the layout {want_rest}")
        c.expect(res == sorted([(('FC_GND', 'GND'), 0.0), (('GND', 'VSUBS'), 0.0)]), 'ground', f"{what}: {tag} {s}: resistors {res}")
        for pr in set(cap) | set(exp):
            e, g = sorted(x for x in exp.get(pr, []) if x > 0), sorted(cap.get(pr, []))
            if reduced:
                t = sum(e)
                if not c.expect(len(g) <= 1, 'uncombined', f"{what}: {tag} {s}: {g} between {pr}"):
                    return
                if abs(t - THRESHOLD) <= noise:
                    continue
                c.count('couplings below the threshold', 0 < t < THRESHOLD)
                e = [t] if t >= THRESHOLD else []
                ok = len(e) == len(g) and (not e or abs(e[0] - g[0]) <= noise)
            else:
                big = lambda l: [x for x in l if x > noise]      # what may be rounding of the row sums
                ok = len(big(e)) == len(big(g)) and all(abs(x - y) <= noise * 2 for x, y in zip(big(e), big(g)))
                ok &= all(x > 0 for x in g)
            c.count('couplings compared')
            if not c.expect(ok, 'coupling-' + ('reduced' if reduced else 'expanded'), f"{what}: {tag} {s}: {g} between {pr}, matrix says {e}"):
                return
            c.saw([tag, reduced, pr, ['%.6g' % x for x in e]])
        if not reduced:
            exp_written = cap
    if tag == 'FasterCap':
        rows = [l.split(';') for l in open(fn('Expanded_Netlist.csv'), encoding='utf-8').read().split('\n')[1:] if l]
        g = collections.defaultdict(list)
        for r in rows:
            g[tuple(sorted(r[1:3]))].append(float(r[3]))
        c.expect(len({r[0] for r in rows}) == len(rows), 'csv', f"{what}: device names in the table repeat")
        for pr in set(g) | set(exp_written):
            a, b = sorted(g.get(pr, [])), sorted(exp_written.get(pr, []))
            c.count('table rows compared', len(b))
            if not c.expect(len(a) == len(b) and all(abs(x - y * 1e15) <= 0.00501 for x, y in zip(a, b)), 'csv', f"{what}: table says {a} fF between {pr}, netlist {b} F"):
                return


def read_stl(path, dbu):
    """{(axis, plane, side): region} of outward faces; None: not on the grid, not axis-parallel or not a solid; how much the triangles overlap"""
    faces, v, area, vol, vec = {}, [], collections.Counter(), 0, [0, 0, 0]
    text = open(path, encoding='utf-8').read().split('\n')
    if text[0].split()[:1] != ['solid'] or [x for x in text if x.strip()][-1].split()[:1] != ['endsolid']:
        return None, 'no STL file'
    for ln in text:
        w = ln.split()
        if w[:1] == ['vertex']:
            p = [float(x) / dbu for x in w[1:4]]
            q = [round(x) for x in p]
            if any(abs(a - b) > 1e-3 for a, b in zip(p, q)):
                return None, f"vertex {ln} is off the grid"
            v.append(q)
        elif w[:1] == ['endloop']:
            if len(v) != 3:
                return None, f"facet of {len(v)} vertices"
            e1, e2 = [v[1][i] - v[0][i] for i in range(3)], [v[2][i] - v[0][i] for i in range(3)]
            n = [e1[1] * e2[2] - e1[2] * e2[1], e1[2] * e2[0] - e1[0] * e2[2], e1[0] * e2[1] - e1[1] * e2[0]]
            nz = [i for i in range(3) if n[i]]
            vol += sum(v[0][i] * n[i] for i in range(3))
            vec = [a + b for a, b in zip(vec, n)]
            if len(nz) > 1:
                return None, f"facet with normal {n}"
            if nz:
                ax = nz[0]
                u, s = [i for i in range(3) if i != ax]
                k = (ax, v[0][ax], 1 if n[ax] > 0 else -1)
                faces.setdefault(k, kdb.Region()).insert(kdb.Polygon([kdb.Point(q[u], q[s]) for q in v]))
                area[k] += abs(n[ax])
            v = []
    out = {}
    for k, r in faces.items():
        out[k] = r.merged()
        if 2 * out[k].area() != area[k]:
            return None, f"facets in plane {k} overlap"
    if any(vec):
        return None, f"surface is not closed, its areas add up to {vec}"
    if vol <= 0:
        return None, f"surface encloses the volume {vol / 6}: it is turned inside out"
    return out, vol / 6


def surfaces(c, cell, lst, dbu, k_void, ks, what, history):
    """the STL files are the solids whose surfaces the solver gets"""
    m = c09.read_model(c, what, lst, dbu, k_void)
    if m is None:
        return
    model, names, _ = m
    geo = {}
    for k, ps in model.items():
        r = kdb.Region()
        for p in ps:
            r.insert(p)
        geo[k] = r.merged()
    cond, diel = {}, {}
    t0 = os.stat(lst).st_mtime_ns
    for p in sorted(glob.glob(os.path.join(glob.escape(cell), 'Geometries', '*.stl'))):
        if history and os.stat(p).st_mtime_ns < t0:
            continue                          # of an earlier run with other nets
        f, msg = read_stl(p, dbu)
        b = os.path.basename(p)
        if f is None:
            return c.violate('stl', f"{what}: {b}: {msg}")
        c.count('STL files read')
        if b.startswith('cond_'):
            cond[b[5:-4]] = f
        elif b.startswith('diel_'):
            diel[b[5:-4]] = f
        else:
            c.violate('stl-name', f"{what}: {b} is neither a conductor nor a dielectric")
    if not c.expect(len(cond) == len(names), 'stl-conductors', f"{what}: surfaces of {sorted(cond)}, conductors {names}"):
        return
    none = kdb.Region()
    bynet = {}
    for net in names:
        want = {}
        for k, r in geo.items():
            if k[0] == 'C' and k[1] == net:
                want.setdefault(k[3:], kdb.Region())
                want[k[3:]] += r
        fit = [n for n, f in cond.items() if all((want.get(k, none) ^ f.get(k, none)).is_empty() for k in set(want) | set(f))]
        if not c.expect(bool(fit), 'stl-conductor', f"{what}: no STL file has the surface of {net} (files of {sorted(cond)})"):
            return
        if re.fullmatch(r'[A-Za-z0-9_]{1,60}', net):
            c.expect(net in fit, 'stl-conductor', f"{what}: cond_{net}.stl is not the surface of {net}, {fit} is")
        bynet[net] = cond[fit[0]]
        c.count('conductor surfaces compared')
    if not c.expect(set(diel) <= set(ks), 'stl-dielectrics', f"{what}: dielectrics {sorted(diel)}"):
        return
    perm = {}                                 # what lies at the inner side of every face
    for n, f in diel.items():
        for k, r in f.items():
            perm.setdefault((ks[n], k), kdb.Region())
            perm[(ks[n], k)] += r
    values = {ks[n] for n in diel} | {k_void}
    for ax, plane in {k[-2:] if k[0] == 'D' else k[3:5] for k in geo} | {k[:2] for f in diel.values() for k in f}:
        for lo in values:
            up = perm.get((lo, (ax, plane, 1)), none)
            for hi in values - {lo}:
                dn = perm.get((hi, (ax, plane, -1)), none)
                if lo == k_void:
                    want = dn - sum_regions(f.get((ax, plane, 1)) for f in [*diel.values(), *bynet.values()])
                elif hi == k_void:
                    want = up - sum_regions(f.get((ax, plane, -1)) for f in [*diel.values(), *bynet.values()])
                else:
                    want = up & dn
                got = geo.get(('D', lo, hi, ax, plane), none)
                if want.is_empty() and got.is_empty():
                    continue
                c.count('dielectric interfaces compared')
                if not c.expect((want ^ got).is_empty(), 'stl-interface', f"{what}: interface {lo} to {hi} at {'xyz'[ax]}={plane}: "
                                f"{want.area()} dbu^2 by the STL files, {got.area()} in the solver's input, differing in {(want ^ got).area()}"):
                    return
        for net, f in bynet.items():
            for side in (1, -1):
                r = f.get((ax, plane, side))
                if r is None:
                    continue
                for k in values:
                    if k == k_void:
                        want = r - sum_regions(g.get((ax, plane, -side)) for g in diel.values())
                    else:
                        want = r & perm.get((k, (ax, plane, -side)), none)
                    got = geo.get(('C', net, k, ax, plane, side), none)
                    c.count('conductor faces compared', not want.is_empty())
                    if not c.expect((want ^ got).is_empty(), 'stl-face', f"{what}: {net} in {k} at {'xyz'[ax]}={plane}: {want.area()} dbu^2 by the STL files, {got.area()} in the solver's input"):
                        return


def sum_regions(rs):
    out = kdb.Region()
    for r in rs:
        if r is not None:
            out += r
    return out.merged()


def dumps(c, cell, top, path, pdk, black, what):
    """the layout files hold the shapes of the LVS database"""
    comp, _ = c22.tech(pdk)
    want, ref = c22.expected(path)
    pairs, unknown = {}, {}
    for name, nets in want.items():
        if name not in comp:
            if ref.internal_layout().get_info(ref.layer_index(name)) != kdb.LayerInfo():
                unknown[name] = nets
            continue
        pair, kind, canon = comp[name]
        if kind == 'KIND_LABEL' or black and kind in c22.DEVICE_KINDS:
            continue
        for n, r in nets.items():
            pairs.setdefault(pair, {}).setdefault(n, kdb.Region())
            pairs[pair][n] += r
    dbu = ref.internal_layout().dbu

    def read(s):
        p = os.path.join(cell, f"{top}_{s}")
        if not os.path.isfile(p):
            return c.violate('no-file', f"{what}: no {os.path.basename(p)}")
        ly = kdb.Layout()
        ly.read(p)
        c.count('layout files read')
        c.expect(abs(ly.dbu - dbu) < 1e-12, 'dump-unit', f"{what}: {s} has a database unit of {ly.dbu}, the database {dbu}")
        return ly

    def whole(ly, pair):
        r = kdb.Region()
        for i in ly.layer_indexes():
            li = ly.get_info(i)
            if (li.layer, li.datatype) == pair:
                for t in ly.top_cells():
                    r += kdb.Region(t.begin_shapes_rec(i))
        return r.merged()

    ly = read('nonempty_LVS_layers.gds.gz')
    if ly is None:
        return
    c.expect([x.name for x in ly.top_cells()] == [top], 'dump-cell', f"{what}: nonempty layers in cells {[x.name for x in ly.top_cells()]}")
    for pair, nets in pairs.items():
        w = sum_regions(nets.values())
        g = whole(ly, pair)
        c.count('dumped layers compared')
        if not c.expect((w ^ g).is_empty(), 'dump-layer', f"{what}: layer {pair} of the nonempty layers: {g}, in the database {w}"[:900]):
            return
    more = [p for p in {(i.layer, i.datatype) for i in ly.layer_infos()} - set(pairs) if not whole(ly, p).is_empty()]
    c.expect(not more, 'dump-layer', f"{what}: nonempty layers {more} are not in the database")
    ly = read('l2n_extracted.oas')
    if ly is None:
        return
    for pair, nets in pairs.items():
        got = {}
        for i in ly.layer_indexes():
            li = ly.get_info(i)
            if (li.layer, li.datatype) == pair:
                it = [t for t in ly.top_cells() if t.name == top][0].begin_shapes_rec(i)
                while not it.at_end():
                    if not it.shape().is_text():
                        got.setdefault(it.shape().property('net'), kdb.Region()).insert(it.trans() * it.shape().polygon)
                    it.next()
        bad = [n for n in set(got) | set(nets) if n not in got or n not in nets or not (got[n].merged() ^ nets[n].merged()).is_empty()]
        c.count('annotated layers compared')
        if not c.expect(not bad, 'dump-nets', f"{what}: layer {pair} of the annotated layout differs for nets {bad}"):
            return
    ly = read('l2n_internal.oas')
    if ly is None:
        return
    a, b = kdb.Region(), kdb.Region()
    for i in ref.internal_layout().layer_indexes():
        if ref.internal_layout().get_info(i) != kdb.LayerInfo():        # KLayout writes no layers without a number or name
            a += kdb.Region(ref.internal_layout().top_cell().begin_shapes_rec(i))
    for i in ly.layer_indexes():
        for t in ly.top_cells():
            b += kdb.Region(t.begin_shapes_rec(i))
    c.count('internal layouts compared', not a.is_empty())
    c.expect((a.merged() ^ b.merged()).is_empty() and {t.name for t in ly.top_cells()} == {t.name for t in ref.internal_layout().top_cells()},
             'dump-internal', f"{what}: the internal layout was written differently: {b.bbox()} instead of {a.bbox()}")
    if unknown:
        ly = read('unnamed_LVS_layers.gds.gz')
        if ly is None:
            return
        got = sorted(str(whole(ly, (i.layer, i.datatype))) for i in ly.layer_infos())
        exp = sorted(str(sum_regions(nets.values())) for nets in unknown.values())
        c.count('layers unknown to the technology', len(exp))
        c.expect(got == exp, 'dump-unnamed', f"{what}: unnamed layers {got}, in the database {exp}"[:900])


def case(c):
    logging.disable(logging.CRITICAL)
    rng = c.rng
    pdk = rng.choice(['sky130A', 'ihp_sg13g2'])
    top = rng.choice(['TOP', 'TOP', 'my_cell', 'cell_2'])
    db = os.path.join(c.dir, 'in.lvsdb' + rng.choice(['', '.gz']))
    out, logs = os.path.join(c.dir, 'out'), os.path.join(c.dir, 'logs')
    os.makedirs(logs)
    kvcli._ref.clear()
    os.environ.pop('KV_SPREAD', None)
    if rng.random() < 0.7:
        os.environ['KV_SPREAD'] = '1'
    names = list(dict.fromkeys(n for n, k, p in c09.stack(pdk) if k in ('side', 'conf', 'simple')))
    ks = {}
    for n, k, p in c09.stack(pdk):
        if k in ('side', 'conf', 'simple', 'fox'):
            ks.setdefault(n, p['dielectric_k'])
    history = rng.random() < 0.25
    for run in ([0, 1] if history else [1]):
        L, mos, mim, odd = layout(rng, pdk)
        lvs = kvlvs.extract(L.to_kdb(top=top, pins=True, hier=rng if rng.random() < 0.3 else None), top, pdk, devices=mos, capdev=mim, odd=odd)
        lvs.write(db)
        engines = {e for e in ('fc', 'f2', '25') if rng.random() < 0.6} or {'fc'}
        black = rng.choice([None, True, False])
        sub = rng.sample(names, rng.randint(0, len(names)))
        k_void = rng.choice([1.37, 2.123, 5.5])
        a = ['--pdk', pdk, '--lvsdb', db, '--out_dir', out, '--log_level', 'error', '--k_void', str(k_void), '--diel', 'none,' + ','.join('+' + x for x in sub) if sub else 'none',
             '--delaunay_amax', '0', '--delaunay_b', '0'] + [kvcli.FLAG[e] for e in sorted(engines)]
        if black is not None:
            a += ['--blackbox', 'y' if black else 'n']
        chk = kdb.LayoutVsSchematic()
        chk.read(db)
        chk.netlist().flatten()
        ci = chk.netlist().circuit_by_name(top)
        nn = [n.expanded_name() for n in ci.each_net()] if ci else []
        if not nn or len(set(nn)) != len(nn):
            return c.count('layouts skipped: KLayout drops the top cell or gives two nets one name')
        what = f"kpex {' '.join(x for x in a if x not in (db, out))} (nets {nn[:8]}){' second run' * (history and run)}"[:900]
        r = kvflow.kpex(a, env=kvcli.env(logs))
        if r.status:
            return c.violate(kvcore.crash_key(r.exc) if r.exc and not isinstance(r.exc, SystemExit) else 'run-failed', f"{what}: {getattr(r, 'tb', r.out)[-900:]}")
    cell = os.path.join(out, f"in__{top}")
    c.saw([pdk, sorted(engines), black, sub, len(nn)])
    for e in engines:
        c.count('runs of ' + e)
    c.count('runs of several engines', len(engines) > 1)
    c.count('runs in a used directory', history)
    c.count('runs with devices kept', bool(black and (mos or mim)))
    if engines & {'fc', 'f2'}:
        lst = os.path.join(cell, 'FasterCap_Input_Files', 'FasterCap_Input_.lst')
        conductors = kvfake.conductors(lst)
        opins, odevs, _, onets = c05.original(db, c.dir, top, False)
        c.expect(set(conductors) <= onets | {'VSUBS'}, 'conductors', f"{what}: conductors {conductors}, nets {sorted(onets)}")
        for e, tag, salt in (('fc', 'FasterCap', 'FasterCap'), ('f2', 'FastCap2', 'FastCap')):
            if e in engines and not c.violations:
                solver(c, cell, tag, salt, conductors, top, bool(black), opins, odevs, what)
        if not c.violations:
            surfaces(c, cell, lst, L.dbu, k_void, ks, what, history)
    if '25' in engines and len(engines) > 1 and not c.violations:
        d = os.path.join(c.dir, 'alone')
        r = kvflow.kpex([x if x != out else d for x in a if x not in (kvcli.FLAG['fc'], kvcli.FLAG['f2'])], env=kvcli.env(logs))
        f = f"in__{top}/{top}_k25d_pex_netlist"
        for s in ('.csv', '.spice'):
            x, y = (open(os.path.join(o, f + s), encoding='utf-8').read() if os.path.isfile(os.path.join(o, f + s)) else None for o in (out, d))
            lines = lambda t: sorted(t.split('\n')) if t is not None else None
            c.count('netlists of engines run together compared')
            c.expect(x is not None and same_numbers(lines(x), lines(y)), 'together', f"{what}: {f + s} is different if the engine is run alone")
    if not c.violations:
        dumps(c, cell, top, db, pdk, bool(black), what)
    os.environ.pop('KV_SPREAD', None)
    c.sample = dict(options=a[6:], nets=nn[:5])


def same_numbers(a, b):
    return a is not None and b is not None and a == b


def main():
    ck = kvcore.Check('C25', 'random layouts with devices, pins, unnamed nets and layers unknown to the technology through kpex with stand-in solvers, one to three engines at once, fresh or used '
                      'output directories; an evaluation is one coupling followed from the matrix into expanded and reduced netlist; distinct by '
                      'engine, file, pair and value',
                      required=['matrix entries compared', 'couplings compared', 'couplings below the threshold', 'table rows compared', 'original devices compared', 'STL files read',
                                'conductor surfaces compared', 'dielectric interfaces compared', 'conductor faces compared', 'dumped layers compared',
                                'annotated layers compared', 'internal layouts compared', 'layers unknown to the technology', 'runs in a used directory', 'runs of several engines',
                                'runs with devices kept', 'netlists of engines run together compared'],
                      assumptions=['net names without semicolons (the tables have no quoting) and blanks (separators of the solvers)', 'surfaces in the output directory that an earlier run of other nets left behind are '
                                   'not counted', 'FasterCap and FastCap2 are stand-ins: neither is installed here'])
    ck.run(case, 700, 5000)
    return ck.finish()
