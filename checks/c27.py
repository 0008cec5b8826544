"""C27: helper scripts: converting a layout to the other PDK loses and moves nothing, layer names of an LVS log are listed completely."""
import collections, contextlib, hashlib, importlib.util, io, logging, os, re, sys
import xml.etree.ElementTree as ET
import klayout.db as kdb
import kvcore, kvflow, kvlvs

# which layer is which in the other technology: the nth metal (li1 counts as the first), cut between the same, wells, implants ...
METALS = [('li1', 'Metal1'), ('met1', 'Metal2'), ('met2', 'Metal3'), ('met3', 'Metal4'), ('met4', 'Metal5'), ('met5', 'TopMetal1')]
CUTS = [('licon1', 'Cont'), ('mcon', 'Via1'), ('via', 'Via2'), ('via2', 'Via3'), ('via3', 'Via4'), ('via4', 'TopVia1')]
FORTH = {}
for a, b in METALS:
    FORTH[a + '.drawing'], FORTH[a + '.pin'], FORTH[a + '.label'] = [b + '.drawing'], [b + '.pin'], [b + '.pin', b + '.text']
for a, b in CUTS + [('tap', 'Activ'), ('diff', 'Activ'), ('nwell', 'NWell'), ('pwell', 'PWell'), ('nsdm', 'nSD'), ('psdm', 'pSD'), ('poly', 'GatPoly')]:
    FORTH[a + '.drawing'] = [b + '.drawing']
FORTH.update({'nwell.label': ['NWell.pin', 'NWell.label'], 'pwell.label': ['PWell.pin', 'PWell.label'], 'pwell.pin': ['PWell.pin'],
              'prBoundary.boundary': ['prBoundary.boundary'], 'capacitor.drawing': ['Recog.mom'], 'capm2.drawing': ['MIM.drawing']})
BACK = collections.defaultdict(list)
for a, bs in FORTH.items():
    for b in bs:
        BACK[b].append(a)
_lyp = {}


def lyp(k):
    """{layer name: (layer, datatype)}, all pairs, pairs whose name several layers have"""
    if k not in _lyp:
        p = os.path.join(kvflow.REPO, 'pdk', ['sky130A', 'ihp_sg13g2'][k], 'libs.tech', 'kpex', ['sky130A.lyp', 'sg13g2.lyp'][k])
        by, pairs = collections.defaultdict(list), set()
        for e in ET.parse(p).getroot().findall('./properties'):
            g = tuple(int(x) for x in re.match(r'(\d+)/(\d+)', e.findtext('source')).groups())
            by[e.findtext('name').split()[0]].append(g)
            pairs.add(g)
        _lyp[k] = ({n: g[0] for n, g in by.items() if len(g) == 1}, pairs, {x for g in by.values() if len(g) > 1 for x in g})
    return _lyp[k]


def script(name, args):
    """runs a script of the repository; (status, output, exception)"""
    spec = importlib.util.spec_from_file_location('kv_' + name, os.path.join(kvflow.REPO, name + '.py'))
    m = importlib.util.module_from_spec(spec)
    buf, old, status, exc = io.StringIO(), sys.argv, 0, None
    sys.argv = [name + '.py'] + args
    sys.modules[spec.name] = m
    from klayout_pex.log import set_log_level, LogLevel
    set_log_level(LogLevel.SUBPROCESS)     # as in a new process
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            spec.loader.exec_module(m)
            m.main()
    except SystemExit as e:
        status = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except kvcore.Hang:
        raise
    except BaseException as e:
        status, exc = 1, e
    finally:
        sys.argv = old
        sys.modules.pop(spec.name, None)
    return status, buf.getvalue(), exc


def shapes(ly, cell, li):
    """region and texts of a layer, as drawn"""
    r, t, paths = kdb.Region(), collections.Counter(), 0
    it = cell.begin_shapes_rec(li)
    while not it.at_end():
        s = it.shape()
        if s.is_text():
            x = it.trans() * s.text
            t[x.string, x.x, x.y] += 1
        elif s.polygon is not None:
            r.insert(it.trans() * s.polygon)
        it.next()
    return r.merged(), set(t)


def content(ly):
    """{top cell: {(layer, datatype): (merged region, texts)}}"""
    out = {}
    for top in ly.top_cells():
        d = {}
        for li in ly.layer_indexes():
            i = ly.get_info(li)
            r, t = shapes(ly, top, li)
            if not r.is_empty() or t:
                a, b = d.get((i.layer, i.datatype), (kdb.Region(), set()))
                d[i.layer, i.datatype] = ((a + r).merged(), b | t)
        out[top.name] = d
    return out


def loglevel(rng):
    level = rng.choice(['all', 'debug', 'subprocess', 'verbose', 'info', 'WARNING', 'Error', 'critical', 'ERROR', 'Info'])
    return ['--log_level', level] if rng.random() < 0.4 else []


def dump(c):
    """the layers of both technologies are listed"""
    rng = c.rng
    out = os.path.join(c.dir, 'out.gds')
    logging.disable(logging.NOTSET)
    status, text, exc = script('convert_layout_pdk', [rng.choice(['-l', '--layers']), '-i', out + '.x', '-o', out])
    if exc is not None or status != 0:
        c.violate(kvcore.crash_key(exc) if exc else 'no-output', f"convert_layout_pdk -l: status {status}, {exc!r}\n{text[-600:]}")
        return
    t = re.sub(r'\s+', '', text)
    for k in (0, 1):
        for n, (l, d) in lyp(k)[0].items():
            c.count('layers listed')
            if f"('{n}','{l}/{d}')" not in t:
                c.violate('layers', f"convert_layout_pdk -l does not list {n} {l}/{d}")
                return
    c.expect(not os.path.exists(out), 'layers', 'convert_layout_pdk -l wrote a layout')


def convert(c):
    rng = c.rng
    src = rng.randrange(2)
    names, pairs, several = lyp(src)
    onames, opairs, _ = lyp(1 - src)
    table = FORTH if src == 0 else BACK
    known = [n for n in table if n in names]
    pool = rng.sample(known, rng.randint(min(4, len(known)), len(known)))
    pool += rng.sample(sorted(set(names) - set(table)), rng.randint(0, 3))
    used = [names[n] for n in pool] + [(rng.randrange(260, 400), rng.randrange(0, 30)) for _ in range(rng.randint(0, 2))]
    # layers whose numbers mean something in the other technology only
    used += rng.sample(sorted(opairs - pairs), rng.choice([0, 1, 3, 9]) if len(used) > 12 else rng.choice([0, 1]))
    used = [g for g in dict.fromkeys(used) if g not in several and g not in ((235, 4),) or g == names.get('prBoundary.boundary')]
    rank = [sum(g in lyp(k)[1] for g in used) for k in (0, 1)]
    if rank[src] <= rank[1 - src]:
        c.count('cases skipped: the layout could be of either technology')
        return
    ly = kdb.Layout()
    ly.dbu = rng.choice([0.001, 0.001, 0.005])
    tops = [ly.create_cell(n) for n in rng.sample(['TOP', 'ALT', 'a$1'], rng.choice([1, 1, 2]))]
    subs = [ly.create_cell(f"SUB{k}") for k in range(rng.choice([0, 1, 3]))]
    for k, s in enumerate(subs):
        host = subs[k - 1] if k and rng.random() < 0.5 else rng.choice(tops)
        t = kdb.Trans(rng.randrange(4), rng.random() < 0.5, rng.randrange(-9000, 9000), rng.randrange(-9000, 9000))
        host.insert(kdb.CellInstArray(s.cell_index(), t, kdb.Vector(12000, 0), kdb.Vector(0, 9000), rng.randint(1, 3), rng.randint(1, 2))
                    if rng.random() < 0.5 else kdb.CellInstArray(s.cell_index(), t))
    for g in rng.sample(used, len(used)):
        li = ly.layer(*g)
        for _ in range(rng.randint(1, 4)):
            cell = rng.choice(tops + subs)
            x, y = rng.randrange(-5000, 5000), rng.randrange(-5000, 5000)
            what = rng.random()
            if what < 0.5:
                cell.shapes(li).insert(kdb.Box(x, y, x + rng.randrange(10, 900), y + rng.randrange(10, 900)))
            elif what < 0.65:
                cell.shapes(li).insert(kdb.Polygon([kdb.Point(x, y), kdb.Point(x + 500, y + 70), kdb.Point(x + 100, y + 900)]))
            elif what < 0.8:
                cell.shapes(li).insert(kdb.Path([kdb.Point(x, y), kdb.Point(x + 800, y), kdb.Point(x + 800, y + 600)], 100))
            else:
                cell.shapes(li).insert(kdb.Text(rng.choice(['A', 'VDD', 'out<3>']), x, y))
    ext = rng.choice(['gds', 'gds', 'oas', 'gds.gz'])
    inp, out = os.path.join(c.dir, 'in.' + ext), os.path.join(c.dir, 'out.' + ext)
    ly.write(inp)
    ly = kdb.Layout()
    ly.read(inp)                       # as the script sees it
    want = {}
    got_layers = {(ly.get_info(li).layer, ly.get_info(li).datatype) for li in ly.layer_indexes()}
    back = {g: n for n, g in names.items()}
    dest = {}
    for g in got_layers:
        n = back.get(g)
        to = [onames[x] for x in table.get(n, []) if x in onames]
        dest[g] = to or [(1000 + g[0], g[1])]
        c.count('layers mapped' if to else 'layers without counterpart')
    for top, d in content(ly).items():
        w = want.setdefault(top, {})
        for g, (r, t) in d.items():
            for x in dest[g]:
                a, b = w.get(x, (kdb.Region(), set()))
                w[x] = ((a + r).merged(), b | t)
    rank = [sum(g in lyp(k)[1] for g in got_layers) for k in (0, 1)]
    if rank[src] <= rank[1 - src]:
        c.count('cases skipped: the layout could be of either technology')
        return
    before = hashlib.sha1(open(inp, 'rb').read()).hexdigest()
    status, text, exc = script('convert_layout_pdk', ['--in' if rng.random() < 0.5 else '-i', inp, '--out' if rng.random() < 0.5 else '-o', out] + loglevel(rng))
    what = f"convert_layout_pdk of layers {sorted(got_layers)} of {['sky130A', 'sg13g2'][src]}"
    c.expect(hashlib.sha1(open(inp, 'rb').read()).hexdigest() == before, 'input-changed', f"{what}: the input was changed")
    if exc is not None or status != 0 or not os.path.isfile(out):
        c.violate(kvcore.crash_key(exc) if exc else 'no-output', f"{what}: status {status}, {exc!r}\n{text[-900:]}")
        return
    res = kdb.Layout()
    res.read(out)
    c.expect(abs(res.dbu - ly.dbu) < 1e-12, 'database-unit', f"{what}: database unit {res.dbu} instead of {ly.dbu}")
    got = content(res)
    # cells without content are nobody's concern
    got, want = ({k: v for k, v in x.items() if v} for x in (got, want))
    if not c.expect(set(got) == set(want), 'cells', f"{what}: cells {sorted(got)} instead of {sorted(want)}"):
        return
    for top, w in want.items():
        g = {k: v for k, v in got[top].items() if src == 0 or k not in lyp(0)[2]}
        for k in sorted(set(w) | set(g)):
            a, b = w.get(k, (kdb.Region(), set())), g.get(k, (kdb.Region(), set()))
            c.count('layers compared')
            x = a[0] ^ b[0]
            if not all(p.is_rectilinear() for p in a[0].each()):
                x.size(-1)              # crossing points of slanted edges are rounded when shapes are merged
            if not x.is_empty() or a[1] != b[1]:
                c.violate('layer-content', f"{what}: cell {top} layer {k}: area {b[0].area()}, texts {sorted(b[1])[:4]}, expected area {a[0].area()}, "
                          f"texts {sorted(a[1])[:4]}; from {[s for s in dest if k in dest[s]]}")
                return
            c.saw([src, k, a[0].area(), len(a[1])])
    c.count('layouts converted ' + ['forth', 'back'][src])


def refused(c):
    """what cannot be converted"""
    rng = c.rng
    out = os.path.join(c.dir, 'out.gds')
    how = rng.choice(['missing', 'level', 'garbage', 'empty', 'folder'])
    inp = os.path.join(c.dir, 'in.gds')
    ly = kdb.Layout()
    ly.create_cell('TOP').shapes(ly.layer(68, 20)).insert(kdb.Box(0, 0, 100, 100))
    ly.write(inp)
    a = ['-i', inp, '-o', out]
    if how == 'missing':
        a[1] = inp + '.x'
    elif how == 'level':
        a += ['--log_level', 'nonsense']
    elif how == 'folder':
        a[3] = out = os.path.join(c.dir, 'nowhere', 'out.gds')
    elif how == 'garbage':
        open(inp, 'wb').write(b'no layout at all')
    elif how == 'empty':
        open(inp, 'wb').close()
    logging.disable(logging.NOTSET)
    status, text, exc = script('convert_layout_pdk', a)
    c.count('impossible conversions')
    c.expect(status != 0 and not os.path.exists(out), 'refused', f"convert_layout_pdk with {how}: status {status}, output {os.path.exists(out)}")
    c.expect(how in ('garbage', 'empty') or exc is None and 'ERROR' in text, 'refused', f"convert_layout_pdk with {how} is not reported: {exc!r}")
    c.saw([how])


def names(c):
    """declarations of the layer names an LVS log mentions"""
    rng = c.rng
    pool = ['met1_con', 'li', 'nwell', 'a', 'A', 'pwell_sub', 'via1_2', 'x9', 'tap_con', 'licon', 'capm2', 'psd_fet', 'metal5_con', 'z']
    pool += [f"layer{i}" for i in range(30)]
    use = rng.sample(pool, rng.choice([0, 1, 9, 10, 11, 19, 20, 21, rng.randint(1, 40)]))
    lines = []
    for n in use:
        for _ in range(rng.choice([1, 1, 2])):
            lines.append(f"{rng.choice(['2024-05-01 12:00:00 +0200: Memory Usage (1)', 'INFO', 'x'])} : {n} has {rng.randrange(10 ** 6)} polygons")
    lines += rng.sample(['Starting LVS', 'nwell has 3 polygons', 'x : other has some polygons', 'x : foo has 3 polygons left', '', ' : - : '], rng.randint(0, 5))
    rng.shuffle(lines)
    log, out = os.path.join(c.dir, 'lvs.log'), os.path.join(c.dir, 'names.rb')
    open(log, 'w').write('\n'.join(lines) + ('\n' if rng.random() < 0.7 else ''))
    status, text, exc = script('lvs_layer_names', ['--out', out, log] + loglevel(rng))
    if exc is not None or status != 0:
        c.violate(kvcore.crash_key(exc) if exc else 'no-output', f"lvs_layer_names: status {status}, {exc!r}\n{text[-600:]}")
        return
    t = open(out).read()
    m = re.search(r'%w\((.*?)\)\.each do \|(\w+)\|\s+name\(eval\(\2\), \2\)\s+end', t, re.S)
    got = m.group(1).split() if m else None
    c.count('names listed', len(use))
    c.expect(got is not None and sorted(got) == sorted(use), 'names', f"lvs_layer_names lists {got} for a log of {sorted(use)}")
    c.saw(['names', sorted(use)])


def case(c):
    logging.disable(logging.CRITICAL)
    k = c.idx % 8
    (names if k == 7 else dump if c.idx % 80 == 11 else refused if k == 3 else convert)(c)


def main():
    ck = kvcore.Check('C27', 'random layouts of either technology (hierarchies, several top cells, paths, texts, unknown layers) through '
                      'convert_layout_pdk.py, impossible requests, LVS logs through lvs_layer_names.py; an evaluation is one layer of a '
                      'converted cell compared with the layers it comes from; distinct by layer and content',
                      required=['layers mapped', 'layers without counterpart', 'layers compared', 'layouts converted forth', 'layouts converted back',
                                'impossible conversions', 'names listed', 'layers listed'],
                      assumptions=['most layers of the layout are of its technology', 'layer names that several layers have (boundary) are not judged',
                                   'shapes may be merged, texts are compared by string and place'])
    ck.run(case, 1600, 12000)
    ck.finish()
