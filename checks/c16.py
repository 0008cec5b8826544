"""C16: technology data is deterministic, self-consistent and read as written."""
import copy, glob, json, math, os, random, re, shutil, struct, subprocess, tempfile
import google.protobuf.json_format as jf
import kvcore, kvflow

B = {}       # what main() built: gen, driver (or None), log
PDKS = ('sky130A', 'ihp_sg13g2')
OPT = {'ASAN_OPTIONS': 'detect_leaks=1:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1', 'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=78'}


# ---------------------------------------------------------------- builds

def sh(cmd, env=None, timeout=600, **kw):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout, **kw)


def build(root):
    """gen_tech_pb of the current tree with sanitizers, and the driver, in a scratch directory"""
    src = os.path.join(root, 'src')
    os.makedirs(os.path.join(src, 'klayout_pex_protobuf'))
    for d in ('cxx', 'protos'):
        shutil.copytree(os.path.join(kvcore.REPO, d), os.path.join(src, d))
    shutil.copy(os.path.join(kvcore.REPO, 'CMakeLists.txt'), src)
    bd = os.path.join(root, 'b')
    fl = '-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all'
    r = sh(['cmake', '-S', '/opt/vp/cmake', '-B', bd, '-G', 'Ninja', f"-DREPO={src}", '-DCMAKE_C_COMPILER=/usr/bin/gcc', '-DCMAKE_CXX_COMPILER=/usr/bin/g++',
            '-DCMAKE_BUILD_TYPE=None', f"-DCMAKE_CXX_FLAGS={fl}", '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON'])
    if r.returncode == 0:
        r = sh(['ninja', '-C', bd])
    if r.returncode:
        raise SystemExit(f"the sanitizer build failed:\n{r.stdout.decode()[-3000:]}")
    B['gen'] = os.path.join(bd, 'gen_tech_pb')
    objs = [o for o in glob.glob(os.path.join(bd, '**', '*.o'), recursive=True) if not o.endswith('main.cpp.o')]
    drv = os.path.join(root, 'driver')
    r = sh(['g++', '-std=c++23', *fl.split(), '-I', os.path.join(src, 'cxx', 'gen_tech_pb'), '-I', os.path.join(bd, 'generated'),
            os.path.join(kvcore.VERIF, 'cxx', 'tech_driver.cpp'), *objs, '-lprotobuf', '-lpthread', '-o', drv])
    B['driver'] = drv if r.returncode == 0 else None
    if r.returncode:
        print('note: the driver of the C++ functions does not build against this tree, its part is left out:\n' + r.stdout.decode()[-600:])


# ---------------------------------------------------------------- generator

def generator(c):
    rng = c.rng
    ref = {p: open(kvflow.tech_json(p), 'rb').read() for p in PDKS}
    n = 0
    for variant in range(8):
        out = os.path.join(c.dir, rng.choice(['out', 'a/b/c', 'with space', 'ünï'])) + str(variant)
        if rng.random() < 0.5:
            os.makedirs(out)
            if rng.random() < 0.5:
                open(os.path.join(out, 'sky130A_tech.pb.json'), 'wb').write(b'old content ' * rng.randrange(1, 20000))
        cwd = os.path.join(c.dir, f"cwd{variant}")
        os.makedirs(cwd)
        arg = out if rng.random() < 0.5 else os.path.relpath(out, cwd)
        env = dict(OPT, LC_ALL=rng.choice(['C', 'C.UTF-8', 'POSIX']), MALLOC_PERTURB_=str(rng.randrange(1, 255)), TZ=rng.choice(['UTC', 'Asia/Tokyo']), KV_PAD='x' * rng.randrange(5000))
        if variant == 7:
            exe = ['valgrind', '-q', '--error-exitcode=79', '--leak-check=no', os.path.join(kvcore.REPO, 'build', 'kpex_offline', 'gen_tech_pb')]
            if not os.path.exists(exe[-1]) or not shutil.which('valgrind'):
                continue
            c.count('runs under valgrind')
        else:
            exe = [B['gen']]
        r = sh(exe + [arg], env=env, cwd=cwd)
        c.expect(r.returncode == 0, 'generator-error', f"gen_tech_pb {arg} ended with {r.returncode}:\n{r.stdout.decode(errors='replace')[-2500:]}")
        for p in PDKS:
            f = os.path.join(out, f"{p}_tech.pb.json")
            if c.expect(os.path.exists(f), 'generator-output', f"gen_tech_pb did not write {f}"):
                c.expect(open(f, 'rb').read() == ref[p], 'not-deterministic', f"{p}: another run of the generator gave another file")
                n += 1
        c.expect(sorted(os.listdir(out)) == sorted(f"{p}_tech.pb.json" for p in PDKS) and not os.listdir(cwd), 'generator-output', f"files: {os.listdir(out)} {os.listdir(cwd)}")
    c.count('generator outputs compared', n)
    # what it cannot write
    for kind in ('no argument', 'file', 'full disk', 'directory in the way'):
        out = os.path.join(c.dir, 'bad ' + kind)
        if kind == 'file':
            open(out, 'w').close()
        elif kind != 'no argument':
            os.makedirs(out)
            f = os.path.join(out, rng.choice(PDKS) + '_tech.pb.json')
            os.symlink('/dev/full', f) if kind == 'full disk' else os.makedirs(f)
        r = sh([B['gen']] + ([] if kind == 'no argument' else [out]), env=OPT)
        c.expect(r.returncode != 0, 'silent-failure', f"gen_tech_pb ended with success although: {kind}")
        c.expect(r.returncode not in (77, 78) and b'Sanitizer' not in r.stdout and b'runtime error' not in r.stdout.replace(b'std::runtime_error', b''), 'generator-error',
                 f"{kind}: {r.stdout.decode(errors='replace')[-2000:]}")
        c.count('impossible outputs')
    c.saw(['generator', c.seed])


# ---------------------------------------------------------------- consistency

def pair(g):
    return (g.get('layer', 0), g.get('datatype', 0)) if g is not None else None


def deck_layers(pdk):
    """{(layer, datatype): {names}} and all text of the LVS decks"""
    txt = ''
    for f in sorted(glob.glob(os.path.join(kvcore.REPO, 'pdk', pdk, 'libs.tech', 'kpex', '**', '*.lvs'), recursive=True)):
        txt += open(f, errors='replace').read() + '\n'
    m = {}
    for n, _, a, b in re.findall(r'^\s*(\w+)\s*=\s*(\w+)\(\s*(\d+)\s*,\s*(\d+)\s*\)', txt, re.M):
        m.setdefault((int(a), int(b)), set()).add(n)
    return m, txt


def consistency(c, pdk):
    t = json.load(open(kvflow.tech_json(pdk), encoding='utf-8'))
    n = [0]

    def ex(ok, rule, item, msg):
        n[0] += 1
        c.expect(ok, f"consistency:{pdk}:{rule}:{item}", f"{pdk}: {msg}")

    ex(t.get('name') == pdk, 'name', '', f"the file is named {pdk}, the technology {t.get('name')}")
    layers = {l['name']: l for l in t['layers']}
    comp = {l['layer_info']['name']: l for l in t['lvs_computed_layers']}
    ex(len(layers) == len(t['layers']), 'unique', 'layers', 'layer names repeat')
    ex(len(comp) == len(t['lvs_computed_layers']), 'unique', 'computed', 'computed layer names repeat')
    used = {}
    for l in t['layers']:
        g = pair(l.get('drw_gds_pair'))
        ex(g is not None and g not in used, 'gds', l['name'], f"layers {l['name']} and {used.get(g)} share {g}")
        used[g] = l['name']
        ex(l.get('purpose') not in (None, 'PURPOSE_UNSPECIFIED'), 'purpose', l['name'], f"{l['name']} has no purpose")
    # the decks define the same numbers
    dl, txt = deck_layers(pdk)
    if dl:
        for l in t['layers']:
            for k, suffix in (('drw', ''), ('pin', 'pin'), ('label', 'label|text')):
                g = pair(l.get(k + '_gds_pair'))
                if g is None or (k != 'drw' and l['purpose'] != 'PURPOSE_METAL'):
                    continue
                low = l['name'].lower()
                stems = {re.sub(r'_(drw|pin|label|text)$', '', x.lower()) for x in dl.get(g, ())}
                ok = any(s == low or s + '1' == low or s == low + '1' or {s, low} == {'poly', 'gatpoly'} for s in stems)
                ex(ok, 'deck', f"{l['name']}.{k}", f"{l['name']} {k} is {g}, but in the LVS deck that is {sorted(dl.get(g, []))}")
                if suffix and ok:
                    ex(any(re.search(f"_({suffix})$", x) for x in dl[g]), 'deck', f"{l['name']}.{k}", f"{l['name']} {k} is {g}, in the LVS deck {sorted(dl[g])}")
        for x in comp:
            ex(re.search(r'\b%s\b' % re.escape(x), txt) is not None, 'deck', x, f"the LVS deck has no layer {x}")
    bypair = {}
    for x, l in comp.items():
        o = l.get('original_layer_name', '')
        base, _, sub = o.partition('.')
        if not ex_ok(c, base in layers, pdk, 'canonical', x, f"computed layer {x} is derived from {o}, which is no layer"):
            continue
        n[0] += 1
        g = pair(l['layer_info'].get('drw_gds_pair'))
        ex(g is not None, 'gds', x, f"{x} has no GDS pair")
        ex(bypair.setdefault(g, o) == o, 'gds', x, f"{g} is a computed layer of {o} and of {bypair[g]}")
        k = l.get('kind')
        ex(k not in (None, 'KIND_UNSPECIFIED'), 'kind', x, f"{x} has no kind")
        if k == 'KIND_PIN':
            ex(g == pair(layers[base].get('pin_gds_pair')), 'gds', x, f"{x} is {g}, the pins of {base} are {pair(layers[base].get('pin_gds_pair'))}")
        elif k == 'KIND_LABEL':
            ex(g == pair(layers[base].get('label_gds_pair')), 'gds', x, f"{x} is {g}, the labels of {base} are {pair(layers[base].get('label_gds_pair'))}")
        else:
            ex(used.get(g, base) == base, 'gds', x, f"{x} derived from {base} is {g}, which is {used.get(g)}")
            a, b = l['layer_info'].get('purpose'), layers[base].get('purpose')
            ex(a == b or {a, b} & {'PURPOSE_NTAP', 'PURPOSE_PTAP'} or {a, b} == {'PURPOSE_MIM_CAP', 'PURPOSE_METAL'}, 'purpose', x, f"{x}: {a}, its layer {base}: {b}")
    can = lambda x: comp[x]['original_layer_name'] if x in comp else x
    known = lambda x: x in layers or x in comp
    # process stack
    st = t['process_stack']['layers']
    types = [l['layer_type'] for l in st]
    ex(types.count('LAYER_TYPE_SUBSTRATE') == 1 and types.count('LAYER_TYPE_FIELD_OXIDE') == 1, 'stack', 'base', f"substrates, field oxides: {types}")
    metals = [l for l in st if l['layer_type'] == 'LAYER_TYPE_METAL']
    mz = {l['name']: (l['metal_layer'].get('z', 0), l['metal_layer'].get('thickness', 0)) for l in metals}
    ex(len(mz) == len(metals), 'unique', 'metals', 'metals of the stack repeat')
    seen, top = {l['name'] for l in st}, None
    for l in st:
        kind = l['layer_type'][len('LAYER_TYPE_'):].lower()
        fields = [k for k in l if k not in ('name', 'layer_type')]
        want = {'field_oxide': 'field_oxide_layer', 'simple_dielectric': 'simple_dielectric_layer'}.get(kind, kind + '_layer')
        ex(fields == [want], 'stack', l['name'], f"{l['name']} is a {kind} with {fields}")
        d = l.get(fields[0], {}) if fields else {}
        if kind in ('metal', 'nwell', 'diffusion'):
            ex(known(l['name']), 'stack', l['name'], f"{l['name']} of the stack is no layer")
        if kind == 'metal':
            ex(d.get('thickness', 0) > 0 and d.get('z', 0) > 0, 'physical', l['name'], f"{l['name']}: z {d.get('z')}, thickness {d.get('thickness')}")
            if top is not None:
                ex(d['z'] >= top[1], 'order', l['name'], f"{l['name']} at {d['z']} comes after {top[0]} at {top[1]}")
            top = (l['name'], d['z'])
        if 'dielectric_k' in d or 'dielectric' in kind or kind == 'field_oxide':
            ex(d.get('dielectric_k', 0) >= 1, 'permittivity', l['name'], f"{l['name']} has the relative permittivity {d.get('dielectric_k')}")
            for k, v in d.items():
                ex(not isinstance(v, float) or v >= 0, 'physical', l['name'], f"{l['name']}: {k} {v}")
        r = d.get('reference')
        if kind in ('sidewall_dielectric', 'conformal_dielectric', 'simple_dielectric'):
            ex(r in seen, 'reference', l['name'], f"{l['name']} refers to {r}, which is not in the stack")
        co = d.get('contact_above')
        if co:
            x = co.get('name')
            for k in ('name', 'layer_below', 'metal_above'):
                ex(known(co.get(k)), 'contact', f"{x}.{k}", f"contact {x} above {l['name']}: {k} {co.get(k)} is no layer")
            if not all(known(co.get(k)) for k in ('name', 'layer_below', 'metal_above')):
                continue
            for k in ('thickness', 'width', 'spacing'):
                ex(co.get(k, 0) > 0, 'contact', f"{x}.{k}", f"contact {x}: {k} {co.get(k)}")
            ex(can(co['layer_below']) == can(l['name']), 'contact-below', x, f"contact {x} of {l['name']} states the layer below {co['layer_below']}")
            z0 = d['z'] + d['thickness'] if kind == 'metal' else 0
            above = [z for m, (z, _) in mz.items() if can(m) == can(co['metal_above'])]
            ex(any(abs(z0 + co['thickness'] - z) < 1e-6 for z in above), 'contact-height', x,
               f"contact {x} goes from {z0} to {z0 + co['thickness']}, {co['metal_above']} is at {above}")
    # parasitics
    pp = t['process_parasitics']
    ex(pp.get('side_halo', 0) > 0, 'physical', 'side_halo', f"halo {pp.get('side_halo')}")
    res, cap = pp['resistance'], pp['capacitance']
    rl = {r['layer_name']: r['resistance'] for r in res['layers']}
    ex(len(rl) == len(res['layers']), 'unique', 'resistances', 'layer resistances repeat')
    mim = {can(x) for x, l in comp.items() if l['layer_info'].get('purpose') == 'PURPOSE_MIM_CAP'}
    plain = []
    for l in metals:
        m = can(l['name'])
        if m in layers and layers[m]['purpose'] == 'PURPOSE_METAL' and m not in plain:
            plain.append(m)
    for m in plain:
        ex(rl.get(m, 0) > 0, 'resistance', m, f"no resistance of {m}")
    for r in rl:
        ex(r in layers, 'name', 'R.' + r, f"resistance of {r}, which is no layer")
    rv = {r['via_name']: r['resistance'] for r in res['vias']}
    rc = {r['contact_name']: r for r in res['contacts']}
    ex(len(rv) == len(res['vias']) and len(rc) == len(res['contacts']), 'unique', 'via resistances', 'via or contact resistances repeat')
    for x, v in rv.items():
        ex(x in layers and v > 0, 'name', 'R.' + x, f"via resistance {v} of {x}")
    for x, r in rc.items():
        ex(known(x) and known(r['device_layer_name']) and known(r['layer_above']) and r['resistance'] > 0, 'name', 'R.' + x, f"contact resistance {r}")
    for l in st:
        for k in ('metal_layer', 'diffusion_layer', 'nwell_layer'):
            x = l.get(k, {}).get('contact_above', {}).get('name')
            if x:
                ex(x in rc or can(x) in rv, 'resistance', x, f"neither contact {x} nor via {can(x)} has a resistance")
    sub = {s['layer_name']: s for s in cap.get('substrates', [])}
    area = {}
    for m in plain:
        s = sub.get(m)
        ex(s is not None and s['area_capacitance'] > 0 and s['perimeter_capacitance'] > 0, 'capacitance', m, f"substrate capacitance of {m}: {s}")
        area[m] = (s or {}).get('area_capacitance', 0)
    ex(all(area[a] > area[b] for a, b in zip(plain, plain[1:])), 'order', 'substrate', f"substrate capacitances do not decrease with the height: {area}")
    ov, so = {}, {}
    for lst, d, a, b, what in ((cap['overlaps'], ov, 'top_layer_name', 'bottom_layer_name', 'overlap'), (cap['sideoverlaps'], so, 'in_layer_name', 'out_layer_name', 'side overlap')):
        for o in lst:
            k = (o[a], o[b])
            ex(abs(d.get(k, o['capacitance']) / o['capacitance'] - 1) < 0.05 if o['capacitance'] else False, 'unique', f"{what}.{k[0]}.{k[1]}", f"{what} of {k} is {d.get(k)} and {o['capacitance']}")
            d[k] = o['capacitance']
            ex(o['capacitance'] > 0, 'physical', f"{what}.{k[0]}.{k[1]}", f"{what} of {k}: {o['capacitance']}")
    # names that are no layers stand for the substrate, with the same values
    for d, key in ((ov, 'area_capacitance'), (so, 'perimeter_capacitance')):
        for (a, b), v in d.items():
            for x in (a, b):
                if x in layers:
                    continue
                ok = x == 'pwell' and (x == a or (a in sub and abs(sub[a][key] - v) < 1e-6))
                ex(ok, 'name', 'C.' + x, f"capacitance between {a} and {b}, {x} is no layer (substrate value: {sub.get(a)})")
    for i, m in enumerate(plain):
        row = [ov.get((m, b)) for b in plain[:i]]
        ex(None not in row, 'capacitance', m, f"overlap capacitances of {m} to {plain[:i]}: {row}")
        ex(None in row or all(x < y for x, y in zip([area[m]] + row, row)), 'order', m, f"overlap capacitances of {m} do not decrease with the distance: substrate {area[m]}, {plain[:i]}: {row}")
        ex(not any((m, b) in ov for b in plain[i:]), 'order', m, f"{m} overlaps layers that are not below it")
        for b in plain:
            if b != m:
                ex((m, b) in so, 'capacitance', f"{m}.{b}", f"no side overlap capacitance from {m} to {b}")
    sw = {s['layer_name']: s['capacitance'] for s in cap['sidewalls']}
    ex(len(sw) == len(cap['sidewalls']), 'unique', 'sidewalls', 'sidewall capacitances repeat')
    for m in plain:
        ex(sw.get(m, 0) > 0, 'capacitance', m, f"sidewall capacitance of {m}: {sw.get(m)}")
    c.count('table entries checked', n[0])
    c.saw(['consistency', pdk])


def ex_ok(c, ok, pdk, rule, item, msg):
    return c.expect(ok, f"consistency:{pdk}:{rule}:{item}", f"{pdk}: {msg}")


# ---------------------------------------------------------------- conversions

def fill(rng, m, depth=0):
    """random values for every field of a message, whatever fields it has"""
    for f in m.DESCRIPTOR.fields:
        if rng.random() < 0.25:
            continue
        if f.containing_oneof is not None and m.WhichOneof(f.containing_oneof.name):
            continue

        def one():
            t = f.type
            if t == f.TYPE_STRING:
                return rng.choice(['', 'a', 'met1', 'x y', 'ünï', 'a"b', "q'q", 'back\\slash', 'tab\tnl\n', '\x01', '☃' * 3, '<TODO>', 'a' * rng.randrange(300), '#', '{}', '\u2028', '😀'])
            if t in (f.TYPE_DOUBLE, f.TYPE_FLOAT):
                v = rng.choice([0.0, 1.0, -1.0, 0.1, 1e-300, 5e-324, 1.7976931348623157e308, rng.random(), rng.uniform(-1e6, 1e6), 3.9, 1 / 3, float('inf'), 123456789.125])
                return v if t == f.TYPE_DOUBLE else struct.unpack('f', struct.pack('f', max(-3e38, min(3e38, v))))[0]
            if t == f.TYPE_ENUM:
                return rng.choice(f.enum_type.values).number
            if t == f.TYPE_BOOL:
                return rng.random() < 0.5
            if t in (f.TYPE_UINT32, f.TYPE_FIXED32):
                return rng.choice([0, 1, 65, 2 ** 31, 2 ** 32 - 1])
            if t in (f.TYPE_UINT64, f.TYPE_FIXED64):
                return rng.choice([0, 1, 2 ** 53 + 1, 2 ** 64 - 1])
            if t in (f.TYPE_INT64, f.TYPE_SINT64, f.TYPE_SFIXED64):
                return rng.choice([0, -1, 2 ** 53 + 1, -2 ** 63])
            if t == f.TYPE_BYTES:
                return bytes(rng.randrange(256) for _ in range(5))
            return rng.choice([0, -1, 2 ** 31 - 1, -2 ** 31])
        rep = f.label == f.LABEL_REPEATED
        if f.type == f.TYPE_MESSAGE:
            for _ in range(rng.choice([0, 1, 2, 4]) if rep else 1):
                fill(rng, getattr(m, f.name).add() if rep else getattr(m, f.name), depth + 1)
                if not rep:
                    getattr(m, f.name).SetInParent()
        elif rep:
            getattr(m, f.name).extend(one() for _ in range(rng.choice([0, 1, 3])))
        else:
            setattr(m, f.name, one())


def close(a, b):
    """equal, numbers up to single precision"""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(close, a, b))
    if isinstance(a, float) or isinstance(b, float):
        return type(a) in (int, float) and type(b) in (int, float) and abs(a - b) <= 1e-6 * max(abs(a), abs(b))
    return a == b


def conversions(c):
    from klayout_pex.tech_info import TechInfo
    import klayout_pex_protobuf.kpex.tech.tech_pb2 as tech_pb2
    rng = c.rng
    if rng.random() < 0.3:
        m = jf.Parse(open(kvflow.tech_json(rng.choice(PDKS)), encoding='utf-8').read(), tech_pb2.Technology())
        c.count('shipped technologies converted')
    else:
        m = tech_pb2.Technology()
        fill(rng, m)
    p = os.path.join(c.dir, 'in.json')
    with open(p, 'w', encoding='utf-8') as f:
        f.write(jf.MessageToJson(m, preserving_proto_field_name=rng.random() < 0.5, including_default_value_fields=rng.random() < 0.3) if 'including_default_value_fields' in
                jf.MessageToJson.__code__.co_varnames else jf.MessageToJson(m, preserving_proto_field_name=rng.random() < 0.5))
    got = TechInfo.parse_tech_def(p)
    c.expect(got == m, 'round-trip', f"a technology written as JSON and read again differs: {first_difference(m, got)}")
    c.count('files read back')
    c.saw(['conv', m.SerializeToString(deterministic=True).hex()])
    if not B.get('driver'):
        return
    fm = {'t': 0, 'b': 1, 'j': 2}
    chain = [('in.json', 'j')] + [(f"f{k}.{x}", x) for k, x in enumerate(rng.choices('tbj', k=rng.choice([1, 2, 4])) + ['j'])]
    argv = []
    for (a, x), (b, y) in zip(chain, chain[1:]):
        argv += [a, str(fm[x]), b, str(fm[y])]
    r = sh([B['driver'], 'convert'] + argv, env=OPT)
    what = 'conversion ' + '-'.join(x for _, x in chain)
    if c.expect(r.returncode == 0, 'conversion', f"{what} ended with {r.returncode}: {r.stdout.decode(errors='replace')[-2500:]}"):
        back = TechInfo.parse_tech_def(chain[-1][0])
        c.expect(back == m, 'conversion', f"{what} changed the technology: {first_difference(m, back)}")
        for f, x in chain[1:]:
            if x == 'b':
                q = tech_pb2.Technology()
                q.ParseFromString(open(f, 'rb').read())
                c.expect(q == m, 'conversion', f"binary file: {first_difference(m, q)}")
        c.count('C++ conversions', len(chain) - 1)
    # damaged inputs are refused
    b = open(chain[-2][0], 'rb').read()
    x = chain[-2][1]
    bad = rng.choice(['missing', 'cut', 'garbage'])
    if bad == 'cut' and len(b) > 40 and x == 'j':
        open('bad', 'wb').write(b.rstrip()[:-1])
    elif bad == 'garbage':
        open('bad', 'wb').write(b'\xff\x00 no technology {{{')
    else:
        bad = 'missing'
    r = sh([B['driver'], 'convert', 'bad', str(fm[x]), 'bad.json', '2'], env=OPT)
    c.expect(r.returncode not in (77, 78) and r.returncode >= 0 and b'Sanitizer' not in r.stdout, 'conversion', f"{bad} input: {r.stdout.decode(errors='replace')[-2000:]}")
    c.expect(r.returncode == 5, 'silent-failure', f"{bad} input file in format {x} was converted as if it were a technology")
    c.count('damaged files refused')


def first_difference(a, b):
    x, y = str(a).splitlines(), str(b).splitlines()
    for i, (p, q) in enumerate(zip(x, y)):
        if p != q:
            return f"line {i}: {p!r} became {q!r}"
    return f"{len(x)} lines became {len(y)}"


def table(c):
    """the functions the tables are built with put every value where it belongs"""
    if not B.get('driver'):
        c.saw(['table', c.idx])
        return
    rng = c.rng
    name = lambda: rng.choice(['met', 'via', 'Ü', 'x y', 'a"b', '']) + str(rng.randrange(100))
    num = lambda: rng.choice([0.0, 1.0, 0.1, 3.9, 1e-6, -0.5, rng.uniform(-100, 100), rng.uniform(0, 1e5), float(rng.randrange(1000))])
    f32 = lambda: rng.choice([0.5, 55.27, 0.1, -0.023, 227.323, rng.uniform(-100, 1000)])
    purposes = ['PURPOSE_UNSPECIFIED', 'PURPOSE_DNWELL', 'PURPOSE_NWELL', 'PURPOSE_PWELL', 'PURPOSE_DIFF', 'PURPOSE_NTAP_OR_PTAP', 'PURPOSE_NTAP', 'PURPOSE_PTAP', 'PURPOSE_P_IMPLANT',
                'PURPOSE_N_IMPLANT', 'PURPOSE_CONTACT', 'PURPOSE_METAL', 'PURPOSE_VIA', 'PURPOSE_MIM_CAP']
    kinds = ['KIND_UNSPECIFIED', 'KIND_REGULAR', 'KIND_DEVICE_CAPACITOR', 'KIND_DEVICE_RESISTOR', 'KIND_PIN', 'KIND_LABEL']
    t = {'layers': [], 'lvs_computed_layers': [], 'process_stack': {'layers': []},
         'process_parasitics': {'resistance': {'layers': [], 'contacts': [], 'vias': []}, 'capacitance': {'substrates': [], 'overlaps': [], 'sidewalls': [], 'sideoverlaps': []}}}
    R, C, S = t['process_parasitics']['resistance'], t['process_parasitics']['capacitance'], t['process_stack']['layers']
    lines = []

    def nz(d):
        return {k: v for k, v in d.items() if v not in (0, 0.0, '', 'PURPOSE_UNSPECIFIED', 'KIND_UNSPECIFIED') or isinstance(v, dict)}
    for _ in range(rng.randrange(1, 25)):
        f = rng.choice(['layer', 'layer', 'computed', 'substrate', 'nwell', 'diffusion', 'fox', 'metal', 'sidewall', 'simple', 'conformal', 'rlayer', 'rlayer2', 'rcontact', 'rvia', 'csub', 'cover', 'cside', 'cfringe'])
        a = None
        gds = lambda: (rng.choice([0, 1, 65, 235, 65535, 4403]), rng.choice([0, 20, 4401, 65535]))
        gp = lambda g: nz({'layer': g[0], 'datatype': g[1]})
        con = lambda: [name(), name(), name(), num(), num(), num(), num()]
        cd = lambda k: nz(dict(zip(('name', 'layer_below', 'metal_above', 'thickness', 'width', 'spacing', 'border'), k)))

        def stack(n_, kind, d):
            S.append(nz({'name': n_, 'layer_type': 'LAYER_TYPE_' + kind.upper(), {'nwell': 'nwell'}.get(kind, kind) + '_layer': nz(d)}))
        if f == 'layer':
            p, n_, g, pg, lg = rng.randrange(14), name(), gds(), gds() if rng.random() < 0.6 else (-1, -1), gds() if rng.random() < 0.6 else (-1, -1)
            ds = name()
            a = [p, n_, *g, *pg, *lg, ds]
            e = {'purpose': purposes[p], 'name': n_, 'description': ds, 'drw_gds_pair': gp(g)}
            if pg[0] >= 0:
                e['pin_gds_pair'] = gp(pg)
            if lg[0] >= 0:
                e['label_gds_pair'] = gp(lg)
            t['layers'].append(nz(e))
        elif f == 'computed':
            p, k, n_, g, o, ds = rng.randrange(14), rng.randrange(6), name(), gds(), name(), name()
            a = [p, k, n_, *g, o, ds]
            t['lvs_computed_layers'].append(nz({'kind': kinds[k], 'layer_info': nz({'purpose': purposes[p], 'name': n_, 'description': ds, 'drw_gds_pair': gp(g)}), 'original_layer_name': o}))
        elif f == 'substrate':
            a = [name(), num(), num(), name()]
            stack(a[0], f, {'height': a[1], 'thickness': a[2], 'reference': a[3]})
        elif f in ('nwell', 'diffusion'):
            k = con()
            a = [name(), num(), name()]
            stack(a[0], f, {'z': a[1], 'reference': a[2], 'contact_above': cd(k)})
            a += k
        elif f == 'metal':
            k = con()
            a = [name(), num(), num()]
            stack(a[0], f, {'z': a[1], 'thickness': a[2], 'contact_above': cd(k)})
            a += k
        elif f == 'fox':
            a = [name(), num()]
            stack(a[0], 'field_oxide', {'dielectric_k': a[1]})
        elif f == 'sidewall':
            a = [name(), num(), num(), num(), name()]
            stack(a[0], 'sidewall_dielectric', dict(zip(('dielectric_k', 'height_above_metal', 'width_outside_sidewall', 'reference'), a[1:])))
        elif f == 'simple':
            a = [name(), num(), name()]
            stack(a[0], 'simple_dielectric', dict(zip(('dielectric_k', 'reference'), a[1:])))
        elif f == 'conformal':
            a = [name(), num(), num(), num(), num(), name()]
            stack(a[0], 'conformal_dielectric', dict(zip(('dielectric_k', 'thickness_over_metal', 'thickness_where_no_metal', 'thickness_sidewall', 'reference'), a[1:])))
        elif f in ('rlayer', 'rlayer2'):
            a = [name(), num()] + ([num()] if f == 'rlayer2' else [])
            R['layers'].append(nz(dict(zip(('layer_name', 'resistance', 'corner_adjustment_fraction'), a))))
        elif f == 'rcontact':
            a = [name(), name(), name(), num()]
            R['contacts'].append(nz(dict(zip(('contact_name', 'device_layer_name', 'layer_above', 'resistance'), a))))
        elif f == 'rvia':
            a = [name(), num()]
            R['vias'].append(nz(dict(zip(('via_name', 'resistance'), a))))
        elif f == 'csub':
            a = [name(), f32(), f32()]
            C['substrates'].append(nz(dict(zip(('layer_name', 'area_capacitance', 'perimeter_capacitance'), a))))
        elif f == 'cover':
            a = [name(), name(), f32()]
            C['overlaps'].append(nz(dict(zip(('top_layer_name', 'bottom_layer_name', 'capacitance'), a))))
        elif f == 'cside':
            a = [name(), f32(), f32()]
            C['sidewalls'].append(nz(dict(zip(('layer_name', 'capacitance', 'offset'), a))))
        else:
            a = [name(), name(), f32()]
            C['sideoverlaps'].append(nz(dict(zip(('in_layer_name', 'out_layer_name', 'capacitance'), a))))
        lines.append('\t'.join([f] + [repr(x) if isinstance(x, float) else str(x) for x in a]))
    r = sh([B['driver'], 'build', 'out.json'], env=OPT, input=('\n'.join(lines) + '\n').encode())
    if c.expect(r.returncode == 0, 'table', f"building a table ended with {r.returncode}: {r.stdout.decode(errors='replace')[-2500:]}"):
        got = json.load(open('out.json', encoding='utf-8'))
        drop = lambda d: {k: drop(v) for k, v in d.items() if v not in ([],)} if isinstance(d, dict) else d
        g, w = drop(got), drop(t)
        c.expect(close(g, w), 'table', f"a table built with {lines} reads\n{json.dumps(g, sort_keys=True)[:1500]}\nexpected\n{json.dumps(w, sort_keys=True)[:1500]}")
        c.count('built tables compared')
    c.saw(['table'] + lines)


# ---------------------------------------------------------------- lookups

def rename(x, ren):
    if isinstance(x, dict):
        return {k: (v if k in ('description', 'layer_type', 'purpose', 'kind') else rename(v, ren)) for k, v in x.items()}
    if isinstance(x, list):
        return [rename(v, ren) for v in x]
    if isinstance(x, str):
        b, dot, s = x.partition('.')
        return ren.get(x, ren[b] + dot + s if dot and b in ren else x)
    return x


def alter(rng, pdk):
    t = json.load(open(kvflow.tech_json(pdk), encoding='utf-8'))
    R, C = t['process_parasitics']['resistance'], t['process_parasitics']['capacitance']
    lists = [t['layers'], t['lvs_computed_layers'], *R.values(), *C.values()]
    what = set()
    if rng.random() < 0.5:
        what.add('names')
        names = [l['name'] for l in t['layers']] + [l['layer_info']['name'] for l in t['lvs_computed_layers']] + [l['name'] for l in t['process_stack']['layers']]
        names = sorted(set(names) - {'subs'})
        pick = rng.sample(names, rng.randrange(1, 12))
        new = [rng.choice(['', 'M', 'x y ', 'ü', 'VSUBS', 'a/b']) + str(k) for k in range(len(pick))]
        t = rename(t, dict(zip(pick, new)))
        R, C = t['process_parasitics']['resistance'], t['process_parasitics']['capacitance']
        lists = [t['layers'], t['lvs_computed_layers'], *R.values(), *C.values()]
    if rng.random() < 0.5:
        what.add('order')
        for l in lists:
            if rng.random() < 0.5:
                rng.shuffle(l)
    if rng.random() < 0.6:
        what.add('deleted')
        for l in lists:
            if l is not t['lvs_computed_layers'] and l is not t['layers']:
                for _ in range(rng.choice([0, 0, 1, 5, 100])):
                    if l:
                        l.pop(rng.randrange(len(l)))
        st = t['process_stack']['layers']
        for _ in range(rng.choice([0, 0, 1, 4])):
            k = rng.choice([i for i, l in enumerate(st) if l['layer_type'] not in ('LAYER_TYPE_SUBSTRATE', 'LAYER_TYPE_FIELD_OXIDE')] or [None])
            if k is not None and sum(l['layer_type'] == 'LAYER_TYPE_METAL' for l in st) > 2:
                st.pop(k)
        for l in st:
            if rng.random() < 0.1:
                for k in ('metal_layer',):
                    l.get(k, {}).pop('contact_above', None)
    if rng.random() < 0.5:
        what.add('values')

        def val(x):
            if isinstance(x, dict):
                return {k: (val(v) if k not in ('layer', 'datatype') else v) for k, v in x.items()}
            if isinstance(x, list):
                return [val(v) for v in x]
            if type(x) in (int, float) and rng.random() < 0.3:
                return rng.choice([0.0, 1e-9, 1e9, 1 / 3, rng.uniform(0, 100), x * 1.000001])
            return x
        t['process_parasitics'] = val(t['process_parasitics'])
        t['process_stack'] = val(t['process_stack'])
    if rng.random() < 0.2:
        what.add('duplicates')
        for l in (C2 for C2 in t['process_parasitics']['capacitance'].values() if C2):
            l.insert(rng.randrange(len(l) + 1), copy.deepcopy(rng.choice(l)))
    if rng.random() < 0.2:
        what.add('gds numbers')
        for l in t['layers'] + [x['layer_info'] for x in t['lvs_computed_layers']]:
            if rng.random() < 0.2:
                l['drw_gds_pair'] = {'layer': rng.randrange(300, 2 ** 32), 'datatype': rng.randrange(2 ** 32)}
            for k in ('pin_gds_pair', 'label_gds_pair'):
                if rng.random() < 0.2:
                    # absent numbers are zero
                    l[k] = {n: x for n, x in (('layer', rng.choice([0, 0, 7, 2 ** 32 - 1])), ('datatype', rng.choice([0, 0, 5]))) if x or rng.random() < 0.5}
                elif rng.random() < 0.05:
                    l.pop(k, None)
    return t, what


def lookups(c):
    from klayout_pex.tech_info import TechInfo
    rng = c.rng
    pdk = rng.choice(PDKS)
    t, what = alter(rng, pdk) if rng.random() < 0.9 else (json.load(open(kvflow.tech_json(pdk), encoding='utf-8')), {'shipped'})
    p = os.path.join(c.dir, 'tech.json')
    with open(p, 'w', encoding='utf-8') as f:
        json.dump(t, f, indent=rng.choice([None, 1]), ensure_ascii=rng.random() < 0.5)
    ti = TechInfo.from_json(p, dielectric_filter=None)
    before = ti.tech.SerializeToString(deterministic=True)

    def J(m):
        return jf.MessageToDict(m, preserving_proto_field_name=True)

    def eq(m, j):
        return close(norm(J(m)), norm(j))

    def norm(j):
        if isinstance(j, dict):
            return {k: norm(v) for k, v in j.items() if isinstance(v, dict) or v not in (0, 0.0, '', [])}
        return [norm(v) for v in j] if isinstance(j, list) else j

    st = t['process_stack']['layers']
    pp = t['process_parasitics']
    R, C = pp['resistance'], pp['capacitance']
    L, K = t['layers'], t['lvs_computed_layers']
    drw = lambda l: pair(l['drw_gds_pair'])

    def multi(items, key, value=lambda x: x):
        d = {}
        for x in items:
            d.setdefault(key(x), []).append(value(x))
        return d

    def table_check(name, got, ref, same, loose=()):
        """got: dict of the code; ref: {key: [acceptable values]}"""
        c.count('lookup tables compared')
        if not c.expect(set(k for k in got if k not in loose) == set(ref), 'lookup:' + name, f"{name} knows {sorted(map(str, set(got) ^ set(ref)))[:8]} or not, other than the file"):
            return
        for k, vs in ref.items():
            c.count('lookups compared')
            if not any(same(got[k], v) for v in vs):
                c.violate('lookup:' + name, f"{name}[{k!r}] is {str(got[k])[:300]}, the file states {str(vs)[:300]}")

    same = lambda a, b: a == b
    compname = multi(K, lambda l: l['layer_info']['name'])
    laypair = multi(L, lambda l: l['name'], drw)
    cpair = multi(K, lambda l: l['layer_info']['name'], lambda l: drw(l['layer_info']))
    contacts = [(l, k, l[k]['contact_above']) for l in st for k in ('nwell_layer', 'diffusion_layer', 'metal_layer') if k in l and l[k].get('contact_above')]
    metals = [l for l in st if l['layer_type'] == 'LAYER_TYPE_METAL']
    allpairs = dict(laypair)
    allpairs.update(cpair)
    resolve = lambda x: cpair.get(x) or laypair.get(x)
    canon = multi(K, lambda l: drw(l['layer_info']), lambda l: l['original_layer_name'])

    def ov(kind, subkey, a, b):
        d = {}
        for s in C.get('substrates', []):
            d.setdefault(s['layer_name'], {})[ti.internal_substrate_layer_name] = [s.get(subkey, 0)]
        first = set()
        for o in C.get(kind, []):
            e = d.setdefault(o[a], {})
            if (o[a], o[b]) not in first and o[b] == ti.internal_substrate_layer_name:
                e.pop(o[b], None)
            first.add((o[a], o[b]))
            e.setdefault(o[b], []).append(o.get('capacitance', 0))
        return d

    def two_level(name, ref, a, b):
        got = getattr(ti, name)
        c.count('lookup tables compared')
        c.expect({k: set(v) for k, v in got.items()} == {k: set(v) for k, v in ref.items()}, 'lookup:' + name, f"{name} has other keys than the file")
        for k, e in ref.items():
            for k2, vs in e.items():
                x = got.get(k, {}).get(k2)
                c.count('lookups compared')
                if x is None or not any(close(float(x.capacitance), float(v)) for v in vs) or getattr(x, a) != k or getattr(x, b) != k2:
                    c.violate('lookup:' + name, f"{name}[{k!r}][{k2!r}] is {str(x)[:200]}, the file states {vs}")

    def simple_above():
        for i, l in enumerate(st):
            if l['layer_type'] != 'LAYER_TYPE_METAL' or [x['name'] for x in st].count(l['name']) > 1:
                continue
            di, h = None, 5.0
            for x in st[i + 1:]:
                if x['layer_type'] == 'LAYER_TYPE_METAL':
                    h = x['metal_layer'].get('z', 0) - l['metal_layer'].get('z', 0)
                    break
                if di is None and x['layer_type'] == 'LAYER_TYPE_SIMPLE_DIELECTRIC':
                    di = x
            got, gh = ti.simple_dielectric_above_metal(l['name'])
            c.count('lookups compared')
            ok = (got is None) == (di is None) and (di is None or eq(got, di)) and abs(gh - h) < 1e-9 * max(1, abs(h))
            c.expect(ok, 'lookup:simple_dielectric_above_metal', f"above {l['name']}: {got} {gh}, the file states {di} {h}")

    def sidewalls():
        for x in sorted({l['name'] for l in st}) + ['unknown']:
            f = [l for l in st if l.get('sidewall_dielectric_layer', l.get('conformal_dielectric_layer', {})).get('reference') == x]
            c.count('lookups compared')
            try:
                got = ti.sidewall_dielectric_layer(x)
            except Exception as e:
                c.expect(len(f) > 1, 'lookup:sidewall_dielectric_layer', f"sidewall_dielectric_layer({x}) raised {e!r}, the file states {f}")
                continue
            c.expect(len(f) < 2 and (got is None) == (not f) and (not f or eq(got, f[0])), 'lookup:sidewall_dielectric_layer', f"{x}: {got}, the file states {f}")

    def pairs():
        import logging
        logging.disable(logging.CRITICAL)
        for x in rng.sample(sorted(allpairs), 10) + ['unknown', '']:
            c.count('lookups compared')
            got = ti.gds_pair(x)
            want = resolve(x)
            c.expect(got in want if want else got is None, 'lookup:gds_pair', f"gds_pair({x!r}) is {got}, the file states {want}")

    def layersof(name, typ):
        got = getattr(ti, name)
        want = [l for l in st if l['layer_type'] == 'LAYER_TYPE_' + typ]
        c.count('lookup tables compared')
        if name.endswith('_layers'):
            c.expect(len(got) == len(want) and all(map(eq, got, want)), 'lookup:' + name, f"{name}: {[x.name for x in got]}, the file states {[x['name'] for x in want]}")
        else:
            c.expect(eq(got, want[0]), 'lookup:' + name, f"{name}: {got}, the file states {want[0]}")

    def via_ends():
        ref = multi([(l, k) for l, k, x in contacts if k == 'metal_layer'], lambda lk: lk[0][lk[1]]['contact_above']['name'],
                    lambda lk: (lk[0][lk[1]]['contact_above'].get('layer_below', ''), lk[0][lk[1]]['contact_above'].get('metal_above', '')))
        table_check('bottom_and_top_layer_name_by_via_computed_layer_name', ti.bottom_and_top_layer_name_by_via_computed_layer_name, ref, same)

    def stackpairs():
        ref = {}
        for l in st:
            for g in (resolve(l['name']) or [])[:]:
                ref.setdefault(g, []).append(l)
        table_check('process_stack_layer_by_gds_pair', ti.process_stack_layer_by_gds_pair, ref, eq)

    def above():
        ref = {}
        for l in metals:
            x = l['metal_layer'].get('contact_above')
            if x:
                ref.setdefault(l['name'], []).extend(sum((canon.get(g, []) for g in cpair.get(x['name'], [])), []))
        table_check('contact_above_metal_layer_name', ti.contact_above_metal_layer_name, ref, same)

    def ohms():
        for _ in range(5):
            v = rng.choice([0.0, 1.0, 152000, rng.uniform(0, 1e6)])
            c.expect(abs(TechInfo.milliohm_to_ohm(v) - v * 1e-3) <= 1e-12 * v, 'lookup:ohm', f"{v} milliohm are {TechInfo.milliohm_to_ohm(v)} ohm")
        for l, k, x in contacts:
            m = getattr(getattr(ti.process_stack_layer_by_name[l['name']], k), 'contact_above')
            for tab, f in ((ti.via_resistance_by_layer_name, TechInfo.milliohm_by_cnt_to_ohm_by_square_for_via),
                           (ti.contact_resistance_by_device_layer_name, TechInfo.milliohm_by_cnt_to_ohm_by_square_for_contact)):
                for r in tab.values():
                    want = r.resistance * 1e-3 * m.width * m.width
                    c.expect(abs(f(m, r) - want) <= 1e-9 * abs(want), 'lookup:ohm', f"{r.resistance} milliohm per contact of width {m.width} are {f(m, r)} ohm um^2, not {want}")
        c.count('lookups compared')

    steps = [
        lambda: table_check('gds_pair_for_computed_layer_name', ti.gds_pair_for_computed_layer_name, cpair, same),
        lambda: table_check('computed_layer_info_by_name', ti.computed_layer_info_by_name, compname, eq),
        lambda: table_check('computed_layer_info_by_gds_pair', ti.computed_layer_info_by_gds_pair, multi(K, lambda l: drw(l['layer_info'])), eq),
        lambda: table_check('canonical_layer_name_by_gds_pair', ti.canonical_layer_name_by_gds_pair, canon, same),
        lambda: table_check('layer_info_by_name', ti.layer_info_by_name, multi(L, lambda l: l['name']), eq),
        lambda: table_check('layer_info_by_gds_pair', ti.layer_info_by_gds_pair, multi(L, drw), eq),
        lambda: table_check('gds_pair_for_layer_name', ti.gds_pair_for_layer_name, laypair, same),
        lambda: table_check('pin_layer_mapping_for_drw_gds_pair', ti.pin_layer_mapping_for_drw_gds_pair,
                            multi([l for l in L if 'pin_gds_pair' in l], drw, lambda l: pair(l['pin_gds_pair'])), same),
        lambda: table_check('process_stack_layer_by_name', ti.process_stack_layer_by_name, multi(st, lambda l: l['name']), eq),
        stackpairs, above, via_ends, sidewalls, simple_above, pairs, ohms,
        lambda: layersof('process_substrate_layer', 'SUBSTRATE'),
        lambda: layersof('field_oxide_layer', 'FIELD_OXIDE'),
        lambda: layersof('gate_poly_layer', 'METAL'),
        lambda: layersof('process_metal_layers', 'METAL'),
        lambda: layersof('process_diffusion_layers', 'DIFFUSION'),
        lambda: table_check('contact_by_device_lvs_layer_name', {k: v for k, v in ti.contact_by_device_lvs_layer_name.items() if v.name},
                            multi([x for x in contacts if x[1] != 'metal_layer'], lambda x: x[0]['name'], lambda x: x[2]), eq),
        lambda: table_check('contact_by_contact_lvs_layer_name', {k: v for k, v in ti.contact_by_contact_lvs_layer_name.items() if k},
                            multi(contacts, lambda x: x[2]['name'], lambda x: x[2]), eq),
        lambda: table_check('layer_resistance_by_layer_name', ti.layer_resistance_by_layer_name, multi(R.get('layers', []), lambda r: r['layer_name']), eq),
        lambda: table_check('contact_resistance_by_device_layer_name', ti.contact_resistance_by_device_layer_name, multi(R.get('contacts', []), lambda r: r['device_layer_name']), eq),
        lambda: table_check('via_resistance_by_layer_name', ti.via_resistance_by_layer_name, multi(R.get('vias', []), lambda r: r['via_name']), eq),
        lambda: table_check('substrate_cap_by_layer_name', ti.substrate_cap_by_layer_name, multi(C.get('substrates', []), lambda r: r['layer_name']), eq),
        lambda: table_check('sidewall_cap_by_layer_name', ti.sidewall_cap_by_layer_name, multi(C.get('sidewalls', []), lambda r: r['layer_name']), eq),
        lambda: two_level('overlap_cap_by_layer_names', ov('overlaps', 'area_capacitance', 'top_layer_name', 'bottom_layer_name'), 'top_layer_name', 'bottom_layer_name'),
        lambda: two_level('side_overlap_cap_by_layer_names', ov('sideoverlaps', 'perimeter_capacitance', 'in_layer_name', 'out_layer_name'), 'in_layer_name', 'out_layer_name'),
    ]
    rng.shuffle(steps)
    for s in steps + rng.sample(steps, 6):
        try:
            s()
        except AttributeError as e:
            if e.obj not in (ti, TechInfo) or hasattr(TechInfo, e.name):
                raise
            c.count('lookups that do not exist in this tree')
    c.expect(ti.tech.SerializeToString(deterministic=True) == before, 'lookup-changed-data', 'the lookups changed the technology data')
    c.saw([pdk, sorted(what), json.dumps(t, sort_keys=True)])


def case(c):
    if c.idx == 0:
        generator(c)
    elif c.idx <= 2:
        consistency(c, PDKS[c.idx - 1])
    elif c.idx % 5 in (0, 1):
        conversions(c) if c.idx % 10 < 5 else table(c)
    else:
        lookups(c)


def main():
    ck = kvcore.Check('C16', 'the generator built with AddressSanitizer/UBSan and the release build under valgrind, run repeatedly; all entries of the generated tables; '
                      'random technologies through the C++ and Python readers and writers; every lookup on randomly altered technology files; distinct by content',
                      required=['generator outputs compared', 'impossible outputs', 'table entries checked', 'files read back', 'lookup tables compared', 'lookups compared'],
                      assumptions=['pwell in the capacitance tables of sky130A stands for the substrate'])
    root = tempfile.mkdtemp(prefix='kv-c16-')
    try:
        build(root)
        ck.run(case, 3000, 40000)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return ck.finish()
