"""C19: the JSON for netlistsvg is a faithful image of the selected circuit."""
import contextlib, io, json, logging, os, stat
import klayout.db as kdb
import kvcore

NETS = ['A', 'B', 'OUT', 'VDD', 'VSS', 'GND', 'VSUBS', 'N001', 'X.Y', 'IN[3]', '$7', 'NET-1', 'GND1', '0', 'Q_N', 'N$2', 'a', 'Out', 'gnd', 'Vdd', 'n001', 'x.y', 'A ', 'A.1', 'vsubs']
NOPIN = ['']
FAKE = """#!/bin/sh
for a in "$@"; do printf '%s\\n' "$a"; last="$a"; done > "$KV_SVG_ARGS"
case "$last" in *.json) cp "$last" "$KV_SVG_COPY";; esac
test -n "$KV_SVG_OUT" && cat "$KV_SVG_OUT"
test -n "$KV_SVG_ERR" && cat "$KV_SVG_ERR" >&2
echo '<svg/>' > "$2"
exit ${KV_SVG_RC:-0}
"""


def value(rng, femto):
    return rng.choice([1.0, 2.5, 0.001, 0.0004, 1234.5678, 10.0, rng.random() * 100, rng.random() * 1e5])


def build(rng):
    """random netlist: several circuits that call each other, resistors and capacitors"""
    nl = kdb.Netlist()
    cap, res = kdb.DeviceClassCapacitor(), kdb.DeviceClassResistor()
    cap.name, res.name = 'CAP', 'RES'
    nl.add(cap); nl.add(res)
    cks = []
    for i in range(rng.randint(1, 4)):
        ck = kdb.Circuit()
        ck.name = rng.choice(['TOP', 'INV', 'R', 'C1', 'gnd', 'CELL', 'SKY130_FD_PR__NFET_01V8']) + str(i)
        if rng.random() < 0.3:
            ck.cell_index = i
        nl.add(ck)
        nets = []
        for n in rng.sample(NETS, rng.randint(1, 12)):
            nets.append(ck.create_net(n if rng.random() < 0.9 else ''))
            nets[-1].cluster_id = 50 + len(nets)
        for n in nets:
            if rng.random() < 0.6:
                ck.connect_pin(ck.create_pin(n.name if rng.random() < 0.9 else rng.choice(['', 'P', 'A'])), n)
                if rng.random() < 0.1:
                    ck.connect_pin(ck.create_pin(rng.choice(['', 'P', n.name])), n)
        if rng.random() < 0.2:
            ck.create_pin(rng.choice(['NC', 'A', '']))
        for k in range(rng.randint(0, 7)):
            cls = rng.choice([cap, res])
            d = ck.create_device(cls, rng.choice(['', str(k), f"X{k}", f"D{k}", 'DUP']))
            for t in (0, 1):
                if rng.random() < 0.94:
                    d.connect_terminal(t, rng.choice(nets))
            if cls is cap:
                d.set_parameter('C', value(rng, 1) * 1e-15)
            else:
                d.set_parameter('R', value(rng, 0))
        for k in range(rng.choice([0, 1, 2, 3, 4]) if cks else 0):
            ref = rng.choice(cks)
            s = ck.create_subcircuit(ref, rng.choice(['', str(k), f"X{k}", 'I', 'gnd']))
            for p in ref.each_pin():
                if rng.random() < 0.92:
                    s.connect_pin(p.id(), rng.choice(nets))
        cks.append(ck)
    return nl, cks


def elements(ck):
    """what the circuit says: [(kind, label, value, {terminal: net or None})]"""
    out = []
    fresh = iter(range(10 ** 9))

    def net(n):
        return ('net', n.expanded_name()) if n is not None else ('open', next(fresh))
    for p in ck.each_pin():
        out.append(('pin', p.name(), None, {'': net(ck.net_for_pin(p.id()))}))
    for d in ck.each_device():
        k = d.device_class()
        cap = isinstance(k, kdb.DeviceClassCapacitor)
        v = f"{round(d.parameter('C') * 1e15, 3)}f" if cap else f"{round(d.parameter('R'), 3)}"
        out.append(('c_v' if cap else 'r_v', d.name, v, {t: net(d.net_for_terminal(t)) for t in 'AB'}))
    for s in ck.each_subcircuit():
        r = s.circuit_ref()
        out.append(('$' + r.name, r.name, None, {p.id(): net(s.net_for_pin(p.id())) for p in r.each_pin()}))
    return out


class Malformed(Exception):
    pass


def written(m):
    """the same from the JSON module; gnd symbols separately"""
    out, gnd = [], []
    for name, p in m['ports'].items():
        if len(p['bits']) != 1 or not isinstance(p['bits'][0], int):
            raise Malformed(f"port {name}: {p}")
        out.append(('pin', name, None, {'': p['bits'][0]}))
    for name, cell in m['cells'].items():
        con = cell['connections']
        if not all(len(b) == 1 and isinstance(b[0], int) for b in con.values()):
            raise Malformed(f"cell {name}: {cell}")
        if cell['type'] == 'gnd':
            gnd.append((cell['attributes'].get('value'), con['A'][0]))
        elif cell['type'] in ('c_v', 'r_v'):
            out.append((cell['type'], name, cell['attributes']['value'], {t: b[0] for t, b in con.items()}))
        else:
            out.append((cell['type'], name, None, {int(t.split('=')[0]): b[0] for t, b in con.items()}))
    return out, gnd


def match(want, got, seed=()):
    """bijection between nets and numbers that extends the seed and under which the two lists are the same multiset, or None"""
    want = sorted(want, key=lambda e: (e[0] != 'pin', e[0], e[1] == '', -len(e[1]), str(e[2])))

    def fits(w, g, f, b):
        if w[0] != g[0] or w[1] not in g[1] or w[2] != g[2] or set(w[3]) != set(g[3]):
            return None
        nf, nb = {}, {}
        for t in w[3]:
            n, i = w[3][t], g[3][t]
            if f.get(n, nf.get(n, i)) != i or b.get(i, nb.get(i, n)) != n:
                return None
            nf[n], nb[i] = i, n
        return nf, nb
    steps = [0]

    def go(k, left, f, b):
        if k == len(want):
            return f
        steps[0] += 1
        if steps[0] > 40000:
            return 'limit'
        tried = set()
        for i in left:
            g = got[i]
            sig = (g[1] if want[k][1] else None, repr(sorted(g[3].items(), key=str)), g[2])
            if sig in tried:
                continue
            tried.add(sig)
            r = fits(want[k], g, f, b)
            if r:
                a = go(k + 1, left - {i}, {**f, **r[0]}, {**b, **r[1]})
                if a is not None:
                    return a
        return None
    if len(want) != len(got):
        return None
    return go(0, frozenset(range(len(got))), dict(seed), {i: n for n, i in seed})


def compare(c, ck, d, what):
    mods = d.get('modules', {})
    c.expect(list(mods) == [ck.name], 'module', f"{what}: modules {list(mods)}, not {ck.name}")
    if list(mods) != [ck.name]:
        return
    try:
        got, gnd = written(mods[ck.name])
    except (Malformed, KeyError, ValueError, TypeError, AttributeError) as e:
        c.violate('malformed', f"{what}: not what netlistsvg reads: {type(e).__name__} {e}")
        return
    want = elements(ck)
    c.count('elements compared', len(want))
    if len(want) != len(got):
        lost = sorted({w[0] for w in want if sum(x[0] == w[0] for x in want) != sum(x[0] == w[0] for x in got)})
        c.violate('count', f"{what}: {len(got)} elements for {len(want)} (kinds {lost}): {got}; netlist {want}")
        return
    # nets may be told apart by their ground symbols only
    seed = [(('net', n), i) for n, i in gnd]
    f = match(want, got, seed)
    if f is None:
        f = match(want, got)
    if f == 'limit':
        c.count('matching given up')
        return
    if f is None:
        c.violate('not-the-netlist', f"{what}: no numbering of the nets makes {got} equal to {want}")
        return
    for name, i in gnd:
        c.count('ground symbols')
        c.expect(i is not None and f.get(('net', name)) == i, 'ground', f"{what}: ground symbol {name} at net number {i}, {name} is {f.get(('net', name))}")
    names = [n for n, _ in gnd]
    c.expect(len(names) == len(set(names)), 'ground', f"{what}: ground symbols {names}")
    for name in ('VSUBS', 'GND'):
        c.expect(('net', name) not in f or name in names, 'ground-missing', f"{what}: no ground symbol shows {name}")
    c.saw([what, sorted(map(str, got))])


def load(c, path):
    try:
        return json.load(open(path, encoding='utf-8'))
    except (OSError, ValueError) as e:
        c.violate('no-json', f"{os.path.basename(path)} is not JSON: {e}")


def labels(c, ck, d, what):
    """the text at the pins of a subcircuit call names the net (the pin, where it is open)"""
    want = sorted((s.circuit_ref().name, p.id(), (s.net_for_pin(p.id()) or p).expanded_name())
                  for s in ck.each_subcircuit() for p in s.circuit_ref().each_pin())
    got = sorted((x['type'][1:], int(t.split('=', 1)[0]), t.split('=', 1)[1]) for x in d['modules'][ck.name]['cells'].values()
                 if x['type'][:1] == '$' for t in x['connections'])
    c.expect(got == want, 'pin-label', f"{what}: pins are labelled {got}, not {want}")
    c.count('pin labels', len(want))


def direct(c):
    from klayout_pex.netlistsvg.netlist_json import NetlistJSONWriter
    nl, cks = build(c.rng)
    w = NetlistJSONWriter()
    before = str(nl)
    for n in range(c.rng.choice([1, 1, 2, 3])):
        ck = c.rng.choice(cks)
        if c.rng.random() < 0.5:
            d = w.netlist_json_dict(netlist=nl, top_circuit=ck)
        else:
            p = os.path.join(c.dir, 'n.json')
            w.write_json(netlist=nl, top_circuit=ck, output_path=p)
            d = load(c, p)
            if d is None:
                return
        compare(c, ck, json.loads(json.dumps(d)), f"export {n} of {ck.name}")
        labels(c, ck, d, f"export {n} of {ck.name}")
        c.count('exports')
    c.expect(str(nl) == before, 'modified', 'the netlist was changed by the export')


def other_devices(c):
    """devices that cannot be drawn are refused rather than left out"""
    from klayout_pex.netlistsvg.netlist_json import NetlistJSONWriter
    nl, cks = build(c.rng)
    ck = cks[-1]
    k = c.rng.choice([kdb.DeviceClassMOS4Transistor, kdb.DeviceClassMOS3Transistor, kdb.DeviceClassDiode,
                      kdb.DeviceClassBJT3Transistor, kdb.DeviceClassInductor])()
    k.name = 'DEV'
    nl.add(k)
    n = list(ck.each_net())
    d = ck.create_device(k, 'D')
    for t in k.terminal_definitions():
        d.connect_terminal(t.id(), c.rng.choice(n))
    try:
        j = NetlistJSONWriter().netlist_json_dict(netlist=nl, top_circuit=ck)
    except NotImplementedError:
        c.count('devices refused')
        return
    cells = j['modules'][ck.name]['cells']
    hit = [x for x in cells.values() if len(x['connections']) == len(k.terminal_definitions()) and x['type'] not in ('r_v', 'c_v', 'gnd')]
    c.expect(hit, 'device-dropped', f"device of class {type(k).__name__} is missing from the export")


def cli(c):
    """netlist svg FILE [--cell X] with a stand-in for netlistsvg that keeps the JSON it is given"""
    from klayout_pex.netlist.netlist_cli import NetlistCLI
    rng = c.rng
    nl, cks = build(rng)
    for ck in cks:                                   # what SPICE can say
        for n in list(ck.each_net()):
            if not n.name:
                n.name = f"NN{n.cluster_id}"
            if n.name == '0' or n.name[0] == '$':
                n.name = 'Z' + n.name[1:]
        i = 0
        for d in list(ck.each_device()) + list(ck.each_subcircuit()):
            i += 1
            d.name = str(i)
    d = c.dir
    src = os.path.join(d, 'net.spice')
    w = kdb.NetlistSpiceWriter()
    w.use_net_names = True
    nl.write(src, w)
    back = kdb.Netlist()
    back.read(src, kdb.NetlistSpiceReader())
    tops = [x.name for x in back.top_circuits()]
    allc = [x.name for x in back.each_circuit()]
    cell = rng.choice([None, None, rng.choice(allc), rng.choice(tops) if tops else None, 'NOSUCH'])
    exe = os.path.join(d, 'netlistsvg')
    open(exe, 'w').write(FAKE)
    os.chmod(exe, 0o755)
    fail = rng.random() < 0.1
    os.environ.update(KV_SVG_ARGS=os.path.join(d, 'args'), KV_SVG_COPY=os.path.join(d, 'copy.json'), KV_SVG_RC='3' if fail else '0')
    bad = rng.random() < 0.2 and rng.choice(['level', 'exe', 'command', 'empty', 'missing file', 'unknown option'])
    where, svg = exe, os.path.join(d, 'out.svg')
    if bad == 'exe':
        where = rng.choice([os.path.join(d, 'nosuch'), 'nosuch-svg', d])
    elif rng.random() < 0.2:
        os.environ['PATH'] = d + ':' + os.environ['PATH']
        where = None if rng.random() < 0.5 else 'netlistsvg'
    if bad == 'empty':
        open(src, 'w').write('* nothing here\n')
    if bad == 'missing file':
        src = os.path.join(d, 'other.spice')
    argv = ['netlist'] + rng.choice([[], [], ['--log_level', rng.choice(['error', 'INFO', 'subprocess'])]]) + \
        ([] if bad == 'command' else ['svg', src] + (['--exe', where] if where else []))
    if bad == 'level':
        argv[argv.index('svg'):1 + argv.index('svg')] = ['--log_level', 'loud', 'svg']
    if bad == 'unknown option':
        argv += ['--nosuch']
    if bad != 'command':
        if rng.random() < 0.7:
            argv += [rng.choice(['-o', '--output']), svg]
        else:
            svg = None
        if cell:
            argv += [rng.choice(['--cell', '-c']), cell]
    cwd = os.getcwd()
    rc = 0
    txt = io.StringIO()
    os.chdir(d)
    try:
        with contextlib.redirect_stdout(txt), contextlib.redirect_stderr(txt):
            NetlistCLI().main(argv)
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else 1
    except Exception:
        rc = 1
    finally:
        os.chdir(cwd)
    what = f"netlist {argv[1:]} with top circuits {tops}"
    c.count('command lines')
    ran = os.path.exists(os.path.join(d, 'args'))
    if bad:
        c.count('unusable command lines')
        c.expect(rc != 0 and not ran, 'impossible-accepted', f"{what} ({bad}): exit status {rc}, netlistsvg {'ran' if ran else 'did not run'}")
        return
    possible = (cell in allc) if cell else len(tops) == 1
    if not possible:
        c.expect(rc != 0 and not ran, 'impossible-accepted', f"{what}: exit status {rc}, netlistsvg {'ran' if ran else 'did not run'}")
        return
    if fail:
        c.expect(rc != 0, 'failure-ignored', f"{what}: netlistsvg failed, but the exit status is 0")
        return
    c.expect(rc == 0 and ran, 'refused', f"{what}: exit status {rc}: {txt.getvalue()[-400:]}")
    if rc == 0 and ran:
        ck = back.circuit_by_name(cell or tops[0])
        if not os.path.exists(os.path.join(d, 'copy.json')):
            c.violate('no-json', f"{what}: netlistsvg was not given the netlist: {open(os.path.join(d, 'args')).read().split()}")
            return
        j = load(c, os.path.join(d, 'copy.json'))
        if j is None:
            return
        compare(c, ck, j, what)
        if svg:
            c.expect(os.path.exists(svg), 'output', f"{what}: no SVG file at the path given")
        else:
            at = [os.path.join(q, n) for q, _, f in os.walk(d) for n in f if n.endswith('.svg')]
            c.count('default output paths')
            c.expect(len(at) == 1 and 'net.spice' in os.path.basename(at[0]), 'output', f"{what}: SVG files {at}")


def runner(c):
    """the tool gets the files named, its output ends in the log file, its failure is a failure"""
    from klayout_pex.netlistsvg.netlistsvg_runner import run_netlistsvg
    rng, d = c.rng, c.dir
    exe = os.path.join(d, 'netlistsvg')
    open(exe, 'w').write(FAKE)
    os.chmod(exe, 0o755)
    src = os.path.join(d, rng.choice(['n.json', 'with blank.json', 'ü.json']))
    json.dump({'k': rng.random()}, open(src, 'w'))
    raw = b''
    for _ in range(rng.choice([0, 1, 3, 40])):
        raw += rng.choice([b'', b'\n', b'node: warning\n', b'  two  blanks \n', b'%s {} [x]\n', 'größe\n'.encode(), b'\xff\xfe raw\n', b'[bold]\n'])
    if rng.random() < 0.3:
        raw += b'no end of line'
    err = rng.choice([b'', b'', b'Error: x\n'])
    open(os.path.join(d, 'o'), 'wb').write(raw)
    open(os.path.join(d, 'e'), 'wb').write(err)
    rc = rng.choice([0, 0, 0, 1, 2, 127])
    os.environ.update(KV_SVG_ARGS=os.path.join(d, 'args'), KV_SVG_COPY=os.path.join(d, 'copy.json'), KV_SVG_RC=str(rc),
                      KV_SVG_OUT=os.path.join(d, 'o'), KV_SVG_ERR=os.path.join(d, 'e'))
    lay = rng.choice([None, os.path.join(d, 'lay out.json')])
    skin, svg, log = os.path.join(d, 'skin.svg'), os.path.join(d, rng.choice(['o.svg', 'a b.svg'])), os.path.join(d, 'log.txt')
    if rng.random() < 0.3:
        open(log, 'w').write('an earlier run\n' * 50)
    txt = io.StringIO()
    failed = False
    with contextlib.redirect_stdout(txt), contextlib.redirect_stderr(txt):
        try:
            run_netlistsvg(exe_path=exe, skin_path=skin, yosys_json_netlist_path=src, output_svg_path=svg, layout_elk_path=lay, log_path=log)
        except Exception as e:
            if rc == 0:
                raise
            failed = True
            c.expect(str(rc) in str(e), 'status', f"netlistsvg ended with {rc}, reported is: {e}")
    c.count('runs of netlistsvg')
    c.saw(['runner', rc, lay is None, len(raw)])
    c.expect(failed == (rc != 0), 'failure-ignored', f"netlistsvg ended with {rc}, run_netlistsvg " + ('failed' if failed else 'returned'))
    if not os.path.exists(os.path.join(d, 'args')):
        c.violate('not-run', 'netlistsvg was not started')
        return
    a = open(os.path.join(d, 'args'), encoding='utf-8').read().split('\n')[:-1]
    opt = {}
    rest = list(a)
    while rest and rest[0] in ('-o', '--skin', '--layout'):
        opt[rest[0]] = rest[1] if len(rest) > 1 else None
        rest = rest[2:]
    want = {'-o': svg, '--skin': skin} | ({'--layout': lay} if lay else {})
    c.expect(opt == want and rest == [src], 'arguments', f"netlistsvg was given {a}, not {want} and {src}")
    got = open(log, 'rb').read().decode('utf-8', 'backslashreplace')
    c.expect(got == raw.decode('utf-8', 'backslashreplace') + err.decode(), 'log', f"log file {got!r} is not the output {raw + err!r}")


def case(c):
    logging.disable(logging.CRITICAL)
    k = c.idx % 10
    (cli if k == 3 else other_devices if k == 7 else runner if k == 5 else direct)(c)


def main():
    ck = kvcore.Check('C19', 'random hierarchical netlists (repeated instances, shared names, unconnected terminals) exported and '
                      'matched against the netlist by an isomorphism of net numbers; also through the netlist command line; an '
                      'evaluation is one export; distinct by content',
                      required=['elements compared', 'exports', 'devices refused', 'command lines', 'ground symbols', 'pin labels', 'runs of netlistsvg'],
                      assumptions=['nets of one circuit have distinct (expanded) names, as in every netlist read from SPICE'])
    ck.run(case, 10000, 60000)
    ck.finish()
