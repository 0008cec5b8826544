"""C15: the command line does what was asked, on the cell that was asked for."""
import glob, hashlib, logging, os, shutil
import klayout.db as kdb
import kvcli, kvcore, kvfake, kvflow, kvlvs

YES = ['yes', 'true', 't', 'y', '1', 'YES', 'True', 'T', 'Y']
NO = ['no', 'false', 'f', 'n', '0', 'NO', 'False', 'F', 'N']


def tree_state(d, skip):
    r = {}
    for base, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if os.path.join(base, x) not in skip]
        for f in fs:
            p = os.path.join(base, f)
            r[p] = hashlib.sha1(open(p, 'rb').read()).hexdigest()
    return r


def make_gds(c, rng, pdk, path, kind):
    """one layout file; returns {cell: rows of its own}, [top cells]"""
    ly = kdb.Layout()
    ly.dbu = 0.001
    names = dict(one=['TOP'], sub=['TOP', 'SUB'], two=['TOP', 'ALT'], glob=['A', 'AB', 'A?'], empty=[])[kind]
    for n in names:
        L = kvcli.small_layout(rng, pdk, n=3, size=2200, namer=lambda k: f"{n[:2].replace('?', 'q')}{k}")
        part = L.to_kdb(top='X', pins=True)
        cell = ly.create_cell(n)
        for li in part.layer_indexes():
            cell.shapes(ly.layer(part.get_info(li))).insert(part.top_cell().shapes(li))
    tops = list(names)
    if kind == 'sub':
        ly.cell('TOP').insert(kdb.CellInstArray(ly.cell('SUB').cell_index(), kdb.Trans(rng.randrange(4), rng.random() < 0.5, 20000, 3000)))
        tops = ['TOP']
    ly.write(path)
    return names, tops


def flat(path, cell=None):
    """{layer: merged region}, [top cells] of a layout file"""
    ly = kdb.Layout()
    ly.read(path)
    top = ly.cell(cell) if cell else ly.top_cell()
    out = {}
    for li in ly.layer_indexes():
        r = kdb.Region(top.begin_shapes_rec(li)).merged()
        t = sorted((x.string, x.x, x.y) for x in kdb.Texts(top.begin_shapes_rec(li)).each())
        if not r.is_empty() or t:
            i = ly.get_info(li)
            out[i.layer, i.datatype] = (r, t)
    return out, [x.name for x in ly.top_cells()]


def same_layout(a, b):
    return set(a) == set(b) and all((a[k][0] ^ b[k][0]).is_empty() and a[k][1] == b[k][1] for k in a)


def invocation(c, rng, n, pdk, earlier):
    """one command line with what has to become of it"""
    w = os.path.join(c.dir, f"w{n}")
    os.makedirs(w)
    logs = os.path.join(c.dir, f"logs{n}")
    os.makedirs(logs)
    rej = []                 # reasons for a refusal
    clean = rng.random() < 0.55      # nothing wrong with options (the input may still be)
    a = []
    exe, envx = {}, {}
    engines = {e for e in ('25', 'fc', 'f2', 'magic') if rng.random() < {'25': 0.6}.get(e, 0.25)}
    if not engines and (clean or rng.random() < 0.8):
        engines = {'25'}
    if not engines:
        rej.append('no engine')
    # input
    mode = rng.choice(['gds'] * 6 + ['lvsdb'] * 2 + ['neither'])
    if mode == 'neither' and (clean or rng.random() < 0.6):
        mode = 'gds'
    kind = rng.choice(['one', 'one', 'sub', 'sub', 'two', 'glob', 'empty'])
    gdir = os.path.join(w, rng.choice(['in', 'with space', 'ünï', 'a.b']))
    os.makedirs(gdir)
    gds = os.path.join(gdir, rng.choice(['d.gds', 'my.design.v2.gds', 'd.gds.gz', 'd.oas', 'no_suffix', 'two words.gds']))
    tmp = os.path.join(w, 'tmp.oas' if gds.endswith('.oas') else 'tmp.gds.gz' if gds.endswith('.gz') else 'tmp.gds')
    names, tops = make_gds(c, rng, pdk, tmp, kind)
    os.rename(tmp, gds)
    cell = None
    if clean and rng.random() < 0.85:
        cell = None if len(tops) == 1 and rng.random() < 0.4 else rng.choice(names) if names else None
        if cell is None and len(tops) != 1:
            cell = 'TOP'
    elif rng.random() < (0.3 if kind == 'one' else 0.75):
        cell = rng.choice(names + names + ['NOPE', 'top', '*', 'TO', 'SUB ']) if names else 'TOP'
    target = None
    if mode == 'gds':
        dmg = None if clean else rng.choice([None] * 8 + ['missing', 'cut', 'garbage', 'zero', 'directory'])
        b = open(gds, 'rb').read()
        if dmg == 'missing':
            os.unlink(gds)
        elif dmg == 'cut' and len(b) > 300 and kind != 'empty':
            open(gds, 'wb').write(b[:rng.randrange(100, len(b) - 150)])
        elif dmg == 'garbage':
            open(gds, 'wb').write(b'this is not a layout\n' * 5)
        elif dmg == 'zero':
            open(gds, 'wb').close()
        elif dmg == 'directory':
            os.unlink(gds)
            os.makedirs(gds)
        else:
            dmg = None
        if dmg:
            rej.append(f"layout {dmg}")
        if cell is None:
            target = tops[0] if len(tops) == 1 else None
            if target is None:
                rej.append('ambiguous top cell')
        else:
            target = cell if cell in names else None
            if target is None:
                rej.append(f"unknown cell {cell}")
        a += [rng.choice(['--gds', '-g']), gds]
    elif mode == 'lvsdb':
        db = os.path.join(gdir, rng.choice(['d.lvsdb', 'd.lvsdb.gz', 'x.y.lvsdb']))
        target = tops[0] if tops else None
        if target is None:
            make_gds(c, rng, pdk, tmp, 'one')
            os.rename(tmp, gds)
            names, tops, target = ['TOP'], ['TOP'], 'TOP'
        ly = kdb.Layout()
        ly.read(gds)
        kvlvs.extract(ly, target, pdk).write(db)
        dmg = None if clean else rng.choice([None] * 5 + ['missing', 'cut', 'garbage', 'zero'])
        b = open(db, 'rb').read()
        if dmg == 'missing':
            os.unlink(db)
        elif dmg == 'cut':
            open(db, 'wb').write(b[:len(b) // 3])
        elif dmg == 'garbage':
            open(db, 'wb').write(b'this is not a database\n' * 5)
        elif dmg == 'zero':
            open(db, 'wb').close()
        if dmg:
            rej.append(f"database {dmg}")
        if cell is not None and cell != target:
            rej.append('database of another cell')
        a += [rng.choice(['--lvsdb', '-l']), db]
        if 'magic' in engines:
            rej.append('MAGIC without layout')
    else:
        rej.append('no input')
    if cell is not None:
        a += [rng.choice(['--cell', '-c']), cell]
    # schematic
    sch, tag = None, ''
    if rng.random() < 0.35:
        sch = os.path.join(gdir, 's.spice')
        if clean or rng.random() < 0.8:
            tag = rng.choice(['', '_s'])
            with open(sch, 'w') as f:
                f.write(f".subckt {target} a\n" + (f"* kvtag {tag}\n" if tag else '') + ".ends\n")
        elif mode == 'gds':
            rej.append('missing schematic')
        a += [rng.choice(['--schematic', '-s']), sch]
        if mode != 'gds':
            tag = ''
    # technology
    if not clean and rng.random() < 0.04:
        a += ['--pdk', rng.choice(['sky130B', 'SKY130A', ''])]
        rej.append('unknown technology')
    elif not clean and rng.random() < 0.03:
        rej.append('no technology')
    else:
        a += ['--pdk', pdk]
    # output
    out = rng.choice([os.path.join(w, 'out'), os.path.join(w, 'deep', 'er', 'out'), os.path.relpath(os.path.join(w, 'rel'), os.getcwd()), os.path.join(w, 'out with space')])
    if rng.random() < 0.3:
        os.makedirs(out)
    a += [rng.choice(['--out_dir', '-o']), out]
    # logging
    lvl = rng.choice(['all', 'debug', 'subprocess', 'verbose', 'info', 'warning', 'error', 'critical', 'Info', 'ERROR', None, None, None, 'error'] + ([] if clean else ['loud']))
    if lvl:
        a += ['--log_level', lvl]
        if lvl == 'loud':
            rej.append('unknown log level')
    # options with a value to be seen at the tools
    opt = {}

    def number(flag, key, p, ints=False):
        if rng.random() < p:
            if not clean and rng.random() < 0.06:
                a.extend([flag, rng.choice(['abc', '', '1,5', '0x'])])
                rej.append(f"{flag} not a number")
            else:
                v = rng.randint(1, 64) if ints else rng.choice([0.5, 0.01, 1e-3, 3.0, 7.25, 0.125, 12.0, 1.23456789, 0 if key not in ('k_void', 'halo') else 1.5])
                a.extend([flag, rng.choice([repr(v), str(v)] + ([] if ints else ['%.9e' % v]))])
                opt[key] = v

    def boolean(flag, key, p):
        if rng.random() < p:
            if not clean and rng.random() < 0.06:
                a.extend([flag, rng.choice(['maybe', '', '2', 'on', 'nope', 'yess'])])
                rej.append(f"{flag} not a boolean")
            else:
                v = rng.random() < 0.5 and not (flag == '--geo_check' and engines & {'fc', 'f2'})       # takes minutes
                a.extend([flag, rng.choice(YES if v else NO)])
                opt[key] = v

    number('--threads', 'threads', 0.3, ints=True)
    number('--tolerance', 'a', 0.3)
    number('--d_coeff', 'd', 0.3)
    number('--mesh', 'm', 0.3)
    number('--ooc', 'f', 0.3)
    number('--k_void', 'k_void', 0.3)
    boolean('--auto_precond', 'ap', 0.4)
    boolean('--lvs-verbose', 'verbose', 0.4)
    boolean('--cache-lvs', 'cache', 0.5)
    boolean('--blackbox', 'blackbox', 0.3)
    boolean('--scale', 'scale', 0.3)
    boolean('--geo_check', 'check', 0.1)
    if rng.random() < 0.3:
        a.append('--galerkin')
        opt['g'] = True
    if rng.random() < 0.3:
        a.append('--jacobi')
        opt['pj'] = True
    number('--halo', 'halo', 0.2)
    diel = rng.choice([None] * 4 + ['none', 'all', 'All', 'none,+nild2', 'all,-nild2', '-', ' none '] + ([] if clean else ['foo', 'all,none']))
    if diel in ('foo', 'all,none'):
        rej.append('malformed --diel')
    if diel is not None:
        a += [f"--diel={diel}"]
    extra25 = []
    if 'halo' in opt:
        extra25 += ['--halo', repr(opt['halo'])]
    if 'scale' in opt:
        extra25 += ['--scale', 'yes' if opt['scale'] else 'no']
    if diel is not None:
        extra25 += [f"--diel={diel}"]
    # MAGIC and its defaults
    rc = None
    envx['PDKPATH'] = envx['PDK'] = None
    if rng.random() < 0.3:
        envx['OMP_NUM_THREADS'] = str(rng.randint(1, 64))   # of the user's shell
    if rng.random() < 0.4:
        envx['PDKPATH'] = os.path.join(w, 'pdks')
        if rng.random() < 0.7:
            envx['PDK'] = 'sky130A'
            if rng.random() < 0.7:
                rc = os.path.join(w, 'pdks', 'libs.tech', 'magic', 'sky130A.magicrc')
    if rng.random() < (0.7 if 'magic' in engines else 0.2) or (clean and 'magic' in engines and rc is None):
        rc = os.path.join(w, 'my.magicrc')
        a += ['--magicrc', rc]
        if not clean and rng.random() < 0.15:
            if 'magic' in engines:
                rej.append('missing magicrc')
            rc = None
    elif 'magic' in engines and rc is None:
        rej.append('no magicrc')
    if rc:
        os.makedirs(os.path.dirname(rc), exist_ok=True)
        open(rc, 'w').close()
    mm = 'CC'
    if rng.random() < 0.5:
        mm = rng.choice(['CC', 'RC', 'R'])
        a += ['--magic_mode', mm]
    if not clean and rng.random() < 0.1:
        a += rng.choice([['--magic_mode', 'X'], ['--magic_short', 'all'], ['--magic_merge', 'yes'], ['--mode', 'cc-and-r'], ['--no-such-option'], ['stray']])
        rej.append('unknown choice or option')
    if not clean and rng.random() < 0.03:
        exe['lvs'] = os.path.join(w, 'no-klayout')
        rej.append('missing KLayout')
    a += [kvcli.FLAG[e] for e in sorted(engines)]
    # options in any order, the values stay with them
    groups = []
    for t in a:
        if t.startswith('-') and not t == '-' or not groups:
            groups.append([t])
        else:
            groups[-1].append(t)
    rng.shuffle(groups)
    a = [t for g in groups for t in g]

    env = kvcli.env(logs, exe=exe)
    for k, v in envx.items():
        os.environ.pop(k, None)
        if v is not None:
            env[k] = v
    absout = os.path.abspath(out)
    before = tree_state(c.dir, {absout, logs})
    cwd = os.getcwd()
    old = {d: tree_state(d, set()) for d in earlier}
    r = kvflow_run(a, env)
    what = f"kpex {' '.join(a)} [{', '.join(f'{k}={v}' for k, v in envx.items() if v)}]".replace(c.dir, '')
    c.expect(os.getcwd() == cwd, 'cwd', f"{what}: the working directory is now {os.getcwd()}")
    after = tree_state(c.dir, {absout, logs})
    diff = sorted(p for p in set(before) | set(after) if before.get(p) != after.get(p))
    c.expect(not diff, 'outside', f"{what}: files outside of the output directory were changed: {[os.path.relpath(p, c.dir) for p in diff]}")
    for d, st in old.items():
        if d != absout:
            c.expect(tree_state(d, set()) == st, 'earlier-run', f"{what}: files of an earlier run in the same process were changed: "
                     f"{[os.path.relpath(p, d) for p in st if tree_state(d, set()).get(p) != st[p]]}")
            c.count('earlier outputs compared')
    ncalls = {t: kvcli.calls(logs, t) for t in ('lvs', 'fc', 'f2', 'magic')}
    if rej:
        c.count('refusals expected')
        for x in rej:
            c.count('refused: ' + x.split(' cell')[0] if x.startswith('unknown cell') else 'refused: ' + x)
        c.saw(['reject', sorted(rej), mode, sorted(engines)])
        if not c.expect(r.status not in (0, None), 'accepted', f"{what}: was accepted in spite of: {rej}"):
            return
        c.expect(not any(ncalls.values()), 'engine-before-refusal', f"{what}: tools were run ({[t for t in ncalls if ncalls[t]]}) although: {rej}")
        c.expect(isinstance(r.exc, SystemExit), 'refusal-by-crash', f"{what}: {rej} ended with {getattr(r, 'tb', '')[-600:]}")
        log = ''.join(open(p, encoding='utf-8').read() for p in glob.glob(os.path.join(absout, '**', 'kpex*.log'), recursive=True))
        c.expect(len(r.out.strip()) > 0 or len(log.strip()) > 0, 'silent-refusal', f"{what}: {rej}, but no message")
        if isinstance(r.exc, SystemExit) and r.exc.code != 2:      # not from argparse itself
            c.expect('ERROR' in log, 'silent-refusal', f"{what}: {rej}, but no error in the log file")
        return
    c.count('runs expected to succeed')
    c.saw([mode, kind, cell, sorted(engines), sorted(opt.items(), key=str), diel, bool(sch), lvl])
    if r.status != 0:
        c.violate('refused', f"{what}: was refused ({target}): {getattr(r, 'tb', r.out[-900:])[-1000:]}")
        return
    if mode == 'gds' and engines & {'25', 'fc', 'f2'}:
        c.count('LVS inputs compared')
        k = ncalls['lvs']
        if c.expect(len(k) == 1, 'lvs-calls', f"{what}: LVS was run {len(k)} times"):
            g, t = flat(k[0]['input'])
            c.expect(t == [target], 'lvs-cell', f"{what}: LVS got a layout with top cells {t} instead of {target}")
            c.expect(same_layout(g, flat(gds, target)[0]), 'lvs-layout', f"{what}: LVS got another layout than cell {target}")
            rd = k[0]['rd']
            if 'sky130A' in (k[0]['deck'] or ''):
                flags = [f for f in ('net_only', 'top_lvl_pins', 'combine', 'purge', 'purge_nets') if rd.get(f) == 'true']
                combined = not flags or 'combine' in flags
            else:
                flags = [f for f, v in rd.items() if v.lower() == 'true']
                combined = 'no_simplify' not in flags or 'combine_devices' in flags
            c.expect(not combined, 'lvs-combines', f"{what}: with the switches {flags} the LVS deck combines parallel devices, their terminals get lost")
            c.expect('top_lvl_pins' in flags and 'net_only' not in flags, 'lvs-pins', f"{what}: with the switches {flags} the LVS deck makes no top level pins")
            c.expect((k[0]['verbose'] == 'true') == opt.get('verbose', False), 'lvs-verbose', f"{what}: LVS got verbose={k[0]['verbose']}")
            if sch:
                c.expect(os.path.realpath(k[0]['schematic']) == os.path.realpath(sch), 'lvs-schematic', f"{what}: LVS got schematic {k[0]['schematic']}")
    else:
        c.expect(not ncalls['lvs'], 'lvs-calls', f"{what}: LVS was run")
    for t in ('fc', 'f2', 'magic'):
        c.expect(len(ncalls[t]) == (1 if t in engines else 0), 'engine-calls', f"{what}: {t} was run {len(ncalls[t])} times")
    if '25' in engines:
        fs = glob.glob(os.path.join(glob.escape(absout), '**', '*_k25d_pex_netlist.csv'), recursive=True)
        if c.expect(len(fs) == 1, 'result-place', f"{what}: results {fs}"):
            got = sorted(x[1:] for x in map(tuple, kvflow.read_csv(fs[0])))
            want = kvcli.reference25(gds, target, pdk, tag, c.dir, extra25)
            c.count('netlists compared')
            c.expect(got == want, 'other-result', f"{what}: result {got[:3]} instead of that of cell {target}: {want[:3]}")
    else:
        c.expect(not glob.glob(os.path.join(glob.escape(absout), '**', '*_k25d_*'), recursive=True), 'engine-not-asked', f"{what}: 2.5D result although not asked for")
    if 'fc' in engines and ncalls['fc']:
        k = ncalls['fc'][0]
        c.count('FasterCap calls compared')
        av = k['argv'][:-1]
        want = {'a': opt.get('a', 0.05), 'd': opt.get('d', 0.5), 'm': opt.get('m', 0.5), 'f': opt.get('f', 2.0)}
        got = {}
        flags = set()
        for t in av:
            if len(t) > 2 and t[1] in 'admf' and t[:3] != '-ap':
                got[t[1]] = float(t[2:])
            else:
                flags.add(t)
        c.expect(got == want, 'fastercap-options', f"{what}: FasterCap was called with {av}, expected values {want}")
        wf = {'-b', '-i', '-v'} | ({'-ap'} if opt.get('ap', True) else set()) | ({'-g'} if opt.get('g') else set()) | ({'-pj'} if opt.get('pj') else set())
        c.expect(flags == wf, 'fastercap-options', f"{what}: FasterCap was called with {sorted(flags)}, expected {sorted(wf)}")
        if 'threads' in opt:
            c.expect(k['threads'] == str(opt['threads']), 'threads', f"{what}: FasterCap got OMP_NUM_THREADS={k['threads']}")
    for t in ('fc', 'f2'):
        if ncalls[t]:
            c.expect(os.path.realpath(ncalls[t][0]['lst']).startswith(os.path.realpath(absout) + os.sep), 'result-place', f"{what}: list file {ncalls[t][0]['lst']}")
            head = open(ncalls[t][0]['lst']).readline() if os.path.exists(ncalls[t][0]['lst']) else ''
            if 'k_void=' in head:
                c.expect(float(head.split('k_void=')[1]) == opt.get('k_void', 3.9), 'k_void', f"{what}: list file states {head.strip()}")
    if 'f2' in engines and ncalls['f2']:
        k = ncalls['f2'][0]
        c.count('FastCap calls compared')
        got = {t[:2]: t[2:] for t in k['argv']}
        # defaults of FastCap's wrapper; -p scales the permittivities of the list file, which are already right
        c.expect(float(got.get('-p', 1)) == 1 and float(got.get('-t', 0.01)) == 0.01 and float(got.get('-o', 2)) == 2 and '-d' not in got and len(k['argv']) == len(got) == len(set(got) & {'-o', '-p', '-t', '-l'}), 'fastcap-options',
                 f"{what}: FastCap was called with {k['argv']}")
    if 'magic' in engines and ncalls['magic']:
        k = ncalls['magic'][0]
        c.count('MAGIC calls compared')
        c.expect('-rcfile' in k['argv'] and os.path.realpath(k['argv'][k['argv'].index('-rcfile') + 1]) == os.path.realpath(rc), 'magicrc',
                 f"{what}: MAGIC was called with {k['argv']}, expected {rc}")
        f = os.path.join(c.dir, 'magic_script.tcl')
        with open(f, 'w', encoding='utf-8') as o:
            o.write(k['script'])
        s = kvfake.tcl_commands(f)
        g = [w[2:] for w in s if w[:2] == ['gds', 'read']]
        c.expect(len(g) == 1 and len(g[0]) == 1 and ['load', target] in s and same_layout(flat(g[0][0], target)[0], flat(gds, target)[0]), 'magic-cell',
                 f"{what}: the MAGIC script reads {g} and loads {[w for w in s if w[0] == 'load']}")
    log = [open(p, encoding='utf-8').read() for p in glob.glob(os.path.join(glob.escape(absout), '**', 'kpex*.log'), recursive=True)]
    c.expect(len(log) >= 1, 'log-file', f"{what}: no log file")
    return absout



def kvflow_run(a, env):
    return kvflow.kpex(a, env)


def case(c):
    rng = c.rng
    logging.disable(logging.NOTSET)
    kvcli._ref.clear()
    pdk = rng.choice(['sky130A', 'ihp_sg13g2'])
    earlier = []
    for n in range(rng.choice([1, 2, 2, 3])):
        o = invocation(c, rng, n, pdk, earlier)
        if o:
            earlier.append(o)


def main():
    ck = kvcore.Check('C15', 'random command lines (inputs good, damaged or missing, cells, schematics, engines, every option in every spelling, '
                      'environment) run one after another in one process; an evaluation is one command line, judged by exit status, messages, '
                      'files touched, calls of the external tools and results; distinct by request',
                      required=['runs expected to succeed', 'refusals expected', 'LVS inputs compared', 'netlists compared', 'FasterCap calls compared',
                                'MAGIC calls compared', 'FastCap calls compared', 'earlier outputs compared', 'refused: unknown', 'refused: ambiguous top cell', 'refused: no engine',
                                'refused: no input', 'refused: missing schematic', 'refused: malformed --diel', 'refused: database of another cell'],
                      assumptions=['--gds wins if both a layout and an LVS database are given'])
    ck.run(case, 700, 9000)
    return ck.finish()
