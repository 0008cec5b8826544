"""Drives the real kpex command line in-process against layouts whose LVS database comes from kvlvs."""
import os, io, sys, contextlib, csv as _csv, traceback, logging
import kvcore

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KV_REPO', '/repo')
FAKE_KLAYOUT = os.path.join(VERIF, 'fake', 'klayout')


class Run:
    """One invocation of KpexCLI.main: exit status, console text, the cli object, raised exception"""

    def __init__(self):
        self.status, self.out, self.cli, self.exc = 0, '', None, None


def reset_logging():
    """forget handlers an earlier invocation in this worker left behind (they point into deleted dirs)"""
    for name in ('__kpex__',):
        lg = logging.getLogger(name)
        for h in list(lg.handlers):
            if isinstance(h, logging.FileHandler):
                lg.removeHandler(h)
                with contextlib.suppress(Exception):
                    h.close()


def kpex(args, env=None):
    from klayout_pex.kpex_cli import KpexCLI
    r = Run()
    os.environ.setdefault('KPEX_KLAYOUT_EXE', FAKE_KLAYOUT)
    if env:
        os.environ.update(env)
    reset_logging()
    buf, err = io.StringIO(), io.StringIO()
    r.cli = KpexCLI()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(err):
            r.cli.main(['main'] + [str(a) for a in args])
    except SystemExit as e:
        r.status = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        r.exc = e
    except kvcore.Hang:
        raise
    except BaseException as e:
        r.status, r.exc = 1, e
        r.tb = traceback.format_exc()
    r.out = buf.getvalue() + err.getvalue()
    return r


def read_csv(path):
    """rows of the extracted CSV netlist as (device, net1, net2, cap fF|None, res|None)"""
    rows = []
    with open(path, encoding='utf-8', newline='') as f:
        rd = _csv.reader(f, delimiter=';')
        head = next(rd)
        for row in rd:
            if row:
                rows.append((row[0], row[1], row[2], float(row[3]) if row[3] else None,
                             float(row[4]) if len(row) > 4 and row[4] else None))
    return rows


def tech_json(pdk):
    return os.path.join(REPO, 'klayout_pex_protobuf', f'{pdk}_tech.pb.json')


def altered_tech(rng, pdk, path):
    """the technology with other capacitance tables: entries missing, in another order, of other value, another halo"""
    import json
    with open(tech_json(pdk), encoding='utf-8') as f:
        t = json.load(f)
    pp = t['process_parasitics']
    C = pp['capacitance']
    for kind, l in C.items():
        if rng.random() < 0.5:
            rng.shuffle(l)
        lose = rng.choice([0, 0, 0.1, 0.3, 1.0 if kind in ('sidewalls', 'sideoverlaps') else 0.6])
        l[:] = [e for e in l if rng.random() >= lose]
        for e in l:
            for k in list(e):
                if k.endswith('capacitance') and rng.random() < 0.5:
                    e[k] *= rng.choice([0.03, 0.5, 1.0001, 3.0, 40.0]) if k != 'area_capacitance' or rng.random() < 0.5 else 1.0
                    if rng.random() < 0.05 and kind not in ('overlaps', 'substrates'):   # --scale divides by their arctan
                        e[k] = 0.0
                elif k == 'offset' and rng.random() < 0.5:
                    e[k] = rng.choice([0.0, 0.07, 1.5])
    if rng.random() < 0.4:
        pp['side_halo'] = rng.choice([0.3, 1.0, 5.5, 13.0])
    with open(path, 'w', encoding='utf-8') as f:
        json.dump(t, f)
    return path


@contextlib.contextmanager
def technology(path):
    """kpex reads this technology file instead of the one of the PDK; yields the list of the files it asked for"""
    from klayout_pex.tech_info import TechInfo
    asked = []
    if path is None:
        yield asked
        return
    old = TechInfo.__dict__['from_json']

    def from_json(cls, jsonpb_path, *a, **kw):
        asked.append(jsonpb_path)
        return old.__func__(cls, path, *a, **kw)
    TechInfo.from_json = classmethod(from_json)
    try:
        yield asked
    finally:
        TechInfo.from_json = old


def extract25(lvs, pdk, dirname, halo=None, scale=None, mode='CC', blackbox=None, extra=(), log='error', cell=None):
    """LVS database -> kpex --2.5D; returns (Run, cell results or None)"""
    os.makedirs(dirname, exist_ok=True)
    p = os.path.join(dirname, 'in.lvsdb.gz')
    lvs.write(p)
    return extract25_file(p, pdk, dirname, halo, scale, mode, blackbox, extra, log)


def extract25_file(p, pdk, dirname, halo=None, scale=None, mode='CC', blackbox=None, extra=(), log='error'):
    a = ['--pdk', pdk, '--lvsdb', p, '--out_dir', os.path.join(dirname, 'out'), '--2.5D', '--mode', mode,
         '--log_level', log]
    if halo is not None:
        a += ['--halo', repr(halo) if isinstance(halo, float) else halo]
    if scale is not None:
        a += ['--scale', 'y' if scale else 'n']
    if blackbox is not None:
        a += ['--blackbox', 'y' if blackbox else 'n']
    a += list(extra)
    r = kpex(a)
    res = None
    if r.exc is not None:
        return r, None
    er = r.cli.rcx25_extraction_results
    if er is not None:
        cs = list(er.cell_extraction_results.values())
        res = cs[0] if len(cs) == 1 else None
    return r, res


def tables(res):
    """(overlap, sidewall, fringe) as plain dicts of sums"""
    ov, sw, fr = {}, {}, {}
    for k, v in res.overlap_table.items():
        kk = (k.layer_top, k.net_top, k.layer_bot, k.net_bot)
        ov[kk] = ov.get(kk, 0.0) + sum(e.cap_value for e in v)
    for k, v in res.sidewall_table.items():
        kk = (k.layer, frozenset((k.net1, k.net2)))
        sw[kk] = sw.get(kk, 0.0) + sum(e.cap_value for e in v)
    for k, v in res.sideoverlap_table.items():
        kk = (k.layer_inside, k.net_inside, k.layer_outside, k.net_outside)
        fr[kk] = fr.get(kk, 0.0) + sum(e.cap_value for e in v)
    return ov, sw, fr


def summary(res):
    """{frozenset(net pair): fF} / {…: ohm}"""
    s = res.summarize()
    c = {tuple(sorted((k.net1, k.net2))): v for k, v in s.capacitances.items()}
    r = {tuple(sorted((k.net1, k.net2))): v for k, v in s.resistances.items()}
    return c, r
