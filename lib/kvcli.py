"""Runs of the command line with stand-in tools: arguments, environment, snapshots of result files, reference results."""
import glob, hashlib, json, os, random
import klayout.db as kdb
import kvfake, kvflow, kvlvs, kvsynth

FAKE = os.path.join(kvflow.VERIF, 'fake')
TOOLS = {'KPEX_KLAYOUT_EXE': 'klayout', 'KPEX_FASTERCAP_EXE': 'FasterCap', 'KPEX_FASTCAP_EXE': 'FastCap', 'KPEX_MAGIC_EXE': 'magic'}
MODEVAR = {'lvs': 'KV_LVS_MODE', 'fc': 'KV_FC_MODE', 'f2': 'KV_F2_MODE', 'magic': 'KV_MAGIC_MODE'}
LOGVAR = {'lvs': 'KV_LVS_LOG', 'fc': 'KV_FC_LOG', 'f2': 'KV_F2_LOG', 'magic': 'KV_MAGIC_LOG'}
EXEVAR = {'lvs': 'KPEX_KLAYOUT_EXE', 'fc': 'KPEX_FASTERCAP_EXE', 'f2': 'KPEX_FASTCAP_EXE', 'magic': 'KPEX_MAGIC_EXE'}
FLAG = {'fc': '--fastercap', 'f2': '--fastcap', 'magic': '--magic', '25': '--2.5D'}


def env(logdir, modes=None, exe=None):
    e = {k: os.path.join(FAKE, v) for k, v in TOOLS.items()}
    for t in MODEVAR:
        e[MODEVAR[t]] = (modes or {}).get(t, 'ok')
        e[LOGVAR[t]] = os.path.join(logdir, f"{t}.log")
    for t, p in (exe or {}).items():
        e[EXEVAR[t]] = p
    return e


def calls(logdir, tool):
    return kvfake.calls(os.path.join(logdir, f"{tool}.log"))


def small_layout(rng, pdk, n=4, size=2500, namer=None):
    while True:
        L = kvsynth.random_layout(rng, pdk, nmax=n, size=size, min_gap=60, namer=namer or (lambda k: f"N{k}"))
        if L.labels and len({L.find(o) for _, _, o in L.shapes}) >= 2:
            return L


def write_layout(L, path, top='TOP', rng=None):
    ly = L.to_kdb(top=top, pins=True)
    ly.write(path)
    return ly


RESULTS = ('.csv', '.cir', '.spice', '.rdb.gz')


def results(out):
    """{path: (mtime_ns, sha1)} of everything that states parasitics"""
    r = {}
    for d, _, fs in os.walk(out):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith(RESULTS) and not f.endswith('_dummy_schematic.spice'):
                r[p] = (os.stat(p).st_mtime_ns, hashlib.sha1(open(p, 'rb').read()).hexdigest())
    return r


def engine_of(path):
    b = os.path.basename(path)
    if '_FasterCap_' in b:
        return 'fc'
    if '_FastCap2_' in b:
        return 'f2'
    if '_k25d_' in b:
        return '25'
    if 'magic_' in os.path.dirname(path) or '_MAGIC_' in b or '.pex.' in b:
        return 'magic'
    return None


def csv25(out, stem, cell):
    """rows of the 2.5D netlist as a sorted list, device names dropped"""
    return sorted(r[1:] for r in map(tuple, kvflow.read_csv(os.path.join(out, f"{stem}__{cell}", f"{cell}_k25d_pex_netlist.csv"))))


_ref = {}


def reference25(gds, top, pdk, suffix, dirname, extra=()):
    """rows of the 2.5D netlist of a cell: extracted here, handed over as LVS database in a directory of its own"""
    key = (hashlib.sha1(open(gds, 'rb').read()).hexdigest(), top, pdk, suffix, tuple(extra))
    if key not in _ref:
        ly = kdb.Layout()
        ly.read(gds)
        if suffix:
            kvlvs.retag(ly, suffix)
        d = os.path.join(dirname, f"ref{len(_ref)}-{random.getrandbits(40)}")
        os.makedirs(d)
        r, res = kvflow.extract25(kvlvs.extract(ly, top, pdk), pdk, d, extra=extra)
        if r.exc is not None:
            raise r.exc
        _ref[key] = csv25(os.path.join(d, 'out'), 'in', top)
    return _ref[key]
