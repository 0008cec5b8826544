"""What the stand-ins for FasterCap, FastCap2 and MAGIC share: reading list files, made-up but reproducible matrices, log formats."""
import hashlib, json, os, re, signal, sys, resource


def h01(*parts):
    return int(hashlib.sha1('\0'.join(map(str, parts)).encode()).hexdigest()[:12], 16) / 16 ** 12


def matrix(names, salt=''):
    """diagonally dominant capacitance matrix (F) as a function of the conductor names; rounded as printed (6 digits)"""
    n = len(names)
    m = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if i != j:
                a, b = sorted((names[i], names[j]))
                v = -1e-9 * (0.05 + h01(salt, a, b)) * (1 + 0.01 * h01(salt, names[i], names[j], 'asym'))
                if os.environ.get('KV_SPREAD'):            # couplings over many decades, some of them numerical noise
                    u = h01(salt, a, b, 'spread')
                    v = 0.0 if u < 0.05 else -1e-13 * v * h01(salt, names[i], names[j]) if u < 0.08 else v * 10 ** (1.5 - 6 * h01(salt, a, b, 'decades'))
                m[i][j] = float('%.6g' % v)
    for i in range(n):
        m[i][i] = float('%.6g' % (-sum(m[i]) * (1.2 + h01(salt, names[i]))))
    return m


def read_lst(path):
    """[(kind, file, outperm[, inperm], point, group, plus)] of a FasterCap/FastCap list file"""
    out = []
    group = 0
    for line in open(path, encoding='utf-8'):
        t = line.split()
        if not t or t[0].startswith('*'):
            continue
        if t[0] == 'C':
            plus = t[-1] == '+'
            out.append(dict(kind='C', file=t[1], kout=float(t[2]), group=group, plus=plus, tokens=t))
            if not plus:
                group += 1
        elif t[0] == 'D':
            out.append(dict(kind='D', file=t[1], kout=float(t[2]), kin=float(t[3]), point=tuple(map(float, t[4:7])), tokens=t))
    return out


def conductors(lst):
    """names in the order of the groups, as the solvers would print them"""
    names = {}
    for e in read_lst(lst):
        if e['kind'] == 'C':
            names.setdefault(e['group'], None)
            for line in open(os.path.join(os.path.dirname(os.path.abspath(lst)), e['file']), encoding='utf-8'):
                if line.startswith('N '):
                    names[e['group']] = line.rstrip('\n').split(' ', 2)[2]
    return [names[k] if names[k] is not None else f"#{k}" for k in sorted(names)]


def fastercap_lines(names, iterations, salt):
    out = ['Running FasterCap version 6.0.7', 'Copyright 2019 FastFieldSolvers S.R.L.', '']
    for k in range(iterations):
        m = matrix(names, salt if k == iterations - 1 else f"{salt}-iteration-{k}")
        out += [f"Iteration number #{k} ***************************", 'GMRES Iterations: 0 1 2 3 4', '',
                'Capacitance matrix is:', f"Dimension {len(names)} x {len(names)}"]
        out += [f"g{i + 1}_{n}  " + ' '.join('%.6g' % v for v in row) + ' ' for i, (n, row) in enumerate(zip(names, m))]
        out += ['', 'Weighted Frobenius norm of the difference between capacitance (auto option): 0.0166179', 'Iteration time: 0.05s']
    return out + ['Solve statistics:', 'Number of input panels: 2419', 'Total time: 0.873131s']


def fastcap_lines(names, salt):
    m = matrix(names, salt)
    w = max(len(n) for n in names) + 10
    out = ['Running fastcap 2.0 (18Sept92)', '  Input: FasterCap_Input_.lst', '', 'CAPACITANCE MATRIX, nanofarads',
           ' ' * (w + 3) + ''.join(' %10d' % (j + 1) for j in range(len(names))) + ' ']
    for i, (n, row) in enumerate(zip(names, m)):
        out.append(f"{f'{n}%GROUP{i + 1}'.ljust(w)} {i + 1:>2d} " + ' '.join('%10s' % ('%.6g' % (v * 1e9)) for v in row))
    return out + ['', 'Total time: 0.1s']


def emit(lines, mode, start):
    """prints lines and behaves as told; start: marker of the last matrix"""
    raw = sys.stdout.buffer
    text = '\n'.join(lines) + '\n'
    if mode == 'fail':
        raw.write(b'Error: cannot open input file\n')
        raw.flush()
        sys.exit(1)
    if mode == 'silent':
        sys.exit(0)
    if mode == 'nomatrix':
        i = text.index(start)
        raw.write(text[:i].encode())
        raw.flush()
        sys.exit(0)
    if mode in ('cutoff', 'truncate', 'killed'):
        i = text.rindex(start)
        rows = text[i:].split('\n')
        raw.write((text[:i] + '\n'.join(rows[:3]) + ('\n' + rows[3][:len(rows[3]) // 2] if len(rows) > 3 and mode != 'cutoff' else '')).encode())
        raw.flush()
        if mode == 'killed':
            os.kill(os.getpid(), signal.SIGKILL)
        sys.exit(0 if mode == 'cutoff' else 139)
    if mode == 'noise':
        raw.write(b'\xff\xfe latin: \xb5m [/red] [bold]x[/nothing] %s %d {0}\n\n' + b'x' * 2000 + b'\n')
    raw.write(text.encode())
    if mode == 'noise':
        raw.write(b'done \xe9 without newline [/]')
    raw.flush()
    if mode == 'failafter':
        sys.exit(3)
    if mode == 'killedafter':
        die()
    sys.exit(0)


def die():
    """ends by a signal, after complete output"""
    s = int(os.environ.get('KV_SIGNAL', '9'))
    signal.signal(s, signal.SIG_DFL) if s not in (9, 19) else None
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.kill(os.getpid(), s)


def log_call(var, **kw):
    if os.environ.get(var):
        with open(os.environ[var], 'a', encoding='utf-8') as f:
            f.write(json.dumps(kw) + '\n')


def calls(path):
    return [json.loads(x) for x in open(path, encoding='utf-8')] if os.path.exists(path) else []


# Tcl itself reads a MAGIC script: every command is recorded with its words, none is carried out
TCL = r'''
set ::out [open [lindex $argv 1] w]
proc record args { puts $::out [join [lmap a $args {string cat x [binary encode hex [encoding convertto utf-8 $a]]}] " "]; return 1 }
set f [open [lindex $argv 0] r]
fconfigure $f -encoding utf-8
set text [read $f]
close $f
interp create -safe s
foreach c {crashbackups drc gds load select flatten cellname extract ext2spice ext2sim extresist quit unknown} {
    catch {interp hide s $c}
    if {$c eq "unknown"} { interp alias s unknown {} record } else { interp alias s $c {} record $c }
}
if {[catch {interp eval s $text} msg]} { record __error__ $msg }
close $::out
'''


def tcl_commands(script_path):
    """commands (lists of words) of a Tcl script, as Tcl would call them; a Tcl error ends the list with ['__error__', message]"""
    import subprocess, tempfile
    with tempfile.TemporaryDirectory(prefix='kv-tcl-') as d:
        drv, out = os.path.join(d, 'drv.tcl'), os.path.join(d, 'out')
        with open(drv, 'w') as f:
            f.write(TCL)
        p = subprocess.run(['tclsh', drv, script_path, out], stdin=subprocess.DEVNULL, capture_output=True, timeout=120)
        if p.returncode or not os.path.exists(out):
            raise RuntimeError(f"tclsh: {p.returncode} {p.stderr[-500:]!r}")
        return [[bytes.fromhex(w[1:]).decode('utf-8') for w in line.split(' ')] for line in open(out)]
