"""tools/reach.py DIR [file-substring]: which lines of the code under test were never executed by the checks run with KV_COV=DIR"""
import ast, collections, glob, os, sys

REPO = os.environ.get('KV_REPO', '/repo')
d = sys.argv[1]
only = sys.argv[2:] or ['']
hit = collections.defaultdict(set)
for p in glob.glob(os.path.join(d, '*')):
    for l in open(p):
        f, n = l.rstrip('\n').split('\t')
        hit[f].add(int(n))


def lines(path):
    """lines that hold code inside of functions"""
    code = compile(open(path).read(), path, 'exec')
    out, todo = set(), [(code, False)]
    while todo:
        c, inner = todo.pop()
        if inner:
            out |= {l for _, _, l in c.co_lines() if l and l != c.co_firstlineno}
        todo += [(k, inner or k.co_flags & 2) for k in c.co_consts if hasattr(k, 'co_code')]
    return out


for path in sorted(glob.glob(REPO + '/klayout_pex/**/*.py', recursive=True) + glob.glob(REPO + '/*.py')):
    f = os.path.relpath(path, REPO)
    if not any(o in f for o in only):
        continue
    all_ = lines(path)
    miss = sorted(all_ - hit[f])
    print(f"{f}: {len(all_) - len(miss)} of {len(all_)} lines")
    src = open(path).read().split('\n')
    if sys.argv[2:]:
        for n in miss:
            print(f"   {n}: {src[n - 1].strip()[:150]}")
