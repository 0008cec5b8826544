"""C20: repairing a report makes it loadable and loses nothing."""
import gzip, logging, os, random, subprocess, sys
import xml.dom.minidom as MD
import klayout.db as kdb
import klayout.rdb as rdb
import kvcore

NAMES = ['Common', 'layers', 'Area', 'a b', "it's", 'x.y', 'back\\slash', 'quote"d', 'é', 'a\nb', 'tab\tx', '$1', 'n[3]', '<x>', '-3', '1a',
         "''", 'a\\', 'end ', ' start', '\\n', 'a&b', '#@!', 'a_b$c', '0', 'x:y', 'x;y', "q'", '\u2126m', '(VDD-VSS)', "a'.'b", '.', '..',
         '\U0001f600', "\\'", 'categories', 'net.x.y', 'A' * 300, "]'/..", '*', '303', '\\303\\251']
TEXTS = ['v', 'net: A', ' lead', 'trail ', "it's", 'é\u2126', 'a\nb', '<&>', '"', '1.5e-15', '', "x'y\\z", 'text: text', 'polygon: (0,0)', '#', '\\']


def name(rng, used):
    for _ in range(40):
        n = rng.choice(NAMES)
        if rng.random() < 0.3:
            n += rng.choice(NAMES)
        if used and rng.random() < 0.15:
            # nearly the name of a sibling
            o = rng.choice(sorted(used))
            n = rng.choice([o + ' ', ' ' + o, o.upper(), o.lower(), o.swapcase(), o.strip() or 'x', o[:-1] or 'y', o + '.', f"'{o}'", o + '\\'])
        if n not in used:
            used.add(n)
            return n
    n = f"u{len(used)}"
    used.add(n)
    return n


def build(rng):
    r = rdb.ReportDatabase('db')
    r.description = rng.choice(TEXTS)
    r.generator = rng.choice(TEXTS)
    r.top_cell_name = 'TOP'
    cats = []

    def tree(parent, depth):
        used = set()
        for _ in range(rng.choice([1, 1, 2, 3]) if depth else rng.randint(1, 5)):
            n = name(rng, used)
            k = r.create_category(n) if parent is None else r.create_category(parent, n)
            k.description = rng.choice(TEXTS)
            cats.append(k)
            if depth < 3 and rng.random() < 0.5:
                tree(k, depth + 1)
    tree(None, 0)
    cells = [r.create_cell(n) for n in rng.sample(['TOP', 'A', 'B$1', 'x y', 'é'], rng.randint(1, 3))]
    tags = [r.tag_id(t) for t in ('t1', 'x y')]
    for _ in range(rng.choice([0, 1, 3, 8, 20])):
        k = rng.choice(cats)
        it = r.create_item(rng.choice(cells).rdb_id(), k.rdb_id())
        for _ in range(rng.randint(0, 4)):
            v = rng.choice([rng.choice(TEXTS), rng.random() * 1e3, kdb.DBox(0, 0, rng.random(), 1), kdb.DPolygon(kdb.DBox(0, 0, 1, rng.randint(1, 9))),
                            kdb.DEdge(0, 0, 1, rng.random()), kdb.DPath([kdb.DPoint(0, 0), kdb.DPoint(1, 1)], 0.5), kdb.DText(rng.choice(TEXTS), 1, 2)])
            it.add_value(v)
        if rng.random() < 0.3:
            it.comment = rng.choice(TEXTS)
        if rng.random() < 0.2:
            it.visited = True
        if rng.random() < 0.2:
            it.add_tag(rng.choice(tags))
    return r


def kids(e, tag):
    return [x for x in e.childNodes if x.nodeType == x.ELEMENT_NODE and x.tagName == tag]


def text(e):
    return ''.join(x.data for x in e.childNodes if x.nodeType in (x.TEXT_NODE, x.CDATA_SECTION_NODE))


def plain(e):
    """an element without layout white space"""
    sub = [x for x in e.childNodes if x.nodeType == x.ELEMENT_NODE]
    return (e.tagName, tuple(sorted(e.attributes.items())), tuple(plain(x) for x in sub) if sub else ('' if e.tagName in CONTAINERS else text(e)))


CONTAINERS = ('tags', 'categories', 'cells', 'items', 'references', 'values', 'item', 'cell', 'category')


def catname(e):
    n = kids(e, 'name')
    return text(n[0]) if n else ''


def catpaths(root):
    """[(path, description)] in document order; subcategories of one name within a parent stay apart"""
    out = []

    def go(e, p):
        for cs in kids(e, 'categories'):
            for k in kids(cs, 'category'):
                q = p + (catname(k),)
                d = kids(k, 'description')
                out.append((q, text(d[0]) if d else ''))
                go(k, q)
    go(root, ())
    return out


def rest(root):
    """all of the report but its categories"""
    return [plain(e) for e in root.childNodes if e.nodeType == e.ELEMENT_NODE and e.tagName != 'categories']


def parse(b):
    return MD.parseString(b).documentElement


def loaded(path):
    """(text of every item in order by category path) as KLayout reads it, or the exception"""
    r = rdb.ReportDatabase('')
    try:
        r.load(path)
    except Exception as e:
        return None, str(e)
    out = []
    for it in r.each_item():
        k = r.category_by_id(it.category_id())
        out.append((k.path(), r.cell_by_id(it.cell_id()).qname(), [v.to_s() for v in it.each_value()], it.comment, it.tags_str,
                    it.is_visited()))
    return sorted(out, key=repr), None


def read(path):
    b = open(path, 'rb').read()
    return gzip.decompress(b) if b[:2] == b'\x1f\x8b' else b


def repair(c, path):
    from klayout_pex.klayout.repair_rdb import repair_rdb
    before = open(path, 'rb').read()
    if c.idx % 80 == 3:
        # as a user runs it
        r = subprocess.run([sys.executable, '-m', 'klayout_pex.klayout.repair_rdb', path], cwd=os.environ.get('KV_REPO', '/repo'),
                           stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=100)
        c.expect(r.returncode == 0, 'exit-code', f"the command exits with {r.returncode}: {(r.stdout + r.stderr)[-800:]}")
        c.count('repairs by command')
    else:
        repair_rdb(path)
    new = path + '.repair.xml'
    c.count('repairs')
    if not os.path.exists(new):
        if open(path, 'rb').read() != before:
            return path                     # repaired in place
        c.violate('no-output', 'the repair wrote nothing')
        return None
    return new


def case(c):
    logging.disable(logging.CRITICAL)
    rng = c.rng
    r = build(rng)
    gz = rng.random() < 0.5
    path = os.path.join(c.dir, 'r.rdb' + ('.gz' if gz else ''))
    r.save(path)
    good, err = loaded(path)
    if good is None:
        c.count('reports KLayout itself cannot read back')
        return
    root = parse(read(path))
    # take categories away
    cut = []
    damage = rng.random() < 0.75
    if damage:
        allc = [k for cs in root.getElementsByTagName('categories') for k in kids(cs, 'category')]
        for k in rng.sample(allc, min(len(allc), rng.choice([1, 1, 2, 3, len(allc)]))):
            cut.append(catname(k))
            k.parentNode.removeChild(k)
        for cs in list(root.getElementsByTagName('categories')):
            if not kids(cs, 'category') and cs.parentNode is not None and rng.random() < 0.15:
                if cs.parentNode is not root:
                    cs.parentNode.removeChild(cs)
        b = root.toxml('utf-8')
        b = b'<?xml version="1.0" encoding="utf-8"?>\n' + b
        with open(path, 'wb') as f:
            f.write(gzip.compress(b) if gz else b)
        root = parse(b)
        c.count('reports damaged')
    _, broken = loaded(path)
    c.count('reports KLayout refuses' if broken else 'reports KLayout reads')
    new = repair(c, path)
    if new is None:
        return
    try:
        after = parse(read(new))
    except Exception as e:
        c.violate('not-xml', f"the repaired report is not XML: {e}; names cut: {cut}")
        return
    c.expect(rest(after) == rest(root), 'content-changed', f"items, cells or tags changed by the repair; cut {cut}")
    old, now = catpaths(root), catpaths(after)
    kept = [x for x in now if x in old]
    c.expect(len(now) - len(kept) == len(now) - len(old) and sorted(kept) == sorted(old), 'category-lost',
             f"categories of the report changed by the repair: {[x for x in old if x not in now]}")
    # exactly the missing ones, told by what KLayout reads from the undamaged report
    have = {p for p, _ in old}
    need = set()
    undamaged = catpaths(parse_good(r, c))
    bypath = {kpath(p): p for p, _ in undamaged}
    for k, *_ in good:
        p = bypath[k]
        for i in range(1, len(p) + 1):
            if p[:i] not in have:
                need.add(p[:i])
    extra = [p for p, _ in now if p not in have]
    c.expect(sorted(extra) == sorted(need), 'categories-added', f"categories added: {sorted(extra)}, needed: {sorted(need)}")
    got, err = loaded(new)
    if got is None:
        c.violate('not-loadable', f"the repaired report does not load: {err}; cut {cut}")
        return
    c.expect(got == good, 'items-differ', f"items after repair differ: {[x for x in good if x not in got][:2]} / {[x for x in got if x not in good][:2]}")
    c.count('items compared', len(good))
    c.saw([len(good), sorted(map(str, extra)), cut, gz])
    again = repair(c, new)
    if again and again != new:
        c.expect(plain(parse(read(again))) == plain(after), 'not-idempotent', 'repairing the repaired report changes it')


def kpath(p):
    """the path as KLayout writes it, from a fresh database"""
    r = rdb.ReportDatabase('')
    k = None
    for n in p:
        k = r.create_category(n) if k is None else r.create_category(k, n)
    return k.path()


def parse_good(r, c):
    q = os.path.join(c.dir, 'good.rdb')
    r.save(q)
    return parse(read(q))


def main():
    ck = kvcore.Check('C20', 'random report databases (nested categories with quotes, dots, blanks, backslashes, non-ASCII names; all '
                      'value types) whose categories are partly removed, repaired and compared with an own XML reader and with what '
                      'KLayout loads; an evaluation is one repair; distinct by items, categories cut and added',
                      required=['repairs', 'repairs by command', 'reports damaged', 'reports KLayout refuses', 'reports KLayout reads', 'items compared'],
                      assumptions=['names and values without control characters that XML cannot hold'])
    ck.run(case, 4000, 40000)
    ck.finish()
