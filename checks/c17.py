"""C17: dielectric filters and choice patterns select exactly what they name."""
import copy, json, os
import kvcore, kvflow

DIEL = ('simple_dielectric_layer', 'conformal_dielectric_layer', 'sidewall_dielectric_layer')


def cased(rng, s):
    return rng.choice([s, s, s.upper(), s.capitalize(), ''.join(rng.choice([ch.upper(), ch.lower()]) for ch in s)])


def pattern(rng, names):
    """(text, set of selected names or None when it has to be refused)"""
    pool = sorted(names) + ['unknown', 'nild', 'all1', 'ni', 'none_', '+', 'x+y']
    picks = [rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8]))]
    base = rng.choice(['all', 'all', 'none', 'none', 'plus', 'bad'])
    parts = []
    if base == 'all':
        sel = {n for n in names if n.lower() not in {p.lower() for p in picks}}
        parts = [cased(rng, 'all')] * rng.choice([1, 1, 1, 2]) + ['-' + cased(rng, p) for p in picks]
    elif base in ('none', 'plus'):
        sel = {n for n in names if n.lower() in {p.lower() for p in picks}}
        if base == 'plus' and not picks:
            base = 'none'
        parts = [cased(rng, 'none')] * (0 if base == 'plus' else rng.choice([1, 1, 2])) + ['+' + cased(rng, p) for p in picks]
    else:
        sel = None
        n = rng.choice(sorted(names))
        parts = rng.choice([['all', 'none'], ['none', '-' + n], ['all', '+' + n], ['all', 'none', '+' + n],
                            ['none', '+' + n, '-' + n], ['all', '-' + n, '+' + n],
                            ['al'], [n], ['all', n], ['none', n], ['everything', '-' + n], ['none', '+' + n, '*' + n]])
        parts = [cased(rng, p) for p in parts]
    if picks and rng.random() < 0.3 and sel is not None:
        parts += [rng.choice(parts)]                 # repetition
    if rng.random() < 0.6:
        rng.shuffle(parts)
    blank = lambda: rng.choice(['', '', '', ' ', '  ', '\t'])
    txt = ','.join(blank() + p + blank() for p in parts)
    return txt, sel


def variant(rng, pdk):
    """the shipped technology, or one with renamed or re-numbered dielectrics and another order of the file's entries"""
    j = json.load(open(kvflow.tech_json(pdk)))
    if rng.random() < 0.6:
        ren = {}
        for l in j['process_stack']['layers']:
            for k in DIEL:
                if k in l:
                    if rng.random() < 0.5:
                        ren[l['name']] = rng.choice(['IMD', 'Ox', 'TEOS', 'SiN', 'HfO2', 'low-k', 'a b']) + str(len(ren))
                    l[k]['dielectric_k'] = round(rng.uniform(1, 20), rng.choice([0, 2, 6]))
        for l in j['process_stack']['layers']:
            l['name'] = ren.get(l['name'], l['name'])
            for k in DIEL:
                if k in l and l[k].get('reference') in ren:
                    l[k]['reference'] = ren[l[k]['reference']]
    return j


def stack(j):
    """[(name, kind, parameters)] of the dielectrics in stack order"""
    return [(l['name'], k, l[k]) for l in j['process_stack']['layers'] for k in DIEL if k in l]


def case(c):
    from klayout_pex.util.multiple_choice import MultipleChoicePattern
    from klayout_pex.tech_info import TechInfo
    rng = c.rng
    pdk = rng.choice(['sky130A', 'ihp_sg13g2'])
    j = variant(rng, pdk)
    diel = stack(j)
    names = {n for n, _, _ in diel}
    txt, sel = pattern(rng, names)
    try:
        p = MultipleChoicePattern(pattern=txt)
    except ValueError:
        c.count('patterns refused')
        c.expect(sel is None, 'refused', f"pattern {txt!r} was refused")
        return
    if sel is None:
        c.violate('not-refused', f"pattern {txt!r} was accepted")
        return
    c.count('patterns accepted')
    c.saw([pdk, sorted(sel), txt])
    choices = sorted(names)
    rng.shuffle(choices)
    choices += rng.sample(choices, rng.randint(0, 2))
    got = list(p.filter(list(choices)))
    c.expect(got == [x for x in choices if x in sel], 'filter', f"{txt!r} of {choices} selects {got}, not {sorted(sel)}")
    inc = {n for n in names if p.is_included(n)}
    c.expect(inc == sel, 'is-included', f"{txt!r} includes {sorted(inc)}, not {sorted(sel)}")

    if c.idx % 3:
        return
    # a technology read with this filter
    path = os.path.join(c.dir, 'tech.json')
    with open(path, 'w') as f:
        json.dump(j, f)
    t = TechInfo.from_json(path, dielectric_filter=p)
    full = TechInfo.from_json(path, dielectric_filter=None)
    c.count('technologies filtered')
    want = [(n, v['dielectric_k']) for n, _, v in diel if n in sel]

    def k_of(l):
        return getattr(l, l.WhichOneof('parameters')).dielectric_k
    c.expect([(l.name, k_of(l)) for l in t.filtered_dielectric_layers] == want, 'tech-dielectrics',
             f"{txt!r}: technology has {[l.name for l in t.filtered_dielectric_layers]}, not {[n for n, _ in want]}")
    c.expect([(l.name, k_of(l)) for l in full.filtered_dielectric_layers] == [(n, v['dielectric_k']) for n, _, v in diel],
             'tech-unfiltered', 'without a filter the technology does not have all dielectrics')
    c.expect(dict(t.dielectric_by_name) == dict(want), 'tech-constants',
             f"{txt!r}: constants {dict(t.dielectric_by_name)}, not {dict(want)}")
    # coatings of every layer, dielectric above every metal
    for l in j['process_stack']['layers']:
        refs = [n for n, k, v in diel if k != 'simple_dielectric_layer' and v.get('reference') == l['name']]
        on = [n for n in refs if n in sel]
        if len(on) <= 1:
            s = t.sidewall_dielectric_layer(l['name'])
            c.count('coatings looked up')
            c.expect((s.name if s else None) == (on[0] if on else None), 'tech-sidewall',
                     f"{txt!r}: dielectric around {l['name']} is {s.name if s else None}, not {on}")
        if 'metal_layer' in l:
            d, h = t.simple_dielectric_above_metal(l['name'])
            d0, h0 = full.simple_dielectric_above_metal(l['name'])
            c.count('dielectrics above metals looked up')
            if d0 is not None and d0.name in sel:
                c.expect(d is not None and d == d0 and h == h0, 'tech-above', f"{txt!r}: above {l['name']}: {d}, {h}; not {d0}, {h0}")
            else:
                c.expect(d is None, 'tech-above', f"{txt!r}: above {l['name']}: {d}, which is not selected")
    c.expect(t.tech == full.tech, 'tech-changed', f"{txt!r} changes more of the technology than its dielectrics")
    for a in ('overlap_cap_by_layer_names', 'sidewall_cap_by_layer_name', 'layer_resistance_by_layer_name',
              'process_stack_layer_by_name', 'process_metal_layers', 'computed_layer_info_by_name', 'layer_info_by_name'):
        c.expect(getattr(t, a) == getattr(full, a), 'tech-changed', f"{txt!r} changes {a}")


def main():
    ck = kvcore.Check('C17', 'random and malformed choice patterns against a set model; technology files (shipped and with renamed '
                      'dielectrics) read with them; an evaluation is one lookup compared; distinct by technology, selection and pattern',
                      required=['patterns refused', 'patterns accepted', 'technologies filtered', 'coatings looked up',
                                'dielectrics above metals looked up'],
                      assumptions=['dielectric names are compared without regard to case, as the patterns are'])
    ck.run(case, 8000, 60000)
    ck.finish()
