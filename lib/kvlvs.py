"""A miniature LVS extraction with KLayout's own LayoutVsSchematic engine.

It stands in for the KLayout application + PDK LVS deck, neither of which can run here, and registers
its layers under the same names as pdk/sky130A/.../sky130.lvs and pdk/ihp_sg13g2/.../sg13g2.lvs.
"""
import klayout.db as kdb

# conductor rows: LVS name, drawing gds, pin LVS name, pin gds, label LVS name, label gds
SKY_METALS = [
    ('poly_con', (66, 20), 'poly_pin_con', (66, 16), 'poly_label', (66, 5), 'poly'),
    ('li_con', (67, 20), 'li_pin_con', (67, 16), 'li_label', (67, 5), 'li1'),
    ('met1_con', (68, 20), 'met1_pin_con', (68, 16), 'met1_label', (68, 5), 'met1'),
    ('met2_con', (69, 20), 'met2_pin_con', (69, 16), 'met2_label', (69, 5), 'met2'),
    ('met3_ncap', (70, 20), 'met3_pin_con', (70, 16), 'met3_label', (70, 5), 'met3'),
    ('met4_ncap', (71, 20), 'met4_pin_con', (71, 16), 'met4_label', (71, 5), 'met4'),
    ('met5_con', (72, 20), 'met5_pin_con', (72, 16), 'met5_label', (72, 5), 'met5'),
]
SKY_VIAS = [   # LVS name, gds, between metal index i and i+1
    ('licon_poly_con', (66, 44)), ('mcon_con', (67, 44)), ('via1_con', (68, 44)), ('via2_con', (69, 44)),
    ('via3_ncap', (70, 44)), ('via4_ncap', (71, 44)),
]
SKY_NSD, SKY_NSD_CON = ('nsd', (93, 44)), ('licon_nsd_con', (65, 9044))

IHP_METALS = [
    ('poly_con', (5, 0), 'poly_pin_con', (5, 2), 'poly_text', (5, 25), 'GatPoly'),
    ('metal1_con', (8, 0), 'metal1_pin_con', (8, 2), 'metal1_text', (8, 25), 'Metal1'),
    ('metal2_con', (10, 0), 'metal2_pin_con', (10, 2), 'metal2_text', (10, 25), 'Metal2'),
    ('metal3_con', (30, 0), 'metal3_pin_con', (30, 2), 'metal3_text', (30, 25), 'Metal3'),
    ('metal4_con', (50, 0), 'metal4_pin_con', (50, 2), 'metal4_text', (50, 25), 'Metal4'),
    ('metal5_n_cap', (67, 0), 'metal5_pin_con', (67, 2), 'metal5_text', (67, 25), 'Metal5'),
    ('topmetal1_con', (126, 0), 'topmetal1_pin_con', (126, 2), 'topmetal1_text', (126, 25), 'TopMetal1'),
    ('topmetal2_con', (134, 0), 'topmetal2_pin_con', (134, 2), 'topmetal2_text', (134, 25), 'TopMetal2'),
]
IHP_VIAS = [
    ('cont_poly_con', (6, 0)), ('via1_drw', (19, 0)), ('via2_drw', (29, 0)), ('via3_drw', (49, 0)),
    ('via4_drw', (66, 0)), ('topvia1_n_cap', (125, 0)), ('topvia2_drw', (133, 0)),
]
PDKS = {'sky130A': (SKY_METALS, SKY_VIAS), 'ihp_sg13g2': (IHP_METALS, IHP_VIAS)}
# source/drain: device class, LVS name, drawing gds, contact LVS name, contact gds (made up), canonical layer
DIFF = {'sky130A': [('NFET', 'nsd', (93, 44), 'licon_nsd_con', (65, 9044)),
                    ('PFET', 'psd', (94, 20), 'licon_psd_con', (65, 9045))],
        'ihp_sg13g2': [('NFET', 'nsd_fet', (7, 0), 'cont_nsd_con', (65, 9044)),
                       ('PFET', 'psd_fet', (14, 0), 'cont_psd_con', (65, 9045))]}
SUBSTRATE = {'sky130A': 'VSUBS', 'ihp_sg13g2': 'VSUBS'}


def metals(pdk):
    return PDKS[pdk][0]


def vias(pdk):
    return PDKS[pdk][1]


def retag(layout, suffix):
    """appends a suffix to all texts of a layout"""
    for c in layout.each_cell():
        for li in layout.layer_indexes():
            for sh in [x for x in c.shapes(li).each(kdb.Shapes.STexts)]:
                sh.text_string = sh.text_string + suffix


# devices of every kind KLayout knows, on layers no technology has (each terminal layer has a contact layer to metal 1):
# class -> (extractor, [(layer role, rect)], {terminal: (layer role, contact rect)})
ZOO = {
    'res': (lambda: kdb.DeviceExtractorResistor('zoo_res', 50.0),
            [('R', (0, 0, 3000, 400)), ('C', (0, 0, 400, 400)), ('C', (2600, 0, 3000, 400))],
            {'tA': ('C', (100, 100, 300, 300)), 'tB': ('C', (2700, 100, 2900, 300))}),
    'resb': (lambda: kdb.DeviceExtractorResistorWithBulk('zoo_resb', 50.0),
             [('R', (0, 0, 3000, 400)), ('C', (0, 0, 400, 400)), ('C', (2600, 0, 3000, 400)), ('W', (-1000, -200, 3200, 600))],
             {'tA': ('C', (100, 100, 300, 300)), 'tB': ('C', (2700, 100, 2900, 300)), 'tW': ('W', (-900, 0, -700, 200))}),
    'cap': (lambda: kdb.DeviceExtractorCapacitor('zoo_cap', 1e-15),
            [('P1', (0, 0, 2000, 1000)), ('P2', (1000, 0, 3000, 1000))],
            {'tA': ('P1', (100, 100, 300, 300)), 'tB': ('P2', (2700, 100, 2900, 300))}),
    'capb': (lambda: kdb.DeviceExtractorCapacitorWithBulk('zoo_capb', 1e-15),
             [('P1', (0, 0, 2000, 1000)), ('P2', (1000, 0, 3000, 1000)), ('W', (-1000, -200, 3200, 1200))],
             {'tA': ('P1', (100, 100, 300, 300)), 'tB': ('P2', (2700, 100, 2900, 300)), 'tW': ('W', (-900, 0, -700, 200))}),
    'dio': (lambda: kdb.DeviceExtractorDiode('zoo_dio'),
            [('P', (0, 0, 1000, 1000)), ('N', (0, 0, 2000, 1000))],
            {'tA': ('P', (100, 100, 300, 300)), 'tC': ('N', (1600, 100, 1800, 300))}),
    'bjt3': (lambda: kdb.DeviceExtractorBJT3Transistor('zoo_bjt3'),
             [('C', (0, 0, 3000, 1000)), ('B', (500, 0, 2000, 1000)), ('E', (700, 0, 1100, 1000))],
             {'tC': ('C', (2500, 100, 2700, 300)), 'tB': ('B', (1500, 100, 1700, 300)), 'tE': ('E', (800, 100, 1000, 300))}),
    'bjt4': (lambda: kdb.DeviceExtractorBJT4Transistor('zoo_bjt4'),
             [('C', (0, 0, 3000, 1000)), ('B', (500, 0, 2000, 1000)), ('E', (700, 0, 1100, 1000)), ('S', (-1000, -200, 3200, 1200))],
             {'tC': ('C', (2500, 100, 2700, 300)), 'tB': ('B', (1500, 100, 1700, 300)), 'tE': ('E', (800, 100, 1000, 300)),
              'tS': ('S', (-900, 0, -700, 200))}),
    'mos3': (lambda: kdb.DeviceExtractorMOS3Transistor('zoo_mos3'),
             [('SD', (0, 0, 850, 600)), ('SD', (1000, 0, 1850, 600)), ('G', (850, 0, 1000, 600)), ('P', (850, -500, 1000, 600))],
             {'tS': ('SD', (100, 100, 300, 300)), 'tD': ('SD', (1500, 100, 1700, 300)), 'tG': ('P', (875, -400, 975, -300))}),
}


def zoo_gds(cls, role, contact=False):
    roles = sorted({r for r, _ in ZOO[cls][1]})
    return (251 if not contact else 252, 10 * sorted(ZOO).index(cls) + roles.index(role))


def extract(layout, top_name, pdk, devices=False, deep=True, capdev=False, schematic=None, odd=False, zoo=()):
    """Returns a kdb.LayoutVsSchematic holding the extracted netlist and net shapes."""
    top = layout.cell(top_name)
    lvs = kdb.LayoutVsSchematic(kdb.RecursiveShapeIterator(layout, top, []))
    mets, vs = PDKS[pdk]

    def poly_layer(gds, name):
        li = layout.find_layer(kdb.LayerInfo(*gds))
        if li is None:
            li = layout.layer(kdb.LayerInfo(*gds))
        return lvs.make_polygon_layer(li, name)

    def text_layer(gds, name):
        li = layout.find_layer(kdb.LayerInfo(*gds))
        if li is None:
            li = layout.layer(kdb.LayerInfo(*gds))
        return lvs.make_text_layer(li, name)

    regs, keep = {}, []
    for n, gds, pn, pgds, ln, lgds, _ in mets:
        regs[n] = poly_layer(gds, n)
    if devices:
        poly = regs[mets[0][0]]
        bulk_drw = poly_layer((122, 16), 'bulk_drw')
        bulk = bulk_drw & bulk_drw     # derived and without a GDS layer, as in the real decks
        lvs.register(bulk, 'sub')
        keep += [bulk, bulk_drw]
        sds = []
        for cls, name, gds, cname, cgds in DIFF[pdk]:
            drw = poly_layer(gds, name + '_drw')
            gate = drw & poly
            sd = drw - poly
            lvs.register(gate, name + '_gate')
            lvs.register(sd, name)
            ex = kdb.DeviceExtractorMOS4Transistor(cls)
            lvs.extract_devices(ex, dict(SD=sd, G=gate, W=bulk, tS=sd, tD=sd, tG=poly, tB=bulk))
            con = poly_layer(cgds, cname)
            sds.append((sd, con))
            keep += [gate, sd, drw, con]
    if capdev:
        # a two-plate capacitor device between met3 and capm, under the deck's names
        bot = poly_layer((70, 220), 'met3_cap')
        top_p = poly_layer((89, 44), 'capm')
        ex = kdb.DeviceExtractorCapacitor('sky130_fd_pr__model__cap_mim', 2e-15)
        lvs.extract_devices(ex, dict(P1=bot, P2=top_p, tA=bot, tB=top_p))
        keep += [bot, top_p]
    zooreg = []
    for cls in zoo:
        ex, rects, terms = ZOO[cls]
        lay = {r: poly_layer(zoo_gds(cls, r), f"zoo_{cls}_{r}") for r in {r for r, _ in rects}}
        con = {r: poly_layer(zoo_gds(cls, r, True), f"zoo_{cls}_{r}_con") for r in {r for r, _ in terms.values()}}
        lvs.extract_devices(ex(), {**{k: v for k, v in lay.items()}, **{t: lay[r] for t, (r, _) in terms.items()}})
        zooreg += [(lay[r], con[r]) for r in con]
        keep += [*lay.values(), *con.values()]
    vregs = {n: poly_layer(gds, n) for n, gds in vs}
    pregs = {m[2]: poly_layer(m[3], m[2]) for m in mets}
    tregs = {m[4]: text_layer(m[5], m[4]) for m in mets}
    for m in mets:
        r = regs[m[0]]
        lvs.connect(r)
        lvs.connect(pregs[m[2]])
        lvs.connect(r, pregs[m[2]])
        lvs.connect(r, tregs[m[4]])
    for i, (n, _) in enumerate(vs):
        lvs.connect(vregs[n])
        lvs.connect(regs[mets[i][0]], vregs[n])
        lvs.connect(vregs[n], regs[mets[i + 1][0]])
    if devices:
        for sd, con in sds:
            lvs.connect(sd)
            lvs.connect(con)
            lvs.connect(sd, con)
            lvs.connect(con, regs[mets[1][0]])
        lvs.connect(bulk)
        lvs.connect_global(bulk, 'SUBSTRATE')
    for lay, con in zooreg:
        lvs.connect(lay)
        lvs.connect(con)
        lvs.connect(lay, con)
        lvs.connect(con, regs[mets[1][0]])
    if odd:
        # layers the technology does not know, and (IHP) two layers that share one GDS pair
        for gds, nm in (((250, 7), 'odd_con'), ((251, 3), 'odder_con'), ((252, 9), 'oddest_con'),
                        ((253, 0), 'odd4_con'), ((0, 5), 'odd5_con'), ((254, 254), 'odd6_con')):
            o = poly_layer(gds, nm)
            lvs.connect(o)
            lvs.connect(o, regs[mets[1][0]])
            keep.append(o)
        if pdk == 'ihp_sg13g2':
            pw, well = poly_layer((46, 0), 'pwell'), poly_layer((46, 1), 'pwell_sub')
            for r in (pw, well):
                lvs.connect(r)
                lvs.connect(r, regs[mets[1][0]])
                keep.append(r)
    if capdev:
        lvs.connect(bot)
        lvs.connect(top_p)
        lvs.connect(bot, regs['met3_ncap'])
        via3c = poly_layer((70, 244), 'via3_cap')
        lvs.connect(via3c)
        lvs.connect(top_p, via3c)
        lvs.connect(via3c, regs['met4_ncap'])
        keep.append(via3c)
    lvs.extract_netlist()
    nl = lvs.netlist()
    nl.make_top_level_pins()
    if devices == 'floating bulk':
        for ci in nl.each_circuit():
            for d in ci.each_device():
                if [t.name for t in d.device_class().terminal_definitions()] == ['S', 'G', 'D', 'B']:
                    d.disconnect_terminal('B')
    while True:      # drop unreferenced circuits (cells without any conductor), as the decks' purge does
        dead = [ci for ci in nl.each_circuit() if ci.name != top_name and not list(ci.each_ref())]
        if not dead:
            break
        for ci in dead:
            nl.remove(ci)
    lvs._kv_keep = (layout, regs, vregs, pregs, tregs, keep)
    return lvs
