"""Random kdb netlists and plain-data images of them (shared by the netlist checks)."""
import klayout.db as kdb

NETS = ['VDD', 'VSS', 'GND', 'gnd', 'VSUBS', 'vsubs', 'A', 'a', 'B', 'out', 'in[3]', 'x<1>', 'n-1', 'a.b', 'é', 'net 7', 'N001', '0', 'clk', 'Q', 'S', 'VDDA', '$5', 'g1_A', 'g2_', 'Q%GROUP1', 'VDD%GROUP2x']
PARAM_SKIP = ()


def classes(nl, rng=None):
    out = {}
    for nm, cls in (('NMOS', kdb.DeviceClassMOS4Transistor), ('PMOS', kdb.DeviceClassMOS3Transistor), ('RES', kdb.DeviceClassResistor),
                    ('CAP', kdb.DeviceClassCapacitor), ('DIO', kdb.DeviceClassDiode), ('NPN', kdb.DeviceClassBJT3Transistor),
                    ('IND', kdb.DeviceClassInductor), ('RESB', kdb.DeviceClassResistorWithBulk), ('CAPB', kdb.DeviceClassCapacitorWithBulk)):
        d = cls()
        d.name = nm
        d.description = nm
        nl.add(d)
        out[nm] = d
    return out


def netlist(rng, ndev=None, nnets=None, top='TOP', names=None, kinds=None, unnamed=True, unconnected=True):
    nl = kdb.Netlist()
    ck = kdb.Circuit()
    ck.name = top
    nl.add(ck)
    cls = classes(nl)
    names = names or rng.sample(NETS, nnets or rng.randint(1, 9))
    nets = []
    for n in names:
        nets.append(ck.create_net(n if not (unnamed and rng.random() < 0.15) else ''))
        nets[-1].cluster_id = 100 + len(nets)       # as in an extracted netlist: expanded names are distinct
    for n in nets:
        if n.name and rng.random() < 0.5:
            p = ck.create_pin(n.name)
            ck.connect_pin(p, n)
    if rng.random() < 0.1:
        ck.create_pin('open')
    kinds = kinds or list(cls)
    for i in range(ndev if ndev is not None else rng.randint(0, 8)):
        k = cls[rng.choice(kinds)]
        d = ck.create_device(k, rng.choice(['', f"M{i}", f"d{i}", f"${i}"]))
        for t in k.terminal_definitions():
            if not (unconnected and rng.random() < 0.07):
                d.connect_terminal(t.id(), rng.choice(nets))
        for p in k.parameter_definitions():
            if rng.random() < 0.7:
                d.set_parameter(p.id(), value(rng, p.name))
    return nl, ck


def value(rng, name):
    if name == 'C':
        return rng.choice([1e-15, 2.5e-16, 1e-12, 4.9e-17, rng.random() * 1e-14])
    if name == 'R':
        return rng.choice([0.0, 1.0, 100.0, rng.random() * 1e4])
    return rng.choice([0.5, 1.0, rng.random() * 10])


def device(d, skip_name=False):
    k = d.device_class()
    terms = []
    for t in k.terminal_definitions():
        n = d.net_for_terminal(t.id())
        terms.append((t.name, n.expanded_name() if n else None))
    return (k.name, '' if skip_name else d.name, tuple(terms),
            tuple((p.name, d.parameter(p.id())) for p in k.parameter_definitions()))


def image(nl):
    """everything a netlist says, as plain data"""
    out = []
    for ck in nl.each_circuit():
        pins = [(p.name(), (lambda n: n.expanded_name() if n else None)(ck.net_for_pin(p.id()))) for p in ck.each_pin()]
        nets = [n.expanded_name() for n in ck.each_net()]
        subs = [(s.name, s.circuit_ref().name, tuple((lambda n: n.expanded_name() if n else None)(s.net_for_pin(p.id()))
                                                     for p in s.circuit_ref().each_pin())) for s in ck.each_subcircuit()]
        out.append((ck.name, tuple(pins), tuple(nets), tuple(sorted(map(repr, (device(d) for d in ck.each_device())))), tuple(sorted(subs))))
    return out
