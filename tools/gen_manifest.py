"""Writes MANIFEST.json: every property with a check in checks/ is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C01': 'reference monitor (raster area oracle) on extraction results of randomized layouts',
    'C02': 'reference monitor (facing-edge raster oracle, halo bracket) on extraction results of randomized layouts',
    'C03': 'reference monitor (arctan halo oracle) on extraction results of randomized layouts and options',
    'C04': 'metamorphic runtime oracle over rewritten layouts',
    'C05': 'cross-output conservation checker over summary, CSV, SPICE, report and netlist of one run',
    'C06': 'reference monitor (analytic resistances, connectivity oracle) on R extraction of generated wires',
    'C07': 'online checker: effective resistances re-solved around every network operation',
    'C08': 'offline checker over recorded 3D panels (watertightness, enclosed volumes, material pairs)',
    'C09': 'offline checker over the written solver input files against layout and technology',
    'C10': 'differential log oracle: generated solver logs against the parsed and stored matrix',
    'C11': 'runtime oracle: Maxwell matrix re-assembled from the expanded netlist',
    'C12': 'runtime oracle: admittance matrix before and after reduction, under stress netlists',
    'C13': 'history checker over run/edit/failure sequences against cold runs',
    'C14': 'fault injection into the external tools with an exit-status and artefact monitor',
    'C15': 'command-line fuzzing with an accept/reject oracle and a file-system monitor',
    'C16': 'ASan/UBSan build of the generator, determinism monitor and table consistency checker',
    'C17': 'reference monitor (set semantics) on generated patterns and technologies',
    'C18': 'stub MAGIC recording its script, plus differential parsing of generated .ext files',
    'C19': 'offline checker over the written JSON against the netlist connectivity',
    'C20': 'offline checker over repaired report databases (item multiset, loadability, idempotence)',
    'C21': 'round-trip oracle on generated geometry',
    'C22': 'conservation monitor on the extraction context of generated LVS databases',
    'C24': 'offline checker over the written report database against layout geometry and technology coefficients',
    'C25': 'offline cross-checker over all files of runs with stand-in solvers: matrices, netlists, tables, STL surfaces, layout dumps',
    'C26': 'stress of concurrent and consecutive runs with pauses injected at file operations; results, status and logs against runs alone',
    'C27': 'reference monitor on converted layouts (layer by layer geometry) and listed names',
    'C23': 'conservation monitor on summaries of generated extraction histories',
}
LEVEL = {'C14': 'fault_enumeration'}
NOTE = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read())
NA = {}
have = [p for p in sorted(TECH) if os.path.exists(os.path.join(V, 'checks', p.lower() + '.py'))]
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
ids = [p['id'] for p in props]
m = dict(version=1, setup_cmd='bash bin/setup',
         checks=[dict(property=p, quick_cmd=f'bin/check {p}', thorough_cmd=f'VERIF_TIER=thorough bin/check {p}',
                      evidence_file=f'evidence/{p}.json', technique=TECH[p], level=LEVEL.get(p, 'exploration'),
                      level_note=NOTE[p]) for p in have if p in ids],
         not_applicable=[dict(property=p, reason=NA.get(p, 'check still being built')) for p in ids if p not in have])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks', [x['property'] for x in m['not_applicable']])
