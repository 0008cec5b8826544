"""fills the table of planted changes in DESIGN.md"""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
missed = set(open('tools/missed_at_first.txt').read().split())
rows = ['<!-- PLANTS -->', '| change | breaks | needs |', '|---|---|---|']
for d in sorted(glob.glob('seeded/*/meta.json')):
    m, i = json.load(open(d)), os.path.basename(os.path.dirname(d))
    rows.append(f"| {i}{' *' if i in missed else ''} | {m['what_it_breaks']} | {m['needs']} |")
rows.append('<!-- END -->')
s = open('DESIGN.md').read()
s = re.sub(r'<!-- PLANTS -->(.*?<!-- END -->)?', lambda _: '\n'.join(rows), s, flags=re.S)
open('DESIGN.md', 'w').write(s)
