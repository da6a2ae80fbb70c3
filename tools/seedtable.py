"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | breaks | needs | caught by (quick) |', '|---|---|---|---|']
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append(f"| {f.split('/')[-2]} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
p = H + '/DESIGN.md'
s = open(p).read()
a = s.index('## 5. Planted bugs (seeded/)')
b = s.index('## 6. Limits')
s = s[:a] + '## 5. Planted bugs (seeded/)\n\nEach was confirmed (builds, stable tests pass, demo 0 / non-zero); checks run on it with `tools/seedtest.sh ID`.\n\n' + '\n'.join(rows) + '\n\n' + s[b:]
open(p, 'w').write(s)
