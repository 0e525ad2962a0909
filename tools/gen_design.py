# writes the generated parts of DESIGN.md: the table of the properties, the environments, the planted bugs
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
notes = json.load(open(os.path.join(V, 'tools', 'level_notes.json')))
seeded = json.load(open(os.path.join(V, 'tools', 'seed_notes.json')))
har = {}
for f in sorted(os.listdir(os.path.join(V, 'harness'))):
    if f.endswith('.cpp'):
        for m in re.finditer(r'^HARNESS\((\w+),\s*"([^"]*)"', open(os.path.join(V, 'harness', f)).read(), re.M):
            for p in m.group(2).split(','):
                har.setdefault(p, []).append((f[:-4], m.group(1)))
rows = []
for p in props:
    i = p['id']
    if i not in har:
        rows.append('### %s %s\n\nNot applicable, see Limits.\n' % (i, p['title']))
        continue
    by = {}
    for f, h in har[i]:
        by.setdefault(f, []).append('`%s`' % h)
    rows.append('### %s %s\n\n* Harnesses: %s\n* Environment and bounds: %s\n' % (
        i, p['title'], '; '.join('`harness/%s.cpp`: %s' % (f, ', '.join(h)) for f, h in sorted(by.items())), notes.get(i, '')))
table = '\n'.join(rows)
s = ['| change | property | caught by | remark |', '|---|---|---|---|']
for k in sorted(seeded, key=lambda k: (seeded[k]['property'], k)):
    x = seeded[k]
    if os.path.isdir(os.path.join(V, 'seeded')) and not os.path.isdir(os.path.join(V, 'seeded', k)):
        continue
    s.append('| %s | %s | %s | %s |' % (k, x['property'], x.get('by', ''), x.get('remark', '')))
d = open(os.path.join(V, 'tools', 'design.in.md')).read()
d = d.replace('@@TABLE@@', table).replace('@@SEEDED@@', '\n'.join(s))
open(os.path.join(V, 'DESIGN.md'), 'w').write(d)
