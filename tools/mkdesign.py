"""assembles DESIGN.md: prose of tools/design/ + properties, checks, planted bugs and repairs as they are now"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = lambda p: json.load(open(os.path.join(V, p)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
man = J('MANIFEST.json')
chk = {c['property']: c for c in man['checks']}
na = {c['property']: c['reason'] for c in man['not_applicable']}
known = J('known_findings.json')
extra = {}
cur = None
for l in open(V + '/tools/design/props.md'):
    if l.startswith('## '):
        cur = l[3:].strip(); extra[cur] = ''
    elif cur:
        extra[cur] += l
seeds = {}
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(f)); seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(f)), d))
out = [open(V + '/tools/design/head.md').read()]
for p in props:
    i = p['id']
    out.append(f"### {i} — {p['title']}\n\n")
    if i in chk:
        out.append(f"*Deciding method*: {chk[i]['technique']}.\n\n*Bounds*: {chk[i]['level_note']}\n\n")
        out.append(extra.get(i, '').strip() + '\n\n')
        out.append(f"*Beyond the tests*: {p['why_tests_cant']}.\n\n")
    else:
        out.append(f"Not claimed: {na[i]}.\n\n")
out.append('## 3. Planted bugs and the checks that catch them\n\nEach is in `seeded/<id>/` and is caught by the quick check of its property (column 1). All were written from the text of the property and the code.\n\n| check | bug | needs |\n|---|---|---|\n')
for k in sorted(seeds):
    for n, d in seeds[k]:
        out.append(f"| {k} | `{n}`: {d['what_it_breaks']} | {d['needs']} |\n")
out.append('\n' + open(V + '/tools/design/seeds.md').read())
out.append('\n## 4. Genuine defects found\n\nRepaired by `fix:` commits in /repo (each found by a check or while specifying; the check reports them again if they return):\n\n')
for x in known['fixed']:
    out.append(f"- {x[len('fixed: property='):]}\n")
out.append('\nRecorded, not repaired (printed as KNOWN-FINDING):\n\n' + ''.join(f'- {json.dumps(x)}\n' for x in known['findings']) + ('' if known['findings'] else '- none\n'))
out.append(open(V + '/tools/design/tail.md').read())
open(V + '/DESIGN.md', 'w').write(''.join(out))
