"""Writes DESIGN.md: hand-written text below, tables generated from the modules, known_findings.json and seeded/."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(f):
    t = ast.parse(open(f).read())
    ns = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('RULE', 'ASSUMPTIONS', 'DESIGN'):
            try:
                ns[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                ns[n.targets[0].id] = ' '.join(x.value for x in ast.walk(n.value) if isinstance(x, ast.Constant) and isinstance(x.value, str))
    return ns


EXTRA = json.load(open(os.path.join(V, 'tools', 'design_notes.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
out = [open(os.path.join(V, 'tools', 'design_head.md')).read()]
out.append('\n## 4. The properties, one by one\n')
cl = consts(os.path.join(V, 'mc', 'code_lib.py')).get('RULE', '')
for p in props:
    c = consts(os.path.join(V, 'mc', p['id'].lower() + '.py'))
    rule = ' '.join(c.get('RULE', '').split())
    if p['id'][0] == 'C':
        rule = (' '.join(cl.split()) + ' ' + rule).strip()
    e = EXTRA[p['id']]
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(f"*Enumerated.* {rule}\n")
    out.append(f"*Oracle.* {e['oracle']}\n")
    out.append(f"*Bounds and cost.* {e['bounds']}\n")
    out.append(f"*Beyond the tests.* {p['why_tests_cant']}\n")
    a = c.get('ASSUMPTIONS') or []
    if a:
        out.append('*Assumptions.* ' + '; '.join(x.rstrip('.') for x in a) + '.\n')
k = json.load(open(os.path.join(V, 'known_findings.json')))['findings']
out.append('\n## 5. Genuine defects\n\nRecorded, not repaired (an existing test pins the wrong behaviour, so the suite would not pass with a repair):\n')
for f in k:
    if f['status'] == 'open':
        out.append(f"- {f['property']}: {f['what']}.")
out.append('\nRepaired by "fix:" commits in /repo (the checks report each again if it returns; every one was confirmed by reverting the commit in a scratch copy):\n')
for f in k:
    if f['status'] == 'fixed':
        out.append(f"- fixed: property={f['property']} {f['commit']} {f['what']}")
out.append(open(os.path.join(V, 'tools', 'design_tail.md')).read())
out.append('\n## 8. Planted changes and what catches them\n\nEach was confirmed in a scratch copy (builds, stable tests pass, demo passes without and fails with it).\n')
out.append('| change | property | what it breaks | needs | caught by |\n|---|---|---|---|---|')
caught = json.load(open(os.path.join(V, 'tools', 'caught.json')))
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*/meta.json'))):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    out.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(i, '?')} |".replace('\n', ' '))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
