"""Writes DESIGN.md from tools/DESIGN.in.md, the contract modules (docstring, DESIGN text), MANIFEST.json and seeded/."""
import json, os, re, ast, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {p['id']: p for p in map(json.loads, open(H + '/properties.jsonl'))}
m = json.load(open(H + '/MANIFEST.json'))
out = []
for c in m['checks']:
    i = c['property']; src = open(f'{H}/contracts/{i.lower()}.py').read(); t = ast.parse(src)
    d = {n.targets[0].id: n.value for n in t.body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)}
    names = re.findall(r"^@proof\('([^']*)'", src, re.M)
    out.append(f"### {i} {props[i]['title']}\n")
    if 'DESIGN' in d: out.append(ast.literal_eval(d['DESIGN']).strip() + '\n')
    if names: out.append('Proved: ' + '; '.join(names) + '.\n')
    if 'TRUSTED' in d:
        try: out.append('Trusted here: ' + '; '.join(ast.literal_eval(d['TRUSTED'])) + '.\n')
        except ValueError: pass
    if 'RULE' in d and ast.literal_eval(d['RULE']): out.append('Native search beside it (bounded): ' + ast.literal_eval(d['RULE']) + '.\n')
na = [f"* {x['property']} {props[x['property']]['title']}: {x['reason']}" for x in m['not_applicable']]
caught = {}
p = H + '/tools/caught.json'
if os.path.exists(p): caught = json.load(open(p))
seed = []
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    x = json.load(open(f)); n = os.path.basename(os.path.dirname(f))
    seed.append(f"* `{n}` ({x['property']}): {x['what_it_breaks']}; needs {x['needs']}. {caught.get(n, '')}")
s = open(H + '/tools/DESIGN.in.md').read()
s = s.replace('@@PROPS@@', '\n'.join(out)).replace('@@NA@@', '\n'.join(na)).replace('@@SEEDED@@', '\n'.join(seed))
open(H + '/DESIGN.md', 'w').write(s)
