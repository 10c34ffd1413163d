#!/usr/bin/env python3
"""assembles DESIGN.md from the design text below, properties.jsonl, the checks and the seeded changes"""
import ast, glob, json, os, re
from mkmanifest_data import TECH, NA
HERE = os.path.dirname(os.path.abspath(__file__)); os.chdir(HERE)
HEAD = open('design_head.md').read(); TAIL = open('design_tail.md').read()
WHY = json.load(open('design_why.json'))
def finish(path):
    t = ast.parse(open(path).read()); fin = ass = None
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'finish':
            fin = [ast.literal_eval(a) if isinstance(a, ast.Constant) else '' for a in n.args[:2]]
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and n.targets[0].attr == 'assumptions':
            try: ass = ast.literal_eval(n.value) or ass
            except Exception: pass
    return fin, ass
out = [HEAD.rstrip(), '', '## 3. The properties', '']
for l in open('properties.jsonl'):
    p = json.loads(l); i = p['id']
    out += ['### %s %s' % (i, p['title']), '']
    if i in NA and i not in TECH: out += ['Not applicable: ' + NA[i], '']; continue
    f = 'checks/%s.py' % i.lower()
    if i not in TECH or not os.path.exists(f): out += ['Not claimed: no check has been built.', '']; continue
    fin, ass = finish(f)
    out += ['*Decided by* %s.' % TECH[i][0], '']
    if fin: out += ['*Analysed:* %s.' % fin[0].rstrip('.'), '', '*Rule:* %s.' % fin[1].rstrip('.'), '']
    if ass: out += ['*Assumed:* ' + '; '.join(ass) + '.', '']
    if i in WHY: out += ['*Why it reaches further than the tests:* ' + WHY[i], '']
kf = open('known_findings.txt').read().split('\n')
out += ['## 4. Genuine defects found', '', 'Repaired in /repo (one `fix:` commit each; the checks report them again if they return):', '']
out += ['- %s `%s` %s' % m.groups() for l in kf for m in [re.match(r'fixed: property=(\w+) (\w+) (.*)', l)] if m]
out += ['', 'Recorded, not repaired (printed as KNOWN-FINDING):', '']
out += ['- **%s** (%s) %s' % (j['id'], j['property'], j['what']) for l in kf if l.startswith('{') for j in [json.loads(l)]]
out += ['', '## 5. Planted changes', '', 'Each was written from the property and the code, compiles, passes the stable tests, and has a demonstration that fails with it. The last column says what the check of that property reports (`vcheck --bug`).', '', '| change | property | needs | breaks | reported |', '|---|---|---|---|---|']
caught = json.load(open('design_caught.json')) if os.path.exists('design_caught.json') else {}
for d in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(d)); n = d.split('/')[1]
    out.append('| %s | %s | %s | %s | %s |' % (n, m['property'], m['needs'], m['what_it_breaks'], caught.get(n, '')))
out += ['', TAIL.rstrip(), '']
open('DESIGN.md', 'w').write('\n'.join(out))
