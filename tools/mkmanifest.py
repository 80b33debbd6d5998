"""Writes MANIFEST.json from checks/*.py and properties.jsonl."""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'lib'), os.path.join(V, 'checks')]
NA = json.load(open(os.path.join(V, 'tools', 'not_applicable.json'))) if os.path.exists(os.path.join(V, 'tools', 'not_applicable.json')) else {}
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    q = json.loads(line)
    i = q['id']
    if os.path.exists(os.path.join(V, 'checks', i + '.py')) and i not in NA:
        m = importlib.import_module(i)
        checks.append(dict(property=i, quick_cmd='./run %s' % i, thorough_cmd='VERIF_TIER=thorough ./run %s' % i,
                           technique=getattr(m, 'TECHNIQUE', 'exhaustive bounded exploration of the real code against a reference model'),
                           level=m.LEVEL,
                           level_note=getattr(m, 'NOTE', None) or ('Bounds, quick: %s. Assumes: %s' % (
                               m.BOUNDS['quick'], '; '.join(m.ASSUME)))))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check has been built for it in this framework yet')))
json.dump(dict(version=1, setup_cmd='./run --setup', checks=checks, not_applicable=na,
               notes='No hooks: the checks build /repo\'s current sources unchanged (assertions on) and drive the real code.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
