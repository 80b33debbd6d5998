"""addfixed.py PROP COMMIT TEXT: record a repaired defect in known_findings.json."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(p)) if os.path.exists(p) else dict(findings=[])
prop, commit, text = sys.argv[1:4]
d['findings'].append(dict(property=prop, status='fixed', entry='fixed: property=%s %s %s' % (prop, commit, text)))
json.dump(d, open(p, 'w'), indent=1)
