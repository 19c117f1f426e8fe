"""kf.py PROP id commit what... : appends a fixed entry"""
import json, sys
p = '/verif/known_findings.json'
k = json.load(open(p))
prop, i, c = sys.argv[1:4]
w = ' '.join(sys.argv[4:])
k.append({'property': prop, 'status': 'fixed', 'id': i, 'commit': c, 'what': 'fixed: property=%s %s %s' % (prop, c, w)})
json.dump(k, open(p, 'w'), indent=1)
