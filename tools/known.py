"""known.py PID 'text': prints known-finding lines for the violations of the last run of PID"""
import json, sys
pid, text = sys.argv[1:3]
d = json.load(open('/verif/evidence/%s.violations.json' % pid))
v = d if isinstance(d, list) else d.get('violations', d)
for x in [y for y in v if not y.get('known')]:
    print('known: property=%s %s :: %s (%s)' % (pid, x['key'], x['message'], text))
