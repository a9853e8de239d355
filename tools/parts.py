"""The parts of a check's last evidence, briefly: parts.py ID..."""
import json, sys
for c in sys.argv[1:]:
    e = json.load(open('/verif/evidence/%s.json' % c))
    print(c, e['wall_s'], 's')
    for p in e['coverage']['parts']: print('  ', p.get('seconds'), p.get('model') or p.get('conformance'), p.get('states') or p.get('cases'), str(p.get('kinds', p.get('outcomes', '')))[:230])
