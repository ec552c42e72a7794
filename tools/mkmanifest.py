#!/usr/bin/env python3
import sys, json
sys.path.insert(0, '/verif')
from proofs import registry
checks = []
for p, i in registry.INFO.items():
    if i['units']:
        tech = 'contract-based deductive verification (Verus) of code extracted mechanically from /repo on every run' + (
            '' if i['level'] == 'proof' else ' for the functions listed; bounded stand-in (real code against the contract on generated inputs) for the rest')
    else:
        tech = 'bounded stand-in for the contract: real code run against an executable contract on generated inputs (not a proof)'
    note = ''
    if i['units']:
        note += 'Proved for all inputs (units %s): %s ' % (', '.join(i['units']), i.get('proved', ''))
    note += 'Bounded: ' + i['bound'] + '. ' + ('Not covered by proof: ' + i['unproved'] + '.' if i['unproved'] else '')
    checks.append(dict(property=p, quick_cmd='python3 check.py %s --tier quick' % p, thorough_cmd='python3 check.py %s --tier thorough' % p,
                       technique=tech, level=i['level'], level_note=note))
json.dump(dict(version=1, setup_cmd='true', hooks=dict(guard='none (no hooks are needed)', enable='nothing to enable: the checks read the unmodified sources', source_commits=[]),
               checks=checks, not_applicable=[], notes='See DESIGN.md.'), open('/verif/MANIFEST.json', 'w'), indent=1)
