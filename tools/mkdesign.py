"""Rewrites section 3 of DESIGN.md (between the markers) from properties.jsonl and proofs/registry.py."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from proofs.registry import INFO
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
out = []
for p in props:
    i = INFO[p['id']]; out.append('### %s - %s' % (p['id'], p['title']))
    if i['units']:
        out.append('* **Proved** (units %s): %s' % (', '.join('`%s`' % u for u in i['units']), i['proved'].rstrip('.') + '.'))
    else:
        out.append('* **Not proved**, bounded only.')
    out.append('* **Bounded stand-in / input search** (never counted as proved): %s Bound: %s.' % (i['rule'], i['bound']))
    if i['unproved']: out.append('* **Left open by the proof**: %s.' % i['unproved'].rstrip('.'))
    own = [a for a in i['assumptions'] if a not in __import__('proofs.registry', fromlist=['GENERAL']).GENERAL]
    if own: out.append('* **Assumptions of its own**: ' + '; '.join(own) + '.')
    out.append('')
t = open(V + '/DESIGN.md').read()
b, e = '<!-- properties: generated by tools/mkdesign.py -->', '<!-- end of generated part -->'
if b not in t: t += '\n' + b + '\n' + e + '\n'
t = t[:t.index(b)] + b + '\n' + '\n'.join(out) + '\n' + t[t.index(e):]
open(V + '/DESIGN.md', 'w').write(t)
