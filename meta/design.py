#!/usr/bin/env python3
"""appends the per-property part of DESIGN.md from meta/list.py and the planted bugs"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = props.V
t = open(V + '/DESIGN.md').read()
M = '<!-- generated below -->\n'
t = t.split(M)[0] + M
for q in props.P:
    built = os.path.exists('%s/harness/%s/units.py' % (V, q['id'])) and not q['na']
    t += '\n### %s %s\n%s\n' % (q['id'], q['title'], ('Decided by `harness/%s`. ' % q['id'] + q['note']) if built else
                               'Not applicable: ' + (q['na'] or 'no contract within reach was completed for it; not claimed'))
    if built:
        u = {'__file__': '%s/harness/%s/units.py' % (V, q['id'])}
        exec(open('%s/harness/%s/units.py' % (V, q['id'])).read(), u)
        t += 'Functions: ' + '; '.join(u['FUNCTIONS']) + '.\n'
        t += 'Bounds: ' + '; '.join(sorted({x.get('bound', '') for x in u['UNITS'] if x.get('bound')})[:6]) + '.\n' if any(x.get('bound') for x in u['UNITS']) else 'No bound.\n'
        t += 'Assumes: ' + '; '.join(u['TRUSTED'] + u['ASSUMPTIONS']) + '.\n'
t += '\n## Planted bugs\n\nFrom the last sweep (`meta/seed/sweep.py`); every one is under seeded/.\n\n'
f = V + '/meta/seed/caught.json'
c = json.load(open(f)) if os.path.exists(f) else {}
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    t += '* `%s` (%s): %s -- %s\n' % (d, m['property'], m['what_it_breaks'], c.get(d, 'not swept yet'))
open(V + '/DESIGN.md', 'w').write(t)
