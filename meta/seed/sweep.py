#!/usr/bin/env python3
"""runs each planted bug's check against it: sweep.py [regex]; results in caught.json"""
import json, os, re, subprocess, sys
V = '/verif'; R = '/repo'
f = V + '/meta/seed/caught.json'
c = json.load(open(f)) if os.path.exists(f) else {}
for d in sorted(os.listdir(V + '/seeded')):
    if len(sys.argv) > 1 and not re.search(sys.argv[1], d):
        continue
    p = json.load(open('%s/seeded/%s/meta.json' % (V, d)))['property']
    try:
        subprocess.check_call(['git', '-C', R, 'apply', '%s/seeded/%s/patch.diff' % (V, d)])
        o = subprocess.run(['python3', 'vf.py', 'check', p, '--tier', 'quick'], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        x = o.stdout.decode()
        l = [a for a in x.split('\n') if a.startswith('  failed')][:1]
        c[d] = ('caught by %s:%s' % (p, l[0][2:160] if l else '')) if o.returncode == 1 and 'VIOLATION property=' + p in x else 'MISSED by %s (exit %d)' % (p, o.returncode)
        if 'no-failing-input-found' in x: c[d] += ' [no failing input]'
    finally:
        subprocess.check_call(['git', '-C', R, 'checkout', '--', '.'])
    print(d, c[d], flush=True)
    json.dump(c, open(f, 'w'), indent=1, sort_keys=True)
