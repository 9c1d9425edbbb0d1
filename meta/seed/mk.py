#!/usr/bin/env python3
"""mk.py ID PROPERTY FILE -- reads from stdin a JSON-free spec:
   first block: old text, line '====', new text, line '====', needs, '====', breaks, '====', demo.c
Applies, builds, tests, runs the demo with and without, keeps it in seeded/ID when all agree."""
import subprocess, sys, os, json, shutil
V = '/verif'; R = '/repo'; S = os.path.dirname(os.path.abspath(__file__))
sid, prop, fn = sys.argv[1:4]
old, new, needs, breaks, demo = sys.stdin.read().split('\n====\n')
f = '%s/modules/%s' % (R, fn)
s = open(f).read()
assert s.count(old) == 1, 'old text found %d times' % s.count(old)
d = '%s/seeded/%s' % (V, sid)
os.makedirs(d, exist_ok=True)
open(d + '/demo.c', 'w').write(demo)
shutil.copy(S + '/demo.h', d); shutil.copy(S + '/demo.sh', d)
json.dump({'property': prop, 'needs': needs.strip(), 'what_it_breaks': breaks.strip()}, open(d + '/meta.json', 'w'), indent=1)
def run(c, t=300):
    p = subprocess.run(c, shell=True, cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return p.returncode, p.stdout.decode('utf8', 'replace')
ok = False
try:
    rc, o = run('bash %s/demo.sh' % d)
    print('demo clean:', rc, o[-300:])
    assert rc == 0
    open(f, 'w').write(s.replace(old, new))
    rc, o = run('git diff'); open(d + '/patch.diff', 'w').write(o)
    rc, o = run('bash /opt/vp/build.sh'); assert rc == 0, o[-800:]
    rc, o = run('bash /opt/vp/test.sh /tmp/q/seed.json'); print('tests:', o.strip().split('\n')[-1])
    assert rc == 0 and ' 0 failed' in o, o[-400:]
    rc, o = run('bash %s/demo.sh' % d)
    print('demo patched:', rc, o[-300:])
    assert rc != 0 and rc != 2, 'demo does not fail'
    ok = True
finally:
    run('git checkout -- .'); run('bash /opt/vp/build.sh')
    if not ok:
        shutil.rmtree(d); print('NOT KEPT')
    else:
        print('KEPT', sid)
