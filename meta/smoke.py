"""developer aid: native random runs of every unit of the given properties on the current tree: smoke.py PID..."""
import sys, os, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vf
for pid in sys.argv[1:]:
    d = tempfile.mkdtemp(prefix='nat-', dir=vf.V + '/.build')
    us = vf.load(pid).UNITS
    with ThreadPoolExecutor(6) as ex:
        for u, h in zip(us, ex.map(lambda u: vf.native_try(pid, u, d), us)):
            if h:
                print(pid, u['name'], h, flush=True)
    shutil.rmtree(d, ignore_errors=True)
    print(pid, 'done', flush=True)
