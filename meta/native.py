"""developer aid: run one unit natively on random inputs: native.py PID UNIT [N]"""
import sys, os, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vf
pid, unit = sys.argv[1:3]
d = tempfile.mkdtemp(prefix='nat-', dir=vf.V + '/.build')
try:
    for u in vf.load(pid).UNITS:
        if u['name'] == unit:
            exe = vf.build_native(pid, u, d)
            for i in range(int(sys.argv[3]) if len(sys.argv) > 3 else 1):
                st, out = vf.run_native(exe, ['--random', str(1000 + i)], 20)
                print(st, out[-int(os.environ.get('TAIL', '1500')):])
finally:
    shutil.rmtree(d, ignore_errors=True)
