#!/usr/bin/env python3
"""Driver: decides the contract obligations of one property on /repo's current tree.

  vf.py check C01 [--tier quick|thorough] [--unit NAME] [-v]
  vf.py replay FILE          re-run a recorded counterexample on the real code
  vf.py selftest             check the toolchain is usable

Exit 0: every obligation discharged (or listed known finding); 1: VIOLATION;
2: the machinery itself failed.
"""
import concurrent.futures as cf
import glob
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
N = '/usr/share/nginx/src/src'
M = REPO + '/modules'
INCS = ['-I%s/%s' % (N, d) for d in (
    'core', 'event', 'event/modules', 'os/unix', 'http', 'http/modules',
    'http/v2', 'stream')] + ['-I%s/lib/objs' % V, '-I%s/lib' % V] + [
    '-I%s/%s' % (M, d) for d in (
        'nginx-rtmp-module', 'nginx-rtmp-module/http', 'nginx-rtmp-module/hls',
        'nginx-rtmp-module/dash', 'nginx-rtmp-module/mpegts',
        'nginx-rtmp-module/json', 'nginx-client-module',
        'nginx-multiport-module', 'nginx-toolkit-module',
        'nginx-ts-module/src')]
CHECKS = ['--no-standard-checks', '--bounds-check', '--pointer-check',
          '--div-by-zero-check', '--undefined-shift-check',
          '--unwinding-assertions']
SAN = ['-fsanitize=address,bounds,shift-exponent,integer-divide-by-zero,null',
       '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
MEM_KB = 12 * 1024 * 1024
VERBOSE = False


class Machinery(Exception):
    pass


class NotAttached(Exception):
    """the loop contracts no longer fit the code's loops (a refactoring)"""


try:
    import ctypes
    PRCTL = ctypes.CDLL(None).prctl
except Exception:          # no libc handle: children may outlive a killed check
    PRCTL = None


def die_with_parent():
    if PRCTL:
        PRCTL(1, 9)        # PR_SET_PDEATHSIG, SIGKILL


def sh(cmd, timeout, cwd=None, env=None):
    """run with a memory limit; returns rc, stdout, stderr (rc None: timeout)"""
    pre = ['bash', '-c', 'ulimit -v %d; exec "$@"' % MEM_KB, 'x']
    if cmd[0] in ('gcc', 'clang') or cmd[0].startswith('./') or cmd[0].endswith('.exe'):
        pre = []
    p = subprocess.Popen(pre + cmd, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, cwd=cwd, env=env,
                         start_new_session=True, preexec_fn=die_with_parent)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return None, '', 'timeout after %ds' % timeout


def load(pid):
    f = '%s/harness/%s/units.py' % (V, pid)
    spec = importlib.util.spec_from_file_location('units_' + pid, f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def defs(u):
    return ['-D' + d for d in u.get('defs', [])]


def sources(pid, u):
    out = ['%s/harness/%s/%s' % (V, pid, u['src'])]
    for s in u.get('extra', []):
        out.append(s if s.startswith('/') else M + '/' + s)
    return out


def build_goto(pid, u, d):
    gb = '%s/%s.gb' % (d, u['name'])
    zl = []
    if u.get('zero_locals'):
        # mechanical extraction: the file as it is, uintN_t locals without initialiser start at 0
        text = open(M + '/' + u['zero_locals']).read()
        text = re.sub(r'^([ \t]+uint(?:16|32|64)_t[ \t]+\w+);', r'\1 = 0;', text, flags=re.M)
        zl = ['%s/%s.zl.c' % (d, u['name'])]
        open(zl[0], 'w').write('#line 1 "%s/%s"\n' % (M, u['zero_locals']) + text)
        zl = ['-I' + os.path.dirname(M + '/' + u['zero_locals']), '-DVF_SRC="%s"' % zl[0]]
    cmd = ['goto-cc'] + zl + INCS + ['-DVF_CBMC', '-D__CPROVER_VF'] + defs(u) + [
        '--function', u['entry']] + sources(pid, u) + ['-o', gb]
    rc, o, e = sh(cmd, 300)
    if rc != 0:
        raise Machinery('goto-cc failed: ' + (e or o)[-3000:])
    loops = u.get('loops')
    for a, b in u.get('replace_calls', []):
        rc, o, e = sh(['goto-instrument', '--replace-calls', '%s:%s' % (a, b), gb, gb + '.r'], 120)
        if rc != 0:
            raise Machinery('replace-calls %s: %s' % (a, (o + e)[-1500:]))
        gb += '.r'
    rc, o, e = sh(['goto-instrument', '--drop-unused-functions', gb, gb + '.d'], 120)
    if rc == 0:
        gb += '.d'
    if loops or u.get('enforce') or u.get('replace'):
        gi = ['goto-instrument']
        gb2 = '%s/%s.i.gb' % (d, u['name'])
        pre = u.get('pre_unwindset')
        if loops:
            rc, o, e = sh(['goto-instrument', '--show-loops', gb], 120)
            have = re.findall(r'^Loop (\S+)\.(\d+):', o, re.M)
            for l in loops:
                n = sum(1 for f, _ in have if f == l['function'])
                if n != l['nloops']:
                    raise NotAttached('%s has %d loops, contracts are for %d'
                                      % (l['function'], n, l['nloops']))
            rc, o, e = sh(['goto-instrument', '--show-symbol-table', gb], 120)
            syms = set(re.findall(r'^Symbol\.*: (\S+)', o, re.M))
            funcs = {}
            for l in loops:
                smap = []
                for var, sym in l['vars'].items():
                    if sym not in syms:
                        raise NotAttached('no variable %s' % sym)
                    smap.append('%s,%s' % (var, sym))
                funcs.setdefault(l['function'], []).append({
                    'loop_id': str(l['loop']), 'invariants': l['inv'],
                    'assigns': l['assigns'], 'decreases': l.get('decreases', ''),
                    'symbol_map': ';'.join(smap)})
            lc = '%s/%s.lc.json' % (d, u['name'])
            json.dump({'sources': sources(pid, u)[:1],
                       'functions': [{k: v} for k, v in funcs.items()],
                       'output': 'OUTPUT'}, open(lc, 'w'))
            gi += ['--apply-loop-contracts', '--loop-contracts-file', lc]
        gi += ['--dfcc', u['entry']]
        for f in u.get('enforce', []):
            gi += ['--enforce-contract', f]
        for f in u.get('replace', []):
            gi += ['--replace-call-with-contract', f]
        if pre:
            gbp = '%s/%s.p.gb' % (d, u['name'])
            rc, o, e = sh(['goto-instrument', '--unwindset', pre,
                           '--unwinding-assertions', gb, gbp], 120)
            if rc != 0:
                raise Machinery('pre-unwind failed: ' + e[-2000:])
            gb = gbp
        rc, o, e = sh(gi + [gb, gb2], 300)
        if rc != 0:
            if loops:
                raise NotAttached('goto-instrument: ' + (o + e)[-1500:])
            raise Machinery('goto-instrument failed: ' + (o + e)[-3000:])
        gb = gb2
    return gb


def cbmc_cmd(u, gb):
    c = ['cbmc'] + u.get('checks', CHECKS)
    if u.get('unwind'):
        c += ['--unwind', str(u['unwind'])]
    for s in u.get('unwindset', []):
        c += ['--unwindset', s]
    c += ['--object-bits', str(u.get('object_bits', 9))]
    if u.get('solver') in ('cvc5', 'z3'):
        c.append('--' + u['solver'])
    elif u.get('solver') not in (None, 'sat'):
        c += ['--sat-solver', u['solver']]
    c += u.get('cbmc', [])
    return c + [gb]


def parse_results(out):
    try:
        j = json.loads(out)
    except ValueError:
        return None, None, None
    res, stat, msgs = None, None, []
    for x in j:
        if 'result' in x:
            res = x['result']
        if 'cProverStatus' in x:
            stat = x['cProverStatus']
        if 'messageText' in x:
            msgs.append(x['messageText'])
    return res, stat, msgs


def tape_of(trace):
    tape = []
    for s in trace:
        if s.get('stepType') == 'assignment' and s.get('lhs') == 'vf_tape_value' \
                and s.get('sourceLocation', {}).get('function') == 'vf_nd':
            v = s.get('value', {})
            if 'binary' in v:
                tape.append(int(v['binary'], 2))
            elif 'data' in v:
                tape.append(int(re.sub(r'[^0-9]', '', v['data'])))
    return tape


DEADLINE = None            # quick checks: wall-clock end for verifier runs
DECIDED = []               # units that found a failure


def native_try(pid, u, d, n=12):
    """the verifier gave no answer: run the real code on the same contract
    harness with random inputs; a failure is a failure, success proves nothing"""
    if u.get('noreplay') or u.get('nosmoke'):
        return None
    try:
        exe = build_native(pid, u, d)
    except Machinery:
        return None
    for i in range(n):
        st, out = run_native(exe, ['--random', str(7000 + i)], 10)
        if st == 'fail' and any(k[0] == u['name'] and re.search(k[1], out) for k in known(pid) or []):
            continue
        if st in ('fail', 'hang'):
            os.makedirs(V + '/replays', exist_ok=True)
            path = '%s/replays/%s-%s.json' % (V, pid, u['name'])
            json.dump({'property': pid, 'unit': u['name'], 'random': 7000 + i,
                       'native': st, 'native_output': out[-3000:]}, open(path, 'w'), indent=1)
            m = re.search(r'VF-FAIL (.*)', out) or re.search(r'(runtime error: .*|SUMMARY: .*)', out)
            return path, m.group(1)[:200] if m else 'native run: ' + st
        if st == 'hang':
            break
    return None


def run_unit(pid, u, d):
    r = run_unit1(pid, u, d)
    if r['status'] == 'fail':
        DECIDED.append(u['name'])
    elif r['status'] in ('timeout', 'unwind', 'undecided', 'vacuous') and r['note'] != 'skipped':
        hit = native_try(pid, u, d)
        if hit:
            r['native'] = hit
            DECIDED.append(u['name'])
    return r


def run_unit1(pid, u, d):
    """-> dict(status, failures=[(prop, desc)], n, ok, seconds, note)"""
    t0 = time.time()
    left = DEADLINE - t0 if DEADLINE else 1e9
    if left < 5 or (DECIDED and left < 450):
        return {'unit': u['name'], 'kind': u['kind'], 'failures': [], 'obligations': 0, 'wall_s': 0,
                'discharged': 0, 'reach': 0, 'nobody': [], 'status': 'timeout',
                'note': 'skipped' if DECIDED else 'out of time'}
    u = dict(u, timeout=min(u.get('timeout', 600), left))
    r = {'unit': u['name'], 'kind': u['kind'], 'failures': [], 'obligations': 0,
         'discharged': 0, 'reach': 0, 'nobody': [], 'note': ''}
    try:
        gb = build_goto(pid, u, d)
        r['gb'] = gb
        cmd = cbmc_cmd(u, gb)
        r['cmd'] = ' '.join(cmd)
        t1 = time.time()
        rc, o, e = sh(cmd[:-1] + ['--json-ui', gb], u.get('timeout', 600))
        r['solver_s'] = round(time.time() - t1, 2)
        res, stat, msgs = parse_results(o)
        if rc is None:
            r['status'] = 'timeout'
            r['note'] = e
        elif res is None:
            r['status'] = 'error'
            r['note'] = 'cbmc rc=%s: %s' % (rc, ' | '.join((msgs or [])[-4:]) + e[-500:])
        else:
            r['nobody'] = sorted(set(re.findall(
                r'no body for (?:callee|function) (\S+)', '\n'.join(msgs))))
            reach_seen = set()
            reach_hit = set()
            for p in res:
                desc = p.get('description', '')
                if desc.startswith('REACH '):
                    if 'reach' in u and desc[6:] not in u['reach']:
                        continue
                    reach_seen.add(desc)
                    if p['status'] == 'FAILURE':
                        reach_hit.add(desc)
                    continue
                r['obligations'] += 1
                if p['status'] == 'SUCCESS':
                    r['discharged'] += 1
                elif p['status'] == 'FAILURE':
                    r['failures'].append({
                        'property': p['property'], 'description': desc,
                        'location': p.get('sourceLocation', {})})
                else:
                    r['note'] += '%s: %s; ' % (p['property'], p['status']) if len(r['note']) < 600 else ''
            r['reach'] = len(reach_hit)
            vac = reach_seen - reach_hit
            if r['failures']:
                r['status'] = 'fail'
                # an unwinding failure alone is a tool bound, not a violation
                if all('unwind' in f['property'] or 'recursion' in f['property']
                       for f in r['failures']):
                    r['status'] = 'unwind'
            elif vac or (not reach_seen and u.get('reach') != []):
                r['status'] = 'vacuous'
                r['note'] = 'unreached: %s' % sorted(vac)
            elif r['discharged'] != r['obligations'] or r['obligations'] == 0:
                r['status'] = 'undecided'
            else:
                r['status'] = 'ok'
    except NotAttached as x:
        r['status'] = 'not-attached'
        r['note'] = str(x)
    except Machinery as x:
        r['status'] = 'error'
        r['note'] = str(x)
    r['wall_s'] = round(time.time() - t0, 2)
    if VERBOSE:
        print('  [%s] %s %d/%d reach=%d %.1fs %s %s' % (
            u['name'], r['status'], r['discharged'], r['obligations'],
            r['reach'], r['wall_s'], r['note'][:3000], r['nobody']), flush=True)
        for f in r['failures']:
            print('      FAILED %s: %s @ %s:%s' % (
                f['property'], f['description'],
                f['location'].get('file', ''), f['location'].get('line', '')))
    return r


def build_native(pid, u, d):
    exe = '%s/%s.exe' % (d, u['name'])
    if os.path.exists(exe):
        return exe
    rt = '%s/%s.rt.o' % (d, u['name'])
    cmd = ['gcc', '-g', '-O0', '-w', '-DVF_ENTRY=' + u['entry'], '-c',
           V + '/lib/vf_native.c', '-o', rt]
    rc, o, e = sh(cmd, 120)
    if rc != 0:
        raise Machinery('gcc: ' + e[-2000:])
    cmd = ['gcc', '-g', '-O0', '-w', '-fno-strict-aliasing', '-ffunction-sections',
           '-fdata-sections'] + SAN + INCS + defs(u) + ['-DVF_NATIVE'] + sources(pid, u) + [
        rt, '-o', exe, '-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all',
        '-lm']
    rc, o, e = sh(cmd, 300)
    if rc != 0:
        raise Machinery('native build: ' + e[-3000:])
    return exe


def run_native(exe, args, timeout=60):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1',
               UBSAN_OPTIONS='print_stacktrace=0')
    rc, o, e = sh([exe] + args, timeout, env=env)
    out = o + e
    if rc is None:
        return 'hang', out
    if 'VF-FAIL' in out:
        return 'fail', out
    if 'VF-INFEASIBLE' in out:
        return 'infeasible', out
    if 'runtime error:' in out:
        return 'fail', out
    if 'ReserveShadowMemoryRange failed' in out:
        return 'crash', out
    if 'AddressSanitizer' in out:
        if re.search(r'pc 0x0+\s|unknown address 0x0+ \(pc 0x0+ ', out):
            return 'unstubbed', out
        return 'fail', out
    if rc == 0 and 'VF-OK' in out:
        return 'ok', out
    return 'crash', out


def find_replay(pid, u, r, d):
    """counterexample -> tape -> native run.  returns (path, reproduced, detail)"""
    os.makedirs(V + '/replays', exist_ok=True)
    fails = sorted(r['failures'], key=lambda f: (
        not f['description'].startswith('VF '), 'unwind' in f['property']))
    rec = {'property': pid, 'unit': u['name'], 'entry': u['entry'],
           'failed_obligations': [
               '%s: %s @ %s:%s' % (f['property'], f['description'],
                                   f['location'].get('file', ''),
                                   f['location'].get('line', ''))
               for f in fails],
           'verifier': r.get('cmd', ''), 'tape': None, 'native': None,
           'native_output': ''}
    reproduced = False
    for f in fails[:3]:
        if u.get('noreplay'):
            continue
        cmd = cbmc_cmd(u, r['gb'])
        sel = [] if 'unwind' in f['property'] else ['--property', f['property']]
        rc, o, e = sh(cmd[:-1] + ['--json-ui', '--trace'] + sel + [cmd[-1]],
                      min(200, u.get('timeout', 600)))
        res, _, _ = parse_results(o)
        if not res:
            continue
        for p in res:
            if p['property'] == f['property'] and 'trace' in p:
                tape = tape_of(p['trace'])
                rec['tape'] = tape
                rec['obligation'] = '%s: %s' % (f['property'], f['description'])
                try:
                    exe = build_native(pid, u, d)
                except Machinery as x:
                    rec['native_output'] = str(x)
                    break
                tf = d + '/tape'
                open(tf, 'w').write('\n'.join(map(str, tape)) + '\n')
                st, out = run_native(exe, [tf], 30)
                rec['native'] = st
                rec['native_output'] = out[-3000:]
                if st in ('fail', 'crash', 'hang'):
                    reproduced = True
                break
        if reproduced:
            break
    path = '%s/replays/%s-%s.json' % (V, pid, u['name'])
    json.dump(rec, open(path, 'w'), indent=1)
    return path, reproduced, rec


def known(pid):
    out = []
    f = V + '/KNOWN_FINDINGS.txt'
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r'KNOWN: property=(\S+) unit=(\S+) obligation=/(.*?)/ (.*)', line)
            if m and m.group(1) == pid:
                out.append(m.groups()[1:])
    return out


def check(pid, tier, only=None):
    t0 = time.time()
    mod = load(pid)
    global DEADLINE
    DEADLINE = t0 + 640 if tier == 'quick' else None
    units = [u for u in mod.UNITS if tier == 'thorough' or not u.get('thorough_only')]
    if only:
        units = [u for u in units if re.search(only, u['name'])]
    if tier == 'thorough':
        units = [dict(u, **u.get('thorough', {})) for u in units]
    os.makedirs(V + '/.build', exist_ok=True)
    d = tempfile.mkdtemp(prefix=pid + '-', dir=V + '/.build')
    violations, kf, errors, results = [], [], [], {}
    try:
        with cf.ThreadPoolExecutor(max_workers=int(os.environ.get('VF_JOBS', '8'))) as ex:
            futs = {ex.submit(run_unit, pid, u, d): u for u in sorted(
                units, key=lambda u: -u.get('weight', 1))}
            for fu in cf.as_completed(futs):
                results[futs[fu]['name']] = fu.result()
        byname = {u['name']: u for u in units}
        degraded = []
        kn = known(pid)
        for u in units:
            r = results[u['name']]
            comp = u.get('companion')
            if r['status'] == 'ok':
                continue
            if r.get('native'):
                violations.append((u['name'], r['native'][0], True, r['native'][1]))
                continue
            if r['note'] == 'skipped':
                degraded.append((u['name'], 'skipped, a failure was found'))
                continue
            if r['status'] in ('fail', 'unwind') and not kn and sum(v[2] for v in violations) >= 3:
                degraded.append((u['name'], 'fails too: ' + r['failures'][0]['description']))
                continue
            if r['status'] == 'fail' and kn:
                rest = []
                for f in r['failures']:
                    hit = [k for k in kn if k[0] == u['name'] and
                           re.search(k[1], f['description'])]
                    if hit:
                        kf.append(hit[0])
                    else:
                        rest.append(f)
                r['known'] = len(r['failures']) - len(rest)
                r['failures'] = rest
                if not rest:
                    r['status'] = 'known'
                    continue
            if r['status'] == 'unwind':
                # a loop beyond the bound: a violation only if the real code
                # hangs or fails on that input
                path, rep, rec = find_replay(pid, u, r, d)
                if rep:
                    violations.append((u['name'], path, rep, r['failures'][0]['description']))
                    continue
            if r['status'] == 'fail':
                if comp and comp in results and results[comp]['status'] == 'fail':
                    continue        # reported by its bounded companion, with input
                if u.get('soft'):
                    degraded.append((u['name'], 'failed; companion ' + str(comp)))
                    continue
                path, rep, rec = find_replay(pid, u, r, d)
                violations.append((u['name'], path, rep, r['failures'][0]['description']))
            elif comp and comp in results and results[comp]['status'] in ('ok', 'known', 'fail'):
                degraded.append((u['name'], '%s: %s; decided by bounded %s' % (
                    r['status'], r['note'][:200], comp)))
            elif r['status'] == 'timeout' and u.get('soft'):
                degraded.append((u['name'], 'timeout'))
            else:
                errors.append((u['name'], r['status'], r['note']))
        if tier == 'thorough' and not only:
            native_smoke(pid, units, d, errors, violations)
        evidence(pid, tier, mod, units, results, violations, kf, degraded, errors,
                 time.time() - t0)
    finally:
        (None if os.environ.get("VF_KEEP") else shutil.rmtree(d, ignore_errors=True))
    for k in sorted(set(kf)):
        print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    for n, why in degraded:
        print('DEGRADED %s %s: %s' % (pid, n, why))
    for name, path, rep, desc in violations:
        print('  failed obligation in %s: %s%s' % (
            name, desc, ' (input reproduced on the real code)' if rep else ''))
        print('VIOLATION property=%s replay=%s%s' % (
            pid, path, '' if rep else ' no-failing-input-found'))
    for e in errors:
        print('ERROR %s unit %s: %s %s' % (pid, e[0], e[1], e[2][:2000]))
    if violations:
        return 1
    if errors:
        return 2
    n = sum(r['obligations'] for r in results.values())
    print('OK %s: %d obligations discharged in %d units, %.0fs' % (
        pid, sum(r['discharged'] for r in results.values()), len(results), time.time() - t0))
    return 0 if n else 2


def native_smoke(pid, units, d, errors, violations):
    """run each harness natively on random tapes: stubs and spec agree with gcc"""
    seed = int(os.environ.get('VERIF_SEED', '1'))
    for u in units:
        if u.get('noreplay') or u.get('nosmoke'):
            continue
        try:
            exe = build_native(pid, u, d)
        except Machinery as x:
            errors.append((u['name'], 'native', str(x)[:500]))
            continue
        for i in range(200):
            st, out = run_native(exe, ['--random', str(seed * 1000 + i)], 20)
            if st in ('fail', 'crash', 'hang'):
                if known(pid) and st == 'fail' and any(
                        k[0] == u['name'] and re.search(k[1], out) for k in known(pid)):
                    continue
                os.makedirs(V + '/replays', exist_ok=True)
                path = '%s/replays/%s-%s-random.json' % (V, pid, u['name'])
                json.dump({'property': pid, 'unit': u['name'], 'random': seed * 1000 + i,
                           'native': st, 'native_output': out[-3000:]}, open(path, 'w'), indent=1)
                violations.append((u['name'], path, True, 'native run: ' + st))
                break


def evidence(pid, tier, mod, units, results, violations, kf, degraded, errors, wall):
    rs = [results[u['name']] for u in units]
    proof = [(u, results[u['name']]) for u in units if u['kind'] == 'proof']
    bounded = [(u, results[u['name']]) for u in units if u['kind'] != 'proof']
    ob = sum(r['obligations'] for _, r in proof)
    di = sum(r['discharged'] for _, r in proof)
    trusted = list(getattr(mod, 'TRUSTED', []))
    nobody = sorted({n for r in rs for n in r['nobody']})
    cov = {
        'obligations': ob, 'discharged': di,
        'checker_cmd': 'python3 vf.py check %s --tier %s' % (pid, tier),
        'trusted_base': trusted,
        'functions_under_contract': mod.FUNCTIONS,
        'back_ends': sorted({'cbmc 6.11 + ' + u.get('solver', 'minisat') for u in units}),
        'solver_seconds': round(sum(r.get('solver_s', 0) for r in rs), 1),
        'units': [{'name': u['name'], 'kind': u['kind'], 'status': results[u['name']]['status'],
                   'what': u.get('what', ''), 'bound': u.get('bound', ''),
                   'obligations': results[u['name']]['obligations'],
                   'discharged': results[u['name']]['discharged'],
                   'reachability_probes_hit': results[u['name']]['reach'],
                   'seconds': results[u['name']]['wall_s']} for u in units],
        'bounded_obligations': sum(r['obligations'] for _, r in bounded),
        'bounded_discharged': sum(r['discharged'] for _, r in bounded),
        'loop_contracts': sum(len(u.get('loops', [])) for u in units),
        'external_functions_left_unconstrained': nobody,
        'degraded': ['%s: %s' % x for x in degraded],
    }
    level = getattr(mod, 'LEVEL', 'proof')
    if level == 'other':
        cov['explanation'] = getattr(mod, 'EXPLANATION', 'bounded contract checking with CBMC')
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')),
          'level': level, 'coverage': cov,
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + [
              '%s is a bounded stand-in: %s' % (u['name'], u.get('bound', ''))
              for u, _ in bounded],
          'wall_s': round(wall, 1), 'violations': len(violations)}
    if kf:
        ev['known_findings'] = sorted({k[2] for k in kf})
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)


def replay(path):
    rec = json.load(open(path))
    pid = rec['property']
    u = next(u for u in load(pid).UNITS if u['name'] == rec['unit'])
    os.makedirs(V + '/.build', exist_ok=True)
    d = tempfile.mkdtemp(prefix='replay-', dir=V + '/.build')
    try:
        exe = build_native(pid, u, d)
        if 'random' in rec:
            st, out = run_native(exe, ['--random', str(rec['random'])])
        else:
            open(d + '/tape', 'w').write('\n'.join(map(str, rec['tape'] or [])) + '\n')
            st, out = run_native(exe, [d + '/tape'])
        print(out)
        print('replay:', st)
        return 1 if st in ('fail', 'crash', 'hang') else 0
    finally:
        (None if os.environ.get("VF_KEEP") else shutil.rmtree(d, ignore_errors=True))


def main():
    global VERBOSE
    a = sys.argv[1:]
    if '-v' in a:
        VERBOSE = True
        a.remove('-v')
    if not a:
        print(__doc__)
        return 2
    if a[0] == 'selftest':
        for t in ('goto-cc', 'goto-instrument', 'cbmc', 'cvc5', 'gcc'):
            if not shutil.which(t):
                print('missing', t)
                return 1
        return 0
    if a[0] == 'replay':
        return replay(a[1])
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    if '--unit' in a:
        only = a[a.index('--unit') + 1]
    try:
        return check(a[1], tier, only)
    except Exception as x:
        import traceback
        traceback.print_exc()
        print('ERROR', a[1], x)
        return 2


if __name__ == '__main__':
    sys.exit(main())
