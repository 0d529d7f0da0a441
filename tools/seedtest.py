#!/usr/bin/env python3
"""Try planted bugs in private copies of /repo (bind-mounted over /repo in a namespace of their own).
seedtest.py [-j N] [-t] [-n] ID...   -t: thorough checks, -n: no checks (only build, tests, demo)"""
import subprocess, sys, os, shutil, json, concurrent.futures as cf, re
V = '/verif'
args = sys.argv[1:]; thorough = '-t' in args; nochk = '-n' in args
j = int(args[args.index('-j') + 1]) if '-j' in args else 3
ids = [a for i, a in enumerate(args) if not a.startswith('-') and not (i and args[i - 1] == '-j')] or sorted(os.listdir(V + '/seeded'))
def ns(wt, cmd, t=900, cwd='/repo'):
    try:
        return subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd %s && %s' % (wt, cwd, cmd)], capture_output=True, text=True, timeout=t, errors='replace')
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess([], 'timeout', '', '')
def one(i):
    d = '%s/seeded/%s' % (V, i); m = json.load(open(d + '/meta.json')); out = []
    wt = '/tmp/seed-' + i; shutil.rmtree(wt, ignore_errors=True)
    demo = '/tmp/seeddemo-' + i; shutil.rmtree(demo, ignore_errors=True); shutil.copytree(d, demo)
    for f in ('patch.diff', 'meta.json'): os.remove(demo + '/' + f)
    subprocess.run(['cp', '-a', '/repo', wt], check=True)
    try:
        r = ns(wt, 'bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash %s/demo.sh' % demo, cwd='/repo')
        out.append('demo clean rc=%s%s' % (r.returncode, '' if r.returncode == 0 else ' BAD ' + (r.stdout + r.stderr)[-800:]))
        r = subprocess.run(['git', '-C', wt, 'apply', d + '/patch.diff'], capture_output=True, text=True)
        if r.returncode: return i, m, out + ['patch BAD ' + r.stderr]
        r = ns(wt, 'bash /opt/vp/build.sh')
        out.append('build rc=%s%s' % (r.returncode, '' if r.returncode == 0 else ' BAD ' + r.stdout[-1500:]))
        r = ns(wt, 'bash /opt/vp/test.sh /repo/o.json >/dev/null 2>&1; cat /repo/o.json')
        try:
            o = json.loads(r.stdout); base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable_pass') or [])
            out.append('tests %d passed %d failed%s' % (len(o['passed']), len(o['failed']), '' if not o['failed'] and len(o['passed']) >= 75 else ' BAD ' + str(o['failed'])))
        except Exception as e: out.append('tests BAD %s %s' % (e, r.stdout[-300:]))
        r = ns(wt, 'bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash %s/demo.sh' % demo)
        out.append('demo patched rc=%s%s' % (r.returncode, '' if r.returncode not in (0,) else ' BAD'))
        if not nochk:
            e = 'python3 check.py %s%s' % (m['property'], ' --thorough' if thorough else '')
            r = ns(wt, e, 3600, V)
            out.append('check rc=%s %s' % (r.returncode, 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + m['property'] in r.stdout else 'MISSED ' + (r.stdout + r.stderr)[-600:]))
    finally:
        shutil.rmtree(wt, ignore_errors=True); shutil.rmtree(demo, ignore_errors=True)
    return i, m, out
with cf.ThreadPoolExecutor(j) as ex:
    for i, m, out in ex.map(one, ids):
        print(i, m['property'], '|', ' | '.join(out)); sys.stdout.flush()
