#!/usr/bin/env python3
"""mkseed.py ID PROPERTY NEEDS BREAKS DEMODIR < python code editing the copy in the current directory:
helper to turn sed-like replacements into seeded/<id>."""
import sys, os, json, subprocess, shutil, tempfile
def seed(i, prop, needs, breaks, edits, demo, extra={}):
    d = '/verif/seeded/' + i; os.makedirs(d, exist_ok=True)
    wt = tempfile.mkdtemp(prefix='mkseed-')
    subprocess.run('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x' % (wt, wt), shell=True, check=True)
    for f, a, b, *n in edits:
        p = os.path.join(wt, f); s = open(p).read()
        if n:                                      # the n-th occurrence (from 0)
            q = s.split(a); assert len(q) > n[0] + 1, (i, f, len(q) - 1, a)
            s = a.join(q[:n[0] + 1]) + b + a.join(q[n[0] + 1:])
        else:
            assert s.count(a) == 1, (i, f, s.count(a), a)
            s = s.replace(a, b)
        open(p, 'w').write(s)
    diff = subprocess.run(['git', '-C', wt, 'diff'], capture_output=True, text=True).stdout
    base = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()[0]
    for f in {e[0] for e in edits}:
        orig = subprocess.run(['git', '-C', '/repo', 'show', base + ':' + f], capture_output=True, text=True).stdout.split('\n')
        for l in subprocess.run(['git', '-C', wt, 'diff', '--', f], capture_output=True, text=True).stdout.split('\n')[4:]:
            if l.startswith('-') and l[1:] not in orig: print(i, 'changes a line of a fix:', l)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(demo)
    for k, v in extra.items(): open(d + '/' + k, 'w').write(v)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(wt)
DEMO = '''#!/bin/bash
# compiles demo.cc against the working tree and runs it
D=$(dirname "$(readlink -f "$0")"); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -include cstdint -w -O1 %s -I include -o "$T/demo" "$D/demo.cc" %s || exit 2
timeout 60 "$T/demo" "$T"
'''
def demo(srcs, flags=''): return DEMO % (flags, ' '.join('src/%s.cc' % s for s in srcs))
