#!/usr/bin/env python3
"""Random one-token mutants of the sources against the quick checks that look at them; prints those no check rejects.
Not part of any check.  usage: mutate.py [-n N] [-s SEED] [-j JOBS] [-f FILE-REGEX]"""
import argparse, concurrent.futures as cf, json, os, queue, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ASN1 = [('oid', ['C07', 'C09', 'C10']), ('real', ['C04', 'C09', 'C10']), ('vf', ['C05', 'C09']), ('leb|vlu', ['C06', 'C09']), ('octets|string', ['C08', 'C10', 'C09']),
        ('ident|tag|length|hdr', ['C02', 'C10', 'C09']), ('int|bool|null|be_|le_', ['C03', 'C09', 'C10']), ('', ['C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10'])]
FILES = {'src/asn1.cc': ASN1, 'src/buf.cc': ['C01'], 'include/crefl/buf.h': ['C01', 'C02', 'C05'], 'src/db.cc': ['C11', 'C12', 'C13'], 'src/dump.cc': ['C24'], 'src/link.cc': ['C17', 'C18', 'C24', 'C29'],
         'src/model.cc': ['C15', 'C16', 'C14', 'C24'], 'src/oid.cc': ['C26'], 'src/reflect.cc': ['C21', 'C22', 'C23', 'C13'], 'src/sha256.cc': ['C20'], 'src/types.cc': ['C24', 'C14', 'C16'], 'include/crefl/hashmap.h': ['C19', 'C17'],
         'include/crefl/bits.h': ['C30'], 'include/crefl/endian.h': ['C30'], 'tool/crefltool.cc': ['C25', 'C24', 'C13', 'C28'], 'tool/asn1tool.cc': ['C27'], 'include/crefl/util.h': ['C13', 'C24', 'C28'], 'scripts/creflcc.py': ['C28', 'C13']}
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '),
       (r' \| ', ' & '), (r' & ', ' | '), (r' << ', ' >> '), (r' >> ', ' << '), (r'\|= ', '= '), (r'\+= ', '= '), (r'\+\+', ''), (r'!(?=[a-z(])', ''), (r' \* ', ' + '), (r' / ', ' * '), (r' % ', ' / '), (r'~', ''),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bcontinue;', ';'), (r'\bbreak;', ';'), (r'\belse if\b', 'if')]
def mutants(f, text, R):
    out = []; fn = ''; skip = False
    for i, l in enumerate(text.split('\n')):
        m = re.match(r'^(?:static |inline |size_t |int |void |\w+ )*[\w:*& ]*?\b(\w+)\s*\(', l)
        if m and not l.startswith((' ', '\t')) and not l.rstrip().endswith(';'): fn = m.group(1)
        s = l.strip()
        if s.startswith(('//', '*', '/*', '#', '{ {', '"', 'assert')) or not s: continue
        if f == 'src/oid.cc' and 'x' in s and s.startswith('{'): continue
        code = re.sub(r'"(?:[^"\\]|\\.)*"', lambda m: '"' + '\0' * (len(m.group(0)) - 2) + '"', l)
        for a, b in OPS:
            for m in re.finditer(a, code): out.append((i, fn, l[:m.start()] + b + l[m.end():]))
        for m in re.finditer(r'(?<![\w.\0"])(0x[0-9a-fA-F]+|\d+)(?![\w.\0"])', code):
            v = int(m.group(1), 0)
            for w in {v + 1, v - 1 if v else 1, 0 if v > 1 else v + 1}: out.append((i, fn, l[:m.start()] + str(w) + l[m.end():]))
        if s.endswith(';') and re.match(r'^[\w\->.\[\]*]+(\(.*\)| [-+|&]?= .*);$', s) and not re.match(r'^(return|const|auto|int|size_t|break)\b', s): out.append((i, fn, re.match(r'\s*', l).group(0) + ';'))
        if re.match(r'^return .*;$', s) and s != 'return 0;': out.append((i, fn, re.match(r'\s*', l).group(0) + 'return 0;'))
    return out
def checks(f, fn):
    c = FILES[f]
    if c is not ASN1: return c
    return next(v for k, v in ASN1 if re.search(k, fn))
a = argparse.ArgumentParser(); a.add_argument('-n', type=int, default=50); a.add_argument('-s', type=int, default=1); a.add_argument('-j', type=int, default=3); a.add_argument('-f', default='.'); a = a.parse_args()
R = random.Random(a.s); fs = [f for f in FILES if re.search(a.f, f)]; ms = {f: mutants(f, open('/repo/' + f).read(), R) for f in fs}
picks = []
w = [len(ms[f]) ** .6 for f in fs]
while len(picks) < a.n:
    f = R.choices(fs, w)[0]; m = R.choice(ms[f])
    if (f, m) not in picks: picks.append((f, m))
os.makedirs('/tmp/mut', exist_ok=True); Q = queue.Queue()
for k in range(a.j):
    d = '/tmp/mut/w%d-%d' % (k, os.getpid()); shutil.rmtree(d, ignore_errors=True); subprocess.run(['git', '-C', '/repo', 'worktree', 'list'], capture_output=True)
    os.makedirs(d); subprocess.run('git -C /repo archive HEAD | tar x -C %s/ && cp -a %s %s-verif && rm -rf %s-verif/.git %s-verif/seeded' % (d, V, d, d, d), shell=True, check=True); Q.put(d)
def one(p):
    f, (i, fn, new) = p; d = Q.get()
    try:
        path = d + '/' + f; text = open('/repo/' + f).read(); ls = text.split('\n'); old = ls[i]; ls[i] = new; open(path, 'w').write('\n'.join(ls))
        got = []
        for c in checks(f, fn):
            try: r = subprocess.run(['timeout', '-k', '5', '700', 'python3', 'check.py', c], cwd=d + '-verif', capture_output=True, text=True, env=dict(os.environ, CREFL_REPO=d, VERIF_SEED='1', VERIF_TIER="quick"));  out = r.stdout + r.stderr; r = r.returncode
            except Exception as e: r = out = str(e)
            got.append('%s:%s' % (c, r))
            if r != 0: break
        open(path, 'w').write(text)
        if r == 3: open("/tmp/mut/err.log", "a").write(str(p) + out)
        v = "killed" if r == 1 else 'SURVIVED' if r == 0 else 'error'
        print('%s %s:%d (%s) %s\n  - %s\n  + %s' % (v, f, i + 1, fn, ' '.join(got), old.strip(), new.strip()), flush=True)
        return v
    finally: Q.put(d)
with cf.ThreadPoolExecutor(a.j) as ex: vs = list(ex.map(one, picks))
print({v: vs.count(v) for v in set(vs)})
for d in list(Q.queue): shutil.rmtree(d); shutil.rmtree(d + '-verif')
