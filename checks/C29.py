"""C29: outputs depend on inputs alone."""
import os
from reflect import *
from dbgen import Db
from vlib import REPO
from C17 import nodes
from C28 import programs
FORMATS = ['dump', 'dump_fqn', 'dump_sum', 'dump_all', 'dump_ext', 'dump_ext_fqn', 'dump_ext_sum', 'dump_ext_all', 'stats']
def body(c):
    R = c.rng
    x, env = setup(c)
    env.update(CREFLTOOL=c.build('crefltool', [os.path.join(REPO, 'tool', 'crefltool.cc')], san=False))
    go = lambda sess, name: c.conform('ReflectTrace', x, sess, name, env=env, args=(c.scratch,), dtimeout=850, timeout=850)
    n = 5 if c.thorough else 3
    r = c.model('MergeMC', note='the copy algorithm on every pair of small databases', timeout=850)
    ps = [json.loads(x) for x in c.printed(r['out'], 'SCRIPT')]; R.shuffle(ps); s = []; c.cov['model_pairs'] = len(ps)
    for a, b, o in ps[:400 if c.thorough else 60]:
        o = ' '.join(str(y - 1) for y in o)
        s.append(['build 0 23 ' + nodes(a), 'build 1 23 ' + nodes(b), 'merge 2 %s %s' % (hx(b'm'), o), 'repeat merge 2 %d %s %s' % (n, hx(b'm'), o), 'repeat emit 2 %d' % n, 'repeat %s 2 %d' % (R.choice(FORMATS), n)])
    go(s, 'model')
    s = []
    for k in range(500 if c.thorough else 70):
        l = []; m = R.choice([1, 2, 3])
        if R.random() < .5: l, us = programs(R, m, 'full')
        else: us = [(p, text(p)) for p in (Gen(R, 'full').program(R.choice([1, 3, 8])) for _ in range(m))]
        for i, (p, src) in enumerate(us):
            l += ['reflect %d %s %s %s' % (i, hx(b'f%d.c' % i), hx(src.encode()), hx(json.dumps(strip(p), separators=(',', ':')).encode())), 'repeat reflect %d %d' % (i, n)]
        o = list(range(m)); R.shuffle(o); o = ' '.join(map(str, o))
        l += ['merge 4 %s %s' % (hx(b'all.refl'), o), 'repeat merge 4 %d %s %s' % (n, hx(b'all.refl'), o), 'repeat emit 4 %d' % n, 'repeat %s 4 %d' % (R.choice(FORMATS), n), 'repeat %s 0 %d' % (R.choice(FORMATS), n)]
        s.append(l)
    go(s, 'programs')
    s = []
    for k in range(300 if c.thorough else 50):
        l = []; m = R.choice([1, 2, 3]); b = Db(R); b.source(R.choice([1, 3, 6]), knots=R.choice([0, 1, 2]))
        for i in range(m): l.append((b if R.random() < .3 else b.mutate()).script(i))
        o = ' '.join(str(R.randrange(m)) for _ in range(R.randint(1, 4)))
        l += ['merge 4 %s %s' % (hx(b'm'), o), 'repeat merge 4 %d %s %s' % (n, hx(b'm'), o), 'repeat emit 4 %d' % n] + ['repeat %s %d %d' % (f, R.choice([0, 4]), n) for f in R.sample(FORMATS, 3)]
        s.append(l)
    go(s, 'databases')
    c.assumptions = ['runs differ in directory, working directory, file names of merge inputs, environment, locale, contents of fresh memory and address layout']
