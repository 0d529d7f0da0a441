"""C18: merging."""
import json
from dbgen import *
from C17 import nodes
def tail(n, dst='ar/out'):
    """merge what the slots 0..n-1 hold in some ways and look at everything"""
    return
def body(c):
    R = c.rng
    x = c.build('db', ['db.cc'])
    ms = [None, dict(Builtins={9, 11}, MaxDecls=1, MaxMembers=2), dict(Nested=False, Lists={21, 11, 121})]
    if c.thorough: ms = [dict(Lists={12, 121}), dict(Builtins={9, 11}, MaxDecls=1, MaxMembers=2, Lists={12, 21}), dict(Builtins={9}, MaxDecls=2, MaxMembers=2, Nested=False)]
    for k, m in enumerate(ms):
        r = c.model('MergeMC', consts=m, note='the copy algorithm on every pair of small databases', timeout=850, heap='10g')
        ps = [json.loads(s) for s in c.printed(r['out'], 'SCRIPT')]
        R.shuffle(ps); c.cov['model_pairs_%d' % k] = len(ps)
        g = []
        for a, b, o in ps[:12000 if c.thorough else 500]:
            o = ' '.join(str(y - 1) for y in o)
            g.append(['build 0 23 ' + nodes(a), 'build 1 23 ' + nodes(b), 'merge 2 %s %s' % (hx(b'm'), o)] + (['check 0', 'check 1', 'layouts 2'] if R.random() < .2 else []))
        c.conform('DbTrace', x, sessions(g, 60), 'model%d' % k)
    sess = []
    names = lambda: ''.join(R.choice('abc/.') for _ in range(R.randint(0, 8)))
    for k in range(400 if c.thorough else 90):
        abi = R.random() < .4
        base = Db(R, abi=abi); base.source(R.choice([0, 1, 2, 3, 4]), knots=R.choice([0, 0, 1, 1, 2]))
        n = R.choice([0, 1, 2, 2, 3, 4]); s = []
        for i in range(n):
            q = R.random()
            d = base if q < .25 else base.clone() if q < .3 else base.mutate() if q < .55 else None
            if q >= .3 and q < .55:
                for _ in range(R.randint(0, 2)): d = d.mutate()
            if d is None:      # shares some of its types: the same random choices again
                d = Db(R, abi=abi); d.source(R.choice([0, 1, 2, 3]), knots=R.choice([0, 1, 2]))
            s += [d.script(i), 'image %d %d' % (i, i)]
        order = [R.randrange(n) for _ in range(R.randint(0, 5))] if n and R.random() < .5 else list(range(n))
        o = ' '.join(map(str, order)); nm = R.choice(['out', 'ar/out.refl', 'x/y.c/z', names()])
        s += ['merge 4 %s %s' % (hx(nm.encode()), o), 'image 4 4', 'layouts 4']
        s += ['check %d' % i for i in range(n)] + ['image %d %d' % (i, i) for i in range(n)]
        s += ['merge 5 %s %s' % (hx(nm.encode()), o), 'image 5 4']
        if R.random() < .5: s += ['transfer 4 6', 'check 6', 'image 6 4']
        if R.random() < .4: s += ['merge 6 %s 4 %s' % (hx(b'again'), o), 'layouts 6']     # archives of archives
        if R.random() < .2: s += ['merge 7 %s 4 5 4' % hx(b'more')]
        sess.append(s)
    for k in range(10 if c.thorough else 3):
        base = Db(R); base.source(R.randint(14, 24), knots=3); o = Db(R); o.source(R.randint(10, 20), knots=2)
        sess.append([base.script(0), o.script(1), base.mutate().script(2), 'merge 3 %s 0 1 2' % hx(b'big'), 'layouts 3', 'merge 4 %s 1 3' % hx(b'bigger')])
    c.conform('DbTrace', x, sess, 'random')
    # unnamed declarations that hash alike and differ in what is around them; many sources; deep nesting
    s = []
    ways = [(o, i, e, f) for o in (STRUCT, UNION) for i in (STRUCT, UNION) for e in (0, 1) for f in (True, False)]
    for a in ways:
        for b in ways if c.thorough else R.sample(ways, 4) + [(a[0], a[1], 1 - a[2], a[3])]:
            l = []
            for k, w in enumerate((a, b)): d = Db(R, abi=True); d.lists(d.enclosed(*w)); l.append(d.script(k))
            s.append(l + ['merge 2 %s 0 1' % hx(b'm'), 'check 0', 'check 1', 'layouts 2'])
    for a in range(len(Db.AFTER)):
        for b in range(len(Db.AFTER)):
            if a == b: continue
            l = []
            for k, w in enumerate((a, b)): d = Db(R); d.lists(d.enclosed(STRUCT, UNION, w, True, 'node%d' % (k if R.random() < .2 else 0))); l.append(d.script(k))
            s.append(l + ['merge 2 %s 0 1' % hx(b'm'), 'check 0', 'check 1'])
    many = []
    for n in (31, 32, 33, 64, 65, 130) + ((1000,) if c.thorough else ()):
        d = Db(R); d.source(2); e = Db(R); e.source(1)
        many.append([d.script(0), e.script(1), 'merge 2 %s %s' % (hx(b'many'), ' '.join(str(R.randrange(2)) for _ in range(n)))])
    for n, w in ((5, 60), (20, 20), (40, 6)):
        d = Db(R, abi=True); d.lists(d.deep(n, w)); e = Db(R, abi=True); e.lists(e.deep(n, w, 10)); many.append([d.script(0), e.script(1), 'merge 2 %s 0 1 0' % hx(b'deep'), 'layouts 2'])
    c.conform('DbTrace', x, sessions(s, 10) + many, 'alike')
    c.assumptions = ['stored once is required of named declarations whose recursion passes through at most one named declaration, and of inputs that are not archives',
                     'the image of a merge result is compared byte for byte with that of the same merge repeated']
