"""C17: structural hashes."""
import json
from dbgen import *
def nodes(ns): return '%d ' % len(ns) + ' '.join('%d %d %s %d %d %d %d' % (n[0], n[1], hx(n[2].encode()), n[3], n[4], n[5], le(n[6])) for n in ns)
def body(c):
    R = c.rng
    x = c.build('db', ['db.cc'])
    ms = [None, dict(MaxDecls=1, MaxMembers=2, Perms=True)]
    if c.thorough: ms = [dict(Perms=True), dict(MaxDecls=1, MaxMembers=3), dict(Builtins={9}, MaxMembers=2)]
    for k, m in enumerate(ms):
        r = c.model('TermMC', consts=m, note='structural identity on every small database', timeout=850)
        ds = [json.loads(s) for s in c.printed(r['out'], 'SCRIPT')]
        R.shuffle(ds); c.cov['model_databases_%d' % k] = len(ds)
        s = [l for d in ds[:3000 if c.thorough else 400] for l in ('build 0 %d %s' % (d['root'], nodes(d['nodes'])), 'index 0')]
        # all small databases of a session are compared with each other
        c.conform('DbTrace', x, [s[i:i + 100] for i in range(0, len(s), 100)], 'model%d' % k)
    sess = []
    for k in range(400 if c.thorough else 100):
        d = Db(R); d.source(R.choice([0, 1, 2, 2, 3, 4]), knots=R.choice([0, 0, 1, 2]))
        s = [d.script(0), 'index 0']
        for _ in range(R.randint(1, 3)):
            e = R.choice([d, d, d.renumber(), d.renumber(R.randint(0, 9))])
            if R.random() < .75: e = e.mutate()
            s += [e.script(1), 'index 1']
        q = R.random()
        if q < .3: s += ['transfer 0 2', 'index 2']
        if q < .2: g = Db(R); g.source(2); s += [g.script(3), 'merge 4 %s 3 0' % hx(b'ar'), 'index 4', 'index 3']
        elif q < .4: s += ['merge 4 %s 0 1' % hx(b'ar'), 'index 4']
        sess.append(s)
    for k in range(12 if c.thorough else 4):      # larger ones: the index grows with the identifiers met
        d = Db(R); d.source(R.randint(12, 22), knots=3); e = d.renumber(R.choice([0, 30, 200])); f = d.mutate()
        sess.append([d.script(0), 'index 0', e.script(1), 'index 1', f.script(2), 'index 2'])
    c.conform('DbTrace', x, sess, 'random')
    # one declaration after another differing in one entry only
    s = []
    for f in range(2, 8):
        for v in ([1 << b for b in range(0, 25)] + [(1 << 31)] if f == 3 else [1 << b for b in range(64)] + [M64] if f == 7 else ['', 'a', 'b', 'aa', 'ab', 'ba', 'a' * 55, 'a' * 56, 'a' * 63, 'a' * 64, 'a' * 65, 'a' * 120, 'a' * 254, 'a' * 255, 'a' * 256, 'a' * 257, 'a' * 255 + 'b', 'a' * 1000, 'a' * 70000, 'a' * 69999 + 'b'] if f == 2 else [9, 10, 11] if f == 5 else []):
            n = [5, 0, 'n', 0, 0, 0, 0]; n[{2: 2, 3: 1, 5: 4, 7: 6}[f]] = v
            if f == 5: n[0] = 2
            d = Db(R); r0 = d.add(SOURCE, name='s.c', link=24); d.add(*n[:3], next=n[3], link=n[4], attr=n[5], qty=n[6]); d.root = r0
            s += [d.script(0), 'index 0']
    for f in (2, 6, 1, 5, 3):         # an argument of an attribute
        for v in (['', 'x', 'y', 'xy'] if f == 2 else [1, 2, 1 << 40] if f == 6 else [1, 2] if f == 1 else [0, 25]):
            d = Db(R); r0 = d.add(SOURCE, name='s.c', link=24); d.add(STRUCT, name='s', attr=26); d.add(VALUE, name='more'); d.add(ATTRIBUTE, name='aligned', attr=27); z = d.add(VALUE, name='v', qty=7); d.at(z)[f] = v
            d.root = r0; s += [d.script(0), 'index 0']
    for t in range(1, 19):
        d = Db(R); r0 = d.add(SOURCE, name='s.c', link=24); d.add(t, name='n'); d.root = r0; s += [d.script(0), 'index 0']
    c.conform('DbTrace', x, [s], 'entries')
    # what is around an unnamed declaration that refers back to it; names of hundreds of octets down a deep nesting
    s = []
    for o in (STRUCT, UNION):
        for i in (STRUCT, UNION):
            for f in (True, False):
                for e in (0, 1): d = Db(R); d.lists(d.enclosed(o, i, e, f)); s += [d.script(0), 'index 0']
            d = Db(R); d.lists(d.enclosed(o, i, 0, True, 'other')); s += [d.script(0), 'index 0']
    for e in range(len(Db.AFTER)): d = Db(R); d.lists(d.enclosed(STRUCT, UNION, e)); s += [d.script(0), 'index 0']
    deep = []
    for n, w in ((2, 300), (5, 60), (9, 30), (20, 20), (40, 6), (3, 4000)) + (((120, 40), (200, 3)) if c.thorough else ()):
        l = []
        for leaf in (9, 10): d = Db(R); d.lists(d.deep(n, w, leaf, R.choice([STRUCT, UNION]))); l += [d.script(0), 'index 0']
        deep.append(l)
    c.conform('DbTrace', x, [s] + deep, 'around and deep')
    c.assumptions = ['SHA-224 does not collide', 'names contain no semicolon, as names in C do not',
                     'declarations whose recursion passes through several named declarations are hashed as first reached and not compared']
