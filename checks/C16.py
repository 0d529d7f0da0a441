"""C16: sizes, alignments and field offsets."""
import json
from dbgen import *
def body(c):
    R = c.rng
    x = c.build('db', ['db.cc'])
    ms = [dict(MaxFields=2), dict(MaxFields=3, Scalars={5, 7, 9, 11} if c.thorough else {5, 9}, Depth=1)]
    if c.thorough: ms += [dict(MaxFields=2, Scalars={2, 5, 6, 7, 9, 11, 14, 15, 17, 18, 19, 20, 21, 22}, Wraps=True), dict(MaxFields=4, Scalars={5, 9}, Depth=1)]
    else: ms += [dict(MaxFields=2, Scalars={2, 5, 18, 20, 22}, Wraps=True, Depth=1)]
    for k, m in enumerate(ms):
        r = c.model('LayoutMC', consts=m, note='layout rules on every small record')
        ts = [json.loads(s) for s in c.printed(r['out'], 'SCRIPT')]
        R.shuffle(ts); c.cov['model_types_%d' % k] = len(ts)
        g = []
        for t in ts[:20000 if c.thorough else 900]:
            ns = t['nodes']; s = ['build 0 %d %d ' % (t['root'], len(ns)) + ' '.join('%d %d %s %d %d %d %d' % (n[0], n[1], hx(n[2].encode()), n[3], n[4], n[5], le(n[6])) for n in ns)]
            s += ['width 0 %d' % t['root'], 'offsets 0 %d %d 0' % (t['root'], R.choice([20, 20, 20, R.randint(0, 5)]))]
            g.append(s)
        c.conform('DbTrace', x, sessions(g, 400), 'model%d' % k)
    sess = []
    for k in range(300 if c.thorough else 80):
        d = Db(R, abi=True); d.source(R.randint(1, 8))
        if k % 5 == 0:    # huge arrays, deep nesting, multi-dimensional arrays, merge aliases
            t = R.choice([5, 9, 11, 18])
            for n in R.choice([[70000, 3], [1 << 20, 31], [3, 5, 7, 11], [1 << 24, 7], [1 << 31], [1 << 32], [(1 << 32) + 3, 5], [(1 << 31) - 1, 3], [(1 << 40) + 9], [3, 1 << 33], [65536, 65536, 3]]): a = d.add(ARRAY, qty=n, link=t); t = a
            f1 = d.add(FIELD, name='pre', link=R.choice([5, 7, 9])); f2 = d.add(FIELD, name='big', link=t, next=0); f3 = d.add(FIELD, name='post', link=R.choice([7, 11]))
            d.chain([f1, f2, f3]); d.add(STRUCT, name='huge', link=f1)
            for _ in range(R.randint(1, 30)):
                f1 = d.add(FIELD, name='c', link=5); f2 = d.add(FIELD, name='in', link=d.first + len(d.nodes) - 2 if d.nodes[-2][0] in (STRUCT, UNION) else 11); d.chain([f1, f2]); d.add(R.choice([STRUCT, STRUCT, UNION]), name='n', link=f1)
            al = d.add(ALIAS, name='al', link=d.first + len(d.nodes) - 1)
            f = d.add(FIELD, name='f', link=al); f2 = d.add(FIELD, name='g', link=5); d.chain([f2, f]); d.add(STRUCT, name='viaalias', link=f2)
        s = [d.script(0)]
        for i in range(1, FIRST): s.append('width 0 %d' % i)
        for i in range(FIRST, FIRST + len(d.nodes)):
            if d.at(i)[0] in (FIELD, CONSTANT, ATTRIBUTE, VALUE, PARAM, FUNCTION, SOURCE): continue
            s.append('width 0 %d' % i)
            s.append('offsets 0 %d %d %d' % (i, R.choice([0, 1, 2, 3, 20, 20, 20]), R.choice([0, 0, 0, 1, 2])))
        sess.append(s)
    c.conform('DbTrace', x, sess, 'types')
    c.assumptions = ['sizes below 2^56 octets; the ABI oracle is the specification (C23 compares with the compiler itself)', 'records without fields and the one-bit builtins, which C does not have, are unconstrained']
