"""C23: layouts of reflected types against the compiler."""
from reflect import *
import headers
def wide(R, d):
    n = R.choice([1 << 28, (1 << 29) + 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, 1 << 35, (1 << 40) + 3])
    t = ['i', R.choice([5, 7, 9, 11, 14])]
    if d: t = [R.choice(['s', 's', 'u']), [['i', R.choice([5, 7])], R.choice([t, ['a', R.randint(1, 9), t]])]]
    t = ['a', n, t]
    return ['s', [['i', 5], t, ['i', 9]]] if d == 2 else t if R.random() < .7 else ['a', R.randint(2, 5), t]
def body(c):
    R = c.rng
    x, env = setup(c)
    go = lambda sess, name: c.conform('ReflectTrace', x, sess, name, env=env, args=(c.scratch,), dtimeout=850, timeout=850)
    shapes = []
    for m in ([dict(MaxFields=3, Depth=1, Scalars={2, 5, 7, 9, 11}), dict(), dict(MaxFields=2, Wraps=True, Depth=2, Scalars={5, 7, 14})] if c.thorough else [dict(Scalars={2, 5, 9, 14}, Depth=2)]):
        r = c.model('LayoutMC', consts=m or None, note='layout rules on every small record', timeout=850)
        shapes += [json.loads(x) for x in c.printed(r['out'], 'SHAPE')]
    R.shuffle(shapes); c.cov['model_shapes'] = len(shapes)
    s = []
    for k in range(0, min(len(shapes), 24000 if c.thorough else 2400), 30):
        p = shape_program(shapes[k:k + 30], R); s.append([reflect(R, p), compiler(p), 'layouts 0'])
    go(s, 'model')
    # objects beyond 2^31 and 2^32 octets
    s = []
    for k in range(400 if c.thorough else 40):
        sh = []
        for _ in range(R.randint(1, 4)):
            t = wide(R, R.choice([0, 1, 1, 2])); sh.append([R.choice(['s', 's', 's', 'u']), [x for x in [['i', R.choice([5, 7, 9])], t, ['i', R.choice([5, 7, 9, 11])]] if x == t or R.random() < .8]])
        p = shape_program(sh, R); s.append([reflect(R, p), compiler(p), 'layouts 0'])
    go(s, 'wide')
    s = []
    for k in range(1500 if c.thorough else 220):
        p = Gen(R, 'layout').program(R.choice([1, 2, 3, 5, 8])); q = compiler(p)
        if q: s.append([reflect(R, p), q, 'layouts 0'])
    go(s, 'alone')
    s = []
    for k in range(300 if c.thorough else 40):
        n = R.choice([2, 2, 3]); ps = [Gen(R, 'layout').program(R.choice([1, 2, 4])) for _ in range(n)]
        if R.random() < .4: ps[1] = ps[0]
        l = [reflect(R, p, i, 'f%d.c' % i) for i, p in enumerate(ps)]
        order = list(range(n)); R.shuffle(order)
        l.append('merge 4 %s %s' % (hx(b'all.refl'), ' '.join(map(str, order))))
        for j, i in enumerate(order):
            q = compiler(ps[i], 4, [j + 1])
            if q: l.append(q)
        l.append('layouts 4')
        if R.random() < .5: l += ['transfer 4 5', 'layouts 5']
        s.append(l)
    go(s, 'merged')
    hs = headers.some(env, R, 999 if c.thorough else 6); ask = [(h, t, p, headers.compiler(t, p)) for h, t, p in hs]
    c.cov['headers'] = [a[0] for a in ask if a[3]]
    s = [[headers.reflect(t, p), q, 'layouts 0'] for _, t, p, q in ask if q]
    if s: c.conform('ReflectTrace', x, s, 'headers', shards=min(8, len(s)), env=env, args=(c.scratch,), dtimeout=850, timeout=850)
    c.assumptions = ['sizes and offsets come from gcc on x86-64 Linux, whose layout of these types clang shares']
