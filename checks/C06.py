"""C06: LEB128 and VLU integers."""
from codec import *
K = {'leb', 'vlu'}
def body(c):
    x = exe(c)
    boundary(c, x, K, shorts=(0, 1, 2))
    strings(c, x, K, ALL, EDGE if not c.thorough else ALL, 2, [0], apis=('ptr', 'val'))
    strings(c, x, K, EDGE, {0, 1, 127, 128, 255}, 4, [0], name='strings4', apis=('ptr', 'val') if c.thorough else ('ptr',))
    r = c.rng; g = [['buf ' + hx(b), 'dec %s ptr -1 0' % k, 'reset', 'dec %s val -1 0' % k] for k in sorted(K) for b in continued()]
    for _ in range(20000 if c.thorough else 2500):
        k = r.choice(sorted(K)); v = rand_word(r, r.choice([7, 14, 28, 42, 49, 56, 57, 64]))
        g.append(['new %d' % r.choice([10, 10, r.randint(0, 9)]), 'enc %s %s -1 %d' % (k, r.choice(['ptr', 'val']), v), 'reset', 'dec %s %s -1 0' % (k, r.choice(['ptr', 'val']))])
        b = bytearray(r.randbytes(r.randint(0, 11)))
        if k == 'leb':
            for i in range(len(b) - (r.random() < .5)): b[i] |= 128 if r.random() < .9 else 0
        elif b: b[0] = ((1 << r.randint(0, 8)) - 1) & 255 | (b[0] & 0xf0 if r.random() < .4 else 0)
        g.append(['buf ' + hx(b), 'dec %s ptr -1 0' % k, 'reset', 'dec %s val -1 0' % k])
    c.conform('CodecTrace', x, sessions(g, 60), 'random')
