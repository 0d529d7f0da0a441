"""C02: BER identifier and length octets."""
from codec import *
K = {'tag', 'len', 'ident'}
def body(c):
    x = exe(c)
    boundary(c, x, K, shorts=(0, 1, 2))
    strings(c, x, K, ALL, EDGE, 3 if c.thorough else 2, [0])
    g = [['buf ' + hx(b), 'dec %s ptr -1 0' % k] for k, p in (('tag', b''), ('ident', b'\x1f'), ('ident', b'\xff')) for b in continued(p)]
    g += [['buf ' + hx(bytes([0x80 | k]) + bytes([f]) * n + b'\1'), 'dec len ptr -1 0'] for k in range(0, 12) for f in (0, 255) for n in range(max(0, k - 2), k + 1)]
    for _ in range(12000 if c.thorough else 1500):
        v = rand_word(c.rng, c.rng.choice([8, 14, 21, 32, 48, 56, 57, 64]))
        cl, cn = c.rng.randint(0, 3), c.rng.randint(0, 1)
        g.append(['new %d' % c.rng.choice([12, 12, 12, c.rng.randint(0, 11)]), 'enc ident ptr -1 %d %d %d' % (cl, cn, v), 'enc len ptr -1 %d' % rand_word(c.rng, 64), 'reset', 'dec ident ptr -1 0', 'dec len ptr -1 0'])
        b = bytearray(c.rng.randbytes(c.rng.randint(0, 12)))
        if b and c.rng.random() < .8: b[0] = c.rng.choice([0x1f, 0xff, 0x3f, 0x80, 0x81, 0x82, 0x84, 0x87, 0x88, 0x89, 0xff])
        for i in range(1, len(b)):
            if c.rng.random() < .7: b[i] |= 0x80
        g.append(['buf ' + hx(b)] + sum([['reset', 'dec %s ptr -1 0' % k] for k in K], []))
    c.conform('CodecTrace', x, sessions(g, 60), 'random')
