"""C03: INTEGER, BOOLEAN and NULL contents."""
from codec import *
K = {'u64', 's64', 'leu64', 'les64', 'bool', 'null'}
def body(c):
    x = exe(c)
    y = c.build('codec_aligned', ['codec.cc'], extra=['-DUSE_UNALIGNED_ACCESSES=0'])  # the other way of reading and writing little-endian integers
    boundary(c, x, K, ders=(1, 2), shorts=(1, 2))
    strings(c, x, {'u64', 's64', 'leu64', 'les64', 'bool'}, ALL if c.thorough else EDGE, EDGE if c.thorough else {0, 1, 127, 128, 255}, 3, [0, 1, 2, 3, 4], apis=('ptr', 'val'))
    strings(c, x, {'null'}, {0, 5}, {0}, 2, [0, 1, 2], name='null')
    g = []
    r = c.rng
    for _ in range(15000 if c.thorough else 1800):
        k = r.choice(sorted(K)); v = rand_word(r, 64); api = r.choice(['ptr', 'val', 'der', 'derval'])
        if k in ('bool', 'null'): api = {'val': 'ptr', 'derval': 'der'}.get(api, api)
        if k in ('leu64', 'les64'): api = {'der': 'ptr', 'derval': 'val'}.get(api, api)
        op = '' if k == 'null' else ' %d' % v
        tag = r.choice([1, 2, 5, 30, 31, 40])
        g.append(['new %d' % r.choice([20, 20, r.randint(0, 12)]), 'seek %d' % r.choice([0, 0, 3]), 'enc %s %s %d%s' % (k, api, tag, op)])
        n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 12, 255, 1 << 32, M64])
        b = r.randbytes(r.choice([n if n < 13 else 12, r.randint(0, 10)]))
        if r.random() < .4 and b: b = bytes([r.choice([0, 255, 128, 127])]) + b[1:]
        for api in (['ptr'] if k in ('bool', 'null') else ['ptr', 'val']): g.append(['buf ' + hx(b), 'dec %s %s -1 %d' % (k, api, n)])
    c.conform('CodecTrace', x, sessions(g, 60), 'random')
    for k in ('leu64', 'les64'):
        g = []
        for v in sorted({(1 << w) + d & M64 for w in range(65) for d in (-1, 0, 1)}) + [rand_word(r, 64) for _ in range(200)]:
            for api in ('ptr', 'val'): g.append(['new 9', 'enc %s %s 0 %d' % (k, api, v), 'seek 0', 'dec %s %s -1 %d' % (k, api, r.choice([1, 2, 3, 4, 5, 6, 7, 8])), 'seek 0', 'dec %s %s -1 %d' % (k, api, r.choice([0, 8, 9]))])
        c.conform('CodecTrace', y, sessions(g, 40), 'aligned ' + k)
