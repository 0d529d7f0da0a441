"""C30: bit counting and byte order primitives."""
import json
from gen import *
def body(c):
    R = c.rng
    x = c.build('prims', ['prims.cc', 'prims_c.c', 'prims_fallback.c'], libs=[])
    r = c.model('WordsMC', consts=dict(W=16) if c.thorough else None, note='the portable algorithms on every small word')
    vs = [le(json.loads(s)[0]) for s in c.printed(r['out'], 'SCRIPT')]
    c.cov['model_words'] = len(vs)
    if len(vs) > 4000: vs = R.sample(vs, 4000)
    # the words of the model at every position of a larger one, its complement, then boundaries and random ones
    g = []
    for v in vs:
        for sh in R.sample(range(0, 64), 12 if c.thorough else 3): g.append((v << sh) & M64); g.append(M64 ^ (v << sh) & M64)
    g += bounds(64) + [rand_word(R, 64) for _ in range(20000 if c.thorough else 1500)]
    s = []
    for v in g:
        w = R.choice([32, 64]); s.append('bits %d %d %d' % (w, R.randrange(2), v & (1 << w) - 1))
        w = R.choice([16, 32, 64, 65]); s.append('order %d %d %d' % (w, R.randrange(2) if w == 65 else R.randrange(3), v & (1 << min(w, 64)) - 1))
    for w in (32, 64):
        for sg in (0, 1):
            for v in [0, 1, (1 << w) - 1, 1 << (w - 1)] + [1 << k for k in range(w)]: s.append('bits %d %d %d' % (w, sg, v))
    c.conform('WordsTrace', x, [s[i:i + 300] for i in range(0, len(s), 300)], 'words')
    c.assumptions = ['GCC on x86-64 Linux, and the portable definitions built by hiding the compiler and the system from the headers',
                     'types of 32 and 64 bits for bit counts; 16, 32 and 64 bits for byte order']
