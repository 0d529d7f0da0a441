"""C10: streams of DER elements."""
from codec import *
from C07 import rand_oid
def body(c):
    x = exe(c)
    r = c.model('DerMC', consts=dict(MaxItems=4) if c.thorough else None, note='all short streams of tagged elements: write, then read in order, with wrong tags, skipped headers and short buffers')
    c.conform('CodecTrace', x, group(scripts(c.printed(r['out'], 'SCRIPT')), 15), 'model-scripts')
    r = c.rng; g = []
    for _ in range(3000 if c.thorough else 300):
        n = r.randint(2, 12); w, rd = [], []
        D = doubles(r, 20)
        for _ in range(n):
            k = r.choice(['bool', 'u64', 's64', 'real', 'oid', 'octets', 'null']); tag = r.choice([1, 2, 4, 5, 6, 9, 12, 30, 31, 127, 128, 16384, 300])
            api = r.choice(['der', 'derval']) if k in ('u64', 's64', 'real') else 'der'
            u = r.randbytes(r.choice([0, 1, 5, 130]))
            o = rand_oid(r) if k == 'oid' else []
            ops = {'bool': str(r.getrandbits(1)), 'null': '', 'octets': hx(u), 'real': str(r.choice(D)), 'oid': '%d %s' % (len(o), ' '.join(map(str, o)))}.get(k, str(rand_word(r, 64)))
            w.append('enc %s %s %d %s' % (k, api, tag, ops))
            t = tag if r.random() < .97 else r.choice([1, 2, 4, 31])
            rd.append(('octr der %d 0 %d 0' % (t, len(u))) if k == 'octets' else 'dec %s %s %d 0' % (k, api, t))
            if t != tag: break
        g.append(['new %d' % r.choice([1200, 1200, r.randint(0, 100)])] + w + ['reset'] + rd)
    c.conform('CodecTrace', x, sessions(g, 60), 'random')
