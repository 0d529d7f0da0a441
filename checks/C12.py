"""C12: malformed images."""
import json, struct
from dbgen import *
def image(g):
    """the image of a generated database, to be damaged"""
    names, offs = b'', {}
    out = b''
    base = 1 + sum(len(x) + 1 for x in 'void bool bit sign ubyte byte ushort short uint int ulong long ucent cent half float double quad chalf cfloat cdouble cquad'.split())
    for n in g.nodes:
        b = n[2].encode('latin1')
        o = base + len(names) if b else 0
        if b: names += b + b'\0'
        out += struct.pack('<IIIIIIQ', n[0], n[1], o, n[3], n[4], n[5], n[6])
    return b'crefl000' + struct.pack('<III', len(g.nodes), len(names), g.root) + out + names, len(g.nodes), base + len(names)
def body(c):
    R = c.rng
    x = c.build('db', ['db.cc'])
    r = c.model('ImageMC', consts=dict(Wide=True) if c.thorough else None, note='claimed against actual sizes, roots, references, terminators, lengths')
    os_ = [json.loads(s) for s in c.printed(r['out'], 'SCRIPT')]
    c.cov['model_images'] = len(os_)
    c.conform('DbTrace', x, sessions([['readimg ' + hx(o)] for o in os_], 400), 'model')
    g, pre = [], []
    for k in range(500 if c.thorough else 60):
        d = Db(R); d.source(R.choice([0, 1, 1, 2, 3]))
        b, n, nn = image(d); b = bytearray(b)
        g.append(['readimg ' + hx(b)])
        if k % 3 == 0: pre.append([d.script(0), 'prefixes 0'])
        for _ in range(40):
            m = bytearray(b); q = R.random()
            W = [0, 1, 22, 23, 24, 22 + n, 23 + n, 24 + n, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 24, nn - 1, nn, nn + 1, R.getrandbits(32)]
            if q < .3: struct.pack_into('<I', m, R.choice([8, 12, 16]), R.choice(W + [n - 1, n + 1, len(b), n * 2, (1 << 32) // 32, (1 << 27) + n, (1 << 32) - n]) & 0xffffffff)
            elif q < .75 and n:
                for _ in range(R.choice([1, 1, 2])): struct.pack_into('<I', m, 20 + 32 * R.randrange(n) + R.choice([8, 12, 16, 20]), R.choice(W) & 0xffffffff)
            elif q < .8: m[R.randrange(8)] ^= 1 << R.randrange(8)
            elif q < .9:
                for _ in range(R.randint(1, 4)): m[R.randrange(len(m))] = R.getrandbits(8)
            else: m = m + bytes(R.randrange(3))
            if R.random() < .25: m = m[:R.randint(0, len(m))]
            if R.random() < .1 and len(m) > 20: m[-1] = R.choice([0, 97])
            g.append(['readimg ' + hx(m)])
    for n in range(0, 40): g.append(['readimg ' + hx(b'crefl000'[:n] + R.randbytes(max(0, n - 8)))])
    c.conform('DbTrace', x, sessions(g, 150), 'damaged')
    c.conform('DbTrace', x, sessions(pre, 10), 'prefixes')
    c.assumptions = ['lists of an accepted image may still be cyclic; the property speaks of references inside the tables only']
