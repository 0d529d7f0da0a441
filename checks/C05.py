"""C05: vf128 floats."""
from codec import *
def body(c):
    for eb, mb in [(3, 3), (4, 4)] + ([(5, 5), (6, 3)] if c.thorough else []):
        c.model('FloatsMC', consts=dict(ExpBits=eb, ManBits=mb, NExp=2 if eb < 4 else 3, NMan=2), note='every float of a miniature format: REAL and vf128 round trip, minimality, foreign bases, narrowing')
    x = exe(c)
    boundary(c, x, {'vf64', 'vf32'}, shorts=(1, 2))
    strings(c, x, {'vf64', 'vf32'}, ALL, {0, 1, 0x7f, 0x80, 0xff}, 4 if c.thorough else 3, [0], apis=('ptr', 'val') if c.thorough else ('ptr',))
    r = c.rng; g = []
    D = doubles(r, 20000 if c.thorough else 800); F = floats(r, 20000 if c.thorough else 800)
    for i, v in enumerate(D):
        a, b = r.choice(['ptr', 'val']), r.choice(['ptr', 'val'])
        g.append(['new 16', 'enc vf64 %s -1 %d' % (a, v), 'reset', 'dec vf64 %s -1 0' % b, 'reset', 'dec vf32 %s -1 0' % b])
    for v in F:
        a, b = r.choice(['ptr', 'val']), r.choice(['ptr', 'val'])
        g.append(['new 16', 'enc vf32 %s -1 %d' % (a, v), 'reset', 'dec vf32 %s -1 0' % b, 'reset', 'dec vf64 %s -1 0' % b])
    # doubles around the single range
    for _ in range(8000 if c.thorough else 700):
        v = r.getrandbits(1) << 63 | r.choice([r.randint(868, 900), r.randint(1145, 1155), r.randint(890, 1155)]) << 52 | r.choice([r.getrandbits(52), ((1 << 52) - 1) ^ ((1 << r.randint(0, 52)) - 1), 1 << r.randint(0, 51)])
        g.append(['new 16', 'enc vf64 ptr -1 %d' % v, 'reset', 'dec vf32 ptr -1 0'])
    c.conform('CodecTrace', x, sessions(g, 60), 'floats')
    g = []
    for _ in range(20000 if c.thorough else 2000):
        el, ml, s = r.randint(0, 3), r.choice([0, 1, 1, 2, 3, 4, 6, 7, 8, r.randint(9, 15)]), r.getrandbits(1)
        eb = r.choice([r.randbytes(el), (r.randint(-160, 160) if el > 1 else r.randint(-128, 127)).to_bytes(4, 'little', signed=True)[:el], r.randint(-1100, 1100).to_bytes(4, 'little', signed=True)[:el]])
        mb = r.randbytes(ml)
        if r.random() < .3 and ml: k = r.randint(0, ml); mb = b'\0' * k + mb[k:]
        b = bytes([0x80 | s << 6 | el << 4 | ml]) + eb + mb
        if r.random() < .15: b = b[:r.randint(0, len(b))]
        if r.random() < .1: b += r.randbytes(2)
        g.append(['buf ' + hx(b), 'dec vf64 %s -1 0' % r.choice(['ptr', 'val']), 'reset', 'dec vf32 %s -1 0' % r.choice(['ptr', 'val'])])
    c.conform('CodecTrace', x, sessions(g, 60), 'octets')
