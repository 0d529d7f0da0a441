"""C04: ASN.1 REAL."""
from codec import *
def body(c):
    for eb, mb in [(3, 3), (4, 4)] + ([(5, 5), (6, 3)] if c.thorough else []):
        c.model('FloatsMC', consts=dict(ExpBits=eb, ManBits=mb, NExp=2 if eb < 4 else 3, NMan=2), note='every float of a miniature format: REAL and vf128 round trip, minimality, foreign bases, narrowing')
    x = exe(c)
    boundary(c, x, {'real'}, ders=(9,), shorts=(1, 2))
    strings(c, x, {'real'}, ALL, {0, 1, 3, 0x80, 0xff}, 4 if c.thorough else 3, [0, 1, 2, 3, 4], apis=('ptr', 'val') if c.thorough else ('ptr',))
    r = c.rng; g = []
    for v in doubles(r, 20000 if c.thorough else 1500):
        api = r.choice(['ptr', 'val', 'der', 'derval'])
        g.append(['new 16', 'enc real %s 9 %d' % (api, v), 'reset'] + (['dec real %s 9 0' % api] if 'der' in api else []))
    c.conform('CodecTrace', x, sessions(g, 60), 'doubles')
    g = []
    for _ in range(30000 if c.thorough else 4000):
        b = foreign(r); n = len(b)
        q = r.random()
        if q < .05: n = max(0, n - r.randint(1, 3))
        elif q < .1: n += r.randint(1, 3)
        elif q < .15: b += r.randbytes(r.randint(1, 4))
        elif q < .2: b = b[:r.randint(0, len(b))]
        elif q < .22: n = r.choice([M64, 1 << 32, 1 << 63])
        g.append(['buf ' + hx(b), 'dec real %s -1 %d' % (r.choice(['ptr', 'val']), n)])
    c.conform('CodecTrace', x, sessions(g, 60), 'foreign')
def foreign(r):
    base = r.choice([0, 0, 1, 2, 2, 3]) if r.random() < .95 else 3
    scale = r.randint(0, 3); sign = r.getrandbits(1); form = r.choice([0, 0, 1, 1, 2, 3])
    lg = {0: 1, 1: 3, 2: 4, 3: 1}[base]
    m = rand_word(r, r.choice([4, 20, 52, 53, 53, 54, 64]))
    if r.random() < .5: m = (m | 1) << r.randint(0, max(0, 63 - m.bit_length()))
    m &= M64
    # aim for the interesting places: the ends of the normal and subnormal ranges
    t = r.choice([0, 0, 1023, -1022, -1074, -1050, r.randint(-1100, 1050), r.randint(-60, 60)])
    e = (t - r.choice([0, m.bit_length() - 1, m.bit_length()]) - scale) // lg + r.choice([0, 0, 1, -1])
    if r.random() < .05: e = r.choice([127, 128, -128, -129, 32767, -32768, 1 << 22, -(1 << 22)])
    el = max(1, (e.bit_length() + 8) // 8) + r.choice([0, 0, 0, 1])
    eb = e.to_bytes(max(el, 4), 'big', signed=True)[-el:]
    mb = m.to_bytes(8, 'big').lstrip(b'\0') or b'\0'
    if r.random() < .2 and len(mb) < 8: mb = b'\0' * r.randint(0, 8 - len(mb)) + mb
    if r.random() < .03: mb = b''
    if r.random() < .02: mb = r.randbytes(9)
    if form == 3 or el > 3: h = bytes([0x83 | sign << 6 | base << 4 | scale << 2, el if r.random() < .95 else r.choice([0, 9, 255, el + 1])])
    else: h = bytes([0x80 | sign << 6 | base << 4 | scale << 2 | (el - 1)])
    return h + eb + mb
