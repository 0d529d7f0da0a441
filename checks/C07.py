"""C07: object identifiers in DER and dotted text."""
from codec import *
def body(c):
    x = exe(c)
    boundary(c, x, {'oid'}, ders=(6, 40), shorts=(1, 2), cuts=True)
    strings(c, x, {'oid'}, ALL if c.thorough else EDGE | {39, 40, 41, 79, 80, 119, 120, 121}, {0, 1, 39, 127, 128, 129, 255}, 3, [0, 1, 2, 3, 4])
    r = c.model('OidTextMC', consts=dict(MaxLen=6 if c.thorough else 5), note='all texts over an alphabet up to the length: accepted texts denote what formatting gives back')
    c.conform('CodecTrace', x, group(scripts(c.printed(r['out'], 'SCRIPT'))), 'texts')
    r = c.rng; g = [['buf ' + hx(b), 'dec oid ptr -1 %d' % n] for p in (b'', b'\x2a') for b in continued(p) for n in {len(b), len(b) + 1, max(0, len(b) - 1)}]
    for _ in range(10000 if c.thorough else 1500):
        o = rand_oid(r); ops = '%d %s' % (len(o), ' '.join(map(str, o)))
        api = r.choice(['ptr', 'der'])
        g.append(['new %d' % r.choice([140, 140, r.randint(0, 30)]), 'enc oid %s 6 %s' % (api, ops), 'reset'] + (['dec oid der 6 0'] if api == 'der' else []))
        t = '.'.join(map(str, o))
        for n in {0, 1, len(t), len(t) + 1, len(t) + 2, r.randint(0, len(t) + 3), 300}: g.append(['totext %d %s' % (n, ops)])
        g.append(['fromtext ' + hx(t.encode())]); g.append(['fromtext ' + hx(bad_text(r, t))])
        b = rand_contents(r); n = len(b) + r.choice([0, 0, 0, 0, -1, 1, 2])
        g.append(['buf ' + hx(b), 'dec oid ptr -1 %d' % (max(0, n) if r.random() < .97 else M64 - r.randint(0, 3))])
    c.conform('CodecTrace', x, sessions(g, 60), 'random')
def rand_oid(r):
    n = r.choice([2, 3, 5, 7, 12, 14, 15, 15, r.randint(2, 15)])
    a = r.randint(0, 2); b = r.randint(0, 39) if a < 2 else r.choice([r.randint(0, 200), rand_word(r, 55)])
    return [a, b] + [rand_word(r, r.choice([5, 7, 8, 14, 21, 32, 56, 56])) if r.random() < .97 else rand_word(r, 64) for _ in range(n - 2)]
def rand_contents(r):
    out = b''
    for _ in range(r.choice([1, 2, 3, 13, 14, 15, 16, r.randint(0, 16)])):
        k = r.choice([1, 1, 2, 3, 8, 9])
        out += bytes([r.getrandbits(7) | 128 for _ in range(k - 1)] + [r.getrandbits(7) | (128 if r.random() < .02 else 0)])
    return out
def bad_text(r, t):
    q = r.random(); i = r.randint(0, len(t))
    if q < .2: t = t[:i] + r.choice(['.', '..', ' ', 'x', '-', '/', ':', '0', '\x00', '\xff']) + t[i:]
    elif q < .4: t = t + r.choice(['.', '.1', '..', '.x', '0', '00', 'a'])
    elif q < .5: t = '.' + t
    elif q < .6: t = t[:i]
    elif q < .7: t = t.replace('.', r.choice([',', '', '..']), 1)
    elif q < .8: t = '.'.join([str(r.choice([(1 << 56) - 1, 1 << 56, (1 << 56) + 1, 1 << 63, M64, 10 ** 18, 10 ** 20, 72057594037927940, 72057594037927929]))] + t.split('.')[1:])
    elif q < .9: t = '.'.join(str(r.randint(0, 9)) for _ in range(r.choice([0, 1, 14, 15, 16, 17, 30])))
    else: t = '.'.join('0' * r.randint(0, 3) + y for y in t.split('.'))
    return t.encode('latin1')
