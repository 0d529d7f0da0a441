"""C01: byte buffer."""
from gen import *
from vlib import scripts
def body(c):
    exe = c.build('codec', ['codec.cc'])
    r = c.model('BufferMC', note='every history of seeks, resets, reads and writes; script of every transition',
                consts={'Depth': 6, 'MaxCap': 4} if c.thorough else None)
    sess = maximal(scripts(c.printed(r['out'], 'SCRIPT')))
    c.cov['model_scripts_replayed'] = len(sess)
    c.conform('CodecTrace', exe, sess, 'model-scripts')
    c.conform('CodecTrace', exe, [glyphs(c.rng) for _ in range(40 if c.thorough else 4)] + [['buf ' + hx(bytes(range(256))), 'seek 255', 'hexdump', 'seek 256', 'hexdump']], 'dumps')
    c.conform('CodecTrace', exe, [rand_session(c.rng) for _ in range(4000 if c.thorough else 300)], 'random')
    c.conform('CodecTrace', exe, [big_session(c.rng, k) for k in (SIZES if c.thorough else [300, 4200, 70000]) for _ in range(6 if c.thorough else 2)], 'large')
SIZES = [130, 260, 300, 520, 1030, 2050, 4100, 4200, 8200, 16400, 32800, 65540, 70000, 140000]
def big_session(rng, cap):
    """few operations on a large buffer: long transfers, cursors beyond 2^8, 2^12, 2^16, at and around its end"""
    out = ['buf ' + hx(rng.randbytes(cap))] if rng.random() < .5 else ['new %d' % cap]
    for _ in range(4):
        n = rng.choice([cap, cap // 2, cap - 1, cap - rng.randint(2, 60), rng.randint(66, cap)]); at = rng.choice([0, cap - n, cap - n + 1, rng.randint(0, cap - n)])
        out += ['seek %d' % at, 'wb ' + hx(rng.randbytes(n)) if rng.random() < .8 else 'uwb ' + hx(rng.randbytes(n)), 'rem', 'seek %d' % rng.choice([at, at, 0]), rng.choice(['rb', 'rb', 'urb']) + ' %d' % n, 'rem']
        k = rng.choice([1, 2, 4, 8]); out += ['seek %d' % (cap - rng.choice([k, k, k - 1, k + 1])), rng.choice(['w', 'uw']) + ' %d %d' % (k, rng.getrandbits(8 * k)), 'seek %d' % (cap - k), 'r %d' % k]
    out += ['seek %d' % rng.randint(0, cap), 'rem', 'seek %d' % cap, 'rem', 'rb 1', 'wb 00', 'rb 0']
    return out
def glyphs(rng):
    """octets as glyphs for every size of the target, and hex dumps up to every cursor of a buffer"""
    n = rng.choice([15, 16, 17, 31, 32, 33, 48]); out = ['buf ' + hx(rng.randbytes(n))]
    for o in range(n + 1): out += ['seek %d' % o, 'hexdump']
    out += ['glyph %d %d' % (b, 16) for b in range(256)] + ['glyph %d %d' % (rng.randint(0, 255), k) for k in range(0, 15) for _ in range(3)]
    return out
def maximal(ss):
    """scripts that are no proper prefix of another one"""
    pre = set()
    for s in ss:
        for i in range(1, len(s)): pre.add(tuple(s[:i]))
    return [s for s in ss if tuple(s) not in pre]
def rand_session(rng):
    cap = rng.choice([0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 24, 33, 64])
    out = ['new %d' % cap]
    huge = [M64, M64 - 1, M64 - 7, 1 << 63, (1 << 63) - 1, 1 << 32, M64 - cap, M64 - cap + 1]
    for _ in range(rng.randint(3, 24)):
        k = rng.random()
        if k < .2: out.append('seek %d' % (rng.choice(huge) if rng.random() < .15 else max(0, rng.choice([rng.randint(0, cap + 3), cap, cap - rng.choice([0, 1, 2, 4, 8])]))))
        elif k < .25: out.append('reset')
        elif k < .45: n = rng.choice([1, 2, 4, 8]); out.append('%s %d %d' % (rng.choice(['w', 'w', 'uw']), n, rng.getrandbits(8 * n)))
        elif k < .65: out.append(rng.choice(['r', 'r', 'ur']) + ' %d' % rng.choice([1, 2, 4, 8]))
        elif k < .8: out.append(rng.choice(['wb ', 'wb ', 'uwb ']) + hx(rng.randbytes(rng.choice([0, 1, 2, 3, 5, 8, cap, rng.randint(0, cap + 2)]))))
        elif k < .83: out.append('wbhuge %d' % rng.choice(huge[:6] + [M64 - rng.randint(0, 70)]))
        elif k < .86: out.append('rb %d' % rng.choice(huge + [M64 - rng.randint(0, 70)]))
        elif k < .88: out.append('rem')
        elif k < .9: out.append('hexdump')
        else: out.append(rng.choice(['rb', 'rb', 'urb']) + ' %d' % rng.choice([0, 1, 2, 3, 8, cap, rng.randint(0, cap + 2)]))
    return out
