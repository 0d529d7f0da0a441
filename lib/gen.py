"""Input generators shared by the checks: they choose inputs only, never expected results."""
import struct
M64 = (1 << 64) - 1
def le(b):
    return sum(x << (8 * i) for i, x in enumerate(b))
def hx(b):
    return bytes(b).hex() if len(b) else '-'
def bounds(bits):
    s = {0, 1, 2, 3}
    for k in range(bits + 1):
        for d in (-2, -1, 0, 1, 2):
            v = (1 << k) + d
            if 0 <= v < (1 << bits): s.add(v)
    for k in range(0, bits, 8):
        for b in (0x7f, 0x80, 0xff, 0xfe): s.add(min((b << k), (1 << bits) - 1))
    return sorted(s)
def rand_word(rng, bits):
    k = rng.randint(0, bits)
    v = rng.getrandbits(k) if k else 0
    r = rng.random()
    if r < .2: v &= ~((1 << rng.randint(0, 63)) - 1)
    elif r < .3: v = ((1 << bits) - 1) ^ v
    return v & ((1 << bits) - 1)
def sessions(lines, n):
    """cut a list of independent line groups into sessions of about n lines"""
    res, cur = [], []
    for g in lines:
        cur += g
        if len(cur) >= n: res.append(cur); cur = []
    if cur: res.append(cur)
    return res
def doubles(rng, n):
    """interesting double bit patterns: every exponent class x mantissa shapes, then random"""
    out = []
    ex = [0, 1, 2, 3, 51, 52, 53, 54, 800, 872, 873, 890, 895, 896, 897, 898, 960, 970, 1000, 1008, 1010] + list(range(1012, 1032)) + \
         [1040, 1074, 1075, 1076, 1086, 1087, 1088, 1150, 1151, 1152, 1200, 2000, 2044, 2045, 2046, 2047]
    mants = [0, 1, 2, 3, (1 << 52) - 1, (1 << 52) - 2, 1 << 51, 1 << 50, 3 << 50, 1 << 48, 15 << 48, 31 << 47, 1 << 47, 1 << 44, 5 << 43,
             0x5555555555555, 0xaaaaaaaaaaaaa, 1 << 29, 1 << 28, (1 << 29) - 1, 0xffffffe000000 & ((1 << 52) - 1)]
    for e in ex:
        for m in mants:
            out.append((rng.getrandbits(1) << 63) | (e << 52) | m)
    for e in (0, 2047):
        for s in (0, 1):
            for m in (0, 1, 1 << 51): out.append((s << 63) | (e << 52) | m)
    for k in range(52): out.append(1 << k); out.append((1 << 63) | (3 << k) & ((1 << 52) - 1))
    for _ in range(n):
        r = rng.random()
        if r < .3: out.append(rng.getrandbits(64))
        elif r < .5: out.append(struct.unpack('<Q', struct.pack('<d', rng.choice([-1, 1]) * rng.randint(0, 1 << rng.randint(1, 60)) / (1 << rng.randint(0, 40))))[0])
        elif r < .7: out.append((rng.getrandbits(1) << 63) | (rng.randint(1000, 1040) << 52) | (rng.getrandbits(52) & ~((1 << rng.randint(0, 52)) - 1)))
        elif r < .8: out.append((rng.getrandbits(1) << 63) | (rng.getrandbits(52) & ((1 << rng.randint(1, 52)) - 1)))
        else: out.append((rng.getrandbits(1) << 63) | (rng.randint(0, 2047) << 52) | (rng.getrandbits(rng.randint(1, 52)) << rng.randint(0, 30)) & ((1 << 52) - 1))
    return out
def floats(rng, n):
    out = []
    for e in [0, 1, 2, 22, 23, 24, 100] + list(range(112, 140)) + [150, 151, 200, 252, 253, 254, 255]:
        for m in [0, 1, 2, 3, (1 << 23) - 1, (1 << 23) - 2, 1 << 22, 1 << 21, 3 << 21, 1 << 19, 15 << 19, 31 << 18, 1 << 18, 1 << 15, 0x555555, 0x2aaaaa]:
            out.append((rng.getrandbits(1) << 31) | (e << 23) | m)
    for k in range(23): out.append(1 << k); out.append((1 << 31) | (3 << k) & ((1 << 23) - 1))
    for s in (0, 1):
        for e in (0, 255):
            for m in (0, 1, 1 << 22): out.append((s << 31) | (e << 23) | m)
    for _ in range(n):
        r = rng.random()
        if r < .4: out.append(rng.getrandbits(32))
        elif r < .7: out.append((rng.getrandbits(1) << 31) | (rng.randint(110, 135) << 23) | (rng.getrandbits(23) & ~((1 << rng.randint(0, 23)) - 1)))
        elif r < .8: out.append((rng.getrandbits(1) << 31) | rng.getrandbits(rng.randint(1, 23)))
        else: out.append((rng.getrandbits(1) << 31) | (rng.randint(0, 255) << 23) | (rng.getrandbits(rng.randint(1, 23)) << rng.randint(0, 12)) & ((1 << 23) - 1))
    return out
