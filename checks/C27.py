"""C27: the ASN.1 dump tool."""
import json, os
from gen import *
from vlib import REPO
def body(c):
    R = c.rng
    tool = c.build('asn1tool', [os.path.join(REPO, 'tool', 'asn1tool.cc')])
    x = c.pydriver('asn1tool.py', tool)
    r = c.model('Asn1DumpMC', consts=dict(MaxElems=4, MaxDepth=3, Raw=4) if c.thorough else None,
                note='cursor machine against the recursive definition: all small forests, all short octet strings')
    fs = [bytes(json.loads(s)) for s in c.printed(r['out'], 'SCRIPT')]
    R.shuffle(fs); n = 12000 if c.thorough else 1200
    c.cov['model_files'] = len(fs)
    g = ['dump ' + hx(f) for f in fs[:n]]
    c.conform('Asn1DumpTrace', x, [g[i:i + 40] for i in range(0, len(g), 40)] + [['missing none', 'missing dir']], 'model', dtimeout=600)
    g = []
    for _ in range(6000 if c.thorough else 900):
        f = forest(R, R.choice([0, 1, 2, 3, 4, 6, 15]), R.randint(1, 4))
        q = R.random()
        if q < .45: g.append('dump ' + hx(f))
        elif q < .55: g.append('dump ' + hx(f[:R.randint(0, len(f))]))
        elif q < .85:
            b = bytearray(f)
            for _ in range(R.choice([1, 1, 2, 3])):
                if b: b[R.randrange(len(b))] = R.choice([0, 1, 0x7f, 0x80, 0x81, 0x84, 0x88, 0xff, 0x30, 0x31, 6, 2, R.getrandbits(8)])
            g.append('dump ' + hx(b))
        elif q < .9: g.append('dump ' + hx(deep(R, R.choice([14, 15, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 90, 128, 199]))))
        elif q < .95: g.append('dump ' + hx(R.randbytes(R.randint(0, 40))))
        else: g.append('dump ' + hx(tlv(R, 0x30, f)[:-R.randint(1, 3)] + bytes([0x84, 0xff, 0xff, 0xff, 0xff])))
    for n in [65000, 65530, 65536, 70000, 99990, 100000] + ([131072, 1 << 20, 16777216] if c.thorough else []):       # offsets and lengths of more digits and bits
        t = tlv(R, 4, bytes(n)); g.append('dump ' + hx(t + forest(R, 2, 3))); g.append('dump ' + hx(leaf(R) + tlv(R, 0x30, forest(R, 1, 2) + t + leaf(R)) + leaf(R)))
    g.append('dump ' + hx(tlv(R, 2, R.randbytes(66000)) + leaf(R)))
    for n in [1000, 1003, 30000]: g.append('dump ' + hx(deep0(n)))
    c.conform('Asn1DumpTrace', x, [g[i:i + 30] for i in range(0, len(g), 30)], 'random', dtimeout=600)
    c.assumptions = ['rows are read by their columns; the value of an object identifier is the dotted text in parentheses',
                     'universal class only: the tool shows the tag number of other classes under universal names']
def length(R, n):
    if n < 128 and R.random() < .9: return bytes([n])
    k = (n.bit_length() + 7) // 8 or 1
    k = min(8, k + (R.choice([1, 2, 8]) if R.random() < .1 else 0))
    return bytes([128 + k]) + n.to_bytes(k, 'big')
def tlv(R, t, b): return bytes([t]) + length(R, len(b)) + b
def oid(R):
    out = b''
    for i in range(R.randint(1, 14)):
        v = R.choice([R.randint(0, 127), R.getrandbits(14), R.getrandbits(R.randint(1, 56))])
        g = [v & 127]
        while v > 127: v >>= 7; g.append(v & 127 | 128)
        out += bytes(reversed(g))
    return out
def leaf(R):
    t = R.choice([1, 2, 2, 3, 4, 5, 6, 6, 6, 9, 10, 12, 19, 19, 23, R.randint(1, 30)])
    if t in (16, 17): t = 2
    n = R.choice([0, 1, 2, 5, 8, 20, 130, 300]) if R.random() < .3 else R.randint(0, 9)
    if t == 6: b = oid(R) if R.random() < .95 else R.randbytes(n)
    elif t in (19, 23): b = bytes(R.choice(b'abcXYZ 019"(){}|-*[];,\'') for _ in range(n))
    elif t == 5: b = b''
    elif t == 1: b = R.randbytes(1)
    else: b = R.randbytes(n)
    if R.random() < .02: return bytes([0x1f, R.choice([0x20, 0x24, 0x7f])]) + length(R, len(b)) + b
    return tlv(R, t, b)
def forest(R, depth, width):
    out = b''
    for _ in range(R.randint(0, width) if depth < 4 else R.randint(1, 2)):
        if depth > 0 and R.random() < (.5 if depth < 6 else .9): out += tlv(R, R.choice([0x30, 0x31]), forest(R, depth - 1, width))
        else: out += leaf(R)
    return out
def deep(R, n):
    b = leaf(R) if R.random() < .5 else b''
    for _ in range(n): b = tlv(R, R.choice([0x30, 0x31]), b + (leaf(R) if R.random() < .3 else b'') if len(b) < 3000 else b)
    return b
def deep0(n):
    """headers that nest but whose inner lengths are all zero-length at the bottom; deep files end early in an error or the limit"""
    return b'\x30\x80' * n if n > 2000 else b''.join(b'\x30\x84' + (6 * (n - i - 1)).to_bytes(4, 'big') for i in range(n))
