"""C08: OCTET STRING."""
from codec import *
def body(c):
    x = exe(c)
    r = c.model('OctetsMC', note='every buffer size, cursor, object length, user buffer size and length-only question')
    c.conform('CodecTrace', x, group(scripts(c.printed(r['out'], 'SCRIPT'))), 'model-scripts')
    boundary(c, x, {'octets'}, ders=(4, 40), shorts=(0, 1, 2), cuts=True, name='roundtrip')
    r = c.rng; g = []
    for _ in range(12000 if c.thorough else 1500):
        n = r.choice([0, 1, 5, 20, 127, 128, 200, 260]); b = r.randbytes(n); u = r.choice([0, 1, n, max(0, n - 1), n + 3, r.randint(0, n + 2)])
        tag = r.choice([4, 4, 12, 31])
        g.append(['new %d' % (n + r.choice([10, 5, 4, 3, 2, 1, 0])), 'enc octets %s %d %s' % (r.choice(['ptr', 'der']), tag, hx(b))])
        hdr = bytes([tag]) + (bytes([n]) if n < 128 else bytes([0x81, n]) if n < 256 else bytes([0x82, n >> 8, n & 255]))
        rest = r.randbytes(r.randint(0, 3)); full = hdr + b + rest
        if r.random() < .2: full = full[:r.randint(0, len(full))]
        if tag < 31: g.append(['buf ' + hx(full), 'octr der %d 0 %d %d' % (r.choice([tag, tag, tag, 5]), u, r.random() < .25)])
        k = r.choice([n, n + 1, max(0, n - 1), M64, 1 << 63, M64 - n, 1 << 32])
        g.append(['buf ' + hx(b), 'seek %d' % r.choice([0, 0, 1, n, n + 1, M64, M64 - 2]), 'octr ber -1 %d %d %d' % (k, u, r.random() < .25)])
        if r.random() < .5: m = r.randint(0, 6); g.append(['new %d' % r.randint(0, 8), 'seek %d' % r.choice([0, 1, 5, M64]), 'octw %d %s' % (m, hx(r.randbytes(m)))])
        # the object may be declared longer or shorter than the user's string: the cursor goes to its end all the same
        if r.random() < .5: m = r.randint(0, 20); k = r.choice([m, m + 1, max(0, m - 1), 0, r.randint(0, 24), 1 << 32, M64]); g.append(['new %d' % r.randint(0, 40), 'seek %d' % r.choice([0, 0, 1, 5]), 'octw %d %s' % (k, hx(r.randbytes(m)))])
    c.conform('CodecTrace', x, sessions(g, 60), 'random')
    g = []
    for n in [300, 4095, 4096, 32768, 65535, 65536, 70001] + ([1 << 17, (1 << 18) + 5, (1 << 20) + 1] if c.thorough else []):
        b = r.randbytes(n); L = n.to_bytes((n.bit_length() + 7) // 8, 'big'); full = b'\x04' + bytes([0x80 | len(L)]) + L + b + b'zz'
        for api in ('ptr', 'der'): g.append(['new %d' % (n + r.choice([8, 6])), 'enc octets %s 4 %s' % (api, hx(b))])
        g.append(['new %d' % n, 'enc octets der 4 ' + hx(b)])
        for u in (n, n - 1, n // 2, 256, n + 9): g.append(['buf ' + hx(full), 'octr der 4 0 %d %d' % (u, r.random() < .2)])
        g.append(['buf ' + hx(full[:-3]), 'octr der 4 0 %d 0' % n])
        g.append(['buf ' + hx(b), 'seek 1', 'octr ber -1 %d %d 0' % (n - 1, n), 'seek 1', 'octr ber -1 %d %d 0' % (n, n)])
    c.conform('CodecTrace', x, sessions(g, 4), 'long')
