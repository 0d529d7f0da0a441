"""C20: SHA-224 and SHA-256."""
import hashlib, json
from gen import *
def body(c):
    x = c.build('sha', ['sha.cc'], libs=['sha256'])
    R = c.rng
    r = c.model('ShaMC', consts=dict(MaxLen=260) if c.thorough else None, note='all feeding schedules of up to four pieces with sizes around the block boundary')
    sch = [json.loads(s) for s in c.printed(r['out'], 'SCRIPT')]
    R.shuffle(sch)
    c.cov['feeding_schedules'] = len(sch)
    pick = sch if c.thorough else sch[:500]
    sess = []
    for s in pick:
        sess.append(['start 0 %d' % R.choice([224, 256])] + ['update 0 ' + hx(R.randbytes(n)) for n in s] + ['finish 0'])
    # every message length across the padding boundaries
    for n in range(0, 260 if c.thorough else 132):
        m = R.randbytes(n); k = R.randint(0, n)
        sess.append(['start 1 256', 'update 1 ' + hx(m[:k]), 'update 1 ' + hx(m[k:]), 'finish 1', 'start 2 224', 'update 2 ' + hx(m), 'finish 2'])
    c.conform('ShaTrace', x, sess, 'schedules')
    sess = []
    for _ in range(600 if c.thorough else 120):
        out, st = [], {}
        for _ in range(R.randint(4, 24)):
            i = R.randint(0, 3)
            if i not in st: out.append('start %d %d' % (i, R.choice([224, 256]))); st[i] = 0
            elif R.random() < .2: out.append('finish %d' % i); del st[i]
            elif R.random() < .05: out.append('start %d %d' % (i, R.choice([224, 256])))
            else: out.append('update %d %s' % (i, hx(R.choice([R.randbytes(R.choice([0, 1, 3, 31, 55, 56, 57, 63, 64, 65, 119, 128, R.randint(0, 200)])), bytes(R.choice([64, 100])), b'\xff' * 64]))))
        out += ['finish %d' % i for i in st]
        sess.append(out)
    c.conform('ShaTrace', x, sess, 'interleaved')
    # lengths whose bit count needs more than 32 bits: built without the sanitizer; the reference digest is recorded in the trace
    y = c.build('shafast', ['sha.cc'], libs=['sha256'], san=False, opt='-O2')
    sess = []
    for k, n, m, f in [(256, 1 << 20, 513, 0x61)] + ([(224, 1 << 20, 4097, 0), (256, (1 << 20) + 3, 600, 0x80)] if c.thorough else []):
        h = hashlib.new('sha%d' % k)
        b = bytes([f]) * n
        for _ in range(m): h.update(b)
        sess.append(['long %d %d %d %d %s' % (k, n, m, f, h.hexdigest())])
    c.conform('ShaTrace', y, sess, 'long')
    c.assumptions = ['messages of 2^29 octets and more are compared with the digest of an independent implementation (hashlib) given to the trace specification, because TLC cannot hash them in reasonable time']
