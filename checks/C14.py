"""C14: building a database."""
import json
from gen import *
def body(c):
    R = c.rng
    x = c.build('db', ['db.cc'])
    r = c.model('DbMC', consts=dict(Depth=7) if c.thorough else None, note='every building history of a few steps; storage growth modelled beside the abstract table')
    hs = [json.loads(s) for s in c.printed(r['out'], 'SCRIPT')]
    R.shuffle(hs); c.cov['model_histories'] = len(hs)
    T = {'': '', 'a': 'a', 'bb': 'bb', 'long': 'q' * 40}
    def line(k):
        return ' '.join([k[0], '0', hx(T[k[2]].encode())] if k[0] == 'name' else [str(y) for y in k])
    sess = []
    for h in hs[:12000 if c.thorough else 1500]:
        sess.append([line(k) for k in h] + ['check 0', 'names 0'])
    c.conform('DbTrace', x, [sum(sess[i:i + 25], []) for i in range(0, len(sess), 25)], 'model')
    # long histories crossing every doubling of both tables
    sess = []
    for _ in range(40 if c.thorough else 12):
        s = ['new 0', 'check 0'] + (['defaults 0', 'check 0', 'names 0'] if R.random() < .8 else [])
        n, nn = (23 if len(s) > 2 else 1), 0
        big = R.random() < .3
        for k in range(R.choice([20, 60, 150, 300])):
            q = R.random()
            if q < .45: s.append('decl 0 %d' % R.choice([R.randint(0, 18), R.randint(0, 18), 19, 255])); n += 1
            elif q < .8:
                L = R.choice([0, 1, 2, 7, 8, 15, 16, 30, 31, 32, 33, R.randint(0, 80)] + ([500, 3000] if big else []))
                s.append('name 0 ' + hx(bytes(R.choice(b'abcdefgh_0123 \xc3\xa9"\\') for _ in range(L)))); nn += 1
            elif q < .97 and n > 1:
                i = R.randrange(1, n) if n < 24 else R.randrange(23, n) if n > 23 else 0
                if i:
                    f = R.choice(['props', 'next', 'link', 'attr', 'qty'] + (['name'] * 3 if nn else []))
                    s.append('set 0 %d %s %d' % (i, f, R.randrange(nn) if f == 'name' else rand_word(R, 64) if f == 'qty' else R.getrandbits(24) if f == 'props' else R.randrange(n)))
            else: s += ['check 0', 'names 0']
        sess.append(s + ['check 0', 'names 0'])
    c.conform('DbTrace', x, sess, 'histories')
    # a table large enough for many doublings: one check at the end
    sess = []
    for n in [500, 2000] if c.thorough else [500]:
        s = ['new 1', 'defaults 1']
        for k in range(n): s += ['decl 1 %d' % R.randint(1, 18), 'name 1 ' + hx(b'n%d' % k)]
        sess.append(s + ['check 1', 'names 1'])
    # building on in a database that was read: new declarations are blank, whatever the tables' spare capacity
    for k in range(60 if c.thorough else 20):
        n = R.choice([0, 1, 2, 5, 8, 9, 40, 41, 105, R.randrange(300)])
        s = ['new 0', 'defaults 0', 'decl 0 17', 'root 0 23'] + ['decl 0 %d' % R.randint(1, 18) for _ in range(n)] + ['name 0 ' + hx(b'n' * R.randint(0, 9)) for _ in range(R.randrange(6))]
        s += ['transfer 0 1', 'check 1'] + [q for j in range(R.choice([1, 2, 12, 60])) for q in ('decl 1 %d' % R.randint(1, 18), 'name 1 ' + hx(b'm%d' % j))] + ['check 1', 'names 1', 'transfer 1 2', 'decl 2 7', 'check 2']
        sess.append(s)
    # one name longer than the table many times over
    for n in [4095, 8192, 9000, 70000] + ([70000, 1 << 20] if c.thorough else []):
        for pre in ([], ['defaults 0'], ['decl 0 4', 'name 0 ' + hx(b'x' * R.randint(1, 90))]):
            s = ['new 0'] + pre + ['decl 0 5', 'name 0 ' + hx(bytes(R.choice(b'abcxyz_') for _ in range(n))), 'name 0 ' + hx(b'after'), 'check 0', 'names 0']
            sess.append(s)
    sess += [['bulk 0 %d %d' % a] for a in [(5000, 8), (66000, 0)] + ([(400000, 20)] if c.thorough else [])]
    c.conform('DbTrace', x, sess, 'growth', dtimeout=600)
    # builtin lookup: every width and property combination of interest
    q = ['new 2', 'intrinsic 2 0 0', 'intrinsic 2 9 32', 'defaults 2', 'check 2']
    bits = [1 << k for k in range(9)]
    ps = {0, 9, 17, 34, 36, 1, 2, 4, 8, 16, 32, 25, 64, 128, 256, 65, 265, 1 << 10, 1 << 24, 511, 3, 6, 73, 81, 98, 100}
    for p in sorted(ps) + [sum(b for b in bits if R.random() < .4) for _ in range(30)]:
        for w in [0, 1, 8, 16, 32, 64, 128, 256, 2, 7, 9, 33, 65, 512, 1 << 32, (1 << 32) + 32, M64]: q.append('intrinsic 2 %d %d' % (p, w))
    q += ['decl 2 5', 'intrinsic 2 0 0', 'set 2 23 qty 99', 'intrinsic 2 0 99', 'set 2 23 props 9', 'set 2 23 qty 32', 'intrinsic 2 9 32', 'set 2 23 qty 77', 'intrinsic 2 9 77']
    q += ['tagname %d' % t for t in list(range(0, 24)) + [255, 256, 1 << 31, (1 << 32) - 1]]
    c.conform('DbTrace', x, [q], 'builtins')
    c.assumptions = ['a name is not taken from inside the same database (its table may move)']
