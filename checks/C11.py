"""C11: write and read of a database."""
import json
from dbgen import *
T = {'': '', 'a': 'a', 'bb': 'bb'}
def line(k): return ' '.join([k[0], '0', hx(T[k[2]].encode())] if k[0] == 'name' else [str(y) for y in k])
def body(c):
    R = c.rng
    x = c.build('db', ['db.cc'])
    r = c.model('RoundTripMC', consts=dict(MaxDecl=3, Depth=7) if c.thorough else None, note='every small database: image, decoding, prefixes')
    hs = [json.loads(s) for s in c.printed(r['out'], 'SCRIPT')]
    hs = [h for h in hs if any(k[0] == 'decl' for k in h)]
    R.shuffle(hs); c.cov['model_histories'] = len(hs)
    sess = []
    for h in hs[:8000 if c.thorough else 700]: sess.append([line(k) for k in h] + ['root 0 23', 'check 0', 'transfer 0 1', 'check 1', 'rootq 1'])
    c.conform('DbTrace', x, [sum(sess[i:i + 20], []) for i in range(0, len(sess), 20)], 'model')
    d = c.scratch + '/files'; import os; os.mkdir(d)
    # databases of every shape and size: across table growth, long names, repeated transfers, files
    sess = []
    for k in range(160 if c.thorough else 45):
        g = Db(R, names=['a', 'b', 'q' * R.choice([1, 7, 8, 30, 31, 200]), 'x\xc3\xa9', 'y z"\\']); n = R.choice([0, 1, 2, 4, 8, 9, 10, 30])
        g.source(n) if R.random() < .85 else g.nodes.append([R.randint(0, 18), 0, '', 0, 0, 0, 0]) or setattr(g, 'root', 23)
        if R.random() < .3:
            for nd in g.nodes:
                for f in (3, 4, 5): nd[f] = R.choice([nd[f], R.randrange(0, 23 + len(g.nodes))])
                nd[6] = rand_word(R, 64)
        s = [g.script(0), 'check 0', 'transfer 0 1', 'check 1', 'check 0', 'rootq 1']
        if R.random() < .5:   # keep building on a database that was read
            for j in range(R.choice([1, 3, 12])): s += ['decl 1 %d' % R.randint(1, 18), 'name 1 ' + hx(b'n%d' % j * R.randint(1, 9))]
            s += ['check 1', 'transfer 1 2', 'check 2', 'transfer 2 3', 'check 3']
        if R.random() < .5: s += ['writefile 0 ' + R.choice(['none', 'over']), 'readfile 4 0 none', 'check 4', 'transfer 4 5', 'check 5']
        sess.append(s)
    for n in range(0, 24 if not c.thorough else 70):     # exact table sizes
        s = ['new 0', 'defaults 0', 'decl 0 17', 'root 0 23'] + ['decl 0 %d' % R.randint(1, 18) for _ in range(n)]
        s += ['name 0 ' + hx(b'n' * n)] * (n % 4) + ['transfer 0 1', 'check 1', 'transfer 1 2', 'check 2']
        sess.append(s)
    c.conform('DbTrace', x, sess, 'databases', args=(d,))
    s = []
    for n in [1000, 4000] if c.thorough else [600]:
        s += ['new 0', 'defaults 0', 'decl 0 17', 'root 0 23'] + [l for k in range(n) for l in ('decl 0 %d' % R.randint(1, 18), 'name 0 ' + hx(b'name%d' % k))]
        s += ['set 0 %d name %d' % (23 + k, R.randrange(n)) for k in range(0, n, 7)] + ['transfer 0 1', 'check 1', 'writefile 0 none', 'readfile 2 0 none', 'check 2']
    c.conform('DbTrace', x, [s], 'large', args=(d,))
    # beyond sixteen bits of declarations and of names
    s = ['bulk 0 %d %d' % a for a in [(1, 0), (30, 9), (4000, 7), (65512, 0), (65513, 0), (65514, 0), (70000, 6), (20000, 40)] + ([(300000, 60), (1100000, 12)] if c.thorough else [])]
    c.conform('DbTrace', x, [[l] for l in s], 'bulk', args=(d,), dtimeout=600)
    c.assumptions = ['the root is the first declaration after the builtin types, as the plugin and merging make it']
