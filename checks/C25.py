"""C25: emitted C source."""
import json, os
from dbgen import *
from vlib import REPO
def body(c):
    R = c.rng
    x = c.build('db', ['db.cc'])
    env = dict(CREFLTOOL=c.build('crefltool', [os.path.join(REPO, 'tool', 'crefltool.cc')]))
    go = lambda sess, name: c.conform('ToolTrace', x, sess, name, env=env, args=(c.scratch,), dtimeout=600)
    r = c.model('EmitMC', consts=dict(Sizes=set(range(0, 140))) if c.thorough else None, note='the emitter against a reader of C initialisers, every size and line width')
    # image sizes: 20 octets of header, 32 a declaration, and the names: every remainder of the line width
    sizes = [int(json.loads(s)) for s in c.printed(r['out'], 'SCRIPT')]
    s = []
    for n in range(0, max(200 if c.thorough else 66, 0)):
        d = Db(R); d.root = d.add(SOURCE, name='n' * n)
        s.append([d.script(0), 'emit 0 %d' % (n % 5 == 0)])
    s.append(['new 0', 'defaults 0', 'emit 0 0'])
    d = Db(R); d.root = d.add(SOURCE, name='big' * 23000); s.append([d.script(0), 'emit 0 0'])      # beyond sixteen bits
    go(s, 'sizes')
    s = []
    for k in range(120 if c.thorough else 32):
        d = Db(R); d.source(R.choice([0, 1, 2, 3, 5, 8]), knots=R.choice([0, 0, 1]))
        for n in d.nodes:
            if R.random() < .3: n[6] = R.choice([M64, 0, 0x0a0d220a5c2a2f22, R.getrandbits(64)])      # octets that mean something to a compiler
            if R.random() < .1: n[2] = ''.join(chr(R.randint(1, 255)) for _ in range(R.randint(1, 9)))
        s.append([d.script(0), 'emit 0 0'])
        if R.random() < .2: s[-1] += [d.mutate().script(1), 'merge 2 %s 0 1' % hx(b'ar'), 'emit 2 0']
    d = Db(R); d.root = d.add(SOURCE, name=''.join(chr(b) for b in range(1, 256))); s.append([d.script(0), 'emit 0 0'])
    for k in range(6 if c.thorough else 2): d = Db(R); d.source(R.randint(30, 60), knots=3); s.append([d.script(0), 'emit 0 1'])
    go(s, 'random')
    c.cov['model_sizes'] = len(sizes)
    c.assumptions = ['the emitted source is compiled as C99 with gcc; what the array holds is read from the compiled object']
