"""C26: descriptions of object identifiers."""
import json, os, re
from gen import *
from vlib import REPO, ToolError
def registry():
    out = []
    for l in open(os.path.join(REPO, 'data', 'oids.txt')):
        m = re.match(r'OBJ_(\w+)="((?:\\x[0-9A-Fa-f]{2})+)"$', l.strip())
        if not m:
            if l.strip(): raise ToolError('registry line not understood: ' + l)
            continue
        out.append((m.group(1), bytes.fromhex(m.group(2).replace('\\x', ''))))
    return out
def body(c):
    R = c.rng
    reg = registry()
    p = os.path.join(c.scratch, 'registry.ndjson')
    with open(p, 'w') as f:
        for n, o in reg: f.write(json.dumps({'oid': list(o), 'name': n}) + '\n')
    env = {'REGISTRY': p}
    x = c.build('oid', ['oid.cc'], libs=['oid'])
    kinds = {'same', 'cut', 'tail', 'longer', 'twice', 'swap', 'flip', 'zero', 'last'}
    r = c.model('OidRegMC', consts=dict(Kinds=kinds, Step=1 if c.thorough else 37), env=env, timeout=800,
                note='walk of the registry trie for every listed identifier and its near misses')
    qs = [bytes(json.loads(s)) for s in c.printed(r['out'], 'SCRIPT')]
    c.cov['registry_entries'], c.cov['questions'] = len(reg), len(qs)
    names = [o for _, o in reg]
    def ask(q):
        t = R.choice([b'', b'', b'\0', R.randbytes(R.randint(1, 9)), R.choice(names)])
        return 'desc %s %s' % (hx(q), hx(t))
    sess = []
    R.shuffle(qs)
    for i in range(0, len(qs), 400): sess.append([ask(q) for q in qs[i:i + 400]])
    # the octets that follow complete a listed identifier; lookups repeat in any order
    g = []
    for o in names:
        k = R.randint(0, len(o))
        g.append('desc %s %s' % (hx(o[:k]), hx(o[k:]))); g.append('desc %s %s' % (hx(o), hx(R.randbytes(3))))
    for _ in range(20000 if c.thorough else 2500):
        q = R.random(); o = bytearray(R.choice(names))
        if q < .3: o[R.randrange(len(o))] = R.getrandbits(8)
        elif q < .5: o += R.randbytes(R.choice([1, 2, 5, 20, 300]))
        elif q < .6: o = o[:R.randint(0, len(o))] + R.choice(names)
        elif q < .7: o = bytearray(R.randbytes(R.randint(0, 14)))
        elif q < .8: o = o + b'\0' * R.randint(1, 8)
        g.append(ask(bytes(o)))
    R.shuffle(g)
    sess += [g[i:i + 400] for i in range(0, len(g), 400)]
    c.conform('OidRegTrace', x, sess, 'lookups', env=env)
    c.assumptions = ['the registry is /repo/data/oids.txt; the one identifier it lists under two names may be described by either']
