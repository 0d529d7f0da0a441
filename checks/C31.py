"""C31: the generator of the table of object identifiers."""
import json
from gen import *
from vlib import REPO
NAMES = ['a', 'OCSP', 'BJ_OB', '_OBJ', 'JPEG', 'rsa', 'SHA1', 'id_ce', 'X509', 'keyBag', 'x_1', 'long_name_' * 8, 'z', 'md5']
def component(R):
    v = R.choice([0, 1, 39, 40, 47, 79, 80, 119, 120, 127, 128, 129, 167, 168, 16383, 16384, 840, 113549, 2 ** 21, 2 ** 28 - 1, 2 ** 32, 2 ** 53 + 1, 2 ** 56, 2 ** 63, 2 ** 64 - 1, R.getrandbits(R.randint(1, 70))])
    g = [v & 127]
    while v > 127: v >>= 7; g.append(128 | (v & 127))
    return bytes(reversed(g))
def body(c):
    R = c.rng
    x = c.pydriver('oidgen.py', REPO)
    r = c.model('OidGenMC', consts=dict(MaxLen=4) if c.thorough else None, note='the loop of the generator on every short string of octets')
    os_ = [bytes(json.loads(s)) for s in c.printed(r['out'], 'SCRIPT')]; R.shuffle(os_)
    c.cov['model_entries'] = len(os_)
    def gen(es): return 'gen %s %s' % (R.choice(['s', 'b', 'sb', 'sb', 'sb']), ' '.join('%s%d=%s' % (R.choice(NAMES), R.choice([0, k, k]), o.hex()) for k, o in enumerate(es)))
    es = os_[:12000 if c.thorough else 1500]
    c.conform('OidGenTrace', x, [[gen(es[i:i + 25])] for i in range(0, len(es), 25)], 'model')
    s = []
    for _ in range(1500 if c.thorough else 150):
        pool = [b''.join(component(R) for _ in range(R.choice([1, 1, 2, 3, 5, 9, 20]))) for _ in range(R.randint(1, 6))]
        es = []
        for _ in range(R.choice([0, 1, 2, 5, 12, 30])):
            o = R.choice(pool)
            if R.random() < .6: o = o + b''.join(component(R) for _ in range(R.randint(1, 3)))
            es.append(o)
        s.append([gen(es), 'gen - ' + 'a=2a'] if R.random() < .1 else [gen(es)])
    c.conform('OidGenTrace', x, s + [['bundled s', 'bundled b', 'bundled sb', 'bundled -']], 'registries')
    c.assumptions = ['registry lines OBJ_name="octets" whose octets end with a component; rows are read back as C initialisers']
