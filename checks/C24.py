"""C24: dump and statistics."""
import json, os
from dbgen import *
from C17 import nodes
from vlib import REPO
FMTS = ['dump', 'dump_fqn', 'dump_sum', 'dump_all', 'dump_ext', 'dump_ext_fqn', 'dump_ext_sum', 'dump_ext_all']
def name_of(R, n): return ''.join(R.choice('abcdefghijklmnopqrstuvwxyz_') for _ in range(n))
def body(c):
    R = c.rng
    x = c.build('db', ['db.cc'])
    env = dict(CREFLTOOL=c.build('crefltool', [os.path.join(REPO, 'tool', 'crefltool.cc')]))
    go = lambda sess, name: c.conform('ToolTrace', x, sess, name, env=env, args=(c.scratch,), dtimeout=600)
    k = dict(MaxDecls=2, MaxMembers=1, Builtins={1, 9, 21}) if c.thorough else None
    r = c.model('DumpMC', consts=k, note='the dump of every small database, row by row', timeout=850)
    ds = [json.loads(s) for s in c.printed(r['out'], 'SCRIPT')]
    R.shuffle(ds); c.cov['model_databases'] = len(ds)
    g = []
    for k, d in enumerate(ds[:3000 if c.thorough else 330]):
        g.append(['build 0 23 ' + nodes(d), 'dump 0 ' + FMTS[k % 8], 'stats 0 1'])
    go([sum(g[i:i + 10], []) for i in range(0, len(g), 10)], 'model')
    # every name length around each column width, in every format, with what else a row can hold
    s = []
    for n in [0, 1, 2] + list(range(4, 36)) + [56, 57, 58, 200, 254, 255, 256, 257, 300, 1000]:
        d = Db(R); root = d.add(SOURCE, name='s.c'); a = d.add(STRUCT, name=name_of(R, n)); f = d.add(FIELD, name=name_of(R, max(0, n - R.randint(0, 3))), link=9); t = d.add(TYPEDEF, name=name_of(R, R.randint(1, 12)), link=a)
        d.at(root)[4] = a; d.at(a)[4] = f; d.at(a)[3] = t; d.root = root
        s.append([d.script(0), 'dump 0 each' if c.thorough or n % 3 == 0 else 'dump 0 %s' % R.choice(['dump_all', 'dump_ext_all']), 'stats 0 1'])
    go(s, 'lengths')
    # every property and kind, quantities at their extremes
    s = []
    for tag in range(1, 19):
        d = Db(R); root = d.add(SOURCE, name='s.c'); ids = []
        for k in range(-1, 32):
            i = d.add(tag, props=(1 << k) if k >= 0 else 0, name=d.nm(.6), qty=R.choice([0, 1, 9, 10, 99, 100, 255, 256, 4095, 65536, 10 ** 9, 10 ** 10, 1 << 31, 1 << 32, 1 << 63, M64, R.getrandbits(64)]))
            if tag in (ALIAS, TYPEDEF, FIELD, PARAM, QUALIFIER, POINTER, ARRAY): d.at(i)[4] = R.choice([9, root]) if tag == ALIAS else 9
            ids.append(i)
        for k in range(12 if c.thorough else 4): ids.append(d.add(tag, props=R.getrandbits(31), name=d.nm(), qty=R.getrandbits(R.choice([8, 31, 32, 33, 64])), link=9 if tag not in (SET, ENUM, STRUCT, UNION, FUNCTION, SOURCE, ARCHIVE, ALIAS) else 0))
        d.at(root)[4] = d.chain(ids); d.root = root
        s.append([d.script(0)] + (['dump 0 each'] if c.thorough else ['dump 0 dump', 'dump 0 dump_ext_all']) + ['stats 0 1'])
    go(s, 'kinds')
    s = []
    for k in range(250 if c.thorough else 60):
        d = Db(R); d.source(R.choice([0, 1, 2, 3, 5, 8]), knots=R.choice([0, 0, 1]))
        if R.random() < .4: d = d.renumber(R.randint(0, 5), True)
        l = [d.script(0)] + ['dump 0 ' + f for f in R.sample(FMTS, 2)] + ['stats 0 1']
        q = R.random()
        if q < .4:
            e = R.choice([d, d.mutate(), d.clone()]); l += [e.script(1), 'merge 2 %s 0 1' % hx(b'ar.refl'), 'dump 2 ' + R.choice(FMTS), 'dump 2 dump_all', 'stats 2 0']
        s.append(l)
    for k in range(8 if c.thorough else 2):
        d = Db(R); d.source(R.randint(30, 45), knots=3); s.append([d.script(0), 'dump 0 dump_all', 'dump 0 ' + R.choice(FMTS), 'stats 0 1'])
    go(s, 'random')
    c.assumptions = ['the hash column is compared with the hash of the same declaration computed by the library; C17 decides what that hash is',
                     'cells hold octets: a name is cut between octets']
