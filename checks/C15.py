"""C15: member queries and navigation."""
import json
from dbgen import *
FNS = ['enum_constants', 'set_constants', 'struct_fields', 'union_fields', 'function_params', 'source_decls', 'source_types', 'source_fields', 'source_functions', 'archive_sources']
def body(c):
    R = c.rng
    x = c.build('db', ['db.cc'])
    r = c.model('QueryMC', consts=dict(MaxList=4) if c.thorough else None, note='every container kind x member list x query x limit')
    qs = {}
    for s in c.printed(r['out'], 'SCRIPT'):
        con, kinds, fn, lim = json.loads(s)
        qs.setdefault((con, tuple(kinds)), []).append((fn, lim))
    keys = sorted(qs); R.shuffle(keys); c.cov['model_lists'] = len(keys)
    g = []
    for con, kinds in keys[:len(keys) if c.thorough else 700]:
        d = Db(R); i = d.add(con, name='c'); ids = [d.add(k, name='m', qty=1) for k in kinds]; d.at(i)[4] = d.chain(ids); d.root = i
        s = [d.script(0)]
        for fn, lim in sorted(qs[con, kinds]): s.append('query %s 0 23 %d 0' % (fn, lim))
        g.append(s)
    c.conform('DbTrace', x, sessions(g, 600), 'lists')
    sess = []
    for _ in range(160 if c.thorough else 40):
        d = Db(R)
        if R.random() < .8: d.source(R.randint(0, 12))
        else:
            a = d.add(ARCHIVE, name='ar'); src = [d.source(R.randint(0, 3)) for _ in range(R.randint(0, 4))]; d.at(a)[4] = d.chain(src); d.root = a
        if R.random() < .3:   # any next and link: kinds, navigation and values on arbitrary tables
            for n in d.nodes:
                if R.random() < .1: n[0] = R.randint(0, 18)
                if R.random() < .2: n[6] = rand_word(R, 64)
        s = [d.script(0), 'check 0', 'rootq 0']
        n = len(d.nodes)
        for i in list(range(0, FIRST)) + list(range(FIRST, FIRST + n)):
            s.append('kind 0 %d' % i)
            if i >= FIRST or R.random() < .2:
                for fn in FNS if i < FIRST or d.at(i)[0] in (SET, ENUM, STRUCT, UNION, FUNCTION, ARCHIVE, SOURCE) else R.sample(FNS, 2):
                    s.append('query %s 0 %d %d %d' % (fn, i, R.choice([0, 1, 2, 3, 5, 50]), R.choice([0, 0, 0, 0, 2, 4])))
        s += ['check 0', 'kind 0 0', 'kind 0 %d' % (FIRST + n - 1)]
        sess.append(s)
    c.conform('DbTrace', x, sess, 'tables')
    c.assumptions = ['member lists end (no next cycle); a declaration kind outside the documented list is a member of no list']
