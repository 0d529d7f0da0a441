"""C19: hash map."""
from gen import *
from vlib import scripts
def body(c):
    x = c.build('map', ['map.cc'], libs=[])
    r = c.model('OpenAddr', consts=dict(Depth=9, NKeys=5) if c.thorough else None, note='all histories over four keys and four hash functions from a four-slot table; refinement to the abstract map')
    ss = maximal(scripts(c.printed(r['out'], 'SCRIPT')))
    c.cov['model_scripts'] = len(ss)
    if not c.thorough: ss = ss if len(ss) < 4000 else c.rng.sample(ss, 4000)
    c.conform('HashMapTrace', x, ss, 'model-scripts')
    r = c.model('OpenAddr', consts=dict(InitSize=1, NKeys=3, Depth=7 if c.thorough else 5), note='the same from a one-slot table')
    c.conform('HashMapTrace', x, maximal(scripts(c.printed(r['out'], 'SCRIPT')))[:4000], 'model-scripts-1')
    c.conform('HashMapTrace', x, [rand(c.rng) for _ in range(1500 if c.thorough else 200)], 'random')
    c.conform('HashMapTrace', x, [big(c.rng) for _ in range(60 if c.thorough else 8)], 'large')
    c.conform('HashMapTrace', x, [worn(c.rng) for _ in range(600 if c.thorough else 150)], 'worn')
    c.conform('HashMapTrace', x, [huge(c.rng, n) for n in ([1500, 2500, 4095, 5000, 9000, 17000, 33000] if c.thorough else [1500, 4500, 9000])], 'huge')
def huge(r, n):
    """thousands of keys: what a table of one size keeps of them in another"""
    st = r.choice([1, 1, 3, 7]); out = ['config %d %d %s' % (r.choice([0, 2]), r.choice([1, 5]), ' '.join(str(r.randrange(n * st)) for _ in range(30))), 'new a -1']
    out += ['fill a %d 0 %d' % (n, st), 'empty a %d %d %d' % (n // 3, 2 * st, 3 * st), 'copy a b', 'eq a b', 'fill b %d 1 %d' % (n // 2, 2 * st), 'assign b a', 'empty a %d 0 1' % (n // 4), 'insert a 5 5 0', 'clear b', 'fill b 50 7 1', 'move a c', 'sub c 3']
    return out
def worn(r):
    """a table worn by erasures is copied or moved, and the copy is used until it must have grown"""
    lim = r.choice([2, 4, 8, 16, 16, 32]); hf = r.choice([1, 1, 5, 7, 8, 6]); ks = list(range(0, 3 * lim)); R = ks[:]; r.shuffle(R)
    out = ['config %d %d %s' % (r.randint(0, 2), hf, ' '.join(map(str, ks[::max(1, lim // 4)] + [255]))), 'new a %d' % lim, 'new b %d' % r.choice([lim, 2, 64])]
    h, keep = 'a', r.choice([0, 0, 1, lim // 4])
    for _ in range(r.choice([1, 2])):
        for n in range(r.choice([lim // 2, lim // 2, lim // 2 - 1, lim // 4])):
            k = R.pop(); out.append(r.choice(['insert %s %d 1 0', 'set %s %d 1', 'insert %s %d 3 2']) % (h, k))
            if n >= keep: out.append('erase %s %d' % (h, k))
        op = r.choice(['copy', 'assign', 'assign', 'move', 'massign', '']); t = 'b' if h == 'a' else 'a'
        if op: out.append('%s %s %s' % (op, h, t)); out += ['eq %s %s' % (h, t)] if op in ('copy', 'assign') else ['new %s 4' % h]; h = t
        if r.random() < .3: out.append('clear ' + h)
        for _ in range(r.choice([1, lim // 2, lim])):
            if R: k = R.pop(); out.append(r.choice(['insert %s %d 7 1', 'set %s %d 7']) % (h, k))
        if len(R) < lim: break
    return out
def maximal(ss):
    pre = set()
    for s in ss:
        for i in range(1, len(s)): pre.add(tuple(s[:i]))
    return [s for s in ss if tuple(s) not in pre]
def rand(r):
    n = r.choice([2, 3, 5, 9, 20]); ks = r.sample(range(0, 256), n); hf = r.randint(0, 8)
    ty = r.choice([0, 1, 2, 3]); fold = ty == 3
    out = ['config %d %d %s' % (ty, hf, ' '.join(map(str, ks + [255])))]
    st = {}
    for h in 'ab':
        out.append('new %s %d' % (h, r.choice([-1, -1, 1, 2, 4, 8, 32, 64]))); st[h] = 1
    we = r.choice([.1, .3, .45])
    for _ in range(r.randint(10, 70)):
        live = [h for h in st if st[h] == 1]
        q = r.random()
        if not live or q < .02: h = r.choice('abc'); out.append('new %s %d' % (h, r.choice([-1, 1, 2, 4, 16]))); st[h] = 1; continue
        h = r.choice(live); k = r.choice(ks) + (r.choice([0, 0, 256, 512]) if fold else 0)
        if q < .02 + we: out.append('erase %s %d' % (h, k))
        elif q < .8:
            v = r.randint(0, 100)
            out.append(r.choice(['insert %s %d %d %d' % (h, k, v, r.randint(0, 2)), 'set %s %d %d' % (h, k, v), 'sub %s %d' % (h, k)]))
        elif q < .82: out.append('clear ' + h)
        elif q < .9: out.append('eq %s %s' % (h, r.choice(live)))
        else:
            t = r.choice('abc'); op = r.choice(['copy', 'move', 'assign', 'massign'])
            if op in ('copy', 'move') and t == h: continue
            if op in ('assign', 'massign') and st.get(t, 0) == 0: continue
            out.append('%s %s %s' % (op, h, t)); st[t] = 1
            if op in ('move', 'massign') and t != h: st[h] = 2
    return out
def big(r):
    """growth over several doublings and heavy deletion"""
    n = r.choice([40, 120, 300]); ks = [r.randint(0, 1 << 15) for _ in range(n)]
    out = ['config 0 %d %s' % (r.choice([1, 4, 5, 6, 8, 2]), ' '.join(map(str, ks[:6]))), 'new a -1']
    for i in range(n):
        k = r.choice(ks)
        out.append(r.choice(['insert a %d %d 0' % (k, i), 'set a %d %d' % (k, i), 'erase a %d' % r.choice(ks), 'insert a %d %d 1' % (k, i)]))
    out += ['copy a b', 'eq a b'] + ['erase a %d' % k for k in ks[:n // 2]] + ['eq a b', 'assign a b', 'eq b a']
    return out
