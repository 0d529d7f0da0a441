"""C28: sources reflected, merged, emitted and compiled into a program."""
import copy, os
from reflect import *
from vlib import REPO
HEADERS = ['shared.h', 'types.h', 'sub/defs.h', 'string.h', 'time.h', 'math.h', 'list.inc']
def programs(R, n, mode):
    """headers, the second including the first, and n sources that include them: (header commands, [(items of the whole unit, source text)])"""
    g = Gen(R, mode); t = Text(); h = []; cmds = []; d = R.choice([1, 1, 2, 3]); names = R.sample(HEADERS, R.choice([1, 1, 2])); inc = ''
    for nm in names:
        at = R.randrange(d); own = g.program(R.choice([1, 2, 4])); h = h + own
        cmds.append('header %s %s %d %d' % (hx(nm.encode()), hx(('#pragma once\n' + inc.replace('"', '<', 1).replace('"', '>') + t.items(own)).encode()), at, d))
        inc += '#include %s\n' % R.choice(['"%s"', '<%s>']) % nm if not inc or R.random() < .5 else ''
    if len(names) == 2 and names[1] not in inc: inc += '#include <%s>\n' % names[1]
    out = []
    for _ in range(n):
        k = copy.deepcopy(g); k.R = R; k.uid += 1000 * (len(out) + 1)
        own = k.program(R.choice([0, 1, 2, 4])); u = copy.deepcopy(t)
        out.append((h + own, inc + u.items(own)))
    return cmds, out
def body(c):
    R = c.rng
    x, env = setup(c)
    env.update(CREFLTOOL=c.build('crefltool', [os.path.join(REPO, 'tool', 'crefltool.cc')]), CREFL_REPO_DIR=REPO)
    go = lambda sess, name: c.conform('ReflectTrace', x, sess, name, env=env, args=(c.scratch,), dtimeout=850, timeout=850)
    def session(how, mode):
        n = R.choice([1, 2, 2, 3]); l = []
        if R.random() < .75:
            l, us = programs(R, n, mode)
        else:
            us = [(p, text(p)) for p in (Gen(R, mode).program(R.choice([1, 2, 5])) for _ in range(n))]
            if n > 1 and R.random() < .4: us[1] = us[0]
        for i, (p, src) in enumerate(us):
            nm = 'f%d.c' % i if R.random() < .7 else 'same.c'
            l.append('reflect %d %s %s %s' % (i, hx(nm.encode()), hx(src.encode()), hx(json.dumps(strip(p), separators=(',', ':')).encode())))
        order = list(range(n)); R.shuffle(order)
        if R.random() < .2: order.append(R.choice(order))
        l.append('pipeline 4 %s %s %s' % (how, hx(R.choice([b'app', b'x-1', b'my_program']) ), ' '.join(map(str, order))))
        for j, i in enumerate(order):
            if mode == 'layout':
                q = compiler(us[i][0], 4, [j + 1])
                if q: l.append(q)
        if mode == 'layout': l.append('layouts 4')
        return l
    ps = small_programs(c, lambda p: True, 1200 if c.thorough else 100); s = []
    for a, b in zip(ps[::2], ps[1::2]):
        s.append([reflect(R, a, 0, 'one.c'), reflect(R, b, 1, 'two.c'), 'pipeline 4 script %s %s' % (hx(b'm'), R.choice(['0 1', '1 0', '0 1 0', '1 1']))])
    go(s, 'model')
    go([session('script', R.choice(['full', 'types', 'layout'])) for _ in range(600 if c.thorough else 90)], 'by hand')
    go([session('cmake', R.choice(['full', 'types', 'layout'])) for _ in range(200 if c.thorough else 32)], 'cmake')
    c.assumptions = ['the pinned clang, gcc, cmake and ninja; the embedded image is read from the compiled shared object']
