"""C13: file errors."""
import json, os, subprocess
from dbgen import *
from reflect import setup, Gen, text
from vlib import REPO, DRIVERS, ToolError
def shim(c):
    so = os.path.join(c.scratch, 'faultshim.so')
    r = subprocess.run(['gcc', '-shared', '-fPIC', '-w', '-o', so, os.path.join(DRIVERS, 'faultshim.c'), '-ldl'], capture_output=True, text=True)
    if r.returncode: raise ToolError(r.stderr)
    return so
def body(c):
    R = c.rng
    x = c.build('db', ['db.cc'])
    env = dict(CREFLTOOL=c.build('crefltool', [os.path.join(REPO, 'tool', 'crefltool.cc')], san=False), FAULTSHIM=shim(c))
    go = lambda sess, name: c.conform('ToolTrace', x, sess, name, env=env, args=(c.scratch,), dtimeout=600)
    r = c.model('FileMC', note='a tool reading inputs and writing through a buffer to a device that may fill or fail to close', consts=dict(MaxSize=8, MaxBuf=4, MaxInputs=3) if c.thorough else dict(MaxInputs=2))
    runs = [json.loads(s) for s in c.printed(r['out'], 'SCRIPT')]
    runs = [list(t) for t in sorted({(m, o, tuple(i)) for m, o, i in runs})]
    R.shuffle(runs); c.cov['model_runs'] = len(runs)
    def dbs(big=False):
        l = []
        for k in range(3): d = Db(R); d.source(R.choice([1, 2, 3]) if not big else 30); l.append(d.script(k))
        return l
    def inp(cond): s = R.randrange(3); return '%s:%d' % (cond, s) + (':%d' % R.choice([1, 7, 8, 19, 20, 21, 51, 52, 53, 60, 10 ** 6]) if cond == 'cut' else ':%d' % R.randrange(8) if cond == 'foreign' else '')
    def line(m, o, ins, extra=''):
        if o == 'limit': o = 'limit:%d:p' % R.choice([0, 1, 20, 50, 80, 99, 100])
        return 'run %s %s %s%s' % (m, o, extra, ' '.join(inp(i) for i in ins))
    g = []
    for m, o, ins in runs[:10000 if c.thorough else 700]:
        if m == 'dump': m = R.choice(['dump', 'dump-all', 'dump-ext', 'dump-ext-fqn'])
        if m == 'merge' and not ins: continue
        g.append(line(m, o, ins))
    go([dbs() + g[i:i + 30] for i in range(0, len(g), 30)], 'model')
    # the disk fills at every octet of a small image, and around the buffer sizes of a large one
    sess = []
    d = Db(R); d.source(1); e = Db(R); e.source(1)
    n = 20 + sum(32 + len(a[2]) + (1 if a[2] else 0) for a in d.nodes)
    l = ['writefile 0 limit %d' % k for k in range(0, n + 2)]
    sess += [[d.script(0)] + l[i:i + 60] for i in range(0, len(l), 60)]
    l = ['run %s limit:%d ok:0' % (m, k) for m, top in (('merge', n + 60), ('emit', 5 * n + 200)) for k in (range(0, top) if c.thorough else [0, 1, 2, 15, 16, 17] + [R.randrange(top) for _ in range(40)] + list(range(n - 5, n + 60, 4)))]
    sess += [[d.script(0)] + l[i:i + 60] for i in range(0, len(l), 60)]
    b = Db(R); b.source(45); nb = 20 + sum(32 + len(a[2]) + (1 if a[2] else 0) for a in b.nodes)
    l = ['writefile 0 limit %d' % k for k in sorted({nb - 1, nb, nb + 1, 4095, 4096, 4097, 8192, 8191, nb // 4096 * 4096, nb // 4096 * 4096 - 1} | {R.randrange(nb) for _ in range(20)})]
    l += ['run %s limit:%d ok:0' % (m, k) for m in ('merge', 'emit', 'dump', 'stats', 'dump-ext-all') for k in [0, 1, 4095, 4096, 4097, 8192, 12288, 65536] + [R.randrange(nb) for _ in range(4)]]
    l += ['run %s limit:%d:p ok:0' % (m, k) for m in ('merge', 'emit', 'dump', 'stats', 'dump-ext-all') for k in [10, 50, 90, 100]]
    sess += [[b.script(0)] + l[i:i + 30] for i in range(0, len(l), 30)]
    sess += [['bulk 0 17500 1000']] + ([['bulk 0 70000 1000']] if c.thorough else [])      # files of more than 2^24 octets
    go(sess, 'full')
    sess = []
    for k in range(30 if c.thorough else 8):
        l = dbs(k % 4 == 3)
        for f in ['none', 'over', 'full', 'nodir', 'isdir', 'empty', 'limit 0', 'limit 100000000']: l.append('writefile %d %s' % (R.randrange(3), f))
        for f in ['none', 'missing', 'dir', 'denied', 'empty', 'under', 'cut 0', 'cut 1', 'cut 19', 'cut 20', 'cut 99999999'] + ['cut %d' % R.randrange(1, 200) for _ in range(4)] + ['foreign %d' % b for b in range(8)]:
            s = R.randrange(3); l.append('readfile %d %d %s' % (4, s, f))
            if f == 'none': l.append('check 4')
        for m in ['merge', 'emit', 'dump', 'stats']:
            for sh in ['close', 'read', 'part']: l += [line(m, 'ok', ['ok'], 'shim=%s ' % sh), line(m, R.choice(['ok', 'over', 'full', 'limit']), ['ok'], 'shim=%s ' % sh)]
        l += [line('merge', 'ok', ['ok'] * 3, 'shim=close '), line('merge', 'over', ['ok', R.choice(['ok', 'missing', 'denied', 'cut']), 'ok'])]
        sess.append(l)
    go(sess, 'faults')
    # the plugin's output, run by clang and by the project's script; a disk that fills at every octet
    y, e = setup(c); e['CREFL_REPO_DIR'] = REPO; sess = []
    for k in range(40 if c.thorough else 10):
        p = Gen(R, 'full').program(R.choice([1, 1, 3, 40])); src = hx(text(p).encode()); l = []
        for w in ['ok', 'over', 'full', 'nodir', 'isdir'] + ['limit %d' % R.choice([0, 1, 8, 19, 20, R.randrange(400), 4096, 10 ** 7]) for _ in range(4)]: l.append('plugin %s %s %s' % (src, R.choice(['clang', 'script']), w))
        sess.append(l)
    src = hx(b'int a;\n'); l = ['plugin %s clang limit %d' % (src, n) for n in range(0, 96, 1 if c.thorough else 5)]; sess += [l[i:i + 12] for i in range(0, len(l), 12)]
    c.conform('ReflectTrace', y, sess, 'plugin', env=e, args=(c.scratch,), dtimeout=600)
    c.assumptions = ['a file size limit stands for a full disk; closing and reading errors are injected through the C library calls fclose, close, fread and read',
                     'a failed close or read counts only where it happened']
