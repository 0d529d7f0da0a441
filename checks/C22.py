"""C22: functions, variables, qualifiers and attributes as the plugin records them."""
from reflect import *
import headers
def body(c):
    R = c.rng
    x, env = setup(c)
    go = lambda sess, name: c.conform('ReflectTrace', x, sess, name, env=env, args=(c.scratch,), dtimeout=850, timeout=850)
    go([[reflect(R, p)] for p in small_programs(c, lambda p: any(i['k'] in ('func', 'var') for i in p), 3000 if c.thorough else 250)], 'model')
    go([[reflect(R, Gen(R, 'full').program(R.choice([1, 2, 4, 8, 14])))] for _ in range(3000 if c.thorough else 350)], 'programs')
    go([[reflect(R, Gen(R, 'full').program(R.choice([60, 100])))] for _ in range(40 if c.thorough else 8)], 'long programs')
    go([[reflect(R, p)] for p in extremes(R, ['longs', 'wide', 'tall', 'cvr', 'noted', 'aligned', 'used', 'odd'], 60 if c.thorough else 8)], 'extremes')
    hs = headers.some(env, R, 999 if c.thorough else 6)
    c.cov['headers'] = [h for h, _, _ in hs]
    c.conform('ReflectTrace', x, [[headers.reflect(t, p)] for _, t, p in hs], 'headers', shards=min(8, len(hs)), env=env, args=(c.scratch,), dtimeout=850, timeout=850)
    c.assumptions = ['the pinned clang parses the program; its target is x86-64 Linux']
