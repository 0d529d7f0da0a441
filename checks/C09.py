"""C09: every codec at every truncation and capacity point."""
from codec import *
K = {'tag', 'len', 'ident', 'u64', 's64', 'leu64', 'les64', 'bool', 'null', 'leb', 'vlu', 'oid', 'octets', 'real', 'vf64', 'vf32'}
def body(c):
    x = exe(c)
    boundary(c, x, K, ders=(2, 31), shorts=range(1, 32) if c.thorough else range(1, 15), coarse=True, name='capacity')
    boundary(c, x, K - {'octets'} if not c.thorough else K, ders=(2, 31), shorts=(1,), cuts=True, coarse=True, name='truncation')
