"""Sessions that put C programs through the plugin."""
import json, os
from cgen import *
from dbgen import hx
FILES = ['a.c', 'b.c', 'x-1.c', 'long_file_name_of_a_source_file.c', 'with.dots.c']
def setup(c):
    b = c.cmake_build(['crefl'])
    return c.build('db', ['db.cc']), dict(CLANG='/opt/llvm/bin/clang', CLANGLIB='/opt/llvm/lib', CREFLPLUGIN=os.path.join(b, 'libcrefl.so'))
def reflect(R, p, slot=0, name=None):
    return 'reflect %d %s %s %s' % (slot, hx((name or R.choice(FILES)).encode()), hx(text(p).encode()), hx(json.dumps(strip(p), separators=(',', ':')).encode()))
def small_programs(c, keep, most):
    """the programs of the visitor model, which shows that its walk mirrors each of them"""
    out = []
    for consts in ([dict(MaxItems=2, MaxMembers=2)] if c.thorough else [dict(MaxItems=1, MaxMembers=2), dict(MaxItems=2, MaxMembers=1)]):
        r = c.model('ReflMC', consts=consts, note='the visitor over every small program', timeout=850)
        out += [json.loads(s) for s in c.printed(r['out'], 'SCRIPT')]
    out = [p for p in out if keep(p)]
    c.rng.shuffle(out); c.cov['model_programs'] = len(out)
    return out[:most]
# ---- what the compiler says of the types of a program ----
def peel(t, e):
    """t: a type built on a tag; the expression of the tag type"""
    while t[0] != 'r':
        if t[0] == 'p': e = '*(%s)' % e; t = t[1]
        elif t[0] == 'a': e = '(%s)[0]' % e; t = t[2]
        elif t[0] == 'q': t = t[2]
        else: return None
    return e
def first_name(x):
    """a name within an unnamed member, at its start"""
    for y in x['m']:
        if y['k'] == 'field': return y['n'] or None
    return None
def types(items, path, parent, out, prefix=''):
    for i, x in enumerate(items):
        here = path + [i + 1]
        if x['k'] == 'typedef' and x.get('sized'): out.append((here, '(*(%s *)0)' % x['n'], []))
        if x['k'] not in ('struct', 'union', 'enum') or not x['def']: continue
        e = None
        if x['n']: e = '(*(%s %s *)0)' % (x['k'], x['n'])
        else:
            for y in items[i + 1:i + 1 + x.get('inl', 0)]:
                if y['k'] == 'typedef': e = peel(y['t'], '(*(%s *)0)' % y['n'])
                elif y['n'] and y['k'] == 'var': e = peel(y['t'], y['n'])
                elif y['n'] and parent: e = peel(y['t'], '(%s).%s' % (parent, y['n']))
                if e: break
        offs = []
        if x['k'] == 'struct' and e:
            for j, y in enumerate(x['m']):
                if y['k'] != 'field': continue
                if y['w'] >= 0: offs = []; break
                n = y['n'] or first_name(next(z for z in x['m'][:j][::-1] if z['k'] in ('struct', 'union')))
                if not n: offs = []; break
                offs.append('__builtin_offsetof(__typeof__(%s), %s)' % (e, n))
        if e: out.append((here, e, offs))
        if x['k'] != 'enum': types(x['m'], here, e, out)
    return out
OCTETS = '\nstatic void octets(unsigned long octets_n)\n{\n    const char *octets_s = "[";\n    if (!octets_n) printf("[");\n    for (; octets_n; octets_n >>= 8) { printf("%s%lu", octets_s, octets_n & 255); octets_s = ","; }\n    printf("]");\n}\n'
def compiler(p, slot=0, prefix=[]):
    ts = types(p, [], None, [])
    if not ts: return None
    src = '#include <stdio.h>\n' + text(p) + OCTETS + 'int main(void)\n{\n    printf("[");\n'
    for k, (path, e, offs) in enumerate(ts):
        src += '    printf("%s[%s,"); octets(sizeof(%s)); printf(",[");\n' % (',' if k else '', json.dumps(prefix + path), e)
        for j, o in enumerate(offs): src += '    printf("%s"); octets(%s);\n' % (',' if j else '', o)
        src += '    printf("]]");\n'
    return 'compiler %d %s' % (slot, hx((src + '    printf("]");\n    return 0;\n}\n').encode()))
# ---- programs of the shapes of LayoutMC ----
BUILTIN = {2: ['i', 1, 'b', '_Bool'], 5: ['i', 8, 'u', 'unsigned char'], 7: ['i', 16, 'u', 'unsigned short'], 9: ['i', 32, 'u', 'unsigned'], 11: ['i', 64, 'u', 'unsigned long'], 14: ['i', 128, 's', '__int128']}
def shape_program(shapes, R):
    k = [0]; prog = []
    def new(): k[0] += 1; return k[0]
    def typ(s):
        if s[0] == 'i': return list(BUILTIN[s[1]])
        if s[0] == 'p': return ['p', ['i', 8, 's', 'char']]
        if s[0] == 'a': return ['a', s[1], typ(s[2]), 0]
        if s[0] == 'q': t = typ(s[1]); return ['q', CONST, t] if t[0] != 'a' else t
        if s[0] == 't':
            t = typ(s[1]); u = new(); prog.append({'k': 'typedef', 'uid': u, 'n': 'T%d' % u, 't': t, 'a': [], 'sized': True}); return ['t', u]
        if s[0] == 'e':
            u = new(); prog.append({'k': 'enum', 'no': u, 'uid': u, 'n': 'e%d' % u, 'def': 1, 'a': [], 'inl': 0, 'm': [{'k': 'const', 'n': 'E%d' % u, 'v': [R.randrange(128)] + [0] * 7, 'neg': 0, 'a': []}]})
            return ['r', u, 'enum', 'e%d' % u]
        u = new(); kind = 'struct' if s[0] == 's' else 'union'
        m = [{'k': 'field', 'n': 'f%d' % i, 't': typ(f), 'w': -1, 'a': []} for i, f in enumerate(s[1])]
        prog.append({'k': kind, 'no': u, 'uid': u, 'n': 'r%d' % u, 'def': 1, 'm': m, 'a': [], 'inl': 0}); return ['r', u, kind, 'r%d' % u]
    for s in shapes: typ(s)
    return prog
