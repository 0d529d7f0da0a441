"""C programs as lists of items (see specs/Reflect.tla) and their text.  Chooses inputs only: what the plugin must
record of a program is decided by the specification."""
import json
SCALARS = [['i', 8, 's', 'char'], ['i', 8, 's', 'signed char'], ['i', 8, 'u', 'unsigned char'], ['i', 16, 's', 'short'], ['i', 16, 'u', 'unsigned short'],
    ['i', 32, 's', 'int'], ['i', 32, 's', 'int'], ['i', 32, 's', 'signed'], ['i', 32, 'u', 'unsigned'], ['i', 64, 's', 'long'], ['i', 64, 'u', 'unsigned long'],
    ['i', 64, 's', 'long long'], ['i', 64, 'u', 'unsigned long long int'], ['i', 128, 's', '__int128'], ['i', 128, 'u', 'unsigned __int128'], ['i', 32, 'f', 'float'],
    ['i', 64, 'f', 'double'], ['i', 128, 'f', 'long double'], ['i', 1, 'b', '_Bool'], ['i', 64, 'c', 'float _Complex'],
    ['i', 128, 'c', '_Complex double'], ['i', 256, 'c', 'long double _Complex']]
EXOTIC = [['i', 128, 'f', '__float128'], ['i', 32, 's', '_Atomic int'], ['i', 8, 'u', '_Atomic(unsigned char)'], ['i', 64, 'u', '_Atomic unsigned long'], ['i', 1, 'b', '_Atomic _Bool'],
    ['i', 64, 'f', '_Atomic(double)'], ['i', 32, 'u', '__typeof__(1u)'], ['i', 64, 's', '__typeof__(sizeof(int) - 1L + (long)1 > 0 ? 1L : 2L)'], ['i', 8, 's', '__typeof__(char)'], ['i', 64, 'u', 'long unsigned int'], ['i', 16, 's', 'int short'], ['i', 8, 'u', 'char unsigned']]
NOISE = [';', '_Static_assert(sizeof(int) == 4, "int");', '__asm__("");', '#define NOISE 1', '#line 7 "elsewhere.c"', '#pragma GCC diagnostic push', '/* struct ignored { int x; }; */', '#if 0\nint ignored;\n#endif', '_Static_assert(1 < 2, "");']
FIXED = [[8, 'u', 'unsigned char'], [8, 's', 'signed char'], [8, 's', 'char'], [16, 's', 'short'], [16, 'u', 'unsigned short'], [32, 's', 'int'], [32, 'u', 'unsigned'], [64, 's', 'long'], [64, 'u', 'unsigned long long'], [64, 's', 'const long long'], [8, 'b', '_Bool']]
VOID = ['i', 0, 'v', 'void']
CONST, VOLATILE, RESTRICT = 1 << 10, 1 << 11, 1 << 12
def quals(b): return ' '.join(n for m, n in ((CONST, 'const'), (VOLATILE, 'volatile'), (RESTRICT, 'restrict')) if b & m)
def c_text(t): return t.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\t', '\\t')
def attr_text(x):
    out = []
    for a in x.get('a', []):
        if len(a) > 3: out.append(a[0])
        elif a[1] == 'bits': out.append('aligned(%d)' % (a[2] // 8))
        elif a[1] == 'text': out.append('%s("%s")' % (a[0], c_text(a[2])))
        else: out.append(a[0] if a[0] != 'deprecated' else x.get('dep', 'deprecated'))
    for pos, raw in x.get('xa', []): out.insert(min(pos, len(out)), raw)
    if not out: return ''
    if x.get('sep'): return ' '.join('__attribute__((%s))' % o for o in out)
    return '__attribute__((%s))' % ', '.join(out)
class Text:
    """prints items; bodies: uid of an unnamed or inline tag -> its text"""
    def __init__(self): self.names = {}
    def base(self, t, inner, tagtext=None):
        k = t[0]
        if k == 'i': return t[3], inner
        if k == 'fn': return self.base(['i', 0, '', t[1]], '%s(%s)' % ('(%s)' % inner if inner.startswith('*') else inner, t[2]))
        if k == 'r': return (tagtext if tagtext is not None else '%s %s' % (t[2], t[3])), inner
        if k == 't': return self.names[t[1]], inner
        if k == 'p': return self.base(t[1], '*' + inner, tagtext)
        if k == 'q':
            u = t[2]
            if u[0] == 'p': return self.base(u[1], '*%s %s' % (quals(t[1]), inner), tagtext)
            b, i = self.base(u, inner, tagtext); return '%s %s' % (quals(t[1]), b), i
        p = '(%s)' % inner if inner.startswith('*') else inner
        if k == 'a' and inner.endswith('\x01'): return self.base(t[2], p.replace('\x01', '') + '[]', tagtext)
        if k == 'a': return self.base(t[2], '%s[%s%s]' % (p, 'static ' if t[3] else '', t[1]), tagtext)
        if k == 'ia': return self.base(t[1], p + '[]', tagtext)
        if k == 'va': return self.base(t[1], '%s[%s%s]' % (p, 'static ' if t[2] else '', t[3] if len(t) > 3 else '*'), tagtext)
        raise ValueError(t)
    def decl(self, t, name, tagtext=None): b, i = self.base(t, name, tagtext); return '%s %s' % (b, i)
    def tag(self, x):
        s = '%s %s %s' % (x['k'], attr_text(x), x['n'])
        if 'ut' in x: s += ' : ' + (self.names[x['uttd']] if x.get('uttd') else x['uttxt'])
        if not x['def']: return s
        if x['k'] == 'enum': return s + ' { ' + ', '.join('%s %s%s' % (c['n'], attr_text(c), (' = ' + c['txt']) if c.get('txt') else self.value(c)) for c in x['m']) + (x.get('comma', '')) + ' }'
        return s + ' {\n' + self.items(x['m'], True) + '}'
    def value(self, c):
        if c.get('txt') == '': return ''
        v = sum(b << (8 * i) for i, b in enumerate(c['v'])); v = v - (1 << 64) if c['neg'] else v
        return ' = %s' % (v if v < 2**31 and v > -2**31 else ('%dull' % v if v >= 2**63 else '(%dll - 1)' % (v + 1) if v < 0 else '%dll' % v))
    def declarator(self, x, tagtext=None):
        """base and declarator of a field, variable or typedef"""
        b, i = self.base(x['t'], x['n'] + ('\x01' if x.get('open') else ''), tagtext)
        if x['k'] == 'field' and x['w'] >= 0: i += ' : %d' % x['w']
        a = '' if x.get('alignas') else attr_text(x); i += ' ' + a if a else ''
        if x['k'] == 'typedef': self.names[x['uid']] = x['n']
        return b, i + x.get('init', '')
    def storage(self, x):
        return ('_Alignas(%d) ' % (x['a'][0][2] // 8) if x.get('alignas') else '') + self.storage_(x)
    def storage_(self, x):
        if x['k'] == 'typedef': return 'typedef '
        if x['k'] == 'var': return ''.join({'static': 'static ', 'thread': '_Thread_local ', 'extern': 'extern '}[f] for f in sorted(x['f'], key=['static', 'extern', 'thread'].index))
        return ''
    def function(self, x, tagtext=None):
        f = x['f']
        if x.get('via'): return '%s%s%s %s;\n' % ('static ' if 'static' in f else '', self.names[x['via']] + ' ', x['n'], attr_text(x))
        head = x.get('ext', '') + ('static ' if 'static' in f else '') + ('inline ' if 'inline' in f else '') + ('_Noreturn ' if 'noreturn' in f and not x.get('nrattr') else '')
        a = attr_text(x)
        if x.get('nrattr'): a += ' __attribute__((noreturn))'
        if x.get('kr'):
            sig = self.decl(x['t'], '%s(%s)' % (x['n'], ', '.join(n for n, t in x['ps'])), tagtext)
            return '%s %s%s %s %s\n' % (a, head, sig, ' '.join(self.decl(t, n) + ';' for n, t in x['ps']), x['body'])
        sig = self.decl(x['t'], '%s(%s)' % (x['n'], ', '.join([self.decl(t, n) for n, t in x['ps']] + ['...'] * x.get('va', 0)) or x.get('empty', 'void')), tagtext)
        if x.get('body') is not None: return '%s %s%s %s\n' % (a, head, sig, x['body'])
        return '%s%s %s;\n' % (head, sig, a)
    def items(self, items, members=False):
        out, i = '', 0
        while i < len(items):
            x = items[i]; i += 1
            if x.get('noise') is not None: out += '\n%s\n' % x['noise']
            if x['k'] in ('struct', 'union', 'enum'):
                if x.get('implicit'): continue
                body = self.tag(x)
                n = x.get('inl', 0)
                if n:
                    grp = items[i:i + n]; i += n
                    if grp[0]['k'] == 'func': out += self.function(grp[0], body); continue
                    ds = [self.declarator(y, body) for y in grp]
                    st = self.storage(grp[0])
                    out += st + body + ' ' + ', '.join(d for _, d in ds) + ';\n'
                else: out += body + ';\n'
            elif x['k'] == 'func': out += self.function(x)
            else:
                grp = [x] + items[i:i + x.get('more', 0)]; i += x.get('more', 0)
                ds = [self.declarator(y) for y in grp]
                out += '%s%s %s;\n' % (self.storage(x), ds[0][0], ', '.join(d for _, d in ds))
        return out
def text(prog): return Text().items(prog)

class Gen:
    STEMS = ['a', 'b', 'x', 'len', 'buf', 'node', 'next', 'val', 'flags', 'point', 'state_machine_transition_table', 'T', 'Z9', '_u', 'tmp']
    def __init__(self, R, mode='full'):
        self.R, self.mode = R, mode
        self.k = 0; self.uid = 100
        self.tags = []          # dict(uid, kind, name, complete)
        self.tds = []           # dict(uid, name, t, complete, kind)
        self.funcs = []; self.vars = []
    def name(self): self.k += 1; return self.R.choice(self.STEMS) + ('_' if self.R.random() < .5 else '') + str(self.k)
    def newuid(self): self.uid += 1; return self.uid
    def tagtype(self, g): return ['r', g['uid'], g['kind'], g['name']]
    # ---- types.  want: 'object' complete, 'pointee' anything
    def scalar(self): return list(self.R.choice(EXOTIC if self.mode != 'layout' and self.R.random() < .06 else SCALARS))
    def object(self, depth, arrays=True):
        R = self.R; q = R.random()
        if depth <= 0 or q < .32: return self.scalar()
        if q < .48:
            c = [g for g in self.tags if g['complete']]
            if c: return self.tagtype(R.choice(c))
            return self.scalar()
        if q < .6:
            c = [d for d in self.tds if d['complete'] and (arrays or d['kind'] != 'array')]
            if c: return ['t', R.choice(c)['uid']]
            return self.scalar()
        if q < .8: return self.pointer(depth)
        if q < .9 and arrays: return ['a', R.choice([1, 1, 2, 3, 4, 7, 16, 255, 256, 1000]), self.object(depth - 1), 0]
        return self.qualified(depth)
    def kind_of(self, t):
        while t[0] in ('t', 'q'):
            t = next(d['t'] for d in self.tds if d['uid'] == t[1]) if t[0] == 't' else t[2]
        return {'a': 'array', 'ia': 'array', 'va': 'array', 'p': 'pointer', 'fn': 'fn'}.get(t[0], 'plain')
    def hasq(self, t):
        while t[0] == 't': t = next(d['t'] for d in self.tds if d['uid'] == t[1])
        return t[0] == 'q'
    def fnptr(self, t):
        while t[0] in ('t', 'q'): t = next(d['t'] for d in self.tds if d['uid'] == t[1]) if t[0] == 't' else t[2]
        return t[0] == 'p' and self.kind_of(t[1]) == 'fn'
    def qualified(self, depth):
        R = self.R; t = self.object(depth - 1, arrays=False)
        if t[0] == 'q' or self.hasq(t): return t
        b = R.choice([CONST, CONST, VOLATILE, CONST | VOLATILE])
        if self.kind_of(t) == 'pointer' and not self.fnptr(t) and t[0] == 'p' and R.random() < .5: b = R.choice([RESTRICT, RESTRICT | CONST, RESTRICT | VOLATILE | CONST])
        return ['q', b, t]
    def pointer(self, depth):
        R = self.R; q = R.random()
        if q < .02: return ['p', ['a', R.choice([65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 3, 1 << 33, (1 << 40) - 1, 1 << 40]), self.scalar(), 0]]
        if q < .12: return ['p', list(VOID)]
        if q < .17: return ['p', ['q', R.choice([CONST, VOLATILE]), list(VOID)]]
        if q < .3: return ['p', self.fn()]
        if q < .55 and self.tags: return ['p', self.tagtype(R.choice(self.tags))]
        if q < .65 and self.tds: return ['p', ['t', R.choice(self.tds)['uid']]]
        return ['p', self.object(depth - 1)]
    def fn(self): return ['fn', self.R.choice(['int', 'void', 'char *', 'const double *']), self.R.choice(['void', 'int', 'int, char *', 'const void *p, unsigned n', 'void (*cb)(int)', 'const char *, ...'])]
    # ---- attributes
    def attrs(self, x, names, p):
        R = self.R
        if self.mode == 'layout' or R.random() > p: return x
        x['a'] = []
        for n in R.sample(names, min(len(names), R.choice([1, 1, 2, 3]))):
            if n == 'aligned': x['a'].append(['aligned', 'bits', 128, 'bare'] if R.random() < .15 else ['aligned', 'bits', 8 * R.choice([1, 2, 4, 8, 16, 32, 64] if x['k'] == 'field' else [8, 16, 32, 64, 4096])])
            elif n == 'annotate': x['a'].append(['annotate', 'text', R.choice(['note', 'a b c', 'x=1', 'k:v;w', 'long ' * 30])])
            elif n == 'deprecated': x['a'].append([n, 'none', '']); x['dep'] = R.choice(['deprecated', 'deprecated', 'deprecated("old")'])
            else: x['a'].append([n, 'none', ''])
        if R.random() < .3: x['sep'] = 1
        return x
    def foreign(self, x, raws, p=.15):
        if self.mode == 'full' and self.R.random() < p: x['xa'] = [[self.R.randint(0, 2), self.R.choice(raws)]]
        return x
    # ---- tags
    def enum(self, inside=False, unnamed=False):
        R = self.R; u = self.newuid(); n = '' if unnamed else self.name(); m = []; v = R.choice([0, 0, 0, 1, -1, -128, 100, 1 << 31])
        style = R.random(); lo = v; out = []
        for _ in range(R.choice([1, 2, 3, 5])):
            c = {'k': 'const', 'n': self.name().upper() + 'C', 'a': []}
            if out and R.random() < .4 and v + 1 < (1 << 63): v = v + 1; c['txt'] = ''
            else:
                v = R.choice([v + 1, v + 5, -3, 127, 128, 255, 256, 65535, 32768, -32768, -32769, 0, 7, 2 ** 31 - 1] if style < .7 else [2 ** 31, 2 ** 32 - 1, 2 ** 32, -2 ** 31, 2 ** 40, 2 ** 63 - 1, -2 ** 63 + 1, -2 ** 40, 3])
                if style > .95: v = R.choice([2 ** 63, 2 ** 64 - 1, 5])
            if not -2 ** 63 <= v < 2 ** 64 or (v >= 2 ** 63 and any(o < 0 for o in out)) or (v < 0 and any(o >= 2 ** 63 for o in out)): v = 9; c.pop('txt', None)
            out.append(v); c['v'] = list((v & (2 ** 64 - 1)).to_bytes(8, 'little')); c['neg'] = 1 if v < 0 else 0
            self.attrs(c, ['deprecated', 'annotate'], .06); m.append(c)
        # an implicit value follows the one before
        for a, b in zip(m, m[1:]):
            if b.get('txt') == '':
                va = int.from_bytes(bytes(a['v']), 'little'); vb = int.from_bytes(bytes(b['v']), 'little')
                if (va + 1) % 2 ** 64 != vb: b.pop('txt')
        if m[0].get('txt') == '': m[0].pop('txt')
        x = {'k': 'enum', 'no': u, 'uid': u, 'n': n, 'def': 1, 'm': m, 'a': [], 'inl': 0, 'comma': R.choice(['', ','])}
        self.attrs(x, ['packed', 'deprecated', 'annotate'], .15)
        if self.mode != 'layout' and R.random() < .12:
            w, c, s = R.choice(FIXED); vs = [int.from_bytes(bytes(k['v']), 'little') - (1 << 64) * k['neg'] for k in m]
            if all((0 if c != 's' else -(1 << (w - 1))) <= v < (1 << (w - (c == 's') if c != 'b' else 1)) for v in vs): x['ut'] = [w, c]; x['uttxt'] = s
        self.tags.append(dict(uid=u, kind='enum', name=n, complete=True, unnamed=unnamed, wide=not x['a'] and 'ut' not in x))
        if unnamed: self.tags.pop()
        return x
    def forward(self, kind=None, name=None):
        R = self.R; u = self.newuid(); k = kind or R.choice(['struct', 'struct', 'union']); n = self.name()
        g = dict(uid=u, kind=k, name=n, complete=False); self.tags.append(g)
        return {'k': k, 'no': u, 'uid': u, 'n': n, 'def': 0, 'm': [], 'a': [], 'inl': 0}
    def record(self, depth, name=None, g=None):
        """a struct or union; g: the declaration it completes"""
        R = self.R
        kind = g['kind'] if g else R.choice(['struct', 'struct', 'union']); u = g['uid'] if g else self.newuid()
        unnamed = name == ''
        if g is None: g = dict(uid=u, kind=kind, name='' if unnamed else self.name(), complete=False); (None if unnamed else self.tags.append(g))
        x = {'k': kind, 'no': self.newuid(), 'uid': u, 'n': g['name'], 'def': 1, 'm': [], 'a': [], 'inl': 0}
        n = R.choice([1, 1, 2, 3, 4, 6]) if self.mode == 'layout' or R.random() < .95 else 0
        while n > 0:
            n -= 1
            x['m'] += self.members(depth, R.random())
        if self.mode == 'full' or self.mode == 'types':
            if kind == 'struct' and R.random() < .08 and any(m['k'] == 'field' and m['n'] for m in x['m']): x['m'].append({'k': 'field', 'n': self.name(), 't': ['ia', self.scalar()], 'w': -1, 'a': []}); g['flex'] = True
        elif kind == 'struct' and R.random() < .05 and any(m['k'] == 'field' and m['n'] for m in x['m']): x['m'].append({'k': 'field', 'n': self.name(), 't': ['ia', self.scalar()], 'w': -1, 'a': []}); g['flex'] = True
        self.attrs(x, ['packed', 'aligned', 'unused', 'deprecated', 'annotate'], .12)
        self.foreign(x, ['visibility("default")', 'may_alias'])
        g['complete'] = not g.get('flex'); g['attrs'] = bool(x['a'])
        return x
    def field(self, depth, t=None):
        R = self.R
        f = {'k': 'field', 'n': self.name(), 't': t or self.object(depth), 'w': -1, 'a': []}
        ok = ['aligned', 'unused', 'deprecated', 'annotate']
        if f['t'][0] == 'i' and f['t'][1] > 8: ok.append('packed')
        if self.mode != 'layout' and f['t'][0] == 'i' and R.random() < .03: f['t'] = ['a', 0, f['t'], 0]
        if self.mode != 'layout' and R.random() < .02: f['noise'] = R.choice(['_Static_assert(1, "member");', '#define INSIDE', ';'])
        self.attrs(f, ok, .08)
        if len(f['a']) == 1 and f['a'][0][0] == 'aligned' and len(f['a'][0]) == 3 and R.random() < .5: f['alignas'] = 1; f['a'][0][2] = max(f['a'][0][2], 512)
        return f
    def members(self, depth, q):
        R = self.R
        if q < .1 and depth > 0:           # unnamed member
            keep = list(self.tags), list(self.tds)
            x = self.record(depth - 1, '') ; x['a'] = []; x.pop('xa', None)
            if x['m'] and not any(m['k'] == 'field' and m['t'][0] == 'ia' for m in x['m']):
                x['inl'] = 1; return [x, {'k': 'field', 'n': '', 't': ['r', x['uid'], x['k'], ''], 'w': -1, 'a': []}]
            self.tags, self.tds = keep
            return [self.field(depth)]
        if q < .22 and depth > 0:          # definition with members of that type
            un = R.random() < .5; x = self.enum(unnamed=un) if R.random() < .33 else self.record(depth - 1, *([''] if un else []))
            return self.declare_inline(x, 'field', depth)
        if q < .27 and depth > 0:          # definition alone; a tag of its own
            return [self.enum()] if R.random() < .7 or self.mode == 'layout' else [self.record(depth - 1)]
        if q < .32 and self.mode != 'layout':          # first mention of a tag
            u = self.newuid(); k = R.choice(['struct', 'union']); n = self.name(); g = dict(uid=u, kind=k, name=n, complete=False); self.tags.append(g)
            return [{'k': k, 'no': u, 'uid': u, 'n': n, 'def': 0, 'm': [], 'a': [], 'inl': 0, 'implicit': 1}, {'k': 'field', 'n': self.name(), 't': ['p', self.tagtype(g)], 'w': -1, 'a': []}]
        if q < .42 and self.mode != 'layout':          # bit-fields
            out = []
            for _ in range(R.choice([1, 2, 3])):
                t = R.choice([x for x in SCALARS if x[2] in 'us' and x[1] <= 64] + [['i', 1, 'b', '_Bool']]); top = t[1]
                named = [d for d in self.tds if d['complete'] and d['t'][0] == 'i' and d['t'][2] in 'us' and d['t'][1] <= 64 and '_Atomic' not in d['t'][3]]; es = [g for g in self.tags if g['kind'] == 'enum' and g['complete'] and g.get('wide')]
                if named and R.random() < .15: d = R.choice(named); t = ['t', d['uid']]; top = d['t'][1]
                elif es and R.random() < .15: t = self.tagtype(R.choice(es)); top = 32
                nm = R.random() > .2; w = R.randint(1, top)
                if not nm and R.random() < .5: w = 0
                f = {'k': 'field', 'n': self.name() if nm else '', 't': list(t), 'w': w, 'a': []}
                out.append(self.attrs(f, ['unused', 'deprecated', 'annotate'], .05) if nm else f)
            return out
        if q < .5:                         # several declarators
            t = self.scalar() if R.random() < .6 or not self.tags else ['p', self.tagtype(R.choice(self.tags))]
            return self.several('field', t)
        return [self.field(depth)]
    def several(self, kind, t):
        R = self.R; base = t[1] if t[0] == 'p' else t
        shapes = [lambda: base if self.kind_of(base) == 'plain' and base[0] == 'i' else ['p', base], lambda: ['p', base], lambda: ['a', R.randint(1, 9), ['p', base], 0], lambda: ['p', ['p', base]], lambda: ['q', CONST, ['p', base]]]
        out = []
        for _ in range(R.randint(2, 3)): out.append({'k': kind, 'n': self.name(), 't': R.choice(shapes)(), 'a': []})
        for x in out:
            if kind == 'field': x['w'] = -1
        out[0]['more'] = len(out) - 1
        return out
    def declare_inline(self, x, kind, depth):
        R = self.R; t = ['r', x['uid'], x['k'], x['n']]; whole = x['k'] == 'enum' or (x['m'] and not any(m['k'] == 'field' and m['t'][0] == 'ia' for m in x['m']) and True)
        g = [g for g in self.tags if g['uid'] == x['uid']]
        if g and not g[0]['complete']: whole = False
        shapes = [lambda: t] * (3 if whole else 0) + [lambda: ['p', t], lambda: ['a', R.randint(1, 5), ['p', t], 0]] + ([lambda: ['a', R.randint(1, 5), t, 0]] if whole else [])
        out = []
        for _ in range(R.choice([1, 1, 2, 3])): out.append({'k': kind, 'n': self.name(), 't': R.choice(shapes)(), 'a': []})
        for y in out:
            if kind == 'field': y['w'] = -1
            if kind == 'var': y['f'] = out[0].get('f', self.store()); 
            if kind == 'typedef': y['uid'] = self.newuid()
        if kind == 'var':
            for y in out: y['f'] = out[0]['f']
        x['inl'] = len(out)
        if kind == 'typedef':
            for y in out: y['sized'] = self.note_typedef(y, x['k'] == 'enum' or bool(whole))
        return [x] + out
    def note_typedef(self, y, complete):
        self.tds.append(dict(uid=y['uid'], name=y['n'], t=y['t'], complete=complete or self.kind_of(y['t']) == 'pointer', kind=self.kind_of(y['t'])))
        return self.tds[-1]['complete']
    def store(self): return self.R.choice([[], [], ['static'], ['extern'], ['thread'], ['static', 'thread'], ['extern', 'thread']])
    # ---- top level
    def typedef(self):
        R = self.R; q = R.random(); u = self.newuid()
        if q < .12: t, c = self.fn(), False
        elif q < .3 and self.tags: g = R.choice(self.tags); t, c = self.tagtype(g), g['complete']
        else: t = self.object(3); c = True
        y = {'k': 'typedef', 'uid': u, 'n': self.name(), 't': t, 'a': []}
        if self.kind_of(t) == 'fn': c = False
        self.attrs(y, ['unused', 'deprecated', 'annotate'] + (['aligned'] if q >= .3 and self.kind_of(t) == 'plain' and t[0] == 'i' and False else []), .08)
        self.tds.append(dict(uid=u, name=y['n'], t=t, complete=c, kind=self.kind_of(t))); y['sized'] = c
        return [y]
    def var(self):
        R = self.R
        if R.random() < .2:
            l = self.several('var', self.scalar()); f = self.store()
            for x in l: x['f'] = f
            return l
        f = self.store(); ext = 'extern' in f
        t = self.object(3)
        if ext and R.random() < .3: t = ['ia', self.object(1)]
        x = {'k': 'var', 'n': self.name(), 't': t, 'f': f, 'a': []}
        if t[0] == 'i' and not ext and t[2] != 'c' and R.random() < .4: x['init'] = ' = %d' % R.choice([0, 1])
        if x.get('init') is None or True: self.attrs(x, ['unused', 'deprecated', 'annotate'] + (['aligned'] if not self.is_void(t) else []) + ([] if ext else ['used']), .2)
        if x['a'] and 'init' in x: x.pop('init')
        if x['t'][0] == 'a' and x['t'][1] > 0 and not ext and not x['a'] and self.flat(x['t'][2]) is not None and R.random() < .5: x['open'] = 1; x['init'] = ' = { [%d] = %s }' % (x['t'][1] - 1, '{0}' if self.flat(x['t'][2]) else '{}')
        if len(x['a']) == 1 and x['a'][0][0] == 'aligned' and len(x['a'][0]) == 3 and R.random() < .5: x['alignas'] = 1; x['a'][0][2] = max(x['a'][0][2], 4096)
        if x.get('open') or x.get('alignas'): return [x]
        self.foreign(x, ['section(".data.x")', 'visibility("hidden")'] if 'thread' not in f and 'static' not in f else ['nocommon'])
        if x.get('xa') and 'init' in x: x.pop('init')
        if not x['a'] and not x.get('xa') and f == [] and t == ['i', 32, 's', 'int']: self.vars.append(x['n'])
        if R.random() < .1 and not x['a'] and not x.get('xa') and 'init' not in x and f in ([], ['extern']): return [x, dict(x, f=['extern'])]
        return [x]
    def flat(self, t):
        while t[0] in ('t', 'q'): t = next(d['t'] for d in self.tds if d['uid'] == t[1]) if t[0] == 't' else t[2]
        return None if t[0] == 'i' and '_Atomic' in t[3] else t[0] in ('i', 'p') or t[0] == 'r' and t[2] == 'enum'
    def is_void(self, t): return t[0] == 'i' and t[2] == 'v'
    def param(self, named, earlier):
        R = self.R; q = R.random(); n = self.name() if named or R.random() < .7 else ''
        ints = [e for e in earlier if e[0] and e[1] == ['i', 32, 's', 'int']]
        if q < .15: t = ['a', R.randint(1, 99), self.object(2), R.choice([0, 0, 1])]
        elif q < .25: t = ['ia', self.object(2)]
        elif q < .4 and ints: t = ['va', self.object(1) if R.random() < .6 else ['va', self.scalar(), 0, R.choice(ints)[0]], R.choice([0, 0, 1]), R.choice(ints)[0]]
        elif q < .45 and not named: t = ['va', self.object(1), 0]
        elif q < .6: t = ['i', 32, 's', 'int']
        else: t = self.object(3)
        return [n, t]
    def func(self):
        R = self.R; f = [x for x, p in (('static', .3), ('inline', .25), ('noreturn', .15)) if R.random() < p]
        body = None
        if R.random() < .4 or 'inline' in f or 'static' in f:
            body = R.choice(['{ for (;;); }', '{ struct hidden { int z; } h; static int s; enum inner { INNER%d } e; for (;;); }' % self.newuid(), '{ extern int other%d; for (;;) { typedef int loc; loc k; (void)k; } }' % self.newuid(),
                             '{ int proto%d(int a, int b); for (int i = 0; ; i++); }' % self.newuid()])
        t = self.object(2, arrays=False)
        if R.random() < .3 or 'noreturn' in f: t = list(VOID)
        ps = []
        for _ in range(R.choice([0, 1, 2, 2, 3, 5])): ps.append(self.param(body is not None, ps))
        x = {'k': 'func', 'n': self.name(), 't': t, 'ps': ps, 'f': f, 'a': [], 'empty': R.choice(['void', 'void', ''])}
        if ps and R.random() < .15: x['va'] = 1
        if body is not None: x['body'] = body
        if 'noreturn' in f and R.random() < .4: x['nrattr'] = 1
        ok = ['always_inline', 'deprecated', 'unused', 'annotate', 'aligned']
        if not self.is_void(t): ok += ['warn_unused_result'] + (['pure'] if 'noreturn' not in f else [])
        if body is not None: ok.append('used')
        if body is None or True: self.attrs(x, ok, .3)
        self.foreign(x, ['cold', 'hot', 'nothrow', 'visibility("default")'])
        if any(a[0] == 'always_inline' for a in x['a']): x.pop('xa', None)
        if body is not None and 'static' not in f and 'inline' not in f and not ps and x['empty'] == 'void' and self.is_void(t) and not x['a'] and not x.get('xa') and not f: self.funcs.append(x['n'])
        if body is not None and ps and not x.get('va') and all(n and self.plain_param(t) for n, t in ps) and R.random() < .3: x['kr'] = 1
        if 'static' not in f and R.random() < .15: x['ext'] = 'extern '
        if not x['a'] and not x.get('xa') and body is None and R.random() < .15: return [x, dict(x)]
        if R.random() < .06:               # the type returned is defined in place
            keep = list(self.tags), list(self.tds); d = self.enum() if R.random() < .4 else self.record(1)
            if d['k'] != 'enum' and not d['m']: self.tags, self.tds = keep
            if d['k'] == 'enum' or d['m']: d['inl'] = 1; x['t'] = ['r', d['uid'], d['k'], d['n']]; x['a'] = []; x.pop('xa', 0); x.pop('nrattr', 0); x['f'] = [y for y in x['f'] if y != 'noreturn']; return [d, x]
        return [x]
    def plain_param(self, t): return t[0] in ('i', 'p', 'r', 't')
    def via_typedef(self):
        """a function declared with the name of a function type"""
        R = self.R; I = ['i', 32, 's', 'int']; C = ['i', 8, 's', 'char']
        txt, ps = R.choice([('void', []), ('int', [['', I]]), ('int, char *', [['', I], ['', ['p', C]]]), ('const char *, double', [['', ['p', ['q', CONST, C]]], ['', ['i', 64, 'f', 'double']]])])
        ret, t = R.choice([('int', I), ('void', VOID), ('char *', ['p', C])]); u = self.newuid()
        y = {'k': 'typedef', 'uid': u, 'n': self.name(), 't': ['fn', ret, txt], 'a': []}
        self.tds.append(dict(uid=u, name=y['n'], t=y['t'], complete=False, kind='fn'))
        return [y] + [{'k': 'func', 'n': self.name(), 't': t, 'ps': ps, 'f': R.choice([[], [], ['static']]), 'a': [], 'via': u} for _ in range(R.choice([1, 2]))]
    def alias(self):
        R = self.R
        if self.funcs and R.random() < .6: return [{'k': 'func', 'n': self.name(), 't': list(VOID), 'ps': [], 'f': [], 'a': [['alias', 'text', R.choice(self.funcs)]], 'empty': 'void'}]
        if self.vars: return [{'k': 'var', 'n': self.name(), 't': ['i', 32, 's', 'int'], 'f': ['extern'], 'a': [['alias', 'text', R.choice(self.vars)]]}]
        return self.var()
    def top(self):
        R = self.R; q = R.random(); m = self.mode
        fn = .0 if m in ('types', 'layout') else .45
        if R.random() < fn: return R.choice([self.func, self.func, self.func, self.var, self.var, self.var, self.alias, self.via_typedef] if self.mode == 'full' else [self.func, self.func, self.var, self.var, self.alias])()
        if q < .08: return [self.forward()]
        if q < .1 and m != 'layout':
            u = self.newuid(); n = self.name(); return [{'k': 'enum', 'no': u, 'uid': u, 'n': n, 'def': 0, 'm': [], 'a': [], 'inl': 0}]
        if q < .2:
            inc = [g for g in self.tags if not g['complete'] and not g.get('flex') and g['kind'] != 'enum']
            if inc: return [self.record(2, g=R.choice(inc))]
        if q < .24 and self.tags:          # declared once more
            g = R.choice([g for g in self.tags if g['kind'] != 'enum' and not g.get('attrs')] or [None])
            if g: return [{'k': g['kind'], 'no': self.newuid(), 'uid': g['uid'], 'n': g['name'], 'def': 0, 'm': [], 'a': [], 'inl': 0}]
        if q < .5: return [self.record(2)]
        if q < .58: return [self.enum()] if R.random() < .7 else [self.enum(unnamed=True)]
        if q < .78:
            x = self.enum(unnamed=R.random() < .5) if R.random() < .3 else self.record(2, *([''] if R.random() < .7 else []))
            return self.declare_inline(x, 'typedef' if R.random() < .75 or m == 'layout' else 'var', 2)
        return self.typedef()
    def program(self, n):
        prog = []
        for _ in range(n):
            t = self.top()
            if t and self.mode != 'layout' and self.R.random() < .08: t[0]['noise'] = self.R.choice(NOISE)
            prog += t
        return prog
KEEP = {'ut', 'k', 'no', 'uid', 'n', 'def', 'm', 'a', 't', 'w', 'v', 'neg', 'f', 'ps'}
def strip(prog):
    """what the specification reads"""
    return [{k: (strip(v) if k == 'm' else bounds(v) if k == 't' else [[octets(n), bounds(t)] for n, t in v] if k == 'ps' else octets(v) if k == 'n' else [[octets(y) if isinstance(y, str) else y for y in a] for a in v] if k == 'a' else v) for k, v in x.items() if k in KEEP} for x in prog]
def octets(n): return n.encode().decode('latin1')          # a name is octets
def bounds(t):
    """bounds beyond the specification's integers as octets"""
    if t[0] == 'a' and t[1] >= 1 << 31: return ['A', list(t[1].to_bytes(8, 'little')), bounds(t[2])]
    if t[0] == 'r': return t[:3] + [octets(t[3])]
    return [bounds(y) if isinstance(y, list) and y and isinstance(y[0], str) else y for y in t]
# ---- programs at the extremes of what a program can hold ----
ODD = ['été', '$', '$x$1', '_', '__', 'Ω_größe', '日本', 'a' * 255, 'b' * 256, 'c' * 257, 'd' * 1000, 'e' * 70000, '\u00fc' * 128]
class Far(Gen):
    """few declarations, each far out along one dimension"""
    def long(self): return self.name() + self.R.choice('xyz_') * self.R.choice([200, 243, 250, 252, 253, 254, 255, 256, 257, 260, 500, 511, 512, 513, 1000, 1023, 1025, 4096])
    def fresh(self, n): self.k += 1; return n + str(self.k)
    def f(self, n, t, w=-1): return {'k': 'field', 'n': n, 't': t, 'w': w, 'a': []}
    def rec(self, kind, n, m): u = self.newuid(); return {'k': kind, 'no': u, 'uid': u, 'n': n, 'def': 1, 'm': m, 'a': [], 'inl': 0}
    def ref(self, x): return ['r', x['uid'], x['k'], x['n']]
    def var_(self, t, f=()): return {'k': 'var', 'n': self.name(), 't': t, 'f': list(f), 'a': []}
    def tdef(self, n, t): return {'k': 'typedef', 'uid': self.newuid(), 'n': n, 't': t, 'a': [], 'sized': True}
    def fun(self, n, t, ps): return {'k': 'func', 'n': n, 't': t, 'ps': ps, 'f': [], 'a': [], 'empty': 'void'}
    def rename(self, x, n):
        x['n'] = n
        for g in self.tags:
            if g['uid'] == x['uid']: g['name'] = n
    def deep(self, n):
        """declarations within each other: unnamed members, unnamed with a name for the member, named; something before and after each"""
        R = self.R; m = [self.f(self.name(), self.scalar())]; kinds = R.choice([[0], [1], [2], [0, 1, 2]])
        for d in range(n):
            k = R.choice(kinds); x = self.rec(R.choice(['struct', 'union']), self.name() if k == 2 or d == n - 1 else '', m)
            if d == n - 1: return [x]
            x['inl'] = 1; y = self.f('' if k == 0 else self.name(), self.ref(x) if k == 0 or R.random() < .7 else R.choice([['p', self.ref(x)], ['a', 2, self.ref(x), 0]]))
            e = []
            if R.random() < .3: e = [self.enum(unnamed=R.random() < .5)]
            m = ([self.f(self.name(), self.scalar())] if R.random() < .6 else []) + e + [x, y] + ([self.f(self.name(), self.scalar())] if R.random() < .6 else [])
    def longs(self):
        R = self.R; a = self.rec('struct', self.long(), [self.f(self.long(), self.scalar()), self.f(self.long(), ['i', 32, 'u', 'unsigned'], 5)])
        e = self.enum(); self.rename(e, self.long()); e['m'][0]['n'] = self.long()
        t = self.tdef(self.long(), R.choice([self.ref(a), ['p', self.ref(a)], ['a', 3, ['p', ['q', CONST, self.ref(a)]], 0]]))
        h = self.forward(name=None); self.rename(h, self.long())
        g = ['r', h['uid'], h['k'], h['n']]
        return [a, e, t, h, self.fun(self.long(), ['p', self.ref(a)], [[self.long(), ['p', g]], [self.long(), ['t', t['uid']] if t['t'][0] != 'a' else ['i', 32, 's', 'int']], ['', ['a', 4, ['p', self.ref(a)], 0]]]),
                dict(self.var_(['a', 2, ['a', 3, ['p', ['p', g]], 0], 0]), n=self.long()), self.var_(['q', CONST | VOLATILE, ['t', t['uid']] if t['t'][0] != 'a' else self.ref(a)], ['extern']), self.var_(['p', self.ref(e)])]
    def wide(self):
        R = self.R; q = R.randrange(5)
        if q == 0: return [self.rec(R.choice(['struct', 'union']), self.name(), [self.f(self.name(), self.scalar()) for _ in range(R.choice([65, 129, 300]))])]
        if q == 1:
            u = self.newuid(); m = [{'k': 'const', 'n': self.name().upper() + 'W', 'a': [], 'v': list(v.to_bytes(8, 'little')), 'neg': 0} for v in range(R.choice([65, 257, 300]))]
            for c in m[1:]: c['txt'] = ''
            return [{'k': 'enum', 'no': u, 'uid': u, 'n': self.name(), 'def': 1, 'm': m, 'a': [], 'inl': 0}]
        if q == 2: return [self.fun(self.name(), self.scalar(), [[self.name(), self.object(1)] for _ in range(R.choice([15, 16, 17, 31, 32, 33, 64, 127]))])]
        if q == 3:
            t = self.scalar(); l = [self.var_(R.choice([t, ['p', t], ['a', 2, t, 0]])) for _ in range(R.choice([20, 40]))]
            for x in l[1:]: x['f'] = l[0]['f']
            l[0]['more'] = len(l) - 1; return l
        return [self.rec('struct', self.name(), [self.f(self.name() if R.random() < .8 else '', ['i', 64, 'u', 'unsigned long'], R.randint(1, 64)) for _ in range(70)])]
    def tall(self):
        R = self.R; t = self.scalar(); q = R.randrange(4); out = []
        if q == 0:
            for _ in range(R.choice([8, 12, 20, 40])): t = ['p', t]
        elif q == 1:
            for _ in range(R.choice([6, 8, 12])): t = ['a', R.choice([1, 2, 3]), t, 0]
        elif q == 2:
            for _ in range(R.choice([5, 9])):
                t = ['p', t]
                if R.random() < .8: t = ['q', R.choice([CONST, VOLATILE, RESTRICT, CONST | VOLATILE, CONST | RESTRICT, VOLATILE | RESTRICT, CONST | VOLATILE | RESTRICT]), t]
                if R.random() < .3: t = ['p', ['a', 2, t, 0]]
        else:
            for _ in range(R.choice([9, 17, 33])): d = self.tdef(self.name(), t); out.append(d); t = R.choice([['t', d['uid']], ['t', d['uid']], ['p', ['t', d['uid']]], ['a', 1, ['t', d['uid']], 0]])
        return out + [R.choice([lambda: self.rec('struct', self.name(), [self.f(self.name(), t)]), lambda: self.tdef(self.name(), t), lambda: self.var_(t, ['extern']), lambda: self.fun(self.name(), VOID, [[self.name(), t]])])()]
    def cvr(self):
        out = [self.var_(['q', b, ['i', 32, 's', 'int']], ['extern']) for b in (CONST, VOLATILE, CONST | VOLATILE)]
        return out + [self.var_(['q', b << 10, ['p', self.scalar()]], ['extern']) for b in range(1, 8)] + [self.fun(self.name(), VOID, [[self.name(), ['q', b << 10, ['p', ['q', CONST, ['i', 8, 's', 'char']]]]] for b in range(1, 8)])]
    def noted(self):
        R = self.R; texts = ['', '"', '\\', 'a\nb', 'tab\there', ';', '{};"\\', 'é', '日本', '%s%n', "'", 'x' * 254, 'x' * 255, 'x' * 256, 'x' * 5000, 'k=' + 'v' * 300]
        def on(x):
            x['a'] = [['annotate', 'text', R.choice(texts)] for _ in range(R.choice([1, 1, 2, 8, 20]))]; return x
        e = self.enum(); e['a'] = []
        return [on(self.rec('struct', self.name(), [on(self.f(self.name(), self.scalar())), on(self.f(self.name(), ['p', self.scalar()]))])), on(self.var_(self.scalar())), on(self.fun(self.name(), VOID, [])), on(e)]
    def aligned(self):
        R = self.R; al = lambda x: dict(x, a=[['aligned', 'bits', 8 << R.choice([7, 10, 13, 14, 15, 16, 20, 24, 27])]])
        return [al(self.rec('struct', self.name(), [self.f(self.name(), ['i', 32, 's', 'int'])])), self.rec('struct', self.name(), [al(self.f(self.name(), ['i', 32, 's', 'int']))]), al(self.var_(['i', 32, 's', 'int'])), al(self.fun(self.name(), VOID, [])),
                dict(al(self.var_(['i', 8, 's', 'char'])), alignas=1)]
    def used(self):
        R = self.R
        return [dict(self.var_(R.choice([['i', 32, 's', 'int'], ['a', 3, ['i', 8, 's', 'char'], 0]]), R.choice([[], ['static']])), a=[[n, 'none', ''] for n in R.sample(['used', 'unused', 'deprecated'], R.randint(1, 3))]),
                dict(self.fun(self.name(), VOID, []), body='{ for (;;); }', f=R.choice([[], ['static']]), a=[[n, 'none', ''] for n in R.sample(['used', 'unused', 'deprecated', 'always_inline'], R.randint(1, 4))])]
    def odd(self):
        R = self.R; pool = R.sample(ODD, 8); a = self.rec('struct', pool[0], [self.f(pool[1], self.scalar())]); e = self.enum(); self.rename(e, pool[2]); e['m'][0]['n'] = pool[3]
        return [a, e, self.tdef(pool[4], self.ref(a)), self.fun(pool[5], ['p', self.ref(a)], [[pool[6], self.scalar()]]), dict(self.var_(['a', 2, self.ref(e), 0]), n=pool[7])]
    def fixed(self):
        """enums whose type is written"""
        R = self.R; out = []
        for w, c, s in R.sample(FIXED, 5):
            top = 1 if c == 'b' else (1 << (w - (c == 's'))) - 1; lo = -(1 << (w - 1)) if c == 's' else 0
            vs = R.sample(sorted({0, 1, top, lo, top // 2}), 2); u = self.newuid(); n = self.name()
            m = [{'k': 'const', 'n': self.name().upper() + 'F', 'a': [], 'v': list((v & M64).to_bytes(8, 'little')), 'neg': int(v < 0)} for v in vs]
            x = {'k': 'enum', 'no': u, 'uid': u, 'n': n, 'def': 1, 'm': m, 'a': [], 'inl': 0, 'ut': [w, c], 'uttxt': s}
            if R.random() < .4: out.append({**x, 'no': self.newuid(), 'def': 0, 'm': []})
            if R.random() < .3 and c != 'b' and 'const' not in s: d = self.tdef(self.name(), ['i', w, c, s]); out.append(d); x['uttd'] = d['uid']
            out.append(x)
            if R.random() < .5: out.append(self.rec('struct', self.name(), [self.f(self.name(), self.ref(x)), self.f(self.name(), self.ref(x), R.randint(1, 1 if c == 'b' else w))]))
        return out
    WAYS = ['deep', 'longs', 'wide', 'tall', 'cvr', 'noted', 'aligned', 'used', 'odd', 'fixed']
    def far(self, way): return self.deep(self.R.choice([4, 7, 8, 9, 10, 16, 20, 40])) if way == 'deep' else getattr(self, way)()
M64 = (1 << 64) - 1
def extremes(R, ways, times, mode='full'):
    out = []
    for w in ways:
        for _ in range(times): g = Far(R, mode); p = g.far(w); out.append(p + g.program(R.choice([0, 2])))
    return out
