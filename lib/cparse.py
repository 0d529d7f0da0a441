"""Reads preprocessed C declarations into the items of lib/cgen.py / specs/Reflect.tla, independently of clang.  Values of
constant expressions are left to gcc (see resolve).  Raises Unsupported on what it does not know."""
import re, subprocess, os
class Unsupported(Exception): pass
TOK = re.compile(r'\s+|(?P<id>[A-Za-z_$][\w$]*)|(?P<num>\.?\d(?:[eEpP][+-]|[\w.])*)|(?P<str>(?:L|u8|u|U)?"(?:\\.|[^"\\])*")|(?P<chr>(?:L|u|U)?\'(?:\\.|[^\'\\])*\')|(?P<p>\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^~!<>=?:;,.(){}\[\]])')
CONST, VOLATILE, RESTRICT = 1 << 10, 1 << 11, 1 << 12
QUAL = {'const': CONST, '__const': CONST, '__const__': CONST, 'volatile': VOLATILE, '__volatile': VOLATILE, '__volatile__': VOLATILE, 'restrict': RESTRICT, '__restrict': RESTRICT, '__restrict__': RESTRICT}
BASE = {'void', 'char', 'short', 'int', 'long', 'signed', 'unsigned', 'float', 'double', '_Bool', '_Complex', '__int128', '__signed__', '__signed', '__complex__', '_Float128', '__float128'}
STORE = {'typedef', 'extern', 'static', '_Thread_local', '__thread', 'register', 'auto'}
INLINE = {'inline', '__inline', '__inline__'}
NORETURN = {'longjmp', '_longjmp', 'siglongjmp', 'abort', 'exit', '_exit', '_Exit'}      # what clang knows of library functions
PURE = set('nan nanf nanl isalnum isalpha isblank iscntrl isdigit isgraph islower isprint ispunct isspace isupper isxdigit tolower toupper'.split())
NOISE = {'__extension__'}
def tokens(src):
    src = re.sub(r'^\s*#.*$', '', src, flags=re.M); out = []; i = 0
    while i < len(src):
        m = TOK.match(src, i)
        if not m: raise Unsupported('character %r' % src[i])
        i = m.end()
        if m.lastgroup: out.append((m.lastgroup, m.group()))
    return out
def scalar(words):
    w = sorted(words); c = w.count
    w = [{'__signed__': 'signed', '__signed': 'signed', '__complex__': '_Complex', '__float128': '_Float128'}.get(x, x) for x in w]; c = w.count
    cx = '_Complex' in w
    if 'void' in w: return ['i', 0, 'v', 'void']
    if '_Bool' in w: return ['i', 1, 'b', '_Bool']
    if '_Float128' in w: t = (128, 'f')
    elif 'float' in w: t = (32, 'f')
    elif 'double' in w: t = (128 if 'long' in w else 64, 'f')
    else:
        if cx and len(w) > 1: raise Unsupported('integer complex')
        s = 'u' if 'unsigned' in w else 's'
        t = (128 if '__int128' in w else 8 if 'char' in w else 16 if 'short' in w else 64 if 'long' in w else 32, s)
        if cx: t = (64, 'f')
    if cx: t = (2 * t[0], 'c')
    return ['i', t[0], t[1], '']
class Parser:
    def __init__(self, src):
        self.t = tokens(src); self.i = 0; self.k = 100
        self.tds = {'__int128_t': dict(uid=1, t=['i', 128, 's', '']), '__uint128_t': dict(uid=2, t=['i', 128, 'u', ''])}; self.tags = {}; self.exprs = []      # expressions for gcc: text
        self.scope = [set()]                                 # parameter names in sight
        self.consts = []
    # ---- token helpers
    def peek(self, n=0): return self.t[self.i + n][1] if self.i + n < len(self.t) else ''
    def kind(self, n=0): return self.t[self.i + n][0] if self.i + n < len(self.t) else ''
    def next(self): x = self.peek(); self.i += 1; return x
    def want(self, x):
        if self.next() != x: raise Unsupported('%s expected at %s' % (x, ' '.join(y for _, y in self.t[max(0, self.i - 12):self.i + 4])))
    def uid(self): self.k += 1; return self.k
    def group(self, o, c):
        self.want(o); d = 1; b = self.i
        while d:
            x = self.next()
            if not x and self.i > len(self.t): raise Unsupported('end within a group')
            d += (x == o) - (x == c)
        return ' '.join(y for _, y in self.t[b:self.i - 1])
    def noise(self):
        while True:
            if self.peek() in NOISE: self.next()
            elif self.peek() in ('__asm__', 'asm', '__asm') : self.next(); self.group('(', ')')
            elif self.peek() in ('__attribute__', '__attribute'): raise Unsupported('attribute')
            else: return
    def expr(self, text): self.exprs.append(text); return ('expr', len(self.exprs) - 1)
    # ---- declaration specifiers: storage set, base type, items of tags mentioned or defined
    def specifiers(self, place):
        st, words, q, base, items = set(), [], 0, None, []
        while True:
            self.noise(); x = self.peek()
            if x in STORE: st.add(self.next())
            elif x in INLINE: self.next(); st.add('inline')
            elif x == '_Noreturn': self.next(); st.add('noreturn')
            elif x in QUAL: q |= QUAL[self.next()]
            elif x in BASE: words.append(self.next())
            elif x in ('struct', 'union', 'enum') and base is None: base = self.tag(place, items)
            elif x in ('_Atomic', '_Alignas', '__typeof__', 'typeof', '__typeof', '_Alignof', '__auto_type'): raise Unsupported(x)
            elif x == '__builtin_va_list' and base is None and not words: self.next(); base = ['any']
            elif self.kind() == 'id' and base is None and not words and x in self.tds: self.next(); d = self.tds[x]; base = ['t', d['uid']] if d['uid'] > 100 else d['t']
            else: break
        if base is None:
            if not words: raise Unsupported('no type at ' + ' '.join(y for _, y in self.t[max(0, self.i - 8):self.i + 6]))
            base = scalar(words)
        if q: base = self.qual(q, base)
        return st, base, items
    def qual(self, q, t):
        if t[0] == 'q': return ['q', q | t[1], t[2]]
        u = t
        while u[0] == 't':
            u = self.byuid(u[1])['t']
            if u[0] == 'q' or u[0] in ('a', 'ia'): raise Unsupported('qualified typedef of a qualified type or array')
        return ['q', q, t]
    def byuid(self, u): return next(d for d in self.tds.values() if d['uid'] == u)
    def tag(self, place, items):
        kind = self.next(); self.noise()
        name = self.next() if self.kind() == 'id' else ''
        self.noise()
        g = self.tags.get((name,)) if name else None
        if g and g['kind'] != kind: raise Unsupported('tag of another kind')
        if self.peek() == '{':
            if place == 'param': raise Unsupported('tag defined among parameters')
            if g is None: g = dict(uid=self.uid(), kind=kind, name=name)
            if name: self.tags[(name,)] = g
            x = {'k': kind, 'no': self.uid(), 'uid': g['uid'], 'n': name, 'def': 1, 'm': [], 'a': [], 'inl': 0}
            items.append(x); self.next()
            if kind == 'enum':
                g['done'] = True; last = None; off = 0
                while self.peek() != '}':
                    n = self.next(); self.noise()
                    if self.peek() == '=':
                        b = self.i + 1; d = 0
                        while not (d == 0 and self.peek() in (',', '}')): d += (self.peek() in ('(', '{')) - (self.peek() in (')', '}')); self.next()
                    self.consts.append((n,)); c = {'k': 'const', 'n': n, 'a': []}; x['m'].append(c); self.exprs.append(n); c['e'] = len(self.exprs) - 1
                    if self.peek() == ',': self.next()
            else:
                while self.peek() != '}': x['m'] += self.members()
            self.want('}')
        elif g is None:
            if place == 'param' or not name: raise Unsupported('tag first mentioned among parameters')
            if kind == 'enum': raise Unsupported('enum mentioned before its definition')
            g = self.tags[(name,)] = dict(uid=self.uid(), kind=kind, name=name)
            items.append({'k': kind, 'no': self.uid(), 'uid': g['uid'], 'n': name, 'def': 0, 'm': [], 'a': [], 'inl': 0, 'implicit': 1})
        return ['r', g['uid'], kind, name]
    def members(self):
        self.noise()
        if self.peek() == ';': self.next(); return []
        if self.peek() == '_Static_assert': self.next(); self.group('(', ')'); self.want(';'); return []
        st, base, items = self.specifiers('field')
        if self.peek() == ';':
            self.next()
            if items and items[-1]['k'] in ('struct', 'union') and items[-1]['def'] and not items[-1]['n']:
                items[-1]['inl'] = 1; return items + [{'k': 'field', 'n': '', 't': base, 'w': -1, 'a': []}]
            for x in items: x.pop('implicit', 0)
            return items
        out = []
        while True:
            n, t = ('', base) if self.peek() == ':' else self.declarator(base)
            w = -1; self.noise()
            if self.peek() == ':':
                self.next(); b = self.i; d = 0
                while not (d == 0 and self.peek() in (',', ';')): d += (self.peek() == '(') - (self.peek() == ')'); self.next()
                w = self.expr(' '.join(y for _, y in self.t[b:self.i]))
            out.append({'k': 'field', 'n': n, 't': t, 'w': w, 'a': []}); self.noise()
            if self.next() == ',': continue
            break
        if items and items[-1]['def']: items[-1]['inl'] = len(out)
        return items + out
    # ---- declarators: name and type; the parameters of the function declared are left in self.ps
    def declarator(self, base, abstract=False):
        self.ps = None
        name, wrap = self.decl0(abstract)
        return name, wrap(base)
    def decl0(self, abstract):
        self.noise()
        if self.peek() == '*':
            self.next(); q = 0
            while self.peek() in QUAL or self.peek() in NOISE:
                x = self.next(); q |= QUAL.get(x, 0)
            n, f = self.decl0(abstract)
            return n, lambda t: f(['q', q, ['p', t]] if q else ['p', t])
        name = ''; inner = lambda t: t; direct = True
        if self.peek() == '(' and not (abstract and (self.peek(1) == ')' or self.starts_type(1))):
            self.next(); name, inner = self.decl0(abstract); self.want(')'); direct = False
        elif self.kind() == 'id' and self.peek() not in ('__asm__', 'asm'): name = self.next()
        elif not abstract and self.peek() not in ('[', '('): raise Unsupported('declarator at ' + ' '.join(y for _, y in self.t[max(0, self.i - 8):self.i + 6]))
        suf = []
        while True:
            self.noise()
            if self.peek() == '[':
                self.next(); st = 0; pq = 0
                while self.peek() in QUAL or self.peek() == 'static':
                    if self.peek() == 'static': st = 1
                    else: pq = 1
                    self.next()
                b = self.i; d = 0
                while not (d == 0 and self.peek() == ']'): d += (self.peek() in '([') - (self.peek() in ')]'); self.next()
                e = self.t[b:self.i]; self.next()
                if not e: suf.append(lambda t: ['ia', t])
                elif len(e) == 1 and e[0][1] == '*' or any(k == 'id' and any(x in s for s in self.scope) for k, x in e): suf.append(lambda t, st=st: ['va', t, st])
                else: r = self.expr(' '.join(x for _, x in e)); suf.append(lambda t, st=st, r=r: ['a', r, t, st])
            elif self.peek() == '(':
                ps = self.params()
                if direct and not suf: self.ps = ps
                suf.append(lambda t: ['fn'] if True else t)
                if len(suf) == 1 and direct: self.ret = None; suf[0] = lambda t: (setattr(self, 'ret', t), ['fn'])[1]
            else: break
        def wrap(t):
            for f in reversed(suf): t = f(t)
            return inner(t)
        return name, wrap
    def starts_type(self, n=0):
        x = self.peek(n)
        return x in QUAL or x in BASE or x in STORE or x in ('struct', 'union', 'enum', '__builtin_va_list', '__extension__', 'register') or (self.kind(n) == 'id' and x in self.tds)
    def params(self):
        self.want('('); out = []; va = 0
        if self.peek() == ')': self.next(); return [], 0
        if self.peek() == 'void' and self.peek(1) == ')': self.next(); self.next(); return [], 0
        self.scope.append(set())
        while True:
            if self.peek() == '...': self.next(); va = 1; self.want(')'); break
            if not self.starts_type(): raise Unsupported('parameter at ' + ' '.join(y for _, y in self.t[max(0, self.i - 8):self.i + 6]))
            st, base, items = self.specifiers('param')
            n, t = self.declarator(base, True); self.noise()
            if n: self.scope[-1].add(n)
            out.append([n, t])
            if self.next() == ')': break
        self.scope.pop()
        return out, va
    # ---- top level
    def program(self):
        prog = []
        while self.i < len(self.t):
            self.noise()
            if self.peek() == ';': self.next(); continue
            if self.i >= len(self.t): break
            if self.peek() == '_Static_assert': self.next(); self.group('(', ')'); self.want(';'); continue
            prog += self.external()
        return prog
    def external(self):
        st, base, items = self.specifiers('file')
        if self.peek() == ';':
            self.next()
            for x in items: x.pop('implicit', 0)
            if not items and base[0] == 'r':
                g = self.tags[(base[3],)]
                items = [{'k': g['kind'], 'no': self.uid(), 'uid': g['uid'], 'n': g['name'], 'def': 0, 'm': [], 'a': [], 'inl': 0}]
            return items
        out = []
        while True:
            n, t = self.declarator(base); ps = self.ps; ret = getattr(self, 'ret', None); self.noise()
            if 'typedef' in st:
                u = self.tds[n]['uid'] if n in self.tds else self.uid()
                y = {'k': 'typedef', 'uid': u, 'n': n, 't': t, 'a': []}; self.tds[n] = dict(uid=u, t=t)
            elif t == ['fn'] and ps is not None:
                y = {'k': 'func', 'n': n, 't': ret, 'ps': ps[0], 'f': [f for f in ('static', 'inline', 'noreturn') if f in st or f == 'noreturn' and n in NORETURN], 'a': [['pure', 'none', '']] if n in PURE else []}
                if self.peek() == '{':
                    self.group('{', '}'); return items + out + [y]
            else:
                if t[0] == 't' or t == ['fn']:
                    d = t
                    while d[0] == 't': d = self.byuid(d[1])['t']
                    if d == ['fn']: raise Unsupported('function declared through a typedef')
                y = {'k': 'var', 'n': n, 't': t, 'f': [f for f, ws in (('static', {'static'}), ('extern', {'extern'}), ('thread', {'_Thread_local', '__thread'})) if ws & st], 'a': []}
                if self.peek() == '=':
                    if t[0] == 'ia': raise Unsupported('bound from the initialiser')
                    d = 0
                    while not (d == 0 and self.peek() in (',', ';')): d += (self.peek() in ('(', '{', '[')) - (self.peek() in (')', '}', ']')); self.next()
            out.append(y)
            if self.next() == ',': continue
            break
        if items and items[-1]['def']: items[-1]['inl'] = len(out)
        return items + out
def resolve(p, prog, src, cc='gcc'):
    """constant expressions by gcc"""
    vals = []
    if p.exprs:
        main = 'int printf(const char *, ...);\nint main(void) {\n' + ''.join('printf("%%d %%llu\\n", (int)((%s) < 0), (unsigned long long)(%s));\n' % (e, e) for e in p.exprs) + 'return 0; }\n'
        import tempfile
        with tempfile.TemporaryDirectory() as d:
            open(d + '/a.c', 'w').write(re.sub(r'\b_Float(32|64|32x|64x)\b', r'clang_Float\1', src) + '\n' + main)
            r = subprocess.run([cc, '-w', '-O0', '-Wl,--unresolved-symbols=ignore-all', '-o', d + '/a', d + '/a.c'], capture_output=True, text=True)
            if r.returncode: raise Unsupported('gcc: ' + '\n'.join(x for x in r.stderr.split('\n') if 'error' in x)[:300])
            out = subprocess.run([d + '/a'], capture_output=True, text=True).stdout.split('\n')
        vals = [tuple(map(int, l.split())) for l in out if l]
    def fix(x):
        if isinstance(x, tuple) and x and x[0] == 'expr': return vals[x[1]][1]
        if isinstance(x, list): return [fix(y) for y in x]
        if isinstance(x, dict):
            y = {k: fix(v) for k, v in x.items()}
            if 'e' in y: neg, v = vals[y.pop('e')]; y['v'] = list(v.to_bytes(8, 'little')); y['neg'] = neg
            return y
        return x
    prog = fix(prog)
    def big(t):
        if isinstance(t, dict): return {k: big(v) for k, v in t.items()}
        if isinstance(t, list):
            if len(t) == 4 and t[0] == 'a' and isinstance(t[1], int) and t[1] >= 1 << 31: return ['A', list(t[1].to_bytes(8, 'little')), big(t[2])]
            return [big(x) for x in t]
        return t
    return big(prog)
def parse(src): p = Parser(src); return resolve(p, p.program(), src)
