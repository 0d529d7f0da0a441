"""Random databases for the driver: chooses inputs only.  Shapes follow what the plugin produces."""
from gen import *
NONE, INTRINSIC, TYPEDEF, SET, ENUM, STRUCT, UNION, FIELD, ARRAY, POINTER, CONSTANT, FUNCTION, PARAM, QUALIFIER, ATTRIBUTE, VALUE, ARCHIVE, SOURCE, ALIAS = range(19)
FIRST = 23
BITFIELD = 1 << 9; CONST, VOLATILE, RESTRICT = 1 << 10, 1 << 11, 1 << 12
STATIC, EXTERNC, INLINE, NORETURN = 1 << 13, 1 << 14, 1 << 15, 1 << 16
LOCAL, GLOBAL, WEAK, DEFAULT, HIDDEN = 1 << 17, 1 << 18, 1 << 19, 1 << 20, 1 << 21
OUT, VLA = 1 << 23, 1 << 24
class Db:
    def __init__(self, R, names=None, abi=False, first=FIRST):
        self.R, self.nodes, self.first, self.abi = R, [], first, abi
        self.pool = names or ['a', 'b', 'c', 'x', 'y', 'point', 'node', 'size', 'value', 'next', 'very_long_identifier_number_', 'T']
        self.named = []       # named types that may be referred to
        self.root = 0
    def add(self, tag, props=0, name='', next=0, link=0, attr=0, qty=0):
        self.nodes.append([tag, props, name, next, link, attr, qty]); return self.first + len(self.nodes) - 1
    def at(self, i): return self.nodes[i - self.first]
    def nm(self, p=.85):
        R = self.R
        if R.random() > p: return ''
        n = R.choice(self.pool)
        return n + str(R.randint(0, 3)) if R.random() < .4 else n
    def chain(self, ids):
        for a, b in zip(ids, ids[1:]): self.at(a)[3] = b
        return ids[0] if ids else 0
    def scalar(self):
        R = self.R
        return R.choice([2, 5, 6, 7, 8, 9, 10, 11, 12, 12, 10, 15, 16, 17, 18, 13, 14, 20, 21, 19, 22] if self.abi else list(range(1, 23)))
    def attrs(self, p=.12):
        R = self.R
        if R.random() > p: return 0
        ids = []
        for _ in range(R.choice([1, 1, 2, 3])):
            v = self.add(VALUE, qty=R.choice([1, 8, 16, 64, 1 << 40]), name=R.choice(['', 'arg'])) if R.random() < .6 else 0
            a = self.add(ATTRIBUTE, name=R.choice(['packed', 'aligned', 'section', 'weak']))
            self.at(a)[5 if R.random() < .3 else 4] = v          # the plugin links arguments
            ids.append(a)
        return self.chain(ids)
    def type(self, depth, self_id=0):
        """a type reference; records only to finished types, or through a pointer to the enclosing one"""
        R = self.R; q = R.random()
        if depth <= 0 or q < .3: return self.scalar()
        if q < .5 and self.named: return R.choice(self.named)
        if q < .65:
            i = self.add(POINTER, qty=64)
            self.at(i)[4] = self_id if self_id and R.random() < .5 else self.type(depth - 1, self_id if not self.abi else 0)
            return i
        if q < .78: i = self.add(ARRAY, qty=R.choice([0, 1, 2, 3, 5, 7, 8, 16]), props=0 if self.abi else R.choice([0, 0, VLA, STATIC])); self.at(i)[4] = self.type(depth - 1); return i
        if q < .88: i = self.add(QUALIFIER, props=R.choice([CONST, VOLATILE, CONST | VOLATILE, RESTRICT])); self.at(i)[4] = self.type(depth - 1); return i
        return R.choice([self.record, self.enum])(depth - 1)
    def refer(self, i):
        if self.at(i)[2] or self.R.random() < .2: self.named.append(i)
        return i
    def enum(self, depth=0):
        R = self.R; i = self.add(R.choice([ENUM, ENUM, ENUM, SET]), name=self.nm(), qty=R.choice([8, 16, 32, 32, 32, 64]))
        self.at(i)[5] = self.attrs()
        ids = []
        for k in range(R.choice([0, 1, 2, 3, 5])): ids.append(self.add(CONSTANT, name=self.nm(1), link=R.choice([9, 10]), qty=R.choice([k, k, M64, 1 << 31, 1 << 63])))
        self.at(i)[4] = self.chain(ids)
        return self.refer(i)
    def record(self, depth=2, tag=None):
        R = self.R; i = self.add(tag or R.choice([STRUCT, STRUCT, UNION]), name=self.nm())
        self.at(i)[5] = self.attrs(0 if self.abi else .12)
        ids = []
        for _ in range(R.choice([0, 1, 2, 2, 3, 4, 6]) if not self.abi else R.choice([1, 1, 2, 3, 4, 6])):
            if depth > 0 and R.random() < .12: ids.append(R.choice([self.record, self.enum])(depth - 1))   # nested declaration
            f = self.add(FIELD, name=self.nm(.95))
            if not self.abi and R.random() < .1: self.at(f)[1] = BITFIELD; self.at(f)[6] = R.randint(1, 31); self.at(f)[4] = R.choice([9, 10])
            else: self.at(f)[4] = self.type(depth, i)
            self.at(f)[5] = self.attrs(0 if self.abi else .06)
            ids.append(f)
        self.at(i)[4] = self.chain(self.dedup(ids))
        return self.refer(i)
    def dedup(self, ids): return list(dict.fromkeys(ids))
    def typedef(self):
        i = self.add(TYPEDEF, name=self.nm(1)); self.at(i)[4] = self.type(2); return self.refer(i)
    def function(self):
        R = self.R; i = self.add(FUNCTION, name=self.nm(1), props=R.choice([GLOBAL | EXTERNC, LOCAL | STATIC, GLOBAL | INLINE, NORETURN]), qty=R.choice([0, 0, 4096]))
        self.at(i)[5] = self.attrs()
        ids = []
        for k in range(R.randint(1, 4)): p = self.add(PARAM, name='' if k == 0 else self.nm(.8), props=OUT if k == 0 else 0); self.at(p)[4] = self.type(2); ids.append(p)
        self.at(i)[4] = self.chain(ids); return i
    def variable(self):
        R = self.R; i = self.add(FIELD, name=self.nm(1), props=R.choice([GLOBAL, LOCAL | STATIC])); self.at(i)[4] = self.type(2); self.at(i)[5] = self.attrs(); return i
    def field(self, name, link):
        return self.add(FIELD, name=name, link=link)
    def ptr(self, i): return self.add(POINTER, qty=64, link=i)
    def knot(self):
        """recursive declarations as C programs have them; returns the declarations to list, in order"""
        R = self.R; q = R.randrange(5); v = lambda: self.field(R.choice(['v', 'w']), R.choice([9, 11, 16, 9]))
        nm = R.choice(['node', 'list', 'tree']); K = lambda: R.choice([STRUCT, STRUCT, UNION])
        if q == 0:        # typedef struct node node_t; struct node { node_t *next; int v; };
            s = self.add(K(), name=nm); t = self.add(TYPEDEF, name=nm + '_t', link=s)
            self.at(s)[4] = self.chain([self.field('next', self.ptr(t)), v()]); return R.choice([[t, s], [s, t]])
        if q == 1:        # struct a { struct b *b; }; struct b { struct a *a; };
            a, b = self.add(K(), name=nm), self.add(K(), name=nm + 'b')
            fa = [self.field('p', self.ptr(b)), v()]; fb = [self.field('q', self.ptr(a))] + ([v()] if R.random() < .5 else [])
            self.at(a)[4] = self.chain(fa); self.at(b)[4] = self.chain(fb); return R.choice([[a, b], [b, a]])
        if q == 2:        # struct node { int v; union { struct node *p; long i; } u; };
            s = self.add(K(), name=nm); u = self.add(R.choice([UNION, UNION, STRUCT]), name=R.choice(['', '', 'in']))
            m = [self.field('p', self.ptr(s)), self.field('i', 11)]
            if R.random() < .5: m.reverse()
            self.at(u)[4] = self.chain(m)
            self.at(s)[4] = self.chain([v()] + ([u] if R.random() < .5 else []) + [self.field('u', u)]); return [s]
        if q == 3:        # three of them in a ring, one also by value
            ids = [self.add(STRUCT, name=nm + str(k)) for k in range(3)]
            for k in range(3): self.at(ids[k])[4] = self.chain([self.field('n', self.ptr(ids[(k + 1) % 3]))] + ([v()] if R.random() < .4 else []))
            w = self.add(STRUCT, name='wrap'); self.at(w)[4] = self.chain([self.field('m', ids[R.randrange(3)]), v()])
            l = ids + [w]; R.shuffle(l); return l
        s = self.add(K(), name=nm); f = self.add(FUNCTION, name='fn', props=GLOBAL | EXTERNC)   # only reached through a function
        self.at(s)[4] = self.chain([self.field('next', self.ptr(s)), v()])
        p = self.add(PARAM, props=OUT, link=self.ptr(s)); p2 = self.add(PARAM, name='x', link=9); self.at(f)[4] = self.chain([p, p2]); return [f, s]
    AFTER = [None, {}, {2: 'other'}, {4: 11}, {1: VOLATILE}, {6: 3}, {6: 1 << 40}, {0: PARAM}, {5: 1}, {5: 2}]
    def enclosed(self, outer, inner, extra, first=True, name='node'):
        """an unnamed declaration that refers back to the one around it; the two may differ only outside of it"""
        s = self.add(outer, name=name); u = self.add(inner, name='')
        m = [self.field('p', self.ptr(s)), self.field('i', 11)]
        self.at(u)[4] = self.chain(m if first else m[::-1])
        e = []
        if self.AFTER[extra] is not None:       # how what comes after is
            e = [self.field('e', 9)]; w = dict(self.AFTER[extra])
            if 5 in w: w[5] = self.add(ATTRIBUTE, name=['unused', 'packed'][w[5] - 1])
            for k, v in w.items(): self.at(e[0])[k] = v
        self.at(s)[4] = self.chain([u, self.field('u', u)] + e); return [s]
    def deep(self, n, width, leaf=9, tag=STRUCT):
        """n declarations each within the one before, with names of that width"""
        ids = [self.add(tag, name=('n%d_' % k).ljust(width, 'x')) for k in range(n)]
        f = self.field('leaf', leaf)
        for a, b in zip(ids, ids[1:] + [f]): self.at(a)[4] = b
        return ids[:1]
    def lists(self, ids, name='s.c'):
        root = self.add(SOURCE, name=name); self.at(root)[4] = self.chain(ids); self.root = root; return self
    def renumber(self, extra=0, keep=False):
        """the same database with its declarations in another order, after some others nobody refers to"""
        R = self.R; n = len(self.nodes); new = list(range(n + extra)); R.shuffle(new)
        if keep: r = self.root - self.first; k = new.index(0); new[k] = new[r]; new[r] = 0      # the root stays first
        mp = lambda i: self.first + new[i - self.first] if i >= self.first else i
        d = Db(R, self.pool, self.abi, self.first); d.nodes = [[R.randint(1, 18), 0, 'unused', 0, 0, 0, [1][0]] for _ in range(n + extra)]
        for k, x in enumerate(self.nodes): d.nodes[new[k]] = [x[0], x[1], x[2], mp(x[3]), mp(x[4]), mp(x[5]), x[6]]
        d.root = mp(self.root); return d
    def mutate(self):
        """change one entry of one declaration"""
        R = self.R; d = self.clone(); k = R.randrange(len(d.nodes))
        rare = [i for i, n in enumerate(d.nodes) if n[0] in (VALUE, ATTRIBUTE)]
        if rare and R.random() < .25: k = R.choice(rare)
        n = d.nodes[k]; f = R.choice([0, 1, 1, 2, 2, 6, 6, 4, 3, 5])
        if f == 0:
            pairs = {STRUCT: UNION, UNION: STRUCT, ENUM: SET, SET: ENUM, FIELD: PARAM, PARAM: FIELD, TYPEDEF: QUALIFIER, QUALIFIER: TYPEDEF, POINTER: QUALIFIER, CONSTANT: VALUE}
            n[0] = pairs.get(n[0], n[0])
        elif f == 1: n[1] ^= 1 << R.choice([0, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 24, 31])
        elif f == 2: n[2] = R.choice([n[2] + 'x', n[2][:-1], '', n[2].upper(), n[2][::-1]])
        elif f == 6: n[6] ^= 1 << R.choice([0, 1, 7, 8, 31, 32, 33, 40, 56, 63])
        elif f == 4:
            if n[0] not in (STRUCT, UNION, ENUM, SET, FUNCTION, SOURCE, ARCHIVE): n[4] = R.choice([0, 9, 10, 11, 12]) if n[0] != ATTRIBUTE else 0
            elif n[4] >= d.first: n[4] = d.at(n[4])[3]          # drop the first member
        elif f == 3:
            if n[3] >= d.first: n[3] = d.at(n[3])[3]            # drop the next one
        elif n[5]: n[5] = d.at(n[5])[3]                          # drop the first attribute
        return d
    def source(self, n, name=None, knots=0):
        R = self.R; root = self.add(SOURCE, name=name if name is not None else self.nm(1) + '.c'); ids = []
        for _ in range(n): ids.append(R.choice([self.record, self.record, self.enum, self.typedef, self.function, self.variable])())
        for _ in range(knots): p = R.randint(0, len(ids)); ids[p:p] = self.knot()
        self.at(root)[4] = self.chain(self.dedup(ids)); self.root = root
        return root
    def script(self, slot):
        return 'build %d %d %d ' % (slot, self.root, len(self.nodes)) + ' '.join('%d %d %s %d %d %d %d' % (n[0], n[1], hx(n[2].encode('latin1')), *n[3:]) for n in self.nodes)
    def clone(self):
        d = Db(self.R, self.pool, self.abi, self.first); d.nodes = [list(n) for n in self.nodes]; d.named = list(self.named); d.root = self.root; return d
