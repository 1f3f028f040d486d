"""The bit-word traits and the hashing of keys: a word is a set of bit positions, kept as a union of classes of positions
(below, at and above the lowest bit of the argument; in or not in the receiver), each class with a symbolic size."""
from dom import Lin, ZERO, const, atom, ONE
from ir import short
from state import St, Infeasible, Undecided
from engine import U, TRUE, FALSE, UNIT
from sem import norm_path
from api import Api
from calls import OPTION, RESULT

WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64,
         'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64}
LOG = {8: 3, 16: 4, 32: 5, 64: 6, 128: 7}
BINOPS = {'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor', 'shl': 'Shl', 'shr': 'Shr', 'sub': 'Sub', 'add': 'Add', 'mul': 'Mul',
          'div': 'Div', 'rem': 'Rem', 'eq': 'Eq', 'ne': 'Ne', 'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}
ASSIGN = {'bitand_assign': 'BitAnd', 'bitor_assign': 'BitOr', 'bitxor_assign': 'BitXor', 'shl_assign': 'Shl', 'shr_assign': 'Shr'}
WORD_TRAITS = ('AsUsize', 'BitContains', 'BitIndex', 'BitInsert', 'BitMerge', 'BitRemove', 'CountOnes', 'LogB', 'MaskLogB', 'MaxOnes', 'NthBit')


class Split(Exception):
    """a word meets this constant: the classes have to be told apart inside and outside of it (a cut at c is the constant 2^c - 1)"""

    def __init__(self, at):
        self.at = at


class Words(Api):
    def __init__(self, cr, contracts, shapes, prop='C18'):
        super().__init__(cr, contracts, shapes)
        self.prop = prop
        self.reset()

    def reset(self):
        self.rank, self.card, self.half = {}, {}, {}
        self.width = None
        self.splits = None
        self.counts = set()

    # ---- classes ------------------------------------------------------------------------------------------
    def classes(self, width, order, cards, splits=None, low=None):
        """order: class names from the lowest position up (classes mixed among each other share a rank: a tuple)"""
        self.width = width
        self.splits = splits
        self.rank, self.card, self.half = {}, {}, {}
        for r, g in enumerate(order):
            for c in (g if isinstance(g, tuple) else (g,)):
                k = cards.get(c)
                parts = [(c, None)]
                if splits:
                    side = low.get(c) if low else None
                    parts = [(c + '.lo', 0), (c + '.hi', 1)] if side is None else [(c + ('.lo' if side == 0 else '.hi'), side)]
                for i, (n, h) in enumerate(parts):
                    self.rank[n] = r
                    self.half[n] = h
                    if k is None or len(parts) == 2:
                        a = atom('cls', n)
                        self.nn.add(('cls', n))
                        self.counts.add(('cls', n))
                        self.card[n] = a
                    else:
                        self.card[n] = k

    def atomc(self, n, plus=0):
        self.nn.add(('cls', n))
        self.counts.add(('cls', n))
        return atom('cls', n) + const(plus)

    def word(self, *names):
        return ('W', self.width, frozenset(c for c in self.card if c.split('.')[0] in names))

    def size(self, cs):
        t = ZERO
        for c in cs:
            t = t + self.card[c]
        return t

    def total(self):
        return self.size(self.card)

    # ---- decisions ------------------------------------------------------------------------------------------
    def sign(self, st, l):
        """'+' surely positive, '0+' non-negative, '-' / '0-', or None"""
        forms = [st.norm(l)]
        if self.width:
            t = self.total() - const(self.width)
            forms += [st.norm(l + t), st.norm(l - t), st.norm(l + t.scale(2)), st.norm(l - t.scale(2))]
        best = None
        for f in forms:
            k = f.d.get(ONE, 0)
            rest = [(a, v) for a, v in f.d.items() if a != ONE]
            if any(a not in self.nn and a[0] != '#' for a, v in rest):
                continue
            if all(v > 0 for a, v in rest) and k >= 0:
                if k > 0:
                    return '+'
                best = '0+' if best is None else best
            if all(v < 0 for a, v in rest) and k <= 0:
                if k < 0:
                    return '-'
                best = '0-' if best is None else best
        return best

    def decide(self, st, c):
        if not isinstance(c, bool) and c[0] == 'lt':
            s = self.sign(st, c[2] - c[1])
            if s == '+':
                return True
            if s in ('-', '0-') or st.norm(c[2] - c[1]).is_zero():
                return False
        if not isinstance(c, bool) and c[0] == 'ieq':
            if self.sign(st, c[1]) in ('+', '-'):
                return False
        return super().decide(st, c)

    def assume(self, st, c, val):
        if self.decide(st, c) is None and not isinstance(c, bool) and c[0] == 'lt':
            d = c[2] - c[1]
            s = self.sign(st, d)
            if not val and s == '0+':
                st.eqi(d)
                return st
        return super().assume(st, c, val)

    def overflow(self, st, cond):
        return cond

    # ---- arithmetic ------------------------------------------------------------------------------------------
    def as_word(self, st, v, w):
        v = self.res(st, v)
        if v[0] == 'W':
            if v[1] != w:
                raise Undecided('word widths')
            return v[2]
        if v[0] == 'I':
            n = st.norm(v[1])
            if n.is_zero():
                return frozenset()
            k = n.const()
            if k is not None and w == self.width and 0 <= k < 1 << w:
                full = (1 << w) - 1
                if k == full:
                    return frozenset(self.card)
                if self.splits not in (k, full ^ k):
                    raise Split(k)
                return frozenset(c for c in self.card if self.half[c] == (0 if self.splits == k else 1))
        raise Undecided('word expected')

    def lowest(self, st, cs):
        """(class of the single lowest position, classes below it) or None"""
        cs = [c for c in cs if not st.norm(self.card[c]).is_zero()]
        if not cs:
            return None
        r = min(self.rank[c] for c in cs)
        g = [c for c in cs if self.rank[c] == r]
        if len(g) == 1 and st.norm(self.card[g[0]]).const() == 1:
            return g[0], frozenset(c for c in self.card if self.rank[c] < r)
        raise Undecided('lowest position')

    def nonempty(self, st, cs):
        s = self.sign(st, self.size(cs))
        if s == '+':
            return True
        if st.norm(self.size(cs)).is_zero():
            return False
        return None

    def minus_one(self, st, cs, w):
        """[(state, word, wrapped?)]"""
        out = []
        for s, e in self.fork(st, ('B', ('ieq', self.size(cs)))):
            if e:
                out.append((s, ('W', w, frozenset(self.card)), True))
            else:
                l, below = self.lowest(s, cs)
                out.append((s, ('W', w, (frozenset(cs) - {l}) | below), False))
        return out

    def neg(self, st, cs, w):
        out = []
        for s, e in self.fork(st, ('B', ('ieq', self.size(cs)))):
            if e:
                out.append((s, ('W', w, frozenset())))
            else:
                l, below = self.lowest(s, cs)
                out.append((s, ('W', w, (frozenset(self.card) - frozenset(cs) - below) | {l})))
        return out

    def single(self, st, pos, w):
        """the word with the one position `pos`"""
        for c in self.card:
            if st.norm(self.card[c]).const() == 1:
                below = frozenset(x for x in self.card if self.rank[x] < self.rank[c])
                if st.norm(self.size(below) - pos).is_zero():
                    return ('W', w, frozenset((c,)))
        raise Undecided('word with one symbolic position')

    def cast(self, st, v, w, target):
        v = self.res(st, v)
        if v[0] == 'B':
            return [(s, ('I', const(1 if b else 0))) for s, b in self.fork(st, v)]
        tw = WIDTH[target]
        if v[0] == 'W':
            if tw == v[1]:
                return [(st, v)]
            if tw > v[1]:
                return [(st, ('W', tw, v[2]))]
            if self.splits != (1 << tw) - 1:
                raise Split((1 << tw) - 1)
            return [(st, ('W', tw, frozenset(c for c in v[2] if self.half[c] == 0)))]
        if v[0] == 'I':
            n = st.norm(v[1])
            if n.const() is not None:
                return [(st, ('I', const(n.const() % (1 << tw))))]
            if all(a == ONE or a in self.counts for a in n.d):
                return [(st, v)]
            if w is not None and tw >= w:
                return [(st, v)]
            if tw >= self.bound(n):
                return [(st, v)]
            a = ('cast', tw, n)
            self.nn.add(a)
            return [(st, ('I', Lin({a: 1})))]
        raise Undecided('cast of ' + v[0])

    def bound(self, n):
        """how many bits the value surely fits in"""
        if len(n.d) == 1:
            (a, v), = n.d.items()
            if v == 1 and a[0] == 'cast':
                return a[1]
        return 64

    def arith(self, st, op, a, b, w):
        """[(state, value, overflowed condition)]"""
        a, b = self.res(st, a), self.res(st, b)
        if a[0] == 'B' or b[0] == 'B' or 'Q' in (a[0], b[0]):
            return [(s, v, False) for s, v in super().binop(st, op, a, b)]
        if op in ('Shl', 'Shr'):
            n = self.as_int(st, b)
            c = st.norm(n).const()
            if a[0] == 'I' and st.norm(a[1]).const() is not None:
                x = st.norm(a[1]).const()
                if c is not None:
                    over = not 0 <= c < w
                    c %= w
                    return [(st, ('I', const((x << c) % (1 << w) if op == 'Shl' else x >> c)), over)]
                over = ('not', ('lt', n, const(w)))
                if op == 'Shl' and x == 1:
                    if self.decide(st, ('lt', n, const(w))) is True:
                        return [(st, self.single(st, n, w), False)]
                    return [(st, U, over)]
                if op == 'Shl' and x == (1 << w) - 1 and self.decide(st, ('lt', n, const(w))) is True:
                    one, = self.single(st, n, w)[2]
                    return [(st, ('W', w, frozenset(y for y in self.card if self.rank[y] >= self.rank[one])), False)]
            if a[0] == 'W' and c is not None and 0 <= c < w and op == 'Shr':
                if c == 0:
                    return [(st, a, False)]
                if self.splits != (1 << c) - 1:
                    raise Split((1 << c) - 1)
                return [(st, ('W', w - c, frozenset(x for x in a[2] if self.half[x] == 1)), False)]     # all positions moved down: never mixed with others
            if a[0] == 'I' and c is not None:
                over = not 0 <= c < w
                k = ('shift', op, c % w, st.norm(a[1]))
                self.nn.add(k)
                return [(st, ('I', Lin({k: 1})), over)]
            raise Undecided('shift')
        if a[0] == 'W' or b[0] == 'W':
            if op in ('Eq', 'Ne', 'BitAnd', 'BitOr', 'BitXor'):
                x, y = self.as_word(st, a, w), self.as_word(st, b, w)
                if op == 'BitAnd':
                    return [(st, ('W', w, x & y), False)]
                if op == 'BitOr':
                    return [(st, ('W', w, x | y), False)]
                if op == 'BitXor':
                    return [(st, ('W', w, x ^ y), False)]
                c = ('ieq', self.size(x ^ y))
                return [(st, ('B', c if op == 'Eq' else ('not', c)), False)]
            if op in ('Sub', 'Add') and b[0] == 'I' and st.norm(b[1]).const() == 0:
                return [(st, a, False)]
            if op == 'Sub' and b[0] == 'I' and st.norm(b[1]).const() == 1:
                return self.minus_one(st, a[2], w)
            if op == 'Sub' and b[0] == 'W' and a[0] == 'W' and not st.norm(self.size(b[2] - a[2])).d:
                return [(st, ('W', w, a[2] - b[2]), False)]
            if op == 'Add' and b[0] == 'W' and a[0] == 'W' and not st.norm(self.size(b[2] & a[2])).d:
                return [(st, ('W', w, a[2] | b[2]), False)]
            if op in ('Lt', 'Gt', 'Le', 'Ge'):
                k = b if a[0] == 'W' else a
                if k[0] == 'I':
                    n = st.norm(k[1]).const()
                    cs = a[2] if a[0] == 'W' else b[2]
                    o = op if a[0] == 'W' else {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}[op]
                    z = ('ieq', self.size(cs))
                    if n == 0 and o in ('Gt', 'Le') or n == 1 and o in ('Ge', 'Lt'):
                        return [(st, ('B', z if o in ('Le', 'Lt') else ('not', z)), False)]
            raise Undecided('%s of words' % op)
        x, y = st.norm(self.as_int(st, a)), st.norm(self.as_int(st, b))
        cx, cy = x.const(), y.const()
        if cx is not None and cy is not None and op in ('Add', 'Sub', 'Mul', 'BitAnd', 'BitOr', 'BitXor', 'Div', 'Rem'):
            if op in ('Div', 'Rem') and cy == 0:
                raise Undecided('division by zero')
            z = {'Add': cx + cy, 'Sub': cx - cy, 'Mul': cx * cy, 'BitAnd': cx & cy, 'BitOr': cx | cy, 'BitXor': cx ^ cy,
                 'Div': cx // cy if cy else 0, 'Rem': cx % cy if cy else 0}[op]
            return [(st, ('I', const(z % (1 << w))), not 0 <= z < (1 << w))]
        if op == 'Sub':
            return [(st, ('I', x - y), ('lt', x, y))]
        if op in ('Add', 'Mul'):
            v, = super().binop(st, op, a, b)
            if all(t == ONE or t in self.counts for q in (x, y) for t in q.d):
                return [(st, v[1], False)]
            return [(st, v[1], ('over', op, x, y))]
        if op in ('BitAnd', 'BitOr', 'BitXor', 'Rem', 'Div'):
            k = ('word', op, x, y)
            self.nn.add(k)
            return [(st, ('I', Lin({k: 1})), False)]
        return [(s, v, False) for s, v in super().binop(st, op, a, b)]

    def optype(self, fr, *os):
        for o in os:
            if o[0] in ('copy', 'move'):
                t = self.place_ty(fr, o[1])
            else:
                t = self.cr.ty(o[1]['c'], fr.sub)
            if t[0] == 'int':
                return WIDTH.get(t[1])
            if t[0] == 'bool':
                return 1
        return None

    def rvalue(self, st, fr, r, destty):
        if r[0] == 'bin':
            op = r[1]
            base = op.replace('WithOverflow', '').replace('Unchecked', '')
            w = self.optype(fr, r[2]) if base in ('Shl', 'Shr') else self.optype(fr, r[2], r[3])
            if w is None:
                return super().rvalue(st, fr, r, destty)
            out = []
            for s, v, over in self.arith(st, base, self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), w):
                if op.endswith('WithOverflow'):
                    v = ('T', (v, ('B', over)))
                out.append((s, v))
            return out
        if r[0] == 'cast' and r[1] in ('IntToInt', 'FloatToInt', 'IntToFloat'):
            t = self.cr.ty(r[3], fr.sub)
            if t[0] == 'int':
                return self.cast(st, self.operand(st, fr, r[2]), self.optype(fr, r[2]), t[1])
        if r[0] == 'un' and r[1] == 'Not':
            v = self.res(st, self.operand(st, fr, r[2]))
            if v[0] != 'B':
                return [(st, self.complement(st, v, self.optype(fr, r[2])))]
        return super().rvalue(st, fr, r, destty)

    def complement(self, st, v, w):
        if v[0] == 'W':
            return ('W', w, frozenset(self.card) - v[2])
        n = st.norm(self.as_int(st, v)).const()
        if n is None:
            raise Undecided('complement')
        return ('I', const(((1 << w) - 1) ^ n))

    def promoted(self, st, fr, c):
        t = self.cr.ty(c['c'], fr.sub)
        if t[0] == 'ref' and t[2][0] == 'int' and c.get('v') is not None:
            return self.newcell(st, ('I', const(int(c['v']))))
        ps = fr.b.get('promoted') or []
        i = c['prom']
        if isinstance(i, int) and i < len(ps):
            fr2 = self.promoted_value(st, ps[i], fr)
            if fr2 is not None:
                return fr2
        return super().promoted(st, fr, c)

    def promoted_value(self, st, p, fr):
        """&constant"""
        vals = {}
        for bl in p['blocks']:
            for s in bl['s']:
                if s[0] != '=' or s[1][1]:
                    return None
                r = s[2]
                if r[0] == 'use' and r[1][0] == 'const' and 'v' in r[1][1]:
                    vals[s[1][0]] = ('I', const(int(r[1][1]['v'])))
                elif r[0] == 'ref' and not r[2][1] and r[2][0] in vals:
                    vals[s[1][0]] = self.newcell(st, vals[r[2][0]])
                else:
                    return None
        return vals.get(0)

    def assertion(self, fr, t, st):
        out = []
        for s, val in self.fork(st, self.operand(st, fr, t[1])):
            if val == bool(t[2]):
                self.oblige(self.prop, True)
                out.append((t[4], s))
            else:
                self.panic(s, 'panics: ' + str(t[3]))
        return out

    def panic(self, st, why):
        self.oblige(self.prop, False)
        self.report((self.prop, 'C14') if self.prop != 'C14' else ('C14',), 'reachable-panic', why)

    # ---- calls ------------------------------------------------------------------------------------------------
    def inttype(self, c, i=None):
        """width of the integer an inherent integer method belongs to"""
        if c.get('inh') is not None:
            t = self.cr.ty(c['inh'])
            if t[0] == 'int':
                return WIDTH.get(t[1])
        return None

    def call(self, st, fr, c, args, dest, diverges):
        tr, name, r = c.get('trait'), c.get('name'), c.get('r')
        if r in self.cr.bodies:
            b = self.cr.bodies[r]
            return self.run_body(r, self.callee_sub(fr, c, b), args, st)
        if tr:
            fa = [self.cr.ty(x, fr.sub) for x in c.get('fa') or []]
            t0 = fa[0] if fa else None
            while t0 is not None and t0[0] == 'ref':
                t0 = t0[2]
            isw = t0 is not None and t0[0] == 'int'
            if isw and name in BINOPS and len(args) == 2:
                w = WIDTH[t0[1]]
                a, b = self.deref_all(st, args[0]), self.deref_all(st, args[1])
                out = []
                for s, v, over in self.arith(st, BINOPS[name], a, b, w):
                    for s2, o in self.fork(s, ('B', over)):
                        if o:
                            self.panic(s2, 'panics: overflow in ' + name)
                        else:
                            out.append((s2, v))
                return out
            if isw and name in ASSIGN:
                w = WIDTH[t0[1]]
                p = self.res(st, args[0])
                (s, v, over), = self.arith(st, ASSIGN[name], self.deref_all(st, args[0]), self.deref_all(st, args[1]), w)
                self.put(s, p[1], p[2], v)
                return [(s, UNIT)]
            if isw and name == 'not':
                return [(st, self.complement(st, self.deref_all(st, args[0]), WIDTH[t0[1]]))]
            if isw and name == 'clone':
                return [(st, self.deref_all(st, args[0]))]
            if isw and name == 'default':
                return [(st, ('I', ZERO))]
            if short(tr) in ('Into', 'From') and len(args) == 1:
                v = self.deref_all(st, args[0])
                if v[0] in ('I', 'W'):
                    d = self.place_ty(fr, dest)
                    if v[0] == 'W' and d[0] == 'int':
                        return self.cast(st, v, v[1], d[1])
                    return [(st, v)]
            if short(tr) in ('TryInto', 'TryFrom') and len(args) == 1:
                return self.try_into(st, args[0], self.place_ty(fr, dest))
            if short(tr) == 'Default' and t0 is not None and t0[0] == 'param':
                return [(st, ('HS', ()))]
            if short(tr) == 'Hash' and name == 'hash':
                return self.feed(st, args[1], ('key', self.ident(st, args[0])))
            if short(tr) == 'Hasher':
                if name == 'finish':
                    h = self.deref_all(st, args[0])
                    if h[0] != 'HS':
                        raise Undecided('hasher')
                    a = ('hash', h[1])
                    self.nn.add(a)
                    return [(st, ('I', Lin({a: 1})))]
                if name.startswith('write'):
                    v = self.deref_all(st, args[1])
                    if v[0] == 'I':
                        return self.feed(st, args[0], (name, v[1]))
        else:
            w = self.inttype(c)
            if w is not None:
                v = self.intmethod(st, w, name, args, dest, fr)
                if v is not None:
                    return v
            f = norm_path(r or c['fn'])
            if f.startswith('core::mem') and name in ('size_of', 'size_of_val'):
                t = self.cr.ty((c.get('ra') or c.get('fa'))[0], fr.sub)
                if t[0] == 'int':
                    return [(st, ('I', const(WIDTH[t[1]] // 8)))]
        return super().call(st, fr, c, args, dest, diverges)

    def feed(self, st, h, what):
        p = self.res(st, h)
        v = self.deref_all(st, h)
        while p[0] == 'P' and self.res(st, self.get(st, p[1], p[2]))[0] == 'P':
            p = self.res(st, self.get(st, p[1], p[2]))
        if v[0] != 'HS' or p[0] != 'P':
            raise Undecided('hasher')
        self.put(st, p[1], p[2], ('HS', v[1] + (what,)))
        return [(st, UNIT)]

    def try_into(self, st, v, d):
        v = self.deref_all(st, v)
        if d[0] != 'adt' or short(d[1]) != 'Result' or d[2][0][0] != 'int':
            raise Undecided('conversion')
        w = WIDTH[d[2][0][1]]
        if v[0] == 'W':
            if v[1] <= w:
                return [(st, self.result(True, ('W', w, v[2])))]
            if self.splits != (1 << w) - 1:
                raise Split((1 << w) - 1)
            hi = frozenset(c for c in v[2] if self.half[c] == 1)
            return [(s, self.result(e, ('W', w, v[2] - hi) if e else U)) for s, e in self.fork(st, ('B', ('ieq', self.size(hi))))]
        n = st.norm(self.as_int(st, v))
        if n.const() is not None:
            ok = 0 <= n.const() < (1 << w)
            return [(st, self.result(ok, v if ok else U))]
        if all(a == ONE or a in self.counts for a in n.d) or self.bound(n) <= w:
            return [(st, self.result(True, v))]
        return [(s, self.result(e, v if e else U)) for s, e in self.fork(st, ('B', ('fits', w, n)))]

    def intmethod(self, st, w, name, args, dest, fr):
        a = self.deref_all(st, args[0]) if args else None
        if a is None:
            return None
        if a[0] == 'I' and st.norm(a[1]).const() is not None:
            n = st.norm(a[1]).const()
            k = None
            if name == 'count_ones':
                k = bin(n).count('1')
            elif name == 'count_zeros':
                k = w - bin(n).count('1')
            elif name == 'trailing_zeros':
                k = w if n == 0 else (n & -n).bit_length() - 1
            elif name == 'leading_zeros':
                k = w - n.bit_length()
            elif name == 'is_power_of_two':
                return [(st, TRUE if n and n & (n - 1) == 0 else FALSE)]
            elif name == 'ilog2' and n:
                k = n.bit_length() - 1
            if k is not None:
                return [(st, ('I', const(k)))]
        if a[0] == 'W':
            cs = a[2]
            if name == 'count_ones':
                return [(st, ('I', self.size(cs)))]
            if name == 'count_zeros':
                return [(st, ('I', const(w) - self.size(cs)))]
            if name == 'is_power_of_two':
                return [(st, ('B', ('ieq', self.size(cs) - const(1))))]
            if name in ('trailing_zeros', 'isolate_lowest_one'):
                out = []
                for s, e in self.fork(st, ('B', ('ieq', self.size(cs)))):
                    if e:
                        out.append((s, ('I', const(w if name == 'trailing_zeros' else 0))))
                    else:
                        l, below = self.lowest(s, cs)
                        out.append((s, ('I', self.size(below)) if name == 'trailing_zeros' else ('W', w, frozenset((l,)))))
                return out
            if name in ('leading_zeros', 'ilog2'):
                out = []
                for s, e in self.fork(st, ('B', ('ieq', self.size(cs) - const(1)))):
                    if not e:
                        raise Undecided(name)
                    l, below = self.lowest(s, cs)
                    out.append((s, ('I', self.size(below) if name == 'ilog2' else const(w - 1) - self.size(below))))
                return out
            if name == 'wrapping_neg':
                return self.neg(st, cs, w)
        base = {'add': 'Add', 'sub': 'Sub', 'shl': 'Shl', 'shr': 'Shr', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem'}
        for pre in ('wrapping_', 'checked_', 'overflowing_', 'saturating_', 'unchecked_'):
            if name.startswith(pre) and name[len(pre):] in base:
                op = base[name[len(pre):]]
                out = []
                for s, v, over in self.arith(st, op, a, self.deref_all(st, args[1]), w):
                    for s2, o in self.fork(s, ('B', over)):
                        if pre == 'checked_':
                            out.append((s2, self.option(None if o else v)))
                        elif pre == 'overflowing_':
                            out.append((s2, ('T', (v, TRUE if o else FALSE))))
                        elif pre == 'saturating_' and o:
                            if op != 'Sub':
                                raise Undecided(name)
                            out.append((s2, ('I', ZERO)))
                        elif pre == 'wrapping_' and o and op in ('Shl', 'Shr') and v == U:
                            raise Undecided(name)
                        else:
                            out.append((s2, v))
                return out
        if name in ('min', 'max') and len(args) == 2:
            b = self.deref_all(st, args[1])
            out = []
            for s, lt in self.fork(st, ('B', ('lt', self.as_int(st, a), self.as_int(st, b)))):
                out.append((s, a if lt == (name == 'min') else b))
            return out
        if name in ('rotate_left',) and a[0] == 'I' and st.norm(a[1]).const() is not None:
            n, k = st.norm(a[1]).const(), st.norm(self.as_int(st, args[1])).const()
            if k is not None:
                k %= w
                return [(st, ('I', const(((n << k) | (n >> (w - k))) % (1 << w))))]
        return None

    # ---- what is required --------------------------------------------------------------------------------------
    def scenarios(self, w, splits):
        """every way a receiver and an argument can be related, as (name, self word, bit word, position facts)"""
        lows = [None]
        if splits:
            lows = [0, 1]
        A = ('a00', 'a10', 'a01', 'a11')
        # no bit at all
        yield 'no bit', lambda: (self.classes(w, [('s0', 's1')], {}, splits), self.word('s1'), self.word())
        for low in lows:
            for has in (False, True):
                for more in (None, 'a01', 'a11'):
                    def mk(low=low, has=has, more=more):
                        above = tuple(x for x in A if not (more is None and x in ('a01', 'a11')) and not (more == 'a01' and x == 'a11'))
                        cards = {'l': const(1)}
                        if more:
                            cards[more] = self.atomc(more + '+', 1)
                        side = {}
                        if low is not None:
                            side['l'] = low
                            if splits & (splits + 1):
                                pass                                            # not a cut: nothing follows for the positions around
                            elif low == 0:
                                side.update(n0=0, n1=0)
                            else:
                                side.update({x: 1 for x in A})
                        if splits and more and side.get(more) is None:
                            # at least one more: below or above the cut
                            cards.pop(more)
                        self.classes(w, [('n0', 'n1'), 'l', above], cards, splits, side)
                        if splits and more and side.get(more) is None:
                            self.force = more
                        sw = self.word('n1', 'a10', 'a11', *(['l'] if has else []))
                        return None, sw, self.word('l', 'a01', 'a11')
                    yield '%s bit %s' % ('one' if more is None else 'several', 'present' if has else 'absent'), mk

    def run(self, bid, name, args, judge, splits_of):
        """every scenario, retried with the positions told apart where the code cuts words"""
        for splits in (None,):
            pass
        todo, seen = [None], set()
        while todo:
            sp = todo.pop()
            if sp in seen:
                continue
            seen.add(sp)
            keep = (len(self.reports), len(self.undecided), dict((k, list(v)) for k, v in self.obl.items()), self.exits)
            try:
                splits_of(sp)
                return
            except Split as e:
                del self.reports[keep[0]:]
                del self.undecided[keep[1]:]
                self.obl = keep[2]
                self.exits = keep[3]
                if sp is not None:
                    self.undecide('words cut at more than one place')
                    return
                todo.append(e.at)

    def err(self, v):
        """name of the error in a Result value, or None"""
        if v[0] == 'A' and short(v[1]) == 'Result' and v[2] == 1:
            e = v[3][0]
            if e[0] == 'A':
                return self.vname(e[1], e[2])
        return None

    def okv(self, st, v):
        if v[0] == 'A' and short(v[1]) == 'Result' and v[2] == 0:
            return self.res(st, v[3][0])
        return None

    def same_word(self, st, v, want):
        if v is None:
            return False
        try:
            x = self.as_word(st, v, want[1])
        except Undecided:
            return False
        return all(st.norm(self.card[c]).is_zero() for c in x ^ want[2])

    def verify_trait(self, bid):
        b = self.cr.bodies[bid]
        t = self.cr.ty(b['self'])
        w = WIDTH[t[1]]
        trait = short(b['trait'])
        self.rootbid = bid
        self.span = b['file']
        if trait in ('LogB', 'MaskLogB', 'MaxOnes'):
            want = {'LogB': LOG[w], 'MaskLogB': (1 << LOG[w]) - 1, 'MaxOnes': w}[trait]
            self.one(bid, [], lambda st, v: self.check(self.is_const(st, v, want), self.prop, 'wrong-constant', '%s of this word type is not %d' % (b['name'], want)))
        elif trait == 'NthBit':
            for n in range(w):
                self.one(bid, [('I', const(n))], lambda st, v, n=n: self.check(
                    self.okv(st, v) is not None and self.is_const(st, self.okv(st, v), 1 << n), self.prop, 'wrong-bit', 'the bit of an index in range is not the one with that index', detail='index %d' % n))
            a = atom('index', 'beyond')
            self.nn.add(('index', 'beyond'))
            self.one(bid, [('I', const(w) + a)], lambda st, v: self.check(self.err(v) == 'Range', self.prop, 'no-range-error', 'an index out of range is not refused with Range'))
        else:
            self.run(bid, trait, None, None, lambda sp: self.all_words(bid, trait, w, sp))

    def is_const(self, st, v, want):
        v = self.res(st, v)
        return v[0] == 'I' and st.norm(v[1]).const() == want

    def one(self, bid, args, judge):
        st = St(self)
        self.span = self.cr.bodies[bid]['file']
        self.rootbid = bid
        n = len(self.undecided)
        got = 0
        try:
            for s, v in self.run_body(bid, {}, list(args), st):
                self.exits += 1
                got += 1
                v = self.res(s, v)
                judge(s, v)
        except Infeasible:
            pass
        except Undecided as e:
            self.undecide(str(e))

    def all_words(self, bid, trait, w, sp):
        if trait in ('CountOnes', 'AsUsize'):
            if trait == 'AsUsize' and w > 64 and sp:
                # within the word's index range: nothing above the cut
                self.classes(w, [('s0', 's1')], {}, sp, {'s1': 0})
            else:
                self.classes(w, [('s0', 's1')], {}, sp)
            word = self.word('s1')
            st = St(self)
            cell = self.newcell(st, word)
            if trait == 'CountOnes':
                self.onest(bid, st, [cell], lambda s, v: self.check(v[0] == 'I' and s.norm(v[1] - self.size(word[2])).is_zero(), self.prop, 'wrong-count', 'the number of bits counted is not the number of bits set'))
            else:
                self.onest(bid, st, [cell], lambda s, v: self.check(v[0] == 'W' and all(s.norm(self.card[c]).is_zero() for c in v[2] ^ word[2]), self.prop, 'wrong-value', 'the conversion to usize changes the value'))
            return
        if trait == 'BitMerge':
            for over in (False, True) if not sp else (False, 0, 1):
                cards = {'11': self.atomc('11+', 1)} if over is True else {}
                names = ('00', '10', '01') + (('11',) if over is not False else ())
                self.classes(w, [names], cards, sp)
                if sp and over is not False:
                    # at least one shared position inside the constant, or all of them outside
                    self.card['11.lo'] = self.atomc('11.lo+', 1) if over == 0 else ZERO
                    if over == 1:
                        self.card['11.hi'] = self.atomc('11.hi+', 1)
                over = over is not False
                sw, bw = self.word('10', '11'), self.word('01', '11')
                st = St(self)
                cell = self.newcell(st, sw)

                def judge(s, v, over=over, sw=sw, bw=bw):
                    if over:
                        self.check(self.err(v) == 'Found', self.prop, 'merge-overlap', 'overlapping words are not refused with Found')
                    else:
                        self.check(self.same_word(s, self.okv(s, v), ('W', w, sw[2] | bw[2])), self.prop, 'merge-union', 'merging disjoint words does not give their union')
                self.onest(bid, st, [cell, bw], judge)
            return
        for what, mk in self.scenarios(w, sp):
            self.force = None
            _, sw, bw = mk()
            st = St(self)
            if self.force:
                pass
            cell = self.newcell(st, sw)
            present = 'present' in what

            def judge(s, v, sw=sw, bw=bw, what=what, present=present):
                if not what.startswith('one'):
                    if self.force and s.norm(self.size([c for c in self.card if c.split('.')[0] == self.force])).is_zero():
                        return
                    self.check(self.err(v) == 'CountNotEqualToOne', self.prop, 'bit-count', 'a word with %s is not refused with CountNotEqualToOne' % ('several bits' if what.startswith('several') else 'no bit'))
                    return
                ok = self.okv(s, v)
                if trait == 'BitContains':
                    g = ok is not None and ok[0] == 'B' and self.decide(s, ok[1]) is present
                    self.check(g, self.prop, 'contains', 'a bit %s is not answered so' % ('present' if present else 'absent'))
                elif trait == 'BitIndex':
                    if present:
                        below = [c for c in self.card if c.split('.')[0] == 'n1']
                        g = ok is not None and ok[0] == 'I' and s.norm(ok[1] - self.size(below)).is_zero()
                        self.check(g, self.prop, 'rank', 'the index of a bit is not the number of bits below it')
                    else:
                        self.check(self.err(v) == 'NotFound', self.prop, 'rank', 'the index of an absent bit is not refused with NotFound')
                elif trait == 'BitInsert':
                    if present:
                        self.check(self.err(v) == 'Found', self.prop, 'insert', 'inserting a bit present is not refused with Found')
                    else:
                        self.check(self.same_word(s, ok, ('W', w, sw[2] | bw[2])), self.prop, 'insert', 'inserting a bit does not add exactly that bit')
                elif trait == 'BitRemove':
                    if not present:
                        self.check(self.err(v) == 'NotFound', self.prop, 'remove', 'removing a bit absent is not refused with NotFound')
                    else:
                        self.check(self.same_word(s, ok, ('W', w, sw[2] - bw[2])), self.prop, 'remove', 'removing a bit does not remove exactly that bit')
            self.onest(bid, st, [cell, bw], judge)

    def onest(self, bid, st, args, judge):
        self.span = self.cr.bodies[bid]['file']
        self.rootbid = bid
        try:
            for s, v in self.run_body(bid, {}, list(args), st):
                self.exits += 1
                judge(s, self.res(s, v))
        except Infeasible:
            pass
        except Undecided as e:
            self.undecide(str(e))

    # ---- hashing ------------------------------------------------------------------------------------------------
    def verify_hasher(self, bid):
        self.rootbid = bid
        self.prop = 'C14'
        st = St(self)
        k = self.sym(('hashed',), ('param', 'V'))
        st.mem[('h', 'key')] = ('S', k)
        h = self.sym(('hasher',), ('param', 'H'))
        st.mem[('h', 'hasher')] = ('S', h)
        self.width = None

        def judge(s, v):
            ok = v[0] == 'I'
            if not ok:
                raise Undecided('hash value')
            bad = [a for a in self.leaves(v[1]) if a[0] == 'hash' and not any(f[0] == 'key' for f in a[1])]
            other = [a for a in self.leaves(v[1]) if a[0] != 'hash']
            self.check(not bad and not other, ('C04', 'C14'), 'hash-of-key', 'the hash of a key depends on something else than the key')
        self.onest(bid, st, [('P', ('h', 'hasher'), ()), ('P', ('h', 'key'), ())], judge)

    def leaves(self, l):
        out = []
        for a in l.d:
            if a == ONE:
                continue
            subs = [x for x in a if isinstance(x, Lin)]
            if subs:
                for x in subs:
                    out += self.leaves(x)
            else:
                out.append(a)
        return out


def analyse(cr, cs, shapes):
    out = []
    for bid, b in sorted(cr.bodies.items()):
        if not b.get('trait') or b.get('self') is None:
            continue
        t = cr.ty(b['self'])
        tr = short(b['trait'])
        v = None
        if tr in WORD_TRAITS and t[0] == 'int':
            v = Words(cr, cs, shapes)
            f = v.verify_trait
        elif tr == 'HasherBv':
            v = Words(cr, cs, shapes, 'C14')
            f = v.verify_hasher
        if v is None:
            continue
        v.rootbid = bid
        try:
            f(bid)
        except Undecided as e:
            v.undecide(str(e))
        except Infeasible:
            pass
        except Exception as e:
            v.lost('a form the analysis does not know (%s)' % repr(e)[:80])
        out.append((bid, v))
    return out


if __name__ == '__main__':
    import sys
    from ir import Crate
    sys.setrecursionlimit(20000)
    cr = Crate(sys.argv[1])
    from sem import all_contracts
    for bid, v in analyse(cr, all_contracts(cr), {}):
        if len(sys.argv) > 2 and sys.argv[2] not in bid:
            continue
        print(bid, v.exits, v.obl)
        for r in v.reports:
            print('   !', r['props'], r['rule'], r['span'], r['msg'], r['detail'])
        for w, sp, path in v.undecided:
            print('   ?', w, sp, path)
