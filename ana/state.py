"""Abstract states of the interpreter: memory, symbol bindings, an affine-equality store over entry contents and integers,
congruence classes of keys / hash values / slots, and ghost totals (what has been consumed, answered and reduced)."""
from dom import Lin, ZERO, const, atom, size_of, Eqs, ONE


class Infeasible(Exception):
    pass


class Undecided(Exception):
    pass


MAX = atom('MAX')


class St:
    __slots__ = ('g', 'mem', 'bind', 'eqs', 'ku', 'hu', 'kneq', 'hneq', 'sleq', 'slne', 'kids', 'ents', 'pres', 'tot', 'out', 'red', 'named', 'loops',
                 'opv', 'par', 'order', 'notin', 'ineq', 'ge', 'bools', 'member', 'calls', 'nev')

    def __init__(self, g):
        self.g = g
        self.mem, self.bind, self.eqs = {}, {}, Eqs()
        self.ku, self.hu = {}, {}
        self.kneq, self.hneq, self.slne = frozenset(), frozenset(), frozenset()
        self.sleq = {}
        self.kids, self.ents, self.pres = {}, frozenset(), frozenset()
        self.tot = {1: ZERO, 2: ZERO}
        self.out, self.red = ZERO, ZERO
        self.named = {1: frozenset(), 2: frozenset()}
        self.loops, self.opv, self.par = {}, None, None
        self.order, self.notin, self.ineq = frozenset(), frozenset(), frozenset()
        self.ge = frozenset()
        self.bools, self.member = {}, {}
        self.calls = ()
        self.nev = 0

    def copy(self):
        s = St.__new__(St)
        for k in St.__slots__:
            v = getattr(self, k)
            setattr(s, k, dict(v) if type(v) is dict else v)
        return s

    def same(self, o):
        """equal in everything but the chosen alternatives of the operations"""
        for k in St.__slots__:
            if k in ('g', 'opv'):
                continue
            a, b = getattr(self, k), getattr(o, k)
            if k == 'eqs':
                a, b = a.sub, b.sub
            if a is not b and a != b:
                return False
        return True

    # ---- linear facts ---------------------------------------------------------------------
    def norm(self, l):
        return self.eqs.norm(l)

    def _add(self, l):
        self.eqs, ok = self.eqs.add(l)
        if not ok:
            raise Infeasible()

    def zero_sum(self, n):
        """n (normalised) = 0 with every term non-negative -> list of atoms that must vanish; None if not of that form"""
        if not n.d:
            return []
        signs = {v > 0 for v in n.d.values()}
        if len(signs) != 1:
            return None
        for a in n.d:
            if a == ONE:
                continue
            if not self.g.nonneg(a):
                return None
        if ONE in n.d:
            raise Infeasible()
        if any(self.g.positive(a) for a in n.d):
            raise Infeasible()
        return list(n.d)

    def never_zero(self, n):
        n = self.norm(n)
        if n.const() is not None:
            return n.const() != 0
        try:
            self.zero_sum(n)
        except Infeasible:
            return True
        for m in self.ineq:
            d = self.norm(m)
            if d == n or d == n.scale(-1):
                return True
        if self.ge:
            for x in (n, n.scale(-1)):
                b = self.lower(x, False)
                if b is not None and b >= 1:
                    return True
        return False

    def lower(self, n, zero=True):
        """a lower bound of n, or None"""
        n = self.norm(n)
        best = None
        for m in (None,) + tuple(self.ge):
            d = n if m is None else self.norm(n - m)
            b = d.d.get(ONE, 0)
            for a, v in d.d.items():
                if a == ONE:
                    continue
                if v < 0 or not self.g.nonneg(a):
                    b = None
                    break
                if self.g.positive(a):
                    b += v
            if b is not None and (best is None or b > best):
                best = b
        if best == 0 and zero and self.never_zero(n):
            best = 1
        return best

    def less(self, a, b):
        """a < b: True, False or None"""
        d = self.norm(b - a)
        lo = self.lower(d)
        if lo is not None and lo >= 1:
            return True
        hi = self.lower(d.scale(-1))
        if hi is not None and hi >= 0:
            return False
        return None

    def assume_less(self, a, b, val):
        d = self.norm(b - a)
        if val:
            self.ge = self.ge | {d - const(1)}
            return
        if self.lower(d) == 0:
            self.eqi(d)
        else:
            self.ge = self.ge | {d.scale(-1)}

    def eqi(self, l):
        n = self.norm(l)
        if not n.d:
            return
        z = self.zero_sum(n)
        if z:
            for a in z:
                self._add(Lin({a: 1}))
                if a[0] == '#':
                    self._add(Lin({a[1]: 1}))
        else:
            self._add(n)
        for m in self.ineq:
            if self.norm(m).is_zero():
                raise Infeasible()
        self.refresh()

    def eqc(self, l):
        n = self.norm(l)
        self._add(n)
        self.eqi(size_of(n))
        s = self.norm(size_of(l))
        if s.d:
            self.eqi(s)

    def eqr(self, l):
        self._add(l)

    def neqi(self, l):
        n = self.norm(l)
        if n.is_zero():
            raise Infeasible()
        self.ineq = self.ineq | {n}

    def refresh(self):
        for _ in range(3):
            ch = False
            for (kind, obj, lin) in self.pres:
                n = self.norm(lin)
                if n != lin:
                    a = self.norm(Lin({(kind, obj, lin): 1}))
                    b = self.norm(self.pre(kind, obj, n))
                    if a != b:
                        self._add(a - b)
                        s = size_of(a - b)
                        self._add(s)
                        ch = True
            for L, allowed in list(self.loops.items()):
                ch |= self.g.loop_refresh(self, L)
            if not ch:
                break

    def pre(self, kind, obj, lin):
        n = self.norm(lin)
        if n.is_zero():
            return ZERO
        if n == MAX:
            return self.g.total_of(self, kind, obj)
        self.pres = self.pres | {(kind, obj, n)}
        return Lin({(kind, obj, n): 1})

    # ---- keys and hashes ---------------------------------------------------------------------
    def kf(self, k):
        while k in self.ku:
            k = self.ku[k]
        return k

    def hf(self, h):
        while h in self.hu:
            h = self.hu[h]
        return h

    def key_eq(self, a, b):
        a, b = self.kf(a), self.kf(b)
        if a == b:
            return True
        if frozenset((a, b)) in self.kneq:
            return False
        if self.hash_eq(self.g.hc(a), self.g.hc(b)) is False:
            return False
        return None

    def hash_eq(self, a, b):
        a, b = self.hf(a), self.hf(b)
        if a == b:
            return True
        if frozenset((a, b)) in self.hneq:
            return False
        return None

    def merge_keys(self, a, b):
        a, b = self.kf(a), self.kf(b)
        if a == b:
            return
        if self.key_eq(a, b) is False:
            raise Infeasible()
        if b < a:
            a, b = b, a
        self.ku[b] = a
        self.kneq = frozenset(frozenset(self.kf(x) for x in p) for p in self.kneq)
        self.merge_hash(self.g.hc(a), self.g.hc(b))
        for (k, v) in self.ents:
            if k == b:
                self.ents = self.ents | {(a, v)}
                self._add(Lin({('E', a, v): 1, ('E', b, v): -1}))

    def merge_hash(self, a, b):
        a, b = self.hf(a), self.hf(b)
        if a == b:
            return
        if self.hash_eq(a, b) is False:
            raise Infeasible()
        if str(b) < str(a):
            a, b = b, a
        self.hu[b] = a
        self.hneq = frozenset(frozenset(self.hf(x) for x in p) for p in self.hneq)

    def key_neq(self, a, b):
        a, b = self.kf(a), self.kf(b)
        if a == b:
            raise Infeasible()
        self.kneq = self.kneq | {frozenset((a, b))}

    def hash_neq(self, a, b):
        a, b = self.hf(a), self.hf(b)
        if a == b:
            raise Infeasible()
        self.hneq = self.hneq | {frozenset((a, b))}

    def E(self, k, v):
        k = self.kf(k)
        self.ents = self.ents | {(k, v)}
        return Lin({('E', k, v): 1})

    # ---- slots ----------------------------------------------------------------------------------
    def slot(self, s):
        if s[0] == 'ix':
            s = ('ix', self.norm(s[1]))
        elif s[0] == 'hs':
            s = ('hs', self.hf(s[1]), self.norm(s[2]))
        n = 0
        while s in self.sleq and n < 20:
            s = self.sleq[s]
            n += 1
        return s

    def slot_eq(self, a, b):
        a, b = self.slot(a), self.slot(b)
        if a == b:
            return True
        if frozenset((a, b)) in frozenset(frozenset(self.slot(x) for x in p) for p in self.slne):
            return False
        if a[0] == 'ix' and b[0] == 'ix' and self.never_zero(a[1] - b[1]):
            return False
        return None

    def slot_merge(self, a, b):
        e = self.slot_eq(a, b)
        if e is False:
            raise Infeasible()
        if e is None:
            a, b = self.slot(a), self.slot(b)
            if a[0] == 'hs' and b[0] == 'ix':
                a, b = b, a
            self.sleq[b] = a
            # children known under both names coincide
            for (aid, s), kid in list(self.kids.items()):
                pass

    def slot_differ(self, a, b):
        if self.slot_eq(a, b) is True:
            raise Infeasible()
        self.slne = self.slne | {frozenset((self.slot(a), self.slot(b)))}

    def kid(self, aid, s):
        """('none',) | ('some', symid) | None if not yet decided"""
        for (a, t), k in self.kids.items():
            if a == aid and self.slot_eq(s, t) is True:
                return k
        return None
