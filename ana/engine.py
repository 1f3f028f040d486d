"""Abstract interpreter over the compiler's MIR: values, memory, expressions, control flow and loops.
Program-specific knowledge (what the library's collections mean) lives in sem.py, which subclasses Engine."""
import re
from dom import Lin, ZERO, const, atom, size_of, nullspace, ONE
from ir import short
from state import St, Infeasible, Undecided, MAX

U = ('U',)
TRUE, FALSE = ('B', True), ('B', False)
UNIT = ('T', ())


class Frame:
    n = 0

    def __init__(self, eng, bid, sub):
        Frame.n += 1
        self.id = Frame.n
        self.bid = bid
        self.b = eng.cr.bodies[bid]
        self.body = self.b['body']
        self.sub = sub
        self.loops = eng.natural_loops(bid)


class Engine:
    MAXPATHS = 40000

    def __init__(self, cr):
        self.cr = cr
        self.syms, self.intern = [], {}
        self.nfresh = 0
        self.fixed = {}
        self.nund = 0
        self.reports, self.undecided = [], []
        self.quiet = 0
        self.stack = []
        self.span = ''
        self._loops = {}
        self._order = {}
        self.loopinfo = {}
        self.nn = set()
        self.steps = 0
        self.obl = {}
        self.visited_sites = set()
        self.panics = []

    # ---- symbols ---------------------------------------------------------------------------------
    def fresh(self):
        self.nfresh += 1
        return self.nfresh

    def sym(self, key, ty, **info):
        if key in self.intern:
            return self.intern[key]
        self.syms.append((ty, info, key))
        self.intern[key] = len(self.syms) - 1
        return len(self.syms) - 1

    def fsym(self, ty, **info):
        return self.sym(('f', self.fresh()), ty, **info)

    def ty(self, i):
        return self.syms[i][0]

    def info(self, i):
        return self.syms[i][1]

    def adt_fields(self, t, vi):
        """types of the fields of variant vi of ADT type t"""
        a = self.cr.adts[t[1]]
        sub = dict(zip(a['g'], t[2]))
        return [self.cr.ty(f[1], sub) for f in a['v'][vi]['f']]

    def vname(self, adt, vi):
        return self.cr.adts[adt]['v'][vi]['n']

    def vindex(self, adt, name):
        for i, v in enumerate(self.cr.adts[adt]['v']):
            if v['n'] == name:
                return i
        return None

    def is_ptr(self, t):
        return t[0] in ('ref', 'ptr') or (t[0] == 'adt' and short(t[1]) in ('Arc', 'Box', 'Pin', 'Rc'))

    def pointee(self, t):
        if t[0] in ('ref', 'ptr'):
            return t[2]
        if short(t[1]) == 'Pin':
            return self.pointee(t[2][0])
        return t[2][0]

    def child(self, i, vi, fi, ty):
        return self.sym(('c', i, vi, fi), ty, **self.derive(i, vi, fi, ty))

    def derive(self, i, vi, fi, ty):
        return {}

    def deref_sym(self, i):
        return self.child(i, '*', 0, self.pointee(self.ty(i)))

    # ---- resolving values ------------------------------------------------------------------------
    def res0(self, st, v):
        """follow bindings only"""
        while v[0] == 'S' and v[1] in st.bind:
            v = st.bind[v[1]]
        return v

    def res(self, st, v):
        """follow bindings; expand structures (not enums)"""
        v = self.res0(st, v)
        if v[0] != 'S':
            return v
        i = v[1]
        t = self.ty(i)
        k = t[0]
        if k == 'param':
            return v
        if self.is_ptr(t):
            r = ('P', ('s', i), ())
        elif k == 'int':
            r = ('I', atom('i', i))
        elif k == 'bool':
            r = ('B', ('sym', i))
        elif k == 'tuple':
            r = ('T', tuple(('S', self.child(i, 0, n, x)) for n, x in enumerate(t[1])))
        elif k == 'dyn':
            r = ('ARR', i)
        elif k == 'adt' and self.cr.adts.get(t[1], {}).get('kind') == 'struct':
            return self.bind_variant(st, i, 0)
        else:
            return v
        st.bind[i] = r
        return r

    def bind_variant(self, st, i, vi):
        t = self.ty(i)
        fields = tuple(('S', self.child(i, vi, n, x)) for n, x in enumerate(self.adt_fields(t, vi)))
        v = ('A', t[1], vi, fields)
        st.bind[i] = v
        self.on_bind(st, i, v)
        return v

    def on_bind(self, st, i, v):
        pass

    # ---- memory -----------------------------------------------------------------------------------
    def cell(self, st, c):
        v = st.mem.get(c)
        if v is None:
            if c[0] == 's':
                v = ('S', self.deref_sym(c[1]))
                st.mem[c] = v
            else:
                return U
        return v

    def get(self, st, c, path):
        v = self.cell(st, c)
        for step in path:
            v = self.field(st, v, step)
        return v

    def field(self, st, v, step):
        v = self.res(st, v)
        k = v[0]
        if step[0] == 'd':
            if k == 'S':
                raise Undecided('downcast of undetermined value')
            if k == 'A' and v[2] != step[1]:
                raise Infeasible()
            return v
        if step[0] == 'ix':
            return self.elem(st, v, step[1])
        i = step[1]
        if k == 'A':
            if i >= len(v[3]):
                raise Undecided('field')
            return v[3][i]
        if k == 'T':
            return v[1][i]
        if k == 'C':
            return v[2][i]
        if k == 'G':
            return v[2][i]
        if k == 'MU':
            return v if v[1] is None or step[1] != 'val' else v[1]
        if k == 'O':
            return self.op_field(st, v, i)
        if k == 'X':
            raise Undecided(v[1])
        raise Undecided('field %s of %s' % (i, k))

    def op_field(self, st, v, i):
        raise Undecided('op')

    def elem(self, st, v, i):
        raise Undecided('element of ' + v[0])

    def set_elem(self, st, v, i, path, val):
        raise Undecided('write to an element of ' + v[0])

    def put(self, st, c, path, val):
        if not path:
            st.mem[c] = val
            return
        st.mem[c] = self.upd(st, self.cell(st, c), path, val)

    def upd(self, st, v, path, val):
        if not path:
            return val
        if v[0] == 'MU':
            return ('MU', val)
        v = self.res(st, v)
        step = path[0]
        if step[0] == 'd':
            return self.upd(st, v, path[1:], val)
        if step[0] == 'ix':
            return self.set_elem(st, v, step[1], path[1:], val)
        i = step[1]
        if v[0] == 'A':
            f = list(v[3])
            f[i] = self.upd(st, f[i], path[1:], val)
            return ('A', v[1], v[2], tuple(f))
        if v[0] == 'T':
            f = list(v[1])
            f[i] = self.upd(st, f[i], path[1:], val)
            return ('T', tuple(f))
        if v[0] in ('C', 'G'):
            f = list(v[2])
            f[i] = self.upd(st, f[i], path[1:], val)
            return (v[0], v[1], tuple(f)) + v[3:]
        raise Undecided('write into %s' % v[0])

    def loc(self, st, fr, place):
        c, path = ('l', fr.id, place[0]), ()
        for e in place[1]:
            if e == '*':
                v = self.res(st, self.get(st, c, path))
                if v[0] == 'P':
                    c, path = v[1], v[2]
                elif v[0] in ('O', 'RO', 'OF', 'VO', 'C', 'IT', 'FUT', 'PF'):
                    raise Undecided('deref of ' + v[0])
                else:
                    raise Undecided('deref of %s' % (v[0] if v[0] != 'X' else v[1]))
            elif e[0] == 'f':
                path = path + (('f', e[1]),)
            elif e[0] == 'd':
                path = path + (('d', e[1]),)
            elif e[0] == 'i':
                path = path + (('ix', st.norm(self.as_int(st, st.mem.get(('l', fr.id, e[1]), U)))),)
            elif e[0] == 'ci' and not e[3]:
                path = path + (('ix', const(e[1])),)
            else:
                raise Undecided('projection ' + str(e[0]))
        return c, path

    def read(self, st, fr, place):
        c, p = self.loc(st, fr, place)
        return self.get(st, c, p)

    def deref(self, st, v):
        v = self.res(st, v)
        if v[0] != 'P':
            raise Undecided('deref of %s' % v[0])
        return self.get(st, v[1], v[2])

    def deref_all(self, st, v):
        v = self.res(st, v)
        n = 0
        while v[0] == 'P' and n < 12:
            v = self.res(st, self.get(st, v[1], v[2]))
            n += 1
        return v

    def newcell(self, st, v):
        c = ('h', self.fresh())
        st.mem[c] = v
        return ('P', c, ())

    # ---- operands and rvalues -----------------------------------------------------------------------
    def operand(self, st, fr, o):
        if o[0] in ('copy', 'move'):
            return self.read(st, fr, o[1])
        c = o[1]
        if 'fn' in c:
            return ('FN', c)
        t = self.cr.ty(c['c'], fr.sub)
        if t[0] == 'int' and 'v' in c:
            return ('I', const(int(c['v'])))
        if t[0] == 'bool' and 'v' in c:
            return TRUE if int(c['v']) else FALSE
        if t == ('tuple', ()):
            return UNIT
        if t[0] == 'closure':
            return ('C', t[1], (), fr.sub)
        if 'prom' in c:
            return self.promoted(st, fr, c)
        if t[0] == 'adt' and self.cr.adts.get(t[1], {}).get('kind') == 'enum' and 'v' in c:
            return U
        return ('K', c.get('s'))

    def promoted(self, st, fr, c):
        return ('K', c.get('s'))

    def as_int(self, st, v):
        v = self.res(st, v)
        if v[0] == 'I':
            return v[1]
        raise Undecided('integer expected, got %s' % (v[1] if v[0] == 'X' else v[0],))

    def rvalue(self, st, fr, r, destty):
        """-> list of (state, value)"""
        k = r[0]
        if k == 'use':
            return [(st, self.operand(st, fr, r[1]))]
        if k in ('ref', 'rawptr'):
            if len(r[2][1]) == 1 and r[2][1][0] == '*':
                w = self.res(st, self.get(st, ('l', fr.id, r[2][0]), ()))
                if w[0] == 'K':
                    return [(st, w)]                                    # &* of a string
            c, p = self.loc(st, fr, r[2])
            return [(st, ('P', c, p))]
        if k == 'cast':
            v = self.operand(st, fr, r[2])
            if r[1] == 'IntToInt' and self.res(st, v)[0] == 'B':
                return self.bool_int(st, v)
            return [(st, v)]
        if k == 'bin':
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]))
        if k == 'un':
            v = self.res(st, self.operand(st, fr, r[2]))
            if r[1] == 'Not' and v[0] == 'B':
                return [(st, self.bnot(v))]
            if r[1] == 'PtrMetadata':
                v = self.deref_all(st, v)
                if v[0] == 'V':
                    return [(st, ('I', v[2]))]
            if v[0] in ('I', 'Q') and self.opaque and r[1] in ('Not', 'Neg'):
                return [(st, ('Q', (r[1], self.scalar(st, v))))]
            raise Undecided('unary ' + str(r[1]))
        if k == 'discr':
            v = self.res(st, self.read(st, fr, r[1]))
            return [(st, self.discr(st, v))]
        if k == 'agg':
            return [(st, self.aggregate(st, fr, r[1], [self.operand(st, fr, x) for x in r[2]]))]
        raise Undecided('rvalue ' + k)

    def discr(self, st, v):
        if v[0] == 'A':
            d = self.cr.adts[v[1]]['v'][v[2]]['d']
            return ('I', const(int(d)))
        if v[0] == 'S':
            return ('DISC', v[1])
        if v[0] == 'O':
            return ('DISCO', v[1], v[2])
        if v[0] == 'X':
            raise Undecided(v[1])
        raise Undecided('discriminant of ' + v[0])

    def bool_int(self, st, v):
        return [(s, ('I', const(1 if b else 0))) for s, b in self.fork(st, v)]

    def bnot(self, v):
        b = v[1]
        if isinstance(b, bool):
            return ('B', not b)
        if b[0] == 'not':
            return ('B', b[1])
        return ('B', ('not', b))

    def binop(self, st, op, a, b):
        a, b = self.res(st, a), self.res(st, b)
        if a[0] == 'I' and b[0] == 'I':
            x, y = a[1], b[1]
            if op in ('Add', 'AddUnchecked', 'Sub', 'SubUnchecked', 'AddWithOverflow', 'SubWithOverflow', 'Mul', 'MulWithOverflow'):
                if op.startswith('Add'):
                    z = x + y
                elif op.startswith('Sub'):
                    z = x - y
                elif st.norm(x).const() is not None:
                    z = y.scale(st.norm(x).const())
                elif st.norm(y).const() is not None:
                    z = x.scale(st.norm(y).const())
                else:
                    z = atom('mul', st.norm(x), st.norm(y))
                z = ('I', z)
                return [(st, ('T', (z, FALSE)) if op.endswith('WithOverflow') else z)]
            if op == 'Eq':
                return [(st, ('B', ('ieq', x - y)))]
            if op == 'Ne':
                return [(st, ('B', ('not', ('ieq', x - y))))]
            if op in ('Lt', 'Le', 'Gt', 'Ge'):
                if op in ('Gt', 'Ge'):
                    x, y = y, x
                return [(st, ('B', ('lt', x, y) if op in ('Lt', 'Gt') else ('not', ('lt', y, x))))]
            if op in ('Div', 'Shr'):
                x, y = st.norm(x), st.norm(y)
                if op == 'Shr' and y.const() is not None:
                    y = const(2 ** y.const())
                if x.const() is not None and y.const():
                    return [(st, ('I', const(x.const() // y.const())))]
                return [(st, ('I', atom('div', x, y)))]
        q = self.opaque_op(st, op, a, b)
        if q is not None:
            return q
        if a[0] == 'B' and b[0] == 'B':
            out = []
            for s, x in self.fork(st, a):
                for s2, y in self.fork(s, b):
                    z = {'BitAnd': x and y, 'BitOr': x or y, 'BitXor': x != y, 'Eq': x == y, 'Ne': x != y}.get(op)
                    if z is None:
                        raise Undecided('bool op ' + op)
                    out.append((s2, ('B', z)))
            return out
        raise Undecided('binop %s on %s,%s' % (op, a[0], b[0]))

    # ---- scalars about which nothing is known ----------------------------------------------------------
    # A number computed in a way the affine domain has no term for (a remainder, a bit pattern, the size of a type, a text) is
    # ('Q', key): it can be compared, switched on and computed with, each truth value of a comparison is possible, and the same
    # comparison always comes out the same. It never becomes a size, an index or a bound: those stay undecided.
    opaque = True

    def scalar(self, st, v):
        for _ in range(8):
            v = self.res(st, v)
            if v[0] == 'P':
                v = self.get(st, v[1], v[2])
            else:
                break
        if v[0] == 'I':
            return ('i', st.norm(v[1]))
        if v[0] == 'Q':
            return v[1]
        if v[0] == 'K' and v[1] is not None:
            return ('k', v[1])
        if v[0] == 'B' and isinstance(v[1], (bool, tuple)):
            return ('b', v[1])
        return None

    def opaque_op(self, st, op, a, b):
        if not self.opaque:
            return None
        if {a[0], b[0]} - {'I', 'Q', 'K'} or (a[0] == b[0] == 'K'):
            return None
        x, y = self.scalar(st, a), self.scalar(st, b)
        if x is None or y is None:
            return None
        if op in ('Gt', 'Le'):
            x, y, op = y, x, {'Gt': 'Lt', 'Le': 'Ge'}[op]
        if op in ('Lt', 'Ge'):
            c = ('unk', ('lt', x, y))
            return [(st, ('B', c if op == 'Lt' else ('not', c)))]
        if op in ('Eq', 'Ne'):
            if x == y:
                return [(st, TRUE if op == 'Eq' else FALSE)]
            c = ('unk', ('eq',) + tuple(sorted((x, y), key=repr)))
            return [(st, ('B', c if op == 'Eq' else ('not', c)))]
        if op == 'Cmp':
            return None
        o = op.replace('Unchecked', '').replace('WithOverflow', '')
        z = ('Q', (o, x, y))
        return [(st, ('T', (z, FALSE)) if op.endswith('WithOverflow') else z)]

    def aggregate(self, st, fr, kind, ops):
        k = kind[0] if isinstance(kind, list) else kind
        if k == 'tuple':
            return ('T', tuple(ops))
        if k == 'adt':
            return ('A', kind[1], kind[2], tuple(ops))
        if k == 'closure':
            return ('C', kind[1], tuple(ops), fr.sub)
        if k == 'coroutine':
            return ('G', kind[1], tuple(ops), fr.sub)
        if k == 'array':
            return self.mkvec(st, ops)
        raise Undecided('aggregate ' + str(k))

    def mkvec(self, st, ops):
        c = ZERO
        for o in ops:
            c = c + self.content(st, o)
        return ('V', c, const(len(ops)), tuple(('e', o) for o in ops))

    def content(self, st, v):
        return ZERO

    # ---- conditions -----------------------------------------------------------------------------------
    def decide(self, st, c):
        if isinstance(c, bool):
            return c
        k = c[0]
        if k == 'not':
            d = self.decide(st, c[1])
            return None if d is None else not d
        if k == 'keq':
            return st.key_eq(c[1], c[2])
        if k == 'heq':
            return st.hash_eq(c[1], c[2])
        if k == 'sleq':
            return st.slot_eq(c[1], c[2])
        if k == 'ieq':
            n = st.norm(c[1])
            if n.is_zero():
                return True
            return False if st.never_zero(n) else None
        if k == 'lt':
            n = st.norm(c[2] - c[1])
            if n.const() is not None:
                return n.const() > 0
            d = st.less(c[1], c[2])
            if d is not None:
                return d
            return st.bools.get(('lt', st.norm(c[1]), st.norm(c[2])))
        if k == 'flag':
            info = self.loopinfo[c[1]]
            if all(info['outs'][i]['keeps'].get(c[2], False) for i in st.loops[c[1]]):
                return c[3]
            return None
        if k == 'sym':
            return st.bools.get(c)
        if k == 'rank0':
            for (a, b) in st.order:
                if st.slot_eq(a, c[2]) is True:
                    return True
                if st.slot_eq(b, c[2]) is True:
                    return False
            return None
        return st.bools.get(c)

    def assume(self, st, c, val):
        """narrow st (in place); raises Infeasible"""
        d = self.decide(st, c)
        if d is not None:
            if d != val:
                raise Infeasible()
            return st
        k = c[0]
        if k == 'not':
            return self.assume(st, c[1], not val)
        if k == 'keq':
            st.merge_keys(c[1], c[2]) if val else st.key_neq(c[1], c[2])
        elif k == 'heq':
            st.merge_hash(c[1], c[2]) if val else st.hash_neq(c[1], c[2])
        elif k == 'sleq':
            if val:
                st.slot_merge(c[1], c[2])
            else:
                st.slot_differ(c[1], c[2])
            self.on_slot(st, c[1], c[2], val)
        elif k == 'ieq':
            st.eqi(c[1]) if val else st.neqi(c[1])
        elif k == 'lt':
            st.bools[('lt', st.norm(c[1]), st.norm(c[2]))] = val
            st.assume_less(c[1], c[2], val)
            if not val:
                self.on_notlt(st, c[1], c[2])
        elif k == 'flag':
            if val == c[3]:
                info = self.loopinfo[c[1]]
                self.restrict(st, c[1], [i for i in st.loops[c[1]] if info['outs'][i]['keeps'].get(c[2], False)])
            else:
                st.bools[c] = val
        elif k == 'rank0':
            others = [p[1] for p in c[1] if p[0] == 'slot' and st.slot_eq(p[1], c[2]) is not True]
            if len(others) == 1 and len(c[1]) == 2:
                st.order = st.order | {(c[2], others[0]) if val else (others[0], c[2])}
        else:
            st.bools[c] = val
        return st

    def on_slot(self, st, a, b, val):
        pass

    def on_notlt(self, st, a, b):
        """not a<b where a counts up by one towards b"""
        for L in st.loops:
            info = self.loopinfo[L]
            for q in info['quants']:
                if q['kind'] == 'I' and q['hd'] == a and all(o['d'][q['name']].const() == 1 for o in info['outs']):
                    st.eqi(a - b)
                    return

    def fork(self, st, v):
        v = self.res(st, v)
        if v[0] != 'B':
            raise Undecided('bool expected, got %s' % (v[1] if v[0] == 'X' else v[0],))
        if isinstance(v[1], bool):
            return [(st, v[1])]
        out = []
        for val in (True, False):
            s = st.copy()
            try:
                self.assume(s, v[1], val)
                out.append((s, val))
            except Infeasible:
                pass
        return out

    # ---- control flow ----------------------------------------------------------------------------------
    def natural_loops(self, bid):
        if bid in self._loops:
            return self._loops[bid]
        blocks = self.cr.bodies[bid]['body']['blocks']
        succ = {i: [x for x in self.succs(b) if not blocks[x].get('cu')] for i, b in enumerate(blocks)}
        color, back = {}, []
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for m in it:
                if color.get(m, 0) == 0:
                    color[m] = 1
                    stack.append((m, iter(succ[m])))
                    break
                if color[m] == 1:
                    back.append((n, m))
            else:
                color[n] = 2
                stack.pop()
        pred = {}
        for a, ss in succ.items():
            for b in ss:
                pred.setdefault(b, []).append(a)
        loops = {}
        for n, h in back:
            body = loops.setdefault(h, {h})
            work = [n]
            while work:
                x = work.pop()
                if x not in body:
                    body.add(x)
                    work += pred.get(x, [])
        self._loops[bid] = loops
        return loops

    def order(self, bid):
        """reverse postorder number of every block, and the locals that matter on entry to it"""
        if bid in self._order:
            return self._order[bid]
        blocks = self.cr.bodies[bid]['body']['blocks']
        succ = {i: [x for x in self.succs(b) if not blocks[x].get('cu')] for i, b in enumerate(blocks)}
        seen, post = {0}, []
        stack = [(0, iter(succ[0]))]
        while stack:
            n, it = stack[-1]
            for m in it:
                if m not in seen:
                    seen.add(m)
                    stack.append((m, iter(succ[m])))
                    break
            else:
                post.append(n)
                stack.pop()
        rpo = {b: i for i, b in enumerate(reversed(post))}
        taken = {0}
        use, kill = {}, {}

        def places(x, out):
            if isinstance(x, (list, tuple)):
                if len(x) == 2 and type(x[0]) is int and isinstance(x[1], list):
                    out.add(x[0])
                for y in x:
                    places(y, out)

        for b in post:
            u, k = set(), set()
            for st in blocks[b]['s']:
                if st[0] == '=':
                    r = set()
                    places(st[2], r)
                    if st[2][0] in ('ref', 'rawptr'):
                        taken |= r
                    if st[1][1]:
                        r.add(st[1][0])
                    u |= r - k
                    if not st[1][1]:
                        k.add(st[1][0])
                elif st[0] == 'dead':
                    k.add(st[1] if isinstance(st[1], int) else st[1][0])
            r = set()
            places(blocks[b]['t'], r)
            u |= r - k
            use[b], kill[b] = u, k
        live = {b: set() for b in post}
        ch = True
        while ch:
            ch = False
            for b in post:
                o = set()
                for m in succ[b]:
                    o |= live.get(m, set())
                n = use[b] | (o - kill[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self._order[bid] = (rpo, {b: live[b] | taken for b in post})
        return self._order[bid]

    def merge(self, fr, bb, states):
        """joins states that differ only in which alternative of one operation was chosen"""
        if len(states) < 2:
            return states
        live = self.order(fr.bid)[1].get(bb)
        groups = {}
        for s in states:
            for c in [c for c in s.mem if c[0] == 'l' and c[1] == fr.id and c[2] not in live]:
                del s.mem[c]
            groups.setdefault((len(s.mem), s.out, s.red, s.par, s.nev), []).append(s)
        out = []
        for g in groups.values():
            classes = []
            for s in g:
                for c in classes:
                    if s.same(c[0]):
                        c.append(s)
                        break
                else:
                    classes.append([s])
            for c in classes:
                out += self.merge_ops(c)
        return out

    def merge_ops(self, c):
        s = c[0]
        if len(c) > 1:
            s.opv = None if any(x.opv is None for x in c) else frozenset().union(*[x.opv for x in c])
        return [s]

    def succs(self, bl):
        t = bl['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[2]] + [t[3]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'drop':
            return [t[2]]
        if k == 'assert':
            return [t[4]]
        if k == 'yield':
            return [x for x in t[1:] if isinstance(x, int)][:1]
        return [x for x in t[1:] if isinstance(x, int)][:1]

    def run_body(self, bid, sub, args, st):
        """execute a body with the given argument values -> [(state, return value)]"""
        if len(self.stack) > 40:
            raise Undecided('call depth')
        fr = Frame(self, bid, sub)
        for i, a in enumerate(args):
            st.mem[('l', fr.id, i + 1)] = a
        self.stack.append(fr)
        try:
            _, _, rets = self.exec(fr, 0, st, None, None)
        finally:
            self.stack.pop()
        out = []
        for s in rets:
            v = s.mem.get(('l', fr.id, 0), UNIT)
            for c in [c for c in s.mem if c[0] == 'l' and c[1] == fr.id]:
                del s.mem[c]
            out.append((s, v))
        return out

    def exec(self, fr, bb, st, stop, region):
        backs, exits, rets = [], [], []
        rpo = self.order(fr.bid)[0]
        work = [(bb, st, True)]
        while work:
            nb = min((w[0] for w in work), key=lambda b: rpo.get(b, 0) + (1 << 20 if (region is not None and b not in region) or (b == stop and not work[0][2]) else 0))
            here = [w for w in work if w[0] == nb]
            work = [w for w in work if w[0] != nb]
            if nb == stop and not any(w[2] for w in here):
                backs += self.merge(fr, nb, [w[1] for w in here])
                continue
            if region is not None and nb not in region:
                exits += [(nb, s) for s in self.merge(fr, nb, [w[1] for w in here])]
                continue
            for s in self.merge(fr, nb, [w[1] for w in here]):
                self.exec1(fr, nb, s, stop, work, rets)
        return backs, exits, rets

    def exec1(self, fr, bb, st, stop, work, rets):
        if bb in fr.loops and bb != stop:
            try:
                ex, rs = self.loop(fr, bb, st)
            except Infeasible:
                return
            except Undecided as e:
                self.undecide(str(e))
                return
            rets += rs
            work += [(b, s, False) for b, s in ex]
            return
        self.steps += 1
        if self.steps > self.MAXPATHS * 20:
            raise Undecided('analysis budget exhausted')
        try:
            for nb, s in self.block(fr, bb, st):
                if nb == 'ret':
                    rets.append(s)
                else:
                    work.append((nb, s, False))
        except Infeasible:
            pass
        except Undecided as e:
            self.undecide(str(e))
        except (LookupError, TypeError, ValueError, AttributeError, AssertionError, RecursionError) as e:
            self.undecide('a form the analysis does not know (%s)' % repr(e)[:80])

    def lost(self, why):
        self.quiet = 0
        self.undecide(why)

    def undecide(self, why):
        self.nund += 1
        self.lastund = why
        if not self.quiet:
            self.undecided.append((why, self.span, tuple(f.bid for f in self.stack)))

    def block(self, fr, bb, st):
        bl = fr.body['blocks'][bb]
        states = [st]
        for s in bl['s']:
            if s[0] == '=':
                self.span = s[3] or self.span
                new = []
                for x in states:
                    for x2, v in self.rvalue(x, fr, s[2], None):
                        self.put(x2, *self.loc(x2, fr, s[1]), v)
                        new.append(x2)
                states = new
            elif s[0] == 'dead':
                for x in states:
                    x.mem.pop(('l', fr.id, s[1] if isinstance(s[1], int) else s[1][0]), None)
            elif s[0] == 'setd':
                raise Undecided('set discriminant')
        out = []
        for x in states:
            try:
                out += self.term(fr, bl['t'], x)
            except Infeasible:
                pass
            except Undecided as e:
                self.undecide(str(e))
        return out

    def term(self, fr, t, st):
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'return':
            return [('ret', st)]
        if k == 'drop':
            self.on_drop(st, fr, t[1])
            return [(t[2], st)]
        if k == 'switch':
            self.span = t[-1] or self.span
            return self.switch(fr, t, st)
        if k == 'assert':
            self.span = t[-1] if isinstance(t[-1], str) else self.span
            return self.assertion(fr, t, st)
        if k == 'call':
            self.span = t[6]
            f = t[1]
            args = [self.operand(st, fr, a) for a in t[2]]
            if f[0] != 'const' or 'fn' not in f[1]:
                raise Undecided('indirect call')
            out = []
            sp = self.span
            for s, v in self.call(st, fr, f[1], args, t[3], t[4] is None):
                self.span = sp
                if t[4] is None:
                    continue
                try:
                    self.put(s, *self.loc(s, fr, t[3]), v)
                    out.append((t[4], s))
                except Infeasible:
                    pass
            return out
        if k == 'unreachable':
            return []
        if k in ('resume', 'abort'):
            return []
        if k == 'yield':
            raise Undecided('yield reached')
        raise Undecided('terminator ' + k)

    def on_drop(self, st, fr, place):
        pass

    def assertion(self, fr, t, st):
        msg = str(t[3])
        if msg.startswith('overflow'):
            return [(t[4], st)]
        out = []
        for s, val in self.fork(st, self.operand(st, fr, t[1])):
            if val == bool(t[2]):
                out.append((t[4], s))
            else:
                self.panic(s, 'assertion ' + msg)
        return out

    def panic(self, st, why):
        pass

    def switch(self, fr, t, st):
        v = self.res(st, self.operand(st, fr, t[1]))
        targets, other = [(int(a), b) for a, b in t[2]], t[3]
        if v[0] == 'I':
            n = st.norm(v[1])
            c = n.const()
            if c is not None:
                for a, b in targets:
                    if a == c:
                        return [(b, st)]
                return [(other, st)]
            out = []
            for a, b in targets:
                s = st.copy()
                try:
                    s.eqi(n - const(a))
                    out.append((b, s))
                except Infeasible:
                    pass
            s = st.copy()
            try:
                for a, b in targets:
                    if not s.never_zero(n - const(a)):
                        s.neqi(n - const(a))
                out.append((other, s))
            except Infeasible:
                pass
            return out
        if v[0] == 'B':
            out = []
            for s, val in self.fork(st, v):
                for a, b in targets:
                    if a == (1 if val else 0):
                        out.append((b, s))
                        break
                else:
                    out.append((other, s))
            return out
        if v[0] == 'Q':
            out, rest = [], st.copy()
            for a, b in targets:
                c = ('unk', ('eq',) + tuple(sorted((v[1], ('i', const(a))), key=repr)))
                s = rest.copy()
                try:
                    self.assume(s, c, True)
                    out.append((b, s))
                except Infeasible:
                    pass
                try:
                    self.assume(rest, c, False)
                except Infeasible:
                    return out
            return out + [(other, rest)]
        if v[0] == 'DISC':
            out = []
            for s, vi in self.variants(st, v[1]):
                d = int(self.cr.adts[self.ty(v[1])[1]]['v'][vi]['d'])
                for a, b in targets:
                    if a == d:
                        out.append((b, s))
                        break
                else:
                    out.append((other, s))
            return out
        if v[0] == 'DISCO':
            out = []
            for s, d in self.op_variants(st, v):
                for a, b in targets:
                    if a == d:
                        out.append((b, s))
                        break
                else:
                    out.append((other, s))
            return out
        raise Undecided('switch on %s' % (v[1] if v[0] == 'X' else v[0],))

    def op_variants(self, st, v):
        raise Undecided('op')

    def variants(self, st, i):
        v = self.res(st, ('S', i))
        if v[0] == 'A':
            return [(st, v[2])]
        t = self.ty(i)
        if t[0] != 'adt':
            raise Undecided('variants of ' + t[0])
        out = []
        for vi in self.allowed_variants(st, i):
            s = st.copy()
            try:
                self.bind_variant(s, i, vi)
                out.append((s, vi))
            except Infeasible:
                pass
        return out

    def allowed_variants(self, st, i):
        return range(len(self.cr.adts[self.ty(i)[1]]['v']))

    def enum_cases(self, st, v):
        """fork on the variant of an enum value -> [(state, variant index, fields)]"""
        v = self.res(st, v)
        if v[0] == 'A':
            return [(st, v[2], v[3])]
        if v[0] == 'S' and self.ty(v[1])[0] == 'adt':
            out = []
            for s, vi in self.variants(st, v[1]):
                a = self.res(s, ('S', v[1]))
                out.append((s, vi, a[3]))
            return out
        raise Undecided('enum expected, got %s' % (v[1] if v[0] == 'X' else v[0],))

    # ---- loops --------------------------------------------------------------------------------------
    def pure_diff(self, base, v0, v1, path, out):
        if v0 == v1:
            return
        a, b = self.res0(base, v0), v1
        if a[0] == b[0] == 'A' and a[1] == b[1] and a[2] == b[2] and not self.is_result(a[1]) and len(a[3]) == len(b[3]) and self.splits(a):
            for i, (x, y) in enumerate(zip(a[3], b[3])):
                self.pure_diff(base, x, y, path + (('f', i),), out)
        elif a[0] == b[0] == 'T' and len(a[1]) == len(b[1]):
            for i, (x, y) in enumerate(zip(a[1], b[1])):
                self.pure_diff(base, x, y, path + (('f', i),), out)
        else:
            out.setdefault(path, []).append(b)

    def splits(self, a):
        """the fields of a plain structure are carried round a loop separately"""
        if short(a[1]) in ('Range',):
            return True
        ad = self.cr.adts.get(a[1])
        return bool(ad and ad.get('local') and ad['kind'] == 'struct' and not self.undivided(a[1]))

    def undivided(self, adt):
        """structures whose values are always taken as one"""
        return True

    def is_result(self, adt):
        return False

    def collect(self, base, backs, L):
        """cells modified by the loop -> {(cell, path): kind}"""
        plan = {}
        for c, v0 in base.mem.items():
            d = {}
            for b in backs:
                if c in b.mem:
                    self.pure_diff(base, v0, b.mem[c], (), d)
            for path, vals in d.items():
                plan[(c, path)] = (self.get(base, c, path), vals)
        return plan

    GHOSTS = (('$1', 'c'), ('$2', 'c'), ('$out', 'c'), ('$red', 'r'))

    def ghost(self, st, g):
        return {'$1': lambda: st.tot[1], '$2': lambda: st.tot[2], '$out': lambda: st.out, '$red': lambda: st.red}[g]()

    def set_ghost(self, st, g, v):
        if g == '$1':
            st.tot[1] = v
        elif g == '$2':
            st.tot[2] = v
        elif g == '$out':
            st.out = v
        else:
            st.red = v

    def await_loop(self, fr, h):
        """repeats only after a suspension"""
        blocks = fr.body['blocks']
        todo, seen = [h], set()
        while todo:
            b = todo.pop()
            if b in seen or blocks[b]['t'][0] == 'yield':
                continue
            seen.add(b)
            for m in self.succs(blocks[b]):
                if m == h:
                    return False
                if m in fr.loops[h]:
                    todo.append(m)
        return True

    def loop(self, fr, h, st):
        region = fr.loops[h]
        if self.await_loop(fr, h):
            _, exits, rets = self.exec(fr, h, st, h, region)
            return exits, rets
        self.quiet += 1
        try:
            base = st.copy()
            before = self.nund
            backs, exits, rets = self.exec(fr, h, st.copy(), h, region)
            if not backs and self.nund != before:
                raise Undecided(self.lastund)              # whether there is a way round is not known
            if not backs:
                self.quiet -= 1
                try:
                    _, exits, rets = self.exec(fr, h, st.copy(), h, region)
                finally:
                    self.quiet += 1
                return exits, rets
            L = self.fresh()
            self.fixed[L] = len(self.syms)
            kinds = {}
            hv, before = None, self.nund
            for rnd in range(6):
                plan = self.collect(base, backs, L)
                nk = {}
                for cp, (v0, vals) in plan.items():
                    prev = kinds.get(cp)
                    nk[cp] = self.kind_of(base, fr, cp, v0, vals, prev, L)
                for cp in kinds:
                    nk.setdefault(cp, kinds[cp])
                if nk == kinds:
                    break
                kinds = nk
                hv = self.havoc(base, kinds, L, fr)
                before = self.nund
                backs, exits, rets = self.exec(fr, h, hv.copy(), h, region)
            else:
                raise Undecided('loop analysis did not stabilise')
            if self.nund != before:
                raise Undecided(self.lastund)              # a way round the loop was lost: nothing holds for all of them
            self.backs = backs
            info = self.summarise(base, hv, backs, kinds, L, fr)
            info['accs'] = self.loopinfo[L].get('accs', {})
            self.loopinfo[L] = info
            hv.loops[L] = tuple(range(len(info['outs'])))
            self.relate(hv, L)
            self.termination(fr, h, region, base, hv, backs, info)
        finally:
            self.quiet -= 1
        _, exits, rets = self.exec(fr, h, hv.copy(), h, region)
        return exits, rets

    def termination(self, fr, h, region, base, hv, backs, info):
        pass

    def kind_of(self, base, fr, cp, v0, vals, prev, L):
        v0 = self.res0(base, v0)
        ks = {v[0] for v in vals}
        if prev and prev[0] in ('X', 'XX'):
            return prev
        if v0[0] == 'I' and ks == {'I'}:
            return ('I',)
        if v0[0] == 'B' and isinstance(v0[1], bool) and ks == {'B'}:
            ok = all((isinstance(v[1], bool)) or v[1] == ('flag', L, cp, v0[1]) for v in vals)
            if ok:
                return ('flag', v0[1])
        if v0[0] in ('R', 'DEF') and ks <= {'R', 'DEF', 'S'} and 'R' in ks:
            return ('R',)
        if v0[0] in ('V', 'DEF') and ks == {'V'}:
            return ('V',)
        if v0[0] in ('F', 'DEF') and ks == {'F'}:
            return ('F',)
        if v0[0] == 'IT' and ks == {'IT'} and all(v[1] == v0[1] for v in vals):
            return ('IT', v0[1])
        k = self.kind_more(base, fr, cp, v0, vals, L)
        return k or ('X', 'loop-carried value of kind %s' % sorted(ks | {v0[0]}))

    def kind_more(self, base, fr, cp, v0, vals, L):
        return None

    def T(self, L, name):
        return Lin({('T', L, name): 1})

    def havoc(self, base, kinds, L, fr):
        st = base.copy()
        for g, _ in self.GHOSTS:
            self.set_ghost(st, g, self.T(L, g))
        for side in (1, 2):
            if st.named[side] is not False:
                st.named[side] = st.named[side] | {('flag', L, '$n%d' % side, True)}
        st.loops[L] = ()
        self.loopinfo[L] = {'outs': [], 'quants': [], 'fv': {}, 'pre': True}
        for cp, k in kinds.items():
            c, path = cp
            nm = str(cp)
            v0 = self.get(base, c, path)
            v0 = self.res0(base, v0)
            if k[0] == 'I':
                v = ('I', self.T(L, nm))
            elif k[0] == 'flag':
                v = ('B', ('flag', L, cp, k[1]))
            elif k[0] == 'R':
                v = ('R', self.T(L, nm))
            elif k[0] == 'V':
                v = ('V', self.T(L, nm), self.T(L, nm + '#len'), (v0[3] if v0[0] == 'V' else ()) + (('loop', L, cp),))
                self.nn.add(('T', L, nm + '#len'))
            elif k[0] == 'F':
                v = ('F', (v0[1] if v0[0] == 'F' else ()) + (('loop', L, cp),), self.T(L, nm + '#cnt'))
                self.nn.add(('T', L, nm + '#cnt'))
            elif k[0] == 'IT':
                v = self.havoc_it(st, v0, L, nm)
            elif k[0] == 'X':
                v = ('X', k[1])
            else:
                v = self.havoc_more(st, fr, cp, k, v0, L)
            self.put(st, c, path, v)
        return st

    def havoc_it(self, st, v0, L, nm):
        if v0[1] == 'vec':
            return ('IT', 'vec', self.T(L, nm), self.T(L, nm + '#len'), v0[4], v0[5])
        if v0[1] == 'arr':
            return ('IT', 'arr', v0[2], self.T(L, nm))
        return ('X', 'iterator')

    def havoc_more(self, st, fr, cp, k, v0, L):
        return ('X', 'havoc')

    def quant_list(self, base, hv, backs, kinds, L, fr):
        """quantities whose linear relations are preserved: (name, sort, initial, header, back-getter, kind)"""
        qs = []

        def q(name, sort, init, hd, get, kind):
            qs.append({'name': name, 'sort': sort, 'init': init, 'hd': hd, 'get': get, 'kind': kind})

        for g, s in self.GHOSTS:
            q(g, s, self.ghost(base, g), self.ghost(hv, g), (lambda b, g=g: self.ghost(b, g)), 'ghost')
        for cp, k in kinds.items():
            c, path = cp
            nm = str(cp)
            g = (lambda b, c=c, p=path: self.res0(b, self.get(b, c, p)))
            v0, v1 = g(base), g(hv)
            if k[0] == 'I':
                q(nm, 'i', v0[1], v1[1], (lambda b, g=g: g(b)[1]), 'I')
            elif k[0] == 'R':
                q(nm, 'r', self.to_R(base, v0), v1[1], (lambda b, g=g: self.to_R(b, g(b))), 'R')
            elif k[0] == 'V':
                v0 = self.to_V(v0)
                q(nm, 'c', v0[1], v1[1], (lambda b, g=g: self.to_V(g(b))[1]), 'V')
                q(nm + '#len', 'i', v0[2], v1[2], (lambda b, g=g: self.to_V(g(b))[2]), 'len')
            elif k[0] == 'F':
                v0 = self.to_F(v0)
                q(nm + '#cnt', 'i', v0[2], v1[2], (lambda b, g=g: self.to_F(g(b))[2]), 'cnt')
            elif k[0] == 'IT' and k[1] == 'vec':
                q(nm, 'c', v0[2], v1[2], (lambda b, g=g: g(b)[2]), 'IT')
                q(nm + '#len', 'i', v0[3], v1[3], (lambda b, g=g: g(b)[3]), 'IT')
            elif k[0] == 'IT' and k[1] == 'arr':
                q(nm, 'i', v0[3], v1[3], (lambda b, g=g: g(b)[3]), 'I')
            else:
                self.quant_more(q, base, hv, cp, k, g, L)
        # prefix quantities of structures indexed by a loop-carried integer
        ints = [x for x in qs if x['kind'] == 'I']
        seen = set()
        for b in backs:
            for (kind, obj, lin) in b.pres:
                for x in ints:
                    if lin == x['hd'] and (kind, obj, x['name']) not in seen:
                        seen.add((kind, obj, x['name']))
                        q('%s:%s:%s' % (kind, obj, x['name']), 'c', base.pre(kind, obj, x['init']), hv.pre(kind, obj, x['hd']),
                          (lambda b, x=x, kind=kind, obj=obj: b.pre(kind, obj, x['get'](b))), 'pre')
        for x in list(qs):
            if x['sort'] == 'c':
                q('#' + x['name'], 'i', size_of(x['init']), size_of(x['hd']), (lambda b, x=x: size_of(x['get'](b))), 'size')
        return qs

    def quant_more(self, q, base, hv, cp, k, g, L):
        pass

    def to_R(self, st, v):
        v = self.res0(st, v)
        if v[0] == 'R':
            return v[1]
        if v[0] == 'DEF':
            return ZERO
        if v[0] == 'S':
            return atom('r', v[1])
        if v[0] == 'P':
            return self.to_R(st, self.get(st, v[1], v[2]))
        raise Undecided('reduction value expected, got %s' % (v[1] if v[0] == 'X' else v[0],))

    def to_V(self, v):
        if v[0] == 'DEF':
            return ('V', ZERO, ZERO, ())
        if v[0] == 'V':
            return v
        raise Undecided('vector expected')

    def to_F(self, v):
        if v[0] == 'DEF':
            return ('F', (), ZERO)
        if v[0] == 'F':
            return v
        raise Undecided('flag word expected, got ' + str(v[1] if v[0] == 'X' else v[0]))

    def summarise(self, base, hv, backs, kinds, L, fr):
        qs = self.quant_list(base, hv, backs, kinds, L, fr)
        outs = []
        for b in backs:
            d = {}
            for x in qs:
                d[x['name']] = b.norm(x['get'](b) - x['hd'])
            keeps = {}
            for cp, k in kinds.items():
                if k[0] == 'flag':
                    v = self.res0(b, self.get(b, cp[0], cp[1]))[1]
                    keeps[cp] = v == ('flag', L, cp, k[1]) or (isinstance(v, bool) and v == k[1])
            for side in (1, 2):
                keeps['$n%d' % side] = b.named[side] is not False and b.named[side] == hv.named[side]
            o = {'d': d, 'keeps': keeps, 'span': self.span}
            self.outcome_more(o, hv, b, kinds, L)
            outs.append(o)
        # merge identical outcomes
        uniq, seen = [], set()
        for o in outs:
            key = (tuple(sorted((k, v) for k, v in o['d'].items())) if False else tuple((k, o['d'][k]) for k in sorted(o['d'])), tuple(sorted((str(k), v) for k, v in o['keeps'].items())), str(o.get('fv')), str(sorted((str(c), [sorted(y) if y is not None else None for y in x]) for c, x in o.get('acc', {}).items())))
            if key not in seen:
                seen.add(key)
                uniq.append(o)
        return {'outs': uniq, 'quants': qs, 'kinds': kinds, 'pre': False, 'start': {x['name']: x['init'] for x in qs}, 'fn': fr.bid}

    def outcome_more(self, o, hv, b, kinds, L):
        pass

    def relate(self, st, L):
        """add the linear relations preserved by every still-possible outcome"""
        info = self.loopinfo[L]
        outs = [info['outs'][i] for i in st.loops[L]]
        for sort in ('c', 'i', 'r'):
            qs = [x for x in info['quants'] if x['sort'] == sort]
            rows = []
            for x in qs:
                row = {}
                for j, o in enumerate(outs):
                    for a, v in o['d'][x['name']].d.items():
                        row[(j, a)] = v
                rows.append(row)
            for comb in nullspace(rows):
                l = ZERO
                for cf, x in zip(comb, qs):
                    if cf:
                        l = l + (x['hd'] - x['init']).scale(cf)
                if sort == 'c':
                    st.eqc(l)
                elif sort == 'i':
                    st.eqi(l)
                else:
                    st.eqr(l)

    def restrict(self, st, L, allowed):
        allowed = tuple(allowed)
        if allowed == st.loops[L]:
            return False
        st.loops[L] = allowed
        for b, val in st.bools.items():
            if b[0] == 'flag' and b[1] == L and val != b[3] and self.decide(st, b) == b[3]:
                raise Infeasible()
        self.relate(st, L)
        return True

    def loop_refresh(self, st, L):
        """outcomes that increased a counter now known to equal its initial value cannot have happened"""
        info = self.loopinfo[L]
        if info.get('pre'):
            return False
        allowed = list(st.loops[L])
        for x in info['quants']:
            if x['kind'] in ('len', 'cnt') and allowed:
                if st.norm(x['hd'] - x['init']).is_zero():
                    cs = [info['outs'][i]['d'][x['name']].const() for i in allowed]
                    if all(c is not None and c >= 0 for c in cs):
                        allowed = [i for i, c in zip(allowed, cs) if c == 0]
        if tuple(allowed) != st.loops[L]:
            return self.restrict(st, L, allowed)
        return False

    # ---- positivity -----------------------------------------------------------------------------------
    def nonneg(self, a):
        if a[0] == '#':
            return True
        return a in self.nn

    def positive(self, a):
        if a[0] == '#' and a[1][0] in ('N',):
            return bool(self.info(a[1][1]).get('pos'))
        return False

    def total_of(self, st, kind, obj):
        raise Undecided('total')

    def hc(self, k):
        return ('hk', k)
