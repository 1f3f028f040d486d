"""Copies and comparisons: every Clone of a local type answers the same thing, every == on a collection answers true only
for the same collection and always for a collection and its copy. A small path-sensitive interpreter over terms."""
from ir import short, tys

NODES = ('HashTrieMap', 'HashTrieSet', 'HashTrie', 'MNode', 'CNode', 'LNode', 'SNode', 'LNodeNext')


class Unsure(Exception):
    pass


class Path:
    def __init__(self):
        self.var = {}
        self.uf = {}
        self.no = []
        self.note = []
        self.zero = []

    def copy(self):
        p = Path()
        p.var, p.uf, p.no, p.note, p.zero = dict(self.var), dict(self.uf), list(self.no), list(self.note), list(self.zero)
        return p

    def find(self, t):
        while t in self.uf:
            t = self.uf[t]
        return t

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self.uf[a] = b


ARITH = ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'Shl', 'Shr', 'BitAnd', 'BitOr', 'BitXor', 'Not', 'Neg', 'Lt', 'Le', 'Gt', 'Ge', 'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow')
PURE = ('core::num', 'core::mem', 'core::any', 'core::cmp', 'core::fmt', 'alloc::fmt', 'alloc::string', 'core::str', 'alloc::str', 'core::char', 'core::ops::range',
        'core::ops::Range', 'core::slice', 'core::option', 'core::hint', 'std::env', 'std::time', 'std::thread', 'core::sync::atomic')
MEASURES = ('size', 'len', 'extra', 'count_ones', 'count_ones_t')


class Same:
    def __init__(self, cr):
        self.cr = cr
        self.steps = 0

    # types of terms ---------------------------------------------------------------------------------------------
    def ty(self, t):
        k = t[0]
        if k == 'in':
            return t[2]
        if k == 'at':
            x = self.ty(t[1])
            return x[2][0] if x and x[0] == 'adt' and x[2] else None
        if k == 'f':
            x = self.ty(t[1])
            if x and x[0] == 'tuple':
                return x[1][t[3]]
            if not x or x[0] != 'adt' or x[1] not in self.cr.adts:
                return None
            d = self.cr.adts[x[1]]
            g = [n for n in d['g']]
            return self.cr.ty(d['v'][t[2] or 0]['f'][t[3]][1], dict(zip(g, x[2])))
        return None

    def norm(self, p, t):
        """canonical form: known fields of aggregates, merged terms"""
        t = p.find(t)
        if t[0] == 'f':
            b = self.norm(p, t[1])
            if b[0] == 'agg':
                return self.norm(p, b[3][t[3]])
            return p.find(('f', b, t[2], t[3]))
        if t[0] == 'at':
            b = self.norm(p, t[1])
            if b[0] == 'new':
                return self.norm(p, b[1])
            return p.find(('at', b))
        return t

    # is t the same thing as u on this path? -------------------------------------------------------------------------
    def same(self, p, t, u, depth=0):
        t, u = self.norm(p, t), self.norm(p, u)
        if t == u:
            return True
        if depth > 6:
            return False
        if self.empty(p, t) and self.empty(p, u):
            return True
        if t[0] in ('ref', 'tgt') and t[0] == u[0]:
            return self.same(p, t[1], u[1], depth + 1)
        vt, vu = self.variant(p, t), self.variant(p, u)
        if vt is not None and vt == vu:
            n = self.nfields(t if t[0] == 'agg' else u, vt)
            return n is not None and all(self.same(p, self.field(t, vt, i), self.field(u, vu, i), depth + 1) for i in range(n))
        return False

    def empty(self, p, t):
        """something that stands for the whole of t was found to be empty"""
        for z in p.zero:
            z = self.norm(p, z)
            while z[0] in ('f', 'at', 'ref', 'tgt'):
                if z == t:
                    return True
                z = self.norm(p, z[1])
            if z == t:
                return True
        return False

    def variant(self, p, t):
        if t[0] == 'agg':
            return t[2]
        if t in p.var:
            return p.var[t]
        x = self.ty(t)
        if x and x[0] == 'adt' and x[1] in self.cr.adts and self.cr.adts[x[1]]['local'] and len(self.cr.adts[x[1]]['v']) == 1:
            return 0
        return None

    def nfields(self, t, vi):
        if t[0] == 'agg':
            return len(t[3])
        x = self.ty(t)
        return len(self.cr.adts[x[1]]['v'][vi]['f']) if x and x[0] == 'adt' else None

    def field(self, t, vi, i):
        return t[3][i] if t[0] == 'agg' else ('f', t, vi, i)

    # interpreter ----------------------------------------------------------------------------------------------------
    def run(self, bid, args, p, depth=0):
        if depth > 12:
            raise Unsure('nested calls')
        b = self.cr.bodies[bid]
        body = b['body']
        out = []
        todo = [(0, {i + 1: a for i, a in enumerate(args)}, p, ())]
        while todo:
            bb, env, p, seen = todo.pop()
            self.steps += 1
            if self.steps > 20000:
                raise Unsure('too many paths')
            if bb in seen:
                raise Unsure('a loop')
            seen = seen + (bb,)
            bl = body['blocks'][bb]
            env = dict(env)
            for s in bl['s']:
                if s[0] == '=':
                    self.put(p, env, s[1], self.rvalue(b, p, env, s[2]))
                elif s[0] not in ('dead', 'intr', 'setd', 'live', 'nop'):
                    raise Unsure('statement ' + s[0])
            t = bl['t']
            k = t[0]
            if k == 'goto':
                todo.append((t[1], env, p, seen))
            elif k == 'return':
                out.append((p, env.get(0, ('agg', 'tuple', 0, ()))))
            elif k in ('drop', 'assert'):
                todo.append((t[2] if k == 'drop' else t[4], env, p, seen))
            elif k in ('unreachable', 'resume', 'abort'):
                pass
            elif k == 'switch':
                for tgt, q in self.switch(p, self.operand(p, env, t[1]), t):
                    todo.append((tgt, env, q, seen))
            elif k == 'call':
                if t[4] is None:
                    continue
                for q, v in self.call(b, p, env, t, depth):
                    e2 = dict(env)
                    self.put(q, e2, t[3], v)
                    todo.append((t[4], e2, q, seen))
            else:
                raise Unsure('terminator ' + k)
        return out

    def get(self, p, env, pl):
        v = env.get(pl[0])
        if v is None:
            raise Unsure('unset local')
        var = None
        for e in pl[1]:
            if e == '*':
                v = self.deref(p, v)
            elif e[0] == 'f':
                v = self.norm(p, v)
                if v[0] == 'agg':
                    v = v[3][e[1]]
                else:
                    v = ('f', v, var or 0, e[1])
                var = None
            elif e[0] == 'd':
                var = e[1]
            else:
                raise Unsure('projection')
        return self.norm(p, v)

    def deref(self, p, v):
        v = self.norm(p, v)
        if v[0] == 'ref':
            return v[1]
        if v[0] == 'tgt':
            return ('at', v[1])
        if v[0] == 'op':
            return ('at', v)
        if v[0] in ('in', 'f', 'at'):
            x = self.ty(v)
            if x and x[0] == 'adt':
                return ('at', v)
        if v[0] == 'new':
            return v[1]
        if v[0] == 'konst':
            return v
        raise Unsure('dereference')

    def put(self, p, env, pl, v):
        if pl[1]:
            if all(e != '*' and e[0] == 'f' for e in pl[1]) and len(pl[1]) == 1 and env.get(pl[0], ('agg', 'tuple', 0, ()))[0] == 'agg':
                a = env.get(pl[0], ('agg', 'tuple', 0, ()))
                fs = list(a[3])
                while len(fs) <= pl[1][0][1]:
                    fs.append(('unset',))
                fs[pl[1][0][1]] = v
                env[pl[0]] = ('agg', a[1], a[2], tuple(fs))
                return
            raise Unsure('assignment to a part')
        env[pl[0]] = v

    def operand(self, p, env, o):
        if o[0] in ('copy', 'move'):
            return self.get(p, env, o[1])
        c = o[1]
        if 'v' in c:
            t = self.cr.ty(c['c'])
            return ('bool', c['v'] == '1') if t[0] == 'bool' else ('int', int(c['v']))
        if 'fn' in c:
            return ('fn', c['fn'])
        return ('konst', c.get('s', ''))

    def addr(self, p, env, pl):
        t = self.get(p, env, pl)
        return ('tgt', t[1]) if t[0] == 'at' else ('ref', t)

    def rvalue(self, b, p, env, r):
        k = r[0]
        if k == 'use':
            return self.operand(p, env, r[1])
        if k in ('ref', 'rawptr'):
            return self.addr(p, env, r[2])
        if k == 'cast':
            return self.operand(p, env, r[2])
        if k == 'agg':
            fs = tuple(self.operand(p, env, x) for x in r[2])
            if r[1][0] == 'tuple':
                return ('agg', 'tuple', 0, fs)
            if r[1][0] == 'adt':
                return ('agg', r[1][1], r[1][2], fs)
            return ('op', 'agg', fs)
        if k == 'discr':
            return ('discr', self.get(p, env, r[1]))
        if k == 'bin':
            x, y = self.operand(p, env, r[2]), self.operand(p, env, r[3])
            if r[1] in ('Eq', 'Ne'):
                v = self.compare(p, x, y)
                return v if r[1] == 'Eq' else self.neg(v)
            if r[1] in ('BitAnd', 'BitOr') and (x[0] == 'bool' or y[0] == 'bool'):
                c, z = (x, y) if x[0] == 'bool' else (y, x)
                return (z if c[1] else c) if r[1] == 'BitAnd' else (c if c[1] else z)
            return ('op', r[1], (x, y))
        if k == 'un':
            x = self.operand(p, env, r[2])
            if r[1] == 'Not':
                return self.neg(x)
            return ('op', r[1], (x,))
        raise Unsure('value ' + k)

    def neg(self, x):
        if x[0] == 'bool':
            return ('bool', not x[1])
        if x[0] == 'not':
            return x[1]
        return ('not', x)

    def compare(self, p, x, y):
        """x == y for plain values"""
        x, y = self.norm(p, x), self.norm(p, y)
        if x[0] == 'discr' and y[0] == 'discr':
            a, b = self.variant(p, self.norm(p, x[1])), self.variant(p, self.norm(p, y[1]))
            if a is not None and b is not None:
                return ('bool', a == b)
            if x[1] == y[1]:
                return ('bool', True)
            return ('veq', x[1], y[1])
        if x[0] in ('ref', 'tgt') and y[0] in ('ref', 'tgt'):
            return self.ident(p, x, y)
        if x[0] == y[0] and x[0] in ('int', 'bool'):
            return ('bool', x == y)
        if x == y:
            return ('bool', True)
        return ('eq', x, y)

    def ident(self, p, x, y):
        """do two pointers point to the same place?"""
        x, y = self.norm(p, x), self.norm(p, y)
        if x[0] == y[0] == 'tgt':
            a, b = self.norm(p, x[1]), self.norm(p, y[1])
            if a == b:
                return ('bool', True)
            return ('id', a, b)
        return ('place', x, y)

    # conditions -----------------------------------------------------------------------------------------------------------
    def fork(self, p, c):
        """[(path, truth)]"""
        if c[0] == 'bool':
            return [(p, c[1])]
        if c[0] == 'not':
            return [(q, not v) for q, v in self.fork(p, c[1])]
        k = c[0]
        if k in ('id', 'place', 'eq'):
            if k == 'id' and self.norm(p, c[1]) == self.norm(p, c[2]):
                return [(p, True)]
            if k == 'eq' and ('int', 0) in c[1:]:
                if self.entries(self.norm(p, c[1] if c[2] == ('int', 0) else c[2])):
                    return [(p, False)]         # a list has entries (C03)
            for d, v in p.no:
                if d == c:
                    return [(p, v)]
            q, r = p.copy(), p.copy()
            q.no.append((c, True))
            r.no.append((c, False))
            if k == 'place':
                # the same place: only for one and the same value (different places may hold equal values)
                if c[1][0] == c[2][0] == 'ref':
                    q.union(self.norm(q, c[1][1]), self.norm(q, c[2][1]))
                else:
                    q.note.append('addresses of different kinds compared')
            elif k == 'eq' and ('int', 0) in c[1:]:
                o = self.measured(c[1] if c[2] == ('int', 0) else c[2])
                if o is not None:
                    q.zero.append(o)
            elif k == 'id' or self.key(c[1]) and self.key(c[2]):
                q.union(c[1], c[2])
            return [(q, True), (r, False)]
        if k == 'veq':
            out = []
            for q, a in self.variants(p, c[1]):
                for s, b in self.variants(q, c[2]):
                    out.append((s, a == b))
            return out
        if c[0] == 'op' and short(c[1]) == 'is_empty' and len(c[2]) == 1:
            q, r = p.copy(), p.copy()
            q.zero.append(c[2][0])
            return [(q, True), (r, False)]
        if k == 'op' and c[1] in ('Lt', 'Le', 'Gt', 'Ge') and len(c[2]) == 2:
            op, (x, y) = c[1], (self.norm(p, c[2][0]), self.norm(p, c[2][1]))
            if op in ('Gt', 'Ge'):
                op, x, y = {'Gt': 'Lt', 'Ge': 'Le'}[op], y, x
            if x == y:
                return [(p, op == 'Le')]
            if x[0] == y[0] == 'int':
                return [(p, x[1] < y[1] if op == 'Lt' else x[1] <= y[1])]
            if self.number(x) and self.number(y):
                # an order between numbers says nothing about what is held, except that there is nothing
                lim = 1
                if y == ('int', 1 if op == 'Lt' else 0) and self.entries(x):
                    return [(p, False)]
                if x == ('int', 0 if op == 'Lt' else 1) and self.entries(y):
                    return [(p, True)]
                q, r = p.copy(), p.copy()
                q.no.append((c, True))
                r.no.append((c, False))
                lim = 1 if op == 'Lt' else 0
                if y == ('int', lim) and self.measured(x) is not None:
                    q.zero.append(self.measured(x))
                if x == ('int', 1 - lim) and self.measured(y) is not None:
                    r.zero.append(self.measured(y))
                for d, v in p.no:
                    if d == c:
                        return [(q, True)] if v else [(r, False)]
                return [(q, True), (r, False)]
        if k == 'op' and all(self.plain(self.norm(p, x)) for x in c[2]) and (c[1] in ARITH or c[1].startswith(PURE)):
            for d, v in p.no:
                if d == c:
                    return [(p, v)]
            q, r = p.copy(), p.copy()
            q.no.append((c, True))
            r.no.append((c, False))
            return [(q, True), (r, False)]
        q, r = p.copy(), p.copy()
        for z in (q, r):
            z.note.append('an unknown condition (%s)' % (c[1] if k == 'op' else k))
        return [(q, True), (r, False)]

    def measured(self, t):
        while t[0] == 'at':
            t = t[1]
        if t[0] == 'op' and len(t[2]) == 1 and short(t[1]) in MEASURES:
            return t[2][0]
        return None

    def entries(self, t):
        """the number of entries of a list"""
        x = self.ty(t[1]) if t[0] == 'f' else None
        return bool(x) and x[0] == 'adt' and short(x[1]) == 'LNode'

    def number(self, t):
        if t[0] == 'int' or self.measured(t) is not None:
            return True
        if t[0] == 'op' and t[1] in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'AddWithOverflow', 'SubWithOverflow', 'Shl', 'Shr'):
            return all(self.number(x) for x in t[2])
        x = self.ty(t)
        return bool(x) and x[0] == 'int'

    def plain(self, t):
        """made of numbers, constants and types only: says nothing about which entries are held"""
        if t[0] in ('int', 'bool', 'konst') or self.number(t):
            return True
        if t[0] in ('ref', 'tgt', 'at', 'discr', 'new', 'not'):
            return self.plain(t[1])
        if t[0] == 'f':
            return self.plain(t[1])
        if t[0] == 'op' and (t[1] in ARITH or t[1].startswith(PURE)):
            return all(self.plain(x) for x in t[2])
        if t[0] in ('eq', 'place', 'id', 'veq'):
            return all(self.plain(x) for x in t[1:3])
        if t[0] == 'agg':
            return all(self.plain(x) for x in t[3])
        return False

    def key(self, t):
        x = self.ty(t)
        return bool(x) and x[0] == 'param'

    def variants(self, p, t):
        t = self.norm(p, t)
        v = self.variant(p, t)
        if v is not None:
            return [(p, v)]
        x = self.ty(t)
        if not x or x[0] != 'adt' or x[1] not in self.cr.adts:
            raise Unsure('discriminant')
        out = []
        for vi in range(len(self.cr.adts[x[1]]['v'])):
            q = p.copy()
            q.var[t] = vi
            out.append((q, vi))
        return out

    def switch(self, p, v, t):
        targets, other = [(int(a), b) for a, b in t[2]], t[3]
        if v[0] == 'discr':
            tt = self.norm(p, v[1])
            x = self.ty(tt)
            if x is None and tt[0] == 'op' and self.plain(tt):
                return [(b, p.copy()) for b in sorted({b for _, b in targets} | {other})]
            out = []
            for q, vi in self.variants(p, tt):
                adt = tt[1] if tt[0] == 'agg' else x[1]
                d = int(self.cr.adts[adt]['v'][vi]['d']) if adt in self.cr.adts else vi
                out.append((dict(targets).get(d, other), q))
            return out
        if v[0] == 'int':
            return [(dict(targets).get(v[1], other), p)]
        n = self.norm(p, v)
        if self.number(n) and n[0] != 'bool' and (self.ty(n) or ('int',))[0] == 'int':
            out, rest = [], [p]
            for a, b in targets:
                more = []
                for q in rest:
                    for s, e in self.fork(q, self.compare(q, n, ('int', a))):
                        (out.append((b, s)) if e else more.append(s))
                rest = more
            return out + [(other, q) for q in rest]
        out = []
        for q, b in self.fork(p, v):
            out.append((dict(targets).get(1 if b else 0, other), q))
        return out

    # calls ---------------------------------------------------------------------------------------------------------------
    def call(self, b, p, env, t, depth):
        f = t[1]
        args = [self.operand(p, env, a) for a in t[2]]
        if f[0] != 'const' or 'fn' not in f[1]:
            return [(p, ('op', 'call', tuple(args)))]
        c = f[1]
        tr, name = short(c.get('trait') or ''), c.get('name')
        fn = c.get('r') or c['fn']
        if tr == 'Clone' and name == 'clone':
            return [(p, self.deref(p, args[0]))]
        if tr == 'PartialEq' and name in ('eq', 'ne'):
            x, y = args
            for _ in range(4):
                xx, yy = self.norm(p, x), self.norm(p, y)
                if xx[0] == 'ref' and yy[0] == 'ref' and xx[1][0] in ('ref', 'tgt') and yy[1][0] in ('ref', 'tgt'):
                    x, y = xx[1], yy[1]
            a, bb = self.deref(p, x), self.deref(p, y)
            ta = self.ty(self.norm(p, a))
            imp = self.eq_impl(ta, name)
            if imp:
                r = self.run(imp[0], [x, y], p, depth + 1)
                return [(q, self.neg(v)) for q, v in r] if imp[1] else r
            na, nb = self.norm(p, a), self.norm(p, bb)
            v = self.compare(p, na, nb)
            return [(p, self.neg(v) if name == 'ne' else v)]
        if tr == 'Ord' and name == 'cmp' and len(args) == 2:
            x, y = self.norm(p, self.deref(p, args[0])), self.norm(p, self.deref(p, args[1]))
            if self.number(x) and self.number(y):
                o = [i for i in self.cr.adts if i.endswith('cmp::Ordering')]
                out = []
                for q, e in self.fork(p, self.compare(p, x, y)):
                    out += [(q, ('agg', o[0], 1, ()))] if e else [(q.copy(), ('agg', o[0], vi, ())) for vi in (0, 2)]
                return out
        if name == 'ptr_eq' and 'ptr' not in fn.split('::')[-2:][0]:
            x, y = self.deref(p, args[0]), self.deref(p, args[1])
            return [(p, self.ident(p, ('tgt', x), ('tgt', y)))]
        if fn.startswith('core::ptr') and name in ('eq', 'addr_eq'):
            return [(p, self.ident(p, args[0], args[1]))]
        if name == 'as_ptr' or tr in ('Deref', 'AsRef', 'Borrow') and name in ('deref', 'as_ref', 'borrow'):
            if fn in self.cr.bodies:
                return self.run(fn, args, p, depth + 1)
            x = self.norm(p, args[0])
            if x[0] == 'ref':
                return [(p, ('tgt', x[1]))]
        if name in ('cast', 'from_ref', 'addr', 'cast_const', 'identity') and len(args) == 1:
            return [(p, args[0])]
        if name == 'new' and ('Arc' in fn or 'boxed' in fn or 'arc' in fn):
            return [(p, ('new', args[0]))]
        if fn in self.cr.bodies:
            return self.run(fn, args, p, depth + 1)
        return [(p, ('op', fn, tuple(self.norm(p, a) for a in args)))]

    def eq_impl(self, t, name):
        """(body, negated) of == or != for a local type"""
        if not t or t[0] != 'adt':
            return None
        for im in self.cr.impls:
            if im.get('trait') and short(im['trait']) == 'PartialEq':
                s = self.cr.ty(im['self'])
                if s[0] == 'adt' and s[1] == t[1]:
                    its = {x[0]: x[1] for x in im['items']}
                    if name in its:
                        return its[name], False
                    if 'eq' in its:
                        return its['eq'], True
        return None


def report(out, props, rule, bid, cr, msg, detail=None):
    out['reports'].append({'props': list(props), 'rule': rule, 'fn': bid, 'span': cr.bodies[bid]['file'], 'msg': msg, 'detail': detail, 'path': [bid]})


def analyse(cr, out):
    def obl(props, ok, what=None):
        for p in props:
            a = out['obl'].setdefault(p, [0, 0])
            a[0] += 1
            a[1] += bool(ok)
            if what:
                out['samples'].setdefault(p, []).append(what)
    nclone = neq = 0
    for im in sorted(cr.impls, key=lambda i: i['id']):
        tr = short(im.get('trait') or '')
        st = cr.ty(im['self'])
        if st[0] != 'adt' or st[1] not in cr.adts or not cr.adts[st[1]]['local'] or not im.get('trait', '').startswith('core::'):
            continue
        node = short(st[1]) in NODES
        its = {x[0]: x[1] for x in im['items']}
        a = ('in', 'a', st)
        b = ('in', 'b', st)
        if tr == 'Clone' and its.get('clone') in cr.bodies:
            bid = its['clone']
            props = ('C02', 'C05', 'C21') if node else ('C11',)
            if 'BitIndexedArray' in st[1]:
                continue
            nclone += 1
            s = Same(cr)
            try:
                for p, v in s.run(bid, [('ref', a)], Path()):
                    ok = s.same(p, v, a)
                    if not ok and p.note:
                        raise Unsure(p.note[0])
                    obl(props, ok, '%s: a copy of %s is the same %s' % (bid, short(st[1]), short(st[1])))
                    if not ok:
                        report(out, props, 'copy', bid, cr, 'a copy of %s is not the same as what is copied' % short(st[1]), None)
            except (Unsure, LookupError, TypeError, ValueError, AttributeError, RecursionError) as e:
                out['undecided'].append({'props': list(props), 'fn': bid, 'why': 'copy: ' + str(e), 'span': cr.bodies[bid]['file'], 'path': [bid]})
        if tr == 'PartialEq' and node:
            for name in ('eq', 'ne'):
                bid = its.get(name)
                if bid not in cr.bodies:
                    continue
                neq += 1
                for other in (a, b):
                    s = Same(cr)
                    try:
                        for p, v in s.run(bid, [('ref', a), ('ref', other)], Path()):
                            for q, t in s.fork(p, v):
                                if name == 'ne':
                                    t = not t
                                if other is a:
                                    ok = t
                                    msg = 'a collection and its copy can compare as different'
                                else:
                                    ok = not t or s.same(q, a, b)
                                    msg = 'two collections can compare as equal although nothing says they hold the same entries'
                                if not ok and q.note:
                                    raise Unsure(q.note[0])
                                obl(('C21',), ok, '%s: each way to answer' % bid)
                                if not ok:
                                    report(out, ('C21',), 'equality', bid, cr, msg, None)
                    except (Unsure, LookupError, TypeError, ValueError, AttributeError, RecursionError) as e:
                        out['undecided'].append({'props': ['C21'], 'fn': bid, 'why': 'comparison: ' + str(e), 'span': cr.bodies[bid]['file'], 'path': [bid]})
    out['units']['copies and comparisons'] = {'Clone implementations': nclone, 'comparisons of collections': neq}


if __name__ == '__main__':
    import sys
    from ir import Crate
    cr = Crate(sys.argv[1])
    out = {'reports': [], 'undecided': [], 'obl': {}, 'units': {}, 'samples': {}}
    analyse(cr, out)
    print(out['obl'], out['units'])
    for r in out['reports']:
        print('!', r)
    for r in out['undecided']:
        print('?', r)
