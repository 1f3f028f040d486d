"""How calls are interpreted: through a contract when the callee's signature makes it part of one, by a model of the standard
library and of the bit-word/array traits, or by interpreting the callee's own body in place."""
from dom import Lin, ZERO, const, atom, size_of, ONE
from ir import short, tys
from state import Infeasible, Undecided, MAX
from engine import U, TRUE, FALSE, UNIT
from contracts import OPS, RESULT_JOBS, strip_ref, is_future, is_flag_opt
from sem import Sem, ENTRY_RES, norm_path, subst, unify

OPTION, RESULT, POLL = 'core::option::Option', 'core::result::Result', 'core::task::poll::Poll'


class Calls(Sem):
    # ---- helpers ------------------------------------------------------------------------------------------
    def place_ty(self, fr, place):
        t = self.cr.ty(fr.body['locals'][place[0]], fr.sub)
        for e in place[1]:
            if e == '*':
                t = self.pointee(t)
            elif e[0] == 'f':
                t = self.cr.ty(e[2], fr.sub)
            elif e[0] == 'd':
                pass
            elif e[0] in ('i', 'ci'):
                t = t[1]
            else:
                raise Undecided('place type')
        return t

    def callee_sub(self, fr, c, b):
        gs = [g for g in b['generics']]
        fa = c.get('ra') if c.get('ra') is not None else c.get('fa')
        a = [self.cr.ty(x, fr.sub) for x in (fa or [])]
        if len(a) != len(gs):
            raise Undecided('generic arguments of %s' % b['id'])
        return {g: x for g, x in zip(gs, a) if g}

    def fnsig(self, b):
        return [self.cr.ty(i) for i in b.get('inputs') or []], self.cr.ty(b['output'])

    def is_op(self, t):
        return t[0] == 'adt' and short(t[1]) in OPS

    def op_val(self, st, v):
        v = self.deref_all(st, v)
        if v[0] == 'O':
            return v
        raise Undecided('operation value expected, got %s' % (v[1] if v[0] == 'X' else v[0]))

    # ---- dispatch -------------------------------------------------------------------------------------------
    def call(self, st, fr, c, args, dest, diverges):
        r = c.get('r')
        fn = norm_path(c['fn'])
        name = c.get('name')
        tr = c.get('trait')
        if tr:
            v = self.trait_call(st, fr, c, tr, name, args, dest)
            if v is not None:
                return v
        if r in self.cr.bodies:
            return self.local_call(st, fr, c, r, args, dest)
        if tr and r is None:
            raise Undecided('call of %s::%s' % (short(tr), name))
        return self.extern(st, fr, c, norm_path(r or c['fn']), name, args, dest)

    def closure(self, st, f, args):
        """call a callable value with a list of arguments"""
        f0 = self.deref_all(st, f)
        k = f0[0]
        if k == 'C':
            b = self.cr.bodies.get(f0[1])
            if b is None:
                raise Undecided('closure body')
            t1 = self.cr.ty(b['body']['locals'][1]) if b['body']['argc'] else None
            env = f0
            if t1 is not None and t1[0] == 'ref':
                fv = self.res(st, f)
                env = f if fv[0] == 'P' and self.res(st, self.get(st, fv[1], fv[2]))[0] == 'C' else self.newcell(st, f0)
            return self.run_body(f0[1], f0[3], [env] + list(args), st)
        if k == 'RO':
            if len(args) != 2:
                raise Undecided('reduction arity')
            return [(st, ('R', self.to_R(st, args[0]) + self.to_R(st, args[1])))]
        if k == 'FN':
            c = f0[1]
            if c.get('r') in self.cr.bodies or (c.get('fn') in self.cr.bodies):
                return self.local_call(st, self.stack[-1], c, c.get('r') or c['fn'], args, None)
            t = self.cr.ty(c['c'])
            if c['fn'] in self.ctor:
                a, vi = self.ctor[c['fn']]
                return [(st, ('A', a, vi, tuple(args)))]
        raise Undecided('call of a %s value' % (f0[1] if k == 'X' else k))

    @property
    def ctor(self):
        if not hasattr(self, '_ctor'):
            self._ctor = {}
            for a, d in self.cr.adts.items():
                for vi, v in enumerate(d['v']):
                    self._ctor[a + '::' + v['n']] = (a, vi)
        return self._ctor

    def spread(self, st, v):
        v = self.res(st, v)
        if v[0] == 'T':
            return list(v[1])
        if v == UNIT:
            return []
        raise Undecided('argument tuple')

    # ---- trait methods --------------------------------------------------------------------------------------------
    def trait_call(self, st, fr, c, tr, name, args, dest):
        t = short(tr)
        if t == 'Clone' and name == 'clone':
            v = self.deref(st, args[0])
            x = self.res0(st, v)
            if x[0] == 'V':
                return [(st, x)]
            return [(st, v)]
        if t in ('Fn', 'FnMut', 'FnOnce'):
            f = self.deref_all(st, args[0])
            a = self.spread(st, args[1])
            if f[0] in ('O', 'OF'):
                return self.event(st, f, a, self.place_ty(fr, dest))
            if f[0] == 'VO':
                e = self.entry(st, a[0], a[1])
                st.tot[1] = st.tot[1] + e
                st.nev += 1
                return [(st, UNIT)]
            return self.closure(st, args[0], a)
        if t == 'Default' and name == 'default':
            ty = self.place_ty(fr, dest)
            r = c.get('r')
            if r in self.cr.bodies:
                return None
            if ty[0] == 'int':
                return [(st, ('I', ZERO))]
            if ty[0] == 'bool':
                return [(st, FALSE)]
            if ty[0] == 'adt' and short(ty[1]) == 'Vec':
                return [(st, ('V', ZERO, ZERO, ()))]
            if ty[0] == 'adt' and short(ty[1]) == 'Option':
                return [(st, self.option(None))]
            return [(st, ('DEF',))]
        if t == 'PartialEq' and name in ('eq', 'ne'):
            if c.get('r') in self.cr.bodies:
                return None
            v = self.eqval(st, args[0], args[1])
            return [(st, self.bnot(v) if name == 'ne' else v)]
        if t in ('Into', 'From') and name in ('into', 'from'):
            if t == 'From' and c.get('r') in self.cr.bodies:
                return None
            return self.convert(st, fr, c, args, dest)
        if t == 'Deref' or t == 'AsRef' or t == 'Borrow' or t == 'DerefMut' or t == 'AsMut':
            if c.get('r') in self.cr.bodies:
                return None
            return [(st, self.pointer(st, args[0]))]
        if t == 'IntoIterator' and name == 'into_iter':
            return self.into_iter(st, args[0])
        if t == 'Extend' and name == 'extend':
            W = self.res(st, args[1])
            if W[0] == 'IT' and W[1] == 'vec':
                W = ('V',) + W[2:5]
            if W[0] == 'V':
                p, V = self.vec_loc(st, args[0])
                self.put(st, p[1], p[2], ('V', st.norm(V[1] + W[1]), st.norm(V[2] + W[2]), V[3] + W[3]))
                return [(st, UNIT)]
        if t == 'Try' and name == 'branch':
            cf = 'core::ops::control_flow::ControlFlow'
            out = []
            for s, vi, fs in self.enum_cases(st, self.res(st, args[0])):
                e = self.res(s, args[0])
                opt = short(e[1]) == 'Option'
                if short(e[1]) not in ('Option', 'Result'):
                    raise Undecided('? on ' + short(e[1]))
                good = vi == (1 if opt else 0)
                out.append((s, ('A', cf, 0, (fs[0],)) if good else ('A', cf, 1, (e,))))
            return out
        if t == 'FromResidual':
            d = self.place_ty(fr, dest)
            s0 = self.res(st, args[0])
            fa = [self.cr.ty(x, fr.sub) for x in c.get('fa') or []]
            if s0[0] == 'A' and short(s0[1]) == 'Result' and d[0] == 'adt' and short(d[1]) == 'Result' and len(fa) > 1 and fa[1][0] == 'adt' and fa[1][2][-1] != d[2][-1]:
                raise Undecided('? converts the error')
            return [(st, args[0])]
        if t == 'IntoFuture':
            return [(st, args[0])]
        if t == 'Future' and name == 'poll':
            return [(s, ('A', POLL, 0, (v,))) for s, v in self.poll(st, args[0])]
        if t == 'Iterator':
            if c.get('r') in self.cr.bodies:
                return None
            return self.iterator(st, fr, name, args, dest)
        if t == 'Drop':
            return [(st, UNIT)]
        if t == 'MaxOnes':
            return [(st, ('I', MAX))]
        if t == 'NthBit':
            return [(st, self.result(True, ('F', (('slot', ('ix', st.norm(self.as_int(st, args[0])))),), const(1))))]
        if t == 'BitInsert':
            return self.bit_insert(st, args)
        if t == 'BitMerge':
            a, b = self.to_F(self.deref_all(st, args[0])), self.to_F(self.deref_all(st, args[1]))
            return [(st, self.result(True, ('F', a[1] + b[1], a[2] + b[2])))]
        if t == 'CountOnes':
            return [(st, ('I', self.to_F(self.deref_all(st, args[0]))[2]))]
        if t == 'BitIndex':
            a, s = self.to_F(self.deref_all(st, args[0])), self.slot_of(st, self.deref_all(st, args[1]))
            if not all(p[0] == 'slot' for p in a[1]) or len(a[1]) != 2:
                raise Undecided('rank in a gathered word')
            out = []
            for s2, val in self.fork(st, ('B', ('rank0', a[1], s))):
                out.append((s2, self.result(True, ('I', ZERO if val else ONE_))))
            return out
        if t == 'BitContains':
            a, s = self.to_F(self.deref_all(st, args[0])), self.slot_of(st, self.deref_all(st, args[1]))
            out = [(st, False)]
            for p in a[1]:
                if p[0] != 'slot':
                    raise Undecided('test in a gathered word')
                nxt = []
                for s2, found in out:
                    if found:
                        nxt.append((s2, True))
                        continue
                    nxt += self.fork(s2, ('B', ('sleq', p[1], s)))
                out = nxt
            return [(s2, self.result(True, ('B', f))) for s2, f in out]
        if t == 'HasherBv' and name == 'hash':
            return [(st, ('H', self.hc(self.kid_(st, args[-1]))))]
        if t == 'BitIndexedArray' and c.get('r') not in self.cr.bodies:
            return self.array_call(st, name, args)
        return None

    def pointer(self, st, v):
        """&Arc<T> -> &T and the like: one pointer level is dropped; vectors and options stay where they are"""
        v = self.res(st, v)
        if v[0] != 'P':
            raise Undecided('deref of ' + v[0])
        w = self.res(st, self.get(st, v[1], v[2]))
        if w[0] == 'P':
            return w
        return v

    def eqval(self, st, a, b):
        a, b = self.deref_all(st, a), self.deref_all(st, b)
        k = (a[0], b[0])
        if k == ('S', 'S'):
            ta, tb = self.ty(a[1]), self.ty(b[1])
            if ta[0] == tb[0] == 'param':
                return ('B', ('keq', a[1], b[1]))
        if k == ('H', 'H'):
            return ('B', ('heq', a[1], b[1]))
        if k == ('I', 'I'):
            return ('B', ('ieq', a[1] - b[1]))
        if 'Q' in k:
            q = self.opaque_op(st, 'Eq', a, b)
            if q is not None:
                return q[0][1]
        if 'F' in k and set(k) <= {'F', 'DEF'}:
            a, b = self.to_F(a), self.to_F(b)
            if len(a[1]) == len(b[1]) == 1 and a[1][0][0] == b[1][0][0] == 'slot':
                return ('B', ('sleq', a[1][0][1], b[1][0][1]))
        raise Undecided('comparison of %s' % (k,))

    def convert(self, st, fr, c, args, dest):
        fa = [self.cr.ty(x, fr.sub) for x in (c.get('fa') or [])]
        ty = self.place_ty(fr, dest)
        v = args[0]
        src = fa[0] if c['name'] == 'into' else (fa[1] if len(fa) > 1 else None)
        if src is None:
            raise Undecided('conversion')
        if src == ty or src[0] == 'param' or src[0] == 'alias':
            return [(st, v)]
        for im in self.cr.impls:
            if not im.get('trait') or short(im['trait']) != 'From':
                continue
            sub = {}
            ta = [self.cr.ty(x) for x in im['trait_args']]
            if unify(self.cr.ty(im['self']), ty, sub) and unify(ta[-1], src, sub):
                for it in im['items']:
                    if it[0] == 'from' and it[1] in self.cr.bodies:
                        return self.run_body(it[1], sub, [v], st)
        if src[0] == 'bool' and ty[0] == 'int':
            return self.bool_int(st, v)
        if src[0] == 'int' and ty[0] == 'int':
            return [(st, v)]
        if src[0] == 'adt' and ty[0] == 'adt' and short(src[1]) == 'Box' and short(ty[1]) in ('Arc', 'Rc', 'Pin'):
            return [(st, v)]
        if ty[0] == 'adt' and short(ty[1]) in ('Arc', 'Rc', 'Box') and ty[2] and ty[2][0] == src:
            return [(st, self.newcell(st, v))]
        if ty[0] == 'adt' and short(ty[1]) == 'Option':
            return [(st, self.option(v))]
        raise Undecided('conversion from %s to %s' % (tys(src), tys(ty)))

    # ---- bit words ---------------------------------------------------------------------------------------------------
    def bit_insert(self, st, args):
        a, s = self.to_F(self.deref_all(st, args[0])), self.slot_of(st, self.deref_all(st, args[1]))
        out, work = [], [st]
        for p in a[1]:
            nxt = []
            for x in work:
                if p[0] != 'slot':
                    nxt.append(x)
                    continue
                for x2, eq in self.fork(x, ('B', ('sleq', p[1], s))):
                    if eq:
                        out.append((x2, self.result(False, ('K', 'BitError'))))
                    else:
                        nxt.append(x2)
            work = nxt
        for x in work:
            out.append((x, self.result(True, ('F', a[1] + (('slot', s),), a[2] + const(1)))))
        return out

    # ---- arrays -----------------------------------------------------------------------------------------------------------
    def cow(self, st, v):
        v = self.res(st, v)
        if v[0] == 'A' and short(v[1]) == 'Cow':
            return self.res0(st, v[3][0]) if v[2] == 1 else self.deref(st, v[3][0])
        raise Undecided('cow')

    def array_call(self, st, name, args):
        a = self.arr_of(st, args[0])
        if name == 'extra':
            if a[0] == 'NA':
                return [(st, self.newcell(st, ('I', a[2])))]
            return [(st, self.newcell(st, ('I', st.norm(size_of(Lin({('B', a[1]): 1}))))))]
        if name == 'len' and a[0] == 'ARR':
            return [(st, ('I', atom('alen', a[1])))]
        if a[0] != 'ARR':
            raise Undecided('%s on an array under construction' % name)
        aid = a[1]
        lv = self.info(aid).get('level')
        if name in ('at', 'at_bit_index'):
            s = self.slot_of(st, self.deref_all(st, args[1])) if name == 'at' else ('ix', st.norm(self.as_int(st, args[1])))
            self.slot_level(st, s, lv)
            out = []
            for s2, kid in self.kid_cases(st, aid, s):
                if kid[0] == 'some':
                    out.append((s2, self.result(True, self.kidptr(s2, kid[1]))))
                else:
                    out.append((s2, self.result(False, ('K', 'BitError'))))
            return out
        if name in ('updated', 'inserted', 'removed', 'updated_bit_index', 'inserted_bit_index', 'removed_bit_index'):
            ix = name.endswith('_bit_index')
            base = name.split('_')[0]
            s = ('ix', st.norm(self.as_int(st, args[1]))) if ix else self.slot_of(st, self.deref_all(st, args[1]))
            self.slot_level(st, s, lv)
            node = self.cow(st, args[2]) if base != 'removed' else None
            ext = self.as_int(st, self.cow(st, args[3] if node is not None else args[2]))
            out = []
            for s2, kid in self.kid_cases(st, aid, s):
                if (kid[0] == 'some') == (base == 'inserted'):
                    out.append((s2, self.result(False, ('K', 'BitError'))))
                    continue
                b = Lin({('B', aid): 1})
                if kid[0] == 'some':
                    b = b - Lin({('N', kid[1]): 1})
                if node is not None:
                    self.place_kid(s2, node, s, lv, base)
                    b = b + self.content(s2, node)
                b = s2.norm(b)
                self.check(s2.norm(ext - size_of(b)).is_zero(), ('C03',), 'branch-size', 'the size stored in a new branch node is not the number of entries below it', detail='stored %s, entries %s' % (s2.norm(ext), s2.norm(size_of(b))))
                if base == 'removed':
                    self.check(s2.never_zero(size_of(b)), ('C03', 'C04', 'C14'), 'empty-branch', 'a branch node without entries is built')
                na = ('NA', b, ext, lv, (), self.fresh())
                self.held[('na', na[5])] = (node,) if node is not None else ()
                ps = self.parts(s2, ('ARR', aid))
                if node is not None:
                    ps = ps + tuple(p for p in self.parts(s2, node) if p not in ps and p[0] == 'hc')
                na = na[:4] + (ps,) + na[5:]
                out.append((s2, self.result(True, self.newcell(s2, na))))
            return out
        if name == 'iter':
            return [(st, ('IT', 'arr', aid, ZERO))]
        raise Undecided('array method ' + name)

    def kidptr(self, st, i):
        c = ('h', 'kid', i)
        st.mem.setdefault(c, ('S', i))
        return ('P', c, ())

    def slot_level(self, st, s, lv):
        """a position computed from a hash at one level must not be used in an array of another"""
        if s[0] == 'hs' and lv is not None:
            self.check(st.norm(s[2] - lv).is_zero(), ('C04', 'C01'), 'position-level', 'a position computed for one depth is used in a branch of another depth', detail='%s vs %s' % (st.norm(s[2]), st.norm(lv)))

    # ---- iteration ------------------------------------------------------------------------------------------------------------
    def into_iter(self, st, v):
        x = self.res(st, v)
        if x[0] == 'A' and short(x[1]) in ('Range', 'RangeInclusive'):
            return [(st, x)]
        if x[0] == 'IT':
            return [(st, x)]
        if x[0] in ('V', 'DEF'):
            x = self.to_V(x)
            return [(st, ('IT', 'vec', x[1], x[2], x[3], None))]
        if x[0] == 'P':
            y = self.deref_all(st, x)
            if y[0] == 'ARR':
                return [(st, ('IT', 'arr', y[1], ZERO))]
            if y[0] == 'IT':
                return [(st, x)]
            if y[0] == 'V':
                return [(st, ('IT', 'ref', x))]
            raise Undecided('iteration over ' + (y[1] if y[0] == 'X' else y[0]))
        if x[0] == 'ARR':
            return [(st, ('IT', 'arr', x[1], ZERO))]
        raise Undecided('iteration over ' + (x[1] if x[0] == 'X' else x[0]))

    def it_loc(self, st, v):
        v = self.res(st, v)
        if v[0] != 'P':
            raise Undecided('iterator')
        w = self.res(st, self.get(st, v[1], v[2]))
        while w[0] == 'P':
            v, w = w, self.res(st, self.get(st, w[1], w[2]))
        return v, w

    def iterator(self, st, fr, name, args, dest):
        if name == 'position':
            return self.position(st, args)
        if name not in ('next', 'next_back'):
            if name in ('rev', 'map', 'enumerate', 'fold', 'for_each'):
                raise Undecided('iterator adaptor ' + name)
            raise Undecided('iterator method ' + name)
        loc, it = self.it_loc(st, args[0])
        ety = self.place_ty(fr, dest)[2][0]
        if it[0] == 'A' and short(it[1]) == 'Range':
            if name != 'next':
                raise Undecided('reverse range')
            a, b = self.as_int(st, it[3][0]), self.as_int(st, it[3][1])
            out = []
            for s, empty in self.fork(st, ('B', ('ieq', a - b))):
                if empty:
                    out.append((s, self.option(None)))
                else:
                    self.put(s, loc[1], loc[2] + (('f', 0),), ('I', a + const(1)))
                    out.append((s, self.option(('I', a))))
            return out
        if it[0] != 'IT':
            raise Undecided('iteration state ' + (it[1] if it[0] == 'X' else it[0]))
        if it[1] == 'vec':
            out = []
            for s, empty in self.fork(st, ('B', ('ieq', it[3]))):
                if empty:
                    s.eqc(it[2])
                    out.append((s, self.option(None)))
                    continue
                e, c = self.bag_elem(s, ety, it[2], it[4])
                self.put(s, loc[1], loc[2], ('IT', 'vec', s.norm(it[2] - c), s.norm(it[3] - const(1)), it[4], it[5]))
                out.append((s, self.option(e)))
            return out
        if it[1] == 'ref':
            raise Undecided('iteration over a borrowed vector')
        if it[1] == 'arr':
            aid, n = it[2], it[3]
            t = self.ty(aid)[2][1]
            lv = self.info(aid).get('level')
            out = []
            s = st.copy()
            try:
                s.eqc(s.pre('Ord', aid, n) - Lin({('B', aid): 1}))
                out.append((s, self.option(None)))
            except Infeasible:
                pass
            s = st.copy()
            i = self.sym(('kid', aid, ('ord', s.norm(n))), t, level=(lv + const(1)) if lv is not None else None, parts=(('kid', aid, ('ord', s.norm(n)), lv if lv is not None else ZERO),), pos=True)
            try:
                s.eqc(s.pre('Ord', aid, n + const(1)) - s.pre('Ord', aid, n) - Lin({('N', i): 1}))
                self.put(s, loc[1], loc[2], ('IT', 'arr', aid, n + const(1)))
                out.append((s, self.option(self.kidptr(s, i))))
            except Infeasible:
                pass
            return out
        raise Undecided('iterator')

    def bag_elem(self, st, ety, content, pieces):
        """some element of a bag of entries"""
        h = self.vhc(st, pieces)
        if ety[0] == 'tuple' and len(ety[1]) == 2 and all(x[0] == 'ref' for x in ety[1]):
            info = {'hc': h} if h is not None else {}
            k = self.fsym(ety[1][0][2], **info)
            w = self.fsym(ety[1][1][2])
            self.keyof[w] = frozenset((k,))
            c = st.E(k, w)
            e = ('T', (self.newcell(st, ('S', k)), self.newcell(st, ('S', w))))
            st.eqc(st.norm(content) - c - Lin({('rest', 'e', k): 1}))
            return e, c
        raise Undecided('elements of a gathered list')

    def position(self, st, args):
        v = self.res(st, args[0])
        if v[0] == 'P':
            v = self.deref_all(st, v)
        if v[0] != 'IT' or v[1] != 'ref':
            raise Undecided('position over ' + v[0])
        loc = v[2]
        V = self.to_V(self.deref_all(st, loc))
        n = st.norm(V[1])
        out = []
        st2 = st.copy()
        s = st.copy()
        ety = None
        h = self.vhc(st, V[3])
        f = self.deref_all(st, args[1])
        if f[0] != 'C':
            raise Undecided('position predicate')
        b = self.cr.bodies[f[1]]
        t = self.cr.ty(b['body']['locals'][2], f[3])
        while t[0] == 'ref':
            t = t[2]
        if not s.never_zero(V[2]) and s.norm(V[2]).is_zero():
            return [(st, self.option(None))]
        other, absent = None, True
        try:
            e, c = self.bag_elem(s, t, V[1], V[3])
            kid = self.kid_(s, e[1][0])
            p = self.newcell(s, e)
            for s2, r in self.closure(s, args[1], [p]):
                r = self.res(s2, r)
                if r[0] != 'B':
                    raise Undecided('position predicate')
                cnd = r[1]
                pos = True
                while isinstance(cnd, tuple) and cnd[0] == 'not':
                    cnd, pos = cnd[1], not pos
                if isinstance(cnd, tuple) and cnd[0] == 'keq' and kid in cnd[1:]:
                    other = cnd[2] if cnd[1] == kid else cnd[1]
                    absent = pos
                    self.assume(s2, cnd, pos)
                    i = self.fresh()
                    s2.bools[('pos', i)] = (e, c, n)
                    s2.eqi(const(0))
                    s2.neqi(V[2])
                    s2.assume_less(ZERO, atom('pos', i) + const(1), True)
                    s2.assume_less(atom('pos', i), V[2], True)
                    out.append((s2, self.option(('I', atom('pos', i)))))
                else:
                    raise Undecided('position predicate is not a key comparison')
        except Infeasible:
            pass
        if other is None:
            raise Undecided('position')
        pk = self.syms[other][2]
        if pk[0] == 'c' and not self.is_ptr(self.ty(pk[1])):
            self.res(st2, ('S', pk[1]))
        if absent:                                                                      # (no element that differs from a key: nothing is known of the rest)
            st2.notin = st2.notin | {(other, n)}
        out.append((st2, self.option(None)))
        return out

    # ---- futures ----------------------------------------------------------------------------------------------------------------
    def poll(self, st, v):
        """drive a future to completion"""
        loc = None
        v = self.res(st, v)
        n = 0
        while v[0] == 'P' and n < 12:
            loc = v
            v = self.res(st, self.get(st, v[1], v[2]))
            n += 1
        if v[0] == 'FUT':
            return self.apply(st, v[1], v[2], v[3])
        if v[0] == 'G':
            return self.run_body(v[1], v[3], [v, self.newcell(st, U)], st)
        if v[0] == 'MD':
            out = []
            if v[2] is not None:
                return [(st, UNIT)]
            for s, r in self.poll(st, v[1]):
                self.put(s, loc[1], loc[2], ('MD', v[1], r))
                out.append((s, UNIT))
            return out
        if v[0] == 'PF':
            out = []
            for s, r in self.closure(st, v[1], [self.newcell(st, U)]):
                r = self.res(s, r)
                if r[0] == 'A' and short(r[1]) == 'Poll':
                    if r[2] == 0:
                        out.append((s, r[3][0]))
                    else:
                        raise Undecided('pending future')
                else:
                    raise Undecided('poll_fn')
            return out
        if v[0] == 'A' and short(v[1]) == 'Ready':
            return [(st, v[3][0])]
        raise Undecided('future of kind ' + str(v[1] if v[0] == 'X' else v[0]))

    # ---- standard library --------------------------------------------------------------------------------------------------------
    def extern(self, st, fr, c, fn, name, args, dest):
        f2 = '::'.join(fn.split('::')[-3:])
        if fn.startswith('core::ops::bit::') and name == 'not':
            v = self.deref_all(st, args[0])
            if v[0] == 'B':
                return [(st, self.bnot(v))]
        if fn.startswith(('core::panicking', 'std::panicking', 'core::option::expect_failed', 'core::option::unwrap_failed', 'core::result::unwrap_failed', 'alloc::rt', 'std::rt')) or name in ('begin_panic', 'panic_fmt', 'panic_display'):
            self.panic(st, 'reaches ' + short(fn))
            return []
        if '::rcs::' in fn or '::sync::' in fn or '::boxed::' in fn or '::pin::' in fn or '::rc::' in fn:
            if name in ('new', 'pin', 'from'):
                return [(st, self.newcell(st, args[0]))]
            if name in ('new_unchecked', 'as_mut', 'as_ref', 'deref', 'into_pin', 'get_mut', 'get_unchecked_mut', 'into_inner', 'as_ptr', 'get_ref'):
                v = self.res(st, args[0])
                if name in ('as_mut', 'as_ref', 'as_ptr') and v[0] == 'P':
                    return [(st, self.pointer(st, v))]
                return [(st, args[0])]
            if name == 'new_uninit':
                return [(st, self.newcell(st, ('MU', None)))]
            if name in ('box_assume_init_into_vec_unsafe', 'assume_init'):
                v = self.deref_all(st, args[0])
                if v[0] == 'MU' and v[1] is not None:
                    v = v[1]
                if name == 'assume_init':
                    return [(st, v)]
                return [(st, self.to_V(v))]
            if name == 'ptr_eq':
                return [(st, ('B', ('unk', self.fresh())))]
        if fn.startswith('core::option'):
            return self.option_call(st, fr, name, args, dest)
        if fn.startswith('core::result'):
            return self.result_call(st, fr, name, args, dest)
        if fn.startswith('alloc::vec') or fn.startswith('core::slice') or fn.startswith('alloc::slice'):
            if self.opaque and dest is not None and args and self.deref_all(st, args[0])[0] in ('K', 'Q'):
                ks = tuple(self.scalar_deep(st, a) for a in args)       # a table of constants
                q = None if None in ks else self.unknown(st, self.place_ty(fr, dest), (fn, ks))
                if q is not None:
                    return q
            return self.vec_call(st, fr, name, args, dest)
        if fn.startswith('core::future'):
            if name == 'get_context':
                return [(st, self.newcell(st, U))]
            if name == 'ready':
                return [(st, ('MD', None, args[0]))]
        if 'maybe_done' in fn:
            if name == 'maybe_done':
                return [(st, ('MD', args[0], None))]
            if name == 'take_output':
                loc, v = self.it_loc(st, args[0])
                if v[0] != 'MD':
                    raise Undecided('take_output')
                if v[2] is None:
                    return [(st, self.option(None))]
                self.put(st, loc[1], loc[2], ('MD', None, None))
                return [(st, self.option(v[2]))]
        if 'poll_fn' in fn and name == 'poll_fn':
            return [(st, ('PF', args[0]))]
        if name == 'is_ready':
            v = self.deref_all(st, args[0])
            if v[0] == 'A':
                return [(st, TRUE if v[2] == 0 else FALSE)]
        if fn.startswith('core::mem'):
            if name == 'drop' or name == 'forget':
                return [(st, UNIT)]
            if name in ('take', 'replace'):
                p = self.res(st, args[0])
                v = self.get(st, p[1], p[2])
                w = args[1] if name == 'replace' else ('DEF',)
                self.put(st, p[1], p[2], w)
                return [(st, v)]
            if name == 'swap':
                p, q = self.res(st, args[0]), self.res(st, args[1])
                v, w = self.get(st, p[1], p[2]), self.get(st, q[1], q[2])
                self.put(st, p[1], p[2], w)
                self.put(st, q[1], q[2], v)
                return [(st, UNIT)]
        if fn.startswith('core::ptr') and name == 'eq':
            return [(st, ('B', ('unk', self.fresh())))]
        if 'black_box' in fn or fn == 'core::hint::must_use':
            return [(st, args[0])]
        if fn.startswith('core::convert') and name == 'identity':
            return [(st, args[0])]
        if fn.startswith('core::num') or fn.startswith('core::cmp'):
            if name in ('wrapping_add', 'saturating_add'):
                return self.binop(st, 'Add', args[0], args[1])
            if name in ('wrapping_sub',):
                return self.binop(st, 'Sub', args[0], args[1])
        q = self.scalar_call(st, fr, c, fn, name, args, dest)
        if q is not None:
            return q
        raise Undecided('call of ' + fn)

    # ---- numbers, texts, types and the world outside -----------------------------------------------------------------------------
    PURE = ('core::num', 'core::mem', 'core::any', 'core::cmp', 'core::fmt', 'alloc::fmt', 'alloc::string', 'core::str', 'alloc::str', 'core::char', 'core::ops::range',
            'core::convert', 'core::bool', 'core::ptr')
    WORLD = ('std::env', 'std::time', 'std::thread', 'core::sync::atomic', 'core::time', 'std::process', 'core::hash', 'std::hash')

    def scalar_call(self, st, fr, c, fn, name, args, dest):
        """a call that only reads numbers, texts and types: its result is one of those, and nothing else about it is known"""
        if not self.opaque or dest is None:
            return None
        t = self.place_ty(fr, dest)
        if fn.startswith(('core::cmp', 'core::num')):
            v = self.exact_call(st, name, [self.deref_all(st, a) for a in args])
            if v is not None:
                return v
        pure = fn.startswith(self.PURE)
        if not pure and not fn.startswith(self.WORLD):
            return None
        ks = []
        if pure:
            for a in args:
                k = self.scalar_deep(st, a)
                if k is None:
                    return None
                ks.append(k)
        fa = tuple(self.cr.ty(x, fr.sub) for x in c.get('fa') or [])
        if fn.startswith('core::mem') and any(self.wordlike(fr, t) for t in fa):
            raise Undecided('size of a word')                            # one of the numbers of positions and bits
        key = (fn, fa, tuple(ks)) if pure else (fn, self.fresh())
        return self.unknown(st, t, key)

    def wordlike(self, fr, t):
        if t[0] == 'int':
            return True
        bs = [self.cr.bodies[f.bid] for f in self.stack[-1:]] + [self.cr.bodies[fr.bid]]
        for b in bs:
            for p in b.get('preds') or []:
                if len(p) > 1 and self.cr.ty(p[0], fr.sub) == t and short(str(p[1])) not in self.PLAINBOUNDS:
                    return True
        return False
    PLAINBOUNDS = ('Sized', 'Key', 'Value', 'Clone', 'Debug', 'Eq', 'PartialEq', 'Send', 'Sync', 'Copy', 'Hash', 'HashLike', 'Into', 'From', 'Default', 'Fn', 'FnMut', 'FnOnce')

    def scalar_deep(self, st, v):
        k = self.scalar(st, v)
        if k is not None:
            return k
        v = self.deref_all(st, v)
        if v[0] in ('T', 'A'):
            xs = v[1] if v[0] == 'T' else v[3]
            ks = [self.scalar_deep(st, x) for x in xs]
            return None if None in ks else (v[0],) + (tuple(v[1:3]) if v[0] == 'A' else ()) + tuple(ks)
        if v[0] == 'V' and all(p[0] == 'e' for p in v[3]):
            ks = [self.scalar_deep(st, p[1]) for p in v[3]]
            return None if None in ks else ('V',) + tuple(ks)
        return None

    def unknown(self, st, t, key):
        """a value of type t about which nothing is known -> [(state, value)], or None where it could be part of the collection"""
        if t[0] == 'bool':
            return [(st, ('B', ('unk', key)))]
        if t[0] in ('int', 'float', 'char', 'str'):
            return [(st, ('Q', key))]
        if t == ('tuple', ()):
            return [(st, UNIT)]
        if t[0] == 'ref':
            r = self.unknown(st, t[2], key)
            return r and [(s, self.newcell(s, v)) for s, v in r]
        if t[0] == 'adt' and t[1] not in self.cr.adts or t[0] == 'adt' and not self.cr.adts[t[1]].get('local'):
            n = short(t[1])
            if n == 'Option' and t[2]:
                out = []
                for s, b in self.fork(st, ('B', ('unk', ('some', key)))):
                    if not b:
                        out.append((s, self.option(None)))
                        continue
                    r = self.unknown(s, t[2][0], ('val', key))
                    if r is None:
                        return None
                    out += [(s2, self.option(v)) for s2, v in r]
                return out
            if n == 'Result' and len(t[2]) == 2:
                out = []
                for s, b in self.fork(st, ('B', ('unk', ('ok', key)))):
                    r = self.unknown(s, t[2][0 if b else 1], ('val', key))
                    if r is None:
                        return None
                    out += [(s2, self.result(b, v)) for s2, v in r]
                return out
            if all(x[0] in ('int', 'bool', 'float', 'str', 'char', 'lifetime', 'region') for x in t[2]):
                return [(st, ('Q', key))]
        return None

    def exact_call(self, st, name, a):
        """the arithmetic of the standard library that only chooses between its operands"""
        if len(a) == 2 and a[0][0] == a[1][0] == 'I':
            x, y = a
            lt = ('B', ('lt', x[1], y[1]))
            if name in ('min', 'max'):
                return [(s, (x if b == (name == 'min') else y)) for s, b in self.fork(st, lt)]
            if name == 'saturating_sub':
                return [(s, ('I', ZERO if b else x[1] - y[1])) for s, b in self.fork(st, lt)]
            if name == 'checked_sub':
                return [(s, self.option(None if b else ('I', x[1] - y[1]))) for s, b in self.fork(st, lt)]
            if name == 'abs_diff':
                return [(s, ('I', y[1] - x[1] if b else x[1] - y[1])) for s, b in self.fork(st, lt)]
        return None

    def option_call(self, st, fr, name, args, dest):
        if name == 'as_ref' or name == 'as_mut':
            p = self.res(st, args[0])
            w = self.res0(st, self.get(st, p[1], p[2]))
            out = []
            for s, vi, fs in self.enum_cases(st, w):
                if vi == 0:
                    out.append((s, self.option(None)))
                else:
                    # the payload keeps its identity
                    q = self.res(s, fs[0]) if False else None
                    out.append((s, self.option(('P', p[1], p[2] + (('d', 1), ('f', 0))))))
            return out
        v = self.res(st, args[0])
        if name in ('is_some', 'is_none'):
            v = self.deref_all(st, v)
        out = []
        for s, vi, fs in self.enum_cases(st, v):
            some = vi == 1
            x = fs[0] if some else None
            if name in ('unwrap', 'expect', 'unwrap_unchecked'):
                if some:
                    out.append((s, x))
                else:
                    self.panic(s, 'unwrap of an absent value')
            elif name == 'map':
                if some:
                    out += [(s2, self.option(r)) for s2, r in self.closure(s, args[1], [x])]
                else:
                    out.append((s, self.option(None)))
            elif name == 'and_then':
                if some:
                    out += self.closure(s, args[1], [x])
                else:
                    out.append((s, self.option(None)))
            elif name == 'is_some':
                out.append((s, TRUE if some else FALSE))
            elif name == 'is_none':
                out.append((s, FALSE if some else TRUE))
            elif name == 'unwrap_or':
                out.append((s, x if some else args[1]))
            elif name == 'unwrap_or_default':
                out.append((s, x if some else ('DEF',)))
            elif name == 'unwrap_or_else':
                if some:
                    out.append((s, x))
                else:
                    out += self.closure(s, args[1], [])
            elif name == 'map_or':
                if some:
                    out += self.closure(s, args[2], [x])
                else:
                    out.append((s, args[1]))
            elif name == 'map_or_else':
                out += self.closure(s, args[2], [x]) if some else self.closure(s, args[1], [])
            elif name == 'ok_or':
                out.append((s, self.result(True, x) if some else self.result(False, args[1])))
            elif name in ('cloned', 'copied'):
                out.append((s, self.option(self.deref(s, x)) if some else self.option(None)))
            elif name == 'ok_or_else':
                out += [(s, self.result(True, x))] if some else [(s2, self.result(False, r)) for s2, r in self.closure(s, args[1], [])]
            elif name == 'or':
                out.append((s, self.option(x) if some else args[1]))
            elif name == 'or_else':
                out += [(s, self.option(x))] if some else self.closure(s, args[1], [])
            elif name == 'and':
                out.append((s, args[1] if some else self.option(None)))
            elif name == 'filter':
                if some:
                    for s2, r in self.closure(s, args[1], [self.newcell(s, x)]):
                        out += [(s3, self.option(x if b else None)) for s3, b in self.fork(s2, r)]
                else:
                    out.append((s, self.option(None)))
            elif name in ('is_some_and', 'is_none_or'):
                out += self.closure(s, args[1], [x]) if some else [(s, FALSE if name == 'is_some_and' else TRUE)]
            elif name == 'flatten':
                out.append((s, x if some else self.option(None)))
            elif name in ('zip', 'xor'):
                for s2, vi2, fs2 in self.enum_cases(s, self.res(s, args[1])):
                    y = fs2[0] if vi2 == 1 else None
                    if name == 'zip':
                        out.append((s2, self.option(('T', (x, y)) if some and vi2 == 1 else None)))
                    else:
                        out.append((s2, self.option(None if some == (vi2 == 1) else x if some else y)))
            else:
                raise Undecided('Option::' + name)
        return out

    def result_call(self, st, fr, name, args, dest):
        v = self.res(st, args[0])
        if name in ('is_ok', 'is_err'):
            v = self.deref_all(st, v)
        if name == 'as_ref':
            p = self.res(st, args[0])
            out = []
            for s, vi, fs in self.enum_cases(st, self.res0(st, self.get(st, p[1], p[2]))):
                out.append((s, self.result(vi == 0, ('P', p[1], p[2] + (('d', vi), ('f', 0))))))
            return out
        out = []
        for s, vi, fs in self.enum_cases(st, v):
            ok = vi == 0
            x = fs[0]
            if name in ('unwrap', 'expect'):
                if ok:
                    out.append((s, x))
                else:
                    self.panic(s, 'unwrap of an error')
            elif name == 'ok':
                out.append((s, self.option(x if ok else None)))
            elif name == 'err':
                out.append((s, self.option(None if ok else x)))
            elif name == 'is_ok':
                out.append((s, TRUE if ok else FALSE))
            elif name == 'is_err':
                out.append((s, FALSE if ok else TRUE))
            elif name == 'map':
                out += [(s2, self.result(True, r)) for s2, r in self.closure(s, args[1], [x])] if ok else [(s, self.result(False, x))]
            elif name == 'map_err':
                out += [(s, self.result(True, x))] if ok else [(s2, self.result(False, r)) for s2, r in self.closure(s, args[1], [x])]
            elif name == 'unwrap_or_else':
                out += [(s, x)] if ok else self.closure(s, args[1], [x])
            elif name == 'unwrap_or':
                out.append((s, x if ok else args[1]))
            elif name == 'unwrap_or_default':
                out.append((s, x if ok else ('DEF',)))
            elif name == 'and_then':
                out += self.closure(s, args[1], [x]) if ok else [(s, self.result(False, x))]
            elif name == 'or_else':
                out += [(s, self.result(True, x))] if ok else self.closure(s, args[1], [x])
            elif name == 'map_or':
                out += self.closure(s, args[2], [x]) if ok else [(s, args[1])]
            elif name == 'map_or_else':
                out += self.closure(s, args[2], [x]) if ok else self.closure(s, args[1], [x])
            elif name == 'unwrap_err':
                if ok:
                    self.panic(s, 'unwrap_err of a value')
                else:
                    out.append((s, x))
            elif name in ('is_ok_and', 'is_err_and'):
                out += self.closure(s, args[1], [x]) if ok == (name == 'is_ok_and') else [(s, FALSE)]
            else:
                raise Undecided('Result::' + name)
        return out

    def vec_loc(self, st, v):
        v = self.res(st, v)
        if v[0] != 'P':
            raise Undecided('vector expected, got ' + (v[1] if v[0] == 'X' else v[0]))
        w = self.res(st, self.get(st, v[1], v[2]))
        while w[0] == 'P':
            v, w = w, self.res(st, self.get(st, w[1], w[2]))
        return v, self.to_V(w)

    def vec_call(self, st, fr, name, args, dest):
        if name in ('new', 'with_capacity'):
            return [(st, ('V', ZERO, ZERO, ()))]
        if name in ('deref', 'as_slice', 'as_mut_slice', 'deref_mut', 'as_ref', 'borrow'):
            return [(st, self.vec_loc(st, args[0])[0])]
        if name == 'into_iter':
            return self.into_iter(st, args[0])
        if name == 'iter':
            p, V = self.vec_loc(st, args[0])
            return [(st, ('IT', 'ref', p))]
        if name in ('into_boxed_slice', 'into_vec'):
            return [(st, args[0])]
        p, V = self.vec_loc(st, args[0])
        if name == 'len':
            return [(st, ('I', V[2]))]
        if name == 'is_empty':
            return [(st, ('B', ('ieq', V[2])))]
        if name == 'reserve' or name == 'shrink_to_fit':
            return [(st, UNIT)]
        if name == 'push':
            e = args[1]
            self.put(st, p[1], p[2], ('V', st.norm(V[1] + self.content(st, e)), st.norm(V[2] + const(1)), V[3] + (('e', e),)))
            return [(st, UNIT)]
        if name == 'append':
            q, W = self.vec_loc(st, args[1])
            self.put(st, p[1], p[2], ('V', st.norm(V[1] + W[1]), st.norm(V[2] + W[2]), V[3] + W[3]))
            self.put(st, q[1], q[2], ('V', ZERO, ZERO, ()))
            return [(st, UNIT)]
        if name in ('pop',):
            ety = self.place_ty(fr, dest)[2][0]
            out = []
            for s, empty in self.fork(st, ('B', ('ieq', V[2]))):
                if empty:
                    out.append((s, self.option(None)))
                    continue
                if V[3] and V[3][-1][0] == 'e':
                    e = V[3][-1][1]
                    self.put(s, p[1], p[2], ('V', s.norm(V[1] - self.content(s, e)), s.norm(V[2] - const(1)), V[3][:-1]))
                    out.append((s, self.option(e)))
                elif self.nodety(ety):
                    lvs = self.piece_levels(s, V[3])
                    lv = lvs.pop() + const(1) if len(lvs) == 1 else None
                    i = self.fsym(ety, popof=V[3], level=lv, parts=(('pop', self.fresh()),), pos=True)
                    if s.norm(V[2] - const(1)).is_zero():
                        s.eqc(Lin({('N', i): 1}) - V[1])
                        self.put(s, p[1], p[2], ('V', ZERO, ZERO, ()))
                    else:
                        s.eqc(s.norm(V[1]) - Lin({('N', i): 1}) - Lin({('rest', 'e', i): 1}))
                        self.put(s, p[1], p[2], ('V', s.norm(V[1] - Lin({('N', i): 1})), s.norm(V[2] - const(1)), (('unk',),)))
                    out.append((s, self.option(('S', i))))
                else:
                    e, c = self.bag_elem(s, ety, V[1], V[3])
                    self.put(s, p[1], p[2], ('V', s.norm(V[1] - c), s.norm(V[2] - const(1)), V[3]))
                    out.append((s, self.option(e)))
            return out
        if name in ('swap_remove', 'remove'):
            i = st.norm(self.as_int(st, args[1]))
            at = [a for a in i.d if a != ONE and a[0] == 'pos']
            if len(i.d) == 1 and at and i.d[at[0]] == 1:
                e, c, n = st.bools[('pos', at[0][1])]
                if st.norm(n - V[1]).d:
                    raise Undecided('index used after the list changed')
                self.put(st, p[1], p[2], ('V', st.norm(V[1] - c), st.norm(V[2] - const(1)), V[3]))
                return [(st, e)]
            if i.const() is not None:
                ety = self.place_ty(fr, dest)
                e, c = self.bag_elem(st, ety, V[1], V[3])
                self.put(st, p[1], p[2], ('V', st.norm(V[1] - c), st.norm(V[2] - const(1)), V[3]))
                return [(st, e)]
            raise Undecided('removal at an unknown index')
        if name in ('index', 'get', 'get_unchecked') and len(args) == 2:
            i = st.norm(self.as_int(st, args[1]))
            at = [a for a in i.d if a != ONE and a[0] == 'pos']
            if len(i.d) == 1 and at and i.d[at[0]] == 1:
                e, c, n = st.bools[('pos', at[0][1])]
                if st.norm(n - V[1]).d:
                    raise Undecided('index used after the list changed')
                r = self.newcell(st, e)
                return [(st, self.option(r) if name == 'get' else r)]
        raise Undecided('Vec::' + name)

    def piece_levels(self, st, pieces):
        out = set()
        for p in pieces:
            if p[0] == 'loop':
                for i in st.loops.get(p[1], ()):
                    for r in self.loopinfo[p[1]]['outs'][i].get('fv', {}).values():
                        if r and r[0] == 'ok':
                            out.add(st.norm(r[1]))
            elif p[0] == 'e':
                pass
        return out

    # ---- local functions ------------------------------------------------------------------------------------------------------------
    def local_call(self, st, fr, c, bid, args, dest):
        b = self.cr.bodies[bid]
        sub = self.callee_sub(fr, c, b)
        if bid in self.contracts and bid not in self.inline:
            k = self.contracts[bid]
            if getattr(k, 'isasync', False):
                return [(st, ('FUT', bid, tuple(args), sub))]
            return self.apply(st, bid, args, sub)
        ins, out = self.fnsig(b)
        v = self.special(st, fr, b, ins, out, args, dest, sub)
        if v is not None:
            return v
        if b.get('unsafe') and False:
            pass
        return self.run_body(bid, sub, args, st)

    def special(self, st, fr, b, ins, out, args, dest, sub):
        # operations: call / reverse
        if ins and self.is_op(strip_ref(ins[0])) and b['kind'] == 'AssocFn':
            v = self.deref_all(st, args[0])
            if v[0] == 'O':
                if out[0] == 'adt' and short(out[1]) in ENTRY_RES:
                    rty = self.place_ty(fr, dest) if dest is not None else subst(out, sub)
                    return self.event(st, v, args[1:], rty)
                if self.is_op(out) and len(ins) == 1:
                    return [(st, ('O', v[1], v[2] ^ 1))]
        # positions of a hash
        fl = out
        opt = False
        if is_flag_opt(out):
            fl, opt = out[2][0], True
        if fl[0] == 'adt' and short(fl[1]) == 'Flag' and len(ins) <= 2:
            wrap = self.option if opt else (lambda x: x)
            if len(ins) == 1 and strip_ref(ins[0]) == fl and opt:
                h, lv, s = self.flag_parts(st, args[0])
                return [(st, wrap(self.mkflag(fl[1], h, st.norm(lv + const(1)))))]
            if ins and ins[0][0] == 'param':
                h = self.res(st, args[0])
                if h[0] != 'H':
                    raise Undecided('position of an unknown hash')
                if len(ins) == 2 and ins[1] == ('int', 'usize'):
                    return [(st, wrap(self.mkflag(fl[1], h[1], st.norm(self.as_int(st, args[1])))))]
                if len(ins) == 1:
                    return [(st, wrap(self.mkflag(fl[1], h[1], ZERO)))]
        # construction of an array from positions and children
        if len(ins) == 3 and out[0] == 'adt' and short(out[1]) == 'Result' and strip_ref(out[2][0])[0] == 'dyn' and 'BitIndexedArray' in str(strip_ref(out[2][0])[1]):
            na = self.new_array(st, args[0], args[1], args[2])
            return [(st, self.result(True, self.newcell(st, na)))]
        if len(ins) == 0 and strip_ref(out)[0] == 'dyn' and 'BitIndexedArray' in str(strip_ref(out)[1]):
            return [(st, self.newcell(st, ('NA', ZERO, ZERO, ZERO, (), self.fresh())))]
        return None

    # ---- contracts ----------------------------------------------------------------------------------------------------------------------
    def apply(self, st, bid, args, sub):
        k = self.contracts[bid]
        self.used.add(bid)
        self.callsites = getattr(self, 'callsites', set())
        if not self.quiet:
            self.callsites.add((self.stack[-1].bid if self.stack else '', bid, self.span))
        return getattr(self, 'call_' + k.kind)(st, k, list(args), sub)

    def leaf_hc(self, st, v):
        ps = self.parts(st, v)
        if len(ps) == 1 and ps[0][0] == 'hc':
            return ps[0][1]
        x = self.deref_all(st, v)
        if x[0] == 'S' and self.info(x[1]).get('hc') is not None:
            return self.info(x[1])['hc']
        if x[0] == 'A' and short(x[1]) in ('LNode', 'SNode'):
            return self.hc(self.kid_(st, x[3][self.node_fields(x[1])['key']]))
        return None

    def roles(self, st, c, args):
        """which of the user's operations stand in which position"""
        vs = [self.op_val(st, args[i]) for i, _, _ in c.ops]
        props = ('C07', 'C10')
        if len(vs) == 1:
            v = vs[0]
            ok = v[1] != 0
            self.check(ok, props, 'operation-role', 'the both-operation is passed where a one-sided operation is needed')
            if not ok:
                raise Infeasible()
            return (v[1],), 0
        both, l, r = vs
        ok = both[1] == 0 and l[1] != 0 and r[1] != 0 and l[1] != r[1]
        self.check(ok, props, 'operation-role', 'the operations are passed in the wrong roles')
        if not ok:
            raise Infeasible()
        roles = (l[1], r[1])
        ok = (roles == (1, 2)) == (both[2] % 2 == 0)
        self.check(ok, ('C10',), 'orientation', 'the both-operation is %s although the sides are %s' % ('reversed' if both[2] % 2 else 'not reversed', 'exchanged' if roles == (2, 1) else 'in order'))
        if not ok:
            raise Infeasible()
        return roles, both[2] % 2

    def call_job(self, st, c, args, sub):
        roles, par = self.roles(st, c, args)
        if c.reduce is not None and self.deref_all(st, args[c.reduce])[0] != 'RO':
            raise Undecided('reduction operation')
        nodes = [args[i] for i in c.nodes]
        conts = [self.content(st, n) for n in nodes]
        bag = None
        if c.bag is not None:
            loc, V = self.vec_loc(st, args[c.bag])
            h = self.vhc(st, V[3])
            i = self.fresh()
            after = Lin({('bag', i, h): 1})
            bag = (loc, V, h, after)
            conts.append(st.norm(V[1] - after))
        if len(conts) != len(roles):
            raise Undecided('contract arity')
        lv = self.as_int(st, args[c.depth]) if c.depth is not None else None
        self.pre_levels(st, c, nodes, lv)
        hs = [self.leaf_hc(st, n) if self.level_of(st, n) == 'leaf' else None for n in nodes]
        if bag:
            hs.append(bag[2])
        if len(conts) == 2 and lv is None:
            ok = hs[0] is not None and hs[1] is not None and st.hash_eq(hs[0], hs[1]) is True
            self.check(ok, ('C07', 'C13'), 'hash-mismatch', 'entries whose hashes are not known to be equal are treated as colliding')
            if not ok:
                raise Infeasible()
        joint_root = len(self.rootv) == 2
        for n, ro in zip(conts, roles):
            if ro not in self.rootv:
                raise Undecided('operation of another side')
        if len(conts) == 1:
            self.single(st, conts[0], roles[0], 'entries')
        elif joint_root:
            for a, b in ((0, 1), (1, 0)):
                if bag and b == 0:
                    continue        # what is taken out of the list has keys of the other part only (checked where that is done)
                r = self.rem(st, roles[b])
                rest = st.norm(r - (bag[1][1] if bag else conts[b]))
                ok = self.disjoint(st, conts[a], rest)
                self.check(ok, ('C07',) + (('C13',) if self.leafy else ()), 'partial-join', 'two parts are joined although keys of one may also be in another part of the other side', detail='%s against %s' % (conts[a], rest))
        for n, ro in zip(conts, roles):
            st.tot[ro] = st.norm(st.tot[ro] + n)
        if bag:
            loc, V, h, after = bag
            self.put(st, loc[1], loc[2], ('V', after, size_of(after), (('bag', h),)))
            st.eqc(st.norm(V[1]) - after - Lin({('rest', 'b', after.d.__iter__().__next__()[1]): 1}))
        parts = ()
        for n in nodes:
            parts = parts + tuple(p for p in self.parts(st, n) if p not in parts)
        if bag and bag[2] is not None:
            parts = parts + tuple(p for p in (('hc', bag[2]),) if p not in parts)
        info = {'parts': parts}
        if len(nodes) == 1 and len(conts) == 1:
            l = self.level_of(st, nodes[0])
            if l != 'leaf':
                info['level'] = l
            elif lv is None:
                ls = [p[3] + const(1) for p in self.parts(st, nodes[0]) if p[0] == 'kid'] or [p[3] + const(1) for h in self.parts(st, nodes[0]) if h[0] == 'hc' for q in self.origins(st, h[1]) for p in q if p[0] == 'kid']
                if ls and all(st.norm(x - ls[0]).is_zero() for x in ls):
                    info['level'] = ls[0]                                               # a leaf found in a branch: what is built of it replaces it there
        if lv is not None:
            info['level'] = lv
        if all(h is not None for h in hs) and len({st.hf(h) for h in hs}) == 1:
            info['hc'] = st.hf(hs[0])
        self.recursion(st, c, conts, lv)
        ty = subst(c.out, sub)
        fam = c.fam
        i = self.fsym(ty, res=('job', fam, conts[0], conts[1] if len(conts) > 1 else None, roles, c.bid), **info)
        st.out = st.out + Lin({('out', i): 1})
        st.red = st.red + Lin({('red', i): 1})
        return [(st, ('S', i))]

    def recursion(self, st, c, conts, lv):
        """edges between contracts applied to inputs of the same size"""
        same = True
        for s, n in self.rootv.items():
            w = st.norm(n(st))
            if not any(st.norm(x - w).is_zero() for x in conts):
                same = False
        if len(conts) != len(self.rootv):
            same = False
        if same and lv is not None and self.rootlv is not None and not st.norm(lv - self.rootlv).is_zero():
            same = False
        if same and not self.quiet:
            self.edges.setdefault(c.bid, self.span)

    def pre_levels(self, st, c, nodes, lv):
        ls = []
        for n in nodes:
            l = self.level_of(st, n)
            if l == 'leaf':
                continue
            if l is None:
                raise Undecided('depth of a node')
            ls.append(l)
        for l in ls:
            ref = lv if lv is not None else ls[0]
            ok = st.norm(ref - l).is_zero()
            self.check(ok, ('C04', 'C07'), 'depth-argument', 'parts of different depths are combined, or the depth passed on is not theirs', detail='passed %s, node at %s' % (st.norm(ref), st.norm(l)))
            if not ok:
                raise Infeasible()
        if lv is not None and len(nodes) == 2 and self.rootlv is not None:
            n = st.norm(lv - self.rootlv).const()
            if n is None or n < 0:
                self.check(False, ('C04', 'C07'), 'depth-argument', 'the depth passed on is not derived from the current depth', detail='%s' % st.norm(lv))
                raise Infeasible()
            if n == 0:
                return
            if any(self.part_slot(st, p, self.rootlv) is None for x in nodes for p in self.parts(st, x)):
                raise Undecided('position of a part')
            ok = n == 1 and self.together(st, nodes, self.rootlv)
            self.check(ok, ('C04', 'C07'), 'depth-argument', 'two parts from different positions are combined below the current depth')
            if not ok:
                raise Infeasible()

    def key_flag(self, st, c, args, node, key):
        """checks the position argument against key and node; returns level"""
        h = self.hc(self.kid_(st, key))
        l = self.level_of(st, node)
        if c.flag is None:
            return l if l != 'leaf' else None
        out = []
        fv = self.res(st, args[c.flag])
        if fv[0] != 'A':
            raise Undecided('position argument')
        if fv[2] == 0:
            if l == 'leaf' and c.kind in ('find', 'remove'):
                raise Undecided('no position for a node that needs none')
            self.check(False, ('C14',), 'missing-position', 'no position is passed on')
            raise Infeasible()
        fh, lv, s = self.flag_parts(st, fv[3][0])
        ok = st.hash_eq(fh, h) is True
        self.check(ok, ('C01', 'C04'), 'position-key', 'the position passed on does not belong to the key')
        if not ok:
            raise Infeasible()
        if l is None:
            raise Undecided('depth of a node')
        if l != 'leaf':
            ok = st.norm(l - lv).is_zero()
            self.check(ok, ('C01', 'C04'), 'position-depth', 'the position passed on is for another depth than the node', detail='%s vs %s' % (st.norm(lv), st.norm(l)))
            if not ok:
                raise Infeasible()
        elif self.rootlv is not None:
            n = st.norm(lv - self.rootlv).const()
            if n == 0:
                return lv
            ok = False
            if n == 1:
                ok = self.at_slot(st, node, ('hs', h, self.rootlv), self.rootlv)
            self.check(ok, ('C01', 'C04'), 'position-depth', 'the position passed on is for another depth than the node')
            if not ok:
                raise Infeasible()
        return lv

    def call_find(self, st, c, args, sub):
        node, key = args[c.node], args[c.key]
        self.key_flag(st, c, args, node, key)
        n = self.content(st, node)
        self.edge1(st, c, n)
        i = self.fsym(subst(c.out, sub), res=('find', n, key, c.bid), khc=self.hc(self.kid_(st, key)))
        return [(st, ('S', i))]

    def edge1(self, st, c, n):
        w = self.rootv.get(1)
        if w is not None and st.norm(n - w(st)).is_zero() and not self.quiet:
            self.edges.setdefault(c.bid, self.span)

    def call_insert(self, st, c, args, sub):
        node, key, val = args[c.node], args[c.key], args[c.value]
        lv = self.key_flag(st, c, args, node, key)
        n = self.content(st, node)
        self.edge1(st, c, n)
        h = self.hc(self.kid_(st, key))
        ps = self.parts(st, node)
        ps = ps + tuple(p for p in (('hc', h),) if p not in ps)
        rep = self.res(st, args[c.replace])
        if rep[0] != 'B':
            raise Undecided('replace flag')
        i = self.fsym(subst(c.out, sub), res=('ins', n, key, val, rep, c.bid), parts=ps, level=lv, khc=h)
        return [(st, ('S', i))]

    def call_remove(self, st, c, args, sub):
        node, key = args[c.node], args[c.key]
        lv = self.key_flag(st, c, args, node, key)
        n = self.content(st, node)
        self.edge1(st, c, n)
        l = self.level_of(st, node)
        info = {}
        hs = self.leaf_hc(st, node) if l == 'leaf' else None
        if hs is not None:
            info['hc'] = hs
        i = self.fsym(subst(c.out, sub), res=('rem', n, key, c.bid), parts=self.parts(st, node), level=l if l != 'leaf' else lv, khc=self.hc(self.kid_(st, key)), **info)
        return [(st, ('S', i))]

    def call_visit(self, st, c, args, sub):
        if self.deref_all(st, args[c.op])[0] != 'VO':
            raise Undecided('visit operation')
        n = self.content(st, args[c.node])
        self.edge1(st, c, n)
        st.tot[1] = st.norm(st.tot[1] + n)
        return [(st, UNIT)]

    def call_lift(self, st, c, args, sub):
        a, fa, b, fb = args
        ha, la, sa = self.flag_parts(st, fa)
        hb, lb, sb = self.flag_parts(st, fb)
        for n, h, s, l in ((a, ha, sa, la), (b, hb, sb, lb)):
            ok = self.level_of(st, n) == 'leaf' and all(p[0] == 'hc' and st.hash_eq(p[1], h) is True for p in self.parts(st, n))
            self.check(ok, ('C04', 'C13'), 'lift-position', 'a node is pushed down along a position that is not its own')
            if not ok:
                raise Infeasible()
        ok = st.norm(la - lb).is_zero()
        self.check(ok, ('C04',), 'lift-depth', 'two nodes are pushed down from different depths')
        ok2 = st.hash_eq(ha, hb) is False
        self.check(ok2, ('C13', 'C14'), 'lift-equal-hash', 'two nodes whose hashes may be equal are pushed down until they separate: this never ends for equal hashes')
        if not ok or not ok2:
            raise Infeasible()
        lv = la
        if self.root.kind == 'lift' and st.norm(lv - self.rootlv).is_zero() and not self.quiet:
            self.edges.setdefault(c.bid, self.span)
        if self.rootlv is not None and self.root.kind != 'lift':
            n = st.norm(lv - self.rootlv).const()
            okd = n == 0 or (n == 1 and self.together(st, (a, b), self.rootlv))
            self.check(okd, ('C04',), 'lift-depth', 'two nodes are pushed down from a depth at which they are not together')
            if not okd:
                raise Infeasible()
        n = self.content(st, a) + self.content(st, b)
        ps = self.parts(st, a) + tuple(p for p in self.parts(st, b) if p not in self.parts(st, a))
        i = self.fsym(subst(c.out, sub), level=lv, parts=ps, pos=True)
        self.held[i] = (a, b)
        st.eqc(Lin({('N', i): 1}) - n)
        return [(st, ('S', i))]


ONE_ = const(1)
