"""Verifies one contract function: sets up its parameters, interprets its body and checks every way it can end."""
import sys
import traceback
from dom import Lin, ZERO, const, atom, size_of, ONE
from ir import Crate, short, tys
from state import St, Infeasible, Undecided, MAX
from engine import U, TRUE, FALSE, UNIT
from contracts import node_kind, strip_ref, OPS
from sem import all_contracts, subst
from calls import Calls

LV = atom('lv')


class Verifier(Calls):
    def __init__(self, cr, contracts=None, shapes=None, inline=(), open_ops=True):
        super().__init__(cr, contracts, shapes, inline)
        self.edges = {}
        self.rootlv = None
        self.opadt = {}
        self.leafy = False
        self.exits = 0
        self.used = set()

    def verify(self, bid):
        self.rootbid = bid
        c = self.root = self.contracts[bid] if bid in self.contracts else None
        self.span = self.cr.bodies[bid]['file']
        getattr(self, 'root_' + c.kind)(c)
        return self

    # ---- parameters ---------------------------------------------------------------------------------------
    def node_param(self, st, i, side, t):
        k = node_kind(t)
        inner = strip_ref(t)
        info = {'isroot': True, 'side': side}
        if k in ('LNode', 'SNode'):
            info['hc'] = ('hroot', side)
            info['pos'] = True
        else:
            info['level'] = self.rootlv
        n = self.sym(('param', side), inner, **info)
        if k in ('LNode', 'SNode'):
            self.hcroot[('hroot', side)] = Lin({('N', n): 1})
        v = ('S', n)
        wrap = []
        while t != inner:
            wrap.append(t)
            t = self.pointee(t)
        for w in wrap:
            cell = ('h', 'param', side, len(wrap), self.fresh())
            st.mem[cell] = v
            v = ('P', cell, ())
        if k in ('CNode', 'LNode', 'SNode'):
            self.res(st, ('S', n))
        return v, n

    def inputs(self, bid):
        b = self.cr.bodies[bid]
        return [self.cr.ty(i) for i in b['inputs']]

    def drive(self, bid, args, st, isasync):
        out = []
        for s, v in self.run_body(bid, {}, args, st):
            if isasync:
                self.stack.append(_Root(bid))
                try:
                    out += self.poll(s, v)
                except Infeasible:
                    pass
                except Undecided as e:
                    self.undecide(str(e))
                finally:
                    self.stack.pop()
            else:
                out.append((s, v))
        return out

    def cases(self, st, v):
        try:
            return self.enum_cases(st, v)
        except Infeasible:
            return []
        except Undecided as e:
            self.undecide(str(e))
            return []

    def each_exit(self, rets, f):
        sp = self.span
        for s, v in rets:
            for s2, vi, fs in self.cases(s, v):
                self.exits += 1
                try:
                    s2.refresh()
                    w = self.res(s2, v)
                    f(s2, self.vname(w[1], vi), w)
                except Infeasible:
                    pass
                except Undecided as e:
                    self.undecide('exit: ' + str(e))
        self.span = sp

    # ---- transform / transmute / joint ----------------------------------------------------------------------------
    def root_job(self, c):
        bid = c.bid
        ins = self.inputs(bid)
        st = St(self)
        self.rootlv = LV
        args = [None] * len(ins)
        self.leafy = True
        self.nodesyms = {}
        for n, i in enumerate(c.nodes):
            args[i], s = self.node_param(st, i, n + 1, ins[i])
            self.nodesyms[n + 1] = s
            if node_kind(ins[i]) not in ('LNode', 'SNode'):
                self.leafy = False
            self.rootv[n + 1] = (lambda s: lambda x: Lin({('N', s): 1}))(s)
        self.bagcell = None
        if c.bag is not None:
            h = ('hroot', 1)
            b = Lin({('bag', 0, h): 1})
            p = self.newcell(st, ('V', b, size_of(b), (('bag', h),)))
            args[c.bag] = p
            self.bagcell = p
            self.rootv[2] = lambda x: b
            self.hcroot[('hroot', 2)] = b
        joint = len(c.ops) == 3
        if joint and c.depth is None and c.bag is None:
            st.merge_hash(('hroot', 1), ('hroot', 2))
        for n, (i, adt, _) in enumerate(c.ops):
            idx = n if joint else 1
            args[i] = ('O', idx, 0)
            self.opadt[idx] = ins[i][1]
        if c.reduce is not None:
            args[c.reduce] = ('RO',)
        if c.depth is not None:
            args[c.depth] = ('I', LV)
        if c.par is not None:
            args[c.par] = ('S', self.sym(('par',), ins[c.par], ispar=True))
        rets = self.drive(bid, args, st, c.isasync)
        self.each_exit(rets, lambda s, vn, v: self.exit_job(c, s, vn, v))

    def on_bind(self, st, i, v):
        info = self.info(i)
        if info.get('ispar'):
            st.par = self.vname(v[1], v[2])
        t = self.ty(i)
        if t[0] == 'adt' and short(t[1]) in ('LNode', 'SNode') and info.get('isroot') and info.get('hc') is not None:
            self.hcroot.setdefault(info['hc'], Lin({('N', i): 1}))
        super().on_bind(st, i, v)

    def derive(self, i, vi, fi, ty):
        out = super().derive(i, vi, fi, ty)
        p = self.info(i)
        t = self.ty(i)
        if p.get('isroot') and (self.is_ptr(t) or (t[0] == 'adt' and short(t[1]) in ('MNode', 'LNodeNext', 'CNode'))):
            out['isroot'] = True
        return out

    def jlab(self, c):
        base = ('C06',) if len(c.ops) == 1 else ('C07',)
        if self.leafy:
            base = base + ('C13',)
        return base

    def bulk(self, c, st):
        """content on which no operation was called, to be covered by constant operations; returns (ok, content, payload ops, named)"""
        rem = {s: st.norm(self.whole(st, s) - st.tot[s]) for s in self.rootv}
        if self.bagcell is not None:
            V = self.to_V(self.deref_all(st, self.bagcell))
            rem[2] = st.norm(self.rootv[2](st) - V[1] - st.tot[2])
        add, pays, ok, why = ZERO, set(), True, ''
        if all(r.is_zero() for r in rem.values()):
            return True, ZERO, None, '', rem
        if any(v < 0 for r in rem.values() for v in r.d.values()):
            return False, ZERO, None, 'some entries are handled twice', rem
        if len(rem) == 1:
            n = self.opname(st, 1)
            if n == 'Unchanged':
                return True, rem[1], {1}, '', rem
            if n == 'Removed':
                st.named[1] = False
                return True, ZERO, {1}, '', rem
            return False, ZERO, None, 'some entries are never given to the operation', rem
        P = {1: Lin({('PL',): 1}), 2: Lin({('PR',): 1})}
        O = {1: Lin({('LO',): 1}), 2: Lin({('RO',): 1})}
        both = not rem[1].is_zero() and not rem[2].is_zero()
        if both and self.disjoint(st, rem[1], rem[2]) and self.disjoint(st, rem[2], rem[1]):
            both = False
        for s in (1, 2):
            if rem[s].is_zero():
                st.eqc(P[s])
                st.eqc(O[s])
            else:
                if not both:
                    st.eqc(P[s])
                st.eqc(rem[s] - P[s] - O[s])
        if both:
            n = self.opname(st, 0)
            if n in ('UnchangedLR',):
                st.eqc(P[1] - P[2])
                add = add + P[1]
            elif n == 'UnchangedL' or (n == 'Unchanged' and c.fam == 'JTU'):
                add = add + P[1]
                st.named[2] = False
            elif n == 'UnchangedR' or (n == 'Unchanged' and c.fam == 'JUT'):
                add = add + P[2]
                st.named[1] = False
            elif n == 'Removed':
                st.named[1] = st.named[2] = False
            else:
                return False, ZERO, None, 'entries present on both sides are never given to the both-operation', rem
            pays.add(0)
        for s in (1, 2):
            if rem[s].is_zero():
                continue
            n = self.opname(st, s)
            if n == 'Unchanged':
                add = add + O[s]
                st.named[3 - s] = False
            elif n == 'Removed':
                st.named[1] = st.named[2] = False
            else:
                return False, ZERO, None, 'entries of one side are never given to its operation', rem
            pays.add(s)
        return True, add, pays, '', rem

    def exit_job(self, c, st, vn, v):
        # an accumulated result starts from an answer whose variant may not have been looked at
        for L in st.loops:
            for i, v0 in self.loopinfo[L].get('accs', {}).values():
                v0 = self.res0(st, v0)
                if v0[0] == 'S':
                    for s2, _, _ in self.cases(st, v0):
                        try:
                            s2.refresh()
                            self.exit_job(c, s2, vn, self.res(s2, v))
                        except Infeasible:
                            pass
                    return
        self.shape(c.bid, (vn,))
        lab = self.jlab(c) + self.extra_props(st)
        if st.opv is not None and len(st.opv) > 1:
            left = [st.norm(self.whole(st, x) - st.tot[x]) for x in self.rootv if x != 2 or self.bagcell is None]
            if not all(r.is_zero() for r in left):
                for a in sorted(st.opv):
                    s = st.copy()
                    s.opv = frozenset((a,))
                    try:
                        self.exit_job(c, s, vn, v)
                    except Infeasible:
                        pass
                return
        ok, add, pays, why, rem = self.bulk(c, st)
        self.check(ok, lab, 'entries-consumed', why or '', detail='left over %s' % (rem,))
        if not ok:
            return
        out = st.norm(st.out + add)
        r = ('job', c.fam, self.whole(st, 1), self.whole(st, 2), (1, 2), None)
        if self.bagcell is not None:
            V = self.to_V(self.deref_all(st, self.bagcell))
            r = r[:3] + (st.norm(self.rootv[2](st) - V[1]),) + r[4:]
        d, named = self.denote(st, vn, v, r)
        diff = st.norm(out - d)
        ok = diff.is_zero()
        ori = ()
        if not ok and vn in ('UnchangedL', 'UnchangedR') and st.norm(out - r[3 if vn == 'UnchangedL' else 2]).is_zero():
            ori = ('C10',)
        self.check(ok, lab + ori + (('C05',) if vn.startswith('Unchanged') else ()), 'result-content', 'returns %s although the answers stand for other entries' % vn, detail='answers %s, returned %s' % (out, st.norm(d)))
        if vn == 'UnchangedLR' and ok:
            ok = st.norm(out - r[3]).is_zero()
            self.check(ok, lab + ('C05',), 'result-content', 'returns UnchangedLR although the answers differ from the right side', detail='answers %s, right %s' % (out, st.norm(r[3])))
        # reduction
        pay = self.to_R(st, v[3][-1])
        rd = st.norm(pay - st.red)
        okr = rd.is_zero() if pays is None else any(st.norm(rd - atom('pay', p)).is_zero() for p in pays)
        self.check(okr, ('C08',) + self.extra_props(st), 'reduction', 'the reduced value does not combine every answer exactly once', detail='returned %s, answered %s' % (st.norm(pay), st.norm(st.red)))
        # structure
        if vn in ('C', 'L', 'S'):
            self.check_node(st, v[3][0], lab)
        # identity
        for s in self.rootv:
            if s in named or st.named[s] is False:
                continue
            s2 = st.copy()
            try:
                feas = True
                for cond in st.named[s]:
                    self.assume(s2, cond, True)
                # a part whose entries do not exist cannot have been named
                s2.refresh()
                if s2.norm(self.whole(s2, s)).is_zero():
                    feas = False
            except Infeasible:
                feas = False
            if feas and self.bagcell is not None and s == 2:
                feas = False
            alike = st.hash_eq(('hroot', 1), ('hroot', 2)) if len(self.rootv) > 1 and self.bagcell is None else None
            case = '' if alike is None else ' (keys of one hash)' if alike else ' (keys of two hashes)'
            self.check(not feas, ('C05',), 'identity', 'every answer says the %s input is unchanged, but %s is returned' % ('left' if s == 1 else 'right', vn) + case if len(self.rootv) > 1 else 'every answer says the input is unchanged, but %s is returned' % vn)

    def check_node(self, st, v, lab):
        """a node about to become part of a collection is well-formed; nodes that came from elsewhere already are"""
        n = 0
        while n < 30:
            n += 1
            if v[0] == 'S':
                t = strip_ref(self.ty(v[1]))
                if t[0] == 'adt' and short(t[1]) in ('CNode', 'MNode'):
                    self.check_level(st, v)
                return
            if v[0] == 'P':
                if v[1][0] == 's':
                    return
                v = self.get(st, v[1], v[2])
                continue
            if v[0] != 'A':
                return
            s = short(v[1])
            if s == 'CNode':
                self.check_level(st, v)
                return
            if s in ('MNode', 'LNodeNext'):
                v = v[3][0]
                continue
            if s == 'LNode':
                self.check_leaf(st, v)
            return

    def check_level(self, st, v):
        l = self.level_of(st, v)
        if l == 'leaf':
            return
        if l is None:
            raise Undecided('depth of result')
        if self.rootlv is None:
            return
        self.check(st.norm(l - self.rootlv).is_zero(), ('C04',), 'result-depth', 'a branch node is returned for another depth than the one asked for', detail='%s' % st.norm(l))

    def check_leaf(self, st, v):
        f = self.node_fields(v[1])
        c = self.content(st, v)
        sz = self.as_int(st, v[3][f['size']])
        self.check(st.norm(sz - size_of(c)).is_zero(), ('C03', 'C13'), 'leaf-size', 'the size stored in a collision node is not the number of its entries', detail='stored %s, entries %s' % (st.norm(sz), st.norm(size_of(c))))
        hs = set()
        for p in self.parts(st, v):
            hs.add(st.hf(p[1]) if p[0] == 'hc' else None)
        hs = list(hs)
        self.check(None not in hs and all(st.hash_eq(hs[0], h) is True for h in hs), ('C04', 'C13'), 'leaf-hash', 'a collision node is built from entries whose hashes are not known to be equal', detail='%s' % hs)
        self.check_node(st, v[3][f['next']], ())

    # ---- lookup ---------------------------------------------------------------------------------------------------------
    def kv(self, st, c, ins, hasval):
        """node, key and position parameters"""
        self.rootlv = LV
        args = [None] * len(ins)
        args[c.node], n = self.node_param(st, c.node, 1, ins[c.node])
        self.rootv = {1: lambda s: Lin({('N', n): 1})}
        self.leafy = node_kind(ins[c.node]) in ('LNode', 'SNode')
        kt = ins[c.key]
        k = self.sym(('key',), strip_ref(kt))
        v = ('S', k)
        if kt[0] == 'ref':
            st.mem[('h', 'key')] = v
            v = ('P', ('h', 'key'), ())
        args[c.key] = v
        if c.flag is not None:
            fl = ins[c.flag][2][0]
            args[c.flag] = self.option(self.mkflag(fl[1], self.hc(k), LV))
        else:
            if c.kind != 'find':
                pass
        self.keysym = k
        return args

    def lab1(self):
        return ('C01',) + (('C13',) if self.leafy else ())

    def root_find(self, c):
        ins = self.inputs(c.bid)
        st = St(self)
        args = self.kv(st, c, ins, False)
        rets = self.drive(c.bid, args, st, False)
        self.each_exit(rets, lambda s, vn, v: self.exit_find(c, s, vn, v))

    def has_entry(self, st, k, w):
        """entry (k, w) is one of the node's entries"""
        e = st.norm(self.entry(st, k, w))
        n = st.norm(self.rootv[1](st))
        return len(e.d) == 1 and all(n.d.get(a, 0) >= v for a, v in e.d.items())

    def key_is(self, st, k):
        return st.key_eq(self.kid_(st, k), self.keysym) is True

    def absent(self, st, c, deep=0):
        """no entry of content c has the sought key"""
        c = st.norm(c)
        k = st.kf(self.keysym)
        m = self.member_of(st, c, ('S', self.keysym))
        if m is False:
            return True
        if m is True:
            return False
        for (c2, k2), m in st.member.items():
            n2 = st.norm(c2)
            if m is False and st.kf(k2) == k and n2.d and all((c.d.get(a, 0) >= v) if v > 0 else (c.d.get(a, 0) <= v) for a, v in n2.d.items()):
                c = c - n2
        for a, v in c.d.items():
            if v < 0:
                raise Undecided('absence')
            if not self.absent_atom(st, a, deep):
                return False
        return True

    def absent_atom(self, st, a, deep=0):
        k = self.keysym
        if a[0] == 'E':
            return st.key_eq(a[1], k) is False
        h = self.atom_hc(st, a)
        if h is not None and st.hash_eq(h, self.hc(k)) is False:
            return True
        if a[0] == 'rest' and a[1] == 'a':
            s = a[3]
            return st.slot_eq(s, ('hs', self.hc(k), self.info(a[2]).get('level'))) is True
        if a[0] == 'N':
            for (c2, k2), m in st.member.items():
                if m is False and st.kf(k2) == st.kf(k) and st.norm(c2) == Lin({a: 1}):
                    return True
            for p in self.info(a[1]).get('parts') or ():
                if p[0] == 'kid' and p[2][0] != 'ord' and st.slot_eq(p[2], ('hs', self.hc(k), p[3])) is False:
                    return True
            return False
        if a[0] == 'B':
            lv = self.info(a[1]).get('level')
            if lv is None:
                return False
            kid = st.kid(a[1], ('hs', self.hc(k), lv))
            if kid is None:
                return False
            if kid[0] == 'none':
                return True
            if deep > 12:
                raise Undecided('absence')
            return self.absent(st, Lin({('N', kid[1]): 1}), deep + 1)
        return False

    def exit_find(self, c, st, vn, v):
        self.shape(c.bid, (vn,))
        if vn == 'NotFound':
            ok = self.absent(st, self.rootv[1](st))
            self.check(ok, self.lab1(), 'wrong-absence', 'reports absence although the key may be present')
            return
        k, w = v[3]
        ok = self.key_is(st, k)
        self.check(ok, self.lab1(), 'wrong-key', 'reports an entry whose key is not known to equal the sought key')
        ok = self.has_entry(st, k, w)
        self.check(ok, self.lab1(), 'foreign-entry', 'reports an entry that is not one of the node\'s', detail='%s in %s' % (st.norm(self.entry(st, k, w)), st.norm(self.rootv[1](st))))

    # ---- insertion ---------------------------------------------------------------------------------------------------------
    def root_insert(self, c):
        ins = self.inputs(c.bid)
        st = St(self)
        args = self.kv(st, c, ins, True)
        self.valsym = self.sym(('val',), strip_ref(ins[c.value]))
        args[c.value] = ('S', self.valsym)
        self.repl = ('sym', 'replace')
        args[c.replace] = ('B', self.repl)
        rets = self.drive(c.bid, args, st, False)
        self.each_exit(rets, lambda s, vn, v: self.exit_insert(c, s, vn, v))

    def exit_insert(self, c, st, vn, v):
        n = self.rootv[1](st)
        if vn == 'Found':
            k, w = v[3]
            self.check(self.key_is(st, k), self.lab1(), 'wrong-key', 'reports an existing entry whose key is not known to equal the inserted key')
            self.check(self.has_entry(st, k, w), self.lab1(), 'foreign-entry', 'reports an existing entry that is not one of the node\'s')
            self.check(self.decide(st, self.repl) is False, self.lab1(), 'not-replaced', 'hands back the existing entry although replacement was asked for')
            self.shape(c.bid, (vn,))
            return
        node, pk, pv, prev = v[3]
        for s, vi, fs in self.enum_cases(st, prev):
            try:
                self.exit_inserted(c, s, vn, v, n, vi, fs)
            except Infeasible:
                pass

    def shape(self, bid, s):
        self.newshapes.add(s)

    def exit_inserted(self, c, st, vn, v, n, vi, fs):
        node, pk, pv, prev = v[3]
        me = st.E(self.keysym, self.valsym)
        cont = self.content(st, node)
        self.shape(c.bid, (vn, 'Some' if vi else 'None'))
        if vi:
            t = self.res(st, fs[0])
            pe = self.entry(st, t[1][0], t[1][1])
            self.check(self.key_is(st, t[1][0]), self.lab1() + ('C15',), 'wrong-previous', 'hands back a previous entry whose key is not known to equal the inserted key')
            self.check(self.has_entry(st, t[1][0], t[1][1]), self.lab1() + ('C15',), 'wrong-previous', 'hands back a previous entry that was not in the collection')
            self.check(self.decide(st, self.repl) is True, self.lab1(), 'replaced-unasked', 'replaces an entry although replacement was not asked for')
            want = n + me - pe
        else:
            self.check(self.absent(st, n), self.lab1(), 'duplicate-key', 'adds an entry although an equal key may be present')
            want = n + me
        self.check(st.norm(cont - want).is_zero(), self.lab1(), 'insert-content', 'the new collection does not hold exactly the old entries and the inserted one', detail='built %s, expected %s' % (st.norm(cont), st.norm(want)))
        self.check_node(st, node, self.lab1())
        # returned references
        refs = self.refs(st, node)
        a, b = self.res(st, pk), self.res(st, pv)
        okp = a[0] == b[0] == 'P' and (a[1], a[2], 'k') in refs and (b[1], b[2], 'v') in refs
        self.check(okp, ('C15',), 'reference-target', 'the returned references do not point into the new collection', detail='%s %s not in %s' % (a, b, sorted(refs, key=str)[:6]))
        if okp:
            ki, wi = self.kid_(st, pk), self.vid(st, self.deref(st, pv))
            self.check(ki == self.keysym and wi == self.valsym, ('C15',), 'reference-entry', 'the returned references are not those of the inserted entry')

    def refs(self, st, v):
        """addresses of keys and values owned by a node built here"""
        out = set()
        seen = 0
        todo = [v]
        while todo and seen < 200:
            seen += 1
            x = todo.pop()
            if x[0] == 'S':
                todo += self.held.get(x[1], ())
                for cell, (n, w) in self.owner.items():
                    if n == x:
                        out.add((cell, (), w))
                x = self.res0(st, x)
            if x[0] == 'P':
                y = self.get(st, x[1], x[2])
                if y[0] == 'A' and short(y[1]) in ('LNode', 'SNode'):
                    f = self.node_fields(y[1])
                    out.add((x[1], x[2] + (('f', f['key']),), 'k'))
                    out.add((x[1], x[2] + (('f', f['value']),), 'v'))
                    if 'next' in f:
                        todo.append(y[3][f['next']])
                    continue
                todo.append(y)
            elif x[0] == 'A' and short(x[1]) in ('MNode', 'LNodeNext', 'CNode'):
                todo.append(x[3][0])
            elif x[0] == 'NA':
                todo += self.held.get(('na', x[5]), ())
        return out

    # ---- removal ---------------------------------------------------------------------------------------------------------------
    def root_remove(self, c):
        ins = self.inputs(c.bid)
        st = St(self)
        args = self.kv(st, c, ins, False)
        rets = self.drive(c.bid, args, st, False)
        self.each_exit(rets, lambda s, vn, v: self.exit_remove(c, s, vn, v))

    def exit_remove(self, c, st, vn, v):
        n = self.rootv[1](st)
        self.shape(c.bid, (vn,))
        if vn == 'NotFound':
            self.check(self.absent(st, n), self.lab1(), 'wrong-absence', 'reports absence although the key may be present')
            return
        k, w = v[3][-2], v[3][-1]
        self.check(self.key_is(st, k), self.lab1(), 'wrong-key', 'removes an entry whose key is not known to equal the sought key')
        self.check(self.has_entry(st, k, w), self.lab1(), 'foreign-entry', 'hands back an entry that was not in the collection')
        cont = self.content(st, v[3][0]) if len(v[3]) == 3 else ZERO
        ok = st.norm(cont + self.entry(st, k, w) - n).is_zero()
        self.check(ok, self.lab1(), 'remove-content', 'the new collection is not the old one without the removed entry', detail='built %s, removed %s, old %s' % (st.norm(cont), st.norm(self.entry(st, k, w)), st.norm(n)))
        if len(v[3]) == 3:
            self.check_node(st, v[3][0], self.lab1())

    # ---- visiting ------------------------------------------------------------------------------------------------------------------
    def root_visit(self, c):
        ins = self.inputs(c.bid)
        st = St(self)
        self.rootlv = LV
        args = [None, None]
        args[0], n = self.node_param(st, 0, 1, ins[0])
        self.rootv = {1: lambda s: Lin({('N', n): 1})}
        self.leafy = node_kind(ins[0]) in ('LNode', 'SNode')
        args[1] = ('VO',)
        for s, v in self.drive(c.bid, args, st, False):
            self.exits += 1
            try:
                s.refresh()
                rem = s.norm(self.rootv[1](s) - s.tot[1])
                self.check(rem.is_zero(), ('C12',) + (('C13',) if self.leafy else ()), 'visit-entries', 'not every entry is visited exactly once', detail='left over %s' % rem)
            except Infeasible:
                pass

    # ---- pushing two nodes down --------------------------------------------------------------------------------------------------------
    def root_lift(self, c):
        ins = self.inputs(c.bid)
        st = St(self)
        self.rootlv = LV
        h1, h2 = ('hroot', 1), ('hroot', 2)
        a = self.sym(('param', 1), ins[0], hc=h1, parts=(('hc', h1),), level=None, pos=True)
        b = self.sym(('param', 2), ins[2], hc=h2, parts=(('hc', h2),), level=None, pos=True)
        st.hash_neq(h1, h2)
        self.rootv = {1: lambda s: Lin({('N', a): 1}), 2: lambda s: Lin({('N', b): 1})}
        self.leafnodes = {a, b}
        fl = ins[1][1]
        args = [('S', a), self.mkflag(fl, h1, LV), ('S', b), self.mkflag(fl, h2, LV)]
        for s, v in self.drive(c.bid, args, st, False):
            self.exits += 1
            try:
                s.refresh()
                cont = self.content(s, v)
                want = s.norm(self.rootv[1](s) + self.rootv[2](s))
                self.check(s.norm(cont - want).is_zero(), ('C01', 'C13'), 'insert-content', 'pushing two nodes down does not keep exactly their entries', detail='%s' % s.norm(cont))
                self.check_level(s, v)
            except Infeasible:
                pass
            except Undecided as e:
                self.undecide('exit: ' + str(e))

    def allowed_variants(self, st, i):
        vs = super().allowed_variants(st, i)
        if i in getattr(self, 'leafnodes', ()):
            vs = [x for x in vs if any(short(strip_ref(t)[1]) in ('LNode', 'SNode') for t in self.adt_fields(self.ty(i), x))]
        return vs

    def level_of(self, st, v):
        if getattr(self, 'leafnodes', None):
            x = self.res0(st, v)
            if x[0] == 'S' and x[1] in self.leafnodes:
                return 'leaf'
        return super().level_of(st, v)


class _Root:
    def __init__(self, bid):
        self.bid = bid
        self.id = -1
        self.body = None


def fixpoint(cr, cs, log=None):
    """least set of ways each contract function can end, and the analysis of each under that set"""
    shapes = {b: frozenset() for b in cs}
    res = {}
    todo = set(cs)
    n = 0
    while todo and n < 12:
        n += 1
        changed = set()
        for bid in sorted(todo):
            v = Verifier(cr, cs, shapes)
            try:
                v.verify(bid)
            except Infeasible:
                v.lost('no way to end')
            except Undecided as e:
                v.lost(str(e))
            except Exception as e:
                v.lost('a form the analysis does not know (%s)' % repr(e)[:80])
            res[bid] = v
            new = shapes[bid] | frozenset(v.newshapes)
            if new != shapes[bid]:
                shapes[bid] = new
                changed.add(bid)
        todo = {b for b in cs if b in changed or (res[b].used & changed)}
    return shapes, res


def main():
    cr = Crate(sys.argv[1])
    pats = sys.argv[2:]
    cs = all_contracts(cr)
    sys.setrecursionlimit(20000)
    if '-f' in pats:
        pats.remove('-f')
        shapes, res = fixpoint(cr, {b: c for b, c in cs.items() if not pats or any(p in b for p in pats)} if False else cs)
    for bid in cs:
        if pats and not any(p in bid for p in pats):
            continue
        v = Verifier(cr, cs)
        try:
            if 'res' in dir():
                v = res[bid]
            else:
                v.verify(bid)
        except Exception as e:
            print('ERR', bid, repr(e))
            traceback.print_exc()
            continue
        print('%s: exits %d, reports %d, undecided %d, obl %s' % (bid, v.exits, len(v.reports), len(v.undecided), {k: tuple(x) for k, x in sorted(v.obl.items())}))
        seen = set()
        for r in v.reports:
            k = (r['rule'], r['span'], r['msg'])
            if k not in seen:
                seen.add(k)
                print('   !', r['props'], r['rule'], r['span'], r['msg'], '|', r['detail'])
        seen = set()
        for w, sp, pth in v.undecided:
            if (w, sp) not in seen:
                seen.add((w, sp))
                print('   ?', w, sp)


if __name__ == '__main__':
    main()
