"""The public map and set: every operation is interpreted from its public signature down to the node-level contracts."""
from dom import Lin, ZERO, const, atom, size_of
from ir import short, tys
from state import St, Infeasible, Undecided
from engine import U, TRUE, FALSE, UNIT
from contracts import strip_ref, OPS, is_future, async_output, fn_bounds, Contract
from sem import ENTRY_RES
from verify import Verifier

TRIES = ('HashTrieMap', 'HashTrieSet')
ALL = ('C01', 'C03', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C14', 'C15')


def is_trie(t):
    return t[0] == 'adt' and short(t[1]) in TRIES


def api_functions(cr):
    """inherent and trait methods of the public collections"""
    out = []
    for bid, b in cr.bodies.items():
        if b['kind'] != 'AssocFn' or b.get('self') is None:
            continue
        t = cr.ty(b['self'])
        if is_trie(t):
            out.append(bid)
    return sorted(out)


class Api(Verifier):
    def __init__(self, cr, contracts, shapes):
        super().__init__(cr, contracts, shapes)
        self.probe = None
        self.valid = {}

    # ---- parameters ----------------------------------------------------------------------------------------
    def trie_param(self, st, side, t):
        """a collection with an unknown root node"""
        t = strip_ref(t)
        n = []

        def build(t):
            if t[0] == 'adt' and short(t[1]) == 'MNode':
                i = self.sym(('param', side), t, level=ZERO, isroot=True, side=side)
                n.append(i)
                return ('S', i)
            if t[0] == 'adt' and len(self.cr.adts[t[1]]['v']) == 1:
                fs = self.adt_fields(t, 0)
                return ('A', t[1], 0, tuple(build(x) for x in fs))
            if t[0] == 'adt' and 'PhantomData' in t[1]:
                return UNIT
            raise Undecided('collection layout')
        v = build(t)
        if len(n) != 1:
            raise Undecided('collection layout')
        cell = ('h', 'trie', side)
        st.mem[cell] = v
        self.rootv[side] = lambda s, n=n[0]: Lin({('N', n): 1})
        self.nodesyms[side] = n[0]
        return ('P', cell, ())

    def root_of(self, st, v):
        """the root node of a collection value"""
        for _ in range(8):
            v = self.deref_all(st, v)
            if v[0] == 'A' and short(v[1]) == 'MNode' or v[0] == 'S' and short(self.ty(v[1])[1]) == 'MNode':
                return v
            if v[0] == 'A' and v[3]:
                fs = [x for x in v[3] if x != UNIT]
                v = fs[0]
                if v[0] == 'S' and self.ty(v[1])[0] == 'adt' and short(self.ty(v[1])[1]) == 'MNode':
                    return v
                continue
            raise Undecided('collection value')
        raise Undecided('collection value')

    def same(self, st, a, b):
        a, b = self.res(st, a), self.res(st, b)
        if a == b:
            return True
        if a[0] == 'S' and b[0] == 'A' or a[0] == 'A' and b[0] == 'S':
            return False
        if a[0] == 'P' and b[0] == 'P':
            return self.same(st, self.get(st, a[1], a[2]), self.get(st, b[1], b[2]))
        if a[0] == b[0] == 'A' and a[1] == b[1] and a[2] == b[2]:
            return all(self.same(st, x, y) for x, y in zip(a[3], b[3]))
        return False

    # ---- operations handed down ----------------------------------------------------------------------------
    def op_field(self, st, v, i):
        if i == 1:
            return ('B', ('opflip', v[1]))
        return super().op_field(st, v, i)

    def event(self, st, v, args, rty):
        if self.probe is None:
            return super().event(st, v, args, rty)
        i = self.fsym(rty)
        self.probe.append((i, v[1], v[2], tuple(args)))
        st.nev += 1
        return [(st, ('S', i))]

    def op_val(self, st, v):
        x = self.deref_all(st, v)
        if x[0] == 'O':
            return x
        if x[0] == 'A' and short(x[1]) in OPS:
            return self.adapter(st, x)
        return super().op_val(st, v)

    def adapter(self, st, x):
        """an operation built here from one of the user's: it must answer what that one answers"""
        vn = self.vname(x[1], x[2])
        lab = ('C11',)
        if vn != 'Generic':
            pay = self.to_R(st, x[3][-1])
            idx = [k for k in self.opadt if st.norm(pay - atom('pay', k)).is_zero()]
            ok = len(idx) == 1
            self.check(ok, lab, 'constant-payload', 'a constant operation is handed down with a value that is not the user\'s')
            if not ok:
                raise Infeasible()
            n = self.opname(st, idx[0])
            self.check(n == vn, lab + (('C10',) if 'L' in vn or 'R' in vn else ()), 'constant-kind', 'a constant operation answering %s is handed down as one answering %s' % (n, vn))
            if n != vn:
                raise Infeasible()
            return ('O', idx[0], 0)
        par = 0
        flipped = None
        for f in x[3][1:]:
            f = self.res(st, f)
            if f == FALSE:
                pass
            elif f == TRUE:
                par ^= 1
            elif f[0] == 'B' and f[1][0] == 'opflip':
                flipped = f[1][1]
            else:
                raise Undecided('orientation of an operation')
        f = self.deref_all(st, x[3][0])
        if f[0] == 'OF':
            return ('O', f[1], f[2] ^ par)
        joint = short(x[1]) == 'MapJointTransform'
        got = set()
        last = None
        arity = self.cr.bodies[f[1]]['body']['argc'] - 1 if f[0] == 'C' else None
        for n in ((arity,) if arity in (2, 4) else (4,) if joint else (2, 4)):
            try:
                got |= self.try_adapter(st, x, f, n)
                break
            except Undecided as e:
                last = e
        else:
            raise last
        if len(got) != 1:
            raise Infeasible()
        idx, p = next(iter(got))
        if self.is_joint_op(idx):
            ok = flipped == idx
            self.check(ok, lab + ('C10',), 'orientation-lost', 'the orientation of the both-operation is not handed down with it')
        return ('O', idx, p ^ par)

    def is_joint_op(self, idx):
        return 'Joint' in short(self.opadt[idx])

    def try_adapter(self, st0, x, f, n):
        """run the closure on arbitrary entries; every end must be the user's answer, variant for variant"""
        lab = ('C11',)
        st = st0.copy()
        args, ids = [], []
        for i in range(n):
            k = self.sym(('probe', i, n), ('param', 'P%d' % i, i))
            cell = ('h', 'probe', n, i)
            st.mem[cell] = ('S', k)
            args.append(('P', cell, ()))
            ids.append(k)
        old = self.probe
        self.probe = []
        got = set()
        try:
            rets = self.closure(st, f, args)
            if not rets:
                raise Undecided('operation wrapper does not return')
            seen = self.probe
            for s, v in rets:
                for s2, vi, fs in self.enum_cases(s, v):
                    got |= self.adapter_end(s2, self.res(s2, v), fs, seen, ids, lab)
        finally:
            self.probe = old
        return got

    def adapter_end(self, st, v, fs, seen, ids, lab):
        calls = [p for p in seen if st.nev]
        ok = st.nev == 1 or len(seen) == 1
        used = [p for p in seen if p[0] in st.bind] or seen
        self.check(len(used) == 1, lab, 'answer-count', 'an operation wrapper does not call the user\'s operation exactly once')
        if len(used) != 1:
            raise Infeasible()
        i, idx, par, args = used[0]
        want = self.user_args(idx, ids)
        have = [self.ident(st, a) for a in args]
        ok = have == want
        swap = len(want) in (2, 4) and self.binary(idx) and have == want[len(want) // 2:] + want[:len(want) // 2]
        self.check(ok or swap, lab, 'wrapped-arguments', 'an operation wrapper hands the user\'s operation other arguments than its own')
        if not ok and not swap:
            raise Infeasible()
        if swap:
            par ^= 1
        b = self.res(st, ('S', i))
        vn = self.vname(v[1], v[2])
        if b[0] != 'A':
            raise Undecided('answer not looked at')
        un = self.vname(b[1], b[2])
        mir = {'UnchangedL': 'UnchangedR', 'UnchangedR': 'UnchangedL'}
        if swap:
            vn = mir.get(vn, vn)
        ok = un == vn
        self.check(ok, lab, 'wrapped-answer', 'the answer %s of the user\'s operation is turned into %s' % (un, vn))
        if not ok:
            raise Infeasible()
        okr = st.norm(self.to_R(st, fs[-1]) - self.to_R(st, b[3][-1])).is_zero()
        self.check(okr, lab + ('C08',), 'wrapped-reduction', 'the value the user\'s operation answered for the reduction is not handed on')
        if un in ('Transmuted', 'Transformed'):
            user, mine = b[3][:-1], fs[:-1]
            if len(user) == len(mine):
                ok = all(self.ident(st, a) == self.ident(st, c) for a, c in zip(user, mine))
            elif len(user) == 1 and len(mine) == 2 and self.unit(st, mine[1]):
                ok = self.ident(st, mine[0]) == self.ident(st, user[0])
            elif len(user) == 1 and len(mine) == 2:
                okk = self.ident(st, mine[0]) == ids[0]
                self.check(okk, lab + ('C17',), 'wrapped-key', 'an entry is given another key although only its value was answered')
                ok = self.ident(st, mine[1]) == self.ident(st, user[0])
            else:
                raise Undecided('payload of an answer')
            self.check(ok, lab, 'wrapped-payload', 'the key or value the user\'s operation answered is not handed on')
        return {(idx, par)}

    def unit(self, st, v):
        v = self.res0(st, v)
        return v == UNIT or v == ('T', ())

    def ident(self, st, v):
        v = self.rawval(st, v)
        return v[1] if v[0] == 'S' else v

    def binary(self, idx):
        return idx == 0

    def user_args(self, idx, ids):
        n = self.oparity[idx]
        if n == len(ids):
            return list(ids)
        if n * 2 == len(ids):
            return [ids[i] for i in range(0, len(ids), 2)]
        raise Undecided('arity of an operation')

    # ---- visiting through a closure --------------------------------------------------------------------------
    def trait_call(self, st, fr, c, tr, name, args, dest):
        if self.probe is not None and short(tr) in ('Fn', 'FnMut', 'FnOnce'):
            f = self.deref_all(st, args[0])
            if f[0] == 'VO':
                self.probe.append((None, 'visit', 0, tuple(self.spread(st, args[1]))))
                st.nev += 1
                return [(st, UNIT)]
        return super().trait_call(st, fr, c, tr, name, args, dest)

    def call_visit(self, st, c, args, sub):
        f = self.deref_all(st, args[c.op])
        if f[0] == 'C':
            s = st.copy()
            ids, ps = [], []
            for i in range(2):
                k = self.sym(('probe', i, 2), ('param', 'P%d' % i, i))
                s.mem[('h', 'probe', 2, i)] = ('S', k)
                ps.append(('P', ('h', 'probe', 2, i), ()))
                ids.append(k)
            old, self.probe = self.probe, []
            n0 = s.nev
            try:
                rets = self.closure(s, f, ps)
                seen = self.probe
            finally:
                self.probe = old
            ok = all(s2.nev == n0 + 1 for s2, _ in rets) and all([self.ident(rets[0][0], a) for a in p[3]] == ids[:len(p[3])] for p in seen) if rets else False
            self.check(ok, ('C11', 'C12'), 'wrapped-visit', 'the visiting wrapper does not hand each entry to the user\'s operation exactly once')
            args = list(args)
            args[c.op] = ('VO',)
        return super().call_visit(st, c, args, sub)

    # ---- the operations ----------------------------------------------------------------------------------------
    def verify_api(self, bid):
        self.rootbid = bid
        b = self.cr.bodies[bid]
        self.span = b['file']
        self.nodesyms = {}
        self.rootlv = None
        name = b['name']
        ins = self.inputs(bid)
        out = self.cr.ty(b['output'])
        isasync = False
        if is_future(out):
            out, isasync = async_output(self.cr, bid), True
        tries = [i for i, t in enumerate(ins) if is_trie(strip_ref(t))]
        ops = [i for i, t in enumerate(ins) if t[0] == 'adt' and short(t[1]) in OPS]
        self.root = c = Contract('api', bid)
        c.isasync, c.fam = isasync, None
        self.setname = short(self.cr.ty(b['self'])[1])
        if ops and tries:
            return self.api_job(bid, ins, out, tries, ops, isasync)
        f = getattr(self, 'api_' + name, None)
        if f is None or isasync:
            return None
        return f(bid, ins, out)

    def api_job(self, bid, ins, out, tries, ops, isasync):
        c = self.root
        c.kind = 'job'
        b = self.cr.bodies[bid]
        fb = fn_bounds(self.cr, b)
        st = St(self)
        args = [None] * len(ins)
        for n, i in enumerate(tries):
            args[i] = self.trie_param(st, n + 1, ins[i])
        joint = len(ops) == 3
        if joint != (len(tries) == 2) or len(ops) not in (1, 3):
            raise Undecided('roles of the operations')
        self.opadt, self.oparity = {}, {}
        for n, i in enumerate(ops):
            idx = n if joint else 1
            args[i] = ('O', idx, 0)
            self.opadt[idx] = ins[i][1]
            f = ins[i][2][1]
            if f[0] != 'param' or f[1] not in fb:
                raise Undecided('type of an operation')
            self.oparity[idx] = len(fb[f[1]])
        for i, t in enumerate(ins):
            if args[i] is not None:
                continue
            if t[0] == 'param' and t[1] in fb and len(fb[t[1]]) == 2:
                args[i] = ('RO',)
            elif t[0] == 'adt' and short(t[1]) == 'ParallelismStrategy':
                args[i] = ('S', self.sym(('par',), t, ispar=True))
            else:
                raise Undecided('parameter %d' % i)
        names = [short(self.opadt[k]) for k in sorted(self.opadt)]
        if joint:
            if 'Joint' in names[0]:
                c.fam = 'JTT'
            elif 'Transmute' in names[0]:
                c.fam = 'JUU'
            else:
                c.fam = 'JTU' if 'Transmute' in names[2] else 'JUT'
        else:
            c.fam = 'U1' if 'Transmute' in names[0] else 'T1'
        lab = ('C11', 'C07' if joint else 'C06')
        for s, v in self.drive(bid, args, st, isasync):
            self.exits += 1
            try:
                s.refresh()
                self.exit_apijob(s, v, lab)
            except Infeasible:
                pass
            except Undecided as e:
                self.undecide('exit: ' + str(e))
        return True

    def exit_apijob(self, st, v, lab):
        v = self.res(st, v)
        if v[0] != 'T' or len(v[1]) != 2:
            raise Undecided('result of the operation')
        lab = lab + self.extra_props(st)
        root = self.root_of(st, v[1][0])
        for s in self.rootv:
            left = st.norm(self.whole(st, s) - st.tot[s])
            self.check(left.is_zero(), lab, 'entries-consumed', 'not every entry of the %s collection reaches the operations' % ('left' if s == 1 else 'right'), detail=str(left))
        d = self.content(st, root)
        diff = st.norm(st.out - d)
        self.check(diff.is_zero(), lab, 'result-content', 'the collection returned does not hold the entries the operations answered', detail='answers %s, returned %s' % (st.norm(st.out), st.norm(d)))
        pay = self.to_R(st, v[1][1])
        ok = st.norm(pay - st.red).is_zero()
        self.check(ok, ('C08', 'C11'), 'reduction', 'the reduced value is not the combination of the answers', detail='%s, answered %s' % (st.norm(pay), st.norm(st.red)))
        if diff.is_zero() and any(st.named[s] is not False for s in self.rootv):
            keep = [s for s in self.rootv if st.named[s] is not False]
            for s in keep[:1] if len(keep) == 2 else keep:
                ok = any(self.same(st, root, ('S', self.nodesyms[x])) for x in keep)
                self.check(ok, ('C05', 'C11'), 'identity', 'every answer leaves the %s collection unchanged but another one is returned' % ('left' if s == 1 else 'right'))

    def key_arg(self, st, t):
        k = self.sym(('key',), strip_ref(t))
        self.keysym = k
        v = ('S', k)
        if t[0] == 'ref':
            st.mem[('h', 'key')] = v
            v = ('P', ('h', 'key'), ())
        return v

    def lab1(self):
        return ('C01', 'C11')

    def res_cases(self, st, v):
        """Result value -> (state, 'Ok'/'Err', payload)"""
        out = []
        for s, vi, fs in self.cases(st, v):
            out.append((s, 'Ok' if vi == 0 else 'Err', fs[0]))
        return out

    def each(self, rets, f):
        for s, v in rets:
            for s2, tag, p in self.res_cases(s, v):
                self.exits += 1
                try:
                    s2.refresh()
                    f(s2, tag, p)
                except Infeasible:
                    pass
                except Undecided as e:
                    self.undecide('exit: ' + str(e))

    def kv_parts(self, st, p):
        """(key, value or None) of &K or (&K, &V)"""
        p = self.res(st, p)
        if p[0] == 'T':
            return p[1][0], p[1][1]
        return p, None

    def owned(self, st, k, w, what):
        """the pair handed out is one a node-level result handed up"""
        for a in list(st.bind.values()):
            if a[0] == 'A' and short(a[1]) in ('FindResult', 'InsertResult', 'RemoveResult', 'Option'):
                fs = [self.res(st, x) for x in a[3]]
                if short(a[1]) == 'Option' and fs and fs[0][0] == 'T':
                    fs = [self.res(st, x) for x in fs[0][1]]
                for i, x in enumerate(fs):
                    if x == self.res(st, k) and (w is None or i + 1 < len(fs) and fs[i + 1] == self.res(st, w)):
                        return True
        return False

    def entry_ok(self, st, p, lab, what):
        k, w = self.kv_parts(st, p)
        self.check(self.key_is(st, k), lab, 'wrong-key', '%s has a key not known to equal the given one' % what)
        self.check(self.owned(st, k, w, what), lab, 'foreign-entry', '%s is not one of the collection\'s' % what)

    def setup(self, bid, ins):
        st = St(self)
        self.rootlv = ZERO
        self.leafy = False
        args = [None] * len(ins)
        args[0] = self.trie_param(st, 1, ins[0])
        return st, args

    def api_find(self, bid, ins, out):
        st, args = self.setup(bid, ins)
        args[1] = self.key_arg(st, ins[1])
        self.root.kind = 'find'

        def end(s, tag, p):
            if tag == 'Err':
                self.check(self.absent(s, self.rootv[1](s)), self.lab1(), 'wrong-absence', 'reports absence although the key may be present')
            else:
                self.entry_ok(s, p, self.lab1(), 'the entry found')
        self.each(self.drive(bid, args, st, False), end)
        return True

    def api_remove(self, bid, ins, out):
        st, args = self.setup(bid, ins)
        args[1] = self.key_arg(st, ins[1])
        self.root.kind = 'remove'

        def end(s, tag, p):
            if tag == 'Err':
                self.check(self.absent(s, self.rootv[1](s)), self.lab1(), 'wrong-absence', 'reports absence although the key may be present')
                return
            p = self.res(s, p)
            rest = p[1][1] if len(p[1]) == 2 else ('T', tuple(p[1][1:]))
            self.entry_ok(s, rest, self.lab1(), 'the entry removed')
            k, w = self.kv_parts(s, rest)
            cont = self.content(s, self.root_of(s, p[1][0]))
            gone = s.norm(self.rootv[1](s) - cont)
            ok = len(gone.d) == 1 and all(v == 1 and a[0] == 'E' and s.kf(a[1]) == s.kf(self.kid_(s, k)) for a, v in gone.d.items())
            self.check(ok, self.lab1(), 'remove-content', 'the collection returned is not the old one without the entry removed', detail=str(gone))
        self.each(self.drive(bid, args, st, False), end)
        return True

    def api_insert(self, bid, ins, out):
        st, args = self.setup(bid, ins)
        args[1] = self.key_arg(st, ins[1])
        if len(ins) == 4:
            self.valsym = self.sym(('val',), strip_ref(ins[2]))
            args[2] = ('S', self.valsym)
        else:
            self.valsym = None
        self.repl = ('sym', 'replace')
        args[-1] = ('B', self.repl)
        self.root.kind = 'insert'
        lab = self.lab1()

        def end(s, tag, p):
            n = self.rootv[1](s)
            if tag == 'Err':
                self.entry_ok(s, p, lab, 'the existing entry')
                self.check(self.decide(s, self.repl) is False, lab, 'not-replaced', 'hands back the existing entry although replacement was asked for')
                return
            p = self.res(s, p)
            fs = p[1]
            for s2, vi, of in self.enum_cases(s, fs[-1]):
                try:
                    s2.refresh()
                    cont = self.content(s2, self.root_of(s2, fs[0]))
                    new = s2.norm(cont - n)
                    plus = [a for a, v in new.d.items() if v == 1]
                    minus = [a for a, v in new.d.items() if v == -1]
                    mine = all(a[0] == 'E' and s2.kf(a[1]) == s2.kf(self.keysym) and (self.valsym is None or a[2] == self.valsym) for a in plus)
                    if vi:
                        self.entry_ok(s2, of[0], lab + ('C15',), 'the previous entry')
                        k, w = self.kv_parts(s2, of[0])
                        ok = len(new.d) == len(plus) + len(minus) and len(plus) <= 1 and len(minus) == len(plus) and mine and all(a[0] == 'E' and s2.kf(a[1]) == s2.kf(self.keysym) for a in minus)
                        self.check(ok, lab, 'insert-content', 'the collection returned is not the old one with the entry replaced', detail=str(new))
                        self.check(self.decide(s2, self.repl) is True, lab, 'replaced-unasked', 'replaces an entry although replacement was not asked for')
                    else:
                        ok = len(plus) == len(new.d) == 1 and mine
                        self.check(ok, lab, 'insert-content', 'the collection returned is not the old one with the entry added', detail=str(new))
                        self.check(self.absent(s2, n), lab, 'duplicate-key', 'adds an entry although an equal key may be present')
                    okr = True
                    a = self.res(s2, fs[1])
                    okr = a[0] == 'P' and a[1] in self.owner and self.owner[a[1]][1] == 'k'
                    if len(fs) == 4:
                        b = self.res(s2, fs[2])
                        okr = okr and b[0] == 'P' and b[1] in self.owner and self.owner[b[1]][1] == 'v'
                    self.check(okr, ('C15', 'C11'), 'reference-target', 'the returned references do not point into the new collection')
                except Infeasible:
                    pass
        self.each(self.drive(bid, args, st, False), end)
        return True

    def api_visit(self, bid, ins, out):
        st, args = self.setup(bid, ins)
        args[1] = ('VO',)
        self.root.kind = 'visit'
        for s, v in self.drive(bid, args, st, False):
            self.exits += 1
            s.refresh()
            rem = s.norm(self.rootv[1](s) - s.tot[1])
            self.check(rem.is_zero(), ('C12', 'C11'), 'visit-entries', 'not every entry is visited exactly once', detail=str(rem))
        return True

    def api_size(self, bid, ins, out):
        st, args = self.setup(bid, ins)
        for s, v in self.drive(bid, args, st, False):
            self.exits += 1
            s.refresh()
            n = self.as_int(s, v)
            d = s.norm(n - size_of(self.rootv[1](s)))
            self.check(d.is_zero(), ('C03', 'C11'), 'reported-size', 'the size reported is not the number of entries', detail=str(d))
        return True

    def api_new(self, bid, ins, out):
        for s, v in self.drive(bid, [], St(self), False):
            self.exits += 1
            d = s.norm(self.content(s, self.root_of(s, v)))
            self.check(d.is_zero(), ('C01', 'C03', 'C11'), 'empty', 'a new collection is not empty', detail=str(d))
        return True

    api_default = api_new

    def api_clone(self, bid, ins, out):
        st, args = self.setup(bid, ins)
        for s, v in self.drive(bid, args, st, False):
            self.exits += 1
            ok = self.same(s, self.root_of(s, v), ('S', self.nodesyms[1]))
            self.check(ok, ('C02', 'C11'), 'clone', 'a clone is not the same collection')
        return True


def analyse(cr, cs, shapes):
    out = []
    for bid in api_functions(cr):
        v = Api(cr, cs, shapes)
        v.skipped = False
        try:
            r = v.verify_api(bid)
            if r is None:
                v.skipped = True
        except Undecided as e:
            v.undecide(str(e))
        except Infeasible:
            v.undecide('no way to end')
        except Exception as e:
            v.lost('a form the analysis does not know (%s)' % repr(e)[:80])
        out.append((bid, v))
    return out


if __name__ == '__main__':
    import sys
    import traceback
    from ir import Crate
    from sem import all_contracts
    from verify import fixpoint
    sys.setrecursionlimit(20000)
    cr = Crate(sys.argv[1])
    cs = all_contracts(cr)
    import pickle
    import os
    p = '/tmp/shapes.pkl'
    if os.path.exists(p) and os.path.getmtime(p) > os.path.getmtime(sys.argv[1]):
        shapes = pickle.load(open(p, 'rb'))
    else:
        shapes, res = fixpoint(cr, cs)
        pickle.dump(shapes, open(p, 'wb'))
    for bid, v in analyse(cr, cs, shapes):
        if len(sys.argv) > 2 and sys.argv[2] not in bid:
            continue
        print(bid, 'SKIPPED' if v.skipped else '', v.exits, v.obl)
        for r in v.reports:
            print('   !', r['props'], r['rule'], r['span'], r['msg'], r['detail'])
        for w, sp, path in v.undecided:
            print('   ?', w, sp, path)
