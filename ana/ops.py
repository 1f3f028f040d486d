"""The operation types and result types themselves: constructors, calls, reversals and conversions, judged by what they answer."""
from dom import atom
from ir import short
from state import St, Infeasible, Undecided
from engine import TRUE, FALSE
from contracts import OPS, fn_bounds
from api import Api

MIRROR = {'UnchangedL': 'UnchangedR', 'UnchangedR': 'UnchangedL'}


class Ops(Api):
    def __init__(self, cr, contracts, shapes):
        super().__init__(cr, contracts, shapes)
        self.opadt = {}

    def clear(self):
        self.probe = []

    # start values -------------------------------------------------------------------------------------------
    def starts(self, adt):
        """(variant, reversed?, value) for every way an operation value can be"""
        d = self.cr.adts[adt]
        for vi, v in enumerate(d['v']):
            bools = [i for i, f in enumerate(v['f']) if self.cr.ty(f[1])[0] == 'bool']
            for par in ((0, 1) if bools else (0,)):
                fs = []
                for i, f in enumerate(v['f']):
                    if i in bools:
                        fs.append(TRUE if par else FALSE)
                    elif v['n'] == 'Generic':
                        fs.append(('OF', 0, 0))
                    else:
                        fs.append(('R', atom('pay', 0)))
                yield v['n'], par, ('A', adt, vi, tuple(fs))

    def methods(self, adt, prefix):
        out = []
        for bid, b in sorted(self.cr.bodies.items()):
            if b['kind'] == 'AssocFn' and b.get('self') is not None and not b.get('trait') and b['name'].startswith(prefix):
                t = self.cr.ty(b['self'])
                if t[0] == 'adt' and t[1] == adt and b['inputs']:
                    out.append(bid)
        return out

    def arity(self, bid):
        return len(self.cr.bodies[bid]['inputs']) - 1

    def selfarg(self, st, bid, v):
        t = self.cr.ty(self.cr.bodies[bid]['inputs'][0])
        if t[0] == 'ref':
            return self.newcell(st, v)
        return v

    def joint(self, adt):
        return any(v['n'] == 'UnchangedL' for v in self.cr.adts[adt]['v'])

    # what a call must answer ------------------------------------------------------------------------------------
    def labels(self, n, adt, par, what):
        lab = ('C11',)
        big = n == (4 if 'Map' in short(adt) else 2)
        lab += ('C07',) if big else ('C06',)
        if par or what != 'call' or self.joint(adt):
            lab += ('C10',)
        return lab

    def check_call(self, st, bid, adt, val, variant, par, what):
        """calling `val` answers `variant` (or what the user's function answers), sides exchanged if `par`"""
        n = self.arity(bid)
        lab = self.labels(n, adt, par, what)
        st = st.copy()
        ids, args = [], []
        for i in range(n):
            k = self.sym(('probe', i, n), ('param', 'P%d' % i, i))
            st.mem[('h', 'probe', n, i)] = ('S', k)
            args.append(('P', ('h', 'probe', n, i), ()))
            ids.append(k)
        self.probe = []
        st.nev = 0
        rets = self.run_body(bid, {}, [self.selfarg(st, bid, val)] + args, st)
        seen = list(self.probe)
        for s, v in rets:
            for s2, vi, fs in self.cases(s, v):
                self.exits += 1
                try:
                    self.end_call(s2, self.res(s2, v), seen, ids, adt, variant, par, lab, what)
                except Infeasible:
                    pass
                except Undecided as e:
                    self.undecide('exit: ' + str(e))

    def end_call(self, st, v, seen, ids, adt, variant, par, lab, what):
        vn = self.vname(v[1], v[2])
        want = variant
        if variant != 'Generic':
            if par:
                want = MIRROR.get(variant, variant)
            ok = vn == want
            self.check(ok, lab, 'constant-answer', 'a constant operation %s%s answers %s' % (variant, ' reversed' if par else '', vn))
            if ok:
                self.check(st.nev == 0, lab, 'constant-answer', 'a constant operation calls something')
                self.check(st.norm(self.to_R(st, v[3][-1]) - atom('pay', 0)).is_zero(), lab + ('C08',), 'constant-reduction', 'a constant operation answers another value for the reduction than its own')
            return
        used = [p for p in seen if p[0] in st.bind]
        if not used and v[0] == 'S':
            used = [p for p in seen if p[0] == v[1]]
        ok = len(used) == 1 and st.nev == 1
        self.check(ok, lab, 'answer-count', 'an operation does not call the user\'s function exactly once')
        if not ok:
            return
        i, idx, p0, args = used[0]
        h = len(ids) // 2
        exp = ids[h:] + ids[:h] if par else ids
        have = [self.ident(st, a) for a in args]
        self.check(have == exp, lab, 'argument-order', 'the user\'s function is given its arguments in the wrong roles%s' % (' by a reversed operation' if par else ''))
        b = self.res(st, ('S', i))
        un = self.vname(b[1], b[2])
        want = MIRROR.get(un, un) if par else un
        ok = vn == want
        self.check(ok, lab, 'answer-kind', 'the answer %s of the user\'s function becomes %s%s' % (un, vn, ' in a reversed operation' if par else ''))
        if ok:
            a, c = v[3], b[3]
            same = len(a) == len(c) and all(self.ident(st, x) == self.ident(st, y) for x, y in zip(a[:-1], c[:-1])) and st.norm(self.to_R(st, a[-1]) - self.to_R(st, c[-1])).is_zero()
            self.check(same, lab + ('C08',), 'answer-payload', 'the payload of the user\'s answer is not handed on')

    # -------------------------------------------------------------------------------------------------------------
    def verify_type(self, adt):
        calls = self.methods(adt, 'call')
        flips = self.methods(adt, 'flip')
        big = max([self.arity(c) for c in calls] or [0])
        for variant, par, val in self.starts(adt):
            for c in calls:
                self.within(c, lambda: self.check_call(St(self), c, adt, val, variant, par, 'call'))
            for f in flips:
                self.within(f, lambda: self.flip(f, adt, val, variant, par, big, 2))
        return len(calls) + len(flips)

    def within(self, bid, f):
        self.rootbid = bid
        self.span = self.cr.bodies[bid]['file']
        try:
            f()
        except Infeasible:
            pass
        except Undecided as e:
            self.undecide(str(e))

    def flip(self, f, adt, val, variant, par, big, left):
        st = St(self)
        self.probe = []
        for s, v in self.run_body(f, {}, [self.selfarg(st, f, val)], st):
            v = self.deref_all(s, v)
            if v[0] != 'A' or short(v[1]) not in OPS:
                raise Undecided('reversed operation')
            for c in self.methods(v[1], 'call'):
                if self.arity(c) == big:
                    self.check_call(s, c, v[1], v, variant, par ^ 1, 'flip')
            if left > 1:
                for g in self.methods(v[1], 'flip'):
                    for s2, w in self.run_body(g, {}, [self.selfarg(s, g, v)], s.copy()):
                        w = self.deref_all(s2, w)
                        if w[0] != 'A':
                            raise Undecided('reversed operation')
                        for c in self.methods(w[1], 'call'):
                            if self.arity(c) == big:
                                self.check_call(s2, c, w[1], w, variant, par, 'flip')

    # constructors ---------------------------------------------------------------------------------------------------
    def verify_new(self, bid):
        b = self.cr.bodies[bid]
        out = self.cr.ty(b['output'])
        adt = out[1]
        low = b['name'].lower().replace('_', '')
        vs = [v['n'] for v in self.cr.adts[adt]['v'] if low.endswith(v['n'].lower())]
        if len(vs) != 1 or len(b['inputs']) != 1:
            raise Undecided('constructor')
        variant = vs[0]
        t = self.cr.ty(b['inputs'][0])
        ar = len(fn_bounds(self.cr, b).get(t[1], ())) if t[0] == 'param' else 0
        arg = ('OF', 0, 0) if variant == 'Generic' else ('R', atom('pay', 0))
        st = St(self)
        self.probe = []
        for s, v in self.run_body(bid, {}, [arg], st):
            v = self.deref_all(s, v)
            if v[0] != 'A':
                raise Undecided('constructed operation')
            for c in self.methods(v[1], 'call'):
                if not ar or self.arity(c) == ar:
                    self.check_call(s, c, v[1], v, variant, 0, 'call')

    # conversions of results -----------------------------------------------------------------------------------------------
    def verify_from(self, bid):
        b = self.cr.bodies[bid]
        src = self.cr.ty(b['inputs'][0])
        flip = b['name'] == 'flip'
        lab = ('C11',) + (('C10',) if flip else ())
        st = St(self)
        i = self.sym(('from',), src, level=None, isroot=True)
        for s, v in self.run_body(bid, {}, [('S', i)], st):
            a = self.res(s, ('S', i))
            for s2, vi, fs in self.cases(s, v):
                self.exits += 1
                try:
                    s2.refresh()
                    w = self.res(s2, v)
                    for s3, _, _ in self.cases(s2, ('S', i)):
                        self.end_from(s3, self.res(s3, ('S', i)), w, flip, lab)
                except Infeasible:
                    pass
                except Undecided as e:
                    self.undecide('exit: ' + str(e))

    def end_from(self, st, a, w, flip, lab):
        an, wn = self.vname(a[1], a[2]), self.vname(w[1], w[2])
        want = MIRROR.get(an, an) if flip else an
        if want == 'Transmuted' and not any(x['n'] == want for x in self.cr.adts[w[1]]['v']):
            return      # into a node: judged where it is used
        ok = wn == want
        self.check(ok, lab, 'converted-kind', 'the answer %s is converted to %s' % (an, wn))
        if ok:
            x, y = a[3], w[3]
            same = len(x) == len(y) and all(self.same(st, p, q) for p, q in zip(x, y))
            self.check(same, lab, 'converted-payload', 'the payload of %s is not kept by the conversion' % an)


def analyse(cr, cs, shapes):
    out = []

    def one(what, f):
        v = Ops(cr, cs, shapes)
        v.rootbid = what
        v.span = cr.bodies[what]['file'] if what in cr.bodies else ''
        try:
            f(v)
        except Undecided as e:
            v.undecide(str(e))
        except Infeasible:
            pass
        except Exception as e:
            v.lost('a form the analysis does not know (%s)' % repr(e)[:80])
        out.append((what, v))
    local = [a for a in sorted(cr.adts) if short(a) in OPS]
    for a in local:
        one(a, lambda v: v.verify_type(a))
    for bid, b in sorted(cr.bodies.items()):
        if b.get('output') is None or b['kind'] == 'Closure':
            continue
        t = cr.ty(b['output'])
        if b['kind'] == 'Fn' and t[0] == 'adt' and t[1] in local and len(b['inputs']) == 1:
            one(bid, lambda v: v.verify_new(bid))
        elif b['kind'] == 'AssocFn' and len(b['inputs']) == 1:
            s = cr.ty(b['inputs'][0])
            if s[0] == 'adt' and s[1] in cr.adts and t[0] == 'adt' and t[1] in cr.adts and short(s[1]).endswith('Result') and short(t[1]).endswith('Result'):
                if b['name'] == 'from' or b['name'] == 'flip':
                    one(bid, lambda v: v.verify_from(bid))
    return out


if __name__ == '__main__':
    import sys
    import pickle
    from ir import Crate
    from sem import all_contracts
    sys.setrecursionlimit(20000)
    cr = Crate(sys.argv[1])
    cs = all_contracts(cr)
    shapes = pickle.load(open('/tmp/shapes.pkl', 'rb'))
    for bid, v in analyse(cr, cs, shapes):
        if len(sys.argv) > 2 and sys.argv[2] not in bid:
            continue
        print(bid, v.exits, v.obl)
        for r in v.reports:
            print('   !', r['props'], r['rule'], r['span'], r['msg'], r['detail'])
        for w, sp, path in v.undecided:
            print('   ?', w, sp, path)
