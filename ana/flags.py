"""Positions derived from hashes: for every pair of hash width and branch width, and every depth a collection can reach,
the hash is a symbolic string of bits and every function on positions is interpreted with those widths."""
from dom import Lin, ZERO, const, atom, ONE
from ir import short
from state import St, Infeasible, Undecided
from engine import U, TRUE, FALSE, UNIT
from bits import Words, LOG
from contracts import strip_ref, is_flag_opt

HASHES = (8, 16, 32, 64, 128)
BRANCHES = (3, 4, 5, 6, 7)


class Flags(Words):
    def __init__(self, cr, cs, shapes):
        super().__init__(cr, cs, shapes, 'C14')

    def setup(self, hm, lb, tys):
        self.hm, self.lb = hm, lb
        self.tys = tys
        self.width = None

    # ---- values of the hash type: ('HR', lo, hi): the bits [lo, hi) of the hash, moved to the bottom ----------------------
    def who(self, t):
        while t[0] == 'ref':
            t = t[2]
        if t == self.tys[0]:
            return 'H'
        if t == self.tys[1]:
            return 'F'
        if t[0] == 'alias':
            return 'H'
        return None

    def bits_of(self, st, v):
        v = self.deref_all(st, v)
        if v[0] == 'HR':
            return v
        if v[0] == 'I':
            c = st.norm(v[1]).const()
            if c == 0:
                return ('HR', 0, 0)
            if c is not None:
                return ('MASK', c)
        raise Undecided('hash bits')

    def panic(self, st, why):
        self.oblige('C14', False)
        self.report(('C14', 'C04'), 'reachable-panic', why, detail='hash of %d bits, branches of %d' % (self.hm, 1 << self.lb))

    def call(self, st, fr, c, args, dest, diverges):
        tr, name = c.get('trait'), c.get('name')
        if tr and c.get('r') not in self.cr.bodies:
            fa = [self.cr.ty(x, fr.sub) for x in c.get('fa') or []]
            w = self.who(fa[0]) if fa else None
            t = short(tr)
            if w and t == 'Clone':
                return [(st, self.deref_all(st, args[0]))]
            if w and t == 'LogB':
                return [(st, ('I', const(self.lb if w == 'F' else LOG[self.hm])))]
            if w and t == 'MaxOnes':
                return [(st, ('I', const((1 << self.lb) if w == 'F' else self.hm)))]
            if w and t == 'MaskLogB':
                return [(st, ('I', const((1 << (self.lb if w == 'F' else LOG[self.hm])) - 1)))]
            if w == 'H' and t == 'Shr':
                h = self.bits_of(st, args[0])
                n = st.norm(self.as_int(st, self.deref_all(st, args[1]))).const()
                if n is None or h[0] != 'HR':
                    raise Undecided('shift')
                if not 0 <= n < self.hm:
                    self.panic(st, 'shifts a hash by its whole width or more')
                    return []
                self.oblige('C14', True)
                return [(st, ('HR', min(h[1] + n, h[2]), h[2]))]
            if w == 'H' and t == 'BitAnd':
                a, b = self.bits_of(st, args[0]), self.bits_of(st, args[1])
                if a[0] == 'MASK':
                    a, b = b, a
                if a[0] == 'HR' and b[0] == 'MASK' and b[1] & (b[1] + 1) == 0:
                    return [(st, ('HR', a[1], min(a[2], a[1] + b[1].bit_length())))]
                raise Undecided('masking of a hash')
            if w == 'H' and t in ('From', 'Into'):
                return [(st, self.deref_all(st, args[0]))]
            if t in ('TryFrom', 'TryInto'):
                v = self.bits_of(st, args[0])
                if v[0] == 'MASK':
                    return [(st, self.result(True, ('I', const(v[1]))))]
                if v[2] - v[1] <= (1 << self.lb):
                    return [(st, self.result(True, v))]
                return [(st.copy(), self.result(True, v)), (st, self.result(False, U))]
            if t == 'AsUsize':
                return [(st, self.deref_all(st, args[0]))]
            if t == 'NthBit':
                v = self.deref_all(st, args[0])
                if v[0] == 'I':
                    n = st.norm(v[1]).const()
                    if n is None:
                        raise Undecided('bit of a symbolic index')
                    return [(st, self.result(n < (1 << self.lb), ('NB', 'const', n)))]
                if v[0] == 'HR':
                    if v[2] - v[1] <= self.lb:
                        return [(st, self.result(True, ('NB', v[1], v[2])))]
                    return [(st.copy(), self.result(True, ('NB', v[1], v[2]))), (st, self.result(False, U))]
                raise Undecided('bit of an index')
            if w == 'F' and t == 'Default':
                return [(st, ('NB', 'none', 0))]
        return super().call(st, fr, c, args, dest, diverges)

    def binop(self, st, op, a, b):
        return super().binop(st, op, a, b)

    def cases(self, st, v):
        return super().cases(st, v)

    # ---- what is required ---------------------------------------------------------------------------------------------
    def want(self, d):
        lo, hi = d * self.lb, min((d + 1) * self.lb, self.hm)
        return (lo, hi) if lo < self.hm else None

    def good_flag(self, st, v, d):
        v = self.deref_all(st, v)
        if v[0] != 'A' or short(v[1]) != 'Flag':
            return 'a position is not computed'
        fs = [self.deref_all(st, x) for x in v[3]]
        t = self.adt_fields(('adt', v[1], self.tys), v[2])
        for x, ft in zip(fs, t):
            if ft == self.tys[0]:
                if x != ('HR', 0, self.hm):
                    return 'the hash recorded is not the hash given'
            elif ft[0] == 'int':
                if not (x[0] == 'I' and st.norm(x[1]).const() == d):
                    return 'the depth recorded is not the depth asked for'
            elif ft == self.tys[1]:
                w = self.want(d)
                if w is None:
                    if not (x[0] == 'NB' and (x[1] == 'const' or x[1] == x[2])):
                        return 'the position below the last bits of the hash is not fixed'
                elif x != ('NB',) + w:
                    return 'the position is not the one the bits of the hash at that depth designate'
            else:
                raise Undecided('position layout')
        return None

    def mk(self, adt, d):
        t = self.adt_fields(('adt', adt, self.tys), 0)
        fs = []
        for ft in t:
            if ft == self.tys[0]:
                fs.append(('HR', 0, self.hm))
            elif ft[0] == 'int':
                fs.append(('I', const(d)))
            elif ft == self.tys[1]:
                w = self.want(d)
                fs.append(('NB',) + w if w else ('NB', 'const', 0))
            else:
                raise Undecided('position layout')
        return ('A', adt, 0, tuple(fs))

    def judge_flag(self, s, v, d, opt):
        lab = ('C04', 'C14')
        det = 'hash of %d bits, branches of %d, depth %d' % (self.hm, 1 << self.lb, d)
        if opt:
            if not (v[0] == 'A' and short(v[1]) == 'Option'):
                raise Undecided('optional position')
            if not self.check(v[2] == 1, lab, 'no-position', 'no position for a depth a collection can reach', detail=det):
                return
            v = v[3][0]
        bad = self.good_flag(s, v, d)
        self.check(bad is None, lab, 'wrong-position', bad or '', detail=det)

    def verify_fn(self, bid):
        b = self.cr.bodies[bid]
        ins = [self.cr.ty(i) for i in b['inputs']]
        out = self.cr.ty(b['output'])
        opt = is_flag_opt(out)
        fl = out[2][0] if opt else out
        isf = fl[0] == 'adt' and short(fl[1]) == 'Flag'
        t = fl if isf else strip_ref(ins[0])
        if t[0] != 'adt' or short(t[1]) != 'Flag':
            return False
        tys = t[2]
        if len(tys) != 2:
            raise Undecided('position type')
        adt = t[1]
        shape = tuple('flag' if strip_ref(x)[0] == 'adt' else 'hash' if strip_ref(x) == tys[0] else 'depth' if x[0] == 'int' else '?' for x in ins)
        if isf and shape not in (('hash',), ('hash', 'depth'), ('flag',), ('flag', 'flag')):
            return False
        if not isf and (shape != ('flag',) or out not in (tys[0], tys[1], ('int', 'usize')) and not (out[0] == 'ref' and out[2] in tys)):
            return False
        for hm in HASHES:
            for lb in BRANCHES:
                if hm < 16 and lb > 4:
                    continue        # such a branch word cannot mask such a hash
                self.setup(hm, lb, tys)
                top = -(-hm // lb)
                for d in range(top + 1):
                    self.depth = d
                    if not isf:
                        arg = self.mk(adt, d)
                        self.one(bid, [('P', self.put0(arg), ())], lambda s, v: self.accessor(s, v, out, tys, d))
                    elif shape == ('hash',):
                        if d == 0:
                            self.one(bid, [('HR', 0, hm)], lambda s, v: self.judge_flag(s, v, 0, opt))
                    elif shape == ('hash', 'depth'):
                        self.one(bid, [('HR', 0, hm), ('I', const(d))], lambda s, v: self.judge_flag(s, v, d, opt))
                    elif shape == ('flag',):
                        same = not opt
                        if d < top or same:
                            arg = self.mk(adt, d)
                            a = ('P', self.put0(arg), ()) if ins[0][0] == 'ref' else arg
                            self.one(bid, [a], lambda s, v: self.judge_flag(s, v, d if same else d + 1, opt))
                    if self.reports:
                        return True
        return True

    def put0(self, v):
        self.cell0 = (('h', 'arg'), v)
        return ('h', 'arg')

    def one(self, bid, args, judge):
        st = St(self)
        if getattr(self, 'cell0', None):
            st.mem[self.cell0[0]] = self.cell0[1]
        self.span = self.cr.bodies[bid]['file']
        self.rootbid = bid
        try:
            for s, v in self.run_body(bid, {}, list(args), st):
                self.exits += 1
                judge(s, self.res(s, v))
        except Infeasible:
            pass
        except Undecided as e:
            self.undecide(str(e))

    def accessor(self, s, v, out, tys, d):
        v = self.deref_all(s, v)
        o = out[2] if out[0] == 'ref' else out
        w = self.want(d)
        if o == tys[0]:
            ok, what = v == ('HR', 0, self.hm), 'hash'
        elif o == tys[1]:
            ok, what = v == (('NB',) + w if w else ('NB', 'const', 0)), 'position'
        else:
            ok, what = v[0] == 'I' and s.norm(v[1]).const() == d, 'depth'
        self.check(ok, ('C04',), 'accessor', 'the %s answered is not the one recorded' % what)


def analyse(cr, cs, shapes):
    out = []
    for bid, b in sorted(cr.bodies.items()):
        if b['kind'] not in ('AssocFn', 'Fn') or b.get('output') is None or not b.get('inputs'):
            continue
        ts = [strip_ref(cr.ty(b['inputs'][0])), cr.ty(b['output'])]
        if is_flag_opt(ts[1]):
            ts.append(ts[1][2][0])
        if not any(t[0] == 'adt' and short(t[1]) == 'Flag' for t in ts):
            continue
        v = Flags(cr, cs, shapes)
        v.rootbid = bid
        v.span = b['file']
        try:
            if not v.verify_fn(bid):
                continue
        except Undecided as e:
            v.undecide(str(e))
        except Infeasible:
            pass
        except Exception as e:
            v.lost('a form the analysis does not know (%s)' % repr(e)[:80])
        out.append((bid, v))
    return out


if __name__ == '__main__':
    import sys
    from ir import Crate
    from sem import all_contracts
    sys.setrecursionlimit(20000)
    cr = Crate(sys.argv[1])
    for bid, v in analyse(cr, all_contracts(cr), {}):
        print(bid, v.exits, v.obl)
        for r in v.reports:
            print('   !', r['props'], r['rule'], r['span'], r['msg'], r['detail'])
        for w in sorted(set(v.undecided)):
            print('   ?', *w)
