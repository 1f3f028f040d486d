"""The bit-indexed arrays: every method is interpreted on an array of any length whose word is kept as three groups of positions
(below, at and above the position asked for), and what it answers is compared element by element with what is required."""
from dom import Lin, ZERO, const, atom, ONE
from ir import short
from state import St, Infeasible, Undecided
from engine import U, TRUE, FALSE, UNIT
from sem import unify, norm_path
from bits import Words, WIDTH

ARRAY, VALUES = 'BitIndexedArray', 'BitIndexedArrayValues'
LAB = ('C19',)


class Arrays(Words):
    def __init__(self, cr, cs, shapes, impl):
        super().__init__(cr, cs, shapes, 'C19')
        self.impl = impl                   # the array type: ('adt', id, args)
        self.maxlen = max(WIDTH[cr.ty(b['self'])[1]] for b in cr.bodies.values()
                          if b.get('trait') and short(b['trait']) == 'CountOnes' and cr.ty(b['self'])[0] == 'int')
        self.build = None

    # ---- scenarios ------------------------------------------------------------------------------------------
    def world(self, below, above, has):
        """a word with `below` and `above` positions around the one asked for"""
        self.classes(None, [('n0', 'n1'), 'l', ('a00', 'a10')], {'n1': below, 'l': const(1), 'a10': above})
        self.bit = ('W', None, frozenset(('l',)))
        self.r, self.s = below, above
        self.n = below + above + const(1 if has else 0)
        return ('W', None, frozenset(('n1', 'a10') + (('l',) if has else ())))

    def cnt(self, name):
        self.nn.add(('cnt', name))
        self.counts.add(('cnt', name))
        return atom('cnt', name)

    def array(self, st, word, n, name='self', extra=('EX', 'self')):
        """an array value of the implementing type with an unknown element at each of the first n indices"""
        t = self.impl
        ps = dict(zip(self.cr.adts[t[1]]['g'], t[2]))
        fs, seen = [], []
        for f in self.cr.adts[t[1]]['v'][0]['f']:
            ft = self.cr.ty(f[1])
            if ft[0] == 'array':
                fs.append(('SQ', (('r', name, ZERO, n),)))
                seen.append('values')
            elif ft == ('param', self.roles[0]):
                fs.append(word)
                seen.append('bits')
            elif ft == ('param', self.roles[2]):
                fs.append(extra)
                seen.append('extra')
            else:
                raise Undecided('array layout')
        if sorted(seen) != ['bits', 'extra', 'values']:
            raise Undecided('array layout')
        self.slots = {k: i for i, k in enumerate(seen)}
        return ('A', t[1], 0, tuple(fs))

    @property
    def roles(self):
        """names of the word, element and extra parameters and of the length"""
        return self.cr.adts[self.impl[1]]['g']

    # ---- sequences --------------------------------------------------------------------------------------------
    def seq(self, st, v):
        v = self.deref_all(st, v)
        if v[0] == 'SQ':
            return v
        raise Undecided('sequence expected, got ' + str(v[1] if v[0] == 'X' else v[0]))

    def plen(self, p):
        return p[3] - p[2] if p[0] == 'r' else const(1)

    def sqlen(self, st, v):
        if v[0] == 'FF':
            return v[2]
        t = ZERO
        for p in v[1]:
            t = t + self.plen(p)
        return st.norm(t)

    def cut(self, st, sq, at):
        """pieces before and from an index"""
        pos, left = ZERO, []
        ps = list(sq[1])
        while ps:
            if st.norm(at - pos).is_zero():
                return tuple(left), tuple(ps)
            p = ps.pop(0)
            end = pos + self.plen(p)
            d = self.decide(st, ('lt', at, end))
            if d is None and p[0] == 'r' and self.decide(st, ('lt', end, at)) is False:
                d = True                                                                # inside the piece or right after it
            if d is None:
                raise Undecided('index between pieces')
            if d:
                if p[0] != 'r':
                    raise Undecided('index inside an element')
                k = st.norm(at - pos)
                left.append(('r', p[1], p[2], st.norm(p[2] + k)))
                return tuple(left), (('r', p[1], st.norm(p[2] + k), p[3]),) + tuple(ps)
            left.append(p)
            pos = end
        if st.norm(at - pos).is_zero():
            return tuple(left), ()
        raise Undecided('index past the end')

    def cut_cases(self, st, sq, at):
        """[(state, pieces before, pieces from the index)]"""
        out, pos, left, todo = [], ZERO, (), [st]
        ps = list(sq[1])
        for k, p in enumerate(ps):
            end, nxt = pos + self.plen(p), []
            for s in todo:
                for s2, here in self.fork(s, ('B', ('lt', at, end))):
                    if not here:
                        nxt.append(s2)
                    elif p[0] == 'e':
                        out.append((s2, left, tuple(ps[k:])))
                    else:
                        m = s2.norm(p[2] + at - pos)
                        out.append((s2, left + (('r', p[1], p[2], m),), (('r', p[1], m, p[3]),) + tuple(ps[k + 1:])))
            pos, todo, left = end, nxt, left + (p,)
        for s in todo:
            if not s.norm(at - pos).is_zero():
                raise Undecided('index past the end')
            out.append((s, left, ()))
        return out

    def with_elem(self, st, sq, i, val):
        """[(state, the sequence with val at index i)]"""
        out = []
        for s, a, b in self.cut_cases(st, sq, i):
            for s2, c, d in self.cut_cases(s, ('SQ', b), const(1)):
                out.append((s2, ('SQ', a + (('e', val),) + d)))
        return out

    def elem(self, st, v, i):
        if v[0] == 'FF':
            raise Undecided('element of a lazily built array')
        if v[0] != 'SQ':
            return super().elem(st, v, i)
        _, ps = self.cut(st, v, i)
        while ps and st.norm(self.plen(ps[0])).is_zero():
            ps = ps[1:]
        if not ps:
            raise Undecided('element past the end')
        if ps[0][0] == 'r' and self.decide(st, ('lt', ZERO, self.plen(ps[0]))) is not True:
            raise Undecided('element after a piece that may be empty')
        return self.first(st, ps[0])

    def elem_cases(self, st, sq, i):
        """[(state, element at index i)] with the pieces it may fall into told apart"""
        out, pos, todo = [], ZERO, [st]
        for p in sq[1]:
            end, nxt = pos + self.plen(p), []
            for s in todo:
                for s2, here in self.fork(s, ('B', ('lt', i, end))):
                    if not here:
                        nxt.append(s2)
                    else:
                        out.append((s2, p[1] if p[0] == 'e' else ('EL', p[1], s2.norm(p[2] + i - pos))))
            pos, todo = end, nxt
        if todo:
            raise Undecided('element past the end')
        return out

    def first(self, st, p):
        return p[1] if p[0] == 'e' else ('EL', p[1], st.norm(p[2]))

    def set_elem(self, st, v, i, path, val):
        if v[0] != 'SQ' or path:
            return super().set_elem(st, v, i, path, val)
        a, ps = self.cut(st, v, i)
        _, rest = self.cut(st, ('SQ', ps), const(1))
        return ('SQ', a + (('e', val),) + rest)

    def mkvec(self, st, ops):
        return ('SQ', tuple(('e', o) for o in ops))

    def aggregate(self, st, fr, kind, ops):
        k = kind[0] if isinstance(kind, list) else kind
        if k == 'array':
            return ('SQ', tuple(('e', o) for o in ops))
        return super().aggregate(st, fr, kind, ops)

    # ---- the length parameter ----------------------------------------------------------------------------------
    def lenval(self, fr, x):
        """value of a const argument"""
        if x is None:
            raise Undecided('length')
        if isinstance(x, tuple) and x[0] == 'lin':
            return x[1]
        x = x[1] if isinstance(x, tuple) else str(x)
        if '/#' in x:
            return self.lenval(fr, fr.sub.get(x.split('/#')[0]))
        d = x.split('_')[0]
        if d.isdigit():
            return const(int(d))
        return self.lenval(fr, fr.sub.get(x))

    def operand(self, st, fr, o):
        if o[0] not in ('copy', 'move') and 'ct' in o[1]:
            return ('I', self.lenval(fr, fr.sub.get(o[1]['ct'])))
        return super().operand(st, fr, o)

    def callee_sub(self, fr, c, b):
        s = super().callee_sub(fr, c, b)
        for k, x in list(s.items()):
            if x[0] == 'const' and '/#' in x[1]:
                s[k] = ('lin', self.lenval(fr, x))
        return s

    def rvalue(self, st, fr, r, destty):
        if r[0] == 'cast' and r[1] not in ('IntToInt', 'FloatToInt', 'IntToFloat'):
            return [(st, self.operand(st, fr, r[2]))]
        if r[0] == 'un' and r[1] == 'PtrMetadata':
            return [(st, ('I', self.sqlen(st, self.seq(st, self.operand(st, fr, r[2])))))]
        if r[0] == 'len':
            return [(st, ('I', self.sqlen(st, self.seq(st, self.read(st, fr, r[1])))))]
        if r[0] == 'discr':
            v = self.res(st, self.read(st, fr, r[1]))
            if v[0] == 'CMP':
                return [(st, v)]
        if r[0] == 'agg' and (r[1][0] if isinstance(r[1], list) else r[1]) == 'closure':
            sub = dict(fr.sub)
            return [(st, ('C', r[1][1], tuple(self.operand(st, fr, x) for x in r[2]), sub))]
        return super().rvalue(st, fr, r, destty)

    # ---- words of the generic kind --------------------------------------------------------------------------------
    def wordlike(self, v):
        return v[0] == 'W' or v == ('INV',) or v == ('DEF',)

    def single_bit(self, st, v):
        """the class an argument bit stands for, or None when it is not one bit"""
        if v == ('INV',):
            return None
        if v[0] == 'W' and st.norm(self.size(v[2])).const() == 1:
            return [c for c in v[2] if st.norm(self.card[c]).const() == 1][0]
        raise Undecided('bit argument')

    def biterr(self, name):
        for a, d in self.cr.adts.items():
            if short(a) == 'BitError':
                return self.result(False, ('A', a, self.vindex(a, name), ()))
        raise Undecided('errors')

    def word_call(self, st, t, name, args):
        v = self.deref_all(st, args[0]) if args else None
        if t == 'NthBit':
            i = st.norm(self.as_int(st, v))
            if st.norm(i - self.index).is_zero():
                return [(st, self.biterr('Range') if self.outside else self.result(True, self.askbit))]
            raise Undecided('bit of another index')
        if t == 'CountOnes':
            return [(st, ('I', self.size(v[2]) if v[0] == 'W' else ZERO))]
        if t == 'Clone':
            return [(st, v)]
        if t in ('BitIndex', 'BitContains', 'BitInsert', 'BitRemove'):
            if v[0] == 'DEF':
                v = ('W', None, frozenset())
            if v[0] != 'W':
                raise Undecided('word')
            c = self.single_bit(st, self.deref_all(st, args[1]))
            if c is None:
                return [(st, self.biterr('CountNotEqualToOne'))]
            has = c in v[2]
            if t == 'BitContains':
                return [(st, self.result(True, TRUE if has else FALSE))]
            if t == 'BitIndex':
                if not has:
                    return [(st, self.biterr('NotFound'))]
                return [(st, self.result(True, ('I', self.size(x for x in v[2] if self.rank[x] < self.rank[c]))))]
            if t == 'BitInsert':
                return [(st, self.biterr('Found') if has else self.result(True, ('W', None, v[2] | {c})))]
            return [(st, self.result(True, ('W', None, v[2] - {c})) if has else self.biterr('NotFound'))]
        if t == 'BitMerge':
            w = self.deref_all(st, args[1])
            if v[0] == w[0] == 'W':
                return [(st, self.result(True, ('W', None, v[2] | w[2])) if not v[2] & w[2] else self.biterr('Found'))]
        raise Undecided('word operation ' + name)

    # ---- calls ------------------------------------------------------------------------------------------------------
    def dispatch(self, st, tr, name, v):
        """the body implementing a trait method for a value of a local type, with its length"""
        for im in self.cr.impls:
            if im.get('trait') != tr:
                continue
            t = self.cr.ty(im['self'])
            if t[0] == 'adt' and t[1] == v[1]:
                for it in im['items']:
                    if it[0] == name and it[1] in self.cr.bodies:
                        sub = {}
                        if v[1] == self.impl[1]:
                            sub[self.lengthname(t)] = ('lin', self.sqlen(st, self.res(st, v[3][self.slots['values']])))
                        return it[1], sub
        return None

    def lengthname(self, t):
        x = [a for a in t[2] if a[0] == 'const']
        if len(x) != 1 or '/#' not in x[0][1]:
            raise Undecided('array length')
        return x[0][1].split('/#')[0]

    def call(self, st, fr, c, args, dest, diverges):
        tr, name, r = c.get('trait'), c.get('name'), c.get('r')
        if tr:
            t = short(tr)
            fa = [self.cr.ty(x, fr.sub) for x in c.get('fa') or []]
            v = self.deref_all(st, args[0]) if args else None
            if v is not None and v[0] == 'A' and t in (ARRAY, VALUES):
                h = self.dispatch(st, tr, name, v)
                if h is None:
                    raise Undecided('call of %s::%s' % (t, name))
                return self.run_body(h[0], h[1], self.adjust(st, h[0], args), st)
            if v is not None and v[0] == 'NEWA' and t == ARRAY:
                raise Undecided('use of the array just built')
            if v is not None and v[0] == 'AD' and t == VALUES:
                if name == 'len':
                    return [(st, ('I', self.adlen))]
                if name == 'at_index':
                    i = st.norm(self.as_int(st, args[1]))
                    st.mem[('h', 'asked')] = st.mem.get(('h', 'asked'), ()) + (i,)
                    return [(st, ('EL', 'adapter', i))]
            if (v is not None and self.wordlike(v) or t == 'NthBit') and t in ('NthBit', 'CountOnes', 'BitIndex', 'BitContains', 'BitInsert', 'BitRemove', 'BitMerge'):
                return self.word_call(st, t, name, args)
            if t == 'Clone' and name == 'clone':
                if v[0] in ('W', 'EL', 'NV', 'EX', 'INV', 'SQ', 'I', 'DEF'):
                    return [(st, v)]
                if v[0] == 'A' and v[1] == self.impl[1]:
                    x = self.deref(st, args[0])
                    if self.res0(st, x)[0] != 'P':
                        h = self.dispatch(st, tr, name, v)
                        if h is not None:
                            return self.run_body(h[0], h[1], self.adjust(st, h[0], args), st)
                        return [(st, v)]
                    if r in self.cr.bodies:
                        return self.run_body(r, self.callee_sub(fr, c, self.cr.bodies[r]), args, st)
            if t == 'Default' and name == 'default' and r not in self.cr.bodies:
                d = self.place_ty(fr, dest)
                if d[0] == 'param' or d[0] == 'array':
                    return [(st, ('DEF',) if d[0] == 'param' else ('SQ', ()))]
            if t in ('Ord', 'PartialOrd') and name in ('cmp', 'partial_cmp') and v[0] == 'I':
                a, b = v[1], self.as_int(st, self.deref_all(st, args[1]))
                out = []
                o = 'core::cmp::Ordering'
                for s, lt in self.fork(st, ('B', ('lt', a, b))):
                    if lt:
                        out.append((s, ('A', o, 0, ())))
                        continue
                    for s2, eq in self.fork(s, ('B', ('ieq', a - b))):
                        out.append((s2, ('A', o, 1 if eq else 2, ())))
                return [(s, x if name == 'cmp' else self.option(x)) for s, x in out]
            if t in ('PartialOrd', 'PartialEq') and v[0] == 'I' and name in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
                return self.binop(st, name.capitalize(), v, self.deref_all(st, args[1]))
            if t == 'ToOwned' and name == 'to_owned':
                return [(st, v)]
            if t in ('Index', 'IndexMut') and v[0] in ('SQ',):
                return self.at(st, args, True, t == 'IndexMut')
            if t in ('Deref', 'DerefMut', 'AsRef', 'AsMut', 'Borrow') and v[0] == 'A' and short(v[1]) == 'Cow':
                p = self.res(st, args[0])
                w = self.res0(st, v[3][0])
                return [(st, ('P', p[1], p[2] + (('f', 0),)) if v[2] == 1 else w)]
            if t in ('Deref', 'DerefMut', 'AsRef', 'AsMut', 'Borrow') and v[0] in ('SQ', 'A'):
                return [(st, self.pointer(st, args[0]))]
            if t == 'IntoIterator' and r not in self.cr.bodies and v[0] == 'SQ':
                return [(st, ('IT', 'sq', v))]
            if t == 'Iterator' and r not in self.cr.bodies and name in ('cloned', 'copied', 'by_ref', 'into_iter', 'collect') and v[0] == 'IT' and v[1] == 'sq':
                return [(st, v if name != 'collect' else v[2])]
            if t == 'Iterator' and r not in self.cr.bodies and v[0] == 'IT' and v[1] == 'sq' and name in ('skip', 'take'):
                n, out = self.sqlen(st, v[2]), []
                k = st.norm(self.as_int(st, args[1]))
                for s, past in self.fork(st, ('B', ('lt', n, k))):
                    a, b = (v[2][1], ()) if past else self.cut(s, v[2], k)
                    out.append((s, ('IT', 'sq', ('SQ', b if name == 'skip' else a))))
                return out
            if t == 'Iterator' and r not in self.cr.bodies and v[0] == 'IT' and v[1] == 'sq' and name == 'chain':
                w = self.deref_all(st, args[1])
                if w[0] == 'IT' and w[1] == 'sq':
                    return [(st, ('IT', 'sq', ('SQ', v[2][1] + w[2][1])))]
                if w[0] == 'SQ':
                    return [(st, ('IT', 'sq', ('SQ', v[2][1] + w[1])))]
                if w[0] == 'A' and short(w[1]) in ('Once', 'Option') and w[2] == 1:
                    return [(st, ('IT', 'sq', ('SQ', v[2][1] + (('e', self.res(st, w[3][0])),))))]
        f = norm_path(r or c['fn'])
        if r not in self.cr.bodies and not (tr and r is None):
            if name == 'from_fn' and '::array::' in f:
                n = self.lenval(fr, (c.get('ra') or c.get('fa'))[1])
                return self.from_fn(st, args[0], n)
            if name == 'once' and '::iter::' in f:
                return [(st, ('IT', 'sq', ('SQ', (('e', self.deref_all(st, args[0])),))))]
            if name == 'into_owned' or name == 'to_mut' and 'Cow' in f:
                return [(st, self.cow(st, args[0]))]
            v = self.deref_all(st, args[0]) if args else None
            if v is not None and v[0] == 'SQ' and not f.startswith('core::option'):
                return self.seq_call(st, fr, name, args, dest)
            if f.startswith('alloc::vec') and name in ('new', 'with_capacity'):
                return [(st, ('SQ', ()))]
            if f.startswith('core::option') and name in ('take', 'replace', 'insert'):
                p = self.res(st, args[0])
                x = self.get(st, p[1], p[2])
                self.put(st, p[1], p[2], self.option(args[1] if name != 'take' else None))
                if name == 'insert':
                    return [(st, ('P', p[1], p[2] + (('d', 1), ('f', 0))))]
                return [(st, x)]
        if r in self.cr.bodies and r == self.build and fr.bid != self.build:
            return self.built(st, args)
        return super().call(st, fr, c, args, dest, diverges)

    def adjust(self, st, bid, args):
        """drop pointer levels a dynamic call goes through"""
        b = self.cr.bodies[bid]
        a = list(args)
        t = self.cr.ty(b['inputs'][0]) if b.get('inputs') else None
        if t is not None and t[0] == 'ref':
            p = self.res(st, a[0])
            while p[0] == 'P':
                q = self.res(st, self.get(st, p[1], p[2]))
                if q[0] != 'P':
                    break
                p = q
            a[0] = p
        return a

    def cow(self, st, v):
        v = self.res(st, v)
        if v[0] == 'A' and short(v[1]) == 'Cow':
            return self.res0(st, v[3][0]) if v[2] == 1 else self.deref_all(st, v[3][0])
        raise Undecided('cow')

    def at(self, st, args, panics, write=False):
        """element by index, with the check"""
        p = self.res(st, args[0])
        while self.res(st, self.get(st, p[1], p[2]))[0] == 'P':
            p = self.res(st, self.get(st, p[1], p[2]))
        sq = self.seq(st, p)
        x = self.res(st, args[1])
        if x[0] == 'A' and 'Range' in short(x[1]):
            lo, hi = ZERO, self.sqlen(st, sq)
            k = short(x[1])
            if write:
                raise Undecided('part of a list that may be written to')
            if k in ('Range', 'RangeFrom'):
                lo = self.as_int(st, x[3][0])
            if k in ('Range', 'RangeTo'):
                hi = self.as_int(st, x[3][-1])
            if k not in ('Range', 'RangeFrom', 'RangeTo', 'RangeFull'):
                raise Undecided('range')
            out = []
            for s, bad in self.fork(st, ('B', ('lt', self.sqlen(st, sq), hi))):
                for s2, bad2 in self.fork(s, ('B', ('lt', hi, lo))):
                    if bad or bad2:
                        if panics:
                            self.panic(s2, 'a slice outside the array')
                        else:
                            out.append((s2, self.option(None)))
                        continue
                    a, _ = self.cut(s2, sq, hi)
                    _, b = self.cut(s2, ('SQ', a), lo)
                    q = self.newcell(s2, ('SQ', b))
                    out.append((s2, q if panics else self.option(q)))
            return out
        i = st.norm(self.as_int(st, x))
        out = []
        for s, ok in self.fork(st, ('B', ('lt', i, self.sqlen(st, sq)))):
            if ok:
                q = ('P', p[1], p[2] + (('ix', i),))
                out += [(s2, q if panics else self.option(q)) for s2, _ in self.elem_cases(s, sq, i)]
            elif panics:
                self.panic(s, 'an index outside the array')
            else:
                out.append((s, self.option(None)))
        return out

    def seq_call(self, st, fr, name, args, dest):
        sq = self.seq(st, args[0])
        p = self.res(st, args[0])
        if p[0] == 'P':
            while self.res(st, self.get(st, p[1], p[2]))[0] == 'P':
                p = self.res(st, self.get(st, p[1], p[2]))
        n = self.sqlen(st, sq)
        if name == 'len':
            return [(st, ('I', n))]
        if name == 'is_empty':
            return [(st, ('B', ('ieq', n)))]
        if name in ('get', 'get_mut'):
            return self.at(st, args, False, name == 'get_mut')
        if name in ('index', 'index_mut'):
            return self.at(st, args, True, name == 'index_mut')
        if name in ('iter', 'iter_mut', 'into_iter'):
            return [(st, ('IT', 'sq', sq))]
        if name in ('to_vec', 'into_vec', 'into_boxed_slice', 'to_owned'):
            return [(st, sq)]
        if name in ('as_slice', 'as_ref', 'as_mut_slice', 'deref', 'borrow', 'as_mut'):
            return [(st, p)]
        if name in ('first', 'last'):
            return self.at(st, [args[0], ('I', ZERO if name == 'first' else n - const(1))], False)
        if name == 'push':
            self.put(st, p[1], p[2], ('SQ', sq[1] + (('e', args[1]),)))
            return [(st, UNIT)]
        if name == 'insert':
            i = st.norm(self.as_int(st, args[1]))
            out = []
            for s, bad in self.fork(st, ('B', ('lt', n, i))):
                if bad:
                    self.panic(s, 'an index outside the list')
                    continue
                a, b = self.cut(s, sq, i)
                self.put(s, p[1], p[2], ('SQ', a + (('e', args[2]),) + b))
                out.append((s, UNIT))
            return out
        if name == 'remove':
            i = st.norm(self.as_int(st, args[1]))
            out = []
            for s, ok in self.fork(st, ('B', ('lt', i, n))):
                if not ok:
                    self.panic(s, 'an index outside the list')
                    continue
                a, b = self.cut(s, sq, i)
                e = self.elem(s, sq, i)
                _, b = self.cut(s, ('SQ', b), const(1))
                self.put(s, p[1], p[2], ('SQ', a + b))
                out.append((s, e))
            return out
        if name in ('swap_remove', 'swap'):
            ix = [st.norm(self.as_int(st, x)) for x in args[1:]]
            out = []
            for s, ok in self.fork(st, ('B', ('lt', ix[0], n))):
                for s2, ok2 in (self.fork(s, ('B', ('lt', ix[1], n))) if name == 'swap' and ok else [(s, ok)]):
                    if not ok2:
                        self.panic(s2, 'an index outside the list')
                        continue
                    j = ix[1] if name == 'swap' else n - const(1)
                    for s3, x in self.elem_cases(s2, sq, ix[0]):
                        for s4, y in self.elem_cases(s3, sq, j):
                            for s5, q in self.with_elem(s4, sq, ix[0], y):
                                for s6, q in self.with_elem(s5, q, j, x):
                                    for s7, q in [(s6, q)] if name == 'swap' else [(z, ('SQ', l)) for z, l, _ in self.cut_cases(s6, q, j)]:
                                        self.put(s7, p[1], p[2], q)
                                        out.append((s7, x if name == 'swap_remove' else UNIT))
            return out
        if name == 'pop':
            out = []
            for s, some in self.fork(st, ('B', ('lt', ZERO, n))):
                if some:
                    x = self.elem(s, sq, n - const(1))
                    self.put(s, p[1], p[2], ('SQ', self.cut(s, sq, n - const(1))[0]))
                out.append((s, self.option(x if some else None)))
            return out
        if name in ('truncate', 'split_off'):
            i, out = st.norm(self.as_int(st, args[1])), []
            for s, past in self.fork(st, ('B', ('lt', n, i))):
                if past and name == 'split_off':
                    self.panic(s, 'an index outside the list')
                    continue
                a, b = (sq[1], ()) if past else self.cut(s, sq, i)
                self.put(s, p[1], p[2], ('SQ', a))
                out.append((s, ('SQ', b) if name == 'split_off' else UNIT))
            return out
        if name == 'split_at':
            i, out = st.norm(self.as_int(st, args[1])), []
            for s, past in self.fork(st, ('B', ('lt', n, i))):
                if past:
                    self.panic(s, 'an index outside the list')
                    continue
                a, b = self.cut(s, sq, i)
                out.append((s, ('T', (self.newcell(s, ('SQ', a)), self.newcell(s, ('SQ', b))))))
            return out
        if name in ('extend_from_slice', 'append', 'extend'):
            q = self.deref_all(st, args[1])
            q = q[2] if q[0] == 'IT' and q[1] == 'sq' else q
            if q[0] != 'SQ':
                raise Undecided(name)
            self.put(st, p[1], p[2], ('SQ', sq[1] + q[1]))
            if name == 'append':
                r = self.res(st, args[1])
                self.put(st, r[1], r[2], ('SQ', ()))
            return [(st, UNIT)]
        if name == 'concat':
            ps = ()
            for x in sq[1]:
                y = self.deref_all(st, x[1]) if x[0] == 'e' else None
                if y is None or y[0] != 'SQ':
                    raise Undecided(name)
                ps += y[1]
            return [(st, ('SQ', ps))]
        if name in ('rotate_left', 'rotate_right'):
            k, out = st.norm(self.as_int(st, args[1])), []
            for s, past in self.fork(st, ('B', ('lt', n, k))):
                if past:
                    self.panic(s, 'an index outside the list')
                    continue
                for s2, a, b in self.cut_cases(s, sq, k if name == 'rotate_left' else n - k):
                    self.put(s2, p[1], p[2], ('SQ', b + a))
                    out.append((s2, UNIT))
            return out
        if name in ('reserve', 'shrink_to_fit', 'clear'):
            if name == 'clear':
                self.put(st, p[1], p[2], ('SQ', ()))
            return [(st, UNIT)]
        raise Undecided('sequence method ' + name)

    def panic(self, st, why):
        self.oblige(self.prop, False)
        self.report(('C19', 'C14'), 'reachable-panic', why)

    # ---- the constructor --------------------------------------------------------------------------------------------------
    def built(self, st, args):
        """contract of the constructor: refuses exactly when the counts differ"""
        w, ad = self.res(st, args[0]), self.kept(st, args[1])
        out = []
        for s, n in self.adapter_len(st, ad):
            wc = self.size(w[2]) if w[0] == 'W' else ZERO
            for s2, eq in self.fork(s, ('B', ('ieq', wc - n))):
                if eq:
                    out.append((s2, self.result(True, self.newcell(s2, ('NEWA', w, self.newcell(s2, ad), n, args[2])))))
                else:
                    out.append((s2, self.biterr('CountNotEqualToOne')))
        return out

    def kept(self, st, v, n=0):
        """the value with lists behind its references kept as they are now (the locals they live in end before the array is judged)"""
        v = self.res(st, v)
        if v[0] == 'A':
            return v[:3] + (tuple(self.kept(st, x, n + 1) for x in v[3]),) if n < 4 else v
        if v[0] == 'P':
            w = self.res(st, self.get(st, v[1], v[2]))
            if w[0] in ('P', 'SQ'):
                return self.newcell(st, self.kept(st, w, n + 1) if n < 6 else w)
        return v

    def adapter_call(self, st, cell, name, rest):
        v = self.deref_all(st, cell)
        if v[0] != 'A':
            raise Undecided('source of the values')
        tr = [im['trait'] for im in self.cr.impls if im.get('trait') and short(im['trait']) == VALUES][0]
        h = self.dispatch(st, tr, name, v)
        if h is None:
            raise Undecided('source of the values')
        return self.run_body(h[0], h[1], [cell] + rest, st)

    def adapter_len(self, st, ad):
        cell = self.newcell(st, ad)
        return [(s, self.as_int(s, v)) for s, v in self.adapter_call(st, cell, 'len', [])]

    # ---- judging an array -------------------------------------------------------------------------------------------------
    def word_is(self, st, v, want):
        v = self.res(st, v)
        if v == ('DEF',):
            v = ('W', None, frozenset())
        if v[0] != 'W':
            return False
        return all(st.norm(self.card[c]).is_zero() for c in v[2] ^ want)

    def judge(self, st, v, word, n, elem, extra, what):
        """v: the array answered; elem: [(index, value required)]"""
        v = self.deref_all(st, v)
        if v[0] == 'A' and v[1] == self.impl[1]:
            b, vals, ex = (self.res(st, v[3][self.slots[k]]) for k in ('bits', 'values', 'extra'))
            size = self.sqlen(st, vals) if vals[0] in ('SQ', 'FF') else None
        elif v[0] == 'NEWA':
            _, b, vals, size, ex = v
        else:
            raise Undecided('array answered')
        self.check(self.word_is(st, b, word), LAB, 'array-word', '%s: the word of the array does not hold exactly the positions present' % what)
        if ex == ('DEF',) and extra == ('DEF',):
            pass
        else:
            self.check(self.res(st, ex) == extra, LAB, 'array-extra', '%s: the extra value is not the one given' % what)
        if size is None:
            raise Undecided('length of the array answered')
        self.check(st.norm(size - n).is_zero(), LAB, 'array-length', '%s: the array does not have one value per position' % what, detail='%s for %s' % (st.norm(size), st.norm(n)))
        if not st.norm(size - n).is_zero():
            return
        for i, req in elem:
            for s, got in self.element(st.copy(), vals, i):
                got = self.res(s, got)
                got, want = (('EL', x[1], s.norm(x[2])) if x[0] == 'EL' else x for x in (got, req))
                self.check(got == want, LAB, 'array-value', '%s: a position does not hold its own value' % what, detail='%s, not %s, at index %s' % (self.show(got), self.show(want), s.norm(i)))

    def show(self, v):
        return {'EL': lambda: 'the value at %s' % v[2], 'NV': lambda: 'the new value'}.get(v[0], lambda: str(v))()

    def from_fn(self, st, f, n):
        """an array filled index by index: the index that will be judged is computed now, after the one that may leave a trace"""
        if self.judged is None:
            return [(st, ('FF', None, n, ZERO))]
        i = st.norm(self.judged)
        start = [st]
        if self.decide(st, ('lt', self.r, i)):
            start = [s for s, _ in self.closure(st, f, [('I', self.r)])]
        out = []
        for s in start:
            s.mem[('h', 'asked')] = ()
            before = self.trace(s, f)
            for s2, x in self.closure(s, f, [('I', i)]):
                if s2.mem.get(('h', 'asked'), ()) not in ((), (i,)):
                    raise Undecided('values not asked for once and in order')
                if not s2.norm(i - self.r).is_zero() and self.trace(s2, f) != before:
                    raise Undecided('the source of the values changes along the way')
                out.append((s2, ('FF', x, n, i)))
        return out

    def trace(self, st, f):
        f = self.deref_all(st, f)
        if f[0] == 'C':
            return tuple(self.deref_all(st, x) for x in f[2])
        raise Undecided('source of the values')

    def element(self, st, vals, i):
        i = st.norm(i)
        if vals[0] == 'SQ':
            return self.elem_cases(st, vals, i)
        if vals[0] == 'FF':
            if vals[1] is None or not st.norm(vals[3] - i).is_zero():
                raise Undecided('element of an array filled index by index')
            return [(st, vals[1])]
        # an adapter: asked for index 0, 1, 2, … in turn
        start = [st]
        at = self.decide(st, ('lt', self.r, i))
        before = None
        if at:
            start = [s for s, _ in self.adapter_call(st, vals, 'at_index', [('I', self.r)])]
        out = []
        for s in start:
            before = self.deref_all(s, vals)
            for s2, x in self.adapter_call(s, vals, 'at_index', [('I', i)]):
                after = self.deref_all(s2, vals)
                if not s2.norm(i - self.r).is_zero() and before != after:
                    raise Undecided('the source of the values changes along the way')
                out.append((s2, x))
        return out

    # ---- what is required of each method --------------------------------------------------------------------------------------
    def go(self, bid, mk, judge):
        """interpret one method in one scenario"""
        st = St(self)
        self.span = self.cr.bodies[bid]['file']
        self.rootbid = bid
        self.index, self.outside, self.askbit, self.judged = atom('cnt', 'index'), False, None, None
        self.nn.add(('cnt', 'index'))
        try:
            args, sub = mk(st)
            for s, v in self.run_body(bid, sub, list(args), st):
                self.exits += 1
                judge(s, self.res(s, v))
        except Infeasible:
            pass
        except Undecided as e:
            self.undecide(str(e))

    def sub(self, bid, n):
        t = self.cr.ty(self.cr.bodies[bid]['self'])
        return {self.lengthname(t): ('lin', n)} if t[0] == 'adt' and t[1] == self.impl[1] and t[2][-1][0] == 'const' and '/#' in t[2][-1][1] else {}

    def err(self, v):
        return v[0] == 'A' and short(v[1]) == 'Result' and v[2] == 1

    def splits3(self, removed=False):
        """(below, above, index judged, where) for indices before, at and after the position"""
        i, t, j = self.cnt('i'), self.cnt('t'), self.cnt('j')
        r, s = self.cnt('r'), self.cnt('s')
        yield i + t + const(1), s, i, -1
        yield r, s, r, 0
        yield r, j + t + const(1), r + j + const(1), 1

    def verify_method(self, bid):
        name = self.cr.bodies[bid]['name']
        base = name[:-len('_bit_index')] if name.endswith('_bit_index') else name
        byindex = base != name
        r, s = self.cnt('r'), self.cnt('s')

        def selfarg(st, word, n):
            a = self.newcell(st, self.array(st, word, n))
            t = self.cr.ty(self.cr.bodies[bid]['inputs'][0])
            if t[0] == 'ref' and self.is_ptr(t[2]):
                a = self.newcell(st, a)
            return a

        if base in ('bits', 'len', 'values', 'extra', 'iter', 'iter_mut', 'clone_impl', 'clone', 'into_iter'):
            for i, _, _, _ in [(None,) * 4]:
                i, t = self.cnt('i'), self.cnt('t')

                def mk(st):
                    w = self.world(i, t, True)
                    self.all = w[2]
                    return [selfarg(st, w, self.n)], self.sub(bid, self.n)

                def judge(st, v):
                    if base == 'bits':
                        self.check(self.word_is(st, v, self.all), LAB, 'array-word', 'the word answered is not the array\'s')
                    elif base == 'len':
                        self.check(v[0] == 'I' and st.norm(v[1] - self.n).is_zero(), LAB, 'array-length', 'the length answered is not the number of values')
                    elif base == 'extra':
                        self.check(self.deref_all(st, v) == ('EX', 'self'), LAB, 'array-extra', 'the extra value answered is not the array\'s')
                    elif base in ('clone_impl', 'clone'):
                        self.judge(st, v, self.all, self.n, [(i, ('EL', 'self', st.norm(i)))], ('EX', 'self'), 'cloning')
                    else:
                        q = self.deref_all(st, v)
                        q = q[2] if q[0] == 'IT' and q[1] == 'sq' else q
                        if q[0] != 'SQ':
                            raise Undecided('iteration')
                        ok = st.norm(self.sqlen(st, q) - self.n).is_zero()
                        self.check(ok, LAB, 'array-iter', 'the values answered are not all values')
                        if ok:
                            self.check(self.elem(st, q, i) == ('EL', 'self', st.norm(i)), LAB, 'array-iter', 'the values are not in position order')
                self.go(bid, mk, judge)
            return True
        if name == 'at_index':
            i, t = self.cnt('i'), self.cnt('t')

            def mk1(st):
                w = self.world(i, t, True)
                return [selfarg(st, w, self.n), ('I', i)], self.sub(bid, self.n)
            self.go(bid, mk1, lambda st, v: self.is_elem(st, v, i))
            j = atom('cnt', 'beyond')
            self.nn.add(('cnt', 'beyond'))

            def mk2(st):
                w = self.world(i, t, True)
                return [selfarg(st, w, self.n), ('I', self.n + j)], self.sub(bid, self.n)
            self.go(bid, mk2, lambda st, v: self.check(self.err(v), LAB, 'array-range', 'an index past the end is not refused'))
            return True
        if base not in ('at', 'inserted', 'updated', 'removed'):
            return False
        situations = ['absent', 'present', 'invalid']
        if byindex:
            situations[2] = 'outside'
        for sit in situations:
            has = sit == 'present'
            for owned in ((0, 1) if base in ('inserted', 'updated') else (1,)):
                full = sit == 'absent' and base == 'inserted' or sit == 'present' and base in ('updated', 'removed')
                for below, above, idx, where in (self.splits3() if full else [(r, s, None, None)]):
                    if base == 'removed' and where == 0:
                        continue
                    def mk(st, sit=sit, has=has, owned=owned, below=below, above=above):
                        w = self.world(below, above, has)
                        self.was = w[2]
                        self.outside = sit == 'outside'
                        self.askbit = self.bit
                        self.judged = None if not full else idx if base != 'removed' or where < 0 else idx - const(1)
                        a = [selfarg(st, w, self.n)]
                        a.append(('I', self.index) if byindex else (('INV',) if sit == 'invalid' else self.bit))
                        cow = 'alloc::borrow::Cow'
                        if base in ('inserted', 'updated'):
                            a.append(('A', cow, owned, (('NV',) if owned else self.newcell(st, ('NV',)),)))
                        if base != 'at':
                            a.append(('A', cow, owned, (('EX', 'new') if owned else self.newcell(st, ('EX', 'new')),)))
                        return a, self.sub(bid, self.n)

                    def judge(st, v, sit=sit, full=full, idx=idx, where=where):
                        if base == 'at' and sit == 'present':
                            return self.is_elem(st, v, self.r)
                        if not full:
                            return self.check(self.err(v), LAB, 'array-refuse', '%s at a position that is %s is not refused' % (base, {'absent': 'missing', 'present': 'present'}.get(sit, 'not one position')))
                        v = self.okv(st, v)
                        if not self.check(v is not None, LAB, 'array-accept', '%s at a position that is %s is refused' % (base, sit)):
                            return
                        l = frozenset(('l',))
                        word = {'inserted': self.was | l, 'updated': self.was, 'removed': self.was - l}[base]
                        n = self.n + const({'inserted': 1, 'updated': 0, 'removed': -1}[base])
                        if base == 'removed':
                            new = idx if where < 0 else idx - const(1)
                            want = ('EL', 'self', st.norm(idx))
                        else:
                            new = idx
                            want = ('NV',) if where == 0 else ('EL', 'self', st.norm(idx if base == 'updated' or where < 0 else idx - const(1)))
                        self.judge(st, v, word, n, [(new, want)], ('EX', 'new'), base)
                    self.go(bid, mk, judge)
        return True

    def is_elem(self, st, v, i):
        x = self.okv(st, v)
        ok = x is not None and x[0] == 'P' and self.deref_all(st, x) == ('EL', 'self', st.norm(i))
        self.check(ok, LAB, 'array-lookup', 'a position present is not answered with its own value')

    # ---- constructors -------------------------------------------------------------------------------------------------------
    def verify_build(self, bid):
        """any word, any source of values"""
        i, t = self.cnt('i'), self.cnt('t')
        for same in (True, False):
            self.count = self.cnt('c')
            self.adlen = self.cnt('c') if same else self.cnt('other')
            self.r = self.cnt('i')

            def mk(st):
                self.classes(None, ['b', 'l', 'nb'], {'b': self.count, 'l': ZERO})
                self.array(st, U, ZERO)
                self.judged = self.cnt('i')
                if not same:
                    st.neqi(self.count - self.adlen)
                return [('W', None, frozenset(('b',))), ('AD',), ('EX', 'new')], {}

            def judge(st, v):
                if not same:
                    self.check(self.err(v), LAB, 'array-counts', 'an array with more or fewer values than positions is not refused')
                    return
                x = self.okv(st, v)
                if x is None:
                    past = all(st.never_zero(st.norm(self.count) - const(k)) for k in range(self.maxlen + 1))
                    self.check(past, LAB, 'array-limit', 'a word with a value for each position is refused', detail='count %s' % st.norm(self.count))
                    return
                i = self.cnt('i')
                self.judge(st, x, frozenset(('b',)), self.count, [(i, ('EL', 'adapter', st.norm(i)))], ('EX', 'new'), 'building')
            self.go(bid, mk, judge)

    def verify_default(self, bid):
        def mk(st):
            self.classes(None, ['b'], {'b': self.cnt('b')})
            self.array(st, U, ZERO)
            return [], {}
        self.go(bid, mk, lambda st, v: self.judge(st, v, frozenset(), ZERO, [], ('DEF',), 'the empty array'))

    def verify_slice_adapter(self, bid):
        """a source of values made of a slice"""
        i, t = self.cnt('i'), self.cnt('t')
        self.r = i

        def mk(st):
            self.classes(None, ['b'], {'b': self.cnt('b')})
            return [self.newcell(st, ('SQ', (('r', 'slice', ZERO, i + t + const(1)),)))], {}

        def judge(st, v):
            for s, n in self.adapter_len(st.copy(), v):
                self.check(s.norm(n - i - t - const(1)).is_zero(), LAB, 'array-length', 'a slice of values does not answer its length')
            cell = self.newcell(st, v)
            for s, x in self.adapter_call(st, cell, 'at_index', [('I', i)]):
                self.check(self.res(s, x) == ('EL', 'slice', s.norm(i)), LAB, 'array-value', 'a slice of values does not answer them in order')
                self.check(self.deref_all(s, cell) == v, LAB, 'array-value', 'a slice of values changes as it is read')
        self.go(bid, mk, judge)


def analyse(cr, cs, shapes):
    impls = [im for im in cr.impls if im.get('trait') and short(im['trait']) == ARRAY and cr.ty(im['self'])[0] == 'adt']
    out = []
    if len(impls) != 1:
        v = Words(cr, cs, shapes, 'C19')
        v.rootbid = 'the array types'
        v.undecide('there is not exactly one array type')
        return [('the array types', v)]
    impl = cr.ty(impls[0]['self'])
    build = [bid for bid, b in cr.bodies.items() if b['kind'] == 'Fn' and len(b.get('inputs') or []) == 3 and is_built(cr.ty(b['output']))]

    def run(bid, f):
        v = Arrays(cr, cs, shapes, impl)
        v.build = build[0] if len(build) == 1 else None
        v.rootbid = bid
        v.span = cr.bodies[bid]['file']
        try:
            if getattr(v, f)(bid) is False:
                return
        except Undecided as e:
            v.undecide(str(e))
        except Infeasible:
            pass
        except Exception as e:
            v.lost('a form the analysis does not know (%s)' % repr(e)[:80])
        out.append((bid, v))

    for bid, b in sorted(cr.bodies.items()):
        if b['kind'] == 'Fn' and bid in build:
            run(bid, 'verify_build')
        elif b['kind'] == 'Fn' and not b.get('inputs') and boxed_array(cr.ty(b['output'])):
            run(bid, 'verify_default')
        elif b['kind'] == 'AssocFn' and b.get('self') is not None:
            t = cr.ty(b['self'])
            tr = short(b['trait']) if b.get('trait') else None
            if tr is None and t[0] == 'adt' and len(b['inputs']) == 1 and cr.ty(b['inputs'][0])[0] == 'ref' and cr.ty(b['inputs'][0])[2][0] == 'slice' and \
                    any(im.get('trait') and short(im['trait']) == VALUES and cr.ty(im['self'])[1] == t[1] for im in cr.impls):
                run(bid, 'verify_slice_adapter')
                continue
            if tr in (ARRAY, 'Clone', 'IntoIterator', 'Default'):
                u = t
                while u[0] == 'ref' or u[0] == 'adt' and short(u[1]) == 'Box':
                    u = u[2] if u[0] == 'ref' else u[2][0]
                if u[0] == 'adt' and u[1] == impl[1] or u[0] == 'dyn' and short(u[1] or '') == ARRAY:
                    run(bid, 'verify_default' if tr == 'Default' else 'verify_method')
    return out


def boxed_array(t):
    return t[0] == 'adt' and short(t[1]) == 'Box' and t[2][0][0] == 'dyn' and short(t[2][0][1] or '') == ARRAY


def is_built(t):
    return t[0] == 'adt' and short(t[1]) == 'Result' and boxed_array(t[2][0])


if __name__ == '__main__':
    import sys
    from ir import Crate
    sys.setrecursionlimit(20000)
    cr = Crate(sys.argv[1])
    from sem import all_contracts
    for bid, v in analyse(cr, all_contracts(cr), {}):
        if len(sys.argv) > 2 and sys.argv[2] not in bid:
            continue
        print(bid, v.exits, v.obl)
        for r in v.reports:
            print('   !', r['props'], r['rule'], r['span'], r['msg'], r['detail'])
        for w, sp, path in dict.fromkeys(v.undecided):
            print('   ?', w, sp, path)
