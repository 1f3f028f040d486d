"""What the library's own types mean to the interpreter: nodes hold entries, arrays hold children by slot, operations answer per entry,
and every function whose signature makes it part of a collection-level contract is used through that contract."""
import itertools
import re
from dom import Lin, ZERO, const, atom, size_of, ONE
from ir import short
from state import St, Infeasible, Undecided, MAX
from engine import Engine, U, TRUE, FALSE, UNIT
from contracts import classify, OPS, RESULT_JOBS, INSERTS, REMOVES, NODES, strip_ref

NODE5 = NODES | {'LNodeNext'}
ENTRY_RES = {'MapTransformResult', 'MapJointTransformResult', 'MapTransmuteResult', 'SetTransformResult', 'SetJointTransformResult', 'SetTransmuteResult'}
import os
DEBUG = os.environ.get('ANADEBUG')
HALF = atom('div', MAX, const(2))


def norm_path(p):
    return re.sub(r'::?\{impl#\d+\}', '', p or '')


def subst(t, sub):
    if not sub:
        return t
    k = t[0]
    if k == 'param':
        return sub.get(t[1], t)
    if k in ('adt', 'closure', 'coroutine', 'fndef', 'dyn', 'alias'):
        return (k, t[1], tuple(subst(x, sub) for x in t[2]))
    if k in ('ref', 'ptr'):
        return (k, t[1], subst(t[2], sub))
    if k == 'tuple':
        return (k, tuple(subst(x, sub) for x in t[1]))
    if k in ('slice', 'array'):
        return (k, subst(t[1], sub))
    return t


def unify(p, t, sub):
    if p[0] == 'param':
        if p[1] in sub:
            return sub[p[1]] == t
        sub[p[1]] = t
        return True
    if p[0] != t[0]:
        return False
    k = p[0]
    if k in ('adt', 'closure', 'coroutine', 'fndef', 'dyn', 'alias'):
        return p[1] == t[1] and len(p[2]) == len(t[2]) and all(unify(a, b, sub) for a, b in zip(p[2], t[2]))
    if k in ('ref', 'ptr'):
        return unify(p[2], t[2], sub)
    if k == 'tuple':
        return len(p[1]) == len(t[1]) and all(unify(a, b, sub) for a, b in zip(p[1], t[1]))
    if k in ('slice', 'array'):
        return unify(p[1], t[1], sub)
    return p == t


class Sem(Engine):
    def __init__(self, cr, contracts=None, shapes=None, inline=()):
        super().__init__(cr)
        self.contracts = contracts if contracts is not None else all_contracts(cr)
        self.shapes = shapes if shapes is not None else {}
        self.inline = set(inline)
        self.root = None
        self.owner = {}
        self.keyof = {}
        self.passed = {}
        self.held = {}
        self.hckid = {}
        self.bagcell = None
        self.hcroot = {}
        self.newshapes = set()
        self.rootv = {}

    # ---- reporting -------------------------------------------------------------------------------------
    def report(self, props, rule, msg, span=None, detail=None):
        if self.quiet:
            return
        if isinstance(props, str):
            props = (props,)
        self.reports.append({'props': list(props), 'rule': rule, 'msg': msg, 'span': span or self.span, 'fn': self.rootbid,
                             'path': [f.bid for f in self.stack], 'detail': detail})

    def oblige(self, prop, ok):
        if self.quiet:
            return
        a = self.obl.setdefault(prop, [0, 0])
        a[0] += 1
        if ok:
            a[1] += 1

    def check(self, ok, props, rule, msg, span=None, detail=None):
        if isinstance(props, str):
            props = (props,)
        for p in props:
            self.oblige(p, ok)
        if not ok:
            self.report(props, rule, msg, span, detail)
        return ok

    def panic(self, st, why):
        self.oblige('C14', False)
        self.report(('C14',) + self.extra_props(st), 'reachable-panic', why)

    def extra_props(self, st):
        out = []
        if st.par == 'MiddleIndex':
            out.append('C09')
        return tuple(out)

    # ---- symbols --------------------------------------------------------------------------------------
    def derive(self, i, vi, fi, ty):
        p = self.info(i)
        out = {}
        for k in ('level', 'parts', 'hc', 'popof', 'pos'):
            if k in p:
                out[k] = p[k]
        if 'khc' in p:
            out['hc'] = p['khc']
        t0 = self.ty(i)
        if p.get('pos') and (self.is_ptr(t0) or (t0[0] == 'adt' and short(t0[1]) in ('CNode', 'MNode'))):
            out['pos'] = True
        t = strip_ref(ty)
        if t[0] == 'adt':
            s = short(t[1])
            if s in ('LNode', 'SNode'):
                if 'hc' not in out:
                    out['hc'] = h = ('hc', i, vi, fi)
                    if out.get('parts'):
                        self.hckid[h] = tuple(out['parts'])
                out['pos'] = True
            elif s == 'LNodeNext':
                out['pos'] = True
            elif s in ('CNode', 'MNode') and 'res' in p:
                out['pos'] = True
        return out

    def hc(self, k):
        h = self.info(k).get('hc')
        return h if h is not None else ('hk', k)

    def undivided(self, adt):
        return short(adt) in ('HashTrie', 'HashTrieMap', 'HashTrieSet', 'CNode', 'LNode', 'SNode', 'Flag') or short(adt).startswith('BitIndexed')

    def is_result(self, adt):
        s = short(adt)
        return s in RESULT_JOBS or s in ENTRY_RES or s in INSERTS or s in REMOVES

    def nodety(self, t):
        return t[0] == 'adt' and short(t[1]) in NODE5

    def node_fields(self, adt):
        """for LNode/SNode: indexes of key, value, next, size fields"""
        a = self.cr.adts[adt]
        out = {}
        for n, f in enumerate(a['v'][0]['f']):
            t = self.cr.ty(f[1])
            if t[0] == 'param' and 'key' not in out:
                out['key'] = n
            elif t[0] == 'param':
                out['value'] = n
            elif t[0] == 'int':
                out['size'] = n
            else:
                out['next'] = n
        return out

    def vid(self, st, v):
        v = self.res0(st, v)
        if v[0] == 'S':
            return v[1]
        if v[0] == 'P':
            return self.vid(st, self.get(st, v[1], v[2]))
        if v == UNIT:
            return 'unit'
        raise Undecided('entry value is %s' % (v[1] if v[0] == 'X' else v[0],))

    def kid_(self, st, v):
        v = self.res0(st, v)
        n = 0
        while n < 8:
            if v[0] == 'P':
                v = self.res0(st, self.get(st, v[1], v[2]))
            elif v[0] == 'S' and self.is_ptr(self.ty(v[1])):
                v = self.res(st, v)
            else:
                break
            n += 1
        if v[0] == 'S':
            return v[1]
        raise Undecided('key is %s' % (v[1] if v[0] == 'X' else v[0],))

    def key_of_value(self, st, k, w):
        """remember whose value w is"""
        try:
            k, w = self.kid_(st, k), self.vidp(st, w)
        except Undecided:
            return
        if w != 'unit':
            self.keyof[w] = self.keyof.get(w, frozenset()) | {k}

    def aggregate(self, st, fr, kind, ops):
        if isinstance(kind, list) and kind[0] == 'adt' and short(kind[1]) in ('LNode', 'SNode'):
            f = self.node_fields(kind[1])
            try:
                k, w = self.kid_(st, ops[f['key']]), self.vidp(st, ops[f['value']])
            except Undecided:
                k = w = None
            if w in self.keyof:
                self.check(k in {self.kid_(st, ('S', x)) for x in self.keyof[w]}, ('C17',), 'key-exchanged', 'an entry is stored again under another key object than its own')
            n = self.copied(st, kind[1], f, k, w, ops)
            if n is not None:
                self.check(not n, ('C05',), 'part-rebuilt', 'a node is built that is field for field a node at hand: the existing one is not shared')
        return super().aggregate(st, fr, kind, ops)

    def copied(self, st, adt, f, k, w, ops):
        """is the node about to be built the copy of one node that was read? None: the question does not arise"""
        own = [self.syms[x][2] if isinstance(x, int) else None for x in (k, w)]
        if not all(x and x[0] == 'c' for x in own) or own[0][1] != own[1][1]:
            return None
        i = own[0][1]
        t = self.ty(i)
        if t[0] != 'adt' or t[1] != adt or own[0][3] != f['key'] or own[1][3] != f['value']:
            return None
        if 'next' not in f:
            return True
        try:
            return st.norm(self.content(st, ops[f['next']]) - self.content(st, self.res(st, ('S', i))[3][f['next']])).is_zero()
        except Undecided:
            return None

    def entry(self, st, k, v):
        return st.E(self.kid_(st, k), self.vidp(st, v))

    def vidp(self, st, v):
        v = self.res0(st, v)
        n = 0
        while n < 8:
            if v[0] == 'P':
                v = self.res0(st, self.get(st, v[1], v[2]))
            elif v[0] == 'S' and self.is_ptr(self.ty(v[1])):
                v = self.res(st, v)
            else:
                break
            n += 1
        return self.vid(st, v)

    # ---- contents --------------------------------------------------------------------------------------
    def content(self, st, v):
        v = self.res0(st, v)
        k = v[0]
        if k == 'S':
            t = self.ty(v[1])
            if self.nodety(t):
                c = st.norm(Lin({('N', v[1]): 1}))
                if short(t[1]) == 'SNode' and c == Lin({('N', v[1]): 1}) and st.norm(size_of(c)).d.get(ONE) is None:
                    st.eqi(size_of(c) - const(1))
                return c
            if t[0] == 'dyn':
                return st.norm(Lin({('B', v[1]): 1}))
            if self.is_ptr(t):
                return self.content(st, self.res(st, v))
            if t[0] == 'tuple' and len(t[1]) == 2:
                return self.content(st, self.res(st, v))
            return ZERO
        if k == 'P':
            return self.content(st, self.get(st, v[1], v[2]))
        if k == 'ARR':
            return st.norm(Lin({('B', v[1]): 1}))
        if k == 'NA':
            return st.norm(v[1])
        if k == 'V':
            return st.norm(v[1])
        if k == 'A':
            s = short(v[1])
            if s in ('MNode', 'LNodeNext', 'CNode'):
                return self.content(st, v[3][0])
            if s in ('LNode', 'SNode'):
                f = self.node_fields(v[1])
                c = self.entry(st, v[3][f['key']], v[3][f['value']])
                if 'next' in f:
                    c = c + self.content(st, v[3][f['next']])
                return st.norm(c)
            return ZERO
        if k == 'T' and len(v[1]) == 2:
            a, b = v[1]
            try:
                return st.norm(self.entry(st, a, b))
            except Undecided:
                return ZERO
        if k == 'X':
            raise Undecided(v[1])
        return ZERO

    def on_bind(self, st, i, v):
        t = self.ty(i)
        s = short(t[1])
        info = self.info(i)
        me = Lin({('N', i): 1})
        if s in ('MNode', 'LNodeNext'):
            st.eqc(me - self.content(st, v[3][0]))
        elif s == 'CNode':
            a = self.res(st, v[3][0])
            st.eqc(me - self.content(st, a))
        elif s in ('LNode', 'SNode'):
            f = self.node_fields(t[1])
            c = self.entry(st, v[3][f['key']], v[3][f['value']])
            self.key_of_value(st, v[3][f['key']], v[3][f['value']])
            if 'next' in f:
                c = c + self.content(st, v[3][f['next']])
            st.eqc(me - c)
            for p in info.get('parts') or ():
                if p[0] == 'kid' and p[2][0] in ('ix', 'hs'):                           # a leaf found in a branch belongs where it was found
                    self.assume(st, ('sleq', ('hs', self.hc(self.kid_(st, v[3][f['key']])), p[3]), p[2]), True)
            if 'size' in f:
                sz = v[3][f['size']][1]
                st.bind[sz] = ('I', size_of(me))
        r = info.get('res')
        if r:
            self.on_result(st, i, v, r)

    def total_of(self, st, kind, obj):
        if kind == 'Pre':
            return st.norm(Lin({('B', obj): 1}))
        return self.hcroot.get(obj[1], Lin({('U', obj): 1}))

    def positive(self, a):
        if a[0] == '#' and a[1][0] in ('N', 'B'):
            return bool(self.info(a[1][1]).get('pos'))
        if a[0] == '#' and a[1][0] in ('E',):
            return True
        return False

    # ---- results of operations and contract calls ---------------------------------------------------------
    def name_sides(self, st, sides):
        for s in (1, 2):
            if s not in sides:
                st.named[s] = False

    def on_result(self, st, i, v, r):
        vn = self.vname(v[1], v[2])
        kind = r[0]
        if kind in ('job', 'acc', 'ins', 'rem') and v[3] and v[3][0][0] == 'S':
            t = strip_ref(self.ty(v[3][0][1]))
            if self.nodety(t) and self.info(v[3][0][1]).get('pos') is not False and vn[:2] not in ('Fo', 'No', 'Un'):
                st.neqi(size_of(self.content(st, v[3][0])))
        if kind in ('ev', 'job', 'acc'):
            d, named = self.denote(st, vn, v, r, bind=True)
            if kind == 'ev' and vn == 'Transformed':
                for k, _ in r[1]:
                    self.key_of_value(st, k, v[3][0])
            st.eqc(Lin({('out', i): 1}) - d)
            st.eqr(Lin({('red', i): 1}) - self.to_R(st, v[3][-1]))
            if kind != 'acc':
                self.name_sides(st, named)
        elif kind == 'find':
            _, c, key = r[0], r[1], r[2]
            if vn == 'NotFound':
                self.set_member(st, c, key, False)
            else:
                k, w = v[3]
                self.member_entry(st, c, key, k, w, ('rest', i))
                self.key_of_value(st, k, w)
        elif kind == 'ins':
            _, c, key, val, rep, bid = r
            if vn == 'Found':
                self.member_entry(st, c, key, v[3][0], v[3][1], ('rest', i))
                self.assume(st, rep[1], False)
            else:
                n, pk, pv, prev = v[3]
                self.setinfo(prev[1], res=('prev', i, c, key, rep, bid, vn))
                st.eqc(self.content(st, n) - c - self.entry(st, key, val) + Lin({('prev', i): 1}))
                a, b = self.res(st, pk), self.res(st, pv)
                st.mem[a[1]] = key
                st.mem[b[1]] = val
                self.owner[a[1]] = (n, 'k')
                self.owner[b[1]] = (n, 'v')
                sh = self.shapes.get(bid)
                if sh is not None:
                    alts = [x for x in (0, 1) if (vn, 'Some' if x else 'None') in sh]
                    if not alts:
                        raise Infeasible()
                    if len(alts) == 1 and prev[0] == 'S':
                        self.bind_variant(st, prev[1], alts[0])
        elif kind == 'prev':
            _, ri, c, key, rep, bid, ivn = r
            sh = self.shapes.get(bid)
            if sh is not None and (ivn, vn) not in sh:
                raise Infeasible()
            p = Lin({('prev', ri): 1})
            if vn == 'None':
                st.eqc(p)
                self.set_member(st, c, key, False)
            else:
                t = self.res(st, v[3][0])
                self.member_entry(st, c, key, t[1][0], t[1][1], ('rest', i))
                st.eqc(p - self.entry(st, t[1][0], t[1][1]))
                self.assume(st, rep[1], True)
        elif kind == 'rem':
            _, c, key, bid = r
            if vn == 'NotFound':
                self.set_member(st, c, key, False)
            else:
                k, w = v[3][-2], v[3][-1]
                self.member_entry(st, c, key, k, w, ('rest', i))
                e = self.entry(st, k, w)
                if len(v[3]) == 3:
                    st.eqc(self.content(st, v[3][0]) + e - c)
                else:
                    st.eqc(e - c)

    def setinfo(self, i, **kw):
        self.syms[i][1].update(kw)

    def member_of(self, st, c, key):
        c = st.norm(c)
        k = st.kf(self.kid_(st, key))
        for (c2, k2), m in st.member.items():
            if st.kf(k2) == k and st.norm(c2) == c:
                return m
        return None

    def set_member(self, st, c, key, val):
        m = self.member_of(st, c, key)
        if m is not None and m != val:
            raise Infeasible()
        if c.is_zero() and val:
            raise Infeasible()
        st.member[(st.norm(c), st.kf(self.kid_(st, key)))] = val

    def member_entry(self, st, c, key, k, w, rest):
        self.set_member(st, c, key, True)
        hs = {self.atom_hc(st, a) for a in st.norm(c).d if a != ONE}
        st.merge_keys(self.kid_(st, k), self.kid_(st, key))
        if None not in hs and len({st.hf(h) for h in hs}) == 1:
            st.merge_hash(hs.pop(), self.hc(self.kid_(st, key)))
        e = self.entry(st, k, w)
        n = st.norm(c)
        # at most one entry has this key: identify with a visible one if there is
        for a in n.d:
            if a != ONE and n.d[a] > 0 and a[0] == 'E' and st.kf(a[1]) == st.kf(self.kid_(st, key)):
                st.eqc(e - Lin({a: 1}))
                return
        if all(a[0] == 'E' for a in n.d if a != ONE) and all(st.key_eq(a[1], self.kid_(st, key)) is False for a in n.d):
            raise Infeasible()
        st.eqc(c - e - Lin({rest: 1}))

    def allowed_variants(self, st, i):
        info = self.info(i)
        t = self.ty(i)
        vs = list(range(len(self.cr.adts[t[1]]['v'])))
        r = info.get('res')
        if r:
            bid = r[-1] if r[0] in ('ins', 'rem') else (r[5] if r[0] == 'job' and r[5] else None)
            sh = self.shapes.get(bid) if bid else None
            if sh is not None:
                vs = [x for x in vs if any(s[0] == self.vname(t[1], x) for s in sh)]
            if r[0] == 'acc' and r[3] is not None:
                vs = [x for x in vs if self.vname(t[1], x) in r[3]]
        return vs

    def denote(self, st, vn, v, r, bind=False):
        """(content the answer stands for, sides it names)"""
        f = v[3]
        if r[0] == 'ev':
            _, ents, sides, fam = r[:4]
            es = [self.entry(st, k, w) for k, w in ents]
            if len(es) == 1:
                if vn == 'Unchanged':
                    return es[0], {sides[0]}
                if vn == 'Transformed':
                    return self.entry(st, ents[0][0], f[0]), ()
                if vn == 'Transmuted':
                    return self.entry(st, f[0], f[1]), ()
                if vn == 'Removed':
                    return ZERO, ()
            else:
                if vn == 'UnchangedLR':
                    if bind:
                        st.eqc(es[0] - es[1])
                    return es[0], {1, 2}
                if vn == 'UnchangedL':
                    return es[0], {sides[0]}
                if vn == 'UnchangedR':
                    return es[1], {sides[1]}
                if vn == 'Unchanged':
                    n = 1 if fam == 'JTU' else 2
                    return es[sides.index(n)], {n}
                if vn == 'Transformed':
                    return self.entry(st, ents[0][0], f[0]), ()
                if vn == 'Transmuted':
                    return self.entry(st, f[0], f[1]), ()
                if vn == 'Removed':
                    return ZERO, ()
            raise Undecided('answer ' + vn)
        if r[0] == 'acc':
            r = r[1]
        _, fam, c1, c2, roles, bid = r
        if vn in ('C', 'L', 'S'):
            return self.content(st, f[0]), ()
        if vn == 'Removed':
            return ZERO, ()
        if vn == 'UnchangedLR':
            if bind:
                st.eqc(c1 - c2)
            return c1, {roles[0], roles[1]}
        if vn == 'UnchangedL':
            return c1, {roles[0]}
        if vn == 'UnchangedR':
            return c2, {roles[1]}
        if vn == 'Unchanged':
            if fam == 'JUT':
                return c2, {roles[1]}
            return c1, {roles[0]}
        raise Undecided('result ' + vn)

    # ---- hashes, slots, levels ---------------------------------------------------------------------------
    def parts(self, st, v):
        v = self.res0(st, v)
        k = v[0]
        if k == 'S':
            i = self.info(v[1])
            if i.get('parts'):
                return i['parts']
            if i.get('hc') is not None:
                return (('hc', i['hc']),)
            if self.is_ptr(self.ty(v[1])):
                return self.parts(st, self.res(st, v))
            return (('self', v[1]),)
        if k == 'P':
            return self.parts(st, self.get(st, v[1], v[2]))
        if k == 'ARR':
            return self.info(v[1]).get('parts') or (('self', v[1]),)
        if k == 'NA':
            return v[4]
        if k == 'A':
            s = short(v[1])
            if s in ('MNode', 'LNodeNext', 'CNode'):
                return self.parts(st, v[3][0])
            if s in ('LNode', 'SNode'):
                f = self.node_fields(v[1])
                p = (('hc', self.hc(self.kid_(st, v[3][f['key']]))),)
                if 'next' in f:
                    p = p + tuple(x for x in self.parts(st, v[3][f['next']]) if x not in p)
                return p
        raise Undecided('parts of ' + k)

    def part_slot(self, st, p, lv):
        if p[0] == 'hc':
            return ('hs', p[1], lv)
        if p[0] == 'kid' and st.norm(p[3] - lv).is_zero():
            return p[2]
        return None

    def at_slot(self, st, v, slot, lv):
        """all entries of v belong to slot at level lv?"""
        return self.parts_at(st, self.parts(st, v), slot, lv, 0)

    def parts_at(self, st, ps, slot, lv, n):
        for p in ps:
            s = self.part_slot(st, p, lv)
            if s is not None and st.slot_eq(s, slot) is True:
                continue
            if p[0] != 'hc' or n > 4 or not any(self.parts_at(st, q, slot, lv, n + 1) for q in self.origins(st, p[1])):
                return False
        return True

    def together(self, st, nodes, lv):
        """one slot of the branch at level lv that all entries of the nodes belong to?"""
        ps = [p for n in nodes for p in self.parts(st, n)]
        cand = []
        for p in ps[:1]:
            todo = [p]
            while todo and len(cand) < 12:
                q = todo.pop()
                s = self.part_slot(st, q, lv)
                if s is not None:
                    cand.append(s)
                if q[0] == 'hc':
                    for o in self.origins(st, q[1]):
                        todo += o
        return any(self.parts_at(st, ps, s, lv, 0) for s in cand)

    def origins(self, st, h):
        """the parts a leaf with this hash was made from"""
        return [q for g, q in self.hckid.items() if st.hf(g) == st.hf(h)]

    def part_levels(self, st, v):
        out = []
        todo = list(self.parts(st, v))
        n = 0
        while todo and n < 40:
            n += 1
            p = todo.pop()
            if p[0] == 'kid':
                out.append(p[3])
            elif p[0] == 'hc':
                for q in self.origins(st, p[1]):
                    todo += q
        return out

    def level_of(self, st, v):
        """level of the branch node inside v; 'leaf' if there is none; None if unknown"""
        v = self.res0(st, v)
        k = v[0]
        if k == 'S':
            t = strip_ref(self.ty(v[1]))
            if t[0] == 'adt' and short(t[1]) in ('LNode', 'SNode', 'LNodeNext'):
                return 'leaf'
            l = self.info(v[1]).get('level')
            return l
        if k == 'P':
            return self.level_of(st, self.get(st, v[1], v[2]))
        if k == 'ARR':
            return self.info(v[1]).get('level')
        if k == 'NA':
            return v[3]
        if k == 'A':
            s = short(v[1])
            if s in ('MNode', 'CNode'):
                return self.level_of(st, v[3][0])
            return 'leaf'
        return None

    def same_level(self, st, a, b):
        return a is not None and b is not None and a != 'leaf' and b != 'leaf' and st.norm(a - b).is_zero()

    def mkflag(self, adt, hc, lv):
        a = self.cr.adts[adt]
        out = []
        for f in a['v'][0]['f']:
            t = self.cr.ty(f[1])
            if t[0] == 'int':
                out.append(('I', lv))
            elif t == ('param', a['g'][0]):
                out.append(('H', hc))
            else:
                out.append(('F', (('slot', ('hs', hc, lv)),), const(1)))
        return ('A', adt, 0, tuple(out))

    def flag_parts(self, st, v):
        """Flag value -> (hash class, level, slot)"""
        v = self.deref_all(st, v)
        if v[0] != 'A' or short(v[1]) != 'Flag':
            raise Undecided('flag')
        h = lv = s = None
        for x in v[3]:
            x = self.res(st, x)
            if x[0] == 'H':
                h = x[1]
            elif x[0] == 'I':
                lv = x[1]
            elif x[0] == 'F':
                s = self.slot_of(st, x)
        return h, lv, s

    def slot_of(self, st, v):
        v = self.to_F(self.res(st, v))
        if len(v[1]) == 1 and v[1][0][0] == 'slot':
            return v[1][0][1]
        raise Undecided('single position expected')

    # ---- operations ------------------------------------------------------------------------------------------
    CONSTS = ('UnchangedLR', 'UnchangedL', 'UnchangedR', 'Unchanged', 'Removed', 'Generic')

    def op_variants(self, st, v):
        idx, par = v[1], v[2]
        adt = self.opadt[idx]
        keys = sorted(self.opadt)
        if st.opv is None:
            st.opv = frozenset(itertools.product(*[[x['n'] for x in self.cr.adts[self.opadt[k]]['v']] for k in keys]))
        pos = keys.index(idx)
        out = []
        for vi, va in enumerate(self.cr.adts[adt]['v']):
            n = va['n']
            if par and n in ('UnchangedL', 'UnchangedR'):
                n = 'UnchangedR' if n == 'UnchangedL' else 'UnchangedL'
            rel = frozenset(x for x in st.opv if x[pos] == n)
            if not rel:
                continue
            s = st.copy()
            s.opv = rel
            out.append((s, int(va['d'])))
        return out

    def opname(self, st, idx):
        """the alternative of an operation, if only one is possible"""
        if st.opv is None:
            return None
        pos = sorted(self.opadt).index(idx)
        ns = {x[pos] for x in st.opv}
        return ns.pop() if len(ns) == 1 else None

    def op_field(self, st, v, i):
        idx, par = v[1], v[2]
        n = self.opname(st, idx)
        if n is None:
            raise Undecided('payload of unknown operation')
        if n == 'Generic':
            if i == 0:
                return ('OF', idx, par)
            raise Undecided('operation orientation flag')
        return ('R', atom('pay', idx))

    def event(self, st, v, args, rty):
        """the user's operation is applied to one or two entries"""
        idx, par = v[1], v[2]
        if len(args) == 2:
            ents = ((args[0], args[1]),)
            if idx == 0:
                self.check(False, ('C07', 'C10'), 'operation-role', 'the both-operation is applied to a single entry')
                return self.dead(st)
            sides = (idx,)
        elif len(args) == 4:
            ents = ((args[0], args[1]), (args[2], args[3]))
            if idx != 0:
                self.check(False, ('C07', 'C10'), 'operation-role', 'a one-sided operation is applied to two entries')
                return self.dead(st)
            sides = (2, 1) if par else (1, 2)
        else:
            raise Undecided('operation arity')
        ents = tuple((('S', self.kid_(st, k)), self.rawval(st, w)) for k, w in ents)
        es = [self.entry(st, k, w) for k, w in ents]
        if len(es) == 2:
            ok = st.key_eq(ents[0][0][1], ents[1][0][1]) is True
            self.check(ok, ('C07',) + (('C13',) if self.leafy else ()), 'pair-without-equal-keys', 'the both-operation is applied to two entries whose keys are not known to be equal')
            if not ok:
                return self.dead(st)
            self.check_side(st, es[0], sides[0])
            self.check_side(st, es[1], sides[1])
        else:
            self.single(st, es[0], sides[0], 'entry')
        for e, s in zip(es, sides):
            st.tot[s] = st.tot[s] + e
        st.nev += 1
        i = self.fsym(rty, res=('ev', ents, sides, self.fam()), khc=self.hc(ents[0][0][1]))
        st.out = st.out + Lin({('out', i): 1})
        st.red = st.red + Lin({('red', i): 1})
        if not self.quiet:
            self.visited_sites.add(('event', self.span))
        return [(st, ('S', i))]

    def dead(self, st):
        raise Infeasible()

    def rawval(self, st, w):
        w = self.res0(st, w)
        while w[0] == 'P' or (w[0] == 'S' and self.is_ptr(self.ty(w[1]))):
            w = self.res(st, w)
            if w[0] == 'P':
                w = self.res0(st, self.get(st, w[1], w[2]))
        return w

    def fam(self):
        return getattr(self.root, 'fam', None)

    # remaining content of a side that no operation has seen yet
    def rem(self, st, side):
        n = self.whole(st, side)
        if n is None:
            return None
        return st.norm(n - st.tot[side])

    def whole(self, st, side):
        f = self.rootv.get(side)
        return f(st) if f else None

    def check_side(self, st, c, side):
        """content handed to the operation of `side` must come from that side: decided by the totals at exit"""
        return True

    def single(self, st, c, side, what):
        """content c of one side is given to a one-sided operation: no equal key may remain on the other side"""
        if self.root is None or self.root.kind != 'job' or len(self.rootv) < 2:
            return
        other = 3 - side
        r = self.rem(st, other)
        if r is None:
            return
        if self.bagcell is not None and side == 2:
            self.check(False, ('C07', 'C13'), 'list-consumption', 'an entry of the gathered list is handled here although only those with a partner may be')
        ok = self.disjoint(st, c, r)
        self.check(ok, ('C07',) + (('C13',) if self.leafy else ()) + self.extra_props(st), 'one-sided-operation-on-shared-key',
                   'a one-sided operation is applied to %s whose keys may also be present on the other side' % ('an entry' if what == 'entry' else 'entries'),
                   detail='consumed %s, remaining other side %s' % (st.norm(c), r))

    def disjoint(self, st, c, r):
        """no key of content c occurs in content r (conservative)"""
        c, r = st.norm(c), st.norm(r)
        pos = [a for a, v in r.d.items() if v > 0]
        if not pos:
            return True
        for x in c.d:
            for y in pos:
                if not self.disj(st, x, y, r):
                    return False
        return True

    def same_key(self, st, x):
        if x[0] != 'E':
            return {x}
        return {x} | {('E', k, v) for (k, v) in st.ents if st.key_eq(k, x[1]) is True}

    def disj(self, st, x, y, r):
        """atom x against atom y of region r"""
        # different parts of one collection have different keys
        xs, ys = self.same_key(st, x), self.same_key(st, y)
        if x[0] == 'E' and any(v < 0 and a in xs for a, v in r.d.items()):
            return True
        for side in self.rootv:
            w = st.norm(self.whole(st, side)).d
            if any(w.get(a, 0) > 0 and w.get(b, 0) > 0 and a != b for a in xs for b in ys):
                return True
        if y[0] == 'E' and x[0] == 'E':
            d = st.key_eq(x[1], y[1])
            if d is not None:
                return d is False
        if x[0] == 'E':
            for (k, c) in st.notin:
                if st.key_eq(k, x[1]) is True and st.norm(c) == r:
                    return True
            if y[0] == 'N' and any(st.key_eq(k2, x[1]) is True and m is False and st.norm(c2) == Lin({y: 1}) for (c2, k2), m in st.member.items()):
                return True
        # hash classes
        hx, hy = self.atom_hc(st, x), self.atom_hc(st, y)
        if hx is not None and hy is not None and st.hash_eq(hx, hy) is False:
            return True
        # branch array minus what has been handled
        if y[0] == 'B':
            lv = self.info(y[1]).get('level')
            sx = self.atom_slot(st, x, lv)
            if sx is None:
                return False
            # the slot itself is absent or already subtracted
            kid = st.kid(y[1], sx)
            here = kid is not None and (kid[0] == 'none' or r.d.get(('N', kid[1]), 0) < 0 or st.norm(r - Lin({y: 1}) + Lin({('N', kid[1]): 1})) is None)
            if kid is not None and kid[0] == 'none':
                return True
            if kid is not None and kid[0] == 'some' and self.subtracted(st, r, y[1], kid[1], sx):
                return True
            # every slot up to and beyond this one handled by the prefix
            for a, v in r.d.items():
                if v < 0 and a[0] == 'Pre' and a[1] == y[1]:
                    if self.below(st, sx, a[2]):
                        return True
            return False
        ly = self.atom_kid(y)
        if ly is not None:
            # y is a child at some slot
            lv = ly[3]
            sx = self.atom_slot(st, x, lv)
            if sx is not None and st.slot_eq(sx, ly[2]) is False:
                return True
        lx = self.atom_kid(x)
        if lx is not None and hy is not None:
            if st.slot_eq(lx[2], ('hs', hy, lx[3])) is False:
                return True
        if hx is not None and hy is not None:
            for l in {z[2] for a, b in st.sleq.items() for z in (a, b) if z[0] == 'hs'}:
                if st.slot_eq(('hs', hx, l), ('hs', hy, l)) is False:
                    return True
        return False

    def subtracted(self, st, r, aid, kid, sx):
        n = st.norm(Lin({('N', kid): 1}))
        return bool(n.d) and all(r.d.get(a, 0) <= -v for a, v in n.d.items())

    def below(self, st, slot, lin):
        """slot index < lin"""
        s = st.slot(slot)
        if s[0] != 'ix':
            return False
        c = st.norm(lin - s[1]).const()
        return c is not None and c > 0

    def atom_kid(self, a):
        if a[0] in ('N', 'B'):
            for p in self.info(a[1]).get('parts') or ():
                if p[0] == 'kid':
                    return p
        return None

    def atom_hc(self, st, a):
        if a[0] == 'E':
            return self.hc(a[1])
        if a[0] == 'N':
            return self.info(a[1]).get('hc')
        if a[0] == 'bag':
            return a[2]
        return None

    def atom_slot(self, st, a, lv):
        if lv is None:
            return None
        k = self.atom_kid(a)
        if k is not None and st.norm(k[3] - lv).is_zero():
            return k[2]
        h = self.atom_hc(st, a)
        if h is not None:
            return ('hs', h, lv)
        return None

    # ---- slot facts -----------------------------------------------------------------------------------------------
    def on_slot(self, st, a, b, val):
        for x, y in ((a, b), (b, a)):
            x, y = (x, y)
            if x[0] == 'hs' and y[0] == 'ix':
                i = st.norm(y[1])
                obj = ('hs', st.hf(x[1]), st.norm(x[2]))
                if self.hcroot.get(obj[1]) is None:
                    continue
                p0 = st.pre('HP', obj, i)
                p1 = st.pre('HP', obj, i + const(1))
                if val:
                    st.eqc(p0)
                    st.eqc(p1 - self.hcroot[obj[1]])
                else:
                    st.eqc(p1 - p0)

    def decide(self, st, c):
        if isinstance(c, tuple) and c[0] == 'flag':
            if self.loopinfo[c[1]].get('pre'):
                return None
        d = super().decide(st, c)
        if d is not None and isinstance(c, tuple) and c[0] == 'sleq':
            self.on_slot(st, c[1], c[2], d)
        return d

    # ---- arrays ----------------------------------------------------------------------------------------------------
    def arr_of(self, st, v):
        v = self.deref_all(st, v)
        if v[0] in ('ARR', 'NA'):
            return v
        raise Undecided('array expected, got ' + v[0])

    def kid_cases(self, st, aid, slot):
        """[(state, ('none',) | ('some', symid))]"""
        k = st.kid(aid, slot)
        if k is not None:
            return [(st, k)]
        t = self.ty(aid)
        ety = t[2][1]
        lv = self.info(aid).get('level')
        slot = st.slot(slot)
        out = []
        for some in (True, False):
            s = st.copy()
            try:
                if some:
                    i = self.sym(('kid', aid, slot), ety, level=(lv + const(1)) if lv is not None else None, parts=(('kid', aid, slot, lv if lv is not None else ZERO),), pos=True)
                    kid = ('some', i)
                    n = Lin({('N', i): 1})
                else:
                    kid, n = ('none',), ZERO
                s.kids[(aid, slot)] = kid
                if slot[0] == 'ix':
                    s.eqc(s.pre('Pre', aid, slot[1] + const(1)) - s.pre('Pre', aid, slot[1]) - n)
                elif some:
                    s.eqc(Lin({('B', aid): 1}) - n - Lin({('rest', 'a', aid, slot): 1}))
                out.append((s, kid))
            except Infeasible:
                pass
        return out

    def result(self, ok, v):
        a = 'core::result::Result'
        return ('A', a, 0 if ok else 1, (v,))

    def option(self, v):
        a = 'core::option::Option'
        return ('A', a, 1, (v,)) if v is not None else ('A', a, 0, ())

    def place_kid(self, st, node, slot, lv, what):
        """node becomes the child at slot of an array of level lv"""
        ok = self.at_slot(st, node, slot, lv)
        self.check(ok, ('C04',), 'placement', '%s: a child is stored at a position that is not the one its keys\' hashes designate' % what, detail='child parts %s, slot %s' % (self.parts(st, node), slot))
        l = self.level_of(st, node)
        if l != 'leaf':
            ok = l is not None and st.norm(l - lv - const(1)).is_zero()
            self.check(ok, ('C04',), 'level', '%s: a child branch is stored at the wrong depth' % what, detail='child level %s, parent level %s' % (l, lv))

    def new_array(self, st, F, V, extra):
        F = self.to_F(self.res(st, F))
        V = self.deref_all(st, V)
        if V[0] == 'A':
            V = self.deref_all(st, V[3][0])
        V = self.to_V(V)
        ext = self.as_int(st, extra)
        lv = self.align(st, F, V)
        c = st.norm(V[1])
        self.check(st.norm(ext - size_of(c)).is_zero(), ('C03',) + self.extra_props(st), 'branch-size', 'the size stored in a new branch node is not the number of entries below it', detail='stored %s, entries %s' % (st.norm(ext), st.norm(size_of(c))))
        ok = st.norm(F[2] - V[2]).is_zero()
        self.check(st.never_zero(V[2]), ('C03', 'C04', 'C14'), 'empty-branch', 'a branch node without children may be built')
        self.check(ok, ('C04', 'C14'), 'bits-count', 'a branch node is built with a different number of positions than children', detail='%s positions, %s children' % (st.norm(F[2]), st.norm(V[2])))
        ps = []
        for p in V[3]:
            if p[0] == 'e':
                for x in self.parts(st, p[1]):
                    if x not in ps:
                        ps.append(x)
            else:
                ps.append(('loop', p[1]))
        na = ('NA', c, ext, lv, tuple(ps), self.fresh())
        self.held[('na', na[5])] = tuple(p[1] for p in V[3] if p[0] == 'e')
        return na

    def align(self, st, F, V):
        """children listed in ascending position order, each under its own position; returns level"""
        bits = [p for p in F[1] if not (p[0] == 'loop' and self.never(st, p, 'fv'))]
        vals = list(V[3])
        lv = None
        used = []
        seq = []
        bad = None
        for p in vals:
            if p[0] == 'loop':
                info = self.loopinfo[p[1]]
                m = None
                for q in bits:
                    if q[0] == 'loop' and q[1] == p[1]:
                        m = q
                if m is None:
                    bad = 'children gathered by a loop have no matching positions'
                    break
                used.append(m)
                rs = [info['outs'][i]['fv'].get((m[2], p[2])) for i in st.loops[p[1]]]
                for r in rs:
                    if r is None:
                        raise Undecided('alignment record')
                    if r[0] == 'bad':
                        bad = r[1]
                    elif r[0] == 'unk':
                        raise Undecided(r[1])
                    elif r[0] == 'ok':
                        if lv is None:
                            lv = r[1]
                        elif st.norm(lv - r[1]).const() != 0:
                            bad = 'children of different depths'
                seq.append(('loop', p[1]))
            else:
                x = self.res0(st, p[1])
                pop = self.popof(st, x)
                if pop is not None and not any(q[0] == 'slot' for q in bits):
                    # the single child taken back out of a gathered list
                    F1 = [q for q in bits if q[0] == 'loop']
                    sub = self.align(st, ('F', tuple(F1), F[2]), ('V', ZERO, ZERO, pop))
                    used += F1
                    lv = sub
                    seq.append(('pop',))
                    l = self.level_of(st, x)
                    if l != 'leaf' and lv is not None and not (l is not None and st.norm(l - lv - const(1)).is_zero()):
                        bad = 'a child branch is stored at the wrong depth'
                    continue
                cand = None
                for q in bits:
                    if q[0] != 'slot' or q in used:
                        continue
                    s = q[1]
                    lvs = [s[2]] if s[0] == 'hs' else []
                    lvs += self.part_levels(st, x)
                    for l in lvs:
                        if self.at_slot(st, x, s, l):
                            cand = (q, l)
                            break
                    if cand:
                        break
                if cand is None:
                    bad = 'a child is stored at a position that is not the one its keys\' hashes designate'
                    break
                used.append(cand[0])
                if lv is None:
                    lv = cand[1]
                seq.append(('slot', cand[0][1]))
                l = self.level_of(st, x)
                if l != 'leaf' and not (l is not None and st.norm(l - lv - const(1)).is_zero()):
                    bad = 'a child branch is stored at the wrong depth'
        if bad is None:
            for a, b in zip(seq, seq[1:]):
                if not self.ascending(st, a, b):
                    bad = 'children are not listed in ascending position order'
        if bad is None and len(used) != len(bits):
            bad = 'positions are recorded for which no child is stored'
        self.check(bad is None, ('C04',) + self.extra_props(st), 'branch-alignment', bad or '', detail='positions %s, children %s' % (F[1], [q if q[0] != 'e' else 'e' for q in vals]))
        return lv

    def never(self, st, p, what):
        return False

    def popof(self, st, x):
        x = self.res0(st, x)
        if x[0] == 'S':
            return self.info(x[1]).get('popof')
        if x[0] == 'A' and short(x[1]) in ('MNode', 'CNode'):
            return self.popof(st, x[3][0])
        if x[0] == 'P' and x[1][0] == 's':
            return self.info(x[1][1]).get('popof')
        return None

    def ascending(self, st, a, b):
        if a[0] == 'slot' and b[0] == 'slot':
            if a[1][0] == 'ix' and b[1][0] == 'ix':
                c = st.norm(b[1][1] - a[1][1]).const()
                return c is not None and c > 0
            return any(st.slot_eq(x, a[1]) is True and st.slot_eq(y, b[1]) is True for (x, y) in st.order)
        if a[0] == 'loop' and b[0] == 'loop':
            ia, ib = self.loopinfo[a[1]], self.loopinfo[b[1]]
            qa = [q for q in ia['quants'] if q['kind'] == 'I' and q['name'] == ia.get('ix')]
            qb = [q for q in ib['quants'] if q['kind'] == 'I' and q['name'] == ib.get('ix')]
            return bool(qa and qb) and st.norm(qa[0]['hd'] - qb[0]['init']).is_zero()
        return False

    # ---- loops: alignment records and cursors --------------------------------------------------------------------------
    def outcome_more(self, o, hv, b, kinds, L):
        self.outcome_acc(o, b, kinds, L)
        fv = {}
        fs = [cp for cp, k in kinds.items() if k[0] == 'F']
        vs = [cp for cp, k in kinds.items() if k[0] == 'V']
        hcs = {}
        for cf in fs:
            for cv in vs:
                F0, F1 = self.get(hv, *cf), self.to_F(self.res0(b, self.get(b, *cf)))
                V0, V1 = self.get(hv, *cv), self.to_V(self.res0(b, self.get(b, *cv)))
                fp, vp = F1[1][len(F0[1]):], V1[3][len(V0[3]):]
                if F1[1][:len(F0[1])] != F0[1] or V1[3][:len(V0[3])] != V0[3]:
                    fv[(cf, cv)] = ('unk', 'gathered list rebuilt in loop')
                    continue
                if len(fp) != len(vp):
                    fv[(cf, cv)] = ('bad', 'an iteration records a different number of positions than children')
                elif not fp:
                    fv[(cf, cv)] = ('none',)
                elif len(fp) == 1 and fp[0][0] == 'slot' and vp[0][0] == 'e':
                    s = fp[0][1]
                    lvs = [s[2]] if s[0] == 'hs' else []
                    lvs += self.part_levels(b, vp[0][1])
                    for pp in self.parts(b, vp[0][1]):
                        if pp[0] == 'hc':
                            if b.slot(s)[0] == 'hs':
                                lvs.append(b.slot(s)[2])
                    for a, c in b.sleq.items():
                        for z in (a, c):
                            if z[0] == 'hs' and b.slot_eq(z, s):
                                lvs.append(z[2])
                    l = next((l for l in lvs if self.at_slot(b, vp[0][1], s, l)), None)
                    if l is None and DEBUG:
                        print('ALIGN', s, b.slot(s), vp[0][1], self.parts(b, vp[0][1]), b.sleq)
                    if l is None:
                        fv[(cf, cv)] = ('bad', 'a child is stored at a position that is not the one its keys\' hashes designate')
                    else:
                        cl = self.level_of(b, vp[0][1])
                        if cl != 'leaf' and not (cl is not None and b.norm(cl - l - const(1)).is_zero()):
                            fv[(cf, cv)] = ('bad', 'a child branch is stored at the wrong depth')
                        elif not (s[0] == 'ix' and any(b.norm(s[1]) == b.norm(q) for q in self.index_heads(hv, kinds))):
                            fv[(cf, cv)] = ('unk', 'position is not the loop index')
                        else:
                            fv[(cf, cv)] = ('ok', l)
                else:
                    fv[(cf, cv)] = ('unk', 'several children in one iteration')
        for cv in vs:
            V0, V1 = self.get(hv, *cv), self.to_V(self.res0(b, self.get(b, *cv)))
            if V1[3][:len(V0[3])] == V0[3]:
                for p in V1[3][len(V0[3]):]:
                    if p[0] == 'e':
                        h = self.elem_hc(b, p[1])
                        if h is not None:
                            hcs.setdefault(cv, set()).add(b.hf(h))
        o['fv'] = fv
        o['hc'] = hcs

    def elem_hc(self, st, e):
        e = self.res(st, e)
        if e[0] == 'T' and len(e[1]) == 2:
            try:
                return self.hc(self.kid_(st, e[1][0]))
            except Undecided:
                return None
        return None

    def index_heads(self, hv, kinds):
        return [self.get(hv, *cp)[1] for cp, k in kinds.items() if k[0] == 'I']

    def summarise(self, base, hv, backs, kinds, L, fr):
        info = super().summarise(base, hv, backs, kinds, L, fr)
        for q in info['quants']:
            if q['kind'] == 'I' and info['outs'] and all(o['d'][q['name']].const() == 1 for o in info['outs']):
                info['ix'] = q['name']
                break
        return info

    def vhc(self, st, pieces):
        hs = set()
        for p in pieces:
            if p[0] == 'e':
                h = self.elem_hc(st, p[1])
                hs.add(st.hf(h) if h is not None else None)
            elif p[0] == 'bag':
                hs.add(st.hf(p[1]))
            elif p[0] == 'loop':
                for i in st.loops.get(p[1], ()):
                    for h in self.loopinfo[p[1]]['outs'][i].get('hc', {}).get(p[2], ()):
                        hs.add(st.hf(h))
        if len(hs) == 1:
            return hs.pop()
        return None

    def kind_more(self, base, fr, cp, v0, vals, L):
        c, path = cp
        if v0[0] == 'P' or (v0[0] == 'S' and self.is_ptr(self.ty(v0[1]))):
            t = self.local_ty(fr, cp)
            if t is not None:
                e = strip_ref(t)
                if e[0] == 'adt' and short(e[1]) in ('LNode', 'SNode', 'MNode', 'LNodeNext'):
                    return ('cur', t)
        t = self.local_ty(fr, cp)
        if t is not None and t[0] == 'adt' and short(t[1]) in RESULT_JOBS:
            names = set()
            r = None
            for v in [v0] + list(vals):
                if v[0] == 'A':
                    names.add(self.vname(v[1], v[2]))
                elif v[0] == 'S':
                    rr = self.info(v[1]).get('res')
                    if rr is None:
                        return None
                    if rr[0] == 'acc':
                        r = rr[1]
                        if rr[3]:
                            names |= set(rr[3])
                        else:
                            names |= {x['n'] for x in self.cr.adts[t[1]]['v']}
                    else:
                        r = rr
                        bid = rr[5]
                        sh = self.shapes.get(bid)
                        names |= {s[0] for s in sh} if sh is not None else {x['n'] for x in self.cr.adts[t[1]]['v']}
                else:
                    return None
            if r is None:
                r = self.own_res(base)
            return ('acc', t, r, frozenset(names))
        return None

    def own_res(self, st):
        c = self.root
        return ('job', c.fam, self.whole(st, 1) or ZERO, self.whole(st, 2) or ZERO, (1, 2), None)

    def local_ty(self, fr, cp):
        c, path = cp
        if c[0] == 'l' and not path:
            for f in self.stack:
                if f.id == c[1]:
                    return self.cr.ty(f.body['locals'][c[2]], f.sub)
        return None

    def havoc_more(self, st, fr, cp, k, v0, L):
        if k[0] == 'cur':
            t = k[1]
            inf = {}
            v = v0
            # keep the hash class and origin of the node the cursor starts at
            try:
                ps = self.parts(st, v0)
                inf['parts'] = ps
                hs = [p[1] for p in ps if p[0] == 'hc']
                if len(ps) == 1 and hs:
                    inf['hc'] = hs[0]
            except Undecided:
                pass
            i = self.sym(('cur', L, str(cp)), t, **inf)
            return ('S', i)
        if k[0] == 'acc':
            info = {}
            try:
                a = self.res0(st, v0)
                if a[0] == 'S':
                    for f in ('level', 'parts', 'hc'):
                        if f in self.info(a[1]):
                            info[f] = self.info(a[1])[f]
            except Undecided:
                pass
            i = self.sym(('acc', L, str(cp)), k[1], res=('acc', k[2], None, k[3]), **info)
            self.setinfo(i, res=('acc', k[2], None, k[3]))
            self.loopinfo[L].setdefault('accs', {})[cp] = (i, self.res0(st, v0))
            return ('S', i)
        return ('X', 'havoc')

    # ---- which answers an accumulated result can go through ----------------------------------------------
    def variants_of(self, st, v):
        v = self.res0(st, v)
        if v[0] == 'A':
            return frozenset((v[2],))
        if v[0] == 'S':
            return frozenset(self.allowed_variants(st, v[1]))
        return None

    def outcome_acc(self, o, b, kinds, L):
        o['acc'] = {}
        for cp, k in kinds.items():
            if k[0] == 'acc':
                i = self.loopinfo[L]['accs'][cp][0]
                o['acc'][cp] = (self.variants_of(b, ('S', i)), self.variants_of(b, self.get(b, *cp)))

    def loop_refresh(self, st, L):
        ch = super().loop_refresh(st, L)
        info = self.loopinfo[L]
        if info.get('pre'):
            return ch
        for cp, (i, v0) in info.get('accs', {}).items():
            if info['kinds'].get(cp, ('',))[0] != 'acc':
                continue
            a, z = self.variants_of(st, v0), self.variants_of(st, ('S', i))
            if a is None or z is None:
                continue
            allowed = st.loops[L]
            steps = [(n, info['outs'][n]['acc'][cp]) for n in allowed]
            fw, bw = set(a), set(z)
            more = True
            while more:
                more = False
                for _, (x, y) in steps:
                    if x & fw and not y <= fw:
                        fw |= y
                        more = True
                    if y & bw and not x <= bw:
                        bw |= x
                        more = True
            if not (fw & z) or not (bw & a):
                raise Infeasible()
            left = tuple(n for n, (x, y) in steps if x & fw and y & bw)
            if left != allowed:
                ch = self.restrict(st, L, left) or ch
            for val, poss in ((v0, bw & a), (('S', i), fw & z)):
                if len(poss) == 1:
                    val = self.res0(st, val)
                    if val[0] == 'S':
                        self.bind_variant(st, val[1], min(poss))
                        ch = True
        return ch

    def acc_quant(self, st, v):
        v = self.res0(st, v)
        if v[0] == 'S':
            return Lin({('out', v[1]): 1}), Lin({('red', v[1]): 1})
        return None

    def quant_more(self, q, base, hv, cp, k, g, L):
        nm = str(cp)
        if k[0] == 'cur':
            def whole(b):
                return self.content(b, g(b))

            def tail(b):
                n = self.deref_all(b, g(b))
                if n[0] == 'A' and short(n[1]) == 'LNode':
                    f = self.node_fields(n[1])
                    return self.content(b, n[3][f['next']])
                return self.content(b, n)
            q(nm, 'c', whole(base), whole(hv), whole, 'cur')
            q(nm + '#tail', 'c', tail(base), tail(hv), tail, 'cur')
            # what the cursor has passed: the part of the content between where it started and where it is
            gone = [b.norm(whole(hv) - whole(b)) for b in self.backs]
            if gone and all(v > 0 for d in gone for v in d.d.values()):
                sk = Lin({('skip', L, nm): 1})
                q(nm + '#skip', 'c', ZERO, sk, (lambda b, sk=sk, hv=hv: sk + whole(hv) - whole(b)), 'cur')
                ks = None
                for b, d in zip(self.backs, gone):
                    es = [x[1] for x in d.d if x[0] == 'E']
                    k1 = {k for p in b.kneq for k in p if isinstance(k, int) and k < self.fixed[L]} if len(es) == len(d.d) else set()
                    k1 = {k for k in k1 if all(b.key_eq(e, k) is False for e in es)}
                    ks = k1 if ks is None else ks & k1
                self.passed[(L, nm)] = (sk, frozenset(ks))
        elif k[0] == 'acc':
            def out(b):
                v = g(b)
                if v[0] == 'S':
                    return b.norm(Lin({('out', v[1]): 1}))
                return self.denote(b, self.vname(v[1], v[2]), v, k[2])[0]

            def red(b):
                v = g(b)
                if v[0] == 'S':
                    return b.norm(Lin({('red', v[1]): 1}))
                return self.to_R(b, v[3][-1])
            q(nm + '#out', 'c', out(base), out(hv), out, 'acc')
            q(nm + '#red', 'r', red(base), red(hv), red, 'acc')

    def relate(self, st, L):
        super().relate(st, L)
        for (l, nm), (sk, ks) in self.passed.items():
            if l == L:
                for k in ks:
                    st.member[(st.norm(sk), st.kf(k))] = False          # every entry passed was compared with k and differed

    def termination(self, fr, h, region, base, hv, backs, info):
        """a loop whose control state can repeat exactly never ends on that input"""
        acc = {cp for cp, k in info['kinds'].items() if k[0] in ('V', 'F', 'R', 'acc')}
        ctl = [cp for cp, k in info['kinds'].items() if cp not in acc and k[0] in ('I', 'IT', 'cur')]
        s = base.copy()
        try:
            # an iterator advances every time round: the control state never repeats
            first, ex, rets = self.exec(fr, h, s, h, region) if not any(info['kinds'][cp][0] == 'IT' for cp in ctl) else ((), (), ())
        except (Infeasible, Undecided):
            return
        for b in first:
            key = self.ctl_key(b, ctl)
            if key is None:
                continue
            b2 = b.copy()
            try:
                second, ex, rets = self.exec(fr, h, b2, h, region)
            except (Infeasible, Undecided):
                continue
            same = [x for x in second if self.ctl_key(x, ctl) == key]
            if same and not ex and not rets:
                q, self.quiet = self.quiet, 0 if self.quiet <= 1 else self.quiet
                try:
                    self.check(False, ('C14',) + (('C13',) if self.leafy else ()), 'loop-never-ends', 'a loop can return to the same state: it never ends on such input', span=self.loop_span(fr, h))
                finally:
                    self.quiet = q
                return
        q, self.quiet = self.quiet, 0 if self.quiet <= 1 else self.quiet
        self.oblige('C14', True)
        self.quiet = q

    def loop_span(self, fr, h):
        for s in fr.body['blocks'][h]['s']:
            if s[0] == '=' and s[3]:
                return s[3]
        t = fr.body['blocks'][h]['t']
        return t[-1] if isinstance(t[-1], str) else self.span

    def ctl_key(self, st, ctl):
        out = []
        for cp in ctl:
            try:
                v = self.res0(st, self.get(st, *cp))
            except (Undecided, Infeasible):
                return None
            if v[0] == 'IT':
                return None
            if v[0] == 'I':
                v = ('I', st.norm(v[1]))
            out.append(v)
        return tuple(out)


def all_contracts(cr):
    out = {}
    for bid in cr.bodies:
        c = classify(cr, bid)
        if c:
            out[bid] = c
    return out
