"""What the types and the unchecked operations of the crate allow: writes to shared nodes, unchecked memory, thread markers,
key-changing callbacks, ambient inputs. Queries over every body, signature, type and implementation the compiler resolved."""
from ir import short, tys

CELLS = ('UnsafeCell', 'Cell', 'RefCell', 'OnceCell', 'LazyCell', 'SyncUnsafeCell', 'Mutex', 'RwLock', 'OnceLock', 'LazyLock', 'Once', 'Condvar', 'AtomicCell')
COLLECTIONS = ('HashTrieMap', 'HashTrieSet')
HOLDERS = ('Arc', 'Rc', 'Box', 'Vec', 'Option', 'PhantomData', 'Weak', 'Pin', 'Global', 'VecDeque', 'Cow', 'Result')
# emitted for await, join and format strings by the compiler and its libraries
LOWERED = ('new_unchecked', 'get_context', 'new')
ENGINE = ('unwrap_unchecked', 'unreachable_unchecked')
CRATES = ('core', 'alloc', 'hash_trie', 'futures_core', 'futures_util', 'futures_task', 'async_recursion', 'fnv', 'pin_project_lite', 'pin_utils')


def is_cell(n):
    return n in CELLS or n.startswith('Atomic')


class Typed:
    def __init__(self, cr, out):
        self.cr, self.out = cr, out
        self.callers = None

    def report(self, props, rule, fn, span, msg, detail=None):
        self.out['reports'].append({'props': list(props), 'rule': rule, 'fn': fn, 'span': span, 'msg': msg, 'detail': detail, 'path': [fn]})

    def undecide(self, props, fn, span, why):
        self.out['undecided'].append({'props': list(props), 'fn': fn, 'why': why, 'span': span, 'path': [fn]})

    def obl(self, props, ok, what=None):
        for p in props:
            a = self.out['obl'].setdefault(p, [0, 0])
            a[0] += 1
            a[1] += bool(ok)
            if what and len(self.out['samples'].setdefault(p, [])) < 12:
                self.out['samples'][p].append(what)

    # ---- walking ---------------------------------------------------------------------------------------------------
    def bodies(self):
        """(function, body) for every body and promoted constant"""
        for bid, b in sorted(self.cr.bodies.items()):
            yield bid, b, b['body']
            for p in b.get('promoted') or ():
                yield bid, b, p

    def ptype(self, body, pl, n=None):
        """type of a place, after its first n steps"""
        t = self.cr.ty(body['locals'][pl[0]])
        for e in pl[1][:n]:
            if e == '*':
                t = t[2] if t[0] in ('ref', 'ptr') else (t[2][0] if t[0] == 'adt' and t[2] else ('other',))
            elif e[0] == 'f':
                t = self.cr.ty(e[2])
            elif e[0] in ('i', 'ci'):
                t = t[1] if t[0] in ('slice', 'array') else ('other',)
        return t

    def raw(self, body, pl):
        """index of the step that follows a raw pointer, or None"""
        for n, e in enumerate(pl[1]):
            if e == '*' and self.ptype(body, pl, n)[0] == 'ptr':
                return n
        return None

    def closure_of(self, bid):
        return bid.split('::{closure')[0]

    # ---- interior mutability ------------------------------------------------------------------------------------------
    def inner(self, t, seen, path):
        """(where, what) of the first thing in t that can change behind a shared reference"""
        if t in seen:
            return None
        seen.add(t)
        k = t[0]
        if k == 'ptr':
            return (path, tys(t)) if t[1] else None
        if k in ('tuple',):
            for x in t[1]:
                r = self.inner(x, seen, path)
                if r:
                    return r
        if k in ('slice', 'array'):
            return self.inner(t[1], seen, path)
        if k == 'ref':
            return self.inner(t[2], seen, path)
        if k == 'dyn' and t[1]:
            for im in self.cr.impls:
                if im.get('trait') == t[1]:
                    sub = {}
                    for x, y in zip(im['trait_args'], (None,) + tuple(t[2]) if len(t[2]) < len(im['trait_args']) else t[2]):
                        x = self.cr.ty(x)
                        if x[0] == 'param' and y:
                            sub[x[1]] = y
                    r = self.inner(self.cr.ty(im['self'], sub), seen, path)
                    if r:
                        return r
        if k == 'adt':
            n = short(t[1])
            if is_cell(n):
                return path, tys(t)
            d = self.cr.adts.get(t[1])
            if n in HOLDERS or not d:
                for x in t[2]:
                    r = self.inner(x, seen, path)
                    if r:
                        return r
                return None
            sub = dict(zip(d['g'], t[2]))
            for v in d['v']:
                for f in v['f']:
                    r = self.inner(self.cr.ty(f[1], sub), seen, path + ((n + '::' + v['n'] if d['kind'] == 'enum' else n) + '.' + f[0],))
                    if r:
                        return r
        return None

    def stored(self):
        """every local type a collection holds, in its own generics"""
        out = []
        for aid, d in sorted(self.cr.adts.items()):
            if d['local'] and short(aid) in COLLECTIONS:
                out.append((aid, d))
        return out

    def identity(self, d, aid):
        return ('adt', aid, tuple(('param', g) for g in d['g']))

    def interior(self):
        n = 0
        for aid, d in self.stored():
            n += 1
            r = self.inner(self.identity(d, aid), set(), ())
            self.obl(('C02',), r is None, '%s: nothing in it can change behind a shared reference' % short(aid))
            if r:
                self.report(('C02',), 'interior-mutability', aid, d['span'], 'a collection holds something that can change behind a shared reference',
                            '%s: %s' % (' > '.join(r[0]), r[1]))
        return n

    # ---- unchecked operations ---------------------------------------------------------------------------------------------
    def sources(self, bid, body, local, seen=None):
        """where the pointer in a local may come from: 'shared', 'own', 'unknown'"""
        seen = seen if seen is not None else set()
        if (bid, local) in seen:
            return set()
        seen.add((bid, local))
        out = set()
        t = self.cr.ty(body['locals'][local])
        b = self.cr.bodies[bid]
        if 0 < local <= body['argc'] and b['kind'] != 'Closure':
            if t[0] == 'ref':
                out.add('own' if t[1] else 'shared')
            elif t[0] == 'ptr' and not t[1]:
                out.add('shared')
            elif t[0] == 'ptr':
                got = self.from_callers(bid, local - 1, seen)
                out |= got or {'unknown'}
            else:
                out.add('own')
        elif 0 < local <= body['argc']:
            out.add('unknown')
        for bl in body['blocks']:
            for s in bl['s']:
                if s[0] == '=' and s[1][0] == local:
                    out |= self.src_rvalue(bid, body, s[2], seen)
            t = bl['t']
            if t[0] == 'call' and t[3][0] == local:
                c = t[1][1] if t[1][0] == 'const' else {}
                rt = self.cr.ty(body['locals'][local])
                name = c.get('name')
                if c.get('fn', '').startswith('hash_trie::') or name is None:
                    out.add('shared' if rt[0] == 'ref' and not rt[1] else 'unknown')
                elif name in ('as_ptr', 'deref', 'as_ref', 'borrow', 'data_ptr', 'get'):
                    out.add('shared')
                elif name in ('cast_mut', 'cast', 'cast_const', 'add', 'sub', 'offset', 'wrapping_add', 'wrapping_sub', 'byte_add', 'from_ref', 'from_mut', 'new', 'new_unchecked', 'from', 'into', 'unwrap', 'as_mut'):
                    got = set()
                    for a in t[2][:1]:
                        got |= self.src_operand(bid, body, a, seen)
                    out |= got or {'unknown'}
                elif name in ('as_mut_ptr', 'into_raw', 'leak', 'deref_mut', 'get_mut', 'make_mut', 'as_mut_slice'):
                    out |= {'own'} if name != 'into_raw' or 'boxed' in c.get('fn', '') else {'shared'}
                else:
                    out.add('unknown')
        return out

    def src_operand(self, bid, body, o, seen):
        if o[0] in ('copy', 'move'):
            pl = o[1]
            if not pl[1]:
                return self.sources(bid, body, pl[0], seen)
            return self.src_place(bid, body, pl, seen) if self.ptype(body, pl)[0] != 'ptr' else {'unknown'}
        return {'unknown'}

    def src_place(self, bid, body, pl, seen):
        """is the place itself shared or owned?"""
        got = set()
        for n, e in enumerate(pl[1]):
            if e == '*':
                t = self.ptype(body, pl, n)
                if t[0] == 'ref' and not t[1]:
                    return {'shared'}
                if t[0] == 'ptr':
                    got |= self.sources(bid, body, pl[0], seen) if n == 0 else {'unknown'}
        if got:
            return got
        t = self.cr.ty(body['locals'][pl[0]])
        if pl[1] and pl[1][0] == '*' and t[0] == 'ref' and t[1]:
            return {'own'}
        return {'own'}

    def src_rvalue(self, bid, body, r, seen):
        k = r[0]
        if k in ('ref', 'rawptr'):
            pl = r[2]
            if k == 'ref' and r[1]:
                return self.src_place(bid, body, pl, seen)
            if k == 'ref':
                # a shared borrow: what is reached through it must not be written
                return {'shared'}
            return self.src_place(bid, body, pl, seen)
        if k == 'use':
            return self.src_operand(bid, body, r[1], seen)
        if k == 'cast':
            return self.src_operand(bid, body, r[2], seen)
        return {'unknown'}

    def from_callers(self, bid, n, seen):
        out = set()
        for c, body, args in self.call_sites(bid):
            if n < len(args):
                out |= self.src_operand(c, body, args[n], seen)
        return out

    def call_sites(self, bid):
        if self.callers is None:
            self.callers = {}
            for c, b, body in self.bodies():
                for bl in body['blocks']:
                    t = bl['t']
                    if t[0] == 'call' and t[1][0] == 'const' and 'fn' in t[1][1]:
                        f = t[1][1].get('r') or t[1][1]['fn']
                        self.callers.setdefault(f, []).append((c, body, t[2]))
        return self.callers.get(bid, [])

    def operands(self, bl):
        for s in bl['s']:
            if s[0] == '=':
                r = s[2]
                k = r[0]
                if k in ('use', 'repeat'):
                    yield r[1], s
                elif k == 'cast':
                    yield r[2], s
                elif k == 'bin':
                    yield r[2], s
                    yield r[3], s
                elif k == 'un':
                    yield r[2], s
                elif k == 'agg':
                    for x in r[2]:
                        yield x, s
        t = bl['t']
        if t[0] == 'call':
            for x in t[2]:
                yield x, t
        elif t[0] == 'switch':
            yield t[1], t

    def escapes(self, body, local):
        """can the value in the local reach the function's result?"""
        todo, seen = [local], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x == 0:
                return True
            for bl in body['blocks']:
                for s in bl['s']:
                    if s[0] == '=' and self.mentions(s[2], x):
                        t = self.cr.ty(body['locals'][s[1][0]])
                        if t[0] not in ('int', 'bool'):
                            todo.append(s[1][0])
                t = bl['t']
                if t[0] == 'call' and any(self.mentions(a, x) for a in t[2]):
                    rt = self.ptype(body, t[3])
                    if self.borrows(rt):
                        todo.append(t[3][0])
        return False

    def borrows(self, t):
        if t[0] in ('ref',):
            return True
        if t[0] == 'tuple':
            return any(self.borrows(x) for x in t[1])
        if t[0] == 'adt':
            return any(self.borrows(x) for x in t[2])
        return False

    def mentions(self, x, local):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ('copy', 'move') and isinstance(x[1], list):
                return x[1][0] == local
            if x and x[0] in ('ref', 'rawptr') and len(x) > 2:
                return x[2][0] == local
            return any(self.mentions(y, local) for y in x)
        return False

    def unchecked(self):
        n = {'bodies': 0, 'calls of unsafe functions': 0, 'raw accesses': 0, 'statements': 0}
        for bid, b, body in self.bodies():
            n['bodies'] += 1
            derived = '::fmt' in bid
            for bl in body['blocks']:
                if bl.get('cu'):
                    continue
                for s in bl['s']:
                    n['statements'] += 1
                    if s[0] == 'other' or s[0] == 'intr':
                        if s[0] == 'intr' and 'copy_nonoverlapping' in str(s):
                            self.report(('C16',), 'unchecked-operation', bid, b['file'], 'copies memory without checks')
                        continue
                    if s[0] != '=':
                        continue
                    self.access(bid, b, body, s[1], s[3], True, n)
                    r = s[2]
                    if r[0] == 'ref':
                        self.access(bid, b, body, r[2], s[3], bool(r[1]), n, ref=s[1])
                    if r[0] == 'tls':
                        self.report(('C20',), 'ambient', bid, s[3], 'uses thread-local state')
                    if r[0] == 'cast' and 'Expose' in r[1]:
                        self.report(('C20',), 'address', bid, s[3], 'turns an address into a number: the outcome can depend on where things were allocated')
                    if r[0] == 'bin' and str(r[1]) in ('Lt', 'Le', 'Gt', 'Ge', 'Cmp') and self.opty(body, r[2], b)[0] == 'ptr':
                        self.report(('C20',), 'address', bid, s[3], 'orders addresses: the outcome can depend on where things were allocated')
                    if r[0] == 'cast' and 'Transmute' in r[1]:
                        self.report(('C16',), 'unchecked-operation', bid, s[3], 'reinterprets a value of one type as another')
                for o, s in self.operands(bl):
                    if o[0] in ('copy', 'move'):
                        self.access(bid, b, body, o[1], s[3] if s[0] == '=' else s[-1], False, n)
                    elif o[0] == 'const' and o[1].get('static'):
                        self.static_use(bid, b, o[1], s[3] if s[0] == '=' else s[-1])
                t = bl['t']
                if t[0] == 'call':
                    self.callsite(bid, b, body, t, n)
                elif t[0] == 'other':
                    self.report(('C16', 'C20'), 'unchecked-operation', bid, b['file'], 'inline assembly or the like')
        for aid, d in sorted(self.cr.adts.items()):
            if d['local'] and d['kind'] == 'union':
                self.report(('C16',), 'unchecked-operation', aid, d['span'], 'a union: its fields are read without checks')
        self.obl(('C16', 'C02'), True, '%d bodies, %d statements: no raw pointer is written, no unchecked operation is used' % (n['bodies'], n['statements']))
        return n

    def access(self, bid, b, body, pl, span, write, n, ref=None):
        i = self.raw(body, pl)
        if i is None:
            return
        n['raw accesses'] += 1
        base = self.ptype(body, pl, i)
        if write:
            src = self.sources(bid, body, pl[0]) if i == 0 else {'unknown'}
            self.obl(('C02', 'C16'), 'shared' not in src)
            if 'shared' in src:
                self.report(('C02', 'C16'), 'write-through-shared', bid, span, 'writes through a raw pointer into something that is shared', tys(base))
            elif src != {'own'}:
                self.undecide(('C02', 'C16'), bid, span, 'a write through a raw pointer of unknown origin')
            return
        if ref is not None:
            src = self.sources(bid, body, pl[0]) if i == 0 else {'unknown'}
            bad = not ref[1] and self.escapes(body, ref[0]) and not b.get('unsafe')
            live = src and src <= {'shared', 'own'} and self.live_ref(bid, body, pl)
            self.obl(('C16',), not bad or live)
            if bad and not live:
                self.report(('C16',), 'dangling', bid, span, 'a reference made from a raw pointer is handed out: nothing keeps what it refers to alive', tys(base))
                return
        self.undecide(('C16',), bid, span, 'a read through a raw pointer')

    def live_ref(self, bid, body, pl):
        """the pointer was made from a reference parameter in this very function"""
        seen = set()
        todo = [pl[0]]
        ok = True
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            t = self.cr.ty(body['locals'][x])
            if 0 < x <= body['argc']:
                if t[0] != 'ref':
                    ok = False
                continue
            hit = False
            for bl in body['blocks']:
                for s in bl['s']:
                    if s[0] == '=' and s[1][0] == x:
                        hit = True
                        r = s[2]
                        o = r[2] if r[0] in ('cast', 'ref', 'rawptr') else r[1] if r[0] == 'use' else None
                        if r[0] in ('ref', 'rawptr'):
                            todo.append(o[0])
                        elif o and o[0] in ('copy', 'move'):
                            todo.append(o[1][0])
                        else:
                            ok = False
                t2 = bl['t']
                if t2[0] == 'call' and t2[3][0] == x:
                    hit = True
                    ok = False
            if not hit:
                ok = False
        return ok

    def opty(self, body, o, b):
        if o[0] not in ('copy', 'move'):
            return ('other',)
        l, proj = o[1]
        if not proj:
            return self.cr.ty(body['locals'][l])
        return self.cr.ty(proj[-1][2]) if isinstance(proj[-1], list) and proj[-1][0] == 'f' else ('other',)

    def callsite(self, bid, b, body, t, n):
        if t[1][0] != 'const' or 'fn' not in t[1][1]:
            return
        c = t[1][1]
        span = t[-1]
        fn, name = c['fn'], c.get('name')
        krate = fn.split('::')[0].lstrip('<')
        rk = (c.get('r') or fn).split('::')[0]
        for k in {krate, rk}:
            ok = k in CRATES
            self.obl(('C20',), ok)
            if not ok:
                self.report(('C20',), 'ambient', bid, span, 'calls into %s' % k, fn)
        if (name in ('addr', 'expose_provenance', 'expose_addr', 'align_offset', 'is_aligned', 'to_bits') and '::ptr::' in fn) or (name in ('partial_cmp', 'cmp', 'lt', 'le', 'gt', 'ge', 'max', 'min', 'hash', 'fmt') and c.get('fa') and self.cr.ty(c['fa'][0])[0] == 'ptr'):
            self.report(('C20',), 'address', bid, span, 'makes the outcome depend on an address', fn)
        if 'arch::' in fn or fn.endswith('::rdtsc'):
            self.report(('C20',), 'ambient', bid, span, 'calls a processor intrinsic', fn)
        if not c.get('us'):
            return
        n['calls of unsafe functions'] += 1
        if fn in self.cr.bodies or (c.get('r') in self.cr.bodies):
            return
        if name in ENGINE:
            self.undecide(('C16',), bid, span, 'an unchecked unwrap')
            return
        if fn.startswith('core::pin') and name == 'new_unchecked' or fn.startswith('core::future') and name == 'get_context' or fn.startswith('core::fmt') and name == 'new':
            self.obl(('C16',), True)
            return
        writes = False
        for a in t[2]:
            if a[0] in ('copy', 'move'):
                ty = self.ptype(body, a[1])
                if (ty[0] == 'ptr' and ty[1] or ty[0] == 'adt' and short(ty[1]) == 'NonNull') and not a[1][1]:
                    if 'shared' in self.sources(bid, body, a[1][0]):
                        writes = True
        if writes or name in ('get_mut_unchecked', 'as_mut_unchecked', 'decrement_strong_count', 'increment_strong_count'):
            self.report(('C02', 'C16'), 'write-through-shared', bid, span, 'an unsafe call can write to something that is shared', fn)
            self.obl(('C02', 'C16'), False)
            return
        self.obl(('C16',), False)
        self.report(('C16',), 'unchecked-operation', bid, span, 'an unsafe operation nothing justifies: %s' % name, fn)

    # ---- thread markers ----------------------------------------------------------------------------------------------------
    def threadsafe(self, t, want, params, seen, path):
        """None, or (where, what) of something in t that is not `want`, not trusting the crate's own unsafe markers"""
        if (t, want) in seen:
            return None
        seen.add((t, want))
        k = t[0]
        if k in ('int', 'bool', 'str', 'never', 'fndef', 'const', 'float', 'other', 'alias'):
            return None if k not in ('other', 'alias') else (path, tys(t))
        if k == 'param':
            ok = params.get(t[1], (False, False))[0 if want == 'Send' else 1]
            return None if ok else (path, t[1])
        if k == 'tuple':
            for x in t[1]:
                r = self.threadsafe(x, want, params, seen, path)
                if r:
                    return r
            return None
        if k in ('slice', 'array'):
            return self.threadsafe(t[1], want, params, seen, path)
        if k == 'ref':
            return self.threadsafe(t[2], 'Send' if t[1] and want == 'Send' else 'Sync', params, seen, path)
        if k == 'ptr':
            return path, tys(t)
        if k == 'dyn':
            hit = False
            for im in self.cr.impls:
                if im.get('trait') == t[1]:
                    hit = True
                    sub, keep = {}, dict(params)
                    ta = [self.cr.ty(x) for x in im['trait_args']]
                    for x, y in zip(ta[len(ta) - len(t[2]):], t[2]):
                        if x[0] == 'param':
                            sub[x[1]] = y
                    r = self.threadsafe(self.cr.ty(im['self'], sub), want, keep, seen, path)
                    if r:
                        return r
            return None if hit else (path, tys(t))
        if k == 'adt':
            n = short(t[1])
            if n == 'PhantomData':
                return None
            if n in ('Rc', 'Weak') and '::rc' in t[1] and 'arc' not in t[1] and 'sync' not in t[1]:
                return path, tys(t)
            if n in ('Arc', 'Weak'):
                return self.threadsafe(t[2][0], 'Send', params, seen, path) or self.threadsafe(t[2][0], 'Sync', params, seen, path)
            if n.startswith('Atomic'):
                return None
            if n in ('Cell', 'RefCell', 'UnsafeCell', 'OnceCell', 'LazyCell'):
                if want == 'Sync':
                    return path, tys(t)
                return self.threadsafe(t[2][0], 'Send', params, seen, path)
            d = self.cr.adts.get(t[1])
            if d and d['local']:
                sub = dict(zip(d['g'], t[2]))
                for v in d['v']:
                    for f in v['f']:
                        ft = self.cr.ty(f[1], sub)
                        r = self.threadsafe(ft, want, params, seen, path + (n + '.' + f[0],))
                        if r:
                            return r
                return None
            if n in HOLDERS:
                for x in t[2]:
                    r = self.threadsafe(x, want, params, seen, path)
                    if r:
                        return r
                return None
            return path, tys(t)
        return path, tys(t)

    def markers(self):
        n = 0
        for im in sorted(self.cr.impls, key=lambda i: i['id']):
            tr = im.get('trait') or ''
            if not im.get('unsafe') or short(tr) not in ('Send', 'Sync') or im.get('neg'):
                continue
            n += 1
            params = {p: (a, b) for p, a, b in im.get('pauto') or ()}
            t = self.cr.ty(im['self'])
            d = self.cr.adts.get(t[1]) if t[0] == 'adt' else None
            r = (('self',), tys(t)) if not d else self.threadsafe(t, short(tr), params, set(), ())
            self.obl(('C16',), r is None, '%s for %s: everything it holds is %s under the bounds of the implementation' % (short(tr), tys(t), short(tr)))
            if r:
                self.report(('C16',), 'thread-marker', im['id'], im['span'], '%s is declared %s, but holds something that is not' % (short(t[1]) if d else tys(t), short(tr)),
                            '%s: %s' % (' > '.join(r[0]), r[1]))
        return n

    # ---- what callbacks may do -------------------------------------------------------------------------------------------------
    def keyparam(self):
        """collection type -> index of the type argument its stored keys have"""
        out = {}
        for aid, d in self.stored():
            t = self.identity(d, aid)
            k = self.find_key(t, set())
            if k and k[0] == 'param' and k[1] in d['g']:
                out[aid] = d['g'].index(k[1])
        return out

    def find_key(self, t, seen):
        if t in seen:
            return None
        seen.add(t)
        if t[0] == 'adt':
            d = self.cr.adts.get(t[1])
            if short(t[1]) in HOLDERS or not d or not d['local']:
                for x in t[2]:
                    r = self.find_key(x, seen)
                    if r:
                        return r
                return None
            sub = dict(zip(d['g'], t[2]))
            for v in d['v']:
                for f in v['f']:
                    if f[0] == 'key':
                        return self.cr.ty(f[1], sub)
            for v in d['v']:
                for f in v['f']:
                    r = self.find_key(self.cr.ty(f[1], sub), seen)
                    if r:
                        return r
        return None

    def result_type(self, b):
        t = self.cr.ty(b['output'])
        if b.get('async'):
            c = self.cr.bodies.get(b['id'] + '::{closure#0}')
            if c:
                return self.cr.ty(c['body']['locals'][0])
        return t

    def find_adt(self, t, names):
        """collections that are part of t"""
        if t[0] == 'adt':
            if short(t[1]) in names:
                yield t
            for x in t[2]:
                yield from self.find_adt(x, names)
        elif t[0] == 'tuple':
            for x in t[1]:
                yield from self.find_adt(x, names)
        elif t[0] in ('ref', 'ptr'):
            yield from self.find_adt(t[2], names)
        elif t[0] in ('slice', 'array'):
            yield from self.find_adt(t[1], names)

    def owns(self, t, what, seen=None):
        """does a value of type t hold a value of type `what` outright?"""
        seen = seen if seen is not None else set()
        if t == what:
            return True
        if t in seen:
            return False
        seen.add(t)
        if t[0] == 'tuple':
            return any(self.owns(x, what, seen) for x in t[1])
        if t[0] in ('slice', 'array'):
            return self.owns(t[1], what, seen)
        if t[0] == 'adt':
            d = self.cr.adts.get(t[1])
            if d and d['local']:
                sub = dict(zip(d['g'], t[2]))
                return any(self.owns(self.cr.ty(f[1], sub), what, seen) for v in d['v'] for f in v['f'])
            return any(self.owns(x, what, seen) for x in t[2])
        return False

    def mutably(self, t):
        """what a value of type t gives mutable access to"""
        if t[0] in ('ref', 'ptr'):
            if t[1]:
                yield t[2]
            else:
                yield from self.mutably(t[2])
        elif t[0] == 'tuple':
            for x in t[1]:
                yield from self.mutably(x)
        elif t[0] == 'adt':
            for x in t[2]:
                yield from self.mutably(x)
        elif t[0] in ('slice', 'array'):
            yield from self.mutably(t[1])

    def callbacks(self):
        keys = self.keyparam()
        n = {'public functions': 0, 'callbacks': 0}
        names = tuple(short(a) for a in keys)
        for bid, b in sorted(self.cr.bodies.items()):
            if b.get('output') is None or not (b.get('reach') and (b.get('pub') or b.get('trait'))) or not b.get('inputs') and b['kind'] == 'Closure':
                continue
            rt = self.result_type(b)
            if b.get('self') is not None:
                s = self.cr.ty(b['self'])
            else:
                s = None
            cols = list(self.find_adt(rt, names))
            here = [t for i in b['inputs'] for t in self.find_adt(self.cr.ty(i), names)]
            if not cols and not here:
                continue
            n['public functions'] += 1
            outk = {c[2][keys[c[1]]] for c in cols}
            allk = outk | {c[2][keys[c[1]]] for c in here}
            # mutable access to a collection, a node or a key
            for i in b['inputs']:
                t = self.cr.ty(i)
                bad = [m for m in self.mutably(t) if any(True for _ in self.find_adt(m, names))]
                ok = not bad or b.get('trait') and short(b['trait']) == 'Drop'
                self.obl(('C02',), ok)
                if not ok:
                    self.report(('C02',), 'in-place', bid, b['file'], 'a public operation takes a collection by mutable reference', tys(bad[0]))
            for m in self.mutably(rt):
                ok = not any(self.owns(m, k) or m == k for k in allk)
                self.obl(('C02', 'C17'), ok)
                if not ok:
                    self.report(('C02', 'C17'), 'mutable-access', bid, b['file'], 'a public operation hands out mutable access to what is stored', tys(rt))
            outs = {}
            for a, t in b.get('projs') or ():
                st = self.cr.ty(a[0])
                if st[0] == 'param':
                    outs.setdefault(st[1], []).append((self.cr.ty(a[1]) if len(a) > 1 else None, self.cr.ty(t)))
            for p, l in sorted(outs.items()):
                for args, o in l:
                    n['callbacks'] += 1
                    prod = [k for k in outk if self.owns(o, k)]
                    ok = not prod or b.get('unsafe')
                    self.obl(('C17',), ok, '%s: %s answers %s%s' % (bid, p, tys(o), ' (unsafe)' if b.get('unsafe') else ''))
                    if not ok:
                        self.report(('C17',), 'key-from-callback', bid, b['file'], 'a safe operation stores keys that its callback %s makes' % p, tys(o))
                    for m in self.mutably(args) if args else ():
                        bad = any(self.owns(m, k) for k in allk) or any(True for _ in self.find_adt(m, names + ('MNode', 'LNode', 'SNode', 'CNode')))
                        self.obl(('C17', 'C02'), not bad)
                        if bad:
                            self.report(('C17', 'C02'), 'mutable-key', bid, b['file'], 'the callback %s gets mutable access to what is stored' % p, tys(args))
                    for m in self.mutably(o):
                        if any(self.owns(m, k) for k in allk):
                            pass
        # fields of collections must stay private
        for aid, d in self.stored():
            for v in d['v']:
                for f in v['f']:
                    self.obl(('C17', 'C02'), not f[2])
                    if f[2]:
                        self.report(('C17', 'C02'), 'exposed', aid, d['span'], 'the inside of a collection is public', f[0])
        return n

    # ---- ambient state ------------------------------------------------------------------------------------------------------------
    def static_use(self, bid, b, c, span):
        pass

    def ambient(self):
        d = self.cr.d
        self.obl(('C20',), d['no_std'], 'outside tests the crate does not link the standard library')
        if not d['no_std']:
            self.report(('C20',), 'no_std', 'hash_trie', 'src/lib.rs', 'the crate links the standard library outside its tests')
        n = {'statics': 0, 'external functions': len(d['externs'])}
        for bid, b in sorted(self.cr.bodies.items()):
            if not b['kind'].startswith('Static'):
                continue
            n['statics'] += 1
            t = self.cr.ty(b['body']['locals'][0])
            bad = 'mutability: Mut' in b['kind'] or self.inner(t, set(), ())
            self.obl(('C20',), not bad)
            if bad:
                self.report(('C20',), 'static-state', bid, b['file'], 'global state that can change', tys(t))
        for e in d['externs']:
            k = e.lstrip('<').split('::')[0]
            ok = k in CRATES
            self.obl(('C20',), ok)
            if not ok:
                self.report(('C20',), 'ambient', 'hash_trie', 'src/lib.rs', 'refers to %s' % e)
        for e in d['api']:
            if e[1] == 'ExternCrate' and short(e[0]) in ('std',):
                self.report(('C20',), 'no_std', e[0], e[3], 'the standard library is linked')
        return n


def analyse(cr, out):
    t = Typed(cr, out)
    for what, f, props in (('collections searched for interior mutability', t.interior, ('C02', 'C16')),
                           ('unchecked operations', t.unchecked, ('C16',)),
                           ('unsafe thread markers', t.markers, ('C16',)),
                           ('public operations', t.callbacks, ('C17',)),
                           ('ambient inputs', t.ambient, ('C20',))):
        try:
            out['units'][what] = f()
        except (LookupError, TypeError, ValueError, AttributeError, RecursionError) as e:
            out['undecided'].append({'props': list(props), 'fn': what, 'why': 'a form the analysis does not know (%s)' % repr(e)[:80], 'span': '', 'path': []})


if __name__ == '__main__':
    import sys
    from ir import Crate
    cr = Crate(sys.argv[1])
    out = {'reports': [], 'undecided': [], 'obl': {}, 'units': {}, 'samples': {}}
    analyse(cr, out)
    print(out['obl'], out['units'])
    for r in out['reports']:
        print('!', r)
    for r in out['undecided']:
        print('?', r)
