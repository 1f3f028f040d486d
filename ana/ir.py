"""Loads the MIR dump produced by driver/main.rs and offers typed access to it."""
import json


class Crate:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.d = d
        self.types = d['types']
        self.bodies = {b['id']: b for b in d['bodies']}
        self.adts = d['adts']
        self.impls = d['impls']
        self._cache = {}
        self.children = {}
        for b in d['bodies']:
            self.children.setdefault(b.get('parent'), []).append(b['id'])

    # ---- types as interned nested tuples -------------------------------------------------
    def ty(self, i, sub=None):
        """type index -> ('adt', id, args) | ('param', name) | ('ref', mut, t) | ... with params substituted"""
        if not isinstance(i, int):
            return ('const', str(i))
        if not sub:
            c = self._cache.get(i)
            if c is not None:
                return c
        t = self.types[i]
        k = t['k']
        if k == 'adt':
            r = ('adt', t['d'], tuple(self.ty(a, sub) for a in t['a']))
        elif k == 'param':
            r = (sub or {}).get(t['n']) or ('param', t['n'])
        elif k == 'ref':
            r = ('ref', t['m'], self.ty(t['t'], sub))
        elif k == 'ptr':
            r = ('ptr', t['m'], self.ty(t['t'], sub))
        elif k == 'tuple':
            r = ('tuple', tuple(self.ty(a, sub) for a in t['a']))
        elif k in ('slice', 'array'):
            r = (k, self.ty(t['t'], sub))
        elif k in ('closure', 'coroutine', 'fndef'):
            r = (k, t['d'], tuple(self.ty(a, sub) for a in t.get('a', [])))
        elif k == 'dyn':
            r = ('dyn', t.get('d'), tuple(self.ty(a, sub) for a in t.get('a', [])))
        elif k == 'alias':
            r = ('alias', t.get('d'), tuple(self.ty(a, sub) for a in t.get('a', [])))
        elif k == 'int':
            r = ('int', t['s'])
        else:
            r = (k,) if 's' not in t else (k, t['s'])
        if not sub:
            self._cache[i] = r
        return r


def short(d):
    return d.rsplit('::', 1)[-1] if d else d


def tys(t):
    k = t[0]
    if k == 'adt':
        return short(t[1]) + ('<' + ','.join(tys(a) for a in t[2]) + '>' if t[2] else '')
    if k == 'param':
        return t[1]
    if k == 'ref':
        return '&' + ('mut ' if t[1] else '') + tys(t[2])
    if k == 'ptr':
        return '*' + tys(t[2])
    if k == 'tuple':
        return '(' + ','.join(tys(a) for a in t[1]) + ')'
    if k in ('slice', 'array'):
        return '[' + tys(t[1]) + ']'
    if k in ('closure', 'coroutine', 'fndef', 'dyn', 'alias'):
        return k + ' ' + str(t[1])
    return str(t[-1])


def show(cr, bid, out=print):
    b = cr.bodies[bid]
    body = b['body']
    out(bid, b['kind'], b['file'], 'inputs', [tys(cr.ty(i)) for i in b.get('inputs') or []])
    names = {}
    for n, p in body['names']:
        names.setdefault(json.dumps(p), n)
    for i, t in enumerate(body['locals']):
        out('  _%d: %s %s' % (i, tys(cr.ty(t)), [n for n, p in body['names'] if p == [i, []]]))

    def P(p):
        s = '_%d' % p[0]
        for e in p[1]:
            s += '.*' if e == '*' else '.' + ':'.join(map(str, e[:1] + (e[1:2] if e[0] == 'f' else e[1:])))
        return s

    def O(o):
        if o[0] in ('copy', 'move'):
            return o[0][0] + ' ' + P(o[1])
        c = o[1]
        if 'fn' in c:
            return 'fn<%s|r=%s>' % (c['fn'], c.get('r'))
        return 'const ' + str({k: v for k, v in c.items() if k != 'c'})

    def R(r):
        k = r[0]
        if k in ('use', 'repeat'):
            return k + ' ' + O(r[1])
        if k in ('ref', 'rawptr'):
            return k + ' ' + str(r[1]) + ' ' + P(r[2])
        if k == 'cast':
            return 'cast %s %s' % (r[1], O(r[2]))
        if k == 'bin':
            return '%s(%s, %s)' % (r[1], O(r[2]), O(r[3]))
        if k == 'un':
            return '%s(%s)' % (r[1], O(r[2]))
        if k == 'discr':
            return 'discr ' + P(r[1])
        if k == 'agg':
            return 'agg %s [%s]' % ([x for x in r[1][:3]], ', '.join(O(x) for x in r[2]))
        return str(r)

    for i, bl in enumerate(body['blocks']):
        if bl.get('cu'):
            continue
        out(' bb%d:' % i)
        for s in bl['s']:
            if s[0] == '=':
                out('    %s = %s' % (P(s[1]), R(s[2])))
            elif s[0] != 'dead':
                out('    ', s)
        t = bl['t']
        if t[0] == 'call':
            out('    call %s(%s) -> %s @bb%s' % (O(t[1]), ', '.join(O(a) for a in t[2]), P(t[3]), t[4]))
        elif t[0] == 'switch':
            out('    switch', O(t[1]), t[2], 'else', t[3])
        else:
            out('    ', t)


if __name__ == '__main__':
    import sys
    cr = Crate(sys.argv[1])
    for i in cr.bodies:
        if len(sys.argv) < 3 or sys.argv[2] in i:
            if len(sys.argv) < 3:
                print(i, cr.bodies[i]['kind'])
            else:
                show(cr, i)
