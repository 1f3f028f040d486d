"""Abstract domain: linear forms over named quantities, with an equality store (a Karr-style affine-equality domain)."""
from fractions import Fraction

ONE = 1


class Lin:
    __slots__ = ('d', '_h')

    def __init__(self, d=None):
        self.d = {k: v for k, v in (d or {}).items() if v != 0}
        self._h = None

    def __add__(self, o):
        if not o.d:
            return self
        if not self.d:
            return o
        d = dict(self.d)
        for k, v in o.d.items():
            n = d.get(k, 0) + v
            if n == 0:
                d.pop(k, None)
            else:
                d[k] = n
        return Lin(d)

    def __sub__(self, o):
        return self + o.scale(-1)

    def scale(self, c):
        return Lin({k: v * c for k, v in self.d.items()})

    def __eq__(self, o):
        return isinstance(o, Lin) and self.d == o.d

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def is_zero(self):
        return not self.d

    def const(self):
        """constant value if the form is a constant, else None"""
        if not self.d:
            return 0
        if len(self.d) == 1 and ONE in self.d:
            return self.d[ONE]
        return None

    def __repr__(self):
        if not self.d:
            return '0'
        out = []
        for k, v in sorted(self.d.items(), key=lambda kv: str(kv[0])):
            s = '' if k == ONE else fmt_atom(k)
            c = str(v) if (k == ONE or v not in (1, -1)) else ('-' if v == -1 else '')
            out.append(c + s)
        return ' + '.join(out)


def fmt_atom(a):
    if isinstance(a, tuple):
        if a[0] == '#':
            return '#' + fmt_atom(a[1])
        return '%s(%s)' % (a[0], ','.join(fmt_atom(x) if isinstance(x, tuple) else str(x) for x in a[1:]))
    return str(a)


ZERO = Lin()


def const(n):
    return Lin({ONE: n})


def atom(*a):
    return Lin({tuple(a): 1})


def size_of(content):
    """homomorphic image of a content form in the integers: number of entries"""
    d = {}
    for k, v in content.d.items():
        if k == ONE:
            raise ValueError('constant in content form')
        if k[0] == 'E':
            d[ONE] = d.get(ONE, 0) + v
        else:
            d[('#', k)] = d.get(('#', k), 0) + v
    return Lin(d)


def atom_prio(a):
    """pivot preference: derived quantities are eliminated first"""
    if a == ONE:
        return (-1, '')
    b = a[1] if a[0] == '#' else a
    p = {'T': 9, 'out': 8, 'red': 8, 'bagc': 7, 'N': 5, 'B': 4, 'Pre': 6, 'HP': 6, 'E': 2}.get(b[0], 3)
    n = 0
    if len(b) > 1 and isinstance(b[1], int):
        n = -b[1] if b[0] in ('N', 'B') else b[1]
    return (p, n, str(a))


class Eqs:
    """persistent set of linear equations in solved form"""
    __slots__ = ('sub',)

    def __init__(self, sub=None):
        self.sub = sub if sub is not None else {}

    def norm(self, lin):
        sub = self.sub
        hit = [k for k in lin.d if k in sub]
        if not hit:
            return lin
        d = dict(lin.d)
        for k in hit:
            c = d.pop(k)
            for k2, v2 in sub[k].d.items():
                n = d.get(k2, 0) + c * v2
                if n == 0:
                    d.pop(k2, None)
                else:
                    d[k2] = n
        return Lin(d)

    def add(self, lin):
        """adds lin == 0; returns (new store, ok)"""
        n = self.norm(lin)
        if n.is_zero():
            return self, True
        if n.const() is not None:
            return self, False
        piv = max((k for k in n.d if k != ONE), key=atom_prio)
        c = n.d[piv]
        rest = Lin({k: Fraction(-v, 1) / c for k, v in n.d.items() if k != piv})
        rest = Lin({k: (int(v) if v.denominator == 1 else v) for k, v in rest.d.items()})
        sub = {}
        one = Eqs({piv: rest})
        for k, v in self.sub.items():
            sub[k] = one.norm(v) if piv in v.d else v
        sub[piv] = rest
        return Eqs(sub), True


def nullspace(rows):
    """rows: list of dict col->value (one per quantity). Returns basis of left null space: list of coefficient lists c with sum c_i*rows_i = 0"""
    n = len(rows)
    work = []
    for i, r in enumerate(rows):
        comb = [Fraction(0)] * n
        comb[i] = Fraction(1)
        work.append(({k: Fraction(v) for k, v in r.items() if v != 0}, comb))
    basis = []
    pivots = []  # (col, row, comb)
    for r, comb in work:
        r = dict(r)
        comb = list(comb)
        for col, pr, pc in pivots:
            if col in r:
                f = r[col] / pr[col]
                for k, v in pr.items():
                    x = r.get(k, 0) - f * v
                    if x == 0:
                        r.pop(k, None)
                    else:
                        r[k] = x
                comb = [a - f * b for a, b in zip(comb, pc)]
        if not r:
            basis.append([int(x) if x.denominator == 1 else x for x in comb])
        else:
            col = min(r, key=str)
            pivots.append((col, r, comb))
    return basis
