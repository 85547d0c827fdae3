"""Closed forms in the harmonic sum S = sum 2^-register and the number Z of empty
registers: sums of c * S^i * Z^j * (ln S)^k * (ln Z)^l * atoms, in exact arithmetic over
the reals.  Two expressions with the same form agree at every state."""
from fractions import Fraction
from decimal import Decimal, getcontext
import math

from dom import Aff, BV, Unknown

getcontext().prec = 50
ONE = ()


class NoForm(Exception):
    pass


def const(x):
    if isinstance(x, float):
        if not math.isfinite(x):
            raise NoForm('constant %r' % x)
    return {ONE: Fraction(x)} if x else {}


def atom(a, k=1):
    return {((a, k),): Fraction(1)}


def mmul(a, b):
    d = dict(a)
    for x, k in b:
        d[x] = d.get(x, 0) + k
    return tuple(sorted(((x, k) for x, k in d.items() if k), key=repr))


def add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + k * c
    return {m: c for m, c in r.items() if c}


def mul(p, q):
    r = {}
    for a, c in p.items():
        for b, d in q.items():
            m = mmul(a, b)
            r[m] = r.get(m, 0) + c * d
    if len(r) > 60:
        raise NoForm('size')
    return {m: c for m, c in r.items() if c}


def norm(p):
    """p = c * (monic polynomial); the monic part as a name"""
    ms = sorted(p, key=repr)
    c = p[ms[0]]
    return c, tuple((m, '%.9e' % float(p[m] / c)) for m in ms)


def lnc(c):
    if c <= 0:
        raise NoForm('logarithm')
    return Fraction((Decimal(c.numerator) / Decimal(c.denominator)).ln())


def inv(p):
    if not p:
        raise NoForm('division by zero')
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple((x, -k) for x, k in m): 1 / c}
    c, nm = norm(p)
    return {((('inv', nm), 1),): 1 / c}


def ln(p):
    if not p:
        raise NoForm('logarithm of zero')
    if len(p) == 1:
        (m, c), = p.items()
        r = const(0)
        l = lnc(c)
        if l:
            r = {ONE: l}
        for x, k in m:
            r = add(r, atom(('ln', x)), k)
        return r
    c, nm = norm(p)
    # the sign of the monic part is that of c
    return add({ONE: lnc(abs(c))}, atom(('ln', nm, c > 0)))


class Forms:
    """forms of the expressions on one path"""

    def __init__(self, leaf, m, maxrank):
        self.leaf, self.m, self.R = leaf, m, maxrank
        self.memo = {}

    def acc(self, nm):
        a = self.leaf.accs.get(nm)
        if a is None or a[2] is not True:
            raise NoForm('a quantity with no closed form')
        _, init, ok, g, why = a
        if any(v not in g for v in range(self.R + 1)):
            raise NoForm('accumulation')
        g = {v: Fraction(x) for v, x in g.items()}
        if self.R < 2:
            raise NoForm('ranks')
        c1 = 4 * (g[1] - g[2])
        c3 = g[2] - c1 / 4
        c2 = g[0] - c1 - c3
        for v in range(1, self.R + 1):
            w = c1 / 2**v + c3
            if abs(g[v] - w) > abs(w) * Fraction(1, 10**13):
                raise NoForm('the contribution of value %d' % v)
        r = const(init)
        r = add(r, atom('S'), c1)
        r = add(r, atom('Z'), c2)
        return add(r, const(c3 * self.m))

    def int(self, t):
        if isinstance(t, int):
            return const(t)
        if isinstance(t, BV):
            t = self.leaf.F.bits_aff(t)
            if isinstance(t, int):
                return const(t)
        r = const(t.c)
        for at, k in t.a:
            if at[0] != 'y':
                raise NoForm('integer')
            s = at[1]
            if isinstance(s, tuple) and s and s[0] == 'Z':
                x = atom('Z')
            elif isinstance(s, tuple) and s and s[0] == 't':
                x = self.int(s[1])
            elif s in self.leaf.accs:
                x = self.acc(s)
            elif s in self.leaf.F.sub:
                x = self.int(self.leaf.F.sub[s])
            else:
                iv = self.leaf.F.iv.get(at)
                if not iv or iv[0] != iv[1]:
                    raise NoForm('integer')
                x = const(iv[0])
            r = add(r, x, k)
        return r

    def f(self, e):
        if not isinstance(e, tuple):
            return const(float(e))
        r = self.memo.get(e)
        if r is None:
            r = self.memo[e] = self.f1(e)
        return r

    def f1(self, e):
        op = e[0]
        if op == 'fsym':
            return self.acc(e[1])
        if op == 'i2f':
            return self.int(e[1])
        a = [self.f(x) for x in e[1:]]
        if op == '+':
            return add(*a)
        if op == '-':
            return add(a[0], a[1], -1)
        if op == 'neg':
            return add({}, a[0], -1)
        if op == '*':
            return mul(*a)
        if op == '/':
            return mul(a[0], inv(a[1]))
        if op == 'ln':
            return ln(a[0])
        if op == 'ln_1p':
            return ln(add(a[0], const(1)))
        if op in ('log2', 'log10'):
            return mul(ln(a[0]), {ONE: 1 / lnc(Fraction(2 if op == 'log2' else 10))})
        if op in ('powi', 'powf') and not isinstance(e[2], tuple) and float(e[2]) == int(e[2]) and abs(e[2]) <= 8:
            r, b = const(1), a[0] if e[2] >= 0 else inv(a[0])
            for _ in range(abs(int(e[2]))):
                r = mul(r, b)
            return r
        raise NoForm('operation ' + op)


def agree(p, q, scale=0.0):
    """the same form, but for the rounding of constants"""
    if set(p) != set(q):
        return all(abs(p.get(m, 0) - q.get(m, 0)) <= (Fraction(scale) if m == ONE else 0) * Fraction(1, 10**12) for m in set(p) ^ set(q)) and \
            agree({m: p[m] for m in p if m in q}, {m: q[m] for m in q if m in p}, scale) if scale else False
    return all(abs(p[m] - q[m]) <= Fraction(1, 10**12) * max(abs(p[m]), abs(q[m]), Fraction(scale) if m == ONE else 0) for m in p)


def monotone(p):
    """the variable (S or Z) a form depends on, if it is monotone in it; None if constant"""
    vs, dirs = set(), set()
    for m, c in p.items():
        if m == ONE:
            continue
        if len(m) != 1:
            raise NoForm('shape')
        (x, k), = m
        up = c > 0
        if x in ('S', 'Z'):
            vs.add(x)
            dirs.add(up if k > 0 else not up)
        elif isinstance(x, tuple) and x[0] == 'ln' and x[1] in ('S', 'Z') and k == 1:
            vs.add(x[1])
            dirs.add(up)
        elif isinstance(x, tuple) and x[0] == 'ln' and len(x) == 3 and k == 1:
            # monotone in the monotone argument
            q = {mm: Fraction(float(cc)) for mm, cc in x[1]}
            v, d = monotone(q)
            vs.add(v)
            dirs.add((d == x[2]) == up)
        else:
            raise NoForm('shape')
    if not vs:
        return None, None
    if len(vs) != 1 or len(dirs) != 1:
        raise NoForm('not monotone')
    return vs.pop(), dirs.pop()
