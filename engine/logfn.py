"""The logarithm used without the standard library: a numerical error analysis of its
MIR for every double.

The argument is sign, exponent E, upper 20 mantissa bits M and lower 32 mantissa bits L,
E, M and L being symbols; integer values are affine in them, and the case (the ranges of
the symbols) is split wherever an operation or a branch is not uniform on it.  Floating
point values become an expression over the reduced argument and the exponent.  For each
case the expression is compared with the logarithm: Taylor models (polynomials with an
interval remainder, in 200-bit fixed point) of its value in exact arithmetic, and a
bound of the rounding errors of all its operations, both relative to powers of f = x - 1
where f can be small."""
import math, struct
from interp import Unknown
from upper import Rec, CURRENT

LIMIT_BITS = 50
SC = 200          # fixed point scale
ONE = 1 << SC
U = ONE >> 53     # half an ulp of 1
DEG = 11


class Panics(Exception):
    pass


# ---------------------------------------------------------------- integer values
class A:
    """affine integer: c + sum k*symbol, as a value of a type with n bits"""
    __slots__ = ('c', 't', 'n', 's')

    def __init__(self, c, t, n, s):
        self.c, self.t, self.n, self.s = c, {a: k for a, k in t.items() if k}, n, s

    def key(self):
        return (self.c, tuple(sorted(self.t.items())))


class Split(Exception):
    def __init__(self, sym, at):
        self.sym, self.at = sym, at  # below at / from at on


class Case:
    def __init__(self, rng, sign):
        self.rng = dict(rng)
        self.sign = sign
        self.fields = {}

    def copy(self):
        c = Case(self.rng, self.sign)
        return c

    def bounds(self, v):
        lo = hi = v.c
        for a, k in v.t.items():
            l, h = self.rng[a]
            if k > 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        return lo, hi

    def norm(self, v):
        """symbols with one value are constants"""
        c, t = v.c, {}
        for a, k in v.t.items():
            l, h = self.rng[a]
            if l == h:
                c += k * l
            else:
                t[a] = k
        return A(c, t, v.n, v.s)

    def less(self, v, c):
        """v < c, splitting the case if it is not uniform"""
        lo, hi = self.bounds(v)
        if hi < c:
            return True
        if lo >= c:
            return False
        # the symbol with the largest share of the range
        a = max(v.t, key=lambda x: abs(v.t[x]) * (self.rng[x][1] - self.rng[x][0]))
        k = v.t[a]
        rest = A(v.c, {x: y for x, y in v.t.items() if x != a}, v.n, v.s)
        rlo, rhi = self.bounds(rest)
        l, h = self.rng[a]
        # k*x + rest < c surely: k*x <= c-1-rhi; surely not: k*x >= c-rlo
        if k > 0:
            x1 = (c - 1 - rhi) // k            # last x surely below
            x2 = -((rlo - c) // k)             # first x surely not below
            for at in (x1 + 1, x2):
                if l < at <= h:
                    raise Split(a, at)
        else:
            x1 = -((c - 1 - rhi) // -k)        # first x surely below
            x2 = (c - rlo) // k                # last x surely not below
            for at in (x1, x2 + 1):
                if l < at <= h:
                    raise Split(a, at)
        raise Unknown('a comparison that depends on several parts of the argument')

    def shr(self, v, n):
        """floor(v / 2^n)"""
        if n == 0:
            return v
        q = 1 << n
        hi_t = {a: k // q for a, k in v.t.items() if k % q == 0}
        lo_t = {a: k for a, k in v.t.items() if k % q}
        rest = A(v.c % q, lo_t, v.n, v.s)
        l, h = self.bounds(rest)
        b = l // q
        if h // q != b:
            self.less(rest, (b + 1) * q)
        return A(v.c // q + b, hi_t, v.n, v.s)

    def low(self, v, n):
        q = 1 << n
        rest = A(v.c % q, {a: k for a, k in v.t.items() if k % q}, v.n, v.s)
        l, h = self.bounds(rest)
        if h // q - l // q > 64:
            # a symbol of its own, instead of a case for each period
            nm = 'B%d %r' % (n, rest.key())
            self.rng.setdefault(nm, (0, q - 1))
            self.fields[nm] = (rest, q)
            return A(0, {nm: 1}, v.n, v.s)
        s = self.shr(v, n)
        return A(v.c - (s.c << n), {a: v.t.get(a, 0) - (s.t.get(a, 0) << n) for a in set(v.t) | set(s.t)}, v.n, v.s)

    def attained(self, nm):
        """every value of the field occurs"""
        rest, q = self.fields.get(nm, (None, 0))
        if rest is None or len(rest.t) != 1 or self.rng[nm] != (0, q - 1):
            return False
        (a, k), = rest.t.items()
        return k % 2 == 1 and a in self.rng and self.rng[a][1] - self.rng[a][0] >= q

    def wrap(self, v):
        n = v.n
        r = self.low(v, n)
        if v.s and not self.less(r, 1 << (n - 1)):
            r = A(r.c - (1 << n), r.t, n, True)
        return r

    def fits(self, v):
        lo, hi = (-(1 << (v.n - 1)), (1 << (v.n - 1)) - 1) if v.s else (0, (1 << v.n) - 1)
        if self.less(v, lo):
            return False
        return self.less(v, hi + 1)


# ---------------------------------------------------------------- floats
# ('c', float)           constant
# ('x',)                 the argument, symbolic
# ('nan',)               NaN
# ('m', ec, key)         2^(ec-1023) * (1 + mantissa/2^52), mantissa an affine integer
# ('k', key)             an integer converted exactly
# (op, a, b)

def bits_of(f):
    return struct.unpack('<Q', struct.pack('<d', f))[0]


def f_of(b):
    return struct.unpack('<d', struct.pack('<Q', b))[0]


def fold(op, a, b):
    try:
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if b == 0:
            if a == 0 or math.isnan(a):
                return math.nan
            return math.copysign(math.inf, a) * math.copysign(1.0, b)
        return a / b
    except OverflowError:
        return math.inf


class Run:
    """one case through the function"""

    def __init__(self, L, case):
        self.L, self.P, self.case = L, L.P, case
        self.steps = 0
        self.scaled = {}

    def const(self, c):
        if 'i' not in c:
            if 'agg' in c:
                return ('adt', c['t'], c.get('var', 0), tuple(self.const(x) for x in c['agg']))
            if 'z' in c:
                d = self.P.types[c['z']]
                return ('fn', c['z']) if d['k'] == 'fndef' else ('adt', c['z'], 0, ())
            if 'ref' in c and 'static' not in c:
                al = self.P.allocs[str(c['ref'])]
                sl = isinstance(al, dict) and 'slice' in al
                v = ('tup', tuple(self.const(x) for x in al['slice'])) if sl else self.const(al)
                return ('ref', {0: v}, 0, ())
            raise Unknown('constant in the logarithm')
        t = self.P.types[c['t']]
        v = int(c['i'])
        if t['k'] == 'bool':
            return bool(v)
        if t['k'] == 'float':
            if t.get('size') == 4:
                raise Unknown('single precision')
            return self.fc(f_of(v))
        n, s = t['bits'], t['signed']
        if s and v >> (n - 1):
            v -= 1 << n
        return A(v, {}, n, s)

    def fc(self, f):
        return ('nan',) if math.isnan(f) else ('c', f)

    @staticmethod
    def parts(v):
        if isinstance(v, tuple) and v and v[0] in ('tup', 'adt'):
            return v[-1]
        raise Unknown('a place in the logarithm')

    def addr(self, fr, p):
        f, l, path = fr, p[0], ()
        for e in p[1]:
            if e == '*':
                v = self.load(f, l, path)
                if not (isinstance(v, tuple) and v and v[0] == 'ref'):
                    raise Unknown('a pointer in the logarithm')
                _, f, l, path = v
            elif e[0] == 'f':
                path += (e[1],)
            elif e[0] == 'i':
                i = self.case.norm(fr[e[1]])
                if i.t:
                    raise Unknown('a variable index in the logarithm')
                path += (i.c,)
            elif e[0] == 'ci':
                n = len(self.parts(self.load(f, l, path)))
                path += (n - e[1] if e[3] else e[1],)
            elif e[0] == 'ss':
                n = len(self.parts(self.load(f, l, path)))
                path += ((e[1], n - e[2] if e[3] else e[2]),)
            elif e[0] not in ('d', 'oc') and e != 'oc':
                raise Unknown('a place in the logarithm')
        return f, l, path

    def load(self, f, l, path):
        v = f.get(l)
        for i in path:
            ps = self.parts(v)
            if isinstance(i, tuple):
                v = ('tup', ps[i[0]:i[1]])
                continue
            if not 0 <= i < len(ps):
                raise Unknown('a place in the logarithm')
            v = ps[i]
        if v is None:
            raise Unknown('an uninitialised value')
        return v

    def store(self, f, l, path, v):
        def put(x, path):
            if not path:
                return v
            if x is None or isinstance(path[0], tuple):
                raise Unknown('assignment to a part')
            ps = list(self.parts(x))
            ps[path[0]] = put(ps[path[0]], path[1:])
            return x[:-1] + (tuple(ps),)
        f[l] = put(f.get(l), path)

    def place(self, fr, p):
        return self.load(*self.addr(fr, p))

    def op(self, fr, o):
        return self.const(o[1]) if o[0] == 'k' else self.place(fr, o[1])

    def arg(self):
        """the argument as a float"""
        c = self.case
        r = c.rng
        if all(r[s][0] == r[s][1] for s in 'EML'):
            f = f_of(c.sign << 63 | r['E'][0] << 52 | r['M'][0] << 32 | r['L'][0])
            return self.fc(f)
        if r['E'] == (2047, 2047):
            return ('nan',)
        return ('x',)

    def arg_bits(self):
        return A(self.case.sign << 63, {'E': 1 << 52, 'M': 1 << 32, 'L': 1}, 64, False)

    def to_bits(self, e):
        if e[0] == 'c':
            return A(bits_of(e[1]), {}, 64, False)
        if e in (('x',), ('nan',)):
            if e == ('nan',) and self.case.rng['E'] != (2047, 2047):
                raise Unknown('bits of a computed NaN')
            return self.arg_bits()
        if e[0] in '*/' and e[1] == ('x',) and e[2][0] == 'c' or e[0] == '*' and e[2] == ('x',) and e[1][0] == 'c':
            k = e[2][1] if e[2][0] == 'c' else e[1][1]
            m, ex = math.frexp(k)
            if m != 0.5:
                raise Unknown('the argument is scaled by something else than a power of two')
            sh = (ex - 1) * (1 if e[0] == '*' else -1)
            lo, hi = self.case.rng['E']
            sub = hi == 0
            if sub:
                # 2^-1074 .. below 2^-1022, times 2^sh; exact if the result is normal
                if sh < 52 or sh > 900:
                    raise Unknown('scaling a subnormal number inexactly')
                names = ('E%d' % sh, 'M%d' % sh, 'L%d' % sh)
                c = self.case
                c.rng.setdefault(names[0], (sh - 51, sh))
                c.rng.setdefault(names[1], (0, (1 << 20) - 1))
                c.rng.setdefault(names[2], (0, (1 << 32) - 1))
                return A(c.sign << 63, {names[0]: 1 << 52, names[1]: 1 << 32, names[2]: 1}, 64, False)
            if lo >= 1 and hi <= 2046 and lo + sh >= 1 and hi + sh <= 2046:
                return A((self.case.sign << 63) + (sh << 52), {'E': 1 << 52, 'M': 1 << 32, 'L': 1}, 64, False)
        raise Unknown('bits of a computed number')

    def from_bits(self, v):
        v = self.case.norm(v)
        if not v.t:
            return self.fc(f_of(v.c))
        if v.key() == self.case.norm(self.arg_bits()).key():
            return self.arg()
        top = self.case.shr(v, 52)
        if top.t:
            raise Unknown('a number with an unknown exponent is built')
        ec = top.c
        if not 1 <= ec <= 2046:
            raise Unknown('an unusual number is built')
        m = self.case.low(v, 52)
        return ('m', ec, m.key())

    def farith(self, op, a, b):
        if a == ('nan',) or b == ('nan',):
            return ('nan',)
        if a[0] == 'c' and b[0] == 'c':
            return self.fc(fold(op, a[1], b[1]))
        if op == '-' and a == b:
            return ('c', 0.0)  # finite: constants and NaN were dealt with
        return (op, a, b)

    def binop(self, o, a, b):
        c = self.case
        if isinstance(a, bool):
            if o in ('Eq', 'Ne', 'BitXor'):
                return (a == b) == (o == 'Eq')
            if o == 'BitAnd':
                return a and b
            if o == 'BitOr':
                return a or b
            raise Unknown('operator ' + o)
        if isinstance(a, tuple):
            f = {'Add': '+', 'Sub': '-', 'Mul': '*', 'Div': '/'}.get(o)
            if f:
                return self.farith(f, a, b)
            return self.fcmp(o, a, b)
        if o in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            d = c.norm(A(a.c - b.c, {x: a.t.get(x, 0) - b.t.get(x, 0) for x in set(a.t) | set(b.t)}, 64, True))
            if o == 'Lt':
                return c.less(d, 0)
            if o == 'Ge':
                return not c.less(d, 0)
            if o == 'Le':
                return c.less(d, 1)
            if o == 'Gt':
                return not c.less(d, 1)
            eq = not c.less(d, 0) and c.less(d, 1)
            return eq == (o == 'Eq')
        a, b = c.norm(a), c.norm(b)
        if o in ('Shl', 'ShlUnchecked', 'Shr', 'ShrUnchecked'):
            if b.t:
                raise Unknown('shift by a variable amount')
            n = b.c % a.n
            if o.startswith('Shr'):
                return c.shr(a, n)
            return c.wrap(A(a.c << n, {x: k << n for x, k in a.t.items()}, a.n, a.s))
        if o.startswith(('Add', 'Sub')):
            g = 1 if o.startswith('Add') else -1
            return c.wrap(self.lin(a, b, g))
        if o.startswith('Mul'):
            return c.wrap(self.times(a, b))
        if o in ('Div', 'Rem') and not b.t and b.c > 0 and b.c & (b.c - 1) == 0 and not c.less(a, 0):
            n = b.c.bit_length() - 1
            return c.shr(a, n) if o == 'Div' else c.low(a, n)
        if o == 'BitAnd':
            if a.t and b.t:
                raise Unknown('and of two variables')
            if not b.t:
                a, b = b, a
            return self.mask(b, a.c % (1 << a.n))
        if o in ('BitOr', 'BitXor'):
            lo, hi = c.bounds(a)
            lo2, hi2 = c.bounds(b)
            for x, y in ((a, b), (b, a)):
                l, h = c.bounds(x)
                if l < 0:
                    continue
                n = h.bit_length()
                if y.c % (1 << n) == 0 and all(k % (1 << n) == 0 for k in y.t.values()):
                    return self.lin(a, b, 1)
            if o == 'BitOr' and not b.t and b.c >= 0 or not a.t and a.c >= 0 and o == 'BitOr':
                v, m = (a, b.c) if not b.t else (b, a.c)
                # or with a constant: clear those bits first
                return self.lin(self.mask(v, ~m % (1 << v.n)), A(m, {}, v.n, v.s), 1)
            raise Unknown('or of overlapping values')
        raise Unknown('operator ' + o)

    def lin(self, a, b, g):
        return A(a.c + g * b.c, {x: a.t.get(x, 0) + g * b.t.get(x, 0) for x in set(a.t) | set(b.t)}, a.n, a.s)

    def times(self, a, b):
        if a.t and b.t:
            raise Unknown('product of variables')
        if a.t:
            a, b = b, a
        return A(a.c * b.c, {x: k * a.c for x, k in b.t.items()}, b.n, b.s)

    def mask(self, v, m):
        """v & m for a constant m: a sum of fields"""
        c = self.case
        if c.less(v, 0):
            raise Unknown('mask of a negative number')
        r = A(0, {}, v.n, v.s)
        i = 0
        while m >> i:
            if not (m >> i) & 1:
                i += 1
                continue
            j = i
            while (m >> j) & 1:
                j += 1
            r = self.lin(r, c.low(v, j) if j < v.n else v, 1)
            if i:
                r = self.lin(r, c.low(v, i), -1)
            i = j
        return r

    def fcmp(self, o, a, b):
        if o == 'Ne':
            return not self.fcmp('Eq', a, b)
        if a == ('nan',) or b == ('nan',):
            return False
        f = {'Lt': lambda x, y: x < y, 'Le': lambda x, y: x <= y, 'Gt': lambda x, y: x > y, 'Ge': lambda x, y: x >= y, 'Eq': lambda x, y: x == y}[o]
        if a[0] == 'c' and b[0] == 'c':
            return f(a[1], b[1])
        if a == ('x',) and b == ('x',):
            return o in ('Le', 'Ge', 'Eq')
        if b == ('x',) and a[0] == 'c':
            return self.fcmp({'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le', 'Eq': 'Eq'}[o], b, a)
        if a == ('x',) and b[0] == 'c':
            # magnitudes are ordered like their bits
            c, k = self.case, b[1]
            mag = c.norm(A(0, {'E': 1 << 52, 'M': 1 << 32, 'L': 1}, 64, False))
            sg = -1 if c.sign else 1
            kb = bits_of(abs(k)) * (-1 if math.copysign(1, k) < 0 else 1)
            d = A(sg * mag.c - kb, {x: sg * y for x, y in mag.t.items()}, 80, True)
            if k == 0:
                d = A(sg * mag.c, {x: sg * y for x, y in mag.t.items()}, 80, True)
            if o == 'Lt':
                return c.less(d, 0)
            if o == 'Le':
                return c.less(d, 1)
            if o == 'Gt':
                return not c.less(d, 1)
            if o == 'Ge':
                return not c.less(d, 0)
            return not c.less(d, 0) and c.less(d, 1)
        raise Unknown('comparison of computed numbers')

    def cast(self, kind, v, t):
        d = self.P.types[t]
        if kind == 'IntToInt':
            if isinstance(v, bool):
                return A(int(v), {}, d['bits'], d['signed'])
            v = self.case.norm(v)
            return self.case.wrap(A(v.c, v.t, d['bits'], d['signed']))
        if kind == 'IntToFloat' and d.get('size') == 8:
            v = self.case.norm(v)
            lo, hi = self.case.bounds(v)
            if max(abs(lo), abs(hi)) > 1 << 53:
                raise Unknown('inexact conversion')
            if not v.t:
                return ('c', float(v.c)) if all(l == h for l, h in self.case.rng.values()) else ('k', (v.c, ()))
            return ('k', v.key())
        if kind == 'PointerCoercion(Unsize)' and isinstance(v, tuple) and v[0] == 'ref':
            return v
        if kind == 'Transmute':
            if isinstance(v, tuple) and d['k'] == 'int' and d['bits'] == 64:
                return self.to_bits(v)
            if isinstance(v, A) and d['k'] == 'float':
                return self.from_bits(v)
        raise Unknown('cast ' + kind)

    def rvalue(self, fr, r):
        k = r[0]
        if k == 'use':
            return self.op(fr, r[1])
        if k == 'bin':
            return self.binop(r[1], self.op(fr, r[2]), self.op(fr, r[3]))
        if k == 'chk':
            a, b = self.op(fr, r[2]), self.op(fr, r[3])
            if r[1] in ('Shl', 'Shr'):
                return ('tup', (self.binop(r[1], a, b), not self.case.less(b, a.n)))
            x = self.times(self.case.norm(a), self.case.norm(b)) if r[1] == 'Mul' else self.lin(a, b, 1 if r[1] == 'Add' else -1)
            ov = not self.case.fits(self.case.norm(x))
            return ('tup', (self.case.wrap(self.case.norm(x)), ov))
        if k == 'cast':
            return self.cast(r[1], self.op(fr, r[2]), r[3])
        if k == 'un':
            v = self.op(fr, r[2])
            if r[1] == 'Not':
                if isinstance(v, bool):
                    return not v
                if isinstance(v, A) and not v.s:
                    return self.lin(A((1 << v.n) - 1, {}, v.n, False), v, -1)
                if isinstance(v, A):
                    return self.lin(A(-1, {}, v.n, True), v, -1)
            if r[1] == 'Neg':
                if isinstance(v, A):
                    return self.case.wrap(self.lin(A(0, {}, v.n, v.s), v, -1))
                if v == ('nan',):
                    return v
                if v[0] == 'c':
                    return ('c', -v[1])
                return ('*', ('c', -1.0), v)
        if k == 'agg' and r[1] in ('tuple', 'array'):
            return ('tup', tuple(self.op(fr, o) for o in r[4]))
        if k == 'agg' and r[1] in ('adt', 'closure'):
            return ('adt', r[2], r[3], tuple(self.op(fr, o) for o in r[4]))
        if k == 'repeat' and r[2] <= 64:
            return ('tup', (self.op(fr, r[1]),) * r[2])
        if k in ('ref', 'addr'):
            return ('ref',) + self.addr(fr, r[2])
        if k == 'len':
            return A(len(self.parts(self.place(fr, r[1]))), {}, 64, False)
        if k == 'un' and r[1] == 'PtrMetadata':
            return A(len(self.parts(self.load(*self.op(fr, r[2])[1:]))), {}, 64, False)
        if k == 'discr':
            v = self.place(fr, r[1])
            if isinstance(v, tuple) and v and v[0] == 'adt':
                return A(v[2], {}, 64, False)
        raise Unknown('%s in the logarithm' % k)

    # an iterator over constants: ('adt', -2, 0, items)
    def seq(self, v):
        try:
            w = self.load(*v[1:]) if isinstance(v, tuple) and v[0] == 'ref' else v
        except Unknown:
            return None
        if isinstance(w, tuple) and w and w[0] == 'adt' and w[1] == -2:
            return list(w[3])
        if isinstance(w, tuple) and w and (w[0] == 'tup' or w[0] == 'adt' and w[1] >= 0 and self.P.types[w[1]]['k'] in ('array', 'slice')):
            if v is w:
                return list(w[-1])
            return [('ref', v[1], v[2], v[3] + (i,)) for i in range(len(w[-1]))]
        return None

    def iterate(self, what, a, depth):
        xs = self.seq(a[0])
        if what == 'next':
            if not xs:
                return ('adt', -1, 0, ())
            self.store(*a[0][1:], ('adt', -2, 0, tuple(xs[1:])))
            return ('adt', -1, 1, (xs[0],))
        if what == 'fold':
            v = a[1]
            for x in xs:
                v = self.closure(a[2], ('tup', (v, x)), depth)
            return v
        if what == 'rev':
            xs = xs[::-1]
        elif what in ('copied', 'cloned'):
            xs = [self.load(*x[1:]) for x in xs]
        return ('adt', -2, 0, tuple(xs))

    def range_next(self, r, d):
        v = self.load(*r[1:])
        if v[0] != 'adt' or len(v[3]) != 2 or not all(isinstance(x, A) for x in v[3]):
            raise Unknown('a range')
        lo, hi = (self.case.norm(x) for x in v[3])
        if lo.t or hi.t:
            raise Unknown('a loop in the logarithm')
        if lo.c >= hi.c:
            return ('adt', -1, 0, ())
        self.store(*r[1:], v[:3] + ((A(lo.c + 1, {}, lo.n, lo.s), hi),))
        return ('adt', -1, 1, (lo,))

    def closure(self, f, tup, depth):
        while isinstance(f, tuple) and f[0] == 'ref' and self.load(*f[1:])[0] == 'ref':
            f = self.load(*f[1:])
        c = self.load(*f[1:]) if f[0] == 'ref' else f
        a = list(self.parts(tup))
        if c[0] == 'fn':
            g = self.P.fns.get(self.P.types[c[1]]['fn'])
            if g is None or not g.body:
                raise Unknown('a function without a body')
            return self.call(g, a, depth + 1)
        d = self.P.types[c[1]] if c[0] == 'adt' and c[1] >= 0 else {}
        g = self.P.fns.get(d.get('fn')) if d.get('k') == 'closure' else None
        if g is None or not g.body:
            raise Unknown('a closure without a body')
        if self.P.types[g.locals[1]]['k'] == 'ref':
            env = f if f[0] == 'ref' else ('ref', {0: c}, 0, ())
        else:
            env = c
        a = [env] + a
        if g.argc == 2 and len(a) != 2:
            a = [env, tup]
        return self.call(g, a, depth + 1)

    def call(self, fn, args, depth=0):
        if depth > 8:
            raise Unknown('recursion')
        fr = {i + 1: a for i, a in enumerate(args)}
        bb = 0
        while True:
            st, term = fn.body[bb]
            for s in st:
                self.steps += 1
                if s[0] == '=':
                    v = self.rvalue(fr, s[2])
                    self.store(*self.addr(fr, s[1]), v)
                elif s[0] not in ('sl', 'sx', 'assume'):
                    raise Unknown('statement ' + s[0])
            if self.steps > 20000:
                raise Unknown('a loop in the logarithm')
            k = term[0]
            if k == 'goto':
                bb = term[1]
            elif k == 'ret':
                return fr.get(0)
            elif k == 'switch':
                v = self.op(fr, term[1])
                if isinstance(v, bool):
                    v = A(int(v), {}, 8, False)
                nxt = term[3]
                for val, b in term[2]:
                    x = int(val)
                    if v.s and x >> (v.n - 1):
                        x -= 1 << v.n
                    if self.binop('Eq', v, A(x, {}, v.n, v.s)):
                        nxt = b
                        break
                bb = nxt
            elif k == 'assert':
                if self.op(fr, term[1]) != term[2]:
                    raise Panics(term[3], self.P.loc(term[-1]))
                bb = term[5]
            elif k == 'drop':
                bb = term[2]
            elif k == 'call':
                if term[1][0] != 's':
                    raise Unknown('indirect call')
                d = self.P.types[term[1][1]]
                g = self.P.fns.get(d['fn'])
                a = [self.op(fr, o) for o in term[2]]
                n = g.defn if g else d['n'] or ''
                if n.endswith('f64>::to_bits'):
                    v = self.to_bits(a[0])
                elif n.endswith('f64>::from_bits'):
                    v = self.from_bits(a[0])
                elif n.endswith('f64>::is_nan'):
                    v = a[0] == ('nan',)
                elif n.endswith('f64>::is_sign_negative') and a[0] == ('x',):
                    v = bool(self.case.sign)
                elif n.endswith(('::wrapping_add', '::wrapping_sub')):
                    v = self.binop('Add' if n.endswith('add') else 'Sub', *a)
                elif n.endswith(('::wrapping_shl', '::wrapping_shr')):
                    v = self.binop('Shl' if n.endswith('shl') else 'Shr', *a)
                elif n.endswith(('::call', '::call_mut', '::call_once')) and 'Fn' in n or '{closure#' in n.split('::')[-1] and len(a) == 2 and isinstance(a[1], tuple) and a[1][0] == 'tup':
                    v = self.closure(a[0], a[1], depth)
                elif n.endswith('::into_iter') and isinstance(a[0], tuple) and a[0][0] == 'adt' and len(a) == 1 and 'ops::Range' in str(self.P.types[a[0][1]].get('n')):
                    v = a[0]
                elif n.endswith('::next') and 'Range' in n and isinstance(a[0], tuple) and a[0][0] == 'ref':
                    v = self.range_next(a[0], d)
                elif n.endswith(('[T]>::iter', '::into_iter', '::rev', '::copied', '::cloned', '::fold', '::next')) and self.seq(a[0]) is not None:
                    v = self.iterate(n.split('::')[-1], a, depth)
                elif n.endswith('f64>::mul_add'):
                    raise Unknown('a fused operation')
                elif g is not None and g.body:
                    v = self.call(g, a, depth + 1)
                else:
                    raise Unknown('call of %s in the logarithm' % n)
                self.store(*self.addr(fr, term[3]), v)
                if term[4] is None or term[4] < 0:
                    raise Panics('call of ' + n, self.P.loc(term[-1]))
                bb = term[4]
            else:
                raise Unknown('terminator ' + k)


# ---------------------------------------------------------------- Taylor models
def mulfx(a, b):
    return (a * b) >> SC


class TM:
    """polynomial in u in [-1, 1], fixed point, with a remainder radius"""
    __slots__ = ('p', 'r')

    def __init__(self, p, r=0):
        self.p, self.r = p, r

    def mag(self):
        return sum(abs(c) for c in self.p) + self.r

    def range(self):
        s = sum(abs(c) for c in self.p[1:]) + self.r
        return self.p[0] - s, self.p[0] + s

    def __add__(self, o):
        n = max(len(self.p), len(o.p))
        return TM([(self.p[i] if i < len(self.p) else 0) + (o.p[i] if i < len(o.p) else 0) for i in range(n)], self.r + o.r)

    def __neg__(self):
        return TM([-c for c in self.p], self.r)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        q = [0] * min(DEG + 1, len(self.p) + len(o.p) - 1)
        ex = 0
        for i, a in enumerate(self.p):
            if not a:
                continue
            for j, b in enumerate(o.p):
                if not b:
                    continue
                if i + j <= DEG:
                    q[i + j] += a * b
                else:
                    ex += abs(a * b)
        r = (ex >> SC) + 1 + mulfx(self.mag(), o.r) + mulfx(o.mag(), self.r) + 4 + len(q) + 1
        if not self.r and not o.r and not ex and all(c % ONE == 0 for c in q):
            r = 0
        return TM([c >> SC for c in q], r)

    def inv(self):
        c0 = self.p[0]
        lo, hi = self.range()
        if lo <= 0 <= hi:
            raise Unknown('division by a number that can be zero')
        q = [(ONE * ONE) // c0]
        for n in range(1, DEG + 1):
            s = 0
            for i in range(1, min(n, len(self.p) - 1) + 1):
                s += self.p[i] * q[n - i]
            q.append(-((s >> SC) * ONE // c0))
        Q = TM(q)
        res = (TM([ONE]) - self * Q).mag()
        if res >= ONE // 2:
            raise Unknown('division')
        return TM(q, mulfx(Q.mag(), (res * ONE) // (ONE - res) + 1) + 2)


def fx(f):
    """a double as fixed point: (value, error)"""
    n, d = f.as_integer_ratio()
    v = (n << SC) // d
    return v, 0 if (n << SC) % d == 0 else 1


def ln_fx(num, den):
    """ln(num/den) in fixed point, to a few units"""
    k = 0
    while num > den * 3 // 2:
        den *= 2
        k += 1
    while num * 3 < den * 2:
        num *= 2
        k -= 1
    z = ((num - den) * ONE) // (num + den)
    z2 = mulfx(z, z)
    s, t, i = 0, z, 1
    while t and t != -1:
        s += t // i
        t = mulfx(t, z2)
        i += 2
    return 2 * s + (k * LN2 if k else 0)


def _ln2():
    # ln 2 = 2 atanh(1/3)
    s, t, i = 0, (1 << (SC + 40)) // 3, 1
    while t:
        s += t // i
        t //= 9
        i += 2
    return (2 * s) >> 40


LN2 = _ln2()
LNERR = 4000


class Num:
    """a computed quantity on a piece: f^n * (a + k*b), error |f|^n * (ea + |k|*eb)"""
    __slots__ = ('n', 'a', 'b', 'ea', 'eb', 'ex')

    def __init__(self, n, a, b=None, ea=0, eb=0, ex=False):
        self.n, self.a, self.b, self.ea, self.eb, self.ex = n, a, b, ea, eb, ex


def pow2(f):
    return f != 0 and abs(math.frexp(f)[0]) == 0.5


class Piece:
    """x = c + h*u; evaluation of expressions over it.  near: x - 1 is small, orders are kept"""

    def __init__(self, c, h, k0, near):
        self.c, self.h, self.k0, self.near = c, h, k0, near
        self.memo = {}
        self.fm = h if near else None  # bound of |f|

    def x(self):
        # c and h are exact in fixed point
        return Num(0, TM([self.c, self.h]), ex=True)

    def ev(self, e):
        r = self.memo.get(e)
        if r is None:
            r = self.memo[e] = self.ev1(e)
        return r

    def ev1(self, e):
        k = e[0]
        if k == 'c':
            v, er = fx(e[1])
            return Num(0, TM([v], er), ex=True)
        if k == 'X':
            return self.x()
        if k == 'K':
            if self.k0:
                return Num(0, TM([0]), ex=True)
            return Num(0, TM([0]), TM([ONE]), ex=True)
        a, b = self.ev(e[1]), self.ev(e[2])
        if k == '-':
            if e[2][0] == 'c' and e[1] == ('X',) and not b.a.r:
                # exact for arguments within a factor of two
                lo, hi = a.a.range()
                v = b.a.p[0]
                if v > 0 and 2 * lo >= v and hi <= 2 * v:
                    return self.order(Num(0, a.a - b.a, ex=True))
            b = Num(b.n, -b.a, -b.b if b.b else None, b.ea, b.eb, b.ex)
            k = '+'
        if k == '+':
            return self.add(a, b)
        if k == '*':
            for p, q, ep in ((a, b, e[1]), (b, a, e[2])):
                if self.zero(p):
                    return Num(0, TM([0]), ex=True)
                if ep[0] == 'c' and pow2(ep[1]):
                    return Num(q.n, q.a * p.a, q.b * p.a if q.b else None, mulfx(q.ea, abs(p.a.p[0])) + 1 if q.ea else 0, mulfx(q.eb, abs(p.a.p[0])) + 1 if q.eb else 0, q.ex)
            return self.mul(a, b, e)
        if k == '/':
            return self.div(a, b)
        raise Unknown('float operation ' + k)

    def zero(self, v):
        return v.ex and not v.b and not v.a.r and not v.ea and not any(v.a.p)

    def order(self, v):
        if not self.near or v.a.r or v.b or v.a.p[0] or len(v.a.p) < 2:
            return v
        # f = h*u exactly
        q = []
        for c in v.a.p[1:]:
            if (c << SC) % self.h:
                return v
            q.append((c << SC) // self.h)
        return Num(1, TM(q), None, v.ea, v.eb, v.ex)

    def lift(self, v, n):
        """as a multiple of |f|^n"""
        d = v.n - n
        a, ea = v.a, v.ea
        for _ in range(d):
            a = a * TM([0, self.h])
            ea = mulfx(ea, self.h) + 1
        return Num(n, a, v.b, ea, v.eb, v.ex)

    def small(self, n, m):
        """no operation underflows: |f| is at least 2^-53 where orders are kept"""
        if n * 53 > 900:
            raise Unknown('underflow')

    def add(self, a, b):
        if self.zero(a):
            return b
        if self.zero(b):
            return a
        n = min(a.n, b.n)
        a, b = self.lift(a, n), self.lift(b, n)
        v = a.a + b.a
        w = a.b + b.b if a.b and b.b else a.b or b.b
        ea, eb = a.ea + b.ea, a.eb + b.eb
        ea += mulfx(v.mag() + ea, U) + 1
        if w:
            eb += mulfx(w.mag() + eb, U) + 1
        self.small(n, v)
        return Num(n, v, w, ea, eb)

    def mul(self, a, b, e):
        if a.b and b.b:
            raise Unknown('square of the exponent')
        if b.b:
            a, b = b, a
        n = a.n + b.n
        v = a.a * b.a
        ea = mulfx(a.a.mag(), b.ea) + mulfx(b.a.mag(), a.ea) + mulfx(a.ea, b.ea) + 3
        eb = 0
        w = None
        if a.b:
            w = a.b * b.a
            eb = mulfx(a.b.mag(), b.ea) + mulfx(b.a.mag(), a.eb) + mulfx(a.eb, b.ea) + 3
        # an integer below 2^11 times a constant with spare bits is exact
        for p, q in ((e[1], e[2]), (e[2], e[1])):
            if p[0] == 'K' and q[0] == 'c':
                m, _ = math.frexp(q[1])
                if (int(m * (1 << 53)) % (1 << 11)) == 0:
                    return Num(n, v, w, 0, 0)
        ea += mulfx(v.mag() + ea, U) + 1
        if w:
            eb += mulfx(w.mag() + eb, U) + 1
        self.small(n, v)
        return Num(n, v, w, ea, eb)

    def div(self, a, b):
        if b.b or b.n:
            raise Unknown('division by a small number')
        i = b.a.inv()
        v = a.a * i
        w = a.b * i if a.b else None
        lo, hi = b.a.range()
        m = min(abs(lo), abs(hi)) - b.ea
        if m <= 0:
            raise Unknown('division')
        # (a + ea)/(b + eb) - a/b = (ea - v*eb)/(b + eb)
        ea = ((a.ea + mulfx(v.mag(), b.ea) + 2) * ONE) // m + 1
        eb = 0
        if w:
            eb = ((a.eb + mulfx(w.mag(), b.ea) + 2) * ONE) // m + 1
        ea += mulfx(v.mag() + ea, U) + 1
        if w:
            eb += mulfx(w.mag() + eb, U) + 1
        self.small(a.n, v)
        return Num(a.n, v, w, ea, eb)

    def ln(self, n):
        """ln of the piece, divided by f^n (n <= 1)"""
        if n == 0:
            c, h = self.c, self.h
            l = ln_fx(c, ONE)
            p = [l]
            q = (h * ONE) // c
            t = ONE
            for i in range(1, DEG + 1):
                t = mulfx(t, q)
                p.append(t // i if i % 2 else -(t // i))
            r = mulfx(t, abs(q)) * 2 + LNERR + 4 * DEG
            return TM(p, r)
        # ln(1+f)/f = sum (-f)^i/(i+1), f = h*u
        p, t = [], ONE
        for i in range(DEG + 1):
            p.append(t // (i + 1) if i % 2 == 0 else -(t // (i + 1)))
            t = mulfx(t, self.h)
        return TM(p, 2 * t + 4 * DEG)


class LogFn:
    def __init__(self, prog):
        CURRENT.append(self)
        self.P = prog
        self.rec = Rec()
        self.stats = dict(states=0, steps=0, paths=0, forks=0, loops=0, fns=set(), runs=0)
        self.memo = {}

    def target(self):
        """the function that the estimators call as the logarithm"""
        c = [f for f in self.P.fns.values() if f.crate == 'hyperloglogplus' and f.body and f.name == 'hyperloglogplus::log::log']
        if len(c) != 1:
            raise Unknown('%d functions log::log' % len(c))
        return c[0]

    def cases(self, fn):
        """[(case, result)] covering every double"""
        full = (0, (1 << 20) - 1), (0, (1 << 32) - 1)
        todo = []
        for sign in (0, 1):
            todo.append(Case(dict(E=(0, 0), M=(0, 0), L=(0, 0)), sign))
            todo.append(Case(dict(E=(0, 0), M=(1, full[0][1]), L=full[1]), sign))
            todo.append(Case(dict(E=(0, 0), M=(0, 0), L=(1, full[1][1])), sign))
            todo.append(Case(dict(E=(1, 2046), M=full[0], L=full[1]), sign))
            todo.append(Case(dict(E=(2047, 2047), M=(0, 0), L=(0, 0)), sign))
            todo.append(Case(dict(E=(2047, 2047), M=(1, full[0][1]), L=full[1]), sign))
            todo.append(Case(dict(E=(2047, 2047), M=(0, 0), L=(1, full[1][1])), sign))
        out = []
        n = 0
        while todo:
            c = todo.pop()
            n += 1
            if n > 3000:
                raise Unknown('too many cases')
            r = Run(self, c)
            try:
                v = r.call(fn, [r.arg()])
            except Split as s:
                self.stats['forks'] += 1
                lo, hi = c.rng[s.sym]
                for a, b in ((lo, s.at - 1), (s.at, hi)):
                    d = c.copy()
                    d.rng[s.sym] = (a, b)
                    todo.append(d)
                continue
            except Panics as p:
                out.append((c, ('panic',) + p.args))
                continue
            finally:
                self.stats['steps'] += r.steps
            out.append((c, v))
        self.stats['paths'] += len(out)
        self.stats['runs'] += n
        return out

    def name(self, c):
        r = c.rng
        return '%sexponent %d..%d, upper mantissa 0x%05x..0x%05x, lower 0x%x..0x%x' % (('negative, ' if c.sign else ''), *r['E'], *r['M'], *r['L'])

    def do_log(self):
        rec = self.rec
        ob = 'the logarithm: '
        try:
            fn = self.target()
            self.stats['fns'].add(fn.name)
            cs = self.cases(fn)
        except Unknown as u:
            rec.add(['C23'], ob + 'analysis', 'unknown', str(u))
            return
        for c, v in cs:
            r = c.rng
            if v and v[0] == 'panic':
                rec.add(['C23', 'C18'], ob + 'no panic', 'refuted', 'it panics (%s) for %s' % (v[1], self.name(c)), '%s at %s' % (fn.name, v[2]))
                continue
            spec = None
            if r['E'] == (2047, 2047):
                inf = r['M'] == (0, 0) and r['L'] == (0, 0)
                spec = ('c', math.inf) if inf and not c.sign else ('nan',)
                what = 'infinity and NaN'
            elif r['E'] == (0, 0) and r['M'] == (0, 0) and r['L'] == (0, 0):
                spec, what = ('c', -math.inf), 'zero'
            elif c.sign:
                spec, what = ('nan',), 'negative numbers'
            elif r['E'] == (1023, 1023) and r['M'] == (0, 0) and r['L'] == (0, 0):
                spec, what = ('c', 0.0), 'one'
            if spec is not None:
                ok = v == spec or what == 'one' and v[0] == 'c' and v[1] == 0
                if not ok and what == 'one' and v[0] not in ('c', 'nan'):
                    self.numeric(c, v, ob)
                    continue
                sure = v in (('x',), ('nan',)) or v[0] == 'c'
                if not sure and what == 'infinity and NaN' and not any(s[0] != 'B' and len(s) > 1 for s in r):
                    # at one of these arguments
                    d = Case({s: (r[s][0],) * 2 for s in 'EML'}, c.sign)
                    try:
                        w = Run(self, d)
                        w = w.call(fn, [w.arg()])
                        if w[0] == 'c' and w != spec:
                            v, sure = w, True
                    except (Split, Panics, Unknown):
                        pass
                rec.add(['C23'], ob + 'special values (%s)' % what, 'proved' if ok else 'refuted' if sure else 'unknown', 'the result for %s is %s' % (self.name(c), v[1] if v[0] == 'c' else 'the argument' if v == ('x',) else 'NaN' if v == ('nan',) else 'not determined'), fn.name)
                continue
            try:
                self.numeric(c, v, ob)
            except Unknown as u:
                rec.add(['C23'], ob + 'accuracy', 'unknown', '%s [%s]' % (u, self.name(c)))

    # ---- accuracy on one case
    def numeric(self, c, v, ob):
        rec = self.rec
        fn = 'hyperloglogplus::log::log'
        if v[0] in ('c', 'nan') or v == ('x',):
            one = all(c.rng[s][0] == c.rng[s][1] for s in 'EML')
            val = v[1] if v[0] == 'c' else None
            if one and val is not None:
                x = f_of(c.rng['E'][0] << 52 | c.rng['M'][0] << 32 | c.rng['L'][0])
                ok = abs(val - math.log(x)) <= 2.0**-51 * abs(math.log(x))
                rec.add(['C23'], ob + 'accuracy', 'proved' if ok else 'refuted', 'the result for %r is %r' % (x, val), fn)
                return
            rec.add(['C23'], ob + 'accuracy', 'refuted', 'the result is %s for all of %s' % (v, self.name(c)), fn)
            return
        if c.rng['E'][0] == c.rng['E'][1] and 1 <= c.rng['E'][0] <= 2046 and not any(len(s) > 1 and s[0] in 'EML' for s in c.rng):
            # the argument itself, its exponent being known
            y = ('m', c.rng['E'][0], c.norm(A(0, {'M': 1 << 32, 'L': 1}, 64, False)).key())

            def red(e):
                if e == ('x',):
                    return y
                return (e[0], red(e[1]), red(e[2])) if e[0] in ('+', '-', '*', '/') else e
            v = red(v)
        xs, ks = set(), set()

        def leaves(e):
            if e[0] in 'mx':
                xs.add(e)
            elif e[0] == 'k':
                ks.add(e)
            elif e[0] != 'c':
                leaves(e[1])
                leaves(e[2])
        leaves(v)
        if len(xs) != 1 or len(ks) > 1:
            raise Unknown('the result depends on %d reduced arguments and %d exponents' % (len(xs), len(ks)))
        x = xs.pop()
        if x == ('x',):
            raise Unknown('the argument is not reduced')
        _, ec, (mc, mt) = x
        names = [s for s, k in mt]
        suf = ''
        if names and len(names[0]) > 1 or c.rng['E'] == (0, 0):
            sub = [s for s in c.rng if s[0] == 'E' and len(s) > 1]
            if len(sub) != 1:
                raise Unknown('scaling of a subnormal number')
            suf = sub[0][1:]
        # the mantissa of the reduced argument is that of the argument
        want = c.norm(A(0, {'M' + suf: 1 << 32, 'L' + suf: 1}, 64, False))
        if (mc, mt) != want.key():
            d = Run(self, c).lin(A(mc, dict(mt), 80, True), A(want.c, want.t, 80, True), -1)
            lo, hi = c.bounds(c.norm(d))
            d = c.norm(d)
            if lo > 1 << 3 or hi < -(1 << 3) or any(c.attained(a) and abs(k) * (c.fields[a][1] - 1) >= 1 << 13 and
                                                     not any(b != a and not c.attained(b) for b in d.t) for a, k in d.t.items() if a[0] == 'B'):
                rec.add(['C23'], ob + 'argument reduction', 'refuted', 'the mantissa of the reduced argument differs from that of the argument [%s]' % self.name(c), fn)
                return
            raise Unknown('the mantissa of the reduced argument is not that of the argument')
        rec.add(['C23'], ob + 'argument reduction', 'proved')
        # ln x = ln(reduced) + kt * ln 2, kt = E - ec (- scaling)
        kt = c.norm(A(-ec - (int(suf) if suf else 0), {'E' + suf: 1}, 64, True))
        if ks:
            kc, kk = ks.pop()[1]
            if dict(kk) != kt.t:
                raise Unknown('the exponent is not that of the argument')
            delta = kc - kt.c
        else:
            # no multiple of ln 2 is added
            delta = None
        klo, khi = c.bounds(kt)
        lo = ONE + ((c.rng['M' + suf][0] << 32 | c.rng['L' + suf][0]) << (SC - 52))
        hi = ONE + ((c.rng['M' + suf][1] << 32 | c.rng['L' + suf][1]) << (SC - 52))
        s = ec - 1023
        lo, hi = (lo << s, hi << s) if s >= 0 else (lo >> -s, hi >> -s)

        def ren(e):
            if e[0] == 'm':
                return ('X',)
            if e[0] == 'k':
                return ('K',)
            if e[0] == 'c':
                return e
            return (e[0], ren(e[1]), ren(e[2]))
        g = ren(v)
        for a, b in ((klo, min(khi, -1)), (0, 0), (max(klo, 1), khi)):
            if a > b or not klo <= a <= khi:
                continue
            key = (g, lo, hi, a, b, delta)
            if key not in self.memo:
                self.memo[key] = self.accuracy(g, lo, hi, a, b, delta)
            bad, worst, n = self.memo[key]
            self.stats['points'] = self.stats.get('points', 0) + n
            if bad is None:
                rec.add(['C23'], ob + 'relative error at most 2^-%d' % LIMIT_BITS, 'proved')
            else:
                rec.add(['C23'], ob + 'relative error at most 2^-%d' % LIMIT_BITS, bad[0], '%s [%s]' % (bad[1], self.name(c)), fn)

    def accuracy(self, g, lo, hi, k1, k2, delta):
        """worst relative error for reduced arguments in [lo, hi] and k in [k1, k2]"""
        W = ONE >> 9
        pieces = []
        k0 = k1 == k2 == 0
        x = lo - lo % W
        while x <= hi:
            a, b = x, x + W
            if k0 and abs(a + W // 2 - ONE) < W:
                a, b = ONE - W, ONE + W
                if (a, b, True) not in pieces:
                    pieces.append((a, b, True))
            else:
                pieces.append((max(a, lo), min(b, hi), False))
            x += W
        worst = 0
        bad = None
        lim = ONE >> LIMIT_BITS
        for a, b, near in pieces:
            if near:
                c, h = ONE, W
            else:
                c, h = (a + b) // 2, (b - a + 1) // 2 + 1
            p = Piece(c, h, k0 and delta in (0, None), near)
            r = p.ev(g)
            n = 1 if near else 0
            if r.n < n:
                # the result does not vanish with the logarithm
                r = p.order(r) if r.n == 0 else r
                if r.n < n:
                    # nearby 1 the absolute error must vanish too
                    e0 = abs(r.a.p[0])
                    st = 'refuted' if e0 > r.a.r + r.ea else 'unknown'
                    bad = bad or (st, 'the result near 1 does not tend to 0')
                    continue
            r = p.lift(r, n) if r.n > n else r
            l = p.ln(n)
            A0 = r.a
            B = r.b
            if delta and B is not None:
                # the exponent used is k + delta
                A0 = A0 + B * TM([delta * ONE])
            d = A0 - l
            if k0:
                if delta and B is not None:
                    err = d.mag() + r.ea + abs(delta) * r.eb
                    low = max(0, -d.range()[1], d.range()[0]) - r.ea - abs(delta) * r.eb
                else:
                    err = d.mag() + r.ea
                    low = max(0, -d.range()[1], d.range()[0]) - r.ea
                ll, lh = l.range()
                den = max(0, ll, -lh)
                denh = max(abs(ll), abs(lh))
                where = 'x in [%.17g, %.17g]' % (a / ONE, b / ONE)
                worst, bad = self.judge(err, low, den, denh, lim, worst, bad, where)
            else:
                db = (B if B is not None else TM([0])) - TM([LN2], LNERR)
                for k in {k1, k2}:
                    kk = abs(k)
                    w = d + db * TM([k * ONE])
                    ke = kk + abs(delta or 0)
                    err = w.mag() + r.ea + ke * r.eb
                    low = max(0, -w.range()[1], w.range()[0]) - r.ea - ke * r.eb
                    t = l + TM([k * LN2], kk * LNERR)
                    ll, lh = t.range()
                    den = max(0, ll, -lh)
                    denh = max(abs(ll), abs(lh))
                    where = 'x in [%.17g, %.17g] times 2^%d' % (a / ONE, b / ONE, k)
                    worst, bad = self.judge(err, low, den, denh, lim, worst, bad, where)
        return bad, worst, len(pieces)

    def judge(self, err, low, den, denh, lim, worst, bad, where):
        if den <= 0:
            return worst, bad or ('unknown', 'the logarithm can vanish for ' + where)
        rel = (err * ONE) // den
        worst = max(worst, rel)
        if rel > lim and (bad is None or bad[0] != 'refuted'):
            if low > 0 and (low * ONE) // denh > lim:
                bad = ('refuted', 'the relative error is at least 2^%.1f for %s' % (math.log2(max(low * ONE // denh, 1)) - SC, where))
            else:
                bad = bad or ('unknown', 'the relative error is only bounded by 2^%.1f for %s' % (math.log2(rel) - SC, where))
        return worst, bad
