"""Abstract interpreter for dumped MIR.

Values are immutable; a State maps cells to values and carries the facts of its
partition cell.  Paths are split only where a condition is not decided by the
facts; loops over abstract sequences are solved by a fixpoint over loop-head
templates (see loop_abs).
"""
import struct, sys
from dom import *
from mir import *

sys.setrecursionlimit(20000)


TOTAL = [0]


class Int:
    __slots__ = ('n', 's', 't')

    def __init__(self, n, s, t):
        self.n = n
        self.s = s
        self.t = t

    def __repr__(self):
        return '%s%d:%r' % ('i' if self.s else 'u', self.n, self.t)

    def __eq__(self, o):
        return isinstance(o, Int) and (self.n, self.s, self.t) == (o.n, o.s, o.t)

    def __hash__(self):
        return hash((self.n, self.s, self.t))


class Flt:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'f:%r' % (self.e,)

    def __eq__(self, o):
        return isinstance(o, Flt) and self.e == o.e

    def __hash__(self):
        return hash(self.e)


class Cond:
    """an undecided boolean: k is ('i',op,a,b) ('f',op,a,b) ('not',c) ('and',c,d) ('or',c,d) ('xor',c,d) ('u',name)"""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return 'Cond%r' % (self.k,)

    def __eq__(self, o):
        return isinstance(o, Cond) and self.k == o.k

    def __hash__(self):
        return hash(self.k)


class Agg:
    __slots__ = ('ty', 'var', 'fs')

    def __init__(self, ty, var, fs):
        self.ty = ty
        self.var = var
        self.fs = tuple(fs)

    def __repr__(self):
        return '{t%s v%s %s}' % (self.ty, self.var, ', '.join(map(repr, self.fs)))

    def __eq__(self, o):
        return isinstance(o, Agg) and self.var == o.var and self.fs == o.fs

    def __hash__(self):
        return hash((self.var, self.fs))


class Ref:
    """meta: None, or (start, len) terms for slices"""
    __slots__ = ('cell', 'path', 'meta')

    def __init__(self, cell, path=(), meta=None):
        self.cell = cell
        self.path = path
        self.meta = meta

    def __repr__(self):
        return '&%s%s%s' % (self.cell, list(self.path) if self.path else '', self.meta or '')

    def __eq__(self, o):
        return isinstance(o, Ref) and (self.cell, self.path, self.meta) == (o.cell, o.path, o.meta)

    def __hash__(self):
        return hash((self.cell, self.path, self.meta))


class Str:
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return repr(self.s)

    def __eq__(self, o):
        return isinstance(o, Str) and self.s == o.s

    def __hash__(self):
        return hash(self.s)


class FnV:
    __slots__ = ('ty',)

    def __init__(self, ty):
        self.ty = ty

    def __eq__(self, o):
        return isinstance(o, FnV) and self.ty == o.ty

    def __hash__(self):
        return hash(('fnv', self.ty))

    def __repr__(self):
        return 'fn t%s' % self.ty


class Obj:
    """native object: kind and a tuple of fields (values, tuples, plain data)"""
    __slots__ = ('kind', 'fs')

    def __init__(self, kind, *fs):
        self.kind = kind
        self.fs = fs

    def __repr__(self):
        return '<%s %s>' % (self.kind, ', '.join(map(repr, self.fs)))

    def __eq__(self, o):
        return isinstance(o, Obj) and self.kind == o.kind and self.fs == o.fs

    def __hash__(self):
        return hash((self.kind, self.fs))


class _Undef:
    def __repr__(self):
        return 'undef'


UNDEF = _Undef()
UNIT = Agg(-1, 0, ())


class Frame:
    __slots__ = ('id', 'fn', 'bb', 'i', 'dest', 'ret')

    def __init__(self, id, fn, bb, i, dest, ret):
        self.id = id
        self.fn = fn
        self.bb = bb
        self.i = i
        self.dest = dest
        self.ret = ret

    def copy(self):
        return Frame(self.id, self.fn, self.bb, self.i, self.dest, self.ret)


class State:
    __slots__ = ('mem', 'frames', 'F', 'log', 'n', 'pops', 'out', 'newblock', 'skip', 'tag', 'meta', 'taint', 'trace')

    def __init__(self):
        self.mem = {}
        self.frames = []
        self.F = Facts()
        self.log = ()
        self.n = 0
        self.pops = 0
        self.out = None
        self.newblock = False
        self.skip = None
        self.tag = None
        self.meta = {}
        self.taint = False
        self.trace = ()

    def clone(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.frames = [f.copy() for f in self.frames]
        s.F = self.F.copy()
        s.log = self.log
        s.n = self.n
        s.pops = self.pops
        s.out = self.out
        s.newblock = self.newblock
        s.skip = self.skip
        s.tag = self.tag
        s.meta = dict(self.meta)
        s.taint = self.taint
        s.trace = self.trace
        return s

    def fresh(self):
        self.n += 1
        return self.n


# operations that pass over all elements, and that allocate
HEAVY = re.compile(r'(::collect|::from_iter|::extend|::sort\w*|::dedup\w*|::retain|::clone|::to_vec|::to_owned|::count|::sum|::fold|::max|::min|::last|::nth)$')
ALLOC = re.compile(r'(Vec::<T(, A)?>::(with_capacity|reserve|push|extend_from_slice)|vec::from_elem|Box::<T>::new|Registers(Plus)?::with_count|DifIntVec::with_capacity|String::from|fmt::format)$')


CMPOPS = {'Eq': 'eq', 'Ne': 'ne', 'Lt': 'lt', 'Le': 'le', 'Gt': 'gt', 'Ge': 'ge'}


class Interp:
    def __init__(self, prog, natives=None):
        self.p = prog
        self.natives = natives or []
        self._ncache = {}
        self.steps = 0
        self.max_steps = 3000000
        self.max_paths = 20000
        self.stats = {'steps': 0, 'calls': 0, 'forks': 0, 'fns': set(), 'loops': 0, 'asserts': 0}
        self.consts = {}
        self.dbg = False
        self.loop_cap = 140
        self.subsume = True
        self.hooks = {}

    # ------------------------------------------------------------ types
    def ty(self, t):
        return self.p.types[t]

    def int_of(self, t):
        d = self.p.types[t]
        k = d['k']
        if k == 'int':
            return d['bits'], d['signed']
        if k == 'char':
            return 32, False
        return None

    def mkint(self, n, s, v):
        return Int(n, s, v)

    def usize(self, v):
        return Int(64, False, v)

    def opt(self, v=None, ty=None):
        return Agg(ty, 0, ()) if v is None else Agg(ty, 1, (v,))

    # ------------------------------------------------------------ constants
    def const(self, S, c):
        if 'i' in c:
            t = self.p.types[c['t']]
            v = int(c['i'])
            k = t['k']
            if k == 'bool':
                return bool(v)
            if k == 'float':
                if t['n'] == 'f32' or t.get('size') == 4:
                    return Flt(struct.unpack('<f', struct.pack('<I', v))[0])
                return Flt(struct.unpack('<d', struct.pack('<Q', v))[0])
            if k in ('ptr', 'ref', 'fnptr'):
                return Obj('addr', v)
            n, s = self.int_of(c['t'])
            if s and v >> (n - 1):
                v -= 1 << n
            return Int(n, s, v)
        if 'agg' in c:
            return Agg(c['t'], c.get('var', 0), [self.const(S, x) for x in c['agg']])
        if 'z' in c:
            return self.zst(c['z'])
        if 'ref' in c:
            a = c['ref']
            if 'static' in c and self.p.mutable_static(c['t']):
                return Ref(('static', c['static']))
            cell = ('a', a)
            if cell not in self.consts:
                al = self.p.allocs[str(a)]
                if isinstance(al, dict) and 'slice' in al:
                    self.consts[cell] = Obj('vlist', *[self.const(S, x) for x in al['slice']])
                else:
                    self.consts[cell] = self.const(S, al)
            v = self.consts[cell]
            al = self.p.allocs[str(a)]
            if isinstance(al, dict) and 'slice' in al:
                return Ref(cell, (), (0, len(v.fs)))
            return Ref(cell)
        if 'str' in c:
            return Str(c['str'])
        if 'fn' in c:
            return Obj('fnptr', c['fn'])
        if 'static' in c:
            return Ref(('static', c['static']))
        raise Unknown('constant %s' % str(c)[:60])

    def zst(self, t):
        d = self.p.types[t]
        k = d['k']
        if k == 'fndef':
            return FnV(t)
        if k == 'closure':
            return Agg(t, 0, ())
        if k == 'tuple':
            return Agg(t, 0, [self.zst(x) for x in d['e']])
        if k == 'adt':
            if d['v']:
                return Agg(t, 0, [self.zst(f[1]) for f in d['v'][0]['f']])
            return Agg(t, 0, ())
        if k == 'array':
            return Agg(t, 0, [self.zst(d['e'])] * (d['len'] if d['len'] < 100 else 0))
        return Agg(t, 0, ())

    # ------------------------------------------------------------ memory
    def load_cell(self, S, cell):
        if isinstance(cell, tuple) and cell[0] == 'a':
            return self.consts[cell]
        if cell in S.mem:
            return S.mem[cell]
        if isinstance(cell, tuple) and cell[0] == 'static':
            raise Unknown('static ' + str(cell[1]))
        return UNDEF

    def proj(self, S, v, e):
        """one projection step on a value"""
        if e[0] == 'f':
            if isinstance(v, Agg):
                if e[1] < len(v.fs):
                    return v.fs[e[1]]
                raise Unknown('field of a partial aggregate')
            if isinstance(v, Obj):
                h = self.hooks.get(('field', v.kind))
                if h:
                    return h(self, S, v, e[1])
            raise Unknown('field %s of %r' % (e[1], type(v).__name__ if not isinstance(v, Obj) else v.kind))
        if e[0] == 'i':
            return self.elem(S, v, e[1])
        raise Unknown('projection %r' % (e,))

    def elem(self, S, v, t):
        t = S.F.simp(t)
        if isinstance(v, Agg) or isinstance(v, Obj) and v.kind == 'vlist':
            n = len(v.fs)
            if isinstance(t, int):
                if 0 <= t < n:
                    return v.fs[t]
                raise Unknown('index out of range in unchecked access')
            lo, hi = S.F.interval(t)
            lo, hi = max(lo, 0), min(hi, n - 1)
            if hi - lo > 300:
                raise Unknown('table access at an unbounded index')
            if all(x == v.fs[lo] for x in v.fs[lo:hi + 1]):
                return v.fs[lo]
            raise Fork([(lambda T, k=k: T.F.assume('eq', t, k)) for k in range(lo, hi + 1)], 'table index')
        if isinstance(v, Obj) and v.kind == 'varr':
            base, ln, writes, elt = v.fs
            for (wi, wv) in reversed(writes):
                r = S.F.decide('eq', wi, t)
                if r is True:
                    return wv
                if r is None:
                    raise Fork([lambda T: T.F.assume('eq', wi, t), lambda T: T.F.assume('ne', wi, t)], 'array index')
            if base[0] == 'rep':
                return base[1]
            key = ('el', base[1], t)
            if key not in SYMS:
                sym(key, elt[0])
            return Int(elt[0], elt[1], Aff(0, ((('y', key), 1),)))
        if isinstance(v, Obj) and v.kind == 'vbytes':
            d = S.F.simp(S.F.sub_terms(t, v.fs[0]))
            if isinstance(d, int) and 0 <= d < len(v.fs[1]):
                return v.fs[1][d]
            raise Unknown('byte of the list at an unknown position')
        raise Unknown('index into %r' % (v.kind if isinstance(v, Obj) else type(v).__name__))

    def read_path(self, S, v, path):
        for e in path:
            v = self.proj(S, v, e)
        return v

    def write_path(self, S, v, path, new):
        if not path:
            return new
        e = path[0]
        if e[0] == 'f':
            if v is UNDEF:
                v = Agg(None, None, [UNDEF] * (e[1] + 1))
            if isinstance(v, Agg):
                fs = list(v.fs)
                while len(fs) <= e[1]:
                    fs.append(UNDEF)
                fs[e[1]] = self.write_path(S, fs[e[1]], path[1:], new)
                return Agg(v.ty, v.var, fs)
            if isinstance(v, Obj):
                h = self.hooks.get(('wfield', v.kind))
                if h:
                    return h(self, S, v, e[1], path[1:], new)
            raise Unknown('field write to %r' % (v.kind if isinstance(v, Obj) else type(v).__name__))
        if e[0] == 'i':
            t = S.F.simp(e[1])
            if isinstance(v, Agg) or isinstance(v, Obj) and v.kind == 'vlist':
                if not isinstance(t, int):
                    lo, hi = S.F.interval(t)
                    lo, hi = max(lo, 0), min(hi, len(v.fs) - 1)
                    if hi - lo > 64:
                        raise Unknown('store at unbounded index')
                    raise Fork([(lambda T, k=k: T.F.assume('eq', t, k)) for k in range(lo, hi + 1)], 'store index')
                fs = list(v.fs)
                fs[t] = self.write_path(S, fs[t], path[1:], new)
                return Agg(v.ty, v.var, fs) if isinstance(v, Agg) else Obj('vlist', *fs)
            if isinstance(v, Obj) and v.kind == 'varr':
                base, ln, writes, elt = v.fs
                if path[1:]:
                    new = self.write_path(S, self.elem(S, v, t), path[1:], new)
                w2 = []
                for (wi, wv) in writes:
                    r = S.F.decide('eq', wi, t)
                    if r is None:
                        raise Fork([lambda T: T.F.assume('eq', wi, t), lambda T: T.F.assume('ne', wi, t)], 'array index')
                    if r is False:
                        w2.append((wi, wv))
                w2.append((t, new))
                return Obj('varr', base, ln, tuple(w2), elt)
        raise Unknown('store through %r into %s' % (e, v.kind if isinstance(v, Obj) else type(v).__name__))

    def load(self, S, r):
        if not isinstance(r, Ref):
            raise Unknown('load through %r' % type(r).__name__)
        return self.read_path(S, self.load_cell(S, r.cell), r.path)

    def store(self, S, r, v):
        if not isinstance(r, Ref):
            raise Unknown('store through %r' % type(r).__name__)
        if isinstance(r.cell, tuple) and r.cell[0] == 'a':
            raise Unknown('store to constant memory')
        S.mem[r.cell] = self.write_path(S, self.load_cell(S, r.cell), r.path, v)

    def place_ref(self, S, fr, p):
        """(Ref) of a MIR place"""
        r = Ref((fr.id, p[0]))
        for e in p[1]:
            if e == '*':
                v = self.load(S, r)
                if isinstance(v, Obj) and v.kind == 'box':
                    v = v.fs[0]
                if not isinstance(v, (Ref, Str)):
                    raise Unknown('dereference of %s' % (v.kind if isinstance(v, Obj) else type(v).__name__))
                r = v
                if isinstance(v, Str):
                    return v
            elif e[0] == 'f':
                r = Ref(r.cell, r.path + (('f', e[1]),))
            elif e[0] == 'i':
                idx = self.load(S, Ref((fr.id, e[1])))
                t = idx.t
                if r.meta is not None:
                    t = S.F.add_terms(r.meta[0], t) if r.meta[0] != 0 else t
                r = Ref(r.cell, r.path + (('i', S.F.simp(t)),))
            elif e[0] == 'd':
                pass
            elif e[0] == 'ci':
                if r.meta is not None:
                    st, ln = r.meta
                else:
                    st, ln = 0, self.len_of(S, self.load(S, r))
                t = S.F.add_terms(st, e[1]) if not e[3] else S.F.add_terms(S.F.add_terms(st, ln), -e[1])
                r = Ref(r.cell, r.path + (('i', t),))
            elif e[0] == 'ss':
                if r.meta is not None:
                    st, ln = r.meta
                else:
                    st, ln = 0, self.len_of(S, self.load(S, r))
                end = S.F.add_terms(ln, -e[2]) if e[3] else e[2]
                r = Ref(r.cell, r.path, (S.F.add_terms(st, e[1]), S.F.add_terms(end, -e[1])))
            elif e == 'oc':
                pass
            else:
                raise Unknown('place %r' % (e,))
        return r

    def len_of(self, S, v):
        if isinstance(v, Agg) or isinstance(v, Obj) and v.kind == 'vlist':
            return len(v.fs)
        if isinstance(v, Obj) and v.kind == 'varr':
            return v.fs[1]
        if isinstance(v, Obj) and v.kind == 'codes':
            return v.fs[4].t
        raise Unknown('length of %r' % (v,))

    def read_place(self, S, fr, p):
        if not p[1]:
            v = S.mem.get((fr.id, p[0]), UNDEF)
            return v
        r = self.place_ref(S, fr, p)
        if isinstance(r, Str):
            return r
        return self.load(S, r)

    def op(self, S, fr, o):
        if o[0] == 'k':
            return self.const(S, o[1])
        if o[0] == 'rc':
            return False
        v = self.read_place(S, fr, o[1])
        return v

    # ------------------------------------------------------------ integers
    def wrap(self, S, n, s, t, chk=False):
        """result of an operation whose mathematical value is t: (Int, overflowed)"""
        t = S.F.simp(t)
        lo, hi = S.F.interval(t)
        mn, mx = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if s else (0, (1 << n) - 1)
        if isinstance(t, Aff):
            if lo < mn or hi > mx:
                lo = max(lo, S.F.lower(t))
                hi = min(hi, -S.F.lower(mkaff(-t.c, {a: -k for a, k in t.a})))
        if lo >= mn and hi <= mx:
            return Int(n, s, t), False
        if isinstance(t, int):
            v = t & ((1 << n) - 1)
            if s and v >> (n - 1):
                v -= 1 << n
            return Int(n, s, v), True
        # split on overflow
        alts = []
        if hi >= mn and lo <= mx:
            def ok(T):
                T.F.assume('ge', t, mn)
                T.F.assume('le', t, mx)
            alts.append(ok)
        if hi > mx:
            alts.append(lambda T: T.F.assume('gt', t, mx))
        if lo < mn:
            alts.append(lambda T: T.F.assume('lt', t, mn))
        if len(alts) == 1:
            # entirely out of range
            if hi > mx and lo > mx and hi <= mx + (1 << n):
                return Int(n, s, S.F.add_terms(t, -(1 << n))), True
            if lo < mn and hi < mn and lo >= mn - (1 << n):
                return Int(n, s, S.F.add_terms(t, 1 << n)), True
            if not s and lo >= 0:
                return Int(n, s, S.F.as_bits(t, n)), True
            raise Unknown('wrapping arithmetic')
        raise Fork(alts, 'overflow')

    def need_int(self, v):
        if not isinstance(v, Int):
            raise Unknown('integer operation on %s' % (v.kind if isinstance(v, Obj) else type(v).__name__))

    def shift_amount(self, S, b, n):
        t = S.F.simp(b.t)
        if isinstance(t, int):
            return t % n if not b.s or t >= 0 else (t + (1 << b.n)) % n
        lo, hi = S.F.interval(t)
        if hi - lo > 64:
            raise Unknown('shift by an unbounded amount')
        raise Fork([(lambda T, k=k: T.F.assume('eq', t, k)) for k in range(int(lo), int(hi) + 1)], 'shift amount')

    def binop(self, S, o, a, b, chk=False):
        if isinstance(a, Flt) or isinstance(b, Flt):
            return self.fbin(S, o, a, b)
        if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)):
            return self.bbin(S, o, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref) and o in ('Eq', 'Ne'):
            raise Unknown('pointer comparison')
        self.need_int(a)
        self.need_int(b)
        n, s = a.n, a.s
        F = S.F
        if o in CMPOPS:
            op = CMPOPS[o]
            r = self.icmp(S, op, a, b)
            return r
        ov = False
        if o in ('Add', 'AddUnchecked', 'Sub', 'SubUnchecked', 'Mul', 'MulUnchecked'):
            if o[0] == 'A':
                # disjoint bits: keep the vector form
                if isinstance(a.t, BV) or isinstance(b.t, BV):
                    r = self.disjoint(S, a, b, n)
                    if r is not None:
                        res = Int(n, s, r)
                        return (res, False) if chk else res
                t = F.add_terms(a.t, b.t)
            elif o[0] == 'S':
                t = F.sub_terms(a.t, b.t)
            else:
                x, y = F.simp(a.t), F.simp(b.t)
                if isinstance(y, int):
                    t = F.scale(x, y)
                elif isinstance(x, int):
                    t = F.scale(y, x)
                else:
                    raise Unknown('product of unknowns')
            res, ov = self.wrap(S, n, s, t)
        elif o in ('BitAnd', 'BitOr', 'BitXor'):
            x, y = F.simp(a.t), F.simp(b.t)
            if s and (isinstance(x, int) and x < 0 or isinstance(y, int) and y < 0 or F.interval(x)[0] < 0 or F.interval(y)[0] < 0):
                if isinstance(x, int) and isinstance(y, int):
                    res = Int(n, s, x & y if o == 'BitAnd' else x | y if o == 'BitOr' else x ^ y)
                    return (res, False) if chk else res
                if o == 'BitAnd' and isinstance(y, int) and y < 0 or isinstance(x, int) and x < 0:
                    raise Unknown('signed bit operation')
                raise Unknown('signed bit operation')
            x, y = F.as_bits(x, n), F.as_bits(y, n)
            f = band if o == 'BitAnd' else bor if o == 'BitOr' else bxor
            res = Int(n, s, F.simp(BV(f(F.rbit(p), F.rbit(q)) for p, q in zip(x, y))))
        elif o in ('Shl', 'ShlUnchecked'):
            k = self.shift_amount(S, b, n)
            x = F.simp(a.t)
            if isinstance(x, int):
                v = (x << k) & ((1 << n) - 1)
                if s and v >> (n - 1):
                    v -= 1 << n
                res = Int(n, s, v)
            elif s:
                res, _ = self.wrap(S, n, s, F.scale(x, 1 << k))
            else:
                lo, hi = F.interval(x)
                if isinstance(x, Aff) and (hi << k) < (1 << n):
                    res = Int(n, s, F.scale(x, 1 << k))
                else:
                    bits = F.as_bits(x, n)
                    res = Int(n, s, F.simp(BV((0,) * k + tuple(bits[:n - k]))))
        elif o in ('Shr', 'ShrUnchecked'):
            k = self.shift_amount(S, b, n)
            x = F.simp(a.t)
            if isinstance(x, int):
                res = Int(n, s, x >> k)
            else:
                if s and F.interval(x)[0] < 0:
                    raise Unknown('arithmetic shift of a negative unknown')
                bits = F.as_bits(x, n)
                res = Int(n, s, F.simp(BV(tuple(bits[k:]) + (0,) * k)))
        elif o in ('Div', 'Rem'):
            res = self.divrem(S, o, a, b)
        elif o == 'Offset':
            raise Unknown('pointer arithmetic')
        elif o == 'Cmp':
            for op, val in (('lt', 0), ('eq', 1), ('gt', 2)):
                r = F.decide(op, a.t, b.t)
                if r is True:
                    return Agg('Ordering', val, ())
            raise Fork([(lambda T, op=op: T.F.assume(op, a.t, b.t)) for op in ('lt', 'eq', 'gt')], 'cmp')
        else:
            raise Unknown('operator ' + o)
        return (res, ov) if chk else res

    def disjoint(self, S, a, b, n):
        F = S.F
        try:
            x, y = F.simp(a.t), F.simp(b.t)
            if isinstance(x, Aff) or isinstance(y, Aff) or isinstance(x, int) and x < 0 or isinstance(y, int) and y < 0:
                return None
            x, y = F.as_bits(x, n), F.as_bits(y, n)
        except Unknown:
            return None
        out = []
        for p, q in zip(x, y):
            p, q = F.rbit(p), F.rbit(q)
            if p != 0 and q != 0:
                return None
            out.append(p if q == 0 else q)
        return F.simp(BV(out))

    def divrem(self, S, o, a, b):
        F = S.F
        n, s = a.n, a.s
        x, y = F.simp(a.t), F.simp(b.t)
        if not isinstance(y, int):
            raise Unknown('division by an unknown')
        if y == 0:
            raise Unknown('division by zero')
        if isinstance(x, int):
            q = abs(x) // abs(y) * (1 if (x >= 0) == (y > 0) else -1)
            return Int(n, s, q if o == 'Div' else x - q * y)
        lo, hi = F.interval(x)
        if lo < 0 or y < 0:
            raise Unknown('signed division')
        if y & (y - 1) == 0:
            k = y.bit_length() - 1
            if not (isinstance(x, Aff) and all(c % y == 0 for _, c in x.a)):
                bits = F.as_bits(x, n)
                if o == 'Div':
                    return Int(n, s, F.simp(BV(tuple(bits[k:]) + (0,) * k)))
                return Int(n, s, F.simp(BV(tuple(bits[:k]) + (0,) * (n - k))))
        x = F.as_aff(x)
        # x = y*A + rest
        A, rest = {}, {}
        for at, k in x.a:
            q, r = divmod(k, y)
            if r == 0:
                A[at] = q
            else:
                rest[at] = k
        qc, rc = divmod(x.c, y)
        if not rest:
            t = mkaff(qc, A)
            return Int(n, s, t if o == 'Div' else rc)
        rt = mkaff(rc, rest)
        if isinstance(rt, Aff):
            l, h = F.interval(rt)
            if 0 <= l and h < y:
                return Int(n, s, mkaff(qc, A) if o == 'Div' else rt)
        if len(rest) == 1:
            at, k = list(rest.items())[0]
            if at[0] == 'y':
                sname = at[1]
                qs = ('q', sname, y)
                if qs not in SYMS:
                    h = SYMS[sname][2]
                    sym(qs, SYMS[sname][0], 0, h // y)
                alts = []
                for r in range(y):
                    def f(T, r=r):
                        T.F.assume('eq', Aff(0, ((at, 1),)), Aff(r, ((('y', qs), y),)))
                    alts.append(f)
                if y > 64:
                    raise Unknown('division by a large constant')
                raise Fork(alts, 'residue')
        # name the value
        nm = ('t', x)
        qs = ('q', nm, y)
        if qs not in SYMS:
            sym(qs, n, 0, hi // y)
        raise Unknown('division of a bit vector')

    def icmp(self, S, op, a, b):
        F = S.F
        x, y = F.simp(a.t), F.simp(b.t)
        r = F.decide(op, x, y)
        if r is not None:
            return r
        return Cond(('i', op, x, y))

    def bbin(self, S, o, a, b):
        a, b = self.bval(S, a), self.bval(S, b)
        if isinstance(a, bool) and isinstance(b, bool):
            return {'BitAnd': a and b, 'BitOr': a or b, 'BitXor': a != b, 'Eq': a == b, 'Ne': a != b, 'Lt': a < b, 'Le': a <= b,
                    'Gt': a > b, 'Ge': a >= b}[o]
        if o == 'BitAnd':
            if a is False or b is False:
                return False
            return b if a is True else a if b is True else Cond(('and', a.k, b.k))
        if o == 'BitOr':
            if a is True or b is True:
                return True
            return b if a is False else a if b is False else Cond(('or', a.k, b.k))
        if o in ('BitXor', 'Ne', 'Eq'):
            neg = o == 'Eq'
            if isinstance(a, bool):
                a, b = b, a
            if isinstance(b, bool):
                # a xor b, negated for Eq
                return self.bnot(a) if b != neg else a
            k = ('xor', a.k, b.k)
            return Cond(('not', k)) if neg else Cond(k)
        raise Unknown('boolean operator ' + o)

    def bnot(self, c):
        if isinstance(c, bool):
            return not c
        if c.k[0] == 'not':
            return Cond(c.k[1])
        return Cond(('not', c.k))

    def leaf(self, S, k):
        """decide a leaf condition: True/False/None"""
        if k[0] == 'i':
            r = S.F.decide(k[1], k[2], k[3])
        elif k[0] == 'f':
            r = S.F.fdecide(k[1], k[2], k[3])
        else:
            r = None
        if r is None:
            r = S.meta.get(('cd', k))
        return r

    def ceval(self, S, k):
        """(value or None, undecided leaf or None)"""
        h = k[0]
        if h == 'not':
            r, l = self.ceval(S, k[1])
            return (None if r is None else not r), l
        if h in ('and', 'or', 'xor'):
            a, la = self.ceval(S, k[1])
            b, lb = self.ceval(S, k[2])
            if h == 'and':
                if a is False or b is False:
                    return False, None
                if a and b:
                    return True, None
            elif h == 'or':
                if a or b:
                    return True, None
                if a is False and b is False:
                    return False, None
            elif a is not None and b is not None:
                return a != b, None
            return None, la or lb
        r = self.leaf(S, k)
        return r, (k if r is None else None)

    def bval(self, S, c):
        if isinstance(c, bool):
            return c
        if not isinstance(c, Cond):
            raise Unknown('boolean from %r' % (type(c).__name__,))
        r, l = self.ceval(S, c.k)
        return c if r is None else r

    def assume_leaf(self, S, k, v):
        if k[0] == 'i':
            op = k[1] if v else NEG[k[1]]
            S.F.assume(op, k[2], k[3])
            if self.has_havoc(k[2]) or self.has_havoc(k[3]):
                S.taint = True
        elif k[0] == 'f':
            S.F.fassume(k[1], k[2], k[3], v)
        elif k[0] == 'u':
            S.taint = True
        S.meta[('cd', k)] = v

    def has_havoc(self, t):
        if isinstance(t, Aff):
            return any(at[0] == 'y' and isinstance(at[1], tuple) and at[1][0] == 'hv' for at, _ in t.a)
        return False

    def truth(self, S, c):
        """decided boolean, or Fork"""
        c = self.bval(S, c)
        if isinstance(c, bool):
            return c
        r, l = self.ceval(S, c.k)
        raise Fork([lambda T: self.assume_leaf(T, l, True), lambda T: self.assume_leaf(T, l, False)], 'condition')

    # ------------------------------------------------------------ floats
    def fbin(self, S, o, a, b):
        if not (isinstance(a, Flt) and isinstance(b, Flt)):
            raise Unknown('float operation on mixed values')
        x, y = S.F.fsimp(a.e), S.F.fsimp(b.e)
        if o in CMPOPS:
            op = CMPOPS[o]
            r = S.F.fdecide(op, x, y)
            return r if r is not None else Cond(('f', op, x, y))
        m = {'Add': '+', 'Sub': '-', 'Mul': '*', 'Div': '/', 'Rem': '%'}.get(o)
        if m is None:
            raise Unknown('float operator ' + o)
        return Flt(fmk(m, x, y))

    # ------------------------------------------------------------ rvalues
    def cast(self, S, kind, v, t):
        d = self.p.types[t]
        if kind in ('IntToInt',) or kind.startswith('IntToInt'):
            if isinstance(v, (bool, Cond)):
                v = Int(8, False, 1 if self.truth(S, v) else 0)
            if isinstance(v, Agg):
                v = Int(64, True, self.discr(v))
            if d['k'] == 'bool':
                raise Unknown('int to bool')
            n, s = self.int_of(t)
            return self.int_cast(S, v, n, s)
        if kind.startswith('IntToFloat'):
            self.need_int(v)
            x = S.F.simp(v.t)
            return Flt(float(x) if isinstance(x, int) else ('i2f', x))
        if kind.startswith('FloatToInt'):
            n, s = self.int_of(t)
            e = S.F.fsimp(v.e)
            if isinstance(e, float):
                lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if s else (0, (1 << n) - 1)
                if e != e:
                    return Int(n, s, 0)
                return Int(n, s, int(max(lo, min(hi, e))) if abs(e) != INF else (hi if e > 0 else lo))
            if isinstance(e, tuple) and e[0] == 'i2f':
                lo, hi = S.F.interval(e[1])
                mn, mx = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if s else (0, (1 << n) - 1)
                if lo >= mn and hi <= mx and hi < 1 << 53:
                    return Int(n, s, e[1])
            raise Unknown('float to int')
        if kind.startswith('FloatToFloat'):
            if d.get('size') == 4:
                raise Unknown('f32 arithmetic')
            return v
        if 'Unsize' in kind:
            if isinstance(v, Ref):
                src = self.load(S, v)
                if d['k'] == 'ref' and self.p.types[d['e']]['k'] == 'slice':
                    return Ref(v.cell, v.path, (0, self.len_of(S, src)))
            return v
        if kind.startswith('PtrToPtr') or 'ReifyFnPointer' in kind or 'ClosureFnPointer' in kind or 'MutToConst' in kind:
            return v
        if kind.startswith('Transmute') or kind.startswith('Subtype'):
            if isinstance(v, Int) and self.int_of(t):
                n, s = self.int_of(t)
                if n == v.n and s == v.s:
                    return v
                if n == v.n:
                    return self.int_cast(S, v, n, s)
            if d['k'] in ('ref', 'ptr') and isinstance(v, Ref):
                return v
            h = self.hooks.get('transmute')
            if h:
                return h(self, S, v, t)
            raise Unknown('transmute to ' + self.p.tyname(t))
        raise Unknown('cast ' + kind)

    def int_cast(self, S, v, n, s):
        self.need_int(v)
        F = S.F
        t = F.simp(v.t)
        mn, mx = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if s else (0, (1 << n) - 1)
        if isinstance(t, int):
            x = t & ((1 << n) - 1)
            if s and x >> (n - 1):
                x -= 1 << n
            return Int(n, s, x)
        lo, hi = F.interval(t)
        if lo >= mn and hi <= mx:
            if isinstance(t, BV):
                t = F.as_bits(t, n)
            return Int(n, s, t)
        if lo >= 0:
            bits = F.as_bits(t, max(n, v.n))
            if s and F.rbit(bits[n - 1]) != 0:
                b = F.rbit(bits[n - 1])
                if b == 1:
                    raise Unknown('signed reinterpretation')
                raise Fork([lambda T: T.F.setbit(b, 0), lambda T: T.F.setbit(b, 1)], 'sign bit')
            return Int(n, s, F.simp(BV(bits[:n])))
        if hi < 0 and not s and lo >= -(1 << n):
            return Int(n, s, F.add_terms(t, 1 << n))
        if lo < 0 <= hi:
            raise Fork([lambda T: T.F.assume('lt', t, 0), lambda T: T.F.assume('ge', t, 0)], 'sign')
        raise Unknown('cast of a negative unknown')

    def discr(self, v):
        if isinstance(v.ty, int) and v.ty >= 0:
            d = self.p.types[v.ty]
            if d['k'] == 'adt' and d['ak'] == 'enum':
                return int(d['v'][v.var]['d'])
        if v.ty == 'Ordering':
            return (255, 0, 1)[v.var]
        return v.var or 0

    def rvalue(self, S, fr, r, want=None):
        k = r[0]
        if k == 'use':
            return self.op(S, fr, r[1])
        if k == 'bin':
            return self.binop(S, r[1], self.op(S, fr, r[2]), self.op(S, fr, r[3]))
        if k == 'chk':
            o = r[1]
            a, b = self.op(S, fr, r[2]), self.op(S, fr, r[3])
            if o in ('Shl', 'Shr'):
                t = S.F.simp(b.t)
                res = self.binop(S, o, a, b)
                return Agg(-1, 0, (res, self.icmp(S, 'ge', b, Int(b.n, b.s, a.n))))
            res, ov = self.binop(S, o, a, b, chk=True)
            return Agg(-1, 0, (res, ov))
        if k == 'cast':
            return self.cast(S, r[1], self.op(S, fr, r[2]), r[3])
        if k == 'discr':
            v = self.read_place(S, fr, r[1])
            if isinstance(v, Agg) and v.var is not None:
                dv = self.discr(v)
                return Int(64, False, dv)
            if v is UNDEF and not r[1][1] and not self.p.types[fr.fn.locals[r[1][0]]].get('size', 1):
                return Int(64, False, 0)
            raise Unknown('discriminant of %s' % (v.kind if isinstance(v, Obj) else type(v).__name__))
        if k == 'len':
            rr = self.place_ref(S, fr, r[1])
            if rr.meta is not None:
                return self.usize(rr.meta[1])
            return self.usize(self.len_of(S, self.load(S, rr)))
        if k in ('ref', 'addr'):
            rr = self.place_ref(S, fr, r[2])
            return rr
        if k == 'agg':
            kind, ty, var, ops = r[1], r[2], r[3], r[4]
            vs = [self.op(S, fr, o) for o in ops]
            if kind == 'tuple':
                return Agg(-1, 0, vs)
            if kind == 'array':
                return Agg(-1, 0, vs)
            if kind == 'adt' or kind == 'closure':
                return Agg(ty, var, vs)
            if kind == 'rawptr':
                if isinstance(vs[0], Ref) and isinstance(vs[1], Int):
                    return Ref(vs[0].cell, vs[0].path, (0, vs[1].t))
                raise Unknown('raw pointer aggregate')
            raise Unknown('aggregate ' + kind)
        if k == 'repeat':
            v = self.op(S, fr, r[1])
            if r[2] > 4096:
                raise Unknown('large array')
            return Agg(-1, 0, [v] * r[2])
        if k == 'un':
            v = self.op(S, fr, r[2])
            if r[1] == 'Not':
                if isinstance(v, (bool, Cond)):
                    return self.bnot(self.bval(S, v))
                self.need_int(v)
                t = S.F.simp(v.t)
                if isinstance(t, int):
                    return Int(v.n, v.s, ~t if v.s else t ^ ((1 << v.n) - 1))
                if v.s:
                    return Int(v.n, v.s, S.F.sub_terms(-1, t))
                return Int(v.n, v.s, BV(bnot(b) for b in S.F.as_bits(t, v.n)))
            if r[1] == 'Neg':
                if isinstance(v, Flt):
                    return Flt(fmk('neg', S.F.fsimp(v.e)))
                res, _ = self.wrap(S, v.n, v.s, S.F.sub_terms(0, v.t))
                return res
            if r[1] == 'PtrMetadata':
                if isinstance(v, Ref) and v.meta is not None:
                    return self.usize(v.meta[1])
                if isinstance(v, Str):
                    return self.usize(len(v.s))
                raise Unknown('pointer metadata')
            raise Unknown('operator ' + r[1])
        if k == 'tls':
            raise Unknown('thread local ' + str(r[1]))
        raise Unknown('rvalue ' + k)

    # ------------------------------------------------------------ execution
    def assign(self, S, fr, p, v):
        if not p[1]:
            S.mem[(fr.id, p[0])] = v
            return
        r = self.place_ref(S, fr, p)
        self.store(S, r, v)

    def goto(self, S, bb):
        fr = S.frames[-1]
        fr.bb = bb
        fr.i = 0
        S.newblock = True

    def exec1(self, S):
        """execute statements up to and including one terminator"""
        fr = S.frames[-1]
        stmts, term = fr.fn.body[fr.bb]
        n = len(stmts)
        while fr.i < n:
            s = stmts[fr.i]
            self.steps += 1
            k = s[0]
            if k == '=':
                self.assign(S, fr, s[1], self.rvalue(S, fr, s[2]))
            elif k == 'sx' or k == 'sl':
                S.mem.pop((fr.id, s[1]), None)
            elif k == 'sd':
                r = self.place_ref(S, fr, s[1])
                v = self.load(S, r)
                if isinstance(v, Agg):
                    self.store(S, r, Agg(v.ty, s[2], v.fs))
                else:
                    self.store(S, r, Agg(None, s[2], ()))
            elif k == 'assume':
                pass
            else:
                raise Unknown('statement ' + k)
            fr.i += 1
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unknown('step budget')
        k = term[0]
        if k == 'goto':
            return self.goto(S, term[1])
        if k == 'switch':
            return self.switch(S, fr, term)
        if k == 'ret':
            return self.ret(S)
        if k == 'drop':
            return self.goto(S, term[2])
        if k == 'assert':
            self.stats['asserts'] += 1
            TOTAL[0] += 1
            c = self.op(S, fr, term[1])
            v = self.truth(S, c)
            if v != term[2]:
                self.panic(S, 'assert ' + term[3], fr.fn, term[-1])
                return
            return self.goto(S, term[5])
        if k == 'call':
            return self.call(S, fr, term)
        if k == 'unreach':
            S.out = ('panic', 'unreachable code reached', fr.fn.name, self.p.loc(term[-1]))
            return
        raise Unknown('terminator ' + k)

    def panic(self, S, msg, fn, span):
        # attribute to the innermost frame of the analysed crate
        site = None
        for f in reversed(S.frames):
            if f.fn.crate == 'hyperloglogplus':
                b = f.fn.body[f.bb][1]
                site = (f.fn.name, self.p.loc(b[-1]))
                break
        S.out = ('panic', msg, site[0] if site else fn.name, site[1] if site else self.p.loc(span))

    def switch(self, S, fr, term):
        v = self.op(S, fr, term[1])
        if isinstance(v, (bool, Cond)):
            b = self.truth(S, v)
            for val, bb in term[2]:
                if int(val) == int(b):
                    return self.goto(S, bb)
            return self.goto(S, term[3])
        if isinstance(v, Int):
            t = S.F.simp(v.t)
            if isinstance(t, int):
                u = t & ((1 << v.n) - 1)
                for val, bb in term[2]:
                    if int(val) == u or (v.n == 64 and int(val) & ((1 << 64) - 1) == u):
                        return self.goto(S, bb)
                return self.goto(S, term[3])
            vals = [int(x) for x, _ in term[2]]
            if v.s:
                vals = [x - (1 << v.n) if x >> (v.n - 1) else x for x in vals]
            alts = []
            und = []
            for x in vals:
                r = S.F.decide('eq', t, x)
                if r is None:
                    und.append(x)
            if not und:
                return self.goto(S, term[3])
            for x in und:
                alts.append(lambda T, x=x: T.F.assume('eq', t, x))

            def other(T):
                for x in vals:
                    T.F.assume('ne', t, x)
            alts.append(other)
            raise Fork(alts, 'switch')
        raise Unknown('switch on %s' % (v.kind if isinstance(v, Obj) else type(v).__name__))

    def ret(self, S):
        fr = S.frames.pop()
        v = S.mem.get((fr.id, 0), UNIT)
        for l in range(len(fr.fn.locals)):
            S.mem.pop((fr.id, l), None)
        if fr.dest is None:
            S.out = ('ret', v)
            return
        self.store(S, fr.dest, v)
        top = S.frames[-1]
        if fr.ret is None or fr.ret < 0:
            raise Unknown('return from diverging call')
        top.bb = fr.ret
        top.i = 0
        S.newblock = 2 if self.subsume and fr.fn.crate == 'hyperloglogplus' and fr.fn.cfg().loops else True

    def callee(self, S, fr, term):
        c = term[1]
        if c[0] == 's':
            d = self.p.types[c[1]]
            return d['n'], d['fn'], d.get('args')
        v = self.op(S, fr, c[1])
        if isinstance(v, FnV):
            d = self.p.types[v.ty]
            return d['n'], d['fn'], d.get('args')
        if isinstance(v, Obj) and v.kind == 'fnptr':
            return 'fnptr', v.fs[0], None
        if isinstance(v, Agg) and isinstance(v.ty, int) and v.ty >= 0 and self.p.types[v.ty]['k'] == 'closure':
            return 'closure', self.p.types[v.ty]['fn'], None
        raise Unknown('indirect call')

    def native_for(self, fn, name):
        key = (fn.id if fn else -1, name)
        if key in self._ncache:
            return self._ncache[key]
        r = None
        names = [name] + ([fn.defn] if fn else [])
        for pat, f in self.natives:
            if any(pat(x) for x in names if x):
                r = f
                break
        self._ncache[key] = r
        return r

    def call(self, S, fr, term):
        name, fid, targs = self.callee(S, fr, term)
        args = [self.op(S, fr, a) for a in term[2]]
        self.stats['calls'] += 1
        fn = self.p.fns.get(fid) if fid is not None and fid >= 0 else None
        self.do_call(S, fr, name, fn, args, term)

    def holds_data(self, S, v):
        for _ in range(6):
            if not isinstance(v, Ref):
                break
            try:
                v = self.load(S, v)
            except Unknown:
                return False
        return isinstance(v, Obj) and v.kind in ('codes', 'codesiter', 'regs', 'regiter') or \
            isinstance(v, Agg) and any(isinstance(x, (Obj, Agg)) and self.holds_data(S, x) for x in v.fs)

    def do_call(self, S, fr, name, fn, args, term, depth=0):
        h = self.hooks.get('heavy')
        if h and name:
            if ALLOC.search(name):
                h(S, 'alloc', name)
            elif HEAVY.search(name) and any(self.holds_data(S, a) for a in args):
                h(S, 'pass', name)
        nat = self.native_for(fn, name)
        if nat is not None:
            ctx = Ctx(self, S, fr, name, fn, term)
            v = nat(ctx, args)
            if v is NOTNATIVE:
                pass
            elif v is DIVERGED:
                return
            elif isinstance(v, Invoke):
                return self.do_call(S, fr, v.name, v.fn, v.args, term, depth + 1)
            else:
                if term[4] is None or term[4] < 0:
                    raise Unknown('native call without a return block')
                self.assign(S, fr, term[3], v)
                return self.goto(S, term[4])
        # closures through the Fn traits
        last = name.split('::')[-1] if name else ''
        if last in ('call', 'call_mut', 'call_once') or name in ('closure', 'fnptr'):
            r = self.fn_trait_call(S, fr, name, fn, args, term)
            if r:
                return
        if fn is None:
            raise Unknown('unresolved call ' + str(name))
        if fn.body is None:
            if fn.kind == 'shim' and fn.empty:
                self.assign(S, fr, term[3], UNIT)
                return self.goto(S, term[4])
            raise Unknown('call of ' + fn.defn)
        self.push(S, fn, args, self.place_ref(S, fr, term[3]), term[4])

    def fn_trait_call(self, S, fr, name, fn, args, term):
        f = args[0]
        while isinstance(f, Ref):
            nf = self.load(S, f)
            if isinstance(nf, (Ref, FnV, Agg, Obj)):
                if isinstance(nf, Agg):
                    break
                f = nf
            else:
                break
        tgt = self.load(S, f) if isinstance(f, Ref) else f
        tup = args[-1]
        if not (isinstance(tup, Agg)):
            raise Unknown('call arguments')
        if isinstance(tgt, FnV):
            d = self.p.types[tgt.ty]
            callee = self.p.fns.get(d['fn'])
            self.do_call(S, fr, d['n'], callee, list(tup.fs), term)
            return True
        if isinstance(tgt, Obj) and tgt.kind == 'fnptr':
            callee = self.p.fns[tgt.fs[0]]
            self.do_call(S, fr, callee.defn, callee, list(tup.fs), term)
            return True
        if isinstance(tgt, Agg) and isinstance(tgt.ty, int) and tgt.ty >= 0:
            d = self.p.types[tgt.ty]
            if d['k'] != 'closure':
                return False
            body = self.p.fns.get(d['fn'])
            if body is None or body.body is None:
                raise Unknown('closure without a body')
            envt = self.p.types[body.locals[1]]
            if envt['k'] == 'ref':
                if isinstance(f, Ref):
                    env = f
                else:
                    cell = ('h', S.fresh())
                    S.mem[cell] = tgt
                    env = Ref(cell)
            else:
                env = tgt
            # closure bodies take their arguments untupled
            a = [env] + list(tup.fs)
            if body.argc == 2 and len(a) != 2:
                a = [env, tup]
            self.push(S, body, a, self.place_ref(S, fr, term[3]), term[4])
            return True
        return False

    def push(self, S, fn, args, dest, ret):
        if len(S.frames) > 60:
            raise Unknown('call depth')
        self.stats['fns'].add(fn.id)
        i = S.fresh()
        if len(args) != fn.argc:
            raise Unknown('argument count for ' + fn.name)
        for k, a in enumerate(args):
            S.mem[(i, k + 1)] = a
        S.frames.append(Frame(i, fn, 0, 0, dest, ret))
        S.newblock = True

    def start(self, fn, args, S=None):
        S = S or State()
        S.out = None
        self.push(S, fn, args, None, None)
        return S

    def run(self, fn, args, S=None):
        """all final states of a call"""
        S = self.start(fn, args, S)
        return self.explore([S], lambda T: None, self.hooks.get('visited'))

    def fork(self, S, f):
        self.stats['forks'] += 1
        out = []
        for alt in f.alts:
            T = S.clone()
            try:
                alt(T)
            except Infeasible:
                continue
            out.append(T)
        return out

    def explore(self, states, stop, visited=None):
        done = []
        work = list(states)
        if visited is None:
            visited = set()
        while work:
            if len(work) + len(done) > self.max_paths:
                raise Unknown('path budget')
            S = work.pop()
            while True:
                if S.out is not None:
                    done.append(S)
                    break
                try:
                    if S.newblock:
                        nb = S.newblock
                        S.newblock = False
                        tag = stop(S)
                        if tag:
                            S.tag = tag
                            done.append(S)
                            break
                        if nb == 2 and self.seen(S, visited):
                            break
                        fr = S.frames[-1]
                        L = fr.fn.cfg().loops.get(fr.bb) if fr.fn.body else None
                        if L is not None:
                            if S.skip == (fr.id, fr.bb):
                                S.skip = None
                            else:
                                if self.seen(S, visited):
                                    break
                                outs = self.loop(S, fr.id, fr.bb, L)
                                for o in outs:
                                    if o.out is None:
                                        if self.seen(o, visited):
                                            continue
                                        o.newblock = True
                                    work.append(o)
                                break
                    self.exec1(S)
                except Fork as f:
                    if self.dbg:
                        print('fork', f.why, len(f.alts), S.frames[-1].fn.name[-50:], S.frames[-1].bb)
                    work.extend(self.fork(S, f))
                    break
                except Infeasible:
                    break
                except (Unknown, AttributeError, KeyError, TypeError, IndexError, AssertionError) as u:
                    if not isinstance(u, Unknown):
                        if self.dbg:
                            raise
                        u = 'unmodelled operation (%s: %s)' % (type(u).__name__, u)
                    fr = S.frames[-1] if S.frames else None
                    S.out = ('unknown', '%s in %s at %s' % (u, fr.fn.name if fr else '?', self.where(fr)))
                    done.append(S)
                    break
        return done

    def seen(self, S, visited):
        """whether a state equal to S up to the names of internal symbols was
        already continued from in this exploration"""
        if not self.subsume or not S.frames:
            return False
        S2 = S.clone()
        T = dict(fid=S.frames[-1].id, hdr=S.frames[-1].bb, key=True)
        self.gc_facts(S2, T)
        shape, leaves, cells = self.canon(S2, T['fid'], T['hdr'])
        ren = {}

        def name(s):
            if isinstance(s, tuple) and s:
                if s[0] in ('pop', 'hv', 'ln', 'rv') and isinstance(s[-1], int):
                    r = ren.get(s)
                    if r is None:
                        r = ren[s] = ('#', len(ren), s[0], SYMS.get(s) or FSYMS.get(s))
                    return r
                return tuple(name(x) if isinstance(x, (tuple, Aff)) else x for x in s)
            if isinstance(s, Aff):
                return term(s)
            return s

        def term(t):
            if isinstance(t, Aff):
                # atoms already renamed first, then by name: any consistent order will do
                return ('A', t.c, tuple((name(a), k) for a, k in t.a))
            if isinstance(t, tuple):
                return tuple(term(x) for x in name(t)) if not isinstance(t, BV) else ('B',) + tuple(name(b) for b in t)
            return t
        lv = tuple((k, term(t)) for k, t, v in leaves)
        F = S2.F
        key = (
            shape, lv, S.log, S.taint,
            frozenset((name(b), name(v)) for b, v in F.bits.items()),
            frozenset((name(a), v) for a, v in F.iv.items()),
            frozenset((name(a), term(v)) for a, v in F.sub.items()),
            frozenset((name(a), tuple(name(x) for x in v)) for a, v in F.exp.items()),
            frozenset(frozenset(name(b) for b in cl) for cl in F.nz),
            frozenset((name(x), name(y), c) for (x, y), c in F.dbm.items()),
            frozenset(frozenset([('c', a.c)] + [(name(x), k) for x, k in a.a]) for a in F.ge),
            frozenset(frozenset([('c', a.c)] + [(name(x), k) for x, k in a.a]) for a in F.ne),
            tuple((o, term(a), term(b), t) for o, a, b, t in F.fc),
            frozenset((term(e), v) for e, v in F.fiv.items()),
            frozenset((name(k), repr(v)) for k, v in S2.meta.items()
                      if not (isinstance(k, tuple) and k[0] in ('acc', 'fresh')) or k[1] in ren),
        )
        if key in visited:
            self.stats['merged'] = self.stats.get('merged', 0) + 1
            return True
        visited.add(key)
        return False

    def where(self, fr):
        if fr is None:
            return '?'
        st, t = fr.fn.body[fr.bb]
        if fr.i < len(st):
            s = st[fr.i]
            sp = s[-1]
        else:
            sp = t[-1]
        try:
            return self.p.loc(sp)
        except Exception:
            return '?'

    # ------------------------------------------------------------ loops
    def iterate(self, S, fid, hdr, blocks):
        def stop(T):
            fr = T.frames[-1] if T.frames else None
            if fr is None or all(f.id != fid for f in T.frames):
                return 'exit'
            if fr.id == fid:
                if fr.bb == hdr:
                    return 'back'
                if fr.bb not in blocks:
                    return 'exit'
            return None
        S.skip = (fid, hdr)
        S.newblock = True
        # the stop test must not fire on the header itself
        first = [True]

        def stop1(T):
            if first[0]:
                first[0] = False
                return None
            return stop(T)
        outs = self.explore([S], stop1)
        for o in outs:
            o.skip = None
        return outs

    def loop(self, S, fid, hdr, blocks):
        self.stats['loops'] += 1
        exits = []
        pend = [(S, 0)]
        hist = []
        while pend:
            cur, n = pend.pop()
            if n == 70 and self.hooks.get('heavy'):
                self.hooks['heavy'](cur, 'pass', 'a loop in ' + cur.frames[-1].fn.name)
            if n > self.loop_cap:
                r = self.loop_affine(cur, fid, hdr, blocks, hist)
                if r is None:
                    cur.out = ('unknown', 'loop bound exceeded in %s' % cur.frames[-1].fn.name)
                    exits.append(cur)
                else:
                    exits += r
                continue
            keep = cur.clone()
            p0 = cur.pops
            outs = self.iterate(cur, fid, hdr, blocks)
            backs = [o for o in outs if o.out is None and o.tag == 'back']
            if any(b.pops > p0 for b in backs):
                exits += self.loop_abs(keep, fid, hdr, blocks)
                continue
            exits += [o for o in outs if o not in backs]
            if len(backs) == 1 and not pend:
                hist.append(keep)
                if len(hist) > 40:
                    hist.pop(0)
            for b in backs:
                pend.append((b, n + 1))
        for e in exits:
            e.tag = None
        return exits

    def loop_affine(self, S, fid, hdr, blocks, hist):
        h = self.hooks.get('loop_affine')
        return h(self, S, fid, hdr, blocks, hist) if h else None

    # -- canonical form of a state at a loop head
    def canon(self, S, fid, hdr):
        """(shape, leaves, cells): shape is hashable; leaves are numeric terms in
        traversal order; cells maps reachable cells to canonical numbers"""
        leaves = []
        cells = {}
        order = []
        F = S.F

        def visit(v):
            if isinstance(v, Int):
                t = F.simp(v.t)
                st = self.structural(t)
                if st is not None:
                    return ('I', v.n, v.s, st)
                leaves.append(('i', t, v))
                return ('I', v.n, v.s)
            if isinstance(v, Flt):
                leaves.append(('f', F.fsimp(v.e), v))
                return ('F',)
            if isinstance(v, bool):
                return v
            if isinstance(v, Cond):
                r = self.bval(S, v)
                if isinstance(r, bool):
                    return r
                leaves.append(('c', r, v))
                return ('C',)
            if isinstance(v, Agg):
                return ('A', v.var) + tuple(visit(x) for x in v.fs)
            if isinstance(v, Ref):
                if v.cell not in cells:
                    if isinstance(v.cell, str) or isinstance(v.cell, tuple) and v.cell[0] in ('a', 'static'):
                        cid = v.cell
                    else:
                        cells[v.cell] = len(cells)
                        order.append(v.cell)
                        cid = cells[v.cell]
                else:
                    cid = cells[v.cell]
                return ('R', cid, tuple(visit_path(e) for e in v.path), visit(v.meta))
            if isinstance(v, Obj):
                return ('O', v.kind) + tuple(visit(x) for x in v.fs)
            if isinstance(v, tuple):
                return ('T',) + tuple(visit(x) for x in v)
            if isinstance(v, (Aff, BV)):
                t = F.simp(v)
                leaves.append(('t', t, v))
                return ('t',)
            if isinstance(v, (Str, FnV)):
                return v
            return v

        def visit_path(e):
            if e[0] == 'i':
                return ('i', visit(e[1]))
            return e
        shape = []
        frames = S.frames
        for k, f in enumerate(frames):
            live = f.fn.cfg().live_in()
            if k == len(frames) - 1:
                ls = live[f.bb]
            else:
                t = f.fn.body[f.bb][1]
                ls = set(live[t[4]]) if t[0] == 'call' and t[4] is not None and t[4] >= 0 else set()
                if t[0] == 'call' and not t[3][1]:
                    ls.discard(t[3][0])
            shape.append(('fr', f.fn.id, f.bb))
            for l in sorted(ls):
                c = (f.id, l)
                if c in cells:
                    continue
                cells[c] = len(cells)
                order.append(c)
        for c in sorted(c for c in S.mem if isinstance(c, str)):
            if c not in cells:
                cells[c] = c
                order.append(c)
        i = 0
        while i < len(order):
            c = order[i]
            i += 1
            v = S.mem.get(c, UNDEF)
            try:
                shape.append((cells[c], visit(v)))
            except RecursionError:
                raise Unknown('deep value')
        self._order = order
        return tuple(shape), leaves, cells

    def structural(self, t):
        """terms that are part of the shape rather than generalised"""
        h = self.hooks.get('structural')
        return h(t) if h else None

    def loop_abs(self, S0, fid, hdr, blocks):
        base_n = S0.n
        S0 = S0.clone()
        if self.hooks.get('heavy'):
            self.hooks['heavy'](S0, 'pass', 'a loop in ' + S0.frames[-1].fn.name)
        templates = []  # dicts
        T0 = self.mk_template(S0, fid, hdr, base_n, entry=True)
        templates.append(T0)
        work = [T0]
        rounds = 0
        # the entry must be covered by a template too: T0 is generalised in place
        while work:
            rounds += 1
            if rounds > 60:
                S0.out = ('unknown', 'no fixpoint at loop in %s' % S0.frames[-1].fn.name)
                return [S0]
            T = work.pop(0)
            T['queued'] = False
            st = T['state'].clone()
            outs = self.iterate(st, fid, hdr, blocks)
            T['exits'] = [o for o in outs if not (o.out is None and o.tag == 'back')]
            T['edges'] = []
            bad = [o for o in T['exits'] if o.out is not None and o.out[0] == 'unknown']
            if bad:
                return bad[:1]
            for b in outs:
                if not (b.out is None and b.tag == 'back'):
                    continue
                shape, leaves, cells = self.canon(b, fid, hdr)
                cands = [t for t in templates if t['shape'] == shape]
                if not cands:
                    nt = self.mk_template(b, fid, hdr, base_n)
                    templates.append(nt)
                    nt['queued'] = True
                    work.append(nt)
                    T['edges'].append((b, nt, leaves))
                    if len(templates) > 80:
                        S0.out = ('unknown', 'too many loop shapes in %s' % S0.frames[-1].fn.name)
                        return [S0]
                    continue
                t = cands[0]
                ch = self.join(t, b, leaves)
                T['edges'].append((b, t, leaves))
                if ch and not t['queued']:
                    t['queued'] = True
                    work.append(t)
        exits = []
        for T in templates:
            exits += T['exits']
        accs = self.acc_summary(templates, T0)
        for e in exits:
            e.tag = None
            for k, v in accs.items():
                e.meta[('acc', k)] = v
        self.loopinfo = dict(templates=len(templates), edges=sum(len(t['edges']) for t in templates), rounds=rounds)
        h = self.hooks.get('loop_done')
        if h:
            h(self, S0, templates, exits)
        return exits

    def mk_template(self, S, fid, hdr, base_n, entry=False):
        S = S.clone()
        S.tag = None
        shape, leaves, cells = self.canon(S, fid, hdr)
        # drop unreachable cells
        S.mem = {c: v for c, v in S.mem.items() if c in cells}
        T = dict(state=S, shape=shape, leaves=leaves, bound=set(), kvar=None, queued=True, exits=[], edges=[], fid=fid, hdr=hdr, accs={},
                 entry=entry)
        # symbols made since the loop was entered are free to be renamed
        if not entry:
            for k, t, v in leaves:
                for s in term_syms(t):
                    if isinstance(s, tuple) and s and s[0] in ('pop', 'hv', 'ln') and s[-1] > base_n:
                        T['bound'].add(s)
        self.gc_facts(S, T)
        return T

    def gc_facts(self, S, T):
        """keep only facts about symbols that are still reachable (differences closed first)"""
        reach = set()
        for k, t, v in self.canon(S, T['fid'], T['hdr'])[1]:
            reach |= set(term_syms(t))
        keepfn = self.hooks.get('keep_sym')
        drop = self.hooks.get('drop_sym') if T.get('key') else None
        drop = drop(S) if drop else None

        def ok(s):
            if drop and s not in reach and drop(s):
                return False
            return s in reach or not (isinstance(s, tuple) and s and s[0] in ('pop', 'hv', 'ln', 'rv')) or (keepfn and keepfn(s))
        F = S.F
        # close differences over dropped atoms
        nodes = set()
        for (x, y) in F.dbm:
            nodes.add(x)
            nodes.add(y)

        def atom_ok(at):
            if at[0] == 'y':
                return ok(at[1])
            st = set()
            for b in at[1]:
                bit_atoms(b, st)
            return all(ok(x[1]) for x in st)
        good = [n for n in nodes if atom_ok(n)]
        new = {}
        for x in good:
            for y in good:
                if x == y:
                    continue
                c = F._dbm_path(x, y)
                if c is not None:
                    new[(x, y)] = c
        F.dbm = new
        F.iv = {a: v for a, v in F.iv.items() if atom_ok(a)}
        F.sub = {s: t for s, t in F.sub.items() if ok(s)}
        F.exp = {s: t for s, t in F.exp.items() if ok(s)}
        F.bits = BitMap({b: v for b, v in F.bits.items() if ok(b[1]) or not (isinstance(b[1], tuple))})
        F.nz = tuple(cl for cl in F.nz if all(ok(x[1]) for b in cl for x in _atoms(b)))
        F.ne = tuple(a for a in F.ne if all(ok(s) for s in term_syms(a)))
        F.ge = tuple(a for a in F.ge if all(ok(s) for s in term_syms(a)))
        S.meta = {k: v for k, v in S.meta.items() if k != 'reads' and not (isinstance(k, tuple) and k[0] == 'cd')}

    def join(self, T, b, bl):
        """make template T cover state b; True if T changed"""
        S = T['state']
        tl = T['leaves']
        sigma = {}
        changed = False
        FB = b.F
        gen = []
        for i, ((k1, t1, v1), (k2, t2, v2)) in enumerate(zip(tl, bl)):
            if k1 in ('i', 't'):
                if not self.match_term(S, T, t1, t2, sigma, FB):
                    gen.append(i)
            elif k1 == 'f':
                if isinstance(t1, tuple) and t1[0] == 'fsym' and t1[1] in T['bound']:
                    continue
                if t1 != t2:
                    gen.append(i)
            else:
                if t1 != t2:
                    gen.append(i)
        if gen:
            changed = True
            self.generalise(T, b, bl, gen, sigma)
        # constraints of T on its bound symbols must hold in b
        if self.weaken(T, b, sigma):
            changed = True
        return changed

    def match_term(self, S, T, t1, t2, sigma, FB):
        if isinstance(t1, int):
            return t1 == t2
        if isinstance(t1, BV):
            return t1 == t2
        free = [(at, k) for at, k in t1.a if at[0] == 'y' and at[1] in T['bound'] and at[1] not in sigma]
        if len(free) == 1 and abs(free[0][1]) >= 1:
            at, k = free[0]
            rest = mkaff(t1.c, {a: c for a, c in t1.a if a != at})
            rest = subst_syms(rest, sigma, FB)
            d = FB.sub_terms(t2, rest)
            if isinstance(d, int):
                if d % k:
                    return False
                sigma[at[1]] = d // k
                return True
            if any(c % k for _, c in d.a) or d.c % k:
                return False
            sigma[at[1]] = mkaff(d.c // k, {a: c // k for a, c in d.a})
            return True
        if free:
            return False
        return FB.simp(subst_syms(t1, sigma, FB)) == FB.simp(t2)

    def generalise(self, T, b, bl, gen, sigma):
        S = T['state']
        tl = T['leaves']
        repl = {}
        shared = {}
        # affine in a shared counter?
        for i in gen:
            k1, t1, v1 = tl[i]
            k2, t2, v2 = bl[i]
            nm = None
            if k1 in ('i', 't'):
                d = b.F.sub_terms(t2, t1)
                if isinstance(d, int) and d != 0 and T['kvar'] is None or T.get('knew') and isinstance(d, int):
                    if T['kvar'] is None:
                        kv = ('hv', 'K', S.fresh())
                        sym(kv, 62, 0, 1 << 40)
                        T['kvar'] = kv
                        T['bound'].add(kv)
                        T['knew'] = True
                        sigma[kv] = 1
                        for cs in self.hooks.get('track', ()):
                            at = ('y', cs)
                            lo = S.F.interval(Aff(0, ((at, 1),)))[0]
                            S.F.dbm[(at, ('y', kv))] = lo
                    nt = S.F.add_terms(t1, Aff(0, ((('y', T['kvar']), d),)))
                else:
                    w = v1.n if isinstance(v1, Int) else 64
                    sk = (w, isinstance(v1, Int) and v1.s, t1, t2)
                    if sk in shared:
                        repl[i] = shared[sk]
                        continue
                    nm = ('hv', 'x', S.fresh())
                    lo = 0 if not (isinstance(v1, Int) and v1.s) else -(1 << (w - 1))
                    hi = (1 << w) - 1 if lo == 0 else (1 << (w - 1)) - 1
                    sym(nm, w, lo, hi)
                    T['bound'].add(nm)
                    sigma[nm] = t2
                    nt = Aff(0, ((('y', nm), 1),))
                    T['accs'][nm] = (i, t1)
                    shared[sk] = nt
                    self.copy_facts(S.F, t1, nm)
                repl[i] = nt
            elif k1 == 'f':
                nm = ('hv', 'f', S.fresh())
                FSYMS[nm] = (-INF, INF)
                T['bound'].add(nm)
                T['accs'][nm] = (i, t1)
                repl[i] = ('fsym', nm)
            else:
                nm = ('hv', 'c', S.fresh())
                repl[i] = Cond(('u', nm))
        T['knew'] = False
        # rewrite the state
        ctr = [0]

        def rw(v):
            if isinstance(v, Int):
                t = S.F.simp(v.t)
                if self.structural(t) is not None:
                    return v
                i = ctr[0]
                ctr[0] += 1
                return Int(v.n, v.s, repl[i]) if i in repl else Int(v.n, v.s, t)
            if isinstance(v, Flt):
                i = ctr[0]
                ctr[0] += 1
                return Flt(repl[i]) if i in repl else v
            if isinstance(v, bool):
                return v
            if isinstance(v, Cond):
                r = self.bval(S, v)
                if isinstance(r, bool):
                    return r
                i = ctr[0]
                ctr[0] += 1
                return repl[i] if i in repl else v
            if isinstance(v, Agg):
                return Agg(v.ty, v.var, [rw(x) for x in v.fs])
            if isinstance(v, Ref):
                path = tuple(('i', rw(e[1])) if e[0] == 'i' else e for e in v.path)
                return Ref(v.cell, path, rw(v.meta))
            if isinstance(v, Obj):
                return Obj(v.kind, *[rw(x) for x in v.fs])
            if isinstance(v, tuple):
                return tuple(rw(x) for x in v)
            if isinstance(v, (Aff, BV)):
                i = ctr[0]
                ctr[0] += 1
                return repl[i] if i in repl else v
            return v
        shape, leaves, cells = self.canon(S, T['fid'], T['hdr'])
        for c in list(self._order):
            if c in S.mem:
                S.mem[c] = rw(S.mem[c])
        shape, leaves, cells = self.canon(S, T['fid'], T['hdr'])
        if shape != T['shape']:
            T['shape'] = shape
        T['leaves'] = leaves

    def copy_facts(self, F, t, nm):
        """what is known of symbol term t, tentatively assumed of nm as well (weaken
        drops what does not hold)"""
        if not (isinstance(t, Aff) and t.c == 0 and len(t.a) == 1 and t.a[0][1] == 1 and t.a[0][0][0] == 'y'):
            return
        at, new = t.a[0][0], ('y', nm)
        for (x, y), c in list(F.dbm.items()):
            if x == at and y != new:
                F.dbm[(new, y)] = c
            if y == at and x != new:
                F.dbm[(x, new)] = c
        if at in F.iv:
            lo, hi = F.iv[at]
            F.iv[new] = (max(lo, SYMS[nm][1]), min(hi, SYMS[nm][2]))
        for d in F.ne:
            if any(a == at for a, k in d.a):
                F.ne = F.ne + (mkaff(d.c, {(new if a == at else a): k for a, k in d.a}),)

    def weaken(self, T, b, sigma):
        F = T['state'].F
        FB = b.F
        bound = T['bound']
        changed = False

        def touches(t):
            return any(s in bound for s in term_syms(t))

        def holds(op, t, c=0):
            try:
                u = FB.simp(subst_syms(t, sigma, FB))
                return FB.decide(op, u, c) is True
            except Infeasible:
                return True
        for s in list(F.sub):
            t = F.sub[s]
            me = Aff(0, ((('y', s), 1),))
            try:
                u = FB.simp(subst_syms(t, sigma, FB))
                v = FB.simp(sigma[s] if s in sigma else me)
                same = FB.decide('eq', u, v) is True
            except Infeasible:
                same = True
            if not same:
                l1, h1 = F.interval(t)
                del F.sub[s]
                changed = True
                l2, h2 = FB.interval(v)
                lo, hi = min(l1, l2), max(h1, h2)
                if lo > SYMS[s][1] or hi < SYMS[s][2]:
                    F.iv[('y', s)] = (max(lo, SYMS[s][1]), min(hi, SYMS[s][2]))
        nd = {}
        for (x, y), c in F.dbm.items():
            d = mkaff(0, {x: 1, y: -1})
            if True:
                if not holds('ge', d, c):
                    # weaken to what holds
                    try:
                        u = FB.simp(subst_syms(d, sigma, FB))
                        lo = FB.lower(u) if isinstance(u, Aff) else u
                    except Infeasible:
                        lo = c
                    changed = True
                    if lo > -(1 << 20) and lo < c and T.setdefault('wk', {}).setdefault((x, y), 0) < 2:
                        T['wk'][(x, y)] += 1
                        nd[(x, y)] = lo
                    continue
            nd[(x, y)] = c
        F.dbm = nd
        ni = {}
        for at, (lo, hi) in F.iv.items():
            a = Aff(0, ((at, 1),))
            if True:
                u = FB.simp(subst_syms(a, sigma, FB))
                l2, h2 = FB.interval(u)
                if l2 < lo or h2 > hi:
                    changed = True
                    cnt = T.setdefault('wk', {}).setdefault(at, 0)
                    T['wk'][at] += 1
                    if at[0] == 'y':
                        dl, dh = SYMS[at[1]][1:3]
                    else:
                        dl, dh = 0, (1 << len(at[1])) - 1
                    lo = lo if l2 >= lo else (l2 if cnt < 2 else dl)
                    hi = hi if h2 <= hi else (h2 if cnt < 2 else dh)
            ni[at] = (lo, hi)
        F.iv = ni
        ne = []
        for d in F.ne:
            if not holds('ne', d):
                changed = True
                continue
            ne.append(d)
        F.ne = tuple(ne)
        ge = []
        for d in F.ge:
            if not holds('ge', d):
                changed = True
                continue
            ge.append(d)
        F.ge = tuple(ge)
        # bit-level knowledge about renamable symbols
        for bkey in list(F.bits):
            if bkey[1] in bound:
                t = sigma.get(bkey[1])
                okb = False
                if t is not None:
                    try:
                        okb = FB.rbit(FB.as_bits(t, bkey[2] + 1)[bkey[2]]) == F.bits[bkey]
                    except Unknown:
                        okb = False
                if not okb:
                    del F.bits[bkey]
                    changed = True
        for s in list(F.exp):
            if s in bound:
                del F.exp[s]
                changed = True
        keep = []
        for cl in F.nz:
            if any(x[1] in bound for bb in cl for x in _atoms(bb)):
                changed = True
                continue
            keep.append(cl)
        F.nz = tuple(keep)
        # facts about symbols that are not renamable must hold as they are
        for bkey in list(F.bits):
            if bkey[1] not in bound and FB.rbit(bkey) != F.rbit(bkey):
                if isinstance(bkey[1], tuple) and bkey[1][0] == 'pop':
                    continue
                del F.bits[bkey]
                changed = True
        for s in list(F.exp):
            if s not in bound and s not in FB.exp:
                del F.exp[s]
                changed = True
        tm = T['state'].meta
        for k in [k for k in tm if isinstance(k, tuple) and k[0] == 'fresh']:
            s2 = sigma.get(k[1])
            if k[1] in bound:
                s2 = s2.a[0][0][1] if isinstance(s2, Aff) and s2.c == 0 and len(s2.a) == 1 else None
            else:
                s2 = k[1]
            if b.meta.get(('fresh', s2)) != tm[k]:
                del tm[k]
                changed = True
        if T['state'].taint is False and b.taint:
            T['state'].taint = True
            changed = True
        lg = T['state'].log
        if b.log != lg:
            extra = tuple(e for e in b.log if e not in lg)
            if extra:
                T['state'].log = lg + extra
                changed = True
        return changed

    def acc_summary(self, templates, T0):
        """meaning of accumulator symbols of a single self-looping template:
        initial value and the list of (edge state, added term)"""
        out = {}
        for T in templates:
            for nm, (i, init) in T['accs'].items():
                es = []
                ok = True
                for t in templates:
                    for (b, tgt, leaves) in t['edges']:
                        if tgt is not T or t is not T:
                            if tgt is T:
                                ok = False
                            continue
                        k, e, v = leaves[i]
                        if k == 'f':
                            if isinstance(e, tuple) and e[0] == '+' and e[1] == ('fsym', nm):
                                es.append((b, e[2]))
                            elif isinstance(e, tuple) and e[0] == '+' and e[2] == ('fsym', nm):
                                es.append((b, e[1]))
                            elif e == ('fsym', nm):
                                es.append((b, 0.0))
                            else:
                                ok = False
                        else:
                            d = b.F.sub_terms(e, Aff(0, ((('y', nm), 1),)))
                            if isinstance(d, int):
                                es.append((b, d))
                            else:
                                ok = False
                h = self.hooks.get('acc')
                out[nm] = h(self, nm, init, es, ok, T) if h else ('acc', init, ok, None)
        return out


def _atoms(b):
    st = set()
    bit_atoms(b, st)
    return st


def term_syms(t):
    if isinstance(t, int) or isinstance(t, float):
        return []
    out = []
    if isinstance(t, BV):
        st = set()
        for b in t:
            bit_atoms(b, st)
        return [x[1] for x in st]
    if isinstance(t, Aff):
        for at, k in t.a:
            if at[0] == 'y':
                out.append(at[1])
                if isinstance(at[1], tuple) and at[1][0] == 't':
                    out += term_syms(at[1][1])
            else:
                for b in at[1]:
                    out += [x[1] for x in _atoms(b)]
        return out
    if isinstance(t, tuple):
        if t and t[0] == 'fsym':
            return [t[1]]
        if t and t[0] == 'i2f':
            return term_syms(t[1])
        for x in t[1:]:
            out += term_syms(x)
        return out
    if isinstance(t, Cond):
        return cond_syms(t.k)
    return out


def cond_syms(k):
    if k[0] in ('i', 'f'):
        return term_syms(k[2]) + term_syms(k[3])
    if k[0] == 'u':
        return []
    out = []
    for x in k[1:]:
        out += cond_syms(x)
    return out


def subst_syms(t, sigma, F):
    if not isinstance(t, Aff) or not sigma:
        return t
    c = t.c
    d = {}
    for at, k in t.a:
        if at[0] == 'y' and at[1] in sigma:
            r = F.as_aff(F.simp(sigma[at[1]]))
            if isinstance(r, int):
                c += k * r
            else:
                c += k * r.c
                for a2, k2 in r.a:
                    d[a2] = d.get(a2, 0) + k * k2
        else:
            d[at] = d.get(at, 0) + k
    return mkaff(c, d)


class Ctx:
    """what a native needs to know about its call site"""
    __slots__ = ('I', 'S', 'fr', 'name', 'fn', 'term')

    def __init__(self, I, S, fr, name, fn, term):
        self.I = I
        self.S = S
        self.fr = fr
        self.name = name
        self.fn = fn
        self.term = term


class Invoke:
    """returned by a native to continue as a call of another function"""

    def __init__(self, name, fn, args):
        self.name = name
        self.fn = fn
        self.args = args


NOTNATIVE = object()
DIVERGED = object()
