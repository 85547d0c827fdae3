"""Meaning of the functions the analyses do not read as MIR: collections,
slices, numeric intrinsics, and the opaque element / hasher types of the
harness.

Containers of sparse codes are abstracted with respect to one witness code w
(the symbol CODEW): an abstract container knows whether it holds w, how it is
ordered, its last element, its number of elements and (for the compressed
list) its byte length as elements + padding.

    Obj('codes', kind, has_w, order, last, cnt, pad)
        kind   'set' | 'vec' | 'dif'
        has_w  bool
        order  'strict' | 'sorted' | 'uniq' | 'any'
        last   None (empty) or Int
        cnt, pad  Int (64 bit)
    Obj('codesiter', codes, w_done, last, started, byref, id)

An unordered vector filled with elements taken one by one from a single
iteration over distinct codes has kind ('vec', id): its elements are distinct.
Registers are abstracted with respect to one witness register k (symbol KAPPA):
    Obj('regs', label, kind, count, events)
    Obj('regiter', regs, idx)
"""
import math
from dom import *
from interp import *

CODEW = ('w',)
KAPPA = ('kappa',)
HASH = ('h',)
sym(CODEW, 32, 1, (1 << 32) - 1)
sym(HASH, 64)
HCODE = sym(('hc',), 32, 1, (1 << 32) - 1)


def symv(name, n=64):
    return Int(n, False, Aff(0, ((('y', name), 1),)))


def has_sym(t, s):
    return s in term_syms(t)


# ---------------------------------------------------------------- helpers
def path_pred(*suffixes):
    ss = tuple(suffixes)

    def f(n):
        return n.endswith(ss)
    return f


def eq_pred(*names):
    s = set(names)
    return lambda n: n in s


def deref(c, v):
    n = 0
    while isinstance(v, Ref) and v.meta is None:
        w = c.I.load(c.S, v)
        if not isinstance(w, Ref):
            return v, w
        v = w
        n += 1
        if n > 8:
            raise Unknown('reference chain')
    if isinstance(v, Ref):
        return v, c.I.load(c.S, v)
    raise Unknown('reference expected, got %r' % (v,))


def elem_ty(c, k=0):
    ga = c.fn.ga if c.fn else None
    if ga and isinstance(ga[k], int):
        return c.I.p.types[ga[k]]
    return None


def some(v):
    return Agg(None, 1, (v,))


NONE = Agg(None, 0, ())


def temp(c, v):
    cell = ('h', c.S.fresh())
    c.S.mem[cell] = v
    return Ref(cell)


def tri(S, a, b, alts):
    """three-way split of a against b: alts = (lt, eq, gt) continuations tags; returns tag"""
    r = {}
    for op in ('lt', 'eq', 'gt'):
        d = S.F.decide(op, a, b)
        if d is True:
            return op
        r[op] = d
    raise Fork([(lambda T, op=op: T.F.assume(op, a, b)) for op in ('lt', 'eq', 'gt') if r[op] is not False], 'order')


def eqdec(S, a, b):
    d = S.F.decide('eq', a, b)
    if d is not None:
        return d
    raise Fork([lambda T: T.F.assume('eq', a, b), lambda T: T.F.assume('ne', a, b)], 'equality')


def choose(c, key, names):
    """a nondeterministic choice, remembered in the state until consumed"""
    k = ('choice', key)
    v = c.S.meta.pop(k, None)
    if v is not None:
        return v

    def mk(n):
        def f(T):
            T.meta[k] = n
        return f
    raise Fork([mk(n) for n in names], 'choice')


def peek(c, key):
    return c.S.meta.get(('choice', key))


# ---------------------------------------------------------------- codes
def codes_empty(kind):
    order = 'uniq' if kind == 'set' else 'strict'
    return Obj('codes', kind, False, order, None, Int(64, False, 0), Int(64, False, 0))


def codes_add(c, o, x, dup=None):
    """append/insert code x (Int 32)"""
    S = c.S
    kind, has_w, order, last, cnt, pad = o.fs
    t = S.F.simp(x.t)
    isw = is_w(S, t)
    if kind == 'set':
        if isw and has_w:
            return o, False
        if not isw:
            # presence unknown: either new or already there
            if isinstance(S.F.simp(cnt.t), int) and S.F.simp(cnt.t) == 0:
                new = True
            else:
                new = choose(c, 'setins', (True, False))
            if not new:
                return o, False
        cnt2 = Int(64, False, S.F.add_terms(cnt.t, 1))
        lo, hi = S.F.interval(cnt2.t)
        if hi > (1 << 32):
            S.F.assume('le', cnt2.t, 1 << 32)
        return Obj('codes', kind, has_w or isw, order, last, cnt2, pad), True
    # vec / dif: append
    if last is None:
        no = order
    else:
        if order in ('strict', 'sorted'):
            r = S.F.decide('gt', t, last.t)
            if r is True:
                no = order
            else:
                g = S.F.decide('ge', t, last.t)
                if g is True and r is False:
                    no = 'sorted'
                elif kind == 'dif':
                    ev(S, ('order', S.taint))
                    no = order
                else:
                    no = 'any'
        else:
            no = 'any'
    if kind != 'dif':
        fk = ('fresh', CODEW if isw else t.a[0][0][1] if isinstance(t, Aff) and t.c == 0 and len(t.a) == 1 else None)
        src = S.meta.pop(fk, None)
        if src is None or isw and has_w or not (last is None or kind == ('vec', src)):
            kind = 'vec'
        else:
            kind = ('vec', src)
    cnt2 = Int(64, False, S.F.add_terms(cnt.t, 1))
    lo, hi = S.F.interval(cnt2.t)
    if hi > (1 << 40):
        S.F.assume('le', cnt2.t, 1 << 40)
    pad2 = pad
    if kind == 'dif':
        ps = ('ln', 'pad', S.fresh())
        sym(ps, 3, 0, 4)
        pad2 = Int(64, False, S.F.add_terms(pad.t, Aff(0, ((('y', ps), 1),))))
        lo, hi = S.F.interval(pad2.t)
        if hi > (1 << 42):
            S.F.assume('le', pad2.t, 1 << 42)
    return Obj('codes', kind, has_w or isw, no, Int(32, False, t), cnt2, pad2), True


def ev(S, e):
    if e not in S.log:
        S.log = S.log + (e,)


def is_w(S, t):
    """whether a code term is the witness"""
    w = Aff(0, ((('y', CODEW), 1),))
    if isinstance(t, Aff) and t == w:
        return True
    if t == HCODE or HASH in term_syms(t) or S.meta.get('inserting') and not term_syms(t):
        # the code of the hash being inserted: it may or may not be the witness
        v = S.meta.get('hcw')
        if v is None:
            def mk(b):
                def f(T):
                    T.meta['hcw'] = b
                return f
            raise Fork([mk(True), mk(False)], 'inserted code is the witness')
        return v
    if isinstance(t, Aff) and len(t.a) == 1 and t.c == 0 and t.a[0][0][0] == 'y' and t.a[0][0][1][0] == 'pop':
        if t.a[0][0][1][1] == 'o':
            return False
    d = S.F.decide('eq', t, w)
    if d is None:
        raise Fork([lambda T: T.F.assume('eq', t, w), lambda T: T.F.assume('ne', t, w)], 'witness code')
    return d


def iter_id(c):
    """an iteration is named by where it starts; starting it again ends what was known
    of vectors filled from its previous run"""
    S = c.S
    i = (c.fr.fn.id, c.fr.bb) if c.fr is not None else (0, 0)
    for cell, v in list(S.mem.items()):
        if isinstance(v, Obj) and v.kind == 'codes' and v.fs[0] == ('vec', i):
            S.mem[cell] = Obj('codes', 'vec', *v.fs[1:])
    for k in [k for k in S.meta if isinstance(k, tuple) and k[0] == 'fresh' and S.meta[k] == i]:
        del S.meta[k]
    return i


def iter_next(c, it):
    """(new iterator, Option<code>)"""
    S = c.S
    src, w_done, last, started = it.fs[:4]
    kind, has_w, order, slast, cnt, pad = src.fs
    F = S.F
    names = []
    n = F.simp(cnt.t)
    empty = F.decide('eq', n, 0)
    exact = isinstance(n, int) and n <= 8
    w = Aff(0, ((('y', CODEW), 1),))
    if exact:
        # a known number of elements: `started` counts those delivered
        left = n - int(started)
        if left <= 0:
            names.append('end')
        else:
            if has_w and not w_done:
                names.append('w')
            elif has_w and order in ('sorted', 'any'):
                names.append('w2')
            if left > 1 or not has_w or w_done:
                names.append('o')
    else:
        if empty is not True:
            if has_w and not w_done:
                names.append('w')
            elif has_w and order in ('sorted', 'any'):
                names.append('w2')
            names.append('o')
        if not (has_w and not w_done) and not (empty is False and not started):
            names.append('end')
    k = choose(c, 'pop', tuple(names)) if len(names) > 1 or peek(c, 'pop') else names[0]
    if not exact:
        S.pops += 1
    if k == 'end':
        return Obj('codesiter', src, w_done, last, started, *it.fs[4:]), NONE
    if empty is None:
        F.assume('ge', n, 1)
    if k in ('w', 'w2'):
        x = w
    else:
        nm = ('pop', 'o', S.fresh())
        sym(nm, 32, 1, (1 << 32) - 1)
        x = Aff(0, ((('y', nm), 1),))
    if order in ('strict', 'sorted'):
        if last is not None:
            F.assume('gt' if order == 'strict' else 'ge', x, last.t)
        if k == 'o' and has_w:
            F.assume('gt' if w_done else 'lt', x, w) if order == 'strict' else (F.assume('lt', x, w) if not w_done else None)
    if k == 'o' and not (order == 'strict' and has_w):
        F.assume('ne', x, w)
    if order in ('strict', 'uniq'):
        S.meta[('fresh', x.a[0][0][1])] = it.fs[5]
    xi = Int(32, False, x)
    return Obj('codesiter', src, w_done or k == 'w', xi if order in ('strict', 'sorted') else None, int(started) + 1 if exact else True, *it.fs[4:]), some(xi)


# ---------------------------------------------------------------- vectors
def n_vec_new(c, a):
    et = elem_ty(c)
    if c.I.hooks.get('codes') and et and et['k'] == 'int' and et['bits'] == 32:
        return codes_empty('vec')
    if c.I.hooks.get('codes') and et and et['k'] == 'int' and et['bits'] == 8:
        raise Unknown('byte vector in the upper layer')
    return Obj('vlist')


def n_from_elem(c, a):
    v, n = a
    t = c.S.F.simp(n.t)
    if isinstance(v, Int):
        return Obj('varr', ('rep', v), t, (), (v.n, v.s))
    if isinstance(t, int) and t <= 4096:
        return Obj('vlist', *([v] * t))
    return Obj('varr', ('rep', v), t, (), (0, False))


def n_vec_len(c, a):
    r, v = deref(c, a[0])
    return c.I.usize(vec_len(c, v))


def vec_len(c, v):
    if isinstance(v, Obj):
        if v.kind == 'vlist':
            return len(v.fs)
        if v.kind == 'varr':
            return v.fs[1]
        if v.kind == 'codes':
            k, hw, o, l, cnt, pad = v.fs
            if c.S.F.interval(cnt.t)[1] > 1 << 40:
                c.S.F.assume('le', cnt.t, 1 << 40)
            return cnt.t
        if v.kind == 'vbytes':
            return c.S.F.add_terms(v.fs[0], len(v.fs[1]))
    if isinstance(v, Agg):
        return len(v.fs)
    raise Unknown('length of %r' % (v.kind if isinstance(v, Obj) else type(v).__name__))


def n_vec_is_empty(c, a):
    r, v = deref(c, a[0])
    t = vec_len(c, v)
    d = c.S.F.decide('eq', t, 0)
    return d if d is not None else Cond(('i', 'eq', c.S.F.simp(t), 0))


def n_vec_push(c, a):
    r, v = deref(c, a[0])
    x = a[1]
    if v.kind == 'codes':
        o, _ = codes_add(c, v, x)
        c.I.store(c.S, r, o)
    elif v.kind == 'vlist':
        if len(v.fs) > 5000:
            raise Unknown('long list')
        c.I.store(c.S, r, Obj('vlist', *(v.fs + (x,))))
    elif v.kind == 'vbytes':
        c.I.store(c.S, r, Obj('vbytes', v.fs[0], v.fs[1] + (x,), *v.fs[2:]))
    else:
        raise Unknown('push to ' + v.kind)
    return UNIT


def n_vec_clear(c, a):
    r, v = deref(c, a[0])
    if v.kind == 'codes':
        c.I.store(c.S, r, codes_empty(v.fs[0]))
    elif v.kind == 'varr':
        c.I.store(c.S, r, Obj('varr', v.fs[0], 0, (), v.fs[3]))
    else:
        c.I.store(c.S, r, Obj('vlist'))
    return UNIT


def slice_of(c, r, v):
    if isinstance(r, Ref) and r.meta is not None:
        return r
    return Ref(r.cell, r.path, (0, vec_len(c, v)))


def n_deref(c, a):
    r, v = deref(c, a[0])
    if isinstance(v, Obj) and v.kind in ('vlist', 'varr', 'vbytes', 'codes'):
        return slice_of(c, r, v)
    if isinstance(v, Obj) and v.kind == 'box':
        return v.fs[0]
    raise Unknown('deref')


def oob(c, what):
    c.I.panic(c.S, what, c.fr.fn, c.term[-1])
    return DIVERGED


def n_index(c, a):
    if isinstance(a[0], Ref) and a[0].meta is not None:
        r = a[0]
        st, ln = r.meta
        v = c.I.load(c.S, Ref(r.cell, r.path))
    else:
        r, v = deref(c, a[0])
        if r.meta is not None:
            st, ln = r.meta
        else:
            st, ln = 0, vec_len(c, v)
    i = a[1]
    F = c.S.F
    if isinstance(i, Int):
        d = F.decide('lt', i.t, ln)
        if d is None:
            raise Fork([lambda T: T.F.assume('lt', i.t, ln), lambda T: T.F.assume('ge', i.t, ln)], 'bounds')
        if d is False:
            return oob(c, 'index out of bounds')
        t = F.add_terms(st, i.t) if st != 0 else F.simp(i.t)
        return Ref(r.cell, r.path + (('i', t),))
    if isinstance(i, Agg):
        # ranges: identify by type name
        nm = c.I.p.types[i.ty]['n'].split('::')[-1] if isinstance(i.ty, int) and i.ty >= 0 else None
        lo, hi = 0, ln
        if nm == 'Range':
            lo, hi = i.fs[0].t, i.fs[1].t
        elif nm == 'RangeFrom':
            lo = i.fs[0].t
        elif nm == 'RangeTo':
            hi = i.fs[0].t
        elif nm == 'RangeFull':
            pass
        elif nm == 'RangeToInclusive':
            hi = F.add_terms(i.fs[0].t, 1)
        else:
            raise Unknown('range index')
        for (x, y) in ((lo, hi), (hi, ln)):
            d = F.decide('le', x, y)
            if d is None:
                raise Fork([lambda T: T.F.assume('le', x, y), lambda T: T.F.assume('gt', x, y)], 'range bounds')
            if d is False:
                return oob(c, 'range out of bounds')
        return Ref(r.cell, r.path, (F.add_terms(st, lo), F.sub_terms(hi, lo)))
    raise Unknown('index by %r' % (i,))


def n_get(c, a):
    """slice get / Vec get by usize"""
    if isinstance(a[0], Ref) and a[0].meta is not None:
        r = a[0]
        st, ln = r.meta
    else:
        r, v = deref(c, a[0])
        st, ln = (0, vec_len(c, v)) if r.meta is None else r.meta
    i = a[1]
    if not isinstance(i, Int):
        raise Unknown('get by range')
    F = c.S.F
    d = F.decide('lt', i.t, ln)
    if d is None:
        raise Fork([lambda T: T.F.assume('lt', i.t, ln), lambda T: T.F.assume('ge', i.t, ln)], 'bounds')
    if d is False:
        return NONE
    return some(Ref(r.cell, r.path + (('i', F.add_terms(st, i.t)),)))


def n_slice_iter(c, a):
    r = a[0]
    if not isinstance(r, Ref):
        raise Unknown('iter over non-slice')
    if r.meta is None:
        r, v = deref(c, r)
        if r.meta is None:
            r = slice_of(c, r, v)
    v = c.I.load(c.S, Ref(r.cell, r.path))
    if isinstance(v, Obj) and v.kind == 'codes':
        return Obj('codesiter', v, False, None, False, True, iter_id(c))
    return Obj('sliceiter', Ref(r.cell, r.path), Int(64, False, r.meta[0]), Int(64, False, c.S.F.add_terms(r.meta[0], r.meta[1])))


def n_slice_next(c, a):
    r, it = deref(c, a[0])
    if it.kind == 'sliceiter':
        base, pos, end = it.fs
        d = c.S.F.decide('lt', pos.t, end.t)
        if d is None:
            raise Fork([lambda T: T.F.assume('lt', pos.t, end.t), lambda T: T.F.assume('ge', pos.t, end.t)], 'slice end')
        if d is False:
            return NONE
        c.I.store(c.S, r, Obj('sliceiter', base, Int(64, False, c.S.F.add_terms(pos.t, 1)), end))
        return some(Ref(base.cell, base.path + (('i', c.S.F.simp(pos.t)),)))
    return any_next(c, r, it)


def any_next(c, r, it):
    if it.kind == 'codesiter':
        n, v = iter_next(c, it)
        c.I.store(c.S, r, n)
        if v.var == 1 and it.fs[4]:
            return some(temp(c, v.fs[0]))
        return v
    if it.kind == 'regiter':
        return reg_next(c, r, it)
    raise Unknown('next on ' + it.kind)


def n_obj_next(c, a):
    """Iterator::next for iterator types standing for abstract sequences"""
    v = a[0]
    if isinstance(v, Ref) and v.meta is None:
        r, it = deref(c, v)
        if isinstance(it, Obj) and it.kind in ('codesiter', 'regiter'):
            return any_next(c, r, it)
        if isinstance(it, Obj) and it.kind == 'sliceiter':
            return n_slice_next(c, a)
    return NOTNATIVE


def n_size_hint(c, a):
    r, it = deref(c, a[0])
    if isinstance(it, Obj):
        return Agg(-1, 0, (Int(64, False, 0), NONE))
    return NOTNATIVE


def n_sort(c, a):
    r, v = deref(c, a[0])
    if isinstance(v, Obj) and v.kind == 'codes':
        k, hw, order, last, cnt, pad = v.fs
        o2 = {'strict': 'strict', 'uniq': 'strict', 'sorted': 'sorted', 'any': 'sorted'}[order]
        if isinstance(k, tuple):
            k, o2 = 'vec', 'strict'
        nl = None
        if last is not None or True:
            nm = ('hv', 'last', c.S.fresh())
            sym(nm, 32, 0, (1 << 32) - 1)
            nl = Int(32, False, Aff(0, ((('y', nm), 1),)))
            if hw:
                c.S.F.assume('ge', nl.t, Aff(0, ((('y', CODEW), 1),)))
        c.I.store(c.S, Ref(r.cell, r.path), Obj('codes', k, hw, o2, nl, cnt, pad))
        return UNIT
    raise Unknown('sort')


def closure_term(c, f, n, two=False):
    """the value a closure computes from one code (as a term over a fresh symbol), or from two"""
    syms, refs = [], []
    T = c.S.clone()
    for k in range(2 if two else 1):
        nm = ('hv', 'key', k)
        sym(nm, 32, 1, (1 << 32) - 1)
        cell = ('h', ('key', k))
        T.mem[cell] = Int(32, False, Aff(0, ((('y', nm), 1),)))
        syms.append(nm)
        refs.append(Ref(cell))
    tgt = f
    while isinstance(tgt, Ref):
        tgt = c.I.load(T, tgt)
    if not (isinstance(tgt, Agg) and isinstance(tgt.ty, int) and tgt.ty >= 0 and c.I.p.types[tgt.ty]['k'] == 'closure'):
        raise Unknown('sort by something else than a closure')
    body = c.I.p.fns.get(c.I.p.types[tgt.ty]['fn'])
    if body is None or body.body is None:
        raise Unknown('closure without a body')
    env = tgt
    if c.I.p.types[body.locals[1]]['k'] == 'ref':
        T.mem[('h', 'env')] = tgt
        env = Ref(('h', 'env'))
    T.frames = []
    I = type(c.I)(c.I.p, c.I.natives)
    I.hooks = dict(c.I.hooks)
    I.hooks.pop('visited', None)
    outs = I.run(body, [env] + refs, T)
    return syms, outs


def n_sort_key(c, a):
    """sorting by a key: the order of the codes if the key is the code, no known order otherwise"""
    r, v = deref(c, a[0])
    if not (isinstance(v, Obj) and v.kind == 'codes'):
        raise Unknown('sort')
    syms, outs = closure_term(c, a[1], 1)
    if len(outs) != 1 or outs[0].out[0] != 'ret':
        raise Unknown('sort key')
    o = outs[0]
    x = o.out[1]
    while isinstance(x, Ref):
        x = c.I.load(o, x)
    if not isinstance(x, Int):
        raise Unknown('sort key')
    t = o.F.simp(x.t)
    if t == Aff(0, ((('y', syms[0]), 1),)):
        return n_sort(c, a)
    b = o.F.as_bits(t, x.n)
    mine = [('s', syms[0], i) for i in range(32)]
    if not all(z in (0, 1) or z in mine for z in b) or all(m in b for m in mine):
        raise Unknown('sort key')
    # the key forgets a bit of the code: codes that agree on the rest come in any order
    k, hw, order, last, cnt, pad = v.fs
    c.I.store(c.S, Ref(r.cell, r.path), Obj('codes', k, hw, 'uniq' if isinstance(k, tuple) or order in ('strict', 'uniq') else 'any', last, cnt, pad))
    return UNIT


def n_dedup_key(c, a):
    """a code is dropped if the one kept before it has the same key"""
    r, v = deref(c, a[0])
    if not (isinstance(v, Obj) and v.kind == 'codes' and v.fs[2] == 'strict' and not isinstance(v.fs[0], tuple)):
        raise Unknown('dedup')
    syms, outs = closure_term(c, a[1], 1)
    if len(outs) != 1 or outs[0].out[0] != 'ret':
        raise Unknown('dedup key')
    o = outs[0]
    x = o.out[1]
    while isinstance(x, Ref):
        x = c.I.load(o, x)
    if not isinstance(x, Int):
        raise Unknown('dedup key')
    b = o.F.as_bits(o.F.simp(x.t), x.n)
    mine = [('s', syms[0], i) for i in range(32)]
    if not all(z in (0, 1) or z in mine for z in b):
        raise Unknown('dedup key')
    gone = [i for i in range(32) if mine[i] not in b]
    if not gone:
        return UNIT
    k, hw, order, last, cnt, pad = v.fs
    S = c.S
    d = S.F.decide('ge', cnt.t, 2)
    if d is None:
        raise Fork([lambda T: T.F.assume('ge', cnt.t, 2), lambda T: T.F.assume('lt', cnt.t, 2)], 'dedup')
    if not d:
        return UNIT
    drop = False
    if hw:
        feas = c.I.hooks.get('joint_feasible')
        if feas is None:
            raise Unknown('dedup by a key')
        # another code before w that differs from it in one forgotten bit
        u = ('pop', 'dedup')
        sym(u, 32, 1, (1 << 32) - 1)
        for j in reversed(gone):
            G = S.F.copy()
            try:
                for i in range(32):
                    if i != j:
                        G.unify(('s', u, i), ('s', CODEW, i))
                G.unify(('s', u, j), 0)
                G.unify(('s', CODEW, j), 1)
                if feas(G, (u, CODEW)):
                    break
            except Infeasible:
                continue
        else:
            raise Unknown('dedup by a key')
        drop = choose(c, 'dedup', (False, True))
    nm = ('ln', 'dd', S.fresh())
    sym(nm, 40, 0, 1 << 40)
    n2 = Aff(0, ((('y', nm), 1),))
    S.F.assume('le', n2, cnt.t)
    if S.F.decide('ge', cnt.t, 1):
        S.F.assume('ge', n2, 1)
    if drop:
        S.F.assume('lt', n2, cnt.t)
    n2 = S.F.simp(n2)
    if drop and S.F.decide('eq', n2, 1):
        n2 = 1
    c.I.store(S, r, Obj('codes', k, hw and not drop, 'strict', last, Int(64, False, n2), pad))
    return UNIT


def n_nth(c, a):
    if isinstance(a[0], Ref) and a[0].meta is None:
        r, it = deref(c, a[0])
        if isinstance(it, Obj) and it.kind in ('codesiter', 'regiter', 'sliceiter') and isinstance(a[1], Int):
            F = c.S.F
            n = F.simp(a[1].t)
            d = F.decide('eq', n, 0)
            if d is None:
                raise Fork([lambda T: T.F.assume('eq', n, 0), lambda T: T.F.assume('ne', n, 0)], 'nth')
            if d:
                return n_slice_next(c, a) if it.kind == 'sliceiter' else any_next(c, r, it)
            if it.kind == 'codesiter' and F.decide('eq', n, 1) is None:
                raise Fork([lambda T: T.F.assume('eq', n, 1), lambda T: T.F.assume('ne', n, 1)], 'nth')
            if it.kind == 'codesiter' and F.decide('eq', n, 1):
                s = c.S.meta.get('nth')
                if s is None:
                    v = any_next(c, r, it)
                    if v.var == 0:
                        return v
                    c.S.meta['nth'] = True
                r2, it2 = deref(c, a[0])
                v = any_next(c, r2, it2)
                c.S.meta.pop('nth', None)
                return v
            raise Unknown('elements skipped by a number that is not known')
    return NOTNATIVE


def n_take_skip(c, a):
    """take(n) and skip(n) of a sequence of codes that nothing was read from: the
    witness may be at any position"""
    it, nv = a[0], a[1]
    byref = None
    if isinstance(it, Ref) and it.meta is None:
        byref, it = deref(c, it)
    if not (isinstance(it, Obj) and it.kind == 'codesiter' and isinstance(nv, Int)):
        return NOTNATIVE
    take = 'take' in c.name.split('::')[-1]
    S, F = c.S, c.S.F
    src, w_done, last, started = it.fs[:4]
    kind, has_w, order, slast, cnt, pad = src.fs
    n = F.simp(nv.t)
    d = F.decide('eq', n, 0)
    if not take and d is None:
        raise Fork([lambda T: T.F.assume('eq', n, 0), lambda T: T.F.assume('ne', n, 0)], 'skip')
    if not take and d:
        return a[0]
    if started or byref is not None and take or has_w and w_done:
        return NOTNATIVE
    ge = F.decide('ge', n, cnt.t)
    if ge is None:
        raise Fork([lambda T: T.F.assume('ge', n, cnt.t), lambda T: T.F.assume('lt', n, cnt.t)], 'all elements')
    if take:
        if ge:
            return it
        keep, c2 = None, n
    else:
        keep, c2 = None, (0 if ge else F.sub_terms(cnt.t, n))
    if not has_w:
        keep = False
    elif ge:
        keep = False
    else:
        keep = choose(c, 'part', (True, False))
    ps = ('ln', 'part', S.fresh())
    sym(ps, 42, 0, 1 << 42)
    p2 = Aff(0, ((('y', ps), 1),))
    F.assume('le', p2, pad.t)
    new = Obj('codesiter', Obj('codes', kind, keep, order, slast, Int(64, False, c2), Int(64, False, p2)), False, None, False, *it.fs[4:])
    if byref is not None:
        c.I.store(S, byref, new)
        return a[0]
    return new


def n_size_of_val(c, a):
    """the size of an element: any, for the opaque element types"""
    try:
        r, v = deref(c, a[0])
    except Unknown:
        return NOTNATIVE
    if not (isinstance(v, Obj) and v.kind == 'key'):
        return NOTNATIVE
    nm = ('ksize',) + tuple(map(str, v.fs))
    sym(nm, 64, 0, 1 << 62)
    return symv(nm)


def n_dedup(c, a):
    r, v = deref(c, a[0])
    if isinstance(v, Obj) and v.kind == 'codes':
        k, hw, order, last, cnt, pad = v.fs
        if order in ('strict', 'uniq') or isinstance(k, tuple):
            return UNIT
        if order == 'sorted':
            nm = ('ln', 'dd', c.S.fresh())
            sym(nm, 40, 0, 1 << 40)
            n2 = Aff(0, ((('y', nm), 1),))
            c.S.F.assume('le', n2, cnt.t)
            if c.S.F.decide('ge', cnt.t, 1):
                c.S.F.assume('ge', n2, 1)
            c.I.store(c.S, r, Obj('codes', k, hw, 'strict', last, Int(64, False, n2), pad))
            return UNIT
    raise Unknown('dedup')


# ---------------------------------------------------------------- hash set
def n_set_new(c, a):
    return codes_empty('set')


def need_codes(v):
    if not (isinstance(v, Obj) and v.kind == 'codes'):
        raise Unknown('hash set of something else')


def n_set_insert(c, a):
    r, v = deref(c, a[0])
    need_codes(v)
    h = c.I.hooks.get('set_insert')
    if h:
        x = h(c, v, a[1])
        if x is not None:
            c.I.store(c.S, r, x[0])
            return x[1]
    o, new = codes_add(c, v, a[1])
    c.I.store(c.S, r, o)
    return new


def n_set_contains(c, a):
    r, v = deref(c, a[0])
    need_codes(v)
    _, x = deref(c, a[1])
    if is_w(c.S, c.S.F.simp(x.t)):
        return v.fs[1]
    return choose(c, 'contains', (True, False))


def n_set_iter(c, a):
    r, v = deref(c, a[0])
    need_codes(v)
    return Obj('codesiter', v, False, None, False, True, iter_id(c))


def n_set_into_iter(c, a):
    v = a[0]
    if isinstance(v, Ref):
        r, v = deref(c, v)
        need_codes(v)
        return Obj('codesiter', v, False, None, False, True, iter_id(c))
    if isinstance(v, Obj) and v.kind == 'codesiter':
        return v
    if isinstance(v, Obj) and v.kind == 'codes':
        return Obj('codesiter', v, False, None, False, False, iter_id(c))
    return NOTNATIVE


def n_set_drain(c, a):
    r, v = deref(c, a[0])
    need_codes(v)
    c.I.store(c.S, r, codes_empty(v.fs[0]))
    return Obj('codesiter', v, False, None, False, False, iter_id(c))


def n_retain(c, a):
    raise Unknown('retain')


# ---------------------------------------------------------------- registers
RKINDS = {}


def regs_obj(label, kind, count, evs=frozenset()):
    return Obj('regs', label, kind, count, evs)


def n_regs_with_count(c, a):
    n = c.S.F.simp(a[0].t)
    ev(c.S, ('with_count', n))
    if c.I.hooks.get('with_count'):
        c.I.hooks['with_count'](c)
    return regs_obj('fresh', c.fn.defn.split('::')[-2], n)


def reg_width(kind):
    return 6 if kind == 'RegistersPlus' else 5


def n_regs_zeros(c, a):
    r, v = deref(c, a[0])
    nm = ('Z', v.fs[0], tuple(sorted(map(repr, v.fs[3]))))
    if nm not in SYMS:
        sym(nm, 40, 0, v.fs[2])
    else:
        SYMS[nm] = (40, 0, v.fs[2])
    return symv(nm)


def kappa_tri(S, t):
    k = Aff(0, ((('y', KAPPA), 1),))
    return tri(S, t, k, None)


def rv_kappa(label, kind):
    nm = ('rvk', label)
    w = reg_width(kind)
    sym(nm, w, 0, (1 << w) - 1)
    return Int(32, False, Aff(0, ((('y', nm), 1),)))


def note_read(S, label, evs, t, v):
    S.meta['reads'] = S.meta.get('reads', ()) + ((label, evs, t, v.t),)


def n_regs_get(c, a):
    r, v = deref(c, a[0])
    label, kind, count, evs = v.fs
    c.S.pops += 1
    if evs and c.I.hooks.get('kappa'):
        raise Unknown('register read after an update')
    i = c.S.F.simp(a[1].t)
    d = c.S.F.decide('lt', i, count)
    if d is None:
        raise Fork([lambda T: T.F.assume('lt', i, count), lambda T: T.F.assume('ge', i, count)], 'register bounds')
    if d is False:
        ev(c.S, ('regbounds', 'get'))
        return oob(c, 'register index out of bounds')
    if label == 'fresh' and not evs:
        v = Int(32, False, 0)
    elif c.I.hooks.get('kappa') and kappa_tri(c.S, i) == 'eq':
        v = rv_kappa(label, kind)
    else:
        v = fresh_reg(c, kind)
    if not c.I.hooks.get('kappa'):
        note_read(c.S, label, evs, i, v)
    return v


def fresh_reg(c, kind):
    nm = ('rv', kind, c.S.fresh())
    w = reg_width(kind)
    hi = c.I.hooks.get('maxrank', (1 << w) - 1)
    sym(nm, w, 0, hi)
    return Int(32, False, Aff(0, ((('y', nm), 1),)))


def n_regs_iter(c, a):
    r, v = deref(c, a[0])
    return Obj('regiter', v, Int(64, False, 0))


def reg_next(c, r, it):
    S = c.S
    regs, idx = it.fs
    label, kind, count, evs = regs.fs
    t = S.F.simp(idx.t)
    d = S.F.decide('lt', t, count)
    if d is None:
        raise Fork([lambda T: T.F.assume('lt', t, count), lambda T: T.F.assume('ge', t, count)], 'end of registers')
    S.pops += 1
    if d is False:
        S.F.assume('le', t, count)  # an iterator never passes the end
        return NONE
    if c.I.hooks.get('kappa'):
        o = kappa_tri(S, t)
        if label == 'fresh' and not evs:
            v = Int(32, False, 0)
        elif o == 'eq':
            v = rv_kappa(label, kind)
        else:
            v = fresh_reg(c, kind)
    else:
        v = fresh_reg(c, kind)
        note_read(S, label, evs, t, v)
    c.I.store(S, r, Obj('regiter', regs, Int(64, False, S.F.add_terms(t, 1))))
    return some(v)


def n_regs_set_greater(c, a):
    r, v = deref(c, a[0])
    h = c.I.hooks['set_greater']
    nv = h(c, v, a[1], a[2])
    if nv is DIVERGED:
        return DIVERGED
    if nv is not None:
        c.I.store(c.S, r, nv)
    return UNIT


def n_regs_size(c, a):
    return NOTNATIVE


# ---------------------------------------------------------------- DifIntVec (upper layer)
def n_dif_new(c, a):
    return codes_empty('dif')


def n_dif_push(c, a):
    r, v = deref(c, a[0])
    need_codes(v)
    o, _ = codes_add(c, v, a[1])
    c.I.store(c.S, r, o)
    return UNIT


def n_dif_count(c, a):
    r, v = deref(c, a[0])
    need_codes(v)
    return Int(64, False, v.fs[4].t)


def n_dif_len(c, a):
    r, v = deref(c, a[0])
    need_codes(v)
    return Int(64, False, c.S.F.add_terms(v.fs[4].t, v.fs[5].t))


def n_dif_clear(c, a):
    r, v = deref(c, a[0])
    c.I.store(c.S, r, codes_empty('dif'))
    return UNIT


def n_dif_iter(c, a):
    r, v = deref(c, a[0])
    need_codes(v)
    return Obj('codesiter', v, False, None, False, False, iter_id(c))


# ---------------------------------------------------------------- hashing
def n_build_hasher(c, a):
    r, v = deref(c, a[0])
    ev(c.S, ('build_hasher', 'n', c.S.fresh()) if c.I.hooks.get('count_hash') else ('build_hasher',))
    if not (isinstance(v, Obj) and v.kind == 'builder'):
        raise Unknown('builder')
    return Obj('hasher', v.fs[0], ())


def n_hash(c, a):
    r, v = deref(c, a[0])
    rh, h = deref(c, a[1])
    if not (isinstance(h, Obj) and h.kind == 'hasher'):
        raise Unknown('hasher')
    if not (isinstance(v, Obj) and v.kind == 'key'):
        raise Unknown('key')
    c.I.store(c.S, rh, Obj('hasher', h.fs[0], h.fs[1] + (v.fs[0],)))
    ev(c.S, ('hash', c.S.fresh()))
    return UNIT


def n_finish(c, a):
    rh, h = deref(c, a[0])
    nm = HASH if h.fs == ('self', ('k',)) else ('h?', h.fs)
    if nm != HASH:
        sym(nm, 64)
        ev(c.S, ('finish', h.fs))
    return symv(nm)


def n_write_any(c, a):
    rh, h = deref(c, a[0])
    c.I.store(c.S, rh, Obj('hasher', h.fs[0], h.fs[1] + (('w', repr(a[1])),)))
    return UNIT


def n_write_default(c, a):
    """a value written to the hasher beside the element's own"""
    try:
        rh, h = deref(c, a[0])
    except Unknown:
        return NOTNATIVE
    return n_write_any(c, a) if isinstance(h, Obj) and h.kind == 'hasher' else NOTNATIVE


def n_hash_slice(c, a):
    r = a[0]
    if not (isinstance(r, Ref) and r.meta is not None):
        return NOTNATIVE
    st, ln = (c.S.F.simp(x) for x in r.meta)
    if not (isinstance(st, int) and isinstance(ln, int) and ln <= 64):
        raise Unknown('a slice of elements is hashed')
    for i in range(st, st + ln):
        x = Ref(r.cell, r.path + (('i', i),))
        while True:
            v = deref(c, x)[1]
            if not isinstance(v, Ref):
                break
            x = v
        n_hash(c, [x, a[1]])
    return UNIT


def n_borrow(c, a):
    return a[0]


def n_clone_opaque(c, a):
    r, v = deref(c, a[0])
    return v


# ---------------------------------------------------------------- numbers
def bits_of(c, v):
    return c.S.F.as_bits(c.S.F.simp(v.t), v.n)


def n_lz(c, a):
    v = a[0]
    t = c.S.F.simp(v.t)
    n = v.n
    if isinstance(t, int):
        t &= (1 << n) - 1
        return Int(32, False, n - t.bit_length())
    bits = c.S.F.as_bits(t, n)
    for i in range(n - 1, -1, -1):
        b = c.S.F.rbit(bits[i])
        if b == 1:
            return Int(32, False, n - 1 - i)
        if b != 0:
            raise Fork([lambda T: T.F.setbit(b, 1), lambda T: T.F.setbit(b, 0)], 'leading bit')
    return Int(32, False, n)


def n_tz(c, a):
    v = a[0]
    t = c.S.F.simp(v.t)
    n = v.n
    if isinstance(t, int):
        t &= (1 << n) - 1
        return Int(32, False, n if t == 0 else (t & -t).bit_length() - 1)
    bits = c.S.F.as_bits(t, n)
    for i in range(n):
        b = c.S.F.rbit(bits[i])
        if b == 1:
            return Int(32, False, i)
        if b != 0:
            raise Fork([lambda T: T.F.setbit(b, 1), lambda T: T.F.setbit(b, 0)], 'trailing bit')
    return Int(32, False, n)


def n_popcount(c, a):
    v = a[0]
    t = c.S.F.simp(v.t)
    if isinstance(t, int):
        return Int(32, False, bin(t & ((1 << v.n) - 1)).count('1'))
    bits = [c.S.F.rbit(b) for b in c.S.F.as_bits(t, v.n)]
    und = [b for b in bits if b != 0 and b != 1]
    if len(und) > 12:
        raise Unknown('popcount')
    if und:
        b = und[0]
        raise Fork([lambda T: T.F.setbit(b, 1), lambda T: T.F.setbit(b, 0)], 'popcount')
    return Int(32, False, sum(bits))


def wrapping(op):
    def f(c, a):
        x, y = a
        return wrap_low(c, op, x, y)
    return f


def wrap_low(c, op, x, y):
    F = c.S.F
    n = x.n
    if op in ('Shl', 'Shr'):
        if isinstance(F.simp(y.t), int):
            y = Int(32, False, F.simp(y.t) % n)
            return c.I.binop(c.S, op, x, y)
        bits = F.as_bits(y.t, 8 if n > 1 else 1)
        k = n.bit_length() - 1
        return c.I.binop(c.S, op, x, Int(32, False, F.simp(BV(bits[:k]))))
    r, ov = c.I.binop(c.S, op, x, y, chk=True)
    return r


def checked(op):
    def f(c, a):
        x, y = a
        if op in ('Shl', 'Shr'):
            d = c.S.F.decide('lt', y.t, x.n)
            if d is None:
                raise Fork([lambda T: T.F.assume('lt', y.t, x.n), lambda T: T.F.assume('ge', y.t, x.n)], 'shift')
            return some(c.I.binop(c.S, op, x, y)) if d else NONE
        if op in ('Div', 'Rem'):
            if c.S.F.simp(y.t) == 0:
                return NONE
            return some(c.I.binop(c.S, op, x, y))
        r, ov = c.I.binop(c.S, op, x, y, chk=True)
        return NONE if ov else some(r)
    return f


def overflowing(op):
    def f(c, a):
        r, ov = c.I.binop(c.S, op, a[0], a[1], chk=True)
        return Agg(-1, 0, (r, ov))
    return f


def saturating(op):
    def f(c, a):
        x, y = a
        r, ov = c.I.binop(c.S, op, x, y, chk=True)
        if not ov:
            return r
        if x.s:
            raise Unknown('signed saturation')
        return Int(x.n, x.s, 0 if op == 'Sub' else (1 << x.n) - 1)
    return f


def n_max(mx):
    def f(c, a):
        x, y = a
        if isinstance(x, Flt):
            return Flt(fmk('fmax' if mx else 'fmin', c.S.F.fsimp(x.e), c.S.F.fsimp(y.e)))
        if not isinstance(x, Int):
            return NOTNATIVE
        d = c.S.F.decide('ge', x.t, y.t)
        if d is None:
            raise Fork([lambda T: T.F.assume('ge', x.t, y.t), lambda T: T.F.assume('lt', x.t, y.t)], 'max')
        return (x if d else y) if mx else (y if d else x)
    return f


def fun1(name):
    def f(c, a):
        return Flt(fmk(name, c.S.F.fsimp(a[0].e)))
    return f


def fun2(name):
    def f(c, a):
        x, y = a
        if isinstance(y, Int):
            t = c.S.F.simp(y.t)
            if not isinstance(t, int):
                return Flt(fmk('powi_' + name, c.S.F.fsimp(x.e)))
            return Flt(fmk(name, c.S.F.fsimp(x.e), float(t)))
        return Flt(fmk(name, c.S.F.fsimp(x.e), c.S.F.fsimp(y.e)))
    return f


def n_powi(c, a):
    x, y = a
    t = c.S.F.simp(y.t)
    if not isinstance(t, int):
        lo, hi = c.S.F.interval(t)
        if hi - lo > 80:
            raise Unknown('powi of unknown exponent')
        raise Fork([(lambda T, k=k: T.F.assume('eq', t, k)) for k in range(lo, hi + 1)], 'powi')
    e = c.S.F.fsimp(x.e)
    if isinstance(e, float):
        return Flt(e**t if e != 0 or t >= 0 else INF)
    if t == 2:
        return Flt(fmk('*', e, e))
    return Flt(fmk('powi', e, float(t)))


def n_powf(c, a):
    x, y = c.S.F.fsimp(a[0].e), c.S.F.fsimp(a[1].e)
    if isinstance(y, float) and y == 2.0:
        return Flt(fmk('*', x, x))
    if isinstance(y, tuple) and y[0] == 'neg' and y[1][0] == 'i2f' or isinstance(y, tuple) and y[0] == 'i2f':
        t = (y[1] if y[0] == 'neg' else y)[1]
        lo, hi = c.S.F.interval(t)
        if hi - lo <= 80:
            raise Fork([(lambda T, k=k: T.F.assume('eq', t, k)) for k in range(lo, hi + 1)], 'powf')
    return Flt(fmk('powf', x, y))


def n_log_base(c, a):
    x, y = c.S.F.fsimp(a[0].e), c.S.F.fsimp(a[1].e)
    return Flt(fmk('/', fmk('ln', x), fmk('ln', y)))


def n_f64_bool(name):
    def f(c, a):
        e = c.S.F.fsimp(a[0].e)
        if isinstance(e, float):
            return {'is_nan': e != e, 'is_finite': e - e == 0, 'is_infinite': abs(e) == INF}[name]
        if name == 'is_nan' and c.S.F.nonnan(e):
            return False
        iv = c.S.F.finterval(e)
        if iv and iv[0] > -INF and iv[1] < INF:
            return name == 'is_finite'
        return NOTNATIVE
    return f


def n_to_bits(c, a):
    e = c.S.F.fsimp(a[0].e)
    if isinstance(e, float):
        return Int(64, False, struct.unpack('<Q', struct.pack('<d', e))[0])
    raise Unknown('to_bits')


def n_from_bits(c, a):
    t = c.S.F.simp(a[0].t)
    if isinstance(t, int):
        return Flt(struct.unpack('<d', struct.pack('<Q', t))[0])
    raise Unknown('from_bits')


# ---------------------------------------------------------------- misc
def n_panic(c, a):
    c.I.panic(c.S, c.name.split('::')[-1], c.fr.fn, c.term[-1])
    return DIVERGED


def n_replace(c, a):
    r, v = a[0], c.I.load(c.S, a[0])
    c.I.store(c.S, r, a[1])
    return v


def n_swap(c, a):
    x, y = c.I.load(c.S, a[0]), c.I.load(c.S, a[1])
    c.I.store(c.S, a[0], y)
    c.I.store(c.S, a[1], x)
    return UNIT


def default_of(c, v):
    if isinstance(v, Obj) and v.kind == 'codes':
        return codes_empty(v.fs[0])
    if isinstance(v, Obj) and v.kind in ('vlist', 'vbytes', 'varr'):
        return Obj('vlist')
    if isinstance(v, Agg) and v.var is not None and v.ty is None and (v.var == 0 and not v.fs or v.var == 1 and len(v.fs) == 1):
        return NONE
    if isinstance(v, Int):
        return Int(v.n, v.s, 0)
    if isinstance(v, (bool, Cond)):
        return False
    raise Unknown('default value')


def n_take(c, a):
    v = c.I.load(c.S, a[0])
    if isinstance(v, Agg) and isinstance(v.ty, int) and v.ty >= 0:
        d = c.I.p.types[v.ty]
        if d['k'] == 'adt' and d['n'].endswith('option::Option'):
            c.I.store(c.S, a[0], Agg(v.ty, 0, ()))
            return v
        return NOTNATIVE
    if isinstance(v, Agg) and v.ty is None:
        c.I.store(c.S, a[0], NONE)
        return v
    c.I.store(c.S, a[0], default_of(c, v))
    return v


def n_unit(c, a):
    return UNIT


def n_id(c, a):
    return a[0]


def n_clone_val(c, a):
    r, v = deref(c, a[0])
    if isinstance(v, Obj):
        return v
    return NOTNATIVE


def n_copy_slice(c, a):
    """dst.copy_from_slice(src) of whole arrays of the same length"""
    d, s = a
    if not (isinstance(d, Ref) and isinstance(s, Ref)):
        return NOTNATIVE
    dv, sv = c.I.load(c.S, Ref(d.cell, d.path)), c.I.load(c.S, Ref(s.cell, s.path))
    if not (isinstance(dv, Obj) and isinstance(sv, Obj) and dv.kind == sv.kind == 'varr' and dv.fs[3] == sv.fs[3]):
        return NOTNATIVE
    F = c.S.F

    def part(r, v):
        return (0, vec_len(c, v)) if r.meta is None else r.meta
    (d0, dn), (s0, sn) = part(d, dv), part(s, sv)
    eq = F.decide('eq', dn, sn)
    if eq is None:
        raise Unknown('copy between slices whose lengths may differ')
    if not eq:
        return oob(c, 'copy between slices of different lengths')
    if not all(F.decide('eq', x, y) is True for x, y in ((d0, 0), (s0, 0), (dn, dv.fs[1]), (sn, sv.fs[1]))):
        return NOTNATIVE
    c.I.store(c.S, Ref(d.cell, d.path), sv)
    return UNIT


def n_clone_shim(c, a):
    """clone of a tuple or array of numbers"""
    r, v = deref(c, a[0])

    def plain(x):
        return isinstance(x, (Int, Flt)) or isinstance(x, Agg) and all(plain(y) for y in x.fs)
    return v if plain(v) else NOTNATIVE


def n_str_eq(c, a):
    def s(v):
        while isinstance(v, Ref):
            v = c.I.load(c.S, v)
        return v
    x, y = s(a[0]), s(a[1])
    if isinstance(x, Str) and isinstance(y, Str):
        return x.s == y.s
    raise Unknown('string comparison')


def n_box_new(c, a):
    return Obj('box', temp(c, a[0]))


def n_from_usize_u8(c, a):
    return NOTNATIVE


def n_slice_len(c, a):
    r = a[0]
    if isinstance(r, Ref) and r.meta is not None:
        return c.I.usize(r.meta[1])
    return n_vec_len(c, a)


def n_slice_first(last):
    def f(c, a):
        r = a[0]
        if not (isinstance(r, Ref) and r.meta is not None):
            r, v = deref(c, a[0])
            r = slice_of(c, r, v)
        st, ln = r.meta
        F = c.S.F
        d = F.decide('gt', ln, 0)
        if d is None:
            raise Fork([lambda T: T.F.assume('gt', ln, 0), lambda T: T.F.assume('le', ln, 0)], 'first')
        if not d:
            return NONE
        t = F.add_terms(F.add_terms(st, ln), -1) if last else st
        return some(Ref(r.cell, r.path + (('i', F.simp(t)),)))
    return f


def _m(*s):
    return path_pred(*s)


def std_natives():
    N = []

    def add(f, *suffixes):
        N.append((_m(*suffixes), f))
    add(n_panic, 'unwrap_failed', 'expect_failed', 'core::panicking::panic', 'panic_fmt', 'panic_const', 'panic_bounds_check',
        'unreachable_display', 'panic_display', 'panic_str', 'begin_panic', 'panic_explicit', 'slice_index_fail', 'handle_error',
        'panic_nounwind', 'assert_failed', 'panic_nounwind_fmt', 'unreachable_default_msg')
    N.append((lambda n: 'panicking::panic' in n or 'panic_const' in n, n_panic))
    # vectors and slices
    N.append((eq_pred('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', '<std::vec::Vec<T> as std::default::Default>::default',
                      'alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity'), n_vec_new))
    add(n_from_elem, 'vec::from_elem')
    add(n_vec_len, 'Vec::<T, A>::len')
    add(n_slice_len, '<impl [T]>::len')
    add(n_vec_is_empty, 'Vec::<T, A>::is_empty', '<impl [T]>::is_empty', 'HashSet::<T, S, A>::is_empty')
    add(n_vec_push, 'Vec::<T, A>::push')
    add(n_vec_clear, 'Vec::<T, A>::clear', 'HashSet::<T, S, A>::clear')
    add(n_unit, 'Vec::<T, A>::reserve', 'Vec::<T, A>::shrink_to_fit', 'HashSet::<T, S, A>::reserve', 'HashSet::<T, S, A>::shrink_to_fit',
        'Vec::<T, A>::reserve_exact')
    N.append((lambda n: 'Vec<T, A> as std::ops::Deref' in n or 'Vec<T, A> as core::ops::Deref' in n or n.endswith(
        ('Vec::<T, A>::as_slice', 'Vec::<T, A>::as_mut_slice')) or 'Vec<T, A> as std::convert::AsRef' in n, n_deref))
    N.append((lambda n: ('Vec<T, A> as' in n or "<impl" in n and "[T]>::index" in n) and n.endswith(('::index', '::index_mut')), n_index))
    add(n_get, '<impl [T]>::get', '<impl [T]>::get_mut')
    add(n_slice_iter, '<impl [T]>::iter', '<impl [T]>::iter_mut', "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
        "<impl std::iter::IntoIterator for &'a [T]>::into_iter")
    N.append((lambda n: n.endswith('::next') and ('slice::Iter<' in n or 'slice::IterMut<' in n or 'vec::IntoIter<' in n), n_slice_next))
    N.append((lambda n: n == '<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter', n_vec_into_iter))
    add(n_slice_first(False), '<impl [T]>::first')
    add(n_slice_first(True), '<impl [T]>::last')
    add(n_sort, '<impl [T]>::sort', '<impl [T]>::sort_unstable')
    add(n_sort_key, '<impl [T]>::sort_by_key', '<impl [T]>::sort_unstable_by_key', '<impl [T]>::sort_by_cached_key')
    N.append((lambda n: n.endswith(('::take', '::skip')) and 'iter' in n.lower() and 'Option' not in n, n_take_skip))
    N.append((lambda n: 'mem::size_of_val' in n, n_size_of_val))
    N.append((lambda n: n.endswith(('::nth', '::advance_by')) and 'iter' in n.lower(), n_nth))
    add(n_dedup, 'Vec::<T, A>::dedup')
    add(n_dedup_key, 'Vec::<T, A>::dedup_by_key')
    add(n_get_unchecked, '<impl [T]>::get_unchecked', '<impl [T]>::get_unchecked_mut')
    # hash sets
    add(n_set_new, 'HashSet::<T>::new', 'HashSet::<T>::with_capacity', 'HashSet<T, S> as std::default::Default>::default',
        'HashSet::<T, S>::with_hasher', 'HashSet::<T, S>::with_capacity_and_hasher', 'BTreeSet::<T>::new')
    add(n_set_insert, 'HashSet::<T, S, A>::insert')
    add(n_set_contains, 'HashSet::<T, S, A>::contains')
    add(n_set_iter, 'HashSet::<T, S, A>::iter')
    add(n_vec_len, 'HashSet::<T, S, A>::len')
    add(n_set_drain, 'HashSet::<T, S, A>::drain', )
    add(n_drain, 'Vec::<T, A>::drain')
    N.append((lambda n: 'HashSet<T, S' in n and n.endswith('::into_iter'), n_set_into_iter))
    N.append((lambda n: 'hash_set::' in n and n.endswith('::next'), n_obj_next))
    N.append((lambda n: n.endswith('::next') and ' as std::iter::Iterator>' in n, n_obj_next))
    N.append((lambda n: n.endswith('::size_hint'), n_size_hint))
    N.append((lambda n: 'HashSet<T, S, A> as std::clone::Clone' in n or 'Vec<T, A> as std::clone::Clone' in n, n_clone_val))
    # numbers
    add(n_lz, 'intrinsics::ctlz', 'intrinsics::ctlz_nonzero', '::leading_zeros')
    add(n_tz, 'intrinsics::cttz', 'intrinsics::cttz_nonzero', '::trailing_zeros')
    add(n_popcount, 'intrinsics::ctpop', '::count_ones')
    for pre, o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mul'), ('shl', 'Shl'), ('shr', 'Shr')):
        N.append((lambda n, p=pre: n.startswith('core::num::') and n.endswith('::wrapping_' + p) or n.endswith('intrinsics::wrapping_' + p), wrapping(o)))
        N.append((lambda n, p=pre: n.startswith('core::num::') and n.endswith('::checked_' + p), checked(o)))
        if pre not in ('shl', 'shr'):
            N.append((lambda n, p=pre: n.startswith('core::num::') and n.endswith('::overflowing_' + p) or n.endswith('intrinsics::%s_with_overflow' % p), overflowing(o)))
            N.append((lambda n, p=pre: n.startswith('core::num::') and n.endswith('::saturating_' + p) or n.endswith('intrinsics::saturating_' + p), saturating(o)))
        N.append((lambda n, p=pre: n.startswith('core::num::') and n.endswith('::unchecked_' + p) or n.endswith('intrinsics::unchecked_' + p), wrapping(o)))
    for pre, o in (('div', 'Div'), ('rem', 'Rem')):
        N.append((lambda n, p=pre: n.startswith('core::num::') and n.endswith('::checked_' + p), checked(o)))
    N.append((lambda n: n in ('std::cmp::max', 'std::cmp::Ord::max', 'core::cmp::max') or n.endswith(('>::max', 'f64::max', 'intrinsics::maximum_number_nsz_f64', 'intrinsics::maxnumf64')) and '<impl' in n, n_max(True)))
    N.append((lambda n: n in ('std::cmp::min', 'std::cmp::Ord::min', 'core::cmp::min') or n.endswith(('>::min', 'f64::min', 'intrinsics::minimum_number_nsz_f64', 'intrinsics::minnumf64')) and '<impl' in n, n_max(False)))
    F64 = lambda *names: (lambda n: ('f64' in n or 'intrinsics' in n) and any(n.endswith('::' + x) for x in names))
    for nm, names in (('ln', ('ln', 'logf64', 'log')), ('sqrt', ('sqrt', 'sqrtf64')), ('floor', ('floor', 'floorf64')),
                      ('ceil', ('ceil', 'ceilf64')), ('trunc', ('trunc', 'truncf64')), ('abs', ('abs', 'fabs', 'fabsf64')),
                      ('log2', ('log2', 'log2f64')), ('log10', ('log10', 'log10f64')), ('exp', ('exp', 'expf64')),
                      ('exp2', ('exp2', 'exp2f64')), ('ln_1p', ('ln_1p',)), ('round', ('round', 'roundf64'))):
        if nm == 'ln':
            N.append((lambda n: n == 'std::f64::<impl f64>::log', n_log_base))
        N.append((F64(*names), fun1(nm)))
    # the logarithm of the library itself is judged by C23
    N.append((lambda n: n == 'hyperloglogplus::log::log', fun1('ln')))
    N.append((F64('powi', 'powif64'), n_powi))
    N.append((F64('powf', 'powf64'), n_powf))
    for nm in ('is_nan', 'is_finite', 'is_infinite'):
        N.append((F64(nm), n_f64_bool(nm)))
    N.append((F64('to_bits'), n_to_bits))
    N.append((F64('from_bits'), n_from_bits))
    # memory
    add(n_replace, 'mem::replace')
    add(n_swap, 'mem::swap')
    add(n_take, 'mem::take', 'Option::<T>::take')
    add(n_unit, 'mem::drop', 'mem::forget', 'intrinsics::cold_path', 'intrinsics::assert_inhabited', 'precondition_check', 'intrinsics::assume',
        'hint::assert_unchecked')
    add(lambda c, a: False, 'intrinsics::is_val_statically_known')
    add(lambda c, a: a[0], 'intrinsics::likely', 'intrinsics::unlikely', 'hint::black_box', 'hint::must_use')
    add(lambda c, a: Agg(None, 1, (a[0],)), 'prelude::v1::Some', 'Option::Some', 'prelude::v1::Err', 'Result::Err')
    add(lambda c, a: Agg(None, 0, (a[0],)), 'prelude::v1::Ok', 'Result::Ok')
    add(n_str_eq, '<impl std::cmp::PartialEq for str>::eq')
    add(n_box_new, 'Box::<T>::new')
    # harness types
    add(n_build_hasher, 'BldA as std::hash::BuildHasher>::build_hasher', 'BldB as std::hash::BuildHasher>::build_hasher')
    N.append((lambda n: n.startswith('<hllroots::Key') and n.endswith('std::hash::Hash>::hash'), n_hash))
    add(n_finish, '<hllroots::Hs as std::hash::Hasher>::finish')
    N.append((lambda n: n.startswith('<hllroots::Hs') and 'Hasher>::write' in n, n_write_any))
    N.append((lambda n: n.endswith('hash::Hash::hash_slice'), n_hash_slice))
    N.append((lambda n: n.startswith('std::hash::Hasher::write') or n.startswith('core::hash::Hasher::write'), n_write_default))
    N.append((lambda n: n.startswith('<hllroots::') and n.endswith('Clone>::clone'), n_clone_opaque))
    add(n_copy_slice, '<impl [T]>::copy_from_slice', '<impl [T]>::clone_from_slice')
    N.append((lambda n: n == 'std::clone::Clone::clone', n_clone_shim))
    N.append((lambda n: n.startswith('<hllroots::KeyA as') and n.endswith('::borrow'), n_borrow))
    return N


def n_vec_into_iter(c, a):
    v = a[0]
    if isinstance(v, Obj) and v.kind == 'codes':
        return Obj('codesiter', v, False, None, False, False, iter_id(c))
    raise Unknown('vec into_iter')


def n_drain(c, a):
    r, v = deref(c, a[0])
    if isinstance(v, Obj) and v.kind == 'codes' and isinstance(a[1], Agg) and not a[1].fs:
        c.I.store(c.S, r, codes_empty(v.fs[0]))
        return Obj('codesiter', v, False, None, False, False, iter_id(c))
    raise Unknown('drain')


def n_get_unchecked(c, a):
    r = a[0]
    if not (isinstance(r, Ref) and r.meta is not None):
        raise Unknown('get_unchecked')
    st, ln = r.meta
    F = c.S.F
    if not isinstance(a[1], Int):
        raise Unknown('get_unchecked range')
    d = F.decide('lt', a[1].t, ln)
    if d is None:
        raise Fork([lambda T: T.F.assume('lt', a[1].t, ln), lambda T: T.F.assume('ge', a[1].t, ln)], 'bounds')
    if d is False:
        return oob(c, 'unchecked index out of bounds')
    return Ref(r.cell, r.path + (('i', F.add_terms(st, a[1].t)),))


def _crate(n):
    return n.startswith(('hyperloglogplus::', "<hyperloglogplus::", "<&'a hyperloglogplus::"))


def upper_natives():
    """Registers and DifIntVec as abstract objects"""
    N = []
    R = ('common::Registers::', 'common::RegistersPlus::')

    def reg(m, f):
        N.append((lambda n, m=m: _crate(n) and any(n.endswith(r + m) for r in R), f))
    reg('with_count', n_regs_with_count)
    reg('zeros', n_regs_zeros)
    reg('get', n_regs_get)
    reg('iter', n_regs_iter)
    reg('set_greater', n_regs_set_greater)
    D = 'encoding::DifIntVec::'

    def dif(m, f):
        N.append((lambda n, m=m: _crate(n) and n.endswith(D + m), f))
    dif('new', n_dif_new)
    dif('with_capacity', n_dif_new)
    dif('push', n_dif_push)
    dif('count', n_dif_count)
    dif('len', n_dif_len)
    dif('clear', n_dif_clear)
    N.append((lambda n: _crate(n) and 'encoding::DifIntVec as' in n and n.endswith('IntoIterator>::into_iter'), n_dif_iter))
    N.append((lambda n: _crate(n) and 'DifIntVec as std::clone::Clone' in n, n_clone_val))
    N.append((lambda n: _crate(n) and ('Registers as std::clone::Clone' in n or 'RegistersPlus as std::clone::Clone' in n), n_clone_val))
    return N
