"""Serialisation: the derived (or hand written) code that turns a sketch into a
data format and back is interpreted over a sketch whose fields are arbitrary
symbols, against a format that only remembers what it was given.  What comes
back is compared with what went in, field by field, for formats that present a
record as a map and for formats that present it as a sequence."""
from ctx import *
from upper import *


def ok(v):
    return Agg(None, 0, (v,))


def err(v):
    return Agg(None, 1, (v,))


MERR = Obj('merr')


def n_err(c, a):
    return MERR


def n_leaf_ser(c, a):
    """a value of a primitive or standard type is stored as it is"""
    r, v = deref(c, a[0])
    return ok(Obj('rec', 'leaf', v))


def local_type(c):
    n = c.fn.name if c.fn else ''
    return n


def n_leaf_de(c, a):
    n = c.fn.name
    d = a[0]
    if isinstance(d, Obj) and d.kind == 'mde':
        rec = d.fs[0]
        # a value of another shape is refused
        if rec.fs[0] != 'leaf':
            return err(MERR)
        v = rec.fs[1]
        t = n.split(' for ')[-1].split('>::deserialize')[0]
        if t.endswith('HashSet<u32>') and isinstance(v, Obj) and v.kind == 'codes' and v.fs[0] != 'set':
            k, hw, order, last, cnt, pad = v.fs
            if order in ('strict', 'uniq') or isinstance(k, tuple):
                return ok(Obj('codes', 'set', hw, 'uniq', None, cnt, Int(64, False, 0)))
            raise Unknown('a set read from a list with repetitions')
        want = 'int' if t in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64') else 'set' if 'HashSet<' in t else 'vec' if 'Vec<' in t else 'tup' if t.startswith('(') else None
        got = 'int' if isinstance(v, Int) else v.kind if isinstance(v, Obj) else 'tup' if isinstance(v, Agg) else None
        fits = {'int': ('int',), 'set': ('codes',), 'vec': ('leafvec', 'codes', 'vlist', 'varr'), 'tup': ('tup',)}
        if want and got and got not in fits[want]:
            return err(MERR)
        return ok(v)
    if 'MissingFieldDeserializer' in n:
        return err(MERR)
    raise Unknown('deserializer of ' + n[:80])


def rec_of(c, r):
    v = r
    while isinstance(v, Ref):
        v = c.I.load(c.S, v)
    if isinstance(v, Obj) and v.kind == 'mde':
        v = v.fs[0]
    if not (isinstance(v, Obj) and v.kind == 'rec'):
        raise Unknown('record expected')
    return v


def fields_of(c, r):
    v = rec_of(c, r)
    if v.fs[0] != 'struct':
        # not a record at all: as if it had no fields
        return ()
    return v.fs[1:]


def n_mstruct_push(c, a):
    r, v = deref(c, a[0])
    k = key_text(c, a[1])
    c.I.store(c.S, r, Obj('mstruct', *(v.fs + ((k, a[1], a[2]),))))
    return UNIT


def key_text(c, k):
    v = k
    if isinstance(v, Ref):
        v = c.I.load(c.S, Ref(v.cell, v.path))
    return repr(v)


def n_rec_len(c, a):
    return Int(64, False, len(fields_of(c, a[0])))


def idx(c, i, fs):
    t = c.S.F.simp(i.t)
    if not isinstance(t, int) or not 0 <= t < len(fs):
        raise Unknown('record index')
    return fs[t]


def mde(c, rec):
    return Obj('mde', rec)


def n_rec_is_none(c, a):
    v = rec_of(c, a[0])
    if v.fs[0] in ('none', 'some'):
        return v.fs[0] == 'none'
    raise Unknown('a plain value is read as an option')


def n_rec_inner(c, a):
    v = rec_of(c, a[0])
    return mde(c, v.fs[1])


def serial_natives():
    N = []
    H = 'hllroots::ser::'
    N.append((lambda n: n.startswith(('serde::ser::impls::<impl', 'serde_core::ser::impls::<impl')) and n.split(' for ')[-1].startswith(
        ('u8', 'u16', 'u32', 'u64', 'usize', 'i', 'f64', 'f32', 'bool', '(', 'std::vec::Vec', 'std::collections::HashSet', 'std::marker::PhantomData',
         'alloc::vec::Vec', 'std::string', '[', 'char', '[T')) and '>::serialize' in n, n_leaf_ser))
    N.append((lambda n: n.startswith('<hllroots::Bld') and 'Serialize>::serialize' in n, n_leaf_ser))
    N.append((lambda n: n.startswith(('serde::de::impls::<impl', 'serde_core::de::impls::<impl')) and n.split(' for ')[-1].startswith(
        ('u8', 'u16', 'u32', 'u64', 'usize', 'i', 'f64', 'f32', 'bool', '(', 'std::vec::Vec', 'std::collections::HashSet', 'std::marker::PhantomData',
         'alloc::vec::Vec', 'std::string', '[', 'char', '[T')) and '>::deserialize' in n, n_leaf_de))
    N.append((lambda n: n.startswith('<hllroots::Bld') and 'Deserialize<' in n and '>::deserialize' in n, n_leaf_de))
    N.append((lambda n: n.startswith('<hllroots::ser::MErr as serde') and 'Error>::' in n, n_err))

    def h(name, f):
        N.append((lambda n: n == H + name, f))
    h('mser', lambda c, a: Obj('mser'))
    h('mstruct_new', lambda c, a: Obj('mstruct'))
    h('mstruct_push', n_mstruct_push)
    h('mstruct_end', lambda c, a: Obj('rec', 'struct', *a[0].fs))
    h('rec_none', lambda c, a: Obj('rec', 'none'))
    h('rec_some', lambda c, a: Obj('rec', 'some', a[0]))
    h('rec_is_none', n_rec_is_none)
    h('rec_inner', n_rec_inner)
    h('rec_len', n_rec_len)
    h('rec_key', lambda c, a: idx(c, a[1], fields_of(c, a[0]))[1])
    h('rec_val', lambda c, a: mde(c, idx(c, a[1], fields_of(c, a[0]))[2]))
    h('rec_map', lambda c, a: bool(c.S.meta['mapfmt']))
    h('rec_of', lambda c, a: rec_of(c, a[0]))
    return N


class Serial(Upper):
    def build(self, S, t, path, some_, full):
        """an arbitrary value of a type"""
        P = self.P
        d = P.types[t]
        if d['k'] == 'int':
            nm = ('in', 'f') + path
            sym(nm, d['bits'], 0, (1 << d['bits']) - 1)
            return Int(d['bits'], d.get('signed', False), Aff(0, ((('y', nm), 1),)))
        if d['k'] == 'bool':
            nm = ('in', 'f') + path
            sym(nm, 1, 0, 1)
            return Cond(('i', 'eq', Aff(0, ((('y', nm), 1),)), 1))
        if d['k'] == 'tuple':
            return Agg(t, 0, tuple(self.build(S, x, path + (i,), some_, full) for i, x in enumerate(d['e'])))
        if d['k'] == 'adt':
            n = d['n'].split('::')[-1]
            if n.startswith('Bld'):
                return builder('self')
            if n == 'PhantomData':
                return Agg(t, 0, ())
            if n == 'Option':
                a = [x for x in d.get('args', []) if isinstance(x, int)]
                return Agg(t, 1, (self.build(S, a[0], path + ('v',), some_, full),)) if some_ else Agg(t, 0, ())
            if n == 'HashSet':
                nm = ('in', 'f') + path
                sym(nm, 40, 0, 1 << 32)
                tt = Aff(0, ((('y', nm), 1),))
                S.F.assume('ge' if full else 'eq', tt, 1 if full else 0)
                return Obj('codes', 'set', full, 'uniq', None, Int(64, False, S.F.simp(tt)), Int(64, False, 0))
            if n == 'Vec':
                return Obj('leafvec', path, full)
            if d['n'].startswith('hyperloglogplus::') and len(d.get('v', ())) == 1:
                return Agg(t, 0, tuple(self.build(S, x, path + (i,), some_, full) for i, (_, x) in enumerate(d['v'][0]['f'])))
        raise Unknown('a field of type %s' % d.get('n', d['k']))

    def do_serial(self):
        rec = self.rec
        P = self.P
        f, g = self.root('ser'), self.root('de')
        st = P.types[f.locals[1]]
        if st['k'] != 'ref':
            raise Unknown('serialize root')
        ty = st['e']
        names = [n for n, _ in P.types[ty]['v'][0]['f']]
        for some_ in ((False, True) if self.kind == 'pp' else (True,)):
            for full in (False, True):
                for fmt in (True, False):
                    S = State()
                    S.meta['mapfmt'] = fmt
                    v = self.build(S, ty, (), some_, full)
                    S.mem['s'] = v
                    what = '%s serialised as a %s' % (self.kind, 'map' if fmt else 'sequence')
                    sn = '%s, %s' % ('with registers' if some_ else 'without registers', 'not empty' if full else 'empty')
                    I = Interp(P, serial_natives() + std_natives())
                    I.hooks['codes'] = True
                    try:
                        outs = self.run(I, f, [Ref('s'), Obj('mser')], S)
                    except Unknown as u:
                        rec.add(['C20'], what, 'unknown', str(u))
                        continue
                    for o in outs:
                        if o.out[0] == 'unknown':
                            rec.add(['C20'], what, 'unknown', o.out[1])
                            continue
                        r = o.out[1] if o.out[0] == 'ret' else None
                        if o.out[0] == 'ret' and not (isinstance(r, Agg) and r.var in (0, 1)):
                            rec.add(['C20'], what, 'unknown', 'result of serialize')
                            continue
                        if r is None or r.var != 0:
                            rec.add(['C20'], what + ': serialising succeeds', 'unknown' if o.taint else 'refuted', '%s: a sketch cannot be serialised (%s)' % (what, sn), f.name)
                            continue
                        rec.add(['C20'], what + ': serialising succeeds', 'proved')
                        T = State()
                        T.F = o.F
                        T.meta['mapfmt'] = fmt
                        T.taint = o.taint
                        T.n = o.n
                        try:
                            outs2 = self.run(I, g, [Obj('mde', r.fs[0])], T)
                        except Unknown as u:
                            rec.add(['C20'], what, 'unknown', str(u))
                            continue
                        for q in outs2:
                            self.judge(q, v, names, what, sn, g.name)
                        if not outs2:
                            rec.add(['C20'], what, 'unknown', 'no path completes')
                    if not outs:
                        rec.add(['C20'], what, 'unknown', 'no path completes')

    def judge(self, q, v, names, what, sn, site):
        rec = self.rec
        if q.out[0] == 'unknown':
            rec.add(['C20'], what, 'unknown', q.out[1])
            return
        t = 'unknown' if q.taint else 'refuted'
        r = q.out[1] if q.out[0] == 'ret' else None
        if r is not None and not (isinstance(r, Agg) and r.var in (0, 1)):
            rec.add(['C20'], what, 'unknown', 'result of deserialize')
            return
        if r is None or r.var != 0:
            rec.add(['C20'], what + ': reading back succeeds', t, '%s: what was written cannot be read back (%s)' % (what, sn), site)
            return
        rec.add(['C20'], what + ': reading back succeeds', 'proved')
        w = r.fs[0]
        if not isinstance(w, Agg) or len(w.fs) != len(v.fs):
            rec.add(['C20'], what, 'unknown', 'result of deserialize')
            return
        known = {'builder', 'precision', 'count', 'counts', 'tmpset', 'sparse', 'registers', 'phantom'}
        for n, a, b in zip(names, v.fs, w.fs):
            if same(q.F, a, b):
                rec.add(['C20'], what + ': every field comes back', 'proved')
            else:
                # a field that does not carry the state of the sketch may be rebuilt
                sure = n in known and t == 'refuted' and unlike(q.F, a, b)
                rec.add(['C20'], what + ': every field comes back', 'refuted' if sure else 'unknown', '%s: the field %s does not come back as it was (%s)' % (what, n, sn), site)


def unlike(F, a, b):
    """surely different values for some value of the symbols in a"""
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.var is None or b.var is None:
            return False
        if a.var != b.var:
            return True
        return len(a.fs) == len(b.fs) and any(not same(F, x, y) and unlike(F, x, y) for x, y in zip(a.fs, b.fs))
    if isinstance(a, Int) and isinstance(b, Int):
        # another symbol or a constant: some value of the field tells them apart
        try:
            x, y = F.simp(a.t), F.simp(b.t)
        except Unknown:
            return False
        return isinstance(x, Aff) and (isinstance(y, int) or isinstance(y, Aff)) and F.decide('eq', x, y) is not True
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.kind == 'leafvec':
            return b.kind in ('vlist', 'codes') and (b.kind != 'vlist' or bool(b.fs) != a.fs[1]) and (b.kind != 'codes' or b.fs[1] is False and a.fs[1])
        if a.kind == b.kind == 'codes':
            return a.fs[1] != b.fs[1]
    return False
