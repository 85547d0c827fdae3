"""Lower-layer analyses: the packed registers over an arbitrary array of words, and the
compressed list over an arbitrary prefix of bytes.  They establish the contracts that
the upper layer relies on."""
import time
from ctx import *
from upper import Rec, same, CURRENT
import traceback

IDX = ('in', 'index')
VAL = ('in', 'value')
ARR = 'W'


def find(prog, owner, name):
    c = [f for f in prog.fns.values() if f.crate == 'hyperloglogplus' and f.defn.split('::')[-2:] == [owner, name]]
    if len(c) != 1:
        raise Unknown('%d functions %s::%s' % (len(c), owner, name))
    return c[0]


def find_opt(prog, owner, name):
    try:
        return find(prog, owner, name)
    except Unknown:
        return None


class Lower:
    def __init__(self, prog, kind):
        CURRENT.append(self)
        self.P = prog
        self.kind = kind
        self.owner = 'Registers' if kind == 'pf' else 'RegistersPlus'
        self.ps = PF_P if kind == 'pf' else PP_P
        self.rec = Rec()
        self.stats = dict(states=0, steps=0, paths=0, forks=0, loops=0, fns=set(), runs=0)

    def run(self, fn, args, S, upper=False, heavy=None):
        I = fresh_interp(self.P, upper)
        if heavy:
            I.hooks['heavy'] = heavy
        try:
            outs = I.run(fn, args, S)
        except (KeyError, IndexError, TypeError, AttributeError, ValueError, AssertionError) as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            raise Unknown('analysis error %s: %s at %s:%d' % (type(e).__name__, e, tb.filename.split('/')[-1], tb.lineno))
        st = self.stats
        st['runs'] += 1
        st['paths'] += len(outs)
        st['steps'] += I.steps
        st['forks'] += I.stats['forks']
        st['loops'] += I.stats['loops']
        st['fns'] |= {self.P.fns[f].name for f in I.stats['fns']}
        return outs

    def sure(self, o, t):
        if t == 'refuted' and find_witness(o.F) is None:
            return 'unknown'
        return t

    def one(self, fn, args, S):
        outs = self.run(fn, args, S)
        if len(outs) != 1 or outs[0].out[0] != 'ret':
            raise Unknown('%s: %s' % (fn.name, [o.out[:2] for o in outs][:2]))
        return outs[0]


def subst_leaf(v, path, f):
    if not path:
        return f(v)
    fs = list(v.fs)
    fs[path[0]] = subst_leaf(fs[path[0]], path[1:], f)
    return Agg(v.ty, v.var, fs)


def leaves_of(v, path=()):
    if isinstance(v, Agg):
        for i, x in enumerate(v.fs):
            yield from leaves_of(x, path + (i,))
    else:
        yield path, v


class LRegs(Lower):
    def setup(self, count):
        """the value built by with_count, and the same with arbitrary contents"""
        wc = find(self.P, self.owner, 'with_count')
        o = self.one(wc, [Int(64, False, count)], State())
        self.init = o.out[1]
        arr = [(p, v) for p, v in leaves_of(self.init) if isinstance(v, Obj) and v.kind in ('varr', 'vlist')]
        if len(arr) != 1 or arr[0][1].kind != 'varr' and not all(x == arr[0][1].fs[0] for x in arr[0][1].fs):
            raise Unknown('the storage of the registers')
        self.arrp, a = arr[0]
        if a.kind == 'vlist':
            a = Obj('varr', ('rep', a.fs[0]), len(a.fs), (), (a.fs[0].n, False))
        self.words = a.fs[1]
        self.a0 = a
        # which integer is the number of empty registers
        z = find(self.P, self.owner, 'zeros')
        S = State()
        v = self.init
        ints = [p for p, x in leaves_of(self.init) if isinstance(x, Int)]
        for k, p in enumerate(ints):
            nm = ('in', 'fld', k)
            sym(nm, 40, 0, 1 << 40)
            v = subst_leaf(v, p, lambda x, nm=nm: Int(x.n, x.s, Aff(0, ((('y', nm), 1),))))
        S.mem['r'] = v
        o = self.one(z, [Ref('r')], S)
        t = S.F.simp(o.out[1].t)
        hit = [p for k, p in enumerate(ints) if t == Aff(0, ((('y', ('in', 'fld', k)), 1),))]
        if len(hit) != 1:
            raise Unknown('zeros() is not a field')
        self.zp = hit[0]
        self.z0 = dict(leaves_of(self.init))[self.zp]
        self.count = count
        nm = ('in', 'zeros')
        sym(nm, 40, 0, count)
        self.zs = Int(64, False, Aff(0, ((('y', nm), 1),)))
        ws = a.fs[3]
        self.sk = subst_leaf(self.init, self.arrp, lambda x: Obj('varr', ('sym', ARR), a.fs[1], (), ws))
        self.wbits = ws[0]
        return self.sk

    def zeros_is(self, val):
        return subst_leaf(self.sk, self.zp, lambda x: val)

    # ---- C04
    def iter_fns(self):
        it = find(self.P, self.owner, 'iter')
        S = State()
        S.mem['r'] = self.sk
        rt = self.one(it, [Ref('r')], S).out[1].ty
        nx = []
        for f in self.P.fns.values():
            if f.defn.split('::')[-1] == 'next' and f.body and len(f.locals) > 1:
                d = self.P.types[f.locals[1]]
                if d['k'] == 'ref' and d['e'] == rt:
                    nx.append(f)
        if len(nx) != 1:
            raise Unknown('%d functions advance the register iterator' % len(nx))
        return it, nx[0]

    def step(self, S, nx):
        """one call of next: (value bits or None, state); panics are reported"""
        S = S.clone()
        outs = self.run(nx, [Ref('it')], S)
        if len(outs) != 1:
            raise Unknown('reading the registers splits into %d paths' % len(outs))
        o = outs[0]
        if o.out[0] != 'ret':
            if o.out[0] == 'panic':
                return ('panic', o.out[1], o.out[2], o.out[3]), o
            raise Unknown('reading the registers: %s' % (o.out[1],))
        r = o.out[1]
        T = State()
        T.mem = {k: v for k, v in o.mem.items()}
        T.F = o.F
        T.n = o.n
        if r.var == 0:
            return None, T
        return tuple(o.F.rbit(b) for b in o.F.as_bits(r.fs[0].t, 32)), T

    def el(self, q, b):
        """bit b of word q (a term)"""
        key = ('el', ARR, q)
        if key not in SYMS:
            sym(key, self.wbits)
        return ('s', key, b)

    def flat(self, v, out, sk):
        """numeric leaves of an iterator value; the rest as a shape"""
        if isinstance(v, Int):
            out.append(v)
            return ('I', v.n, v.s)
        if isinstance(v, Agg):
            return ('A', v.var, tuple(self.flat(x, out, sk) for x in v.fs))
        if isinstance(v, Obj) and v.kind in ('sliceiter',):
            return ('O', v.kind, tuple(self.flat(x, out, sk) for x in v.fs))
        if isinstance(v, Ref):
            r = ['R', v.cell if v.cell in ('r', 'it') else '*']
            for e in v.path:
                if e[0] == 'i':
                    out.append(Int(64, False, e[1]))
                    r.append('i')
                else:
                    r.append(e)
            if v.meta:
                for m in v.meta:
                    out.append(Int(64, False, m))
            if v.cell not in ('r', 'it'):
                r.append(self.flat(sk.mem[v.cell], out, sk))
            return tuple(r)
        return ('X', repr(v))

    def rebuild(self, v, it, S):
        if isinstance(v, Int):
            return next(it)
        if isinstance(v, Agg):
            return Agg(v.ty, v.var, [self.rebuild(x, it, S) for x in v.fs])
        if isinstance(v, Obj) and v.kind == 'sliceiter':
            return Obj(v.kind, *[self.rebuild(x, it, S) for x in v.fs])
        if isinstance(v, Ref):
            path = tuple((e[0], next(it).t) if e[0] == 'i' else e for e in v.path)
            meta = None
            if v.meta:
                meta = tuple(next(it).t for m in v.meta)
            if v.cell not in ('r', 'it'):
                S.mem[v.cell] = self.rebuild(S.mem[v.cell], it, S)
            return Ref(v.cell, path, meta)
        return v

    def reading(self, count):
        """how register k is read: [(words per period, offset, bits)] per phase, or a record of failure.
        Returns (P, K0, phases) with phases[r] = list of bit sources relative to the period"""
        it, nx = self.iter_fns()
        S = State()
        S.mem['r'] = self.sk
        o = self.one(it, [Ref('r')], S)
        T = State()
        T.mem = dict(o.mem)
        T.mem['it'] = o.out[1]
        T.F = o.F
        T.n = o.n
        states, vals = [T], []
        cap = min(count + 1, 40)
        while len(vals) < cap:
            v, T2 = self.step(states[-1], nx)
            vals.append(v)
            if v is None or isinstance(v, tuple) and v and v[0] == 'panic':
                break
            states.append(T2)
        self.vals, self.states, self.nx = vals, states, nx
        return states, vals

    def check_iter(self, count):
        rec = self.rec
        what = '%s reading %d registers' % (self.owner, count)
        ob = '%s: ' % self.owner
        states, vals = self.reading(count)
        full = [v for v in vals if v is not None and v[:1] != ('panic',)]
        if vals and vals[-1] is not None and vals[-1][:1] == ('panic',):
            rec.add(['C04', 'C18'], ob + 'reading does not panic', 'refuted', '%s panics after %d registers: %s' % (what, len(full), vals[-1][1]), self.nx.name)
            return False
        if vals[-1] is None:
            ok = len(full) == count
            rec.add(['C04'], ob + 'every register once', 'proved' if ok else 'refuted', '%s: %d registers are delivered' % (what, len(full)), self.owner + '::iter')
            self.items = full
            self.period = None
            return ok and self.disjoint(full, what, ob)
        # find a period
        why = ''
        for Pn in range(1, 13):
            for k0 in range(0, min(14, len(states) - 2 * Pn - 1)):
                r = self.period_at(states, vals, k0, Pn)
                if r:
                    try:
                        return self.induct(states, vals, k0, Pn, r, count, what, ob)
                    except Unknown as u:
                        why = str(u)
        raise Unknown(why or 'no repeating pattern in reading the registers')

    def period_at(self, states, vals, k0, Pn):
        ls = []
        for k in range(k0, len(states), Pn):
            out = []
            sh = self.flat(states[k].mem['it'], out, states[k])
            ls.append((sh, out))
        if len(ls) < 3 or any(x[0] != ls[0][0] for x in ls):
            return None
        tmpl = []
        for col in zip(*(x[1] for x in ls)):
            F = states[k0].F
            col = [F.simp(x.t) for x in col]
            kind = 'i'
            if all(self.is_word(x) for x in col):
                kind = 'e'
                col = [x.a[0][0][1][2] for x in col]
            if not all(isinstance(x, int) for x in col):
                return None
            a, d = col[0], col[1] - col[0]
            if any(x != a + i * d for i, x in enumerate(col)):
                return None
            tmpl.append((kind, a, d))
        return tmpl

    def is_word(self, t):
        return isinstance(t, Aff) and t.c == 0 and len(t.a) == 1 and t.a[0][1] == 1 and t.a[0][0][0] == 'y' and \
            isinstance(t.a[0][0][1], tuple) and t.a[0][0][1][:2] == ('el', ARR)

    def leaf(self, F, e, Q, n, off=0):
        k, a, d = e
        if isinstance(Q, int):
            t = a + d * (Q + off)
        else:
            t = F.add_terms(F.scale(Q, d), a + d * off) if d else a
        if k == 'e':
            key = ('el', ARR, t)
            if key not in SYMS:
                sym(key, self.wbits)
            return Aff(0, ((('y', key), 1),))
        return t

    def induct(self, states, vals, k0, Pn, tmpl, count, what, ob):
        """from the state before register k0 + Pn*q, with at least Pn registers left, Pn steps
        deliver the expected bits and reach the state of q+1"""
        rec = self.rec
        nq = (count - k0) // Pn  # full periods after the prefix
        q = ('in', 'q')
        out0 = []
        self.flat(states[k0].mem['it'], out0, states[k0])

        def alive(n):
            T = states[k0].clone()
            ls = [Int(x.n, x.s, self.leaf(T.F, e, n, x.n)) for x, e in zip(out0, tmpl)]
            if any(isinstance(x.t, int) and not 0 <= x.t < 1 << x.n for x in ls):
                return False
            T.mem['it'] = self.rebuild(T.mem['it'], iter(ls), T)
            for _ in range(Pn):
                v, T = self.step(T, self.nx)
                if v is None or v[:1] == ('panic',):
                    return False
            return True
        if nq > 1 and not alive(nq - 1):
            # the reading stops early: the induction covers the periods before
            lo, hi = 0, nq - 1
            while hi - lo > 1:
                mid = (lo + hi) // 2
                lo, hi = (mid, hi) if alive(mid) else (lo, mid)
            nq = lo + 1
        sym(q, 40, 0, max(nq - 1, 0))
        Q = Aff(0, ((('y', q), 1),))
        S = states[k0].clone()
        S.F.assume('le', Q, nq - 1)
        out0 = []
        self.flat(states[k0].mem['it'], out0, states[k0])
        it = iter([Int(x.n, x.s, self.leaf(S.F, e, Q, x.n)) for x, e in zip(out0, tmpl)])
        S.mem['it'] = self.rebuild(S.mem['it'], it, S)
        got = []
        for r in range(Pn):
            v, S = self.step(S, self.nx)
            if v is None or v[:1] == ('panic',):
                raise Unknown('reading stops after some period')
            got.append(v)
        # the state afterwards
        out = []
        sh = self.flat(S.mem['it'], out, S)
        out0 = []
        sh0 = self.flat(states[k0].mem['it'], out0, states[k0])
        if sh != sh0:
            raise Unknown('the iterator changes shape')
        for e, x in zip(tmpl, out):
            want = self.leaf(S.F, e, Q, x.n, 1)
            if S.F.decide('eq', S.F.simp(x.t), want) is not True:
                raise Unknown('the iterator does not advance uniformly')
        # sources of the bits as functions of q
        self.items = []
        for k in range(k0):
            self.items.append(vals[k])
        self.period = (k0, Pn, nq, got, q)
        # the tail: concrete last state
        T = states[k0].clone()
        it = iter([Int(x.n, x.s, self.leaf(T.F, e, nq, x.n)) for x, e in zip(out0, tmpl)])
        T.mem['it'] = self.rebuild(T.mem['it'], it, T)
        tail = []
        for _ in range(Pn + 2):
            v, T2 = self.step(T, self.nx)
            if v is not None and v[:1] == ('panic',):
                rec.add(['C04', 'C18'], ob + 'reading does not panic', 'refuted', '%s panics: %s' % (what, v[1]), self.nx.name)
                return False
            if v is None:
                break
            tail.append(v)
            T = T2
        else:
            rec.add(['C04'], ob + 'every register once', 'refuted', '%s: more registers are delivered' % what, self.owner + '::iter')
            return False
        n = k0 + nq * Pn + len(tail)
        rec.add(['C04'], ob + 'every register once', 'proved' if n == count else 'refuted', '%s: %d registers are delivered' % (what, n), self.owner + '::iter')
        self.tail = tail
        return n == count and self.disjoint(None, what, ob)

    def sources(self, bits, env=None):
        """[(word term, bit)] of a delivered value; None if it is not a plain field of storage"""
        out = []
        for b in bits:
            if b == 0:
                out.append(0)
                continue
            if isinstance(b, tuple) and len(b) == 3 and b[0] == 's' and isinstance(b[1], tuple) and b[1][:2] == ('el', ARR):
                out.append((b[1][2], b[2]))
            else:
                return None
        while out and out[-1] == 0:
            out.pop()
        return out

    def slot(self, k):
        """the storage bits of register k: [(word, bit)]"""
        if self.period is None:
            return self.sources(self.items[k])
        k0, Pn, nq, got, q = self.period
        if k < k0:
            return self.sources(self.items[k])
        if k >= k0 + Pn * nq:
            return self.sources(self.tail[k - k0 - Pn * nq])
        qq, r = divmod(k - k0, Pn)
        s = self.sources(got[r])
        return s and [x if x == 0 else (self.at(x[0], q, qq), x[1]) for x in s]

    @staticmethod
    def at(t, q, v):
        if isinstance(t, int):
            return t
        r = t.c
        for a, k in t.a:
            if a != ('y', q):
                raise Unknown('word number')
            r += k * v
        return r

    def disjoint(self, full, what, ob):
        """distinct registers are stored in distinct bits of the storage, in every word"""
        rec = self.rec
        seen = {}
        # registers over a few periods at the start and at the end stand for all: slots are
        # affine in the period
        ks = set(range(self.count)) if self.count <= 64 else set(range(40)) | set(range(self.count - 40, self.count))
        for k in sorted(ks):
            s = self.slot(k)
            if s is None:
                rec.add(['C04'], ob + 'values are stored fields', 'unknown', '%s: register %d is not a field of a word' % (what, k))
                return False
            if len(s) < self.need(count=self.count) or any(x == 0 for x in s):
                rec.add(['C04', 'C02'], ob + 'register width', 'refuted', '%s: register %d has %d bits' % (what, k, len([x for x in s if x])), self.owner + '::iter')
                return False
            for x in s:
                if not (0 <= x[0] < self.words):
                    rec.add(['C04'], ob + 'inside the storage', 'refuted', '%s: register %d is read from word %d of %d' % (what, k, x[0], self.words), self.owner + '::iter')
                    return False
                if x in seen:
                    rec.add(['C04', 'C02'], ob + 'registers do not overlap', 'refuted', '%s: registers %d and %d share a bit' % (what, seen[x], k), self.owner + '::iter')
                    return False
                seen[x] = k
        rec.add(['C04', 'C02'], ob + 'registers do not overlap', 'proved')
        return True

    def maxrank(self, count):
        return (32 if self.kind == 'pf' else 64) - (count.bit_length() - 1) + 1

    def need(self, count):
        return self.maxrank(count).bit_length()

    # ---- C21
    def check_clone(self, count):
        """a clone holds the same words and the same number of empty registers"""
        from serial import unlike
        rec = self.rec
        ob = '%s: a clone equals the original' % self.owner
        fs = [f for f in self.P.fns.values() if f.body and f.name.startswith('<hyperloglogplus::') and f.name.split(' as ')[0].split('::')[-1] == self.owner
              and f.name.endswith(('as std::clone::Clone>::clone', 'as core::clone::Clone>::clone'))]
        if len(fs) != 1:
            rec.add(['C21'], ob, 'unknown', '%d functions clone %s' % (len(fs), self.owner))
            return
        S = State()
        v = self.zeros_is(self.zs)
        S.mem['r'] = v
        try:
            outs = self.run(fs[0], [Ref('r')], S)
        except Unknown as u:
            rec.add(['C21'], ob, 'unknown', str(u))
            return
        for o in outs:
            if o.out[0] == 'unknown':
                rec.add(['C21', 'C18'], ob, 'unknown', str(o.out[1]))
                continue
            if o.out[0] == 'panic':
                rec.add(['C21', 'C18'], ob, self.sure(o, 'unknown' if o.taint else 'refuted'), 'cloning %d registers panics: %s' % (count, o.out[1]), '%s at %s' % (o.out[2], o.out[3]))
                continue
            ok = same(o.F, o.out[1], v)
            bad = False
            if not ok and not o.taint:
                a, b = dict(leaves_of(v)), dict(leaves_of(o.out[1]))
                bad = a.keys() == b.keys() and unlike(o.F, a[self.zp], b[self.zp]) or unlike(o.F, v, o.out[1])
                w = b.get(self.arrp)
                if isinstance(w, Obj) and w.kind == 'varr' and w.fs[0] and w.fs[0][0] == 'rep':
                    bad = True
            rec.add(['C21'], ob, 'proved' if ok else 'refuted' if bad else 'unknown', 'a clone of %d registers differs from the original' % count, fs[0].name)
            rec.add(['C21'], ob + ': the original is unchanged', 'proved' if same(o.F, o.mem.get('r'), v) else 'unknown', 'cloning changes the original', fs[0].name)

    def do_clone_regs(self, ps=None):
        for p in ps or self.ps:
            try:
                self.setup(1 << p)
                self.check_clone(1 << p)
            except Unknown as u:
                self.rec.add(['C21'], '%s: clone' % self.owner, 'unknown', str(u))

    # ---- C02, C03
    def check_update(self, count, how):
        rec = self.rec
        ob = '%s: ' % self.owner
        what = '%s::set_greater with %d registers' % (self.owner, count)
        sg = find(self.P, self.owner, 'set_greater')
        maxrank = self.maxrank(count)
        k0, Pn, nq, got, q = how
        k0s = k0
        # index = k0 + Pn*q + r, for each phase r; and the tail and prefix one by one
        cases = [('phase', r) for r in range(Pn)] if nq > 0 else []
        ends = [k for k in range(count) if k < k0 or k >= k0 + Pn * nq]
        cases += [('index', k) for k in ends]
        for case in cases:
            n0 = len(rec)
            self.update_case(case, count, how, maxrank, what, ob, sg)
            if all(r['status'] != 'unknown' for r in rec[n0:]) or not self.thorough(count):
                continue
            # not decided for an arbitrary stored and offered value: decide it for every pair
            kept = rec[n0:]
            del rec[n0:]
            stop = False
            for cur in range(maxrank + 1):
                n1 = len(rec)
                self.update_case(case, count, how, maxrank, what, ob, sg, cur)
                if any(r['status'] == 'unknown' for r in rec[n1:]):
                    del rec[n1:]
                    for v in range(1, maxrank + 1):
                        self.update_case(case, count, how, maxrank, what, ob, sg, cur, v)
                        if rec[-1]['status'] == 'unknown':
                            stop = True
                            break
                        if any(r['status'] == 'refuted' for r in rec[n1:]):
                            break
                if stop or any(r['status'] == 'refuted' for r in rec[n1:]):
                    break
            if stop and not any(r['status'] == 'refuted' for r in rec[n0:]):
                del rec[n0:]
                rec.extend(kept)
            else:
                # one obligation of each kind
                seen = {}
                for r in rec[n0:]:
                    k = (r['ob'], r['status'], tuple(r['props']))
                    if k not in seen and r['status'] != 'unknown':
                        seen[k] = r
                del rec[n0:]
                rec.extend(seen.values())

    def thorough(self, count):
        return count in (1 << self.ps[0], 1 << 11, 1 << self.ps[-1])

    def update_case(self, case, count, how, maxrank, what, ob, sg, cur=None, val=None):
        rec = self.rec
        k0, Pn, nq, got, q = how
        S = State()
        sym(q, 40, 0, max(nq - 1, 0))
        sym(VAL, 32, 1, maxrank)
        V = Aff(0, ((('y', VAL), 1),)) if val is None else val
        S.F.assume('le', V, maxrank)
        S.F.assume('ge', V, 1)
        if case[0] == 'phase':
            Q = Aff(0, ((('y', q), 1),))
            S.F.assume('le', Q, nq - 1)
            idx = S.F.add_terms(S.F.scale(Q, Pn), k0 + case[1])
            src = self.sources(got[case[1]])
            name = 'register %d*q%+d' % (Pn, k0 + case[1])
        else:
            idx = case[1]
            src = self.slot(case[1])
            name = 'register %d' % case[1]
        S.mem['r'] = self.zeros_is(self.zs)
        # the stored value, as bits
        width = len(src)
        old = BV([self.el(S.F.simp(w), b) for w, b in src] + [0] * (32 - width))
        # reading the array creates the words the same way
        res = []
        try:
            # case split on whether the register was empty: the cached number is at least
            # one then (it is exact before the call)
            for empty in (True, False) if cur is None else (cur == 0,):
                T = S.clone()
                try:
                    for i, b in enumerate(old[:width]) if cur is not None else ():
                        T.F.setbit(b, cur >> i & 1)
                    if empty:
                        for b in old[:width]:
                            T.F.setbit(b, 0)
                        T.F.assume('ge', self.zs.t, 1)
                    elif cur is None:
                        T.F.nz = T.F.nz + (tuple(old[:width]),)
                        T.F.prop()
                except Infeasible:
                    continue
                res += [(empty, o) for o in self.run(sg, [Ref('r'), Int(64, False, idx), Int(32, False, V)], T)]
        except Unknown as u:
            rec.add(['C02', 'C03'], ob + 'update', 'unknown', '%s: %s' % (what, u))
            return
        for empty, o in res:
            t = 'unknown' if o.taint else 'refuted'
            if o.out[0] == 'unknown':
                rec.add(['C02', 'C03', 'C18'], ob + 'update', 'unknown', '%s: %s' % (what, o.out[1]))
                continue
            if o.out[0] == 'panic':
                t = self.sure(o, t)
                rec.add(['C02', 'C03', 'C18'], ob + 'update does not panic', t, '%s, %s (%s): %s' % (what, name, 'empty' if empty else 'not empty', o.out[1]), '%s at %s' % (o.out[2], o.out[3]))
                continue
            try:
                self.judge_path(o, empty, idx, src, old, V, width, what, name, ob, t, case, how)
            except Unknown as u:
                rec.add(['C02', 'C03'], ob + 'update', 'unknown', '%s: %s' % (what, u))
        if not res:
            rec.add(['C02', 'C03'], ob + 'update', 'unknown', 'no path completes')

    def judge_path(self, o, empty, idx, src, old, V, width, what, name, ob, t, case, how):
        rec = self.rec
        F = o.F
        lv = dict(leaves_of(o.mem['r']))
        arr = lv.get(self.arrp)
        if not (isinstance(arr, Obj) and arr.kind == 'varr' and arr.fs[0] == ('sym', ARR)):
            raise Unknown('storage after an update')
        # other fields
        for p, v in leaves_of(self.sk):
            if p in (self.arrp, self.zp):
                continue
            if not same(F, v, lv.get(p)):
                rec.add(['C02'], ob + 'other fields', t, '%s changes another field' % what, what)
        if F.simp(arr.fs[1]) != self.words:
            rec.add(['C02'], ob + 'storage size', t, '%s changes the number of words' % what, what)
        # case split on the comparison of the stored and the offered value
        oldt = BV([F.rbit(b) for b in old])
        cases = []
        for cond in ('gt', 'le'):
            G = F.copy()
            try:
                G.assume(cond, V, G.simp(self.to_term(G, oldt)))
                cases.append((cond, G))
            except Infeasible:
                pass
        if not cases:
            return
        wq = src[0][0]
        for cond, G in cases:
            # written words
            newbits = {}
            for (wi, wv) in arr.fs[2]:
                wb = G.as_bits(wv.t, self.wbits)
                wt = G.simp(wi)
                newbits[wt] = [G.rbit(b) for b in wb]
            # the selected register
            sel = []
            for (w, b) in src:
                wt = G.simp(w)
                hit = [nb for ww, nb in newbits.items() if G.decide('eq', ww, wt) is True]
                und = [ww for ww in newbits if G.decide('eq', ww, wt) is None]
                if und:
                    raise Unknown('which word is written')
                sel.append(hit[0][b] if hit else G.rbit(self.el(wt, b)))
            seen_slots = {(repr(G.simp(w)), b) for w, b in src}
            want = list(G.as_bits(V, 32))[:width] if cond == 'gt' else old[:width]
            bad = None
            for x, y in zip(sel, want):
                if G.rbit(x) != G.rbit(y):
                    if self.can_differ(G, x, y):
                        bad = (x, y)
                        break
            rec.add(['C02'], ob + 'the register holds the maximum', 'proved' if bad is None else t,
                    '%s, %s: the register does not hold the %s value afterwards' % (what, name, 'offered' if cond == 'gt' else 'stored'), what)
            # every other bit of the written words that belongs to a register
            lost = None
            for wt, nb in newbits.items():
                for b in range(self.wbits):
                    if (repr(wt), b) in seen_slots:
                        continue
                    if not self.is_used(wt, b, case, how, G):
                        continue
                    x, y = G.rbit(nb[b]), G.rbit(self.el(wt, b))
                    if x != y and self.can_differ(G, x, y):
                        lost = (wt, b)
                        break
                if lost:
                    break
            rec.add(['C02'], ob + 'other registers are undisturbed', 'proved' if lost is None else t,
                    '%s, %s: bit %s of word %s, which belongs to another register, changes' % (what, name, lost and lost[1], lost and lost[0]), what)
            # the number of empty registers
            z = lv[self.zp]
            d = -1 if (empty and self.nonzero(G, V, cond)) else 0
            want = G.add_terms(self.zs.t, d)
            if empty and self.nonzero(G, V, cond) is None:
                raise Unknown('rank zero')
            dd = G.decide('eq', G.simp(z.t), want)
            rec.add(['C03'], ob + 'the number of empty registers', 'proved' if dd is True else t,
                    '%s, %s: the cached number of empty registers changes by the wrong amount (register %s, rank %s)' % (what, name, 'was empty' if empty else 'was not empty', 'larger' if cond == 'gt' else 'not larger'), what)

    def nonzero(self, G, V, cond):
        # an empty register: a larger rank is non-zero, one that is not larger is zero
        return cond == 'gt'

    def to_term(self, G, bv):
        return G.simp(bv) if not all(b in (0, 1) for b in bv) else sum(b << i for i, b in enumerate(bv))

    def is_used(self, wt, b, case, how, G):
        """whether bit b of that word belongs to a register (all registers of the word exist,
        except perhaps in the last word)"""
        if not hasattr(self, 'used'):
            self.used = {}
        if isinstance(wt, int):
            k = wt
            if (k, b) not in self.used:
                for r in (range(self.count) if self.count <= 64 else list(range(40)) + list(range(self.count - 40, self.count))):
                    for s in self.slot(r) or ():
                        if s:
                            self.used[s] = r
            return (k, b) in self.used
        k0, Pn, nq, got, q = how
        for r in range(Pn):
            for s in self.sources(got[r]) or ():
                if s and s[1] == b and G.decide('eq', s[0], wt) is not False:
                    return True
        # a word that is not aligned with the period
        return False

    def can_differ(self, G, x, y):
        """whether two bits can differ; a positive answer comes with values of the inputs"""
        d = bxor(x, y)
        if d == 0:
            return False
        st = set()
        bit_atoms(d, st) if d != 1 else None
        for b in st:
            if not (b[1] == VAL or isinstance(b[1], tuple) and b[1][:2] == ('el', ARR)):
                raise Unknown('a stored bit is not a function of the inputs')
        if len(st) > 8:
            raise Unknown('a stored bit depends on many bits')
        st = sorted(st, key=repr)
        sure = True

        def go(H, i):
            if H.rbit(d) == 0 if d != 1 else False:
                return False
            if i == len(st):
                if find_witness(H) is None:
                    nonlocal sure
                    sure = False
                    return False
                return True
            for v in (0, 1):
                K = H.copy()
                try:
                    b = K.rbit(st[i])
                    if b in (0, 1):
                        if b != v:
                            continue
                    else:
                        K.setbit(b, v)
                except Infeasible:
                    continue
                if go(K, i + 1):
                    return True
            return False
        if go(G.copy(), 0):
            return True
        if not sure:
            raise Unknown('whether two bits can differ')
        return False

    # ---- all sizes
    def do_registers(self, ps=None):
        rec = self.rec
        ob = '%s: ' % self.owner
        width = 5 if self.kind == 'pf' else 6
        for p in ps or self.ps:
            n = 1 << p
            try:
                self.used = {}
                self.setup(n)
                per = 32 // width
                z = self.z0.t
                rec.add(['C03', 'C11'], ob + 'initial number of empty registers', 'proved' if z == n else 'refuted', 'p=%d: a new sketch counts %s empty registers instead of %d' % (p, z, n), self.owner + '::with_count')
                want = -(-n // per)
                rec.add(['C19'], ob + 'number of words', 'proved' if self.words == want and self.wbits == 32 else 'refuted', 'p=%d: %s words of %d bits instead of %d of 32' % (p, self.words, self.wbits, want), self.owner + '::with_count')
                if self.check_iter(n):
                    ok = self.a0.fs[0][0] == 'rep' and isinstance(self.a0.fs[0][1], Int) and self.a0.fs[0][1].t == 0
                    rec.add(['C03', 'C02', 'C11'], ob + 'starts with all registers empty', 'proved' if ok else 'refuted', 'p=%d: new registers are not zero' % p, self.owner + '::with_count')
                    how = self.period or (n, 1, 0, [], ('in', 'q'))
                    self.check_update(n, how)
                else:
                    rec.add(['C02', 'C03'], ob + 'update', 'unknown', 'the layout of the registers is not established')
            except Unknown as u:
                rec.add(['C02', 'C03', 'C04'], ob + 'p=%d' % p, 'unknown', str(u))


    # ---- C26: an update is constant work
    def do_update_work(self, p):
        rec = self.rec
        n = 1 << p
        ob = '%s::set_greater: constant work' % self.owner
        self.used = {}
        self.setup(n)
        if not self.check_iter(n):
            rec.add(['C26'], ob, 'unknown', 'the layout of the registers is not established')
            return
        del rec[:]
        sg = find(self.P, self.owner, 'set_greater')
        k0, Pn, nq, got, q = self.period or (n, 1, 0, [], ('in', 'q'))

        def heavy(S, kind, name):
            raise Heavy(S, '%s (%s)' % ('allocates' if kind == 'alloc' else 'passes over all registers', name))
        for k in sorted({0, k0, k0 + 1, n // 2, n - 1}):
            S = State()
            sym(VAL, 32, 1, self.maxrank(n))
            V = Aff(0, ((('y', VAL), 1),))
            S.F.assume('le', V, self.maxrank(n))
            S.F.assume('ge', V, 1)
            src = self.slot(k)
            S.mem['r'] = self.zeros_is(self.zs)
            old = BV([self.el(S.F.simp(w), b) for w, b in src])
            for empty in (True, False):
                T = S.clone()
                try:
                    if empty:
                        for b in old:
                            T.F.setbit(b, 0)
                        T.F.assume('ge', self.zs.t, 1)
                    else:
                        T.F.nz = T.F.nz + (tuple(old),)
                        T.F.prop()
                except Infeasible:
                    continue
                try:
                    outs = self.run(sg, [Ref('r'), Int(64, False, k), Int(32, False, V)], T, heavy=heavy)
                except Heavy as h:
                    X, d = h.args
                    ok = not X.taint and find_witness(X.F) is not None
                    rec.add(['C26'], ob, 'refuted' if ok else 'unknown', '%s::set_greater %s to update register %d of %d' % (self.owner, d, k, n), d)
                    continue
                except Unknown as u:
                    rec.add(['C26'], ob, 'unknown', str(u))
                    continue
                w = [o for o in outs if o.out[0] == 'unknown']
                rec.add(['C26'], ob, 'unknown' if w else 'proved', w and str(w[0].out[1]) or '')


class Heavy(Exception):
    pass


class LCodes(Lower):
    """the compressed list"""

    def do_list(self):
        rec = self.rec
        P = self.P
        ob = 'DifIntVec: '
        try:
            self.go(rec, ob)
        except Unknown as u:
            rec.add(['C06'], ob + 'list', 'unknown', str(u))

    def empty_like(self, o, v, new):
        """equal to a new list"""
        return same(o.F, v, new)

    def go(self, rec, ob):
        P = self.P
        fnew = find(P, 'DifIntVec', 'new')
        push = find(P, 'DifIntVec', 'push')
        cnt = find(P, 'DifIntVec', 'count')
        ln = find(P, 'DifIntVec', 'len')
        clear = find(P, 'DifIntVec', 'clear')
        wcap = find_opt(P, 'DifIntVec', 'with_capacity')
        nexts = [f for f in P.fns.values() if f.crate == 'hyperloglogplus' and f.defn.split('::')[-1] == 'next' and 'DifIntVec' in f.name and f.body]
        intos = [f for f in P.fns.values() if f.crate == 'hyperloglogplus' and f.defn.split('::')[-1] in ('into_iter', 'iter') and 'DifIntVec' in f.name and f.body]
        if len(nexts) != 1 or not intos:
            raise Unknown('iteration over the list')
        nx, into = nexts[0], intos[0]
        o = self.one(fnew, [], State())
        new = o.out[1]
        vec = [(p, v) for p, v in leaves_of(new) if isinstance(v, Obj) and v.kind == 'vlist']
        if len(vec) != 1 or vec[0][1].fs:
            raise Unknown('storage of the list')
        vp = vec[0][0]
        if wcap:
            o = self.one(wcap, [Int(64, False, 7)], State())
            rec.add(['C06'], ob + 'with_capacity is a new list', 'proved' if same(o.F, o.out[1], new) else 'refuted', 'a list created with a capacity differs from a new one', wcap.name)
        ints = [p for p, v in leaves_of(new) if isinstance(v, Int)]
        # roles of the integer fields: the count is what count() returns; the others are state
        S = State()
        v = new
        for k, p in enumerate(ints):
            nm = ('in', 'lf', k)
            x0 = dict(leaves_of(new))[p]
            sym(nm, min(x0.n, 40), 0, (1 << min(x0.n, 40)) - 1)
            v = subst_leaf(v, p, lambda x, nm=nm: Int(x.n, x.s, Aff(0, ((('y', nm), 1),))))
        S.mem['l'] = v
        o = self.one(cnt, [Ref('l')], S)
        t = o.F.simp(o.out[1].t)
        cp = [p for k, p in enumerate(ints) if t == Aff(0, ((('y', ('in', 'lf', k)), 1),))]
        rest = [p for p in ints if p not in cp]
        if len(cp) != 1 or len(rest) != 1:
            raise Unknown('fields of the list')
        cp, lp = cp[0], rest[0]
        z = dict(leaves_of(new))
        rec.add(['C06', 'C11'], ob + 'a new list is empty', 'proved' if z[cp].t == 0 else 'refuted', 'a new list counts %s' % z[cp].t, fnew.name)
        # the fields of the iterator: at the start, and after one code
        S = State()
        S.mem['l'] = new
        arg = Ref('l')
        o = self.one(into, [arg], S)
        it0 = o.out[1]
        iints = [p for p, x in leaves_of(it0) if isinstance(x, Int)]
        last0 = z[lp].t
        if not isinstance(last0, int):
            raise Unknown('initial state of the list')
        # generic position: byte number L, the previous code is X
        L, X, Vn = ('in', 'L'), ('in', 'X'), ('in', 'V')
        sym(L, 40, 0, 1 << 30)
        sym(X, 32, 0, (1 << 32) - 1)
        sym(Vn, 32, 0, (1 << 32) - 1)
        C = ('in', 'C')
        sym(C, 40, 0, 1 << 30)
        T = {k: Aff(0, ((('y', k), 1),)) for k in (L, X, Vn, C)}
        # the offered code is at least the previous one
        T[Vn] = State().F.add_terms(T[X], T[Vn])
        # which iterator integer is the position and which the previous code: as many candidates
        # as there are assignments; the start state must be the one for L=0, X=initial
        cands = []
        if len(iints) == 2:
            for a, b in ((0, 1), (1, 0)):
                pi, xi = iints[a], iints[b]
                iv = dict(leaves_of(it0))
                if iv[pi].n == 64 and iv[xi].n == 32:
                    cands.append((pi, xi))
        if len(cands) != 1:
            raise Unknown('fields of the list iterator')
        pi, xi = cands[0]
        iv = dict(leaves_of(it0))
        ok = iv[pi].t == 0 and iv[xi].t == last0
        rec.add(['C06'], ob + 'iteration starts at the first code', 'proved' if ok else 'refuted', 'iteration starts at byte %s from %s' % (iv[pi].t, iv[xi].t), into.name)
        okrep = self.sequence(rec, ob, new, push, into, nx, cnt, clear, vp, lp, pi, xi)
        bad = 'refuted' if okrep else 'unknown'
        for start in ('first', 'later'):
            S = State()
            S.F.assume('le', T[Vn], (1 << 32) - 1)
            if start == 'first':
                S.F.assume('eq', T[X], last0)
                S.F.assume('eq', T[L], 0)
                S.F.assume('eq', T[C], 0)
            v = subst_leaf(new, vp, lambda x: Obj('vbytes', S.F.simp(T[L]), ()))
            v = subst_leaf(v, cp, lambda x: Int(x.n, x.s, T[C]))
            v = subst_leaf(v, lp, lambda x: Int(x.n, x.s, T[X]))
            S.mem['l'] = v
            outs = self.run(push, [Ref('l'), Int(32, False, T[Vn])], S)
            ndone = 0
            for o in outs:
                t = 'unknown' if o.taint else bad
                if o.out[0] == 'unknown':
                    rec.add(['C06', 'C18'], ob + 'push', 'unknown', o.out[1])
                    continue
                if o.out[0] == 'panic':
                    t = self.sure(o, t)
                    rec.add(['C06', 'C18'], ob + 'push does not panic', t, 'appending panics: %s' % o.out[1], '%s at %s' % (o.out[2], o.out[3]))
                    continue
                ndone += 1
                lv = dict(leaves_of(o.mem['l']))
                nv = lv[vp]
                if not (isinstance(nv, Obj) and nv.kind == 'vbytes'):
                    raise Unknown('storage after push')
                nb = len(nv.fs[1])
                rec.add(['C06', 'C19'], ob + 'a code takes 1 to 5 bytes', 'proved' if 1 <= nb <= 5 else t, 'a code takes %d bytes' % nb, push.name)
                rec.add(['C06'], ob + 'push counts the code', 'proved' if o.F.decide('eq', lv[cp].t, o.F.add_terms(T[C], 1)) is True else t, 'the number of codes changes by the wrong amount', push.name)
                rec.add(['C06'], ob + 'push remembers the code', 'proved' if o.F.decide('eq', o.F.simp(lv[lp].t), o.F.simp(T[Vn])) is True else 'unknown', 'the last code is not remembered', push.name)
                # read back from the position before
                R = State()
                R.mem = {'l': o.mem['l']}
                R.F = o.F.copy()
                R.n = o.n
                it = subst_leaf(it0, pi, lambda x: Int(x.n, x.s, R.F.simp(T[L])))
                it = subst_leaf(it, xi, lambda x: Int(x.n, x.s, R.F.simp(T[X])))
                R.mem['it'] = it
                R.mem['l'] = o.mem['l']
                for r in self.run(nx, [Ref('it')], R):
                    t = 'unknown' if o.taint or r.taint else bad
                    if r.out[0] == 'unknown':
                        rec.add(['C06', 'C18'], ob + 'reading', 'unknown', r.out[1])
                        continue
                    if r.out[0] == 'panic':
                        t = self.sure(r, t)
                        rec.add(['C06', 'C18'], ob + 'reading does not panic', t, 'reading back a code of %d bytes panics: %s' % (nb, r.out[1]), '%s at %s' % (r.out[2], r.out[3]))
                        continue
                    q = r.out[1]
                    if q.var != 1:
                        rec.add(['C06'], ob + 'every code is read back', t, 'a code of %d bytes is not read back' % nb, nx.name)
                        continue
                    got = q.fs[0]
                    d = self.eq(r.F, got.t, T[Vn])
                    rec.add(['C06'], ob + 'every code is read back', 'proved' if d is True else ('unknown' if d is None else t), 'a code of %d bytes is read back as another value' % nb, nx.name)
                    il = dict(leaves_of(r.mem['it']))
                    d = r.F.decide('eq', r.F.simp(il[pi].t), r.F.add_terms(T[L], nb))
                    rec.add(['C06'], ob + 'iteration advances past the code', 'proved' if d is True else t, 'iteration advances by another amount than the %d bytes of the code' % nb, nx.name)
                    d = self.eq(r.F, il[xi].t, T[Vn])
                    rec.add(['C06'], ob + 'iteration remembers the code', 'proved' if d is True else ('unknown' if d is None else t), 'iteration continues from another code', nx.name)
                    rec.add(['C06', 'C09'], ob + 'reading does not modify the list', 'proved' if same(r.F, r.mem['l'], o.mem['l']) else t, 'reading modifies the list', nx.name)
                # at the end
                E = State()
                E.mem = {'l': o.mem['l']}
                E.F = o.F.copy()
                E.n = o.n
                it = subst_leaf(it0, pi, lambda x: Int(x.n, x.s, E.F.add_terms(T[L], nb)))
                it = subst_leaf(it, xi, lambda x: Int(x.n, x.s, E.F.simp(T[Vn])))
                E.mem['it'] = it
                for r in self.run(nx, [Ref('it')], E):
                    t = 'unknown' if o.taint or r.taint else bad
                    if r.out[0] == 'unknown':
                        rec.add(['C06'], ob + 'end of the list', 'unknown', r.out[1])
                    else:
                        ok = r.out[0] == 'ret' and r.out[1].var == 0
                        rec.add(['C06'], ob + 'end of the list', 'proved' if ok else t, 'reading goes on past the last code', nx.name)
                # len
                Z = State()
                Z.mem = {'l': o.mem['l']}
                Z.F = o.F.copy()
                r = self.one(ln, [Ref('l')], Z)
                rec.add(['C06', 'C19'], ob + 'len is the number of bytes', 'proved' if r.F.decide('eq', r.out[1].t, r.F.add_terms(T[L], nb)) is True else t, 'len() is not the number of bytes', ln.name)
                # clear
                Z = State()
                Z.mem = {'l': o.mem['l']}
                Z.F = o.F.copy()
                r = self.one(clear, [Ref('l')], Z)
                rec.add(['C06', 'C19'], ob + 'a cleared list is a new list', 'proved' if same(r.F, r.mem['l'], new) else t, 'a cleared list differs from a new one', clear.name)
            if not ndone:
                rec.add(['C06'], ob + 'push', 'unknown', 'no path completes')

    def sequence(self, rec, ob, new, push, into, nx, cnt, clear, vp, lp, pi, xi):
        """three arbitrary codes appended to a new list and read back; also establishes how the
        fields represent the position and the last code (True if they do)"""
        D = []
        S = State()
        for k in range(3):
            nm = ('in', 'D', k)
            sym(nm, 32, 0, (1 << 32) - 1)
            x = Aff(0, ((('y', nm), 1),))
            D.append(S.F.add_terms(D[-1], x) if D else x)
        for x in D:
            S.F.assume('le', x, (1 << 32) - 1)
        S.mem['l'] = subst_leaf(new, vp, lambda x: Obj('vbytes', 0, ()))
        work = [(S, 0)]
        okrep = True
        while work:
            S, k = work.pop()
            if k < 3:
                for o in self.run(push, [Ref('l'), Int(32, False, D[k])], S):
                    if o.out[0] == 'unknown':
                        rec.add(['C06', 'C18'], ob + 'codes appended to a new list', 'unknown', o.out[1])
                        okrep = False
                        continue
                    if o.out[0] == 'panic':
                        rec.add(['C06', 'C18'], ob + 'push does not panic', self.sure(o, 'unknown' if o.taint else 'refuted'), 'appending code %d to a new list panics: %s' % (k + 1, o.out[1]), '%s at %s' % (o.out[2], o.out[3]))
                        okrep = False
                        continue
                    T = State()
                    T.mem = {'l': o.mem['l']}
                    T.F, T.n, T.taint = o.F, o.n, o.taint
                    if o.F.decide('eq', o.F.simp(dict(leaves_of(o.mem['l']))[lp].t), o.F.simp(D[k])) is not True:
                        okrep = False
                    work.append((T, k + 1))
                continue
            z = S.clone()
            r = self.one(cnt, [Ref('l')], z)
            rec.add(['C06'], ob + 'the number of codes', 'proved' if r.F.decide('eq', r.out[1].t, 3) is True else 'refuted' if not r.taint else 'unknown', 'a list of 3 codes counts %s' % (r.F.simp(r.out[1].t),), cnt.name)
            l0 = S.mem['l']
            nb = len(dict(leaves_of(l0))[vp].fs[1])
            o = self.one(into, [Ref('l')], S.clone())
            T = State()
            T.mem = dict(o.mem)
            T.mem['it'] = o.out[1]
            T.F, T.n, T.taint = o.F, o.n, S.taint or o.taint
            rd = [(T, 0)]
            while rd:
                T, j = rd.pop()
                for r in self.run(nx, [Ref('it')], T):
                    t = 'unknown' if r.taint or T.taint else 'refuted'
                    if r.out[0] == 'unknown':
                        rec.add(['C06', 'C18'], ob + 'codes read from a list', 'unknown', r.out[1])
                        okrep = False
                        continue
                    if r.out[0] == 'panic':
                        t = self.sure(r, t)
                        rec.add(['C06', 'C18'], ob + 'reading does not panic', t, 'reading code %d of 3 in %d bytes panics: %s' % (j + 1, nb, r.out[1]), '%s at %s' % (r.out[2], r.out[3]))
                        okrep = False
                        continue
                    q = r.out[1]
                    if j == 3:
                        rec.add(['C06'], ob + 'nothing is read after the last code', 'proved' if q.var == 0 else t, 'a fourth code is read from a list of 3 codes', nx.name)
                        rec.add(['C06', 'C09'], ob + 'reading does not modify the list', 'proved' if same(r.F, r.mem['l'], l0) else t, 'reading modifies the list', nx.name)
                        continue
                    if q.var != 1:
                        rec.add(['C06'], ob + 'every code is read back', t, 'code %d of 3 in %d bytes is not read back' % (j + 1, nb), nx.name)
                        okrep = False
                        continue
                    d = self.eq(r.F, q.fs[0].t, D[j])
                    rec.add(['C06'], ob + 'every code is read back', 'proved' if d is True else ('unknown' if d is None else t), 'code %d of 3 in %d bytes is read back as another value' % (j + 1, nb), nx.name)
                    il = dict(leaves_of(r.mem['it']))
                    if d is not True or r.F.decide('eq', r.F.simp(il[xi].t), r.F.simp(D[j])) is not True:
                        okrep = False
                    U = State()
                    U.mem = dict(r.mem)
                    U.F, U.n, U.taint = r.F, r.n, r.taint or T.taint
                    rd.append((U, j + 1))
            z = S.clone()
            r = self.one(clear, [Ref('l')], z)
            lv = subst_leaf(new, vp, lambda x: Obj('vbytes', 0, ()))
            rec.add(['C06', 'C19'], ob + 'a cleared list is a new list', 'proved' if same(r.F, r.mem['l'], lv) or same(r.F, r.mem['l'], new) else 'refuted', 'a cleared list differs from a new one', clear.name)
        return okrep

    def eq(self, F, a, b):
        a, b = F.simp(a), F.simp(b)
        d = F.decide('eq', a, b)
        if d is not None:
            return d
        G = F.copy()
        try:
            G.assume('ne', a, b)
        except Infeasible:
            return True
        except Unknown:
            return None
        try:
            x, y = F.as_bits(a, 32), F.as_bits(b, 32)
            if all(F.rbit(p) == F.rbit(q) for p, q in zip(x, y)):
                return True
        except Unknown:
            return None
        return False if find_witness(G) is not None else None
