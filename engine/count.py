"""Estimates: the decision tree of `count` (which comparisons select which closed
form) is read off the code for all register contents at once, and compared with the
published estimators.

A register state enters an estimate only through accumulators over one complete
reading of the registers (sum over registers of g(value), g read off the loop body)
and through the number of empty registers Z.  Leaves of the tree are closed forms in
those; they are compared cell by cell, the cells being cut at every constant that
either the code or the published estimator compares with.
"""
import bisect, json, os
from upper import *
import forms as fm

HERE = os.path.dirname(os.path.abspath(__file__))
_G = None
THRESH = {4: 10.0, 5: 20.0}


def golden():
    global _G
    if _G is None:
        _G = json.load(open(os.path.join(HERE, 'golden.json')))
    return _G


THRESHOLD = {4: 10, 5: 10, 6: 40, 7: 80, 8: 220, 9: 400, 10: 900, 11: 1800, 12: 3100, 13: 6500, 14: 11500, 15: 20000, 16: 50000,
             17: 120000, 18: 350000}
TWO32 = 4294967296.0


def alpha(m):
    return {16: 0.673, 32: 0.697, 64: 0.709}.get(m) or 0.7213 / (1.0 + 1.079 / m)


def bias_all(p, E):
    """interpolations between neighbouring data points that enclose E (the published
    data is not monotone at p = 5 and 6: there can be several)"""
    es, bs = golden()['estimates'][p - 4], golden()['biases'][p - 4]
    if E <= es[0]:
        return [bs[0]]
    if E >= es[-1]:
        return [bs[-1]]
    if es == sorted(es):
        return [bias_spec(p, E)]
    out = []
    for i in range(len(es) - 1):
        if min(es[i], es[i + 1]) <= E <= max(es[i], es[i + 1]):
            out.append(bs[i] + (E - es[i]) / (es[i + 1] - es[i]) * (bs[i + 1] - bs[i]))
    return out


def bias_spec(p, E):
    es, bs = golden()['estimates'][p - 4], golden()['biases'][p - 4]
    if E <= es[0]:
        return bs[0]
    if E >= es[-1]:
        return bs[-1]
    i = bisect.bisect_left(es, E)
    if es[i] == E:
        return bs[i]
    r = (E - es[i - 1]) / (es[i] - es[i - 1])
    return bs[i - 1] + r * (bs[i] - bs[i - 1])


class Point:
    """a register state: Z empty registers, the others holding two adjacent ranks"""
    __slots__ = ('m', 'Z', 'hist', 'S', 'E')

    def __init__(self, m, Z, hist):
        self.m = m
        self.Z = Z
        self.hist = hist  # {value: number}
        self.S = math.fsum(n * 2.0**-v for v, n in hist.items())
        self.E = alpha(m) * (m * m) / self.S

    def __repr__(self):
        return 'registers{%s}' % ', '.join('%d x%g' % (v, n) for v, n in sorted(self.hist.items()) if n)


def point(m, maxrank, Z, S):
    """a state with that many empty registers and about that harmonic sum"""
    n = m - Z
    if n == 0:
        return Point(m, Z, {0: m})
    t = (S - Z) / n
    if not (2.0**-maxrank * (1 - 1e-12) <= t <= 0.5 * (1 + 1e-12)):
        return None
    t = min(max(t, 2.0**-maxrank), 0.5)
    v = min(max(int(math.floor(-math.log2(t))), 1), maxrank)
    if 2.0**-v < t:
        v -= 1
    if v >= maxrank:
        return Point(m, Z, {0: Z, maxrank: n})
    a = (t - 2.0**-(v + 1)) / (2.0**-v - 2.0**-(v + 1))
    return Point(m, Z, {0: Z, v: n * a, v + 1: n * (1 - a)})


def pf_spec(p, P):
    m = 1 << p
    E = P.E
    if E <= 2.5 * m and P.Z != 0:
        return 'lc', m * math.log(m / P.Z)
    if E > TWO32 / 30:
        x = 1 - E / TWO32
        if x <= 1.5 / TWO32:
            return 'sat', None
        return 'large', -TWO32 * math.log(x)
    return 'raw', E


def pp_spec(p, P):
    m = 1 << p
    E = P.E
    if P.Z != 0:
        h = m * math.log(m / P.Z)
        if h <= THRESHOLD[p]:
            return 'lc', h
    if E <= 5.0 * m:
        return 'bias', E - bias_spec(p, E)
    return 'raw', E


def spec_forms(K, p, mode, E):
    """the closed forms of the published estimate in the cell of this mode: (form, scale of its constants)"""
    from fractions import Fraction as Q
    m = 1 << p
    a = fm.mul(fm.const(alpha(m) * m * m), fm.atom('S', -1))
    if mode == 'lc':
        return [(fm.mul(fm.const(m), fm.ln(fm.mul(fm.const(m), fm.atom('Z', -1)))), 0)]
    if mode == 'raw':
        return [(a, 0)]
    if mode == 'large':
        x = fm.add(fm.const(1), fm.mul(a, fm.const(Q(1, 1 << 32))), -1)
        return [(fm.mul(fm.const(-(1 << 32)), fm.ln(x)), 0)]
    es, bs = golden()['estimates'][p - 4], golden()['biases'][p - 4]
    if E <= es[0]:
        return [(fm.add(a, fm.const(bs[0]), -1), es[0])]
    if E >= es[-1]:
        return [(fm.add(a, fm.const(bs[-1]), -1), es[-1])]
    out = []
    for i in range(len(es) - 1):
        if min(es[i], es[i + 1]) * (1 - 1e-6) <= E <= max(es[i], es[i + 1]) * (1 + 1e-6) and es[i] != es[i + 1]:
            r = (Q(bs[i + 1]) - Q(bs[i])) / (Q(es[i + 1]) - Q(es[i]))
            b = fm.add(fm.mul(fm.add(a, fm.const(es[i]), -1), fm.const(r)), fm.const(bs[i]))
            out.append((fm.add(a, b, -1), es[-1]))
    return out


class NoValue(Unknown):
    """a reading of the registers does not complete at this state on this path"""


class Leaf:
    """one path of the decision tree"""

    def __init__(self, o):
        self.o = o
        self.F = o.F
        self.out = o.out
        self.accs = {k[1]: v for k, v in o.meta.items() if isinstance(k, tuple) and k[0] == 'acc'}


class Env:
    """values of accumulators and counters at a register state"""

    def __init__(self, leaf, pt, label):
        self.leaf = leaf
        self.pt = pt
        self.memo = {}
        self.fm = {}
        self.skipped = False

    def closed(self, s):
        """an accumulator over the registers (the others belong to loops over codes)"""
        a = self.leaf.accs.get(s)
        if a is None:
            return False
        if a[2] is not True:
            self.skipped = True
            return False
        return True

    def accval(self, nm):
        v = self.fm.get(nm)
        if v is not None:
            return v
        a = self.leaf.accs.get(nm)
        if a is None or a[2] is not True:
            raise Unknown('a quantity with no closed form: %s' % (a[4] if a else (nm,),))
        _, init, ok, g, why = a
        tot = init
        for v, n in self.pt.hist.items():
            if n:
                if v not in g:
                    raise NoValue('accumulation of value %d' % v)
                tot += n * g[v]
        self.fm[nm] = tot
        return tot

    def atom(self, at):
        if at[0] == 'y':
            s = at[1]
            if isinstance(s, tuple) and s and s[0] == 'Z':
                return self.pt.Z
            if isinstance(s, tuple) and s and s[0] == 't':
                return self.int(s[1])
            if s in self.leaf.accs:
                return self.accval(s)
            if s in self.leaf.F.sub:
                return self.int(self.leaf.F.sub[s])
            iv = self.leaf.F.iv.get(at)
            if iv and iv[0] == iv[1]:
                return iv[0]
        raise Unknown('an estimate depends on %s' % (at,))

    def int(self, t):
        if isinstance(t, int):
            return t
        if isinstance(t, BV):
            t = self.leaf.F.bits_aff(t)
            if isinstance(t, int):
                return t
        return t.c + sum(k * self.atom(a) for a, k in t.a)

    def f(self, e):
        if not isinstance(e, tuple):
            return float(e)
        r = self.memo.get(e)
        if r is not None:
            return r
        if e[0] == 'fsym':
            r = float(self.accval(e[1]))
        elif e[0] == 'i2f':
            r = float(self.int(e[1]))
        else:
            r = fmk(e[0], *[self.f(x) for x in e[1:]])
            if isinstance(r, tuple):
                raise Unknown('float operation ' + e[0])
        self.memo[e] = r
        return r

    def holds(self):
        """whether the path is taken at this state; None: within rounding of a comparison"""
        F = self.leaf.F
        for at, (lo, hi) in F.iv.items():
            s = at[1]
            if at[0] == 'y' and (self.closed(s) or isinstance(s, tuple) and s and s[0] == 'Z'):
                v = self.atom(at)
                if not (lo <= v <= hi):
                    return False
            elif at[0] == 'y' and isinstance(s, tuple) and s and s[0] == 'rv':
                # a register that was read on this path
                if not any(n >= 1 and lo <= v <= hi for v, n in self.pt.hist.items()):
                    return False
        for s, t in F.sub.items():
            if self.closed(s) or isinstance(s, tuple) and s and s[0] == 'Z':
                v = self.pt.Z if s[0] == 'Z' else self.accval(s)
                if v != self.int(t):
                    return False
        for a in F.ge + F.ne:
            ss = term_syms(a)
            if ss and all(self.closed(s) or isinstance(s, tuple) and s and s[0] == 'Z' for s in ss):
                v = self.int(a)
                if a in F.ge and v < 0 or a in F.ne and v == 0:
                    return False
        return True

    def cmp(self, op, a, b):
        x, y = self.f(a), self.f(b)
        return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[op]


class Trie:
    """the leaves by the comparisons they have in common"""

    def __init__(self, leaves):
        self.kids = {}
        self.here = []
        self.one = None
        for i, l in enumerate(leaves):
            t = self
            t.one = t.one or l
            for c in l.F.fc:
                q = t.kids.setdefault(c[:3], {})
                t = q.setdefault(c[3], Trie([]))
                t.one = t.one or l
            t.here.append(i)

    def select(self, pt, label, out, env=None):
        out += self.here
        for (op, a, b), q in self.kids.items():
            rep = next(iter(q.values())).one
            if env is None or env.leaf is not rep:
                if env is None or env.leaf.accs is not rep.accs:
                    env = Env(rep, pt, label)
            try:
                r = env.cmp(op, a, b)
            except NoValue:
                continue
            if r in q:
                q[r].select(pt, label, out, env if q[r].one is rep else None)


class Agg_out:
    def __init__(self, out):
        self.out = out


def close(a, b):
    if a == b:
        return True
    if not (math.isfinite(a) and math.isfinite(b)):
        return False
    return abs(a - b) <= 1e-9 + 1e-10 * max(abs(a), abs(b))


class Counts(Ops):
    def acc_hook(self, I, nm, init, es, ok, T):
        """g(value) of an accumulator"""
        def fail(why):
            return ('acc', init, False, None, why)
        if not ok:
            return fail('the accumulation does not follow one loop')
        if not isinstance(init, (int, float)):
            return fail('initial value %r' % (init,))
        g = {}
        lab = None
        kv = T['kvar']
        for b, term in es:
            rd = b.meta.get('reads', ())
            if len(rd) != 1:
                return fail('%d registers are read per iteration' % len(rd))
            label, evs, t, v = rd[0]
            if lab is None:
                lab = (label, evs)
            elif lab != (label, evs):
                return fail('registers of two sketches are read')
            if kv is None or b.F.sub_terms(t, Aff(0, ((('y', kv), 1),))) != 0:
                d = b.F.sub_terms(t, Aff(0, ((('y', kv), 1),))) if kv is not None else None
                return fail('reading starts at register %s' % (d,) if isinstance(d, int) else 'the registers are not read in sequence')
            if isinstance(v, Aff) and len(v.a) == 1 and v.c == 0:
                s = v.a[0][0][1]
                lo, hi = b.F.interval(v)
            else:
                return fail('register value')
            for x in range(lo, hi + 1):
                if b.F.decide('eq', v, x) is False:
                    continue
                G = b.F.copy()
                try:
                    G.assume('eq', v, x)
                except Infeasible:
                    continue

                def ie(u):
                    u = G.simp(u)
                    if isinstance(u, int):
                        return u
                    raise Unknown('term')
                try:
                    if isinstance(term, (int, float)):
                        y = term
                    else:
                        y = feval(term, {}, ie)
                except (Unknown, KeyError):
                    return fail('the contribution of a register')
                if x in g and g[x] != y:
                    return fail('the contribution of a register is not a function of its value')
                g[x] = y
        return ('acc', init, True, g, (lab, kv))

    def do_count(self):
        rec = self.rec
        K = self.kind
        self.count_dense()
        if K == 'pp':
            self.count_sparse()

    def count_again(self):
        """a sketch with state of its own (a cached estimate, say): estimate, change, estimate again"""
        rec, K = self.rec, self.kind
        est = ['C13', 'C14' if K == 'pf' else 'C15']
        small = [(0, 1, 0, 1), (0, 0, 0, 0)]
        starts = [lambda S, l, b: self.dense(l, b)]
        if K == 'pp':
            starts += [lambda S, l, b, e=e: self.sparse(S, l, bool(e[0]), bool(e[1]), b, e[2:]) for e in small]
        what = '%s count again' % K
        for i, f1 in enumerate(starts):
            for op in ('insert', 'merge2'):
                for j, f2 in enumerate(starts if op == 'merge2' else starts[:1]):
                    S = State()
                    try:
                        S.mem['s'] = f1(S, 'self', 'self')
                        if op == 'merge2':
                            S.mem['o'] = f2(S, 'other', 'ob')
                    except Infeasible:
                        continue
                    if op == 'insert':
                        S.mem['k'] = key()
                    try:
                        # a few of the paths of the first estimate: each is followed by all of the rest
                        outs = [o for o in self.run_count(S) if o.out[0] == 'ret']
                        for o in outs[::max(1, len(outs) // 2)]:
                            self.count_after(o, op, est, what)
                    except Unknown as u:
                        rec.add(est, what, 'unknown', str(u))

    def count_after(self, o, op, est, what):
        rec = self.rec
        I = self.interp()
        S = o.clone()
        S.out, S.frames = None, []
        if op == 'insert':
            S.meta['inserting'] = True
        else:
            I.hooks['set_greater'] = lambda c, regs, i, v: Obj('regs', regs.fs[0], regs.fs[1], regs.fs[2], regs.fs[3] | {'merged'})
        outs = self.run(I, self.root(op), [Ref('s'), Ref('k' if op == 'insert' else 'o')], S)
        sn = 'count, %s, count' % op[:5]
        res, whole = [], not o.taint
        for o1 in outs:
            if o1.out[0] != 'ret':
                whole = False
                continue
            S1 = o1.clone()
            S1.out, S1.frames = None, []
            for o2 in self.run_count(S1):
                if o2.out[0] != 'ret' or not isinstance(o2.out[1], Flt):
                    whole = False
                    continue
                t = 'unknown' if o2.taint else 'refuted'
                st2 = self.sketch_state(o2, 's')
                if st2['regs'] is None:
                    whole = False
                    self.judge_sparse(o2, st2, what, sn, t)
                    continue
                label, evs = st2['regs'].fs[0], st2['regs'].fs[3]
                used = set()
                self.fsyms(o2.out[1].e, used)
                old = False
                for s in used:
                    if isinstance(s, tuple) and s and s[0] == 'Z':
                        old = old or s[1] != label or s[2] != tuple(sorted(map(repr, evs)))
                    else:
                        a = o2.meta.get(('acc', s))
                        if a is not None and a[2] is True:
                            old = old or a[4][0] != (label, evs)
                res.append((old, t))
        every = whole and res and all(x for x, _ in res)
        for old, t in res:
            rec.add(est, what + ': of the present registers', 'proved' if not old else 'refuted' if every else t,
                    '%s p=%d: the estimate is that of an earlier state of the sketch [%s]' % (self.kind, self.p, sn), what)

    def run_count(self, S, I=None):
        I = I or self.interp()
        I.hooks['acc'] = self.acc_hook
        I.hooks['drop_sym'] = self.drop_inputs
        return self.run(I, self.root('count'), [Ref('s')], S)

    def drop_inputs(self, S):
        """once the sketch is dense, facts about the codes it was built from no longer
        distinguish states"""
        if self.kind != 'pp':
            return None
        try:
            st = self.sketch_state(S, 's')
        except (Unknown, KeyError):
            return None
        if st['regs'] is None or st['regs'].fs[0] != 'fresh' or S.F.simp(st['dif'].fs[4].t) != 0 or S.F.simp(st['set'].fs[4].t) != 0:
            return None
        return lambda s: s == CODEW or isinstance(s, tuple) and s and s[0] == 'in'

    # ---- dense
    def count_dense(self):
        rec, K = self.rec, self.kind
        S = State()
        sk = self.dense('self')
        S.mem['s'] = sk
        what = '%s count (dense)' % K
        est = ['C14'] if K == 'pf' else ['C15', 'C16']
        try:
            outs = self.run_count(S)
        except Unknown as u:
            rec.add(['C13', 'C17', 'C18'] + est, what, 'unknown', str(u))
            return
        good = []
        for o in outs:
            if o.out[0] == 'unknown':
                rec.add(['C13', 'C17', 'C18'] + est, what, 'unknown', o.out[1])
                continue
            good.append(o)
            if o.out[0] != 'ret':
                continue
            now = o.mem.get('s')
            same_ = isinstance(now, Agg) and all(same(o.F, a, b) for i, (a, b) in enumerate(zip(now.fs, sk.fs)) if i not in self.extra)
            rec.add(['C13'], what + ': the sketch is unchanged', 'proved' if same_ else ('unknown' if o.taint else 'refuted'),
                    '%s p=%d: a dense sketch is modified by count' % (K, self.p), what)
        if good:
            self.judge_tree(good, 'self', frozenset(), what, complete=len(good) == len(outs))

    def leaves_ok(self, leaves):
        """each accumulator that matters covers all registers of the sketch read"""
        return True

    def fsyms(self, e, out):
        if isinstance(e, tuple):
            if e[0] == 'fsym':
                out.add(e[1])
            elif e[0] == 'i2f':
                for s in term_syms(e[1]):
                    out.add(s)
            else:
                for x in e[1:]:
                    self.fsyms(x, out)

    def check_acc(self, leaf, label, evs):
        """the accumulators used by a leaf are complete readings of that sketch"""
        used = set()
        for op, a, b, tr in leaf.F.fc:
            self.fsyms(a, used)
            self.fsyms(b, used)
        if leaf.out[0] == 'ret' and isinstance(leaf.out[1], Flt):
            self.fsyms(leaf.out[1].e, used)
        for s in used:
            if isinstance(s, tuple) and s and s[0] == 'Z':
                if s[1] != label or s[2] != tuple(sorted(map(repr, evs))):
                    return 'refuted', 'the number of empty registers of another state is used'
                continue
            a = leaf.accs.get(s)
            if a is None:
                continue
            if a[2] is not True:
                return 'unknown', str(a[4])
            lab, kv = a[4]
            if lab != (label, evs):
                return 'refuted', 'registers of another state are summed'
            d = leaf.F.decide('ge', Aff(0, ((('y', kv), 1),)), self.m) if kv is not None else None
            if d is not True:
                return ('unknown' if leaf.o.taint else 'refuted'), 'not every register enters the sum'
        return None

    def judge_tree(self, outs, label, evs, what, complete=True, scen='', multi=False):
        rec, K, p, m = self.rec, self.kind, self.p, self.m
        est = ['C14'] if K == 'pf' else ['C15']
        leaves = [Leaf(o) for o in outs]
        for l in leaves:
            w = self.check_acc(l, label, evs)
            if w is not None:
                rec.add(est + ['C04'] * (w[0] == 'refuted'), what + ': complete reading', w[0], '%s p=%d: %s %s' % (K, p, w[1], scen), what)
                if w[0] == 'unknown':
                    return
        rec.add(est, what + ': complete reading of the registers', 'proved')
        taint = any(l.o.taint for l in leaves)
        try:
            pts = self.points(leaves)
        except Unknown as u:
            rec.add(est + ['C17'], what, 'unknown', str(u))
            return
        spec = pf_spec if K == 'pf' else pp_spec
        bad = {}
        fforms, fres, floose = {}, {}, None
        zname = ('Z', label, tuple(sorted(map(repr, evs))))

        def whole_cell(hit, mode, pt):
            """the closed form of the leaf is the published one, so that they agree in the whole cell"""
            sf = spec_forms(K, p, mode, pt.E)
            k = (hit, mode, tuple(repr(x) for x in sf))
            if k not in fres:
                try:
                    if hit not in fforms:
                        fforms[hit] = fm.Forms(leaves[hit], m, self.maxrank()).f(leaves[hit].out[1].e)
                    fres[k] = fforms[hit] is not None and any(fm.agree(fforms[hit], x, sc) for x, sc in sf)
                except fm.NoForm:
                    fforms[hit] = None
                    fres[k] = False
                except (Unknown, ArithmeticError, TypeError, ValueError, KeyError):
                    fres[k] = False
            return fres[k]
        nchk = 0
        n17 = 0
        miss = 0
        skips = set()
        refut = 'unknown' if taint else 'refuted'
        trie = Trie(leaves)
        for pt in pts:
            hits = []
            try:
                cand = []
                trie.select(pt, label, cand)
                for i in cand:
                    E = Env(leaves[i], pt, label)
                    try:
                        ok = E.holds()
                        if ok and leaves[i].out[0] == 'ret' and isinstance(leaves[i].out[1], Flt):
                            E.f(leaves[i].out[1].e)
                    except NoValue:
                        continue
                    if ok:
                        hits.append(i)
                        if E.skipped:
                            skips.add(i)
                        if not multi:
                            break
            except Unknown as u:
                rec.add(est + ['C17', 'C16'] if K == 'pp' else est + ['C17'], what, 'unknown', str(u))
                return
            if not hits:
                miss += 1
                continue
            for hit in hits:
                l = leaves[hit]
                if l.out[0] == 'panic':
                    bad.setdefault(('C18', 'panic ' + str(l.out[1])), (pt, l.out[1:], None, hit))
                    continue
                try:
                    val = Env(l, pt, label).f(l.out[1].e)
                except (Unknown, AttributeError) as u:
                    rec.add(est + ['C17'], what, 'unknown', str(u))
                    return
                n17 += 1
                if not math.isfinite(val) or val < 0:
                    bad.setdefault(('C17', 'finite'), (pt, val, None, hit))
                mode, want = spec(p, pt)
                nchk += 1
                if mode == 'sat':
                    continue
                if close(val, want) or mode == 'bias' and any(close(val, pt.E - x) for x in bias_all(p, pt.E)):
                    if not whole_cell(hit, mode, pt):
                        iv = l.F.iv.get(('y', zname))
                        if not (zname in l.F.sub or iv and iv[0] == iv[1]):
                            floose = floose or (mode, pt, l.out[1].e)
                    continue
                # linear counting instead is a matter of the thresholds; no correction or
                # another one is a matter of the bias as well
                others = [m * math.log(m / pt.Z)] if pt.Z else []
                pr = est[:]
                if mode == 'bias' and not any(close(val, x) for x in others):
                    pr = ['C15', 'C16']
                for q in pr:
                    bad.setdefault((q, mode), (pt, val, want, hit))
        self.stats['points'] = self.stats.get('points', 0) + nchk
        self.stats['leaves'] = self.stats.get('leaves', 0) + len(leaves)
        if complete and not bad:
            rec.add(est + ['C16'] * (K == 'pp'), what + ': the closed forms are the published ones in the whole of their cells',
                    'proved' if floose is None else 'unknown', '%s p=%d: %s' % (K, p, floose), what)
            rec.add(est + ['C16'] * (K == 'pp'), what + ': every comparison cuts one axis at one point',
                    'proved' if self.uncut is None else 'unknown', '%s p=%d: %s' % (K, p, self.uncut), what)
        names = est + (['C16'] if K == 'pp' else [])
        for q in names + ['C17', 'C18']:
            b = [(k, v) for k, v in bad.items() if k[0] == q]
            for (k, v) in b:
                pt, val, want, hit = v
                if q == 'C18':
                    d = '%s p=%d: count panics (%s) at %r %s' % (K, p, val, pt, scen)
                elif q == 'C17':
                    d = '%s p=%d: count gives %r at %r %s' % (K, p, val, pt, scen)
                else:
                    d = '%s p=%d: count gives %.12g instead of %.12g (%s) at %r, E=%.9g %s' % (K, p, val, want, k[1], pt, pt.E, scen)
                rec.add([q], what + ': ' + k[1], 'unknown' if hit in skips else refut, d, what)
            if not b:
                rec.add([q], what + ': %d leaves agree on %d cells' % (len(leaves), nchk), 'proved' if complete and not miss else 'unknown',
                        'the decision tree is not complete (%d cells uncovered)' % miss)

    def points(self, leaves):
        """representatives of every cell"""
        K, p, m = self.kind, self.p, self.m
        R = self.maxrank()
        a = alpha(m) * m * m
        crit = {2.5 * m, 5.0 * m, TWO32 / 30, TWO32, float(m)}
        if K == 'pp':
            crit |= set(golden()['estimates'][p - 4])
        zc = {0, 1, 2, m // 2, m - 1, m}
        if K == 'pp':
            z = m * math.exp(-THRESHOLD[p] / m)
            zc |= {int(z), int(z) + 1, int(z) - 1}
        self.uncut = None
        cuts = set()
        # constants the code compares with
        for l in leaves:
            ff = None
            for op, x, y, tr in l.F.fc:
                if (x, y) in cuts:
                    continue
                cuts.add((x, y))
                ff = ff or fm.Forms(l, m, R)
                if self.cut(ff, x, y, crit, zc, a, m):
                    continue
                for u, v in ((x, y), (y, x)):
                    if isinstance(v, float) and math.isfinite(v) and isinstance(u, tuple):
                        self.critical(l, u, v, crit, zc, a, m)
            for at, (lo, hi) in l.F.iv.items():
                if at[0] == 'y' and isinstance(at[1], tuple) and at[1][0] == 'Z':
                    zc |= {lo, hi, lo - 1, hi + 1}
        Emin, Emax = a / m, a / (m * 2.0**-R)
        # where the range of the numbers of empty registers crosses a cut
        for z in zc:
            for S in ((z + m) / 2, z * (1 - 2.0**-R) + m * 2.0**-R):
                if S > 0:
                    crit.add(a / S)
        es = sorted(c for c in crit if c > 0)
        E = {Emin, Emax, Emax * 0.999}
        for i, c in enumerate(es):
            E.add(c * (1 - 1e-7))
            E.add(c * (1 + 1e-7))
            if i + 1 < len(es):
                E.add((c + es[i + 1]) / 2)
                E.add(c + 0.3 * (es[i + 1] - c))
        # between the last constant and the maximum
        x = es[-1]
        while x < Emax:
            E.add(x)
            x *= 4
        # every rank on its own, so that each contribution matters at some state
        for r in range(1, R + 1):
            E.add(a / (m * 2.0**-r))
        # not on a cut, where the computed sum may fall on either side
        def clear(e):
            i = bisect.bisect_left(es, e)
            return all(abs(e - c) > 5e-9 * c for c in es[max(0, i - 1):i + 1])
        E = {e for e in E if e in (Emin, Emax) or clear(e)}
        pts = []
        zl = sorted(z for z in zc if 0 <= z <= m)
        for e in sorted(E):
            S = a / e
            zs = set()
            lo = max(0, math.ceil(2 * S - m - 1e-9))
            hi = math.floor((S - m * 2.0**-R) / (1 - 2.0**-R) + 1e-9)
            hi = min(hi, m)
            if lo > hi:
                continue
            i = bisect.bisect_left(zl, lo)
            j = bisect.bisect_right(zl, hi)
            zs |= set(zl[i:j]) | {lo, hi, (lo + hi) // 2}
            for z in sorted(zs):
                pt = point(m, R, z, S)
                if pt is not None:
                    pts.append(pt)
        # every number of empty registers, with the others at rank 1
        step = max(1, m // 64)
        for z in list(range(0, m + 1, step)) + [m]:
            pts.append(Point(m, z, {0: z, 1: m - z}))
        return pts

    def cut(self, ff, x, y, crit, zc, a, m):
        """where x - y changes its sign: it is monotone in the harmonic sum or in the number of
        empty registers, so at one point at most"""
        try:
            d = fm.add(ff.f(x), ff.f(y), -1)
            var, up = fm.monotone(d)
        except (fm.NoForm, Unknown, ArithmeticError, TypeError, ValueError, KeyError) as e:
            self.uncut = self.uncut or '%s: %s %s' % (e, repr(x)[:100], repr(y)[:100])
            return False
        if var is None:
            return True

        def at(v):
            r = 0.0
            for mono, c in d.items():
                t = float(c)
                for z, k in mono:
                    if z == var:
                        t *= v**k
                    elif len(z) == 2:
                        t *= fln(v)**k
                    else:
                        q = sum(float(cc) * math.prod(v**kk for _, kk in mm) for mm, cc in z[1])
                        t *= fln(q if z[2] else -q)**k
                r += t
            return r
        lo, hi = (m * 2.0**-self.maxrank(), float(m)) if var == 'S' else (1.0, float(m))
        f0, f1 = at(lo), at(hi)
        if f0 != f0 or f1 != f1 or (f0 > 0) == (f1 > 0):
            if f0 == 0 or f1 == 0:
                pass
            elif f0 == f0 and f1 == f1:
                return True
        for _ in range(200):
            mid = math.sqrt(lo * hi)
            if not lo < mid < hi:
                break
            f = at(mid)
            if f != f and var == 'S':
                # beyond the range of a logarithm
                lo = mid
            elif (f > 0) == (f0 > 0) and f0 == f0 or f != f:
                lo = mid
            else:
                hi = mid
        if var == 'S':
            crit.add(a / lo)
        else:
            zc |= {z for z in (int(lo) - 1, int(lo), int(lo) + 1, int(lo) + 2) if 0 <= z <= m}
        return True

    def critical(self, l, u, v, crit, zc, a, m):
        """where expression u crosses constant v, if it has a form that can be inverted"""
        # try: monotone in E with Z fixed, or in Z
        used = set()
        self.fsyms(u, used)
        zs = [s for s in used if isinstance(s, tuple) and s and s[0] == 'Z']
        fs = [s for s in used if s in l.accs]
        if fs and not zs:
            lo, hi = a / m * 0.5, a / (m * 2.0**-self.maxrank()) * 2

            def val(e):
                pt = point(m, self.maxrank(), 0, a / e) or point(m, self.maxrank(), max(0, int(2 * a / e - m)), a / e)
                if pt is None:
                    return None
                try:
                    return Env(l, pt, None).f(u) - v
                except Unknown:
                    return None
            lo, hi = a / m * 1.0001, a / (m * 2.0**-self.maxrank()) * 0.9999
            x, y = val(lo), val(hi)
            if x is None or y is None or x * y > 0:
                return
            for _ in range(100):
                mid = math.sqrt(lo * hi)
                z = val(mid)
                if z is None:
                    return
                if z * x > 0:
                    lo = mid
                else:
                    hi = mid
            crit.add(lo)
        elif zs and not fs:
            lo, hi = 1, m

            def val(z):
                try:
                    return Env(l, Point(m, z, {0: z, 1: m - z}), None).f(u) - v
                except Unknown:
                    return None
            x, y = val(lo), val(hi)
            if x is None or y is None or x * y > 0:
                return
            while hi - lo > 1:
                mid = (lo + hi) // 2
                z = val(mid)
                if z is None:
                    return
                if z * x > 0:
                    lo = mid
                else:
                    hi = mid
            zc |= {lo, hi}

    # ---- sparse
    def count_sparse(self):
        rec = self.rec
        groups, accs = {}, {}
        visited = {False: set(), True: set()}
        from upper import SMALL, NUM
        scen = [(a, b, None) for a in (False, True) for b in (False, True)]
        scen += [(bool(a), bool(b), (ns, nd)) for a, b, ns, nd in SMALL]
        for a, b, exact in scen:
            S = State()
            sn = 'sparse, code in buffer=%s list=%s' % (a, b)
            if exact:
                sn += ', %s buffered and %s compressed codes' % (NUM[exact[0]], NUM[exact[1]])
            what = 'pp count (sparse)'
            try:
                sk0 = self.sparse(S, 'self', a, b, exact=exact)
            except Infeasible:
                continue
            S.mem['s'] = sk0
            try:
                # states reached with the same content and the same continuation
                # are continued once, over all scenarios
                I = self.interp()
                I.hooks['visited'] = visited[a or b]
                outs = self.run_count(S, I)
            except Unknown as u:
                rec.add(['C13', 'C15', 'C17', 'C18', 'C19', 'C08'], what, 'unknown', str(u))
                accs.setdefault(a or b, ([], []))[1].append(Agg_out(('unknown', '')))
                continue
            ndense = {}
            # states already continued from in a scenario are missing in the later ones: the
            # scenarios are judged together
            acc, all_outs = accs.setdefault(a or b, ([], []))
            all_outs += outs
            for o in outs:
                t = 'unknown' if o.taint else 'refuted'
                if o.out[0] == 'panic' and self.dense_final(o):
                    # judged with the tree below
                    pass
                elif not self.path_checks(o, rec, ['C13', 'C15'], what, sn):
                    continue
                try:
                    st = self.sketch_state(o, 's')
                except Unknown as u:
                    rec.add(['C13', 'C15'], what, 'unknown', str(u))
                    continue
                has, want = self.holds_w(st), a or b
                if o.out[0] == 'ret':
                    acc.append(('', ['C13', 'C08'] if st['regs'] is not None else ['C13', 'C07'], what + ': the recorded codes are kept', has == want, not o.taint,
                                'p=%d: count %s a code [%s]' % (self.p, 'loses' if want else 'invents', sn), what))
                    f = self.fixed_fields_same(st, sk0)
                    rec.add(['C13'], what + ': other fields unchanged', 'proved' if f is None else t, 'field %s changes' % f, what)
                    self.size_checks(o, st, rec, what, sn)
                if st['regs'] is not None:
                    k = (st['regs'].fs[0], st['regs'].fs[3])
                    ndense.setdefault(k, []).append(o)
                else:
                    self.judge_sparse(o, st, what, sn, t)
            for k, os_ in ndense.items():
                uniq = {}
                for o in os_:
                    uniq.setdefault(self.gsig([o], k), o)
                sig = (k, frozenset(uniq))
                if sig in groups:
                    continue
                groups[sig] = True
                self.judge_tree(list(uniq.values()), k[0], k[1], what + ': after becoming dense', scen='[%s]' % sn, multi=True)

        for acc, outs in accs.values():
            self.settle(self.must(acc, outs, len(acc)))

    def dense_final(self, o):
        try:
            return self.sketch_state(o, 's')['regs'] is not None
        except Unknown:
            return False

    def gsig(self, os_, k):
        out = set()
        for o in os_:
            accs = tuple(sorted(repr((v[1], v[2], sorted(v[3].items()) if v[3] else None)) for kk, v in o.meta.items() if isinstance(kk, tuple) and kk[0] == 'acc' and len(v) == 5 and v[3]))

            def rn(e):
                if isinstance(e, tuple):
                    if e and e[0] == 'fsym':
                        return ('fsym', '#')
                    return tuple(rn(x) for x in e)
                return repr(e)
            out.add((repr(rn(o.out[1].e)) if o.out[0] == 'ret' and isinstance(o.out[1], Flt) else repr(o.out[1:]), repr(rn(o.F.fc)), accs))
        return (k[0], tuple(sorted(map(repr, k[1]))), frozenset(out))

    def judge_sparse(self, o, st, what, sn, t):
        """linear counting over 2^25 buckets of the number of distinct codes"""
        rec = self.rec
        F = o.F
        cnt = F.simp(st['dif'].fs[4].t)
        scnt = F.simp(st['set'].fs[4].t)
        e = o.out[1].e if isinstance(o.out[1], Flt) else None
        if e is None:
            rec.add(['C15', 'C17'], what, 'unknown', 'result')
            return
        if F.decide('eq', scnt, 0) is not True:
            used = set()
            self.fsyms(e, used)
            if not any(s in used for s in term_syms(scnt)):
                rec.add(['C15'], what + ': all codes are counted', t, 'p=%d: buffered codes do not enter the estimate [%s]' % (self.p, sn), what)
            else:
                rec.add(['C15'], what + ': all codes are counted', 'unknown', 'p=%d: codes remain buffered [%s]' % (self.p, sn), what)
            return
        rec.add(['C15'], what + ': all codes are counted', 'proved')
        M = float(1 << PRIME)
        lo, hi = F.interval(cnt)
        hi = min(hi, self.bound)
        bad = None
        try:
            for n in sorted({0, 1, 2, 3, self.bound // 3, self.bound // 2, self.bound - 1, self.bound}):
                if not (lo <= n <= hi):
                    continue
                G = F.copy()
                try:
                    G.assume('eq', cnt, n)
                except Infeasible:
                    continue

                def ie(u):
                    u = G.simp(u)
                    if isinstance(u, int):
                        return u
                    raise Unknown('a sparse estimate depends on something other than the number of codes')
                v = feval(e, {}, ie)
                want = M * math.log(M / (M - n))
                self.stats['points'] = self.stats.get('points', 0) + 1
                if not math.isfinite(v) or v < 0:
                    rec.add(['C17'], what + ': finite', t, 'p=%d: %r for %d codes [%s]' % (self.p, v, n, sn), what)
                if not close(v, want):
                    bad = (n, v, want)
                    break
        except (Unknown, KeyError) as u:
            rec.add(['C15', 'C17'], what, 'unknown', str(u))
            return
        rec.add(['C15'], what + ': linear counting over 2^25 buckets', 'proved' if bad is None else t,
                bad and 'p=%d: %d codes are estimated as %.12g instead of %.12g [%s]' % ((self.p,) + bad + (sn,)) or '', what)
        rec.add(['C17'], what + ': finite', 'proved')
