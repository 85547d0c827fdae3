"""Remaining upper-layer scenarios: construction, refused merges, entry points, clone."""
from count import *


def variant_name(prog, v):
    d = prog.types[v.ty]
    return d['v'][v.var]['n']


def differs(F, a, b):
    """the two values surely differ"""
    if isinstance(a, Int) and isinstance(b, Int):
        try:
            return F.decide('ne', F.simp(a.t), F.simp(b.t)) is True
        except Unknown:
            return False
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.var is None or b.var is None:
            return False
        return a.var != b.var or len(a.fs) == len(b.fs) and any(differs(F, x, y) for x, y in zip(a.fs, b.fs))
    if isinstance(a, Obj) and isinstance(b, Obj) and a.kind == b.kind == 'codes':
        return a.fs[1] is not b.fs[1] and isinstance(a.fs[1], bool) and isinstance(b.fs[1], bool)
    if isinstance(a, bool) and isinstance(b, bool):
        return a != b
    return False


from serial import unlike


class All(Counts):
    # ------------------------------------------------------------ construction
    @staticmethod
    def check_new(prog, kind, rec, stats):
        """every precision argument"""
        lo, hi = (4, 16) if kind == 'pf' else (4, 18)
        for p in range(256):
            U = All(prog, kind, p)
            U.rec = rec
            U.stats = stats
            what = '%s new' % kind
            I = U.interp()
            outs = U.run(I, U.root('new'), [u8(p), builder()], State())
            valid = lo <= p <= hi
            for o in outs:
                t = 'unknown' if o.taint else 'refuted'
                if o.out[0] == 'unknown':
                    rec.add(['C11', 'C18'], what, 'unknown', o.out[1])
                    continue
                if o.out[0] == 'panic':
                    rec.add(['C11', 'C18'], what + ': no panic', t, '%s: new(%d) panics: %s' % (kind, p, o.out[1]), '%s at %s' % (o.out[2], o.out[3]))
                    continue
                r = o.out[1]
                if not isinstance(r, Agg) or r.var is None:
                    rec.add(['C11'], what, 'unknown', 'result')
                    continue
                if r.var == 1:
                    e = r.fs[0]
                    n = variant_name(prog, e)
                    if valid:
                        rec.add(['C11'], what + ': accepted', t, '%s: new(%d) is refused (%s)' % (kind, p, n), what)
                    else:
                        rec.add(['C11'], what + ': refused', 'proved' if n == 'InvalidPrecision' else t, '%s: new(%d) returns %s' % (kind, p, n), what)
                    continue
                if not valid:
                    rec.add(['C11'], what + ': refused', t, '%s: new(%d) succeeds' % (kind, p), what)
                    continue
                try:
                    U.new_ok(o, r.fs[0], what, t)
                except Unknown as u:
                    rec.add(['C11'], what, 'unknown', str(u))
            if not outs:
                rec.add(['C11'], what, 'unknown', 'no path completes')

    def new_ok(self, o, sk, what, t):
        rec = self.rec
        self.fresh_sketch()
        o.mem['s'] = sk
        st = self.sketch_state(o, 's')
        rec.add(['C11', 'C12'], what + ': keeps the hasher builder', 'proved' if self.builder_same(st) else t, 'another builder is stored', what)
        if self.kind == 'pf':
            r = st['regs']
            n = o.F.simp(r.fs[2])
            ok = r.fs[0] == 'fresh' and not r.fs[3]
            rec.add(['C11'], what + ': empty registers', 'proved' if ok else t, '%s p=%d: the registers of a new sketch are not new' % (self.kind, self.p), what)
            rec.add(['C11', 'C19'], what + ': 2^p registers', 'proved' if n == self.m else t, '%s p=%d: a new sketch has %s registers instead of %d' % (self.kind, self.p, n, self.m), what)
        else:
            ok = st['regs'] is None
            rec.add(['C11'], what + ': starts sparse', 'proved' if ok else 'unknown', '', what)
            if not ok:
                r = st['regs']
                n = o.F.simp(r.fs[2])
                ok = n == self.m and r.fs[0] == 'fresh' and not r.fs[3]
                rec.add(['C11'], what + ': 2^p empty registers', 'proved' if ok else t, '%s p=%d: registers of a new sketch' % (self.kind, self.p), what)
            e = [o.F.simp(st[x].fs[4].t) for x in ('set', 'dif')]
            rec.add(['C11'], what + ': no codes', 'proved' if e == [0, 0] and not st['set'].fs[1] and not st['dif'].fs[1] else t, '%s p=%d: codes in a new sketch' % (self.kind, self.p), what)
        # its estimate
        S = State()
        S.mem['s'] = sk
        outs = self.run_count(S)
        got = []
        for q in outs:
            if q.out[0] == 'unknown':
                rec.add(['C11'], what + ': estimate', 'unknown', q.out[1])
                return
            l = Leaf(q)
            E = Env(l, Point(self.m, self.m, {0: self.m}), None)
            if not E.holds() or any(E.cmp(op, a, b) != tr for op, a, b, tr in q.F.fc):
                continue
            if q.out[0] == 'panic':
                rec.add(['C11', 'C18'], what + ': estimate', t, '%s p=%d: estimating a new sketch panics: %s' % (self.kind, self.p, q.out[1]), what)
                return
            got.append(E.f(q.out[1].e))
        if len(got) != 1:
            rec.add(['C11'], what + ': estimate', 'unknown', '%d results' % len(got))
            return
        rec.add(['C11'], what + ': estimates zero', 'proved' if got[0] == 0 else t, '%s p=%d: a new sketch is estimated as %r' % (self.kind, self.p, got[0]), what)

    # ------------------------------------------------------------ refused merges
    @staticmethod
    def check_mismatch(prog, kind, rec, stats, ps=None):
        ps = ps or (PF_P if kind == 'pf' else PP_P)
        us = {}
        for p in ps:
            us[p] = All(prog, kind, p)
            us[p].rec = rec
            us[p].stats = stats
            us[p].fix_extra()
        what = '%s merge of different precisions' % kind
        failed = set()
        for p1 in ps:
            for p2 in ps:
                if p1 == p2:
                    continue
                A, B = us[p1], us[p2]
                for (m1, f1) in A.merge_states(None, 'self', 'self'):
                    for (m2, f2) in B.merge_states(None, 'other', 'ob'):
                        if m1 not in ('dense', 'sparse10', 'sparse01') or m2 not in ('dense', 'sparse10', 'sparse01'):
                            continue
                        if (m1, m2) in failed:
                            continue
                        S = State()
                        try:
                            s0, o0 = f1(S), f2(S)
                        except Infeasible:
                            continue
                        S.mem['s'], S.mem['o'] = s0, o0
                        sn = 'p=%d <- p=%d, self %s, other %s' % (p1, p2, m1, m2)
                        I = A.interp()
                        I.hooks['set_greater'] = lambda c, regs, i, v: Obj('regs', regs.fs[0], regs.fs[1], regs.fs[2], regs.fs[3] | {'written'})
                        try:
                            outs = A.run(I, A.root('merge2'), [Ref('s'), Ref('o')], S)
                        except Unknown as u:
                            rec.add(['C10'], what, 'unknown', str(u))
                            continue
                        # a difference on every path is a difference whatever the abstraction of the loops
                        surely = bool(outs) and all(o.out[0] == 'ret' and (differs(o.F, o.mem.get('s'), s0) or differs(o.F, o.mem.get('o'), o0)) for o in outs)
                        for o in outs:
                            t = 'unknown' if o.taint and not surely else 'refuted'
                            if o.out[0] == 'unknown':
                                rec.add(['C10', 'C18'], what, 'unknown', o.out[1])
                                continue
                            if o.out[0] == 'panic':
                                rec.add(['C10', 'C18'], what + ': no panic', t, '%s: %s [%s]' % (kind, o.out[1], sn), '%s at %s' % (o.out[2], o.out[3]))
                                continue
                            r = o.out[1]
                            if not isinstance(r, Agg) or r.var is None:
                                rec.add(['C10'], what, 'unknown', 'result')
                                continue
                            ok = r.var == 1 and variant_name(prog, r.fs[0]) == 'IncompatiblePrecision'
                            rec.add(['C10'], what + ': refused', 'proved' if ok else t, '%s: %s [%s]' % (kind, 'merge succeeds' if r.var == 0 else 'wrong error', sn), what)
                            same_ = same(o.F, o.mem.get('s'), s0) and same(o.F, o.mem.get('o'), o0)
                            rec.add(['C10'], what + ': no side effects', 'proved' if same_ else t, '%s: a refused merge modifies a sketch [%s]' % (kind, sn), what)
                        if surely:
                            failed.add((m1, m2))
                        if not outs:
                            rec.add(['C10'], what, 'unknown', 'no path completes')

    # ------------------------------------------------------------ clone
    def do_clone(self):
        """a clone holds the same values, field by field, and shares no storage"""
        rec = self.rec
        for (m1, f1) in self.merge_states(None, 'self', 'self'):
            S = State()
            try:
                s0 = f1(S)
            except Infeasible:
                continue
            S.mem['s'] = s0
            what = '%s clone (%s)' % (self.kind, m1[:6])
            I = self.interp()
            try:
                outs = self.run(I, self.root('clone'), [Ref('s')], S)
            except Unknown as u:
                rec.add(['C21', 'C18'], what, 'unknown', str(u))
                continue
            for o in outs:
                if not self.path_checks(o, rec, ['C21'], what, m1):
                    continue
                t = 'unknown' if o.taint else 'refuted'
                r = o.out[1]
                if not isinstance(r, Agg) or len(r.fs) != len(s0.fs):
                    rec.add(['C21'], what, 'unknown', 'result')
                    continue
                diff = [(i, a, b) for i, (a, b) in enumerate(zip(r.fs, s0.fs)) if i not in self.extra and not same(o.F, a, b)]
                sure = any(unlike(o.F, b, a) for i, a, b in diff)
                rec.add(['C21'], what + ': every field is copied', 'proved' if not diff else t if sure else 'unknown', '%s p=%d: a clone differs in %s' % (self.kind, self.p, ', '.join(self.fields[i][0] for i, _, _ in diff)), what)
                rec.add(['C21'], what + ': the original is unchanged', 'proved' if same(o.F, o.mem.get('s'), s0) else t, 'cloning modifies the original', what)
            if not outs:
                rec.add(['C21'], what, 'unknown', 'no path completes')
