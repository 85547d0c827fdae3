"""Upper-layer analyses: the public operations over abstract registers and
abstract code containers, for one algorithm and one precision at a time.

Each obligation yields a record
    dict(props=[...], ob=<what>, status='proved'|'refuted'|'unknown', detail=..., site=...)
"""
import time, traceback
from ctx import *


def bit_atoms_of(b):
    s = set()
    bit_atoms(b, s)
    return s


# sparse sketches with a known, small number of codes:
# (witness in the buffer, in the list, buffered codes, compressed codes)
SMALL = ((0, 0, 0, 0), (1, 0, 1, 0), (0, 1, 0, 1), (0, 1, 1, 1), (1, 0, 1, 1), (1, 1, 1, 1), (0, 0, 1, 2), (0, 1, 0, 2), (1, 0, 2, 0))
NUM = ('no', 'a', 'two', 'three')


class Rec(list):
    def add(self, props, ob, status, detail='', site='', **kw):
        self.append(dict(props=props, ob=ob, status=status, detail=str(detail)[:600], site=site, **kw))


def w_term():
    return Aff(0, ((('y', CODEW), 1),))


CURRENT = []


class Upper:
    def __init__(self, prog, kind, p):
        CURRENT.append(self)
        self.P = prog
        self.kind = kind
        self.p = p
        self.m = 1 << p
        self.rec = Rec()
        self.stats = dict(states=0, steps=0, paths=0, forks=0, loops=0, fns=set(), runs=0)
        self.enc = None
        self._sk = None
        self.jmemo = {}

    # ------------------------------------------------------------ set-up
    def interp(self):
        I = fresh_interp(self.P)
        I.hooks['set_greater'] = self.h_set_greater
        I.hooks['maxrank'] = self.maxrank()
        I.hooks['joint_feasible'] = self.joint_feasible
        return I

    def maxrank(self):
        return (32 if self.kind == 'pf' else 64) - self.p + 1

    def root(self, n):
        return self.P.root('root_%s_%s' % (self.kind, n))

    def run(self, I, fn, args, S):
        t = time.time()
        try:
            outs = I.run(fn, args, S)
        except (KeyError, IndexError, TypeError, AttributeError, ValueError, AssertionError, ZeroDivisionError, OverflowError) as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            raise Unknown('analysis error %s: %s at %s:%d' % (type(e).__name__, e, tb.filename.split('/')[-1], tb.lineno))
        st = self.stats
        st['runs'] += 1
        st['paths'] += len(outs)
        st['steps'] += I.steps
        st['forks'] += I.stats['forks']
        st['loops'] += I.stats['loops']
        st['fns'] |= {self.P.fns[f].name for f in I.stats['fns']}
        return outs

    def fresh_sketch(self):
        """the value built by the constructor at this precision"""
        if self._sk is None:
            I = self.interp()
            outs = self.run(I, self.root('new'), [u8(self.p), builder()], State())
            oks = [o for o in outs if o.out[0] == 'ret' and isinstance(o.out[1], Agg) and o.out[1].var == 0]
            if len(oks) != 1 or len(outs) != 1:
                bad = [o.out for o in outs if o.out[0] == 'unknown']
                raise Unknown('constructor: ' + str(bad[:1] or [o.out[:2] for o in outs]))
            self._sk = oks[0].out[1].fs[0]
            self.ty = self._sk.ty
            self.fields = sketch_fields(self.P, self.ty)
            self.fk = [type_kind(self.P, t) for _, t in self.fields]
            known = {'set', 'dif', 'regs', 'optregs', 'phantom', 'builder', 'int', 'tuple'}
            self.extra = [i for i, k in enumerate(self.fk) if k not in known or k in ('int', 'tuple') and self.fields[i][0] not in ('precision', 'count', 'counts')]
            self.stable = not self.extra
            if self.extra:
                self.rec.add(['C%02d' % i for i in range(1, 22)], 'state of a sketch', 'unknown', 'the meaning of the field %s is not known' % ', '.join(self.fields[i][0] for i in self.extra))
            self.ix = {}
            for want in (('regs',), ('optregs',), ('set',), ('dif',), ('builder',)):
                c = [i for i, k in enumerate(self.fk) if k in want]
                if len(c) == 1:
                    self.ix[want[0]] = c[0]
                elif len(c) > 1:
                    raise Unknown('several %s fields' % want[0])
            need = ('regs',) if self.kind == 'pf' else ('optregs', 'set', 'dif')
            for n in need:
                if n not in self.ix:
                    raise Unknown('the sketch has no %s field' % n)
            # dense size in bytes: documented bound 4 * 2^p / (32 / width)
            self.bound = 4 * self.m // (32 // 6)
        return self._sk

    def regs_kind(self):
        return 'Registers' if self.kind == 'pf' else 'RegistersPlus'

    def put(self, sk, i, v):
        fs = list(sk.fs)
        fs[i] = v
        return Agg(sk.ty, sk.var, fs)

    def dense(self, label, b='self'):
        sk = self.fresh_sketch()
        r = regs_obj(label, self.regs_kind(), self.m)
        sk = self.put(sk, self.ix['builder'], builder(b)) if 'builder' in self.ix else sk
        if self.kind == 'pf':
            return self.put(sk, self.ix['regs'], r)
        return self.put(sk, self.ix['optregs'], Agg(sk.fs[self.ix['optregs']].ty, 1, (r,)))

    def sparse(self, S, label, in_set, in_dif, b='self', exact=False):
        """a sparse sketch satisfying the size invariant; exact: holding the witness
        code at most, and nothing else"""
        sk = self.fresh_sketch()
        sk = self.put(sk, self.ix['builder'], builder(b)) if 'builder' in self.ix else sk

        def num(n, lo, hi):
            nm = ('in', label, n)
            sym(nm, 40, 0, 1 << 40)
            t = Aff(0, ((('y', nm), 1),))
            if hi < lo:
                raise Infeasible()
            S.F.assume('ge', t, lo)
            S.F.assume('le', t, hi)
            return Int(64, False, S.F.simp(t))
        if exact:
            if exact[0] > self.bound // 100 or exact[0] < in_set or exact[1] < in_dif:
                raise Infeasible()
            sn, dn, dp = Int(64, False, exact[0]), Int(64, False, exact[1]), num('pad', 0, 4 * exact[1])
        else:
            sn = num('set', 1 if in_set else 0, self.bound // 100)
            dn = num('cnt', 1 if in_dif else 0, self.bound)
            dp = num('pad', 0, self.bound)
        S.F.assume('le', S.F.add_terms(dn.t, dp.t), self.bound)
        nm = ('in', label, 'last')
        sym(nm, 32, 0, (1 << 32) - 1)
        last = Aff(0, ((('y', nm), 1),))
        if in_dif:
            S.F.assume('ge', last, w_term())
        sk = self.put(sk, self.ix['set'], Obj('codes', 'set', in_set, 'uniq', None, sn, Int(64, False, 0)))
        sk = self.put(sk, self.ix['dif'], Obj('codes', 'dif', in_dif, 'strict', Int(32, False, last), dn, dp))
        return sk

    # ------------------------------------------------------------ set_greater events
    def h_set_greater(self, c, regs, i, v):
        S, F = c.S, c.S.F
        label, kind, count, evs = regs.fs
        it, vt = F.simp(i.t), F.simp(v.t)
        syms = set(term_syms(it)) | set(term_syms(vt))
        names = set()
        for s in syms:
            while isinstance(s, tuple) and s and s[0] == 't':
                sub = term_syms(s[1])
                s = sub[0] if sub else None
            names.add(s)
        codes = [s for s in names if s == CODEW or isinstance(s, tuple) and s and s[0] == 'pop']
        regsyms = [s for s in names if isinstance(s, tuple) and s and s[0] in ('rv', 'rvk', 'kappa')]
        site = self.site(c)
        if HASH in names or (not codes and not regsyms and S.meta.get('inserting') and not c.I.hooks.get('kappa') and not S.meta.get('popped')):
            j = judge_update(F, self.p, self.kind, it, vt)
            if j is None:
                self.rec.add(['C01', 'C05'] if S.meta.get('popped') or self.kind == 'pp' else ['C01'], 'the update made for a hash', 'proved')
                return Obj('regs', label, kind, count, evs | {'h'})
            self.bad(S, 'update', j, it, vt, site)
            return Obj('regs', label, kind, count, evs | {'bad'})
        if codes or (not regsyms and self.code_syms(F)):
            cands = codes or self.code_syms(F)
            res = []
            for s in cands:
                j = self.judge_code(F, s, it, vt)
                if j is None:
                    self.rec.add(['C05', 'C08', 'C09'], 'the update made for a code is that of every hash with that code', 'proved')
                    return Obj('regs', label, kind, count, evs | ({'w'} if s == CODEW else set()))
                res.append((s, j))
            s, j = res[0]
            if j[0] == 'infeasible':
                raise Infeasible()
            self.bad(S, 'code', j, it, vt, site)
            return Obj('regs', label, kind, count, evs | {'bad'})
        if c.I.hooks.get('kappa'):
            d = F.decide('lt', it, count)
            if d is None:
                raise Fork([lambda T: T.F.assume('lt', it, count), lambda T: T.F.assume('ge', it, count)], 'register bounds')
            if d is False:
                return oob(c, 'register index out of bounds')
            o = kappa_tri(S, it)
            rk = [s for s in regsyms if s[0] == 'rvk']
            if o == 'eq':
                if rk and vt == Aff(0, ((('y', rk[0]), 1),)):
                    return Obj('regs', label, kind, count, evs | {('k', rk[0][1])})
                if vt == 0:
                    return None
                ev(S, ('badreg', 'the value %r is offered to the witness register' % (vt,), S.taint, site))
                return Obj('regs', label, kind, count, evs | {'bad'})
            if rk:
                ev(S, ('badreg', 'the value of the witness register is offered to another register', S.taint, site))
            return None
        raise Unknown('unrecognised register update')

    def code_syms(self, F):
        out = []
        for b in F.bits:
            s = b[1]
            if s == CODEW or isinstance(s, tuple) and s and s[0] == 'pop':
                if s not in out:
                    out.append(s)
        return out

    def bad(self, S, what, j, it, vt, site):
        ev(S, ('bad', what, j, S.taint or j[0] == 'unknown', site, repr(it)[:200], repr(vt)[:100]))

    def site(self, c):
        for f in reversed(c.S.frames):
            if f.fn.crate == 'hyperloglogplus':
                return '%s at %s' % (f.fn.name, self.P.loc(f.fn.body[f.bb][1][-1]))
        return '?'

    def judge_code(self, F, s, it, vt):
        """the update made for code symbol s must be that of every hash with that code"""
        if self.enc is None:
            return ('unknown', 'the encoding was not determined')
        # facts about the code alone, with the symbol's name abstracted: the same
        # question recurs for every list element
        def ren(x):
            if isinstance(x, tuple):
                if x == s:
                    return '$'
                return tuple(ren(y) for y in x)
            if isinstance(x, Aff):
                return ('aff', x.c, tuple(ren(y) for y in x.a))
            return x
        k = (tuple(sorted((b[2], repr(ren(v))) for b, v in F.bits.items() if b[1] == s)),
             repr([ren(cl) for cl in F.nz]), ren(it), ren(vt), repr(ren(F.sub.get(s))), repr(ren(F.exp.get(s))), F.iv.get(('y', s)))
        if k in self.jmemo:
            return self.jmemo[k]
        r = self.judge_code1(F, s, it, vt)
        self.jmemo[k] = r
        return r

    def judge_code1(self, F, s, it, vt):
        n = 0
        for (eb, enz, bv) in self.enc:
            G = F.copy()
            try:
                for i in range(32):
                    G.unify(('s', s, i), bv[i])
                for b, v in eb:
                    G.unify(b, v)
                G.nz = G.nz + enz
                G.prop()
            except Infeasible:
                continue
            n += 1
            j = judge_update(G, self.p, self.kind, it, vt)
            if j is not None:
                return j
        if n == 0:
            return ('infeasible',)
        return None

    # ------------------------------------------------------------ encoding
    def compute_enc(self):
        """the sparse code of a hash, as (facts, bits) leaves read off insertion into a sparse sketch"""
        self.fresh_sketch()
        leaves = []

        def cap(c, v, x):
            F = c.S.F
            t = F.simp(x.t)
            ss = term_syms(t)
            hb = tuple((b, F.rbit(b)) for b in F.bits if b[1] == HASH)
            if c.S.meta.get('popped'):
                raise Unknown('a code read from the list is inserted')
            leaves.append((hb, F.nz, F.as_bits(t, 32), t))
            c.S.out = ('captured',)
            return v, True
        I = self.interp()
        I.hooks['set_insert'] = cap
        S = State()
        S.meta['inserting'] = True
        S.mem['s'] = self.sparse(S, 'self', False, False)
        S.mem['k'] = key()
        try:
            outs = self.run_cap(I, S)
        except Unknown as u:
            raise
        unk = [o.out[1] for o in outs if o.out[0] == 'unknown']
        if unk:
            raise Unknown('encoding: ' + unk[0])
        pan = [o for o in outs if o.out[0] == 'panic']
        self.enc_panics = pan
        nocap = [o for o in outs if o.out[0] == 'ret']
        self.enc_missing = nocap
        uniq = {}
        for l in leaves:
            uniq[(l[0], l[1], tuple(l[2]))] = l
        self.enc = [(tuple(l[0]), l[1], l[2]) for l in uniq.values()]
        if not self.enc:
            raise Unknown('no code is recorded by sparse insertion')
        return self.enc

    def fix_extra(self):
        """fields whose meaning is not known keep the value the constructor (or the first
        insertion) gives them: if insertion preserves it in every state, every content is reachable
        with that value, and what goes wrong in such a state really does; otherwise nothing is refuted"""
        self.fresh_sketch()
        if not self.extra:
            return
        if self.kind == 'pp' and self.enc is None:
            self.compute_enc()
        keep, nrec = self.jmemo, len(self.rec)
        for rnd in range(3):
            sk = self._sk
            vals = {i: sk.fs[i] for i in self.extra}
            found = self.probe_extra()
            del self.rec[nrec:]
            if found is None:
                return
            if all(same(F, v, vals[i]) for F, i, v in found):
                self.stable = True
                return
            new = {}
            for F, i, v in found:
                if not constant(v) or i in new and not same(F, v, new[i]):
                    return
                new[i] = v
            for i, v in new.items():
                self._sk = self.put(self._sk, i, v)

    def probe_extra(self):
        """(facts, field, value) after an insertion"""
        found = []
        modes = [None] + [(a, b) for a in (False, True) for b in (False, True)] * (self.kind == 'pp')
        for md in modes:
            I, S = self.interp(), State()
            S.meta['inserting'] = True
            if md is not None:
                I.hooks['set_insert'] = self.joiner()
            try:
                S.mem['s'] = self.dense('self') if md is None else self.sparse(S, 'self', *md)
            except Infeasible:
                continue
            S.mem['k'] = key()
            try:
                outs = self.run(I, self.root('insert'), [Ref('s'), Ref('k')], S)
            except Unknown:
                return None
            for o in outs:
                if o.out[0] in ('captured', 'panic'):
                    continue
                sk = o.mem.get('s')
                if o.out[0] != 'ret' or not (isinstance(sk, Agg) and sk.var == 0):
                    return None
                found += [(o.F, i, sk.fs[i]) for i in self.extra]
        return found

    def joiner(self):
        """join the encoding leaves where the code is recorded: what follows is
        analysed once, for an arbitrary code"""
        seen = {}

        def f(c, v, x):
            S = c.S
            t = S.F.simp(x.t)
            if HASH not in term_syms(t) and term_syms(t) and t != HCODE or S.meta.get('joined'):
                return None
            F = S.F
            F.bits = BitMap({b: z for b, z in F.bits.items() if b[1] != HASH})
            F.nz = tuple(cl for cl in F.nz if not any(a[1] == HASH for b in cl for a in bit_atoms_of(b)))
            F.iv = {a: z for a, z in F.iv.items() if HASH not in term_syms(Aff(0, ((a, 1),)))}
            F.ne = tuple(a for a in F.ne if HASH not in term_syms(a))
            F.ge = tuple(a for a in F.ge if HASH not in term_syms(a))
            S.meta = {k: z for k, z in S.meta.items() if not (isinstance(k, tuple) and k[0] == 'cd')}
            o, new = codes_add(c, v, Int(32, False, HCODE))
            k = (S.meta.get('hcw'), new, S.frames[-1].fn.id, tuple(e for e in S.log if e[0] not in ('hash', 'build_hasher')), o)
            if k in seen:
                S.out = ('captured',)
                return v, True
            seen[k] = True
            S.meta['joined'] = True
            return o, new
        return f

    def run_cap(self, I, S):
        return self.run(I, self.root('insert'), [Ref('s'), Ref('k')], S)


def same(F, a, b):
    """equality of two values in the states described by F"""
    if a is b or a == b:
        return True
    if isinstance(a, Int) and isinstance(b, Int):
        try:
            return F.decide('eq', F.simp(a.t), F.simp(b.t)) is True
        except Unknown:
            return False
    if isinstance(a, Agg) and isinstance(b, Agg):
        return a.var == b.var and len(a.fs) == len(b.fs) and all(same(F, x, y) for x, y in zip(a.fs, b.fs))
    if isinstance(a, Obj) and isinstance(b, Obj) and a.kind == b.kind == 'codes' and a.fs[0] == b.fs[0] in ('set', 'dif') \
            and a.fs[2] == b.fs[2] in ('strict', 'uniq') and a.fs[1] is b.fs[1] and isinstance(a.fs[1], bool):
        # both hold the arbitrary witness code or neither does
        return True
    if isinstance(a, Obj) and isinstance(b, Obj) and a.kind == b.kind and len(a.fs) == len(b.fs):
        return all(same(F, x, y) for x, y in zip(a.fs, b.fs))
    return False


def log_events(o, tag):
    return [e for e in o.log if e[0] == tag]


def describe(j, it='', vt=''):
    if j[0] == 'unknown':
        return 'undecided: %s' % j[1]
    if j[0] == 'index':
        return 'wrong register for hash %#018x' % j[1]
    if j[0] == 'rank':
        return 'wrong rank for hash %#018x (expected %s)' % (j[1], j[2])
    return str(j)


def stop_here(c):
    c.S.out = ('captured', 'stop')


def constant(v):
    # not a value of this insertion
    if isinstance(v, (bool, int, float)):
        return True
    if isinstance(v, Int):
        return isinstance(v.t, int)
    if isinstance(v, Flt):
        return isinstance(v.e, float)
    return isinstance(v, Agg) and all(constant(x) for x in v.fs)


class Ops(Upper):
    """the scenarios"""

    # ------------------------------------------------------------ reading final states
    def sketch_state(self, o, cell):
        sk = o.mem.get(cell)
        if not (isinstance(sk, Agg) and sk.var == 0):
            raise Unknown('final sketch value')
        st = dict(sk=sk, F=o.F)
        if self.kind == 'pf':
            r = sk.fs[self.ix['regs']]
            if not (isinstance(r, Obj) and r.kind == 'regs'):
                raise Unknown('final registers')
            st['regs'] = r
            st['set'] = st['dif'] = None
            return st
        r = sk.fs[self.ix['optregs']]
        if not isinstance(r, Agg) or r.var is None:
            raise Unknown('final registers')
        st['regs'] = r.fs[0] if r.var == 1 else None
        if st['regs'] is not None and not (isinstance(st['regs'], Obj) and st['regs'].kind == 'regs'):
            raise Unknown('final registers')
        for n in ('set', 'dif'):
            v = sk.fs[self.ix[n]]
            if not (isinstance(v, Obj) and v.kind == 'codes'):
                raise Unknown('final ' + n)
            st[n] = v
        return st

    def holds_w(self, st):
        if st['regs'] is not None:
            return 'w' in st['regs'].fs[3]
        return st['set'].fs[1] or st['dif'].fs[1]

    # ------------------------------------------------------------ common checks on a finished path
    def path_checks(self, o, rec, props, what, scen):
        """panics, unknown, bad events; returns True if the path can be judged further"""
        if o.out[0] == 'unknown':
            rec.add(props + ['C18'], what, 'unknown', o.out[1] + ' [' + scen + ']')
            return False
        bads = [e for e in o.log if e[0] == 'bad']
        ok = True
        for e in bads:
            _, kind, j, taint, site, it, vt = e
            pr = {'update': ['C01'], 'code': ['C05', 'C08', 'C09']}[kind]
            if kind == 'update' and self.kind == 'pp':
                pr = ['C01', 'C05']
            rec.add(pr, what + ': register update', 'unknown' if taint else 'refuted',
                    '%s p=%d: %s; index %s rank %s [%s]' % (self.kind, self.p, describe(j), it, vt, scen), site)
            ok = False
        for e in o.log:
            if e[0] == 'badreg':
                rec.add(['C09'], what + ': register merge', 'unknown' if e[2] else 'refuted', '%s p=%d: %s [%s]' % (self.kind, self.p, e[1], scen), e[3])
                ok = False
            if e[0] == 'order':
                rec.add(['C07'], what + ': the list stays increasing', 'unknown' if e[1] else 'refuted',
                        'p=%d: a code that is not above the last one is appended [%s]' % (self.p, scen), what)
                ok = False
        if o.out[0] == 'panic':
            feas = self.codes_feasible(o.F)
            if feas is not False and not bads:
                st = 'unknown' if o.taint or feas is None else 'refuted'
                rec.add(['C18'] + props, what + ': no panic', st, '%s p=%d: %s [%s]' % (self.kind, self.p, o.out[1], scen), '%s at %s' % (o.out[2], o.out[3]))
            return False
        if o.out[0] == 'captured':
            return False
        return ok

    def codes_feasible(self, F):
        """whether the facts about codes are met by codes of some hash"""
        for s in self.code_syms(F):
            if self.enc is None:
                return None
            any_ = False
            for (eb, enz, bv) in self.enc:
                G = F.copy()
                try:
                    for i in range(32):
                        G.unify(('s', s, i), bv[i])
                    for b, v in eb:
                        G.unify(b, v)
                    G.nz = G.nz + enz
                    G.prop()
                    any_ = True
                    break
                except Infeasible:
                    continue
                except Unknown:
                    return None
            if not any_:
                return False
        return True

    def joint_feasible(self, F, syms):
        """whether there are hashes whose codes meet the facts together"""
        if not syms:
            return True
        for (eb, enz, bv) in self.enc or ():
            G = F.copy()
            try:
                ren = lambda b: ('s', (HASH, syms[0]), b[2]) if isinstance(b, tuple) and b and b[0] == 's' and b[1] == HASH else b
                for i in range(32):
                    z = bv[i]
                    if isinstance(z, tuple) and z[0] != 's':
                        raise Unknown('code bit')
                    G.unify(('s', syms[0], i), ren(z))
                for b, v in eb:
                    G.unify(ren(b), ren(v))
                for cl in enz:
                    G.nz = G.nz + (type(cl)(ren(b) for b in cl),)
                G.prop()
                if self.joint_feasible(G, syms[1:]):
                    return True
            except (Infeasible, Unknown):
                continue
        return False

    def size_checks(self, o, st, rec, what, scen):
        """C19 on a final state"""
        if st['regs'] is not None:
            ok = st['set'].fs[4].t, st['dif'].fs[4].t
            z = [o.F.decide('eq', x, 0) for x in ok]
            if z == [True, True]:
                rec.add(['C19', 'C08'], what + ': dense sketch has no sparse data', 'proved')
            else:
                s = 'unknown' if o.taint else 'refuted'
                rec.add(['C19', 'C08'], what + ': dense sketch has no sparse data', s, 'p=%d: sparse codes remain in a dense sketch [%s]' % (self.p, scen), what)
            n = o.F.simp(st['regs'].fs[2])
            if n == self.m:
                rec.add(['C19', 'C11'], what + ': dense size', 'proved')
            else:
                rec.add(['C19', 'C11'], what + ': dense size', 'refuted' if isinstance(n, int) else 'unknown',
                        'p=%d: dense representation has %s registers instead of %d' % (self.p, n, self.m), what)
            return
        F = o.F
        sn = F.scale(st['set'].fs[4].t, 100)
        ln = F.add_terms(st['dif'].fs[4].t, st['dif'].fs[5].t)
        for nm, t in (('buffered codes', sn), ('compressed bytes', ln)):
            d = F.decide('le', t, self.bound)
            if d is True:
                rec.add(['C19'], what + ': bound on ' + nm, 'proved')
                continue
            G = F.copy()
            try:
                G.assume('gt', t, self.bound)
            except Infeasible:
                rec.add(['C19'], what + ': bound on ' + nm, 'proved')
                continue
            rec.add(['C19'], what + ': bound on ' + nm, 'unknown' if o.taint else 'refuted',
                    'p=%d: a sparse sketch can be left with %s over the limit of %d [%s]' % (self.p, nm, self.bound, scen), what)

    def builder_same(self, st, b='self'):
        if 'builder' not in self.ix:
            return True
        return st['sk'].fs[self.ix['builder']] == builder(b)

    def fixed_fields_same(self, st, sk0):
        """fields that are neither registers nor codes"""
        skip = {self.ix.get(k) for k in ('regs', 'optregs', 'set', 'dif')}
        for i, (a, b) in enumerate(zip(st['sk'].fs, sk0.fs)):
            if i in skip or i in self.extra:
                continue
            if not same(st['F'], a, b):
                return self.fields[i][0]
        return None

    # ------------------------------------------------------------ what fails on every path
    def must(self, acc, outs, n):
        """acc: [(class, props, rule, holds, exact, detail, site)] of the n final states of one
        scenario.  Loops make the final states an over-approximation, so that a rule that fails on
        some of them is undecided; but some execution ends in one of them, so that a rule that
        fails on all of them is violated."""
        whole = not any(o.out[0] in ('unknown', 'panic') or o.out == ('captured', 'stop') for o in outs)
        rules = {}
        for e in acc:
            rules.setdefault(e[2], []).append(e)
        out = []
        for ob, es in rules.items():
            all_ = whole and len(es) == n and not any(e[3] for e in es)
            for (cls, props, _, ok, exact, detail, site) in es:
                st = 'proved' if ok else 'refuted' if exact or all_ else 'unknown'
                out.append((cls, props, ob, st, whole, detail, site))
        return out

    def must_dense(self, es, bounded):
        """es: the results of must over all scenarios of insertion.  Inserting new values into a
        sparse sketch whose size is bounded makes it dense at some point; a rule that fails on all
        paths to the dense form is violated at that point"""
        rules = {}
        for e in es:
            rules.setdefault((e[0], e[2]), []).append(e)
        for (cls, ob), xs in rules.items():
            all_ = cls == 'dense' and bounded and not any(x[3] == 'proved' for x in xs) and all(x[4] for x in es)
            for (_, props, _, st, _, detail, site) in xs:
                self.rec.add(props, ob, 'refuted' if all_ else st, detail, site)

    def settle(self, es):
        for (_, props, ob, st, _, detail, site) in es:
            self.rec.add(props, ob, st, detail, site)

    # ------------------------------------------------------------ insert
    def do_insert(self, which='insert', dense_only=False):
        rec = self.rec
        K = self.kind
        scen = [('dense', None, None)]
        if K == 'pp' and not dense_only:
            scen += [('sparse', a, b) for a in (False, True) for b in (False, True)]
            # at the lowest precisions two codes can already end the sparse form
            scen += [('sparse', bool(a), bool(b), (ns, nd)) for a, b, ns, nd in SMALL if self.p >= 6 or ns + nd < 2]
            # twelve bytes at most at precision 4
            scen += [('sparse', False, False, (0, 3))] * (self.p == 4)
        sparse_acc, sizes, gaps = [], len(rec), False
        for (mode, a, b, *exact) in scen:
            exact = exact[0] if exact else None
            acc, work = [], []
            sn = '%s%s' % (mode, '' if mode == 'dense' else ' w in buffer=%s list=%s' % (a, b))
            if exact:
                sn += ', %s buffered and %s compressed codes' % (NUM[exact[0]], NUM[exact[1]])
            I = self.interp()
            S = State()
            S.meta['inserting'] = True
            if mode == 'sparse':
                I.hooks['set_insert'] = self.joiner()
            try:
                sk0 = self.dense('self') if mode == 'dense' else self.sparse(S, 'self', a, b, exact=exact)
            except Infeasible:
                continue
            S.mem['s'] = sk0
            S.mem['k'] = key()
            what = '%s %s (%s)' % (K, which, mode)
            if not exact:
                I.hooks['heavy'] = self.work_hook(mode == 'dense')
            elif exact[1] > 2:
                # only whether the sketch stays sparse within its bounds
                I.hooks['with_count'] = stop_here
            props = ['C01', 'C12'] if mode == 'dense' else ['C12', 'C05', 'C07', 'C08', 'C19']
            try:
                outs = self.run(I, self.root(which), [Ref('s'), Ref('k')], S)
            except Unknown as u:
                rec.add(props + ['C18'], what, 'unknown', str(u))
                gaps = gaps or mode == 'sparse'
                continue
            n = 0
            for o in outs:
                for e in log_events(o, 'finish'):
                    rec.add(['C12'], what + ': hashes the value', 'unknown' if o.taint else 'refuted',
                            '%s: the hash taken is not that of the value alone with the hasher of the sketch: %r' % (K, e[1]), what)
                if not self.path_checks(o, rec, props, what, sn):
                    gaps = gaps or mode == 'sparse' and o.out[0] != 'captured'
                    continue
                n += 1
                try:
                    st = self.sketch_state(o, 's')
                except Unknown as u:
                    rec.add(props, what, 'unknown', str(u))
                    gaps = True
                    continue
                if not exact:
                    self.work_checks(o, st, work, what, sn, mode)
                t = 'unknown' if o.taint else 'refuted'
                f = self.fixed_fields_same(st, sk0)
                rec.add(['C12', 'C01'], what + ': other fields unchanged', 'proved' if f is None else t, 'field %s changes' % f, what)
                hev = [e for e in o.log if e[0] in ('build_hasher', 'hash')]
                one = sum(1 for e in hev if e[0] == 'build_hasher') == 1 and sum(1 for e in hev if e[0] == 'hash') == 1
                rec.add(['C12'], what + ': hashes the value once', 'proved' if one else t, 'the value is hashed %s times' % len([e for e in hev if e[0] == 'hash']), what)
                if mode == 'dense':
                    ok = st['regs'] is not None and st['regs'].fs[0] == 'self' and 'h' in st['regs'].fs[3]
                    rec.add(['C01', 'C12'], what + ': the selected register is updated', 'proved' if ok else t,
                            '%s p=%d: a path leaves the register update out' % (K, self.p), what)
                    if K == 'pp':
                        ok = st['regs'] is not None
                        rec.add(['C08'], what + ': stays dense', 'proved' if ok else t, 'a dense sketch becomes sparse', what)
                        self.size_checks(o, st, rec, what, sn)
                else:
                    hw = o.meta.get('hcw')
                    if hw is None:
                        direct = st['regs'] is not None and 'h' in st['regs'].fs[3]
                        rec.add(['C12', 'C08'], what + ': the code is recorded', 'proved' if direct else t, 'p=%d: an insertion records nothing [%s]' % (self.p, sn), what)
                        want = a or b
                    else:
                        want = a or b or hw
                    has = self.holds_w(st)
                    pr = ['C08', 'C07'] if st['regs'] is not None else ['C07', 'C12']
                    cls = ('dense' if want else 'dense, nothing recorded') if st['regs'] is not None else 'sparse'
                    if has and not want:
                        acc.append((cls, ['C07', 'C08'], what + ': no code is invented', False, not o.taint, 'p=%d: a code that was never recorded appears [%s]' % (self.p, sn), what))
                    else:
                        acc.append((cls, pr, what + ': every code is kept', has == want, not o.taint, 'p=%d: a recorded code is lost%s [%s]' % (self.p, ' when becoming dense' if st['regs'] is not None else '', sn), what))
                    self.size_checks(o, st, rec, what, sn)
            if exact and exact[1] > 2:
                self.settle(self.must(acc, outs, n))
            else:
                sparse_acc += self.must(acc, outs, n)
            every = work and not any(e[0] for e in work) and not any(o.out[0] in ('unknown', 'panic') for o in outs)
            for ok, exactly, d in work:
                rec.add(['C26'], what + ': merging empties the buffer', 'proved' if ok else 'refuted' if exactly or every else 'unknown', d, what)
            if n == 0 and not any(o.out[0] in ('unknown', 'panic') for o in outs) and not any(e[0] in ('bad',) for o in outs for e in o.log):
                rec.add(props, what, 'unknown', 'no path completes [%s]' % sn)
        self.must_dense(sparse_acc, not gaps and all(e['status'] == 'proved' for e in rec[sizes:] if 'C19' in e['props']))

    # ------------------------------------------------------------ work done by an insertion
    def work_hook(self, dense):
        def f(S, kind, name):
            k = 'heavy' if kind == 'pass' else 'alloc'
            if k in S.meta or kind == 'alloc' and not dense:
                return
            if dense:
                S.meta[k] = ('bad', S.taint, name)
                return
            # paid for by the insertions that filled the buffer?
            n0 = Aff(0, ((('y', ('in', 'self', 'set')), 1),))
            t = S.F.scale(S.F.add_terms(n0, 1), 100)
            try:
                G = S.F.copy()
                G.assume('le', t, self.bound)
                S.meta[k] = ('bad', S.taint, name)
            except Infeasible:
                S.meta[k] = ('ok', False, name)
        return f

    def work_checks(self, o, st, work, what, sn, mode):
        rec = self.rec
        for k, w in (('heavy', 'passes over all elements'), ('alloc', 'allocates')):
            e = o.meta.get(k)
            if mode != 'dense' and k == 'alloc':
                continue
            ob = what + (': constant work' if k == 'heavy' else ': no allocation')
            if e is None or e[0] == 'ok':
                rec.add(['C26'], ob, 'proved')
            else:
                d = '%s p=%d: an insertion into a dense sketch %s (%s)' % (self.kind, self.p, w, e[2]) if mode == 'dense' else \
                    'p=%d: an insertion %s (%s) although the buffer is within its share [%s]' % (self.p, w, e[2], sn)
                rec.add(['C26'], ob, 'unknown' if e[1] else 'refuted', d, e[2])
        if mode != 'dense' and o.meta.get('heavy'):
            ok = st['regs'] is not None or o.F.decide('eq', st['set'].fs[4].t, 0) is True
            work.append((ok, not o.taint, 'p=%d: the codes remain in the buffer after merging it: every later insertion merges again [%s]' % (self.p, sn)))

    # ------------------------------------------------------------ merge
    def merge_states(self, S, label, b, exact=False):
        out = [('dense', lambda T: self.dense(label, b))]
        if self.kind == 'pp':
            for x in (False, True):
                for y in (False, True):
                    out.append(('sparse%d%d' % (x, y), lambda T, x=x, y=y: self.sparse(T, label, x, y, b)))
            for (x, y, ns, nd) in SMALL if exact else ():
                # more codes only multiply the register updates made one after the other
                if ns + nd > 1:
                    continue
                out.append(('sparse%d%d of %s+%s codes' % (x, y, NUM[ns], NUM[nd]), lambda T, x=x, y=y, e=(ns, nd): self.sparse(T, label, x, y, b, e)))
        return out

    def do_merge(self, which='merge2', only_exact=False):
        rec = self.rec
        K = self.kind
        fn = self.root(which)
        for (m1, f1) in self.merge_states(None, 'self', 'self', True):
            for (m2, f2) in self.merge_states(None, 'other', 'ob', True):
                x1, x2 = m1.endswith('codes'), m2.endswith('codes')
                # sketches with a known number of codes: no loop over codes needs to be approximated
                if x1 != x2 and m1 != 'dense' and m2 != 'dense':
                    continue
                if only_exact and not (x1 or x2):
                    continue
                # an empty register of the other sketch need not be offered
                zero = [False] + [True] * (m2 == 'dense' and m1 in ('dense', 'sparse00'))
                for empty in zero:
                    I = self.interp()
                    S = State()
                    d1, d2 = m1 == 'dense', m2 == 'dense'
                    if d2:
                        I.hooks['kappa'] = True
                        I.hooks['track'] = (KAPPA,)
                        sym(KAPPA, 40, 0, self.m - 1)
                        sym(('rvk', 'other'), reg_width(self.regs_kind()), 0, (1 << reg_width(self.regs_kind())) - 1)
                        S.F.assume('eq' if empty else 'ge', Aff(0, ((('y', ('rvk', 'other')), 1),)), 0 if empty else 1)
                    try:
                        s0, o0 = f1(S), f2(S)
                    except Infeasible:
                        continue
                    S.mem['s'], S.mem['o'] = s0, o0
                    what = '%s merge (%s <- %s)' % (K, m1[:6], m2[:6])
                    sn = 'self %s, other %s' % (m1, m2)
                    props = ['C09']
                    try:
                        outs = self.run(I, fn, [Ref('s'), Ref('o')], S)
                    except Unknown as u:
                        rec.add(props + ['C18', 'C10', 'C19'], what, 'unknown', str(u))
                        continue
                    n = 0
                    acc = []
                    for o in outs:
                        if not self.path_checks(o, rec, props, what, sn):
                            continue
                        n += 1
                        t = 'unknown' if o.taint else 'refuted'
                        try:
                            st = self.sketch_state(o, 's')
                        except Unknown as u:
                            rec.add(props, what, 'unknown', str(u))
                            continue
                        r = o.out[1]
                        isok = isinstance(r, Agg) and r.var == 0
                        rec.add(['C10'], what + ': succeeds', 'proved' if isok else t, '%s p=%d: sketches of equal precision are refused [%s]' % (K, self.p, sn), what)
                        same_ = same(o.F, o.mem.get('o'), o0)
                        rec.add(['C09'], what + ': the other sketch is unchanged', 'proved' if same_ else t, 'the other sketch is modified [%s]' % sn, what)
                        f = self.fixed_fields_same(st, s0)
                        rec.add(['C09'], what + ': other fields unchanged', 'proved' if f is None else t, 'field %s changes [%s]' % (f, sn), what)
                        # contents
                        want_w = ('1' in m1 or '1' in m2)
                        has_w = self.holds_w(st)
                        if has_w and not want_w:
                            acc.append(('', ['C09'], what + ': no code is invented', False, not o.taint, 'p=%d: a code held by neither sketch appears [%s]' % (self.p, sn), what))
                        elif not (d1 and d2):
                            acc.append(('', ['C09'], what + ': every code arrives', has_w == want_w, not o.taint, 'p=%d: a code held by one of the sketches is lost [%s]' % (self.p, sn), what))
                        evs = st['regs'].fs[3] if st['regs'] is not None else frozenset()
                        lab = st['regs'].fs[0] if st['regs'] is not None else None
                        if d1:
                            ok = lab == 'self' or ('k', 'self') in evs
                            acc.append(('', ['C09', 'C08'], what + ': own registers kept', ok, not o.taint, '%s p=%d: the registers of the receiver are lost [%s]' % (K, self.p, sn), what))
                        if d2:
                            # an empty register need not be offered
                            ok = lab == 'other' or ('k', 'other') in evs or ('rvk', 'other') in SYMS and o.F.decide('eq', Aff(0, ((('y', ('rvk', 'other')), 1),)), 0) is True
                            acc.append(('', ['C09'], what + ': every register of the other sketch arrives', ok, not o.taint,
                                        '%s p=%d: a register of the other sketch is not merged [%s]' % (K, self.p, sn), what))
                        if not d2 and (lab == 'other' or ('k', 'other') in evs):
                            rec.add(['C09'], what + ': registers', t, 'registers of a sparse sketch', what)
                        if K == 'pp':
                            self.size_checks(o, st, rec, what, sn)
                    self.settle(self.must(acc, outs, n))
                    if n == 0 and not any(o.out[0] in ('unknown', 'panic') for o in outs) and not any(e[0] in ('bad', 'badreg') for o in outs for e in o.log):
                        rec.add(props, what, 'unknown', 'no path completes [%s]' % sn)
