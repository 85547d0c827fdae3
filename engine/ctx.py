"""Contexts: abstract initial states for the public operations, and the
specification functions they are judged against."""
from dom import *
from interp import *
from natives import *

PF_P = list(range(4, 17))
PP_P = list(range(4, 19))
PRIME = 25


def u8(v):
    return Int(8, False, v)


def fresh_interp(prog, upper=True):
    I = Interp(prog, (upper_natives() if upper else []) + std_natives())
    if upper:
        I.hooks['codes'] = True
    return I


def builder(name='self'):
    return Obj('builder', name)


def key(name='k'):
    return Obj('key', name)


def sketch_fields(prog, ty):
    d = prog.types[ty]
    return [(n, t) for n, t in d['v'][0]['f']]


def type_kind(prog, t):
    d = prog.types[t]
    if d['k'] == 'adt':
        n = d['n'].split('::')[-1]
        if n == 'Option':
            a = [x for x in d.get('args', []) if isinstance(x, int)]
            if a and prog.types[a[0]]['k'] == 'adt' and prog.types[a[0]]['n'].split('::')[-1].startswith('Registers'):
                return 'optregs'
            return 'option'
        if n == 'HashSet':
            return 'set'
        if n == 'DifIntVec':
            return 'dif'
        if n.startswith('Registers'):
            return 'regs'
        if n == 'PhantomData':
            return 'phantom'
        if n.startswith('Bld'):
            return 'builder'
        return 'adt:' + n
    if d['k'] == 'int':
        return 'int'
    return d['k']


def spec_dense(F, p, kind):
    """(index bits, [bits scanned for the rank, most significant first]) of hash symbol"""
    h = [F.rbit(('s', HASH, i)) for i in range(64)]
    if kind == 'pf':
        top = 32
    else:
        top = 64
    idx = BV(h[top - p:top])
    rest = [h[i] for i in range(top - p - 1, -1, -1)]
    return idx, rest


def rank_leaves(F, rest):
    """[(Facts, rank)]"""
    out = []

    def go(F, i):
        while i < len(rest):
            b = F.rbit(rest[i])
            if b == 1:
                out.append((F, i + 1))
                return
            if b != 0:
                G = F.copy()
                try:
                    G.setbit(b, 1)
                    out.append((G, i + 1))
                except Infeasible:
                    pass
                try:
                    F = F.copy()
                    F.setbit(b, 0)
                except Infeasible:
                    return
            i += 1
        out.append((F, len(rest) + 1))
    go(F, 0)
    return out


def witness_hash(F):
    """a hash value consistent with the facts, or None"""
    F = F.copy()
    try:
        for rnd in range(70):
            todo = None
            for cl in F.nz:
                for b in cl:
                    r = F.rbit(b)
                    if r != 0 and r != 1:
                        todo = (r, 1)
                        break
                if todo:
                    break
            if not todo:
                break
            F.setbit(*todo)
        v = 0
        for i in range(64):
            b = F.rbit(('s', HASH, i))
            if b != 0 and b != 1:
                F.setbit(b, 0)
                b = F.rbit(('s', HASH, i))
            if b == 1:
                v |= 1 << i
        return v
    except (Infeasible, Unknown):
        return None


def judge_update(F, p, kind, idx, val):
    """compare an offered (index, rank) with the specification for the hash;
    returns None when equal everywhere, else (what, witness hash, got, expected)"""
    sidx, rest = spec_dense(F, p, kind)
    try:
        ib = F.as_bits(idx, 64)
    except Unknown as u:
        return ('unknown', 'index: %s' % u)
    w = list(sidx) + [0] * (64 - p)
    for a, b in zip(ib, w):
        a, b = F.rbit(a), F.rbit(b)
        if a != b:
            G = F.copy()
            for av, bv in ((0, 1), (1, 0)):
                G = F.copy()
                try:
                    G.setbit(a, av) if a not in (0, 1) else None
                    if G.rbit(a) != av:
                        continue
                    G.setbit(b, bv) if b not in (0, 1) else None
                    if G.rbit(b) != bv:
                        continue
                except Infeasible:
                    continue
                except Unknown as u:
                    return ('unknown', str(u))
                h = witness_hash(G)
                if h is not None:
                    return ('index', h)
    for G, r in rank_leaves(F, rest):
        v = G.simp(val)
        d = G.decide('eq', v, r)
        if d is True:
            continue
        H = G.copy()
        try:
            H.assume('ne', v, r)
        except Infeasible:
            continue
        except Unknown as u:
            return ('unknown', 'rank: %s' % u)
        h = witness_hash(H)
        if h is None:
            return ('unknown', 'rank comparison')
        return ('rank', h, r)
    return None


def spec_update(p, kind, h):
    if kind == 'pf':
        n, x = 32, h & 0xffffffff
    else:
        n, x = 64, h
    idx = x >> (n - p)
    rest = x & ((1 << (n - p)) - 1)
    return idx, (n - p) - rest.bit_length() + 1


def find_witness(F, budget=400):
    """a full assignment of the symbols consistent with the integer and bit facts, as a dict,
    or None if none was found.  Used before reporting that a path is possible."""
    if F.fc:
        return None
    left = [budget]

    def mentioned(F):
        out = {}

        def term(t):
            if isinstance(t, BV):
                for b in t:
                    bit(b)
            elif isinstance(t, Aff):
                for at, k in t.a:
                    atom(at)

        def atom(at):
            if at[0] == 'y':
                out[at[1]] = 1
                s = at[1]
                if isinstance(s, tuple) and s[0] == 't':
                    term(s[1])
            else:
                for b in at[1]:
                    bit(b)

        def bit(b):
            st = set()
            bit_atoms(b, st)
            for x in st:
                atom(('y', x[1]))
        for d in F.ge + F.ne:
            term(d)
        for (x, y) in F.dbm:
            atom(x)
            atom(y)
        for at in F.iv:
            atom(at)
        for b in F.bits:
            bit(b)
        for c in F.nz:
            for b in c:
                bit(b)
        for s in list(F.sub) + list(F.exp):
            out[s] = 1
        return [s for s in out if s not in F.sub]

    def go(F):
        left[0] -= 1
        if left[0] < 0:
            return None
        todo = []
        for s in mentioned(F):
            if isinstance(s, tuple) and s[0] == 't':
                t = F.simp(s[1])
                if isinstance(t, int):
                    G = F.copy()
                    lo, hi = G.iv.get(('y', s), SYMS[s][1:3])
                    if not lo <= t <= hi:
                        return None
                    G.assume('eq', Aff(0, ((('y', s), 1),)), t)
                    G.sub.setdefault(s, t)
                    return go(G)
                continue
            y = Aff(0, ((('y', s), 1),))
            t = F.simp(y)
            if not isinstance(t, int):
                lo, hi = F.interval(t)
                todo.append((hi - lo, repr(s), s, lo, hi))
        if not todo:
            return {s: F.simp(Aff(0, ((('y', s), 1),))) for s in mentioned(F)} or {'': 0}
        todo.sort(key=lambda x: x[1])
        _, _, s, lo, hi = todo[0]
        for v in dict.fromkeys([lo, min(hi, lo + 1), min(hi, 1 << 40), (lo + min(hi, 1 << 40)) // 2]):
            G = F.copy()
            try:
                G.assume('eq', Aff(0, ((('y', s), 1),)), v)
                if not isinstance(G.simp(Aff(0, ((('y', s), 1),))), int):
                    bs = G.as_bits(Aff(0, ((('y', s), 1),)), SYMS[s][0])
                    for i, b in enumerate(bs):
                        G.unify(b, (v >> i) & 1)
                    G.sub.setdefault(s, v)
                r = go(G)
            except (Infeasible, Unknown):
                continue
            if r is not None:
                return r
        return None
    try:
        return go(F)
    except (Infeasible, Unknown, RecursionError):
        return None
