"""Loader for the MIR dumps of /verif/driver, with CFG helpers and a printer."""
import json, re, sys


class Fn:
    __slots__ = ('id', 'name', 'defn', 'crate', 'kind', 'argc', 'locals', 'spread', 'vars', 'span', 'body', 'intr', 'empty', 'prog',
                 '_cfg', 'ga')

    def __init__(self, prog, i, d):
        self.prog = prog
        self.id = i
        self.name = d['name']
        self.defn = d['def']
        self.crate = d['crate']
        self.kind = d['kind']
        self.argc = d.get('argc', 0)
        self.locals = d.get('locals')
        self.spread = d.get('spread')
        self.vars = d.get('vars') or []
        self.span = d.get('span')
        self.body = d.get('body')
        self.intr = d.get('intr')
        self.empty = d.get('empty')
        self.ga = d.get('ga')
        self._cfg = None

    def cfg(self):
        if self._cfg is None:
            self._cfg = Cfg(self)
        return self._cfg

    def __repr__(self):
        return 'Fn(%s)' % self.name


def term_succ(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + [t[3]]
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[4]] if t[4] is not None and t[4] >= 0 else []
    if k == 'assert':
        return [t[5]] if len(t) > 5 else []
    return []


class Cfg:
    """Successors, dominators, natural loops, live locals."""

    def __init__(self, fn):
        body = fn.body
        n = len(body)
        self.succ = [[s for s in term_succ(b[1]) if s is not None and 0 <= s < n] for b in body]
        self.pred = [[] for _ in range(n)]
        for i, ss in enumerate(self.succ):
            for s in ss:
                self.pred[s].append(i)
        # reverse postorder
        order, seen = [], set()
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = order
        idx = {b: i for i, b in enumerate(order)}
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                if not ps:
                    continue
                d = ps[0]
                for p in ps[1:]:
                    a, c = d, p
                    while a != c:
                        while idx[a] > idx[c]:
                            a = idom[a]
                        while idx[c] > idx[a]:
                            c = idom[c]
                    d = a
                if idom.get(b) != d:
                    idom[b] = d
                    changed = True
        self.idom = idom
        self.loops = {}  # header -> set of blocks
        for b in order:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    blocks = self.loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in blocks:
                            continue
                        blocks.add(x)
                        work += [p for p in self.pred[x] if p in idx]
        self._live = None
        self.fn = fn

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0 or b not in self.idom:
                return False
            b = self.idom[b]

    def live_in(self):
        """live locals at the start of each block (locals whose address is
        taken are handled by the caller through reachability)"""
        if self._live is not None:
            return self._live
        n = len(self.fn.body)
        use, dfn = [], []
        for stmts, term in self.fn.body:
            u, d = set(), set()

            def rd(l):
                if l not in d:
                    u.add(l)

            def place_read(p):
                rd(p[0])
                for e in p[1]:
                    if isinstance(e, list) and e[0] == 'i':
                        rd(e[1])

            def place_write(p):
                if p[1]:
                    place_read(p)
                else:
                    d.add(p[0])

            for s in stmts:
                walk_stmt(s, place_read, place_write, lambda l: d.add(l))
            walk_term(term, place_read, place_write)
            use.append(u)
            dfn.append(d)
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in range(n - 1, -1, -1):
                out = set()
                for s in self.succ[b]:
                    out |= live[s]
                term = self.fn.body[b][1]
                if term[0] == 'ret':
                    out = out | {0}
                new = use[b] | (out - dfn[b])
                if new != live[b]:
                    live[b] = new
                    changed = True
        self._live = live
        return live


def walk_op(op, rd):
    if op[0] in ('c', 'm'):
        rd(op[1])


def walk_rv(rv, rd):
    k = rv[0]
    if k == 'use':
        walk_op(rv[1], rd)
    elif k in ('bin', 'chk'):
        walk_op(rv[2], rd)
        walk_op(rv[3], rd)
    elif k == 'cast':
        walk_op(rv[2], rd)
    elif k in ('discr', 'len'):
        rd(rv[1])
    elif k in ('ref', 'addr'):
        rd(rv[2])
    elif k == 'agg':
        for o in rv[-1]:
            walk_op(o, rd)
    elif k == 'repeat':
        walk_op(rv[1], rd)
    elif k == 'un':
        walk_op(rv[2], rd)


def walk_stmt(s, rd, wr, dead):
    k = s[0]
    if k == '=':
        walk_rv(s[2], rd)
        wr(s[1])
    elif k == 'sd':
        rd(s[1])
    elif k in ('sl', 'sx'):
        dead(s[1])
    elif k == 'assume':
        walk_op(s[1], rd)
    elif k == 'cno':
        for o in s[1:]:
            if isinstance(o, list) and o and o[0] in ('c', 'm'):
                walk_op(o, rd)


def walk_term(t, rd, wr):
    k = t[0]
    if k == 'switch':
        walk_op(t[1], rd)
    elif k == 'drop':
        rd(t[1])
    elif k == 'call':
        if t[1][0] == 'd':
            walk_op(t[1][1], rd)
        for a in t[2]:
            walk_op(a, rd)
        wr(t[3])
    elif k == 'assert':
        walk_op(t[1], rd)
        for o in t[4] or []:
            walk_op(o, rd)


STD = [(re.compile(r'\bhllroots::alloc::raw_vec'), 'alloc::raw_vec'),
       (re.compile(r'\b(hllroots::)?alloc::(?=(vec|slice|collections|alloc|boxed|string|rc|sync|borrow|fmt|str)::)'), 'std::'),
       (re.compile(r'\bcore::(?!num::|panicking|str::|ub_checks|core_arch|slice::<impl|hash::impls|hash::sip|fmt::num|hash::<impl)'), 'std::')]


def canonical(d):
    """without the standard library, items of core and alloc are printed under those
    names; with it, under the names it re-exports them by"""
    def ren(x):
        for a, b in STD:
            x = a.sub(b, x)
        return x
    for f in d['fns'].values():
        f['name'], f['def'] = ren(f['name']), ren(f['def'])
    for t in d['types']:
        if t.get('n'):
            t['n'] = ren(t['n'])


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.crates = d.get('crates', [])
        if 'std' not in self.crates and self.crates:
            canonical(d)
        self.types = d['types']
        self.files = d['files']
        self.roots = d['roots']
        self.allocs = d['allocs']
        self.fns = {}
        for k, v in d['fns'].items():
            self.fns[int(k)] = Fn(self, int(k), v)

    def interior(self, t, seen=None):
        """whether a value of the type can change through a shared reference"""
        seen = set() if seen is None else seen
        if t in seen:
            return False
        seen.add(t)
        d = self.types[t]
        k = d['k']
        if k in ('int', 'float', 'bool', 'str', 'never', 'fndef', 'fnptr'):
            return False
        if k == 'adt':
            if d['n'].split('::')[-1] == 'UnsafeCell':
                return True
            return any(self.interior(x, seen) for v in d['v'] for _, x in v['f'])
        if k == 'tuple':
            return any(self.interior(x, seen) for x in d['e'])
        if k in ('array', 'slice'):
            return self.interior(d['e'], seen)
        if k == 'ref':
            return bool(d.get('mut')) or self.interior(d['e'], seen)
        return True

    def mutable_static(self, t):
        """t: type of the pointer to the static"""
        d = self.types[t]
        return d['k'] != 'ref' or bool(d.get('mut')) or self.interior(d['e'])

    def root(self, name):
        return self.fns[self.roots[name]]

    def find(self, pred):
        return [f for f in self.fns.values() if pred(f)]

    def loc(self, span):
        if not span:
            return '?'
        f = self.files[span[0]] if isinstance(span[0], int) else span[0]
        return '%s:%s:%s' % (f, span[1], span[2])

    def tyname(self, t, depth=0):
        if depth > 4:
            return '..'
        d = self.types[t]
        k = d['k']
        r = lambda x: self.tyname(x, depth + 1)
        if k == 'int':
            return ('i' if d['signed'] else 'u') + str(d['bits'])
        if k == 'float':
            return 'f%s' % d.get('bits', 64)
        if k == 'adt':
            n = d['n'].split('::')[-1]
            a = [r(x) for x in d.get('args', []) if isinstance(x, int)]
            return n + ('<' + ','.join(a) + '>' if a else '')
        if k == 'ref':
            return '&' + ('mut ' if d.get('mut') else '') + r(d['e'])
        if k == 'ptr':
            return '*' + r(d['e'])
        if k == 'tuple':
            return '(' + ','.join(r(x) for x in d['e']) + ')'
        if k == 'slice':
            return '[' + r(d['e']) + ']'
        if k == 'array':
            return '[%s;%s]' % (r(d['e']), d.get('len'))
        if k in ('fndef', 'closure'):
            return '{%s %s}' % (k, d.get('n'))
        return k

    # ---- printer
    def p_place(self, p):
        s = '_%d' % p[0]
        for e in p[1]:
            if e == '*':
                s = '(*%s)' % s
            elif e[0] == 'f':
                s += '.%d' % e[1]
            elif e[0] == 'i':
                s += '[_%d]' % e[1]
            elif e[0] == 'd':
                s = '(%s as v%d)' % (s, e[1])
            else:
                s += str(e)
        return s

    def p_op(self, o):
        if o[0] == 'c':
            return self.p_place(o[1])
        if o[0] == 'm':
            return 'move ' + self.p_place(o[1])
        return json.dumps(o[1])

    def p_rv(self, r):
        k = r[0]
        if k == 'use':
            return self.p_op(r[1])
        if k in ('bin', 'chk'):
            return '%s(%s, %s)%s' % (r[1], self.p_op(r[2]), self.p_op(r[3]), '!' if k == 'chk' else '')
        if k == 'cast':
            return '%s as %s (%s)' % (self.p_op(r[2]), self.tyname(r[3]), r[1])
        if k in ('discr', 'len'):
            return '%s(%s)' % (k, self.p_place(r[1]))
        if k in ('ref', 'addr'):
            return '&%s%s %s' % ('raw ' if k == 'addr' else '', r[1], self.p_place(r[2]))
        if k == 'agg':
            return 'agg %s (%s)' % (r[1:-1], ', '.join(self.p_op(o) for o in r[-1]))
        if k == 'un':
            return '%s %s' % (r[1], self.p_op(r[2]))
        return json.dumps(r)

    def show(self, f, out=sys.stdout):
        w = lambda *a: print(*a, file=out)
        w('fn', f.id, f.name, f.crate, f.kind, 'argc', f.argc, 'spread', f.spread)
        for i, t in enumerate(f.locals or []):
            w('   _%d: %s' % (i, self.tyname(t)))
        for i, (st, t) in enumerate(f.body or []):
            w(' bb%d:' % i)
            for s in st:
                if s[0] == '=':
                    w('    %s = %s' % (self.p_place(s[1]), self.p_rv(s[2])))
                elif s[0] in ('sl', 'sx'):
                    pass
                else:
                    w('    ', s)
            if t[0] == 'call':
                c = t[1]
                if c[0] == 's':
                    d = self.types[c[1]]
                    n = d.get('n')
                    fid = d.get('fn')
                    n = '%s#%s' % (n, fid)
                else:
                    n = self.p_op(c[1])
                w('    %s = call %s(%s) -> bb%s' % (self.p_place(t[3]), n, ', '.join(self.p_op(a) for a in t[2]), t[4]))
            elif t[0] == 'switch':
                w('    switch %s %s else %s' % (self.p_op(t[1]), t[2], t[3]))
            else:
                w('    ', t)


if __name__ == '__main__':
    p = Prog(sys.argv[1])
    for a in sys.argv[2:]:
        for f in p.fns.values():
            if str(f.id) == a or (not a.isdigit() and a in f.name):
                p.show(f)
