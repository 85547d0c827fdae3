"""Effects: what the functions of the library can read or write besides their
arguments, read off the resolved MIR of everything the entry points reach."""
import re
from ctx import *
from upper import *
from serial import Serial

# sources of information other than the arguments
AMBIENT = [
    (r'^std::time::.*::now$', 'reads the clock'),
    (r'^<std::time::.*::elapsed$', 'reads the clock'),
    (r'^std::time::Instant::elapsed$', 'reads the clock'),
    (r'^std::(env|fs|net|process)::', 'reads the environment of the process'),
    (r'^std::io::', 'performs input or output'),
    (r'^std::thread::(current|Thread)', 'depends on the running thread'),
    (r'^std::thread::LocalKey', 'uses a thread-local variable'),
    (r'^std::thread::local', 'uses a thread-local variable'),
    (r'RandomState as (std|core)::hash::BuildHasher>', 'hashes with a randomly keyed hasher'),
    (r'^rand::', 'uses random numbers'),
    (r'^getrandom', 'uses random numbers'),
    (r'::(addr|expose_provenance)$', 'depends on an address'),
]
SHARED = ('std::rc::Rc', 'std::sync::Arc', 'alloc::rc::Rc', 'alloc::sync::Arc')


def walk(x):
    """all nested lists and dicts of a MIR body"""
    todo = [x]
    while todo:
        y = todo.pop()
        if isinstance(y, dict):
            yield y
            todo.extend(y.values())
        elif isinstance(y, list):
            yield y
            todo.extend(y)


class Effects(Upper):
    def local_fns(self):
        return [f for f in self.P.fns.values() if f.crate == 'hyperloglogplus' and f.body is not None]

    def do_effects(self):
        rec, P = self.rec, self.P
        fns = self.local_fns()
        self.stats['fns'] |= {f.name for f in fns}
        for f in fns:
            bad = False
            for bb in f.body:
                for st in list(bb[0]) + [bb[1]]:
                    for y in walk(st):
                        r = None
                        if isinstance(y, dict) and 'static' in y:
                            if P.mutable_static(y['t']):
                                r = ('a static that can change', 'refuted', 'the static %s, which can change, is used' % y['static'])
                        elif isinstance(y, list) and len(y) == 2 and y[0] == 'tls':
                            r = ('a thread-local variable', 'refuted', 'the thread-local variable %s is used' % y[1])
                        elif isinstance(y, list) and len(y) == 4 and y[0] == 'cast' and isinstance(y[1], str) and 'Expose' in y[1]:
                            r = ('an address', 'refuted', 'an address is turned into a number')
                        if r:
                            bad = True
                            span = bb[1][-1] if st is bb[1] else None
                            rec.add(['C21'], 'no function depends on ' + r[0], r[1], '%s in %s' % (r[2], f.name), '%s at %s' % (f.name, P.loc(f.span)))
                t = bb[1]
                if t[0] == 'call' and t[1][0] == 's':
                    d = P.types[t[1][1]]
                    n = d['n'] or ''
                    g = P.fns.get(d['fn'])
                    full = g.name if g else n
                    for pat, why in AMBIENT:
                        if re.search(pat, n) or g is not None and re.search(pat, g.defn):
                            bad = True
                            rec.add(['C21'], 'no ambient source is consulted', 'refuted', '%s %s, by calling %s' % (f.name, why, n), '%s at %s' % (f.name, P.loc(t[-1])))
                    # an iterator over a hash table from which elements are taken by position
                    m = re.search(r'(Take|Skip|StepBy|TakeWhile|SkipWhile|MapWhile)<(&mut )?[^<>]*(<[^<>]*)*hash_set::(Iter|IntoIter|Drain)', full)
                    if m:
                        bad = True
                        rec.add(['C21'], 'the order of a hash table does not matter', 'unknown', '%s selects elements of a hash table by their position (%s)' % (f.name, m.group(1)), '%s at %s' % (f.name, P.loc(t[-1])))
            if not bad:
                rec.add(['C21'], 'a function depends on its arguments only', 'proved')

    def owns(self, t, seen, path):
        """[(path, why)] for the parts of a type that are not owned"""
        P = self.P
        if t in seen:
            return []
        seen.add(t)
        d = P.types[t]
        k = d['k']
        out = []
        if k in ('ref', 'ptr'):
            if k == 'ref' and not d.get('mut') and not P.interior(d['e']):
                return []
            return [(path, 'a pointer')]
        if k == 'adt':
            n = d['n']
            if n in SHARED:
                a = [x for x in d.get('args', []) if isinstance(x, int)]
                return [(path, 'shared, mutable storage (%s)' % P.tyname(t))] if a and P.interior(a[0]) else []
            if n.split('::')[-1] in ('UnsafeCell',):
                return [(path, 'a cell')]
            if n.startswith(('std::', 'alloc::', 'core::')) and n not in ('std::option::Option', 'core::option::Option'):
                a = [x for x in d.get('args', []) if isinstance(x, int)]
                for x in a:
                    if P.types[x]['k'] in ('adt', 'ref', 'ptr', 'tuple', 'array') and not P.types[x].get('n', '').endswith(('Global', 'RandomState')):
                        out += self.owns(x, seen, path)
                return out
            for v in d['v']:
                for fn_, x in v['f']:
                    out += self.owns(x, seen, path + '.' + fn_)
        elif k == 'tuple':
            for i, x in enumerate(d['e']):
                out += self.owns(x, seen, '%s.%d' % (path, i))
        elif k in ('array', 'slice'):
            out += self.owns(d['e'], seen, path)
        return out

    def do_owned(self):
        rec, P = self.rec, self.P
        t = P.types[self.root('clone').locals[1]]['e']
        bad = self.owns(t, set(), self.kind)
        for path, why in bad:
            sure = 'shared' in why
            rec.add(['C21'], 'the storage of a sketch is its own', 'refuted' if sure else 'unknown', '%s is %s' % (path, why), P.types[t]['n'])
        if not bad:
            rec.add(['C21'], 'the storage of a sketch is its own', 'proved')

    def do_clone_parts(self):
        """clones of the storage types hold the same values"""
        rec, P = self.rec, self.P
        n = 0
        for f in self.local_fns():
            if not (f.name.startswith('<hyperloglogplus::') and f.name.endswith('as std::clone::Clone>::clone')) and \
               not (f.name.startswith('<hyperloglogplus::') and f.name.endswith('as core::clone::Clone>::clone')):
                continue
            t = P.types[f.locals[1]]['e']
            if 'HyperLogLog' in P.types[t]['n'] or P.types[t]['n'].endswith(('::Registers', '::RegistersPlus')):
                # these have their own analyses
                n += 1
                continue
            n += 1
            what = 'clone of %s' % P.types[t]['n'].split('::')[-1]
            for full in (False, True):
                S = State()
                b = Serial.__new__(Serial)
                b.P = P
                v = b.build(S, t, (), True, full)
                S.mem['s'] = v
                I = Interp(P, clone_natives() + std_natives())
                try:
                    outs = self.run(I, f, [Ref('s')], S)
                except Unknown as u:
                    rec.add(['C21'], what, 'unknown', str(u))
                    continue
                for o in outs:
                    if o.out[0] != 'ret':
                        rec.add(['C21'], what, 'unknown', str(o.out[1]))
                        continue
                    ok = same(o.F, o.out[1], v)
                    from serial import unlike
                    rec.add(['C21'], what + ': every part is copied', 'proved' if ok else 'refuted' if not o.taint and unlike(o.F, v, o.out[1]) else 'unknown', 'a clone differs from the original', f.name)
                    rec.add(['C21'], what + ': the original is unchanged', 'proved' if same(o.F, o.mem.get('s'), v) else 'unknown', 'cloning changes the original', f.name)
        if not n:
            rec.add(['C21'], 'clone of the storage', 'unknown', 'no clone functions found')


def clone_natives():
    return [(lambda n: 'Vec<T, A> as std::clone::Clone' in n or 'Vec<T, A> as core::clone::Clone' in n, lambda c, a: deref(c, a[0])[1])]
