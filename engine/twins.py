"""Client programs that the typed interface must admit, and twins of them, changed in
one place, that it must reject.  The compiler's type checker decides; nothing is run."""
import concurrent.futures, json, os, re, shutil, subprocess
import build
from upper import Rec, CURRENT
from interp import Unknown

PRELUDE = '''#![allow(dead_code, unused_variables, unused_imports, unused_mut, deprecated)]
use hyperloglogplus::*;
use std::borrow::Borrow;
use std::collections::hash_map::{DefaultHasher, RandomState};
use std::hash::{BuildHasher, BuildHasherDefault, Hash, Hasher};
use std::rc::Rc;
type Def = BuildHasherDefault<DefaultHasher>;
pub struct Plain;                       // not Hash
#[derive(Hash)] pub struct Bare(u8);    // Hash and nothing else
#[derive(Hash, PartialEq, Eq)] pub struct Key(String);
impl Borrow<str> for Key { fn borrow(&self) -> &str { &self.0 } }
pub struct KCell(std::cell::Cell<u8>);
impl Hash for KCell { fn hash<S: Hasher>(&self, s: &mut S) { s.write_u8(self.0.get()) } }
pub struct Bld(u8);                     // a builder that is nothing else
impl BuildHasher for Bld { type Hasher = DefaultHasher; fn build_hasher(&self) -> DefaultHasher { DefaultHasher::new() } }
pub struct BldRc(Rc<u8>);
impl BuildHasher for BldRc { type Hasher = DefaultHasher; fn build_hasher(&self) -> DefaultHasher { DefaultHasher::new() } }
pub struct BldCell(std::cell::Cell<u8>);
impl BuildHasher for BldCell { type Hasher = DefaultHasher; fn build_hasher(&self) -> DefaultHasher { DefaultHasher::new() } }
fn send<T: Send>() {}
fn sync<T: Sync>() {}
fn stat<T: 'static>() {}
'''

# (name, program that must be accepted, [(change, program that must be rejected, error codes)])
# $T: the sketch type, $O: the other one
TWINS = [
    ('typed insertion', 'fn t(a: &mut $T<String, Bld>, s: &String) { a.insert(s); a.add(s); }', [
        ('a value of another type', 'fn t(a: &mut $T<String, Bld>, s: &u64) { a.insert(s); }', 'E0277 E0308'),
        ('a value of another type, by add', 'fn t(a: &mut $T<String, Bld>, s: &u64) { a.add(s); }', 'E0277 E0308'),
        ('a value of a type that the element type does not borrow', 'fn t(a: &mut $T<String, Bld>, s: &Vec<u8>) { a.insert(s); }', 'E0277 E0308'),
        ('an integer of another width', 'fn t(a: &mut $T<u64, Bld>, s: &u32) { a.insert(s); }', 'E0277 E0308'),
        ('a reference to the value of a reference', 'fn t(a: &mut $T<u64, Bld>, s: &&u64) { a.insert::<&u64>(s); }', 'E0277 E0308'),
        ('through a shared reference', 'fn t(a: &$T<String, Bld>, s: &String) { a.insert(s); }', 'E0596'),
    ]),
    ('insertion of a borrowed form', 'fn t(a: &mut $T<String, Bld>, s: &str, k: &mut $T<Key, Bld>, v: &mut $T<Vec<u8>, Bld>) { a.insert(s); k.insert(s); v.insert(&[1u8][..]); }', [
        ('of another type', 'fn t(a: &mut $T<Vec<u8>, Bld>, s: &str) { a.insert(s); }', 'E0277 E0308'),
        ('the owner of the element type', 'fn t(a: &mut $T<str, Bld>, s: &String) { a.insert::<String>(s); }', 'E0277 E0308'),
    ]),
    ('an element type that can only be hashed', 'fn t(a: &mut $T<Bare, Bld>, s: &Bare) { a.insert(s); a.count(); a.add(s); }', [
        ('an element type that cannot be hashed', 'fn t(a: &mut $T<Plain, Bld>, s: &Plain) { a.insert(s); }', 'E0277 E0599'),
    ]),
    ('insertion of any value', 'fn t(a: &mut $T<String, Bld>, s: &u64, r: &Bare, u: &str) { a.insert_any(s); a.insert_any(r); a.insert_any(u); }', [
        ('a value that cannot be hashed', 'fn t(a: &mut $T<String, Bld>, s: &Plain) { a.insert_any(s); }', 'E0277'),
        ('through a shared reference', 'fn t(a: &$T<String, Bld>, s: &u64) { a.insert_any(s); }', 'E0596'),
    ]),
    ('unsized element types', '''fn t(s: &str, b: &[u8]) -> Result<f64, HyperLogLogError> {
        let mut a: $T<str, Bld> = $T::new(8, Bld(0))?; let mut c: $T<[u8], Bld> = $T::new(8, Bld(0))?;
        a.insert(s); a.add(s); a.insert_any(s); c.insert(b); a.merge(&c)?; c.merge(&a)?; Ok(a.count() + c.count()) }''', []),
    ('an unsized element type through the trait', 'fn g<S: HyperLogLog<str>>(s: &mut S, v: &str) -> f64 { s.insert(v); s.add(v); s.count() }  fn t(a: &mut $T<str, Bld>) -> f64 { g(a, "a") }', []),
    ('programs generic over the sketch', 'fn g<H: Hash + Borrow<Q>, Q: Hash + ?Sized, S: HyperLogLog<H>>(s: &mut S, v: &H, q: &Q) -> f64 { s.insert::<H>(v); s.insert::<Q>(q); s.add(v); s.count() }  fn t(a: &mut $T<String, Bld>, s: &String) -> f64 { g::<String, str, _>(a, s, "x") }', [
        ('a sketch of another element type', 'fn g<S: HyperLogLog<String>>(s: &mut S) -> f64 { s.count() }  fn t(a: &mut $T<u64, Bld>) -> f64 { g(a) }', 'E0277 E0308'),
    ]),
    ('values need not outlive the sketch', 'fn t(a: &mut $T<String, Bld>) -> f64 { { let s = String::new(); a.insert(&s); a.insert_any(&s); drop(s); } a.count() }', []),
    ('merging different element and hasher types', 'fn t(a: &mut $T<String, Bld>, b: &$T<u64, BldRc>, c: &$T<str, Def>, d: &mut $T<u64, RandomState>) -> Result<(), HyperLogLogError> { a.merge(b)?; a.merge(c)?; d.merge(a)?; a.merge(d) }', [
        ('a sketch of the other kind', 'fn t(a: &mut $T<String, Bld>, b: &$O<String, Bld>) -> Result<(), HyperLogLogError> { a.merge(b) }', 'E0308 E0277'),
        ('through a shared reference', 'fn t(a: &$T<String, Bld>, b: &$T<String, Bld>) -> Result<(), HyperLogLogError> { a.merge(b) }', 'E0596'),
        ('a number', 'fn t(a: &mut $T<String, Bld>) -> Result<(), HyperLogLogError> { a.merge(&1u64) }', 'E0308 E0277'),
    ]),
    ('merging two sketches', 'fn t(a: &mut $T<u64, Bld>, b: &$T<u64, Bld>) -> Result<(), HyperLogLogError> { a.merge(b) }', [
        ('a sketch with itself', 'fn t(a: &mut $T<u64, Bld>) -> Result<(), HyperLogLogError> { a.merge(a) }', 'E0502 E0499'),
        ('a sketch borrowed elsewhere', 'fn t(a: &mut $T<u64, Bld>) { let b = &*a; let _ = a.merge(b); let _ = b; }', 'E0502 E0499'),
    ]),
    ('the merged sketch remains usable', 'fn t(mut a: $T<u64, Bld>, mut b: $T<u64, Bld>) -> f64 { let _ = a.merge(&b); let _ = b.merge(&a); a.count() + b.count() }', []),
    ('construction', 'fn t(b: Bld) -> Result<$T<String, Bld>, HyperLogLogError> { $T::new(16, b) }', [
        ('a builder that builds nothing', 'fn t(b: u8) -> Result<$T<String, u8>, HyperLogLogError> { $T::new(16, b) }', 'E0277 E0599'),
        ('a precision that is no byte', 'fn t(b: Bld) -> Result<$T<String, Bld>, HyperLogLogError> { $T::new(300u32, b) }', 'E0308'),
    ]),
    ('estimating', 'fn t(a: &mut $T<String, Bld>) -> f64 { a.count() }', [
        ('through a shared reference', 'fn t(a: &$T<String, Bld>) -> f64 { a.count() }', 'E0596'),
    ]),
    ('sending to another thread', '''fn t() { send::<$T<String, Bld>>(); send::<$T<u64, RandomState>>(); send::<$T<KCell, BldCell>>(); send::<$T<str, Def>>(); }
        fn g<H: Hash + Send + ?Sized, B: BuildHasher + Send>() { send::<$T<H, B>>(); }''', [
        ('with a hasher that stays on its thread', 'fn t() { send::<$T<String, BldRc>>(); }', 'E0277'),
    ]),
    ('sharing between threads', '''fn t() { sync::<$T<String, Bld>>(); sync::<$T<u64, RandomState>>(); sync::<$T<str, Def>>(); }
        fn g<H: Hash + Sync + ?Sized, B: BuildHasher + Sync>() { sync::<$T<H, B>>(); }''', [
        ('with a hasher that cannot be shared', 'fn t() { sync::<$T<String, BldCell>>(); }', 'E0277'),
    ]),
    ('a sketch owns what it holds', "fn t() { stat::<$T<String, Bld>>(); }  fn g<H: Hash + 'static + ?Sized, B: BuildHasher + 'static>() { stat::<$T<H, B>>(); }", []),
]
COMMON = [
    ('errors', "fn e<T: std::error::Error + Send + Sync + PartialEq + std::fmt::Debug + std::fmt::Display + 'static>() {}  fn t() { e::<HyperLogLogError>(); }"
     " fn m(e: HyperLogLogError) -> u8 { if e == HyperLogLogError::InvalidPrecision { 0 } else if e == HyperLogLogError::IncompatiblePrecision { 1 } else { 2 } }", []),
]


class Twins:
    def __init__(self):
        CURRENT.append(self)
        self.rec = Rec()
        self.stats = dict(states=0, steps=0, paths=0, forks=0, loops=0, fns=set(), runs=0)

    def library(self):
        """type-checks the library; the paths to hand to the compiler"""
        e = build.env()
        e['CARGO_TARGET_DIR'] = os.path.join(build.BUILD, 'twins')
        with build.lock('twins'):
            r = build.run(['cargo', 'check', '--offline', '--message-format=json'], os.path.join(build.VERIF, 'twins'), e, 'twins.log')
            lib = None
            for l in r.stdout.splitlines():
                if l.startswith('{'):
                    m = json.loads(l)
                    if m.get('reason') == 'compiler-artifact' and m['target']['name'] == 'hyperloglogplus':
                        lib = [f for f in m['filenames'] if f.endswith('.rmeta')][0]
            if r.returncode or not lib:
                err = [json.loads(l)['message']['rendered'] for l in r.stdout.splitlines() if l.startswith('{') and json.loads(l).get('reason') == 'compiler-message']
                raise build.BuildError('\n'.join(err) + r.stderr[-2000:])
            # the checks that follow are of this version
            d = os.path.join(build.BUILD, 'twins-%d' % os.getpid())
            os.makedirs(d, exist_ok=True)
            shutil.copy(lib, d)
        return os.path.join(d, os.path.basename(lib)), os.path.dirname(lib), d

    def check(self, src, lib, deps, d, name):
        f = os.path.join(d, name + '.rs')
        with open(f, 'w') as o:
            o.write(PRELUDE + src + '\n')
        r = subprocess.run(['rustc', '--edition=2021', '--crate-type=lib', '--crate-name=twin', '--emit=metadata', '--error-format=json', '-o', f + 'meta',
                            '--extern', 'hyperloglogplus=' + lib, '-L', 'dependency=' + deps, f], env=build.env(), capture_output=True, text=True, cwd=d)
        codes, text = [], ''
        for l in r.stderr.splitlines():
            if l.startswith('{'):
                m = json.loads(l)
                if m['level'] == 'error':
                    if m.get('code'):
                        codes.append(m['code']['code'])
                    text = text or m['message']
        return r.returncode == 0, codes, text

    def do_twins(self):
        rec = self.rec
        lib, deps, d = self.library()
        try:
            jobs = []
            for T, O in (('HyperLogLogPF', 'HyperLogLogPlus'), ('HyperLogLogPlus', 'HyperLogLogPF')):
                for name, good, bads in TWINS:
                    jobs.append((T, name, None, good, ''))
                    for ch, src, codes in bads:
                        jobs.append((T, name, ch, src, codes))
            for name, good, bads in COMMON:
                jobs.append(('', name, None, good, ''))
            with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 1) as ex:
                res = list(ex.map(lambda j: self.check(j[1][3].replace('$T', j[1][0]).replace('$O', 'HyperLogLogPF' if j[1][0] == 'HyperLogLogPlus' else 'HyperLogLogPlus'),
                                                       lib, deps, d, 't%d' % j[0]), enumerate(jobs)))
            base = {}
            for (T, name, ch, src, codes), (ok, got, text) in zip(jobs, res):
                self.stats['runs'] += 1
                self.stats['paths'] += 1
                if ch is None:
                    base[T, name] = ok
                    rec.add(['C24'], 'accepted: ' + name, 'proved' if ok else 'refuted', '%s: a program that must compile is rejected: %s' % (T, text), src.replace('$T', T))
            for (T, name, ch, src, codes), (ok, got, text) in zip(jobs, res):
                if ch is None:
                    continue
                want = set(codes.split())
                if ok:
                    st, why = 'refuted', '%s: a program that must be rejected compiles' % T
                elif set(got) & want and set(got) <= want:
                    st, why = 'proved', ''
                else:
                    st, why = 'unknown', '%s: rejected for another reason: %s %s' % (T, ' '.join(got), text)
                if st == 'proved' and not base[T, name]:
                    st, why = 'unknown', 'the program it is a variant of is rejected as well'
                rec.add(['C24'], 'rejected: %s: %s' % (name, ch), st, why, src.replace('$T', T))
        finally:
            shutil.rmtree(d, ignore_errors=True)
