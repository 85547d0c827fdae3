//! A `rustc` wrapper that compiles its input as usual and, for the crate named
//! by HLL_DUMP_CRATE, writes the monomorphic MIR of everything reachable from
//! the public `root_*` functions of that crate to HLL_DUMP_OUT as JSON.
//!
//! It computes nothing about the program itself: it resolves callees and types
//! and decodes constants, so that the analyses in /verif/engine see the
//! resolved program.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal;
use rustc_public::ty::*;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            },
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

// Library functions replaced by the reference definitions in the harness:
// (last segments of the path, name of the type of the first argument,
// reference, positions of the type arguments to pass on).
const MODELS: &[(&str, &str, &str, &[usize])] = &[
    ("Iterator::fold", "", "model_fold", &[0, 1, 2]),
    ("Iterator::for_each", "", "model_for_each", &[0, 1]),
    ("Iterator::count", "", "model_count", &[0]),
    ("Iterator::last", "", "model_last", &[0]),
    ("Iterator::all", "", "model_all", &[0, 1]),
    ("Iterator::any", "", "model_any", &[0, 1]),
    ("Iterator::find", "", "model_find", &[0, 1]),
    ("Iterator::position", "", "model_position", &[0, 1]),
    ("FromIterator::from_iter", "Vec", "model_vec_from_iter", &[1, 2]),
    ("FromIterator::from_iter", "HashSet", "model_set_from_iter", &[1, 2]),
    ("Extend::extend", "Vec", "model_vec_extend", &[1, 2]),
    ("Extend::extend", "HashSet", "model_set_extend", &[1, 2]),
    ("slice::<impl [T]>::binary_search_by", "", "model_binary_search_by", &[0, 1]),
    ("slice::<impl [T]>::partition_point", "", "model_partition_point", &[0, 1]),
];

struct Dump {
    models: HashMap<String, FnDef>,
    types: Vec<String>,
    tymap: HashMap<Ty, usize>,
    fns: BTreeMap<usize, String>,
    instmap: HashMap<Instance, usize>,
    insts: Vec<Instance>,
    queue: VecDeque<usize>,
    allocs: BTreeMap<usize, String>,
    allocmap: HashMap<(AllocId, Ty, u64), usize>,
    files: Vec<String>,
    filemap: HashMap<String, usize>,
}

impl Dump {
    fn new() -> Self {
        Dump {
            models: HashMap::new(),
            types: vec![],
            tymap: HashMap::new(),
            fns: BTreeMap::new(),
            instmap: HashMap::new(),
            insts: vec![],
            queue: VecDeque::new(),
            allocs: BTreeMap::new(),
            allocmap: HashMap::new(),
            files: vec![],
            filemap: HashMap::new(),
        }
    }

    fn resolve(&mut self, def: FnDef, args: &GenericArgs) -> Option<Instance> {
        let name = def.name();
        for (path, this, model, pos) in MODELS {
            if !name.ends_with(path) {
                continue;
            }
            let tys: Vec<Ty> = args.0.iter().filter_map(|a| a.ty().copied()).collect();
            if !this.is_empty() {
                let k = tys.first().map(|t| t.kind());
                let n = match k.as_ref().and_then(|k| k.rigid()) {
                    Some(RigidTy::Adt(d, _)) => d.trimmed_name(),
                    _ => String::new(),
                };
                if n != *this {
                    continue;
                }
            }
            let mut model = model.to_string();
            let mut passed: Vec<Ty> = vec![];
            for p in pos.iter() {
                passed.push(*tys.get(*p)?);
            }
            if path.ends_with("::extend") {
                // `Extend<&T>`: the items are references.
                if let Some(RigidTy::Ref(_, inner, _)) = passed[0].kind().rigid() {
                    passed[0] = *inner;
                    model.push_str("_ref");
                }
            }
            let f = match self.models.get(&model) {
                Some(f) => *f,
                None => continue,
            };
            let mut ga: Vec<GenericArgKind> = vec![];
            if model.ends_with("_ref") {
                ga.push(GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased }));
            }
            ga.extend(passed.into_iter().map(GenericArgKind::Type));
            if let Ok(i) = Instance::resolve(f, &GenericArgs(ga)) {
                return Some(i);
            }
        }
        Instance::resolve(def, args).ok()
    }

    fn file(&mut self, f: String) -> usize {
        if let Some(i) = self.filemap.get(&f) {
            return *i;
        }
        let i = self.files.len();
        self.files.push(f.clone());
        self.filemap.insert(f, i);
        i
    }

    fn span(&mut self, s: &Span) -> String {
        let f = self.file(s.get_filename().to_string());
        let l = s.get_lines();
        format!("[{},{},{}]", f, l.start_line, l.start_col)
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(id) = self.instmap.get(&i) {
            return *id;
        }
        let id = self.insts.len();
        self.insts.push(i);
        self.instmap.insert(i, id);
        self.queue.push_back(id);
        id
    }

    fn args(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in &a.0 {
            match g {
                GenericArgKind::Lifetime(_) => {},
                GenericArgKind::Type(t) => v.push(format!("{}", self.ty(*t))),
                GenericArgKind::Const(c) => v.push(match c.eval_target_usize() {
                    Ok(n) => format!("{{\"c\":{}}}", n),
                    Err(_) => format!("{{\"c\":{}}}", esc(&format!("{:?}", c.kind()))),
                }),
            }
        }
        arr(v)
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.tymap.insert(t, i);
        let s = self.ty_json(t);
        self.types[i] = s;
        i
    }

    fn ty_json(&mut self, t: Ty) -> String {
        let kind = t.kind();
        let size = match t.layout() {
            Ok(l) => {
                let sh = l.shape();
                if sh.is_sized() {
                    sh.size.bits() as i64 / 8
                } else {
                    -1
                }
            },
            Err(_) => -2,
        };
        let body = match kind.rigid() {
            None => format!("\"k\":\"other\",\"d\":{}", esc(&format!("{:?}", kind))),
            Some(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".into(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(i) => format!(
                    "\"k\":\"int\",\"signed\":true,\"bits\":{},\"n\":{}",
                    i.num_bytes() * 8,
                    esc(&format!("{:?}", i).to_lowercase())
                ),
                RigidTy::Uint(i) => format!(
                    "\"k\":\"int\",\"signed\":false,\"bits\":{},\"n\":{}",
                    i.num_bytes() * 8,
                    esc(&format!("{:?}", i).to_lowercase())
                ),
                RigidTy::Float(f) => format!("\"k\":\"float\",\"n\":{}", esc(&format!("{:?}", f).to_lowercase())),
                RigidTy::Adt(def, args) => {
                    let a = self.args(args);
                    let mut vs = vec![];
                    if !matches!(def.kind(), AdtKind::Union) {
                        for (vi, v) in def.variants().iter().enumerate() {
                            let mut fs = vec![];
                            for f in v.fields() {
                                let fty = f.ty_with_args(args);
                                let fid = self.ty(fty);
                                fs.push(format!("[{},{}]", esc(&f.name), fid));
                            }
                            let discr = if matches!(def.kind(), AdtKind::Enum) {
                                def.discriminant_for_variant(v.idx()).val.to_string()
                            } else {
                                vi.to_string()
                            };
                            vs.push(format!(
                                "{{\"n\":{},\"f\":{},\"d\":\"{}\"}}",
                                esc(&v.name()),
                                arr(fs),
                                discr
                            ));
                        }
                    }
                    format!(
                        "\"k\":\"adt\",\"n\":{},\"crate\":{},\"ak\":\"{}\",\"args\":{},\"v\":{},\"box\":{}",
                        esc(&def.name()),
                        esc(&def.krate().name),
                        def.kind(),
                        a,
                        arr(vs),
                        def.is_box()
                    )
                },
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Array(e, n) => {
                    let e = self.ty(*e);
                    format!("\"k\":\"array\",\"e\":{},\"len\":{}", e, n.eval_target_usize().unwrap_or(u64::MAX))
                },
                RigidTy::Slice(e) => {
                    let e = self.ty(*e);
                    format!("\"k\":\"slice\",\"e\":{}", e)
                },
                RigidTy::RawPtr(e, m) => {
                    let e = self.ty(*e);
                    format!("\"k\":\"ptr\",\"e\":{},\"mut\":{}", e, *m == Mutability::Mut)
                },
                RigidTy::Ref(_, e, m) => {
                    let e = self.ty(*e);
                    format!("\"k\":\"ref\",\"e\":{},\"mut\":{}", e, *m == Mutability::Mut)
                },
                RigidTy::FnDef(def, args) => {
                    let f = match self.resolve(*def, args) {
                        Some(i) => self.inst(i) as i64,
                        None => -1,
                    };
                    let a = self.args(args);
                    format!("\"k\":\"fndef\",\"n\":{},\"fn\":{},\"args\":{}", esc(&def.name()), f, a)
                },
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Closure(def, args) => {
                    // The last generic argument is the tuple of captured types.
                    let mut ups = vec![];
                    if let Some(GenericArgKind::Type(t)) = args.0.last() {
                        if let Some(RigidTy::Tuple(ts)) = t.kind().rigid() {
                            for t in ts {
                                ups.push(format!("{}", self.ty(*t)));
                            }
                        }
                    }
                    let f = match Instance::resolve_closure(*def, args, ClosureKind::Fn) {
                        Ok(i) => self.inst(i) as i64,
                        Err(_) => -1,
                    };
                    format!("\"k\":\"closure\",\"n\":{},\"up\":{},\"fn\":{}", esc(&def.name()), arr(ups), f)
                },
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|t| format!("{}", self.ty(*t))).collect();
                    format!("\"k\":\"tuple\",\"e\":{}", arr(v))
                },
                other => {
                    let d = format!("{:?}", other);
                    let d: String = d.chars().take(80).collect();
                    format!("\"k\":\"other\",\"d\":{}", esc(&d))
                },
            },
        };
        let copy = "";
        format!("{{{},\"size\":{}{}}}", body, size, copy)
    }

    // Decodes a value of type `t` at byte offset `off` of `a`.
    fn decode(&mut self, t: Ty, a: &Allocation, off: u64, depth: usize) -> String {
        if depth > 40 {
            return "{\"o\":\"depth\"}".into();
        }
        let kind = t.kind();
        let lay = match t.layout() {
            Ok(l) => l.shape(),
            Err(_) => return "{\"o\":\"nolayout\"}".into(),
        };
        let size = lay.size.bits() as u64 / 8;
        if lay.is_sized() && size == 0 {
            let ty = self.ty(t);
            return format!("{{\"z\":{}}}", ty);
        }
        let r = match kind.rigid() {
            Some(r) => r.clone(),
            None => return "{\"o\":\"alias\"}".into(),
        };
        let uint = |a: &Allocation, off: u64, n: u64| -> Option<u128> {
            let mut v: u128 = 0;
            for i in (0..n).rev() {
                let b = a.bytes.get((off + i) as usize).copied().flatten()?;
                v = (v << 8) | b as u128;
            }
            Some(v)
        };
        match r {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) | RigidTy::Float(_) | RigidTy::Int(_) => {
                match uint(a, off, size) {
                    Some(v) => {
                        let ty = self.ty(t);
                        format!("{{\"i\":\"{}\",\"t\":{}}}", v, ty)
                    },
                    None => "{\"o\":\"uninit\"}".into(),
                }
            },
            RigidTy::Tuple(ts) => {
                let offs = match &lay.fields {
                    FieldsShape::Arbitrary { offsets, .. } => offsets.clone(),
                    _ => return "{\"o\":\"tuple\"}".into(),
                };
                let v: Vec<String> = ts
                    .iter()
                    .enumerate()
                    .map(|(i, ft)| self.decode(*ft, a, off + offs[i].bits() as u64 / 8, depth + 1))
                    .collect();
                let ty = self.ty(t);
                format!("{{\"agg\":{},\"var\":0,\"t\":{}}}", arr(v), ty)
            },
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0);
                let es = match e.layout() {
                    Ok(l) => l.shape().size.bits() as u64 / 8,
                    Err(_) => return "{\"o\":\"array\"}".into(),
                };
                let v: Vec<String> =
                    (0..n).map(|i| self.decode(e, a, off + i * es, depth + 1)).collect();
                let ty = self.ty(t);
                format!("{{\"agg\":{},\"var\":0,\"t\":{}}}", arr(v), ty)
            },
            RigidTy::Adt(def, args) => {
                let ty = self.ty(t);
                let (vidx, offs): (usize, Vec<u64>) = match &lay.variants {
                    VariantsShape::Single { index } => {
                        let o = match &lay.fields {
                            FieldsShape::Arbitrary { offsets, .. } => {
                                offsets.iter().map(|s| s.bits() as u64 / 8).collect()
                            },
                            _ => return "{\"o\":\"adt\"}".into(),
                        };
                        (index.to_index(), o)
                    },
                    VariantsShape::Multiple { tag_encoding, tag_field, variants, tag } => {
                        let toff = match &lay.fields {
                            FieldsShape::Arbitrary { offsets, .. } => offsets[*tag_field].bits() as u64 / 8,
                            _ => return "{\"o\":\"enum\"}".into(),
                        };
                        let tsz = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. }
                            | rustc_public::abi::Scalar::Union { value } => {
                                value.size(&rustc_public::target::MachineInfo::target()).bits() as u64 / 8
                            },
                        };
                        let hasprov = a
                            .provenance
                            .ptrs
                            .iter()
                            .any(|(o, _)| *o as u64 == off + toff);
                        let raw = uint(a, off + toff, tsz);
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let raw = match raw {
                                    Some(r) => r,
                                    None => return "{\"o\":\"tag\"}".into(),
                                };
                                let mask: u128 =
                                    if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                match (0..def.num_variants()).find(|i| {
                                    def.discriminant_for_variant(VariantIdx::to_val(*i)).val & mask == raw
                                }) {
                                    Some(i) => i,
                                    None => return "{\"o\":\"tagval\"}".into(),
                                }
                            },
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if hasprov {
                                    untagged_variant.to_index()
                                } else {
                                    let raw = match raw {
                                        Some(r) => r,
                                        None => return "{\"o\":\"tag\"}".into(),
                                    };
                                    let mask: u128 = if tsz >= 16 {
                                        u128::MAX
                                    } else {
                                        (1u128 << (tsz * 8)) - 1
                                    };
                                    let rel = raw.wrapping_sub(*niche_start) & mask;
                                    let s = niche_variants.start().to_index() as u128;
                                    let e = niche_variants.end().to_index() as u128;
                                    if rel <= e - s {
                                        (s + rel) as usize
                                    } else {
                                        untagged_variant.to_index()
                                    }
                                }
                            },
                        };
                        let o = variants[vi].offsets.iter().map(|s| s.bits() as u64 / 8).collect();
                        (vi, o)
                    },
                    _ => return "{\"o\":\"adt\"}".into(),
                };
                let v = def.variants();
                let fs = v[vidx].fields();
                if fs.len() != offs.len() {
                    return "{\"o\":\"fields\"}".into();
                }
                let vals: Vec<String> = fs
                    .iter()
                    .enumerate()
                    .map(|(i, f)| self.decode(f.ty_with_args(&args), a, off + offs[i], depth + 1))
                    .collect();
                format!("{{\"agg\":{},\"var\":{},\"t\":{}}}", arr(vals), vidx, ty)
            },
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o as u64 == off).map(|(_, p)| p.0);
                let base = uint(a, off, 8).unwrap_or(0) as u64;
                let ty = self.ty(t);
                let prov = match prov {
                    Some(p) => p,
                    None => return format!("{{\"o\":\"ptr {}\"}}", base),
                };
                let meta = if size > 8 { uint(a, off + 8, 8).map(|x| x as u64) } else { None };
                let mut ga = GlobalAlloc::from(prov);
                let mut st = String::new();
                if let GlobalAlloc::Static(d) = &ga {
                    // the initial value; whether it can change is judged from its type
                    if let Ok(m) = d.eval_initializer() {
                        st = format!(",\"static\":{}", esc(&d.name()));
                        ga = GlobalAlloc::Memory(m);
                    }
                }
                match ga {
                    GlobalAlloc::Memory(m) => match e.kind().rigid() {
                        Some(RigidTy::Str) => {
                            let n = meta.unwrap_or(0);
                            let bs: Vec<u8> = (base..base + n)
                                .map(|i| m.bytes.get(i as usize).copied().flatten().unwrap_or(b'?'))
                                .collect();
                            format!("{{\"str\":{},\"t\":{}}}", esc(&String::from_utf8_lossy(&bs)), ty)
                        },
                        Some(RigidTy::Slice(el)) => {
                            let n = meta.unwrap_or(0);
                            let key = (prov, t, base * 1_000_003 + n);
                            let id = if let Some(id) = self.allocmap.get(&key) {
                                *id
                            } else {
                                let id = self.allocmap.len();
                                self.allocmap.insert(key, id);
                                let es = match el.layout() {
                                    Ok(l) => l.shape().size.bits() as u64 / 8,
                                    Err(_) => return "{\"o\":\"slice\"}".into(),
                                };
                                let v: Vec<String> = (0..n)
                                    .map(|i| self.decode(*el, &m, base + i * es, depth + 1))
                                    .collect();
                                let s = format!("{{\"slice\":{}}}", arr(v));
                                self.allocs.insert(id, s);
                                id
                            };
                            format!("{{\"ref\":{},\"t\":{}{}}}", id, ty, st)
                        },
                        _ => {
                            let key = (prov, t, base * 1_000_003);
                            let id = if let Some(id) = self.allocmap.get(&key) {
                                *id
                            } else {
                                let id = self.allocmap.len();
                                self.allocmap.insert(key, id);
                                let s = self.decode(e, &m, base, depth + 1);
                                self.allocs.insert(id, s);
                                id
                            };
                            format!("{{\"ref\":{},\"t\":{}{}}}", id, ty, st)
                        },
                    },
                    GlobalAlloc::Static(d) => {
                        format!("{{\"static\":{},\"t\":{}}}", esc(&d.name()), ty)
                    },
                    GlobalAlloc::Function(i) => {
                        let f = self.inst(i);
                        format!("{{\"fn\":{},\"t\":{}}}", f, ty)
                    },
                    _ => "{\"o\":\"galloc\"}".into(),
                }
            },
            RigidTy::FnPtr(_) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o as u64 == off).map(|(_, p)| p.0);
                if let Some(p) = prov {
                    if let GlobalAlloc::Function(i) = GlobalAlloc::from(p) {
                        let f = self.inst(i);
                        let ty = self.ty(t);
                        return format!("{{\"fn\":{},\"t\":{}}}", f, ty);
                    }
                }
                "{\"o\":\"fnptr\"}".into()
            },
            _ => "{\"o\":\"kind\"}".into(),
        }
    }

    fn constant(&mut self, c: &ConstOperand) -> String {
        let ty = c.ty();
        match c.const_.kind() {
            ConstantKind::Allocated(a) => self.decode(ty, a, 0, 0),
            ConstantKind::ZeroSized => {
                let t = self.ty(ty);
                format!("{{\"z\":{}}}", t)
            },
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.decode(*t, a, 0, 0),
                TyConstKind::ZSTValue(t) => {
                    let t = self.ty(*t);
                    format!("{{\"z\":{}}}", t)
                },
                k => format!("{{\"o\":{}}}", esc(&format!("{:?}", k))),
            },
            k => format!("{{\"o\":{}}}", esc(&format!("{:?}", k).chars().take(100).collect::<String>())),
        }
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(*t);
                    format!("[\"f\",{},{}]", i, t)
                },
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                },
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                },
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "\"oc\"".to_string(),
            });
        }
        format!("[{},{}]", p.local, arr(v))
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(c)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",\"{:?}\"]", r),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(k, p) => {
                format!("[\"addr\",\"{:?}\",{}]", k, self.place(p))
            },
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let o = arr(o);
                match k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        format!("[\"agg\",\"array\",{},0,{}]", t, o)
                    },
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",0,0,{}]", o),
                    AggregateKind::Adt(d, v, a, _, _) => {
                        let t = self.ty(d.ty_with_args(a));
                        format!("[\"agg\",\"adt\",{},{},{}]", t, v.to_index(), o)
                    },
                    AggregateKind::Closure(d, a) => {
                        let t = self.ty(Ty::new_closure(*d, a.clone()));
                        format!("[\"agg\",\"closure\",{},0,{}]", t, o)
                    },
                    AggregateKind::RawPtr(t, _) => {
                        let t = self.ty(*t);
                        format!("[\"agg\",\"rawptr\",{},0,{}]", t, o)
                    },
                    _ => format!("[\"agg\",\"other\",0,0,{}]", o),
                }
            },
            Rvalue::BinaryOp(op, a, b) => {
                format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b))
            },
            Rvalue::CheckedBinaryOp(op, a, b) => {
                format!("[\"chk\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b))
            },
            Rvalue::Cast(k, o, t) => {
                let o2 = self.operand(o);
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), o2, t)
            },
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => {
                format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p))
            },
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"use\",[\"c\",{}]]", self.place(p)).replace("RB", if *m == Mutability::Mut { "m" } else { "s" })
            },
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(o),
                n.eval_target_usize().unwrap_or(u64::MAX)
            ),
            Rvalue::ThreadLocalRef(i) => format!("[\"tls\",{}]", esc(&i.name())),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
        }
    }

    fn stmt(&mut self, s: &Statement) -> Option<String> {
        let sp = self.span(&s.source_info.span);
        match &s.kind {
            StatementKind::Assign(p, r) => {
                let p = self.place(p);
                let r = self.rvalue(r);
                Some(format!("[\"=\",{},{},{}]", p, r, sp))
            },
            StatementKind::SetDiscriminant { place, variant_index } => {
                Some(format!("[\"sd\",{},{},{}]", self.place(place), variant_index.to_index(), sp))
            },
            StatementKind::StorageLive(l) => Some(format!("[\"sl\",{}]", l)),
            StatementKind::StorageDead(l) => Some(format!("[\"sx\",{}]", l)),
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                Some(format!("[\"assume\",{},{}]", self.operand(o), sp))
            },
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => Some(format!(
                "[\"cno\",{},{},{},{}]",
                self.operand(&c.src),
                self.operand(&c.dst),
                self.operand(&c.count),
                sp
            )),
            _ => None,
        }
    }

    fn term(&mut self, t: &Terminator) -> String {
        let sp = self.span(&t.source_info.span);
        let uw = |u: &UnwindAction| match u {
            UnwindAction::Cleanup(b) => format!("{}", b),
            _ => "-1".into(),
        };
        match &t.kind {
            TerminatorKind::Goto { target } => format!("[\"goto\",{},{}]", target, sp),
            TerminatorKind::SwitchInt { discr, targets } => {
                let d = self.operand(discr);
                let b: Vec<String> =
                    targets.branches().map(|(v, t)| format!("[\"{}\",{}]", v, t)).collect();
                format!("[\"switch\",{},{},{},{}]", d, arr(b), targets.otherwise(), sp)
            },
            TerminatorKind::Resume => format!("[\"resume\",{}]", sp),
            TerminatorKind::Abort => format!("[\"abort\",{}]", sp),
            TerminatorKind::Return => format!("[\"ret\",{}]", sp),
            TerminatorKind::Unreachable => format!("[\"unreach\",{}]", sp),
            TerminatorKind::Drop { place, target, .. } => {
                let p = self.place(place);
                format!("[\"drop\",{},{},{}]", p, target, sp)
            },
            TerminatorKind::Call { func, args, destination, target, unwind } => {
                let f = match func {
                    Operand::Constant(c) => {
                        let t = c.ty();
                        match t.kind().rigid() {
                            Some(RigidTy::FnDef(..)) => {
                                format!("[\"s\",{}]", self.ty(t))
                            },
                            _ => format!("[\"d\",{}]", self.operand(func)),
                        }
                    },
                    _ => format!("[\"d\",{}]", self.operand(func)),
                };
                let a: Vec<String> = args.iter().map(|a| self.operand(a)).collect();
                let d = self.place(destination);
                format!(
                    "[\"call\",{},{},{},{},{},{}]",
                    f,
                    arr(a),
                    d,
                    target.map(|t| t as i64).unwrap_or(-1),
                    uw(unwind),
                    sp
                )
            },
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let c = self.operand(cond);
                let (m, ops) = match msg {
                    AssertMessage::BoundsCheck { len, index } => {
                        ("bounds".to_string(), vec![self.operand(len), self.operand(index)])
                    },
                    AssertMessage::Overflow(op, a, b) => {
                        (format!("overflow {:?}", op), vec![self.operand(a), self.operand(b)])
                    },
                    AssertMessage::OverflowNeg(a) => ("overflow Neg".into(), vec![self.operand(a)]),
                    AssertMessage::DivisionByZero(a) => ("div by zero".into(), vec![self.operand(a)]),
                    AssertMessage::RemainderByZero(a) => ("rem by zero".into(), vec![self.operand(a)]),
                    other => (format!("{:?}", other).chars().take(40).collect(), vec![]),
                };
                format!("[\"assert\",{},{},{},{},{},{}]", c, expected, esc(&m), arr(ops), target, sp)
            },
            TerminatorKind::InlineAsm { .. } => format!("[\"asm\",{}]", sp),
        }
    }

    fn func(&mut self, id: usize) {
        let i = self.insts[id];
        let name = i.name();
        let def = i.def.name();
        let krate = i.def.krate().name;
        let args = i.args();
        let ga = self.args(&args);
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
            _ => "other",
        };
        let mut head = format!(
            "\"name\":{},\"def\":{},\"crate\":{},\"kind\":\"{}\",\"ga\":{}",
            esc(&name),
            esc(&def),
            esc(&krate),
            kind,
            ga
        );
        if let Some(n) = i.intrinsic_name() {
            let _ = write!(head, ",\"intr\":{}", esc(&n));
        }
        if i.is_empty_shim() {
            head.push_str(",\"empty\":true");
        }
        let stop = std::env::var("HLL_STOP").unwrap_or_default();
        let stopped = stop.split(',').any(|s| !s.is_empty() && def.starts_with(s));
        if stopped || !i.has_body() {
            self.fns.insert(id, format!("{{{},\"body\":null}}", head));
            return;
        }
        let b = match i.body() {
            Some(b) => b,
            None => {
                self.fns.insert(id, format!("{{{},\"body\":null}}", head));
                return;
            },
        };
        let locals: Vec<String> = b.locals().iter().map(|l| format!("{}", self.ty(l.ty))).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pl = self.place(p);
                names.push(format!("[{},{}]", esc(&v.name), pl));
            }
        }
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut ss = vec![];
            for s in &bb.statements {
                if let Some(x) = self.stmt(s) {
                    ss.push(x);
                }
            }
            let t = self.term(&bb.terminator);
            blocks.push(format!("[{},{}]", arr(ss), t));
        }
        let sp = self.span(&b.span);
        let s = format!(
            "{{{},\"argc\":{},\"locals\":{},\"spread\":{},\"vars\":{},\"span\":{},\"body\":{}}}",
            head,
            b.arg_locals().len(),
            arr(locals),
            b.spread_arg().map(|x| x as i64).unwrap_or(-1),
            arr(names),
            sp,
            arr(blocks)
        );
        self.fns.insert(id, s);
    }

    fn write(&self, roots: &[(String, usize)], crates: &[String]) -> String {
        let mut o = String::new();
        o.push_str("{\"crates\":");
        o.push_str(&arr(crates.iter().map(|c| esc(c))));
        o.push_str(",\n\"types\":[\n");
        o.push_str(&self.types.join(",\n"));
        o.push_str("],\n\"files\":");
        o.push_str(&arr(self.files.iter().map(|f| esc(f))));
        o.push_str(",\n\"roots\":{");
        o.push_str(
            &roots
                .iter()
                .map(|(n, i)| format!("{}:{}", esc(n), i))
                .collect::<Vec<_>>()
                .join(","),
        );
        o.push_str("},\n\"allocs\":{\n");
        o.push_str(
            &self
                .allocs
                .iter()
                .map(|(n, i)| format!("\"{}\":{}", n, i))
                .collect::<Vec<_>>()
                .join(",\n"),
        );
        o.push_str("},\n\"fns\":{\n");
        o.push_str(
            &self
                .fns
                .iter()
                .map(|(n, i)| format!("\"{}\":{}", n, i))
                .collect::<Vec<_>>()
                .join(",\n"),
        );
        o.push_str("}}\n");
        o
    }
}

use rustc_public_bridge::IndexedVal;

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let want = std::env::var("HLL_DUMP_CRATE").unwrap_or_default();
        let out = std::env::var("HLL_DUMP_OUT").unwrap_or_default();
        let me = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        if me == want && !out.is_empty() {
            // the crates that the library under analysis is linked with
            let crates: Vec<String> = tcx.crates(()).iter().map(|c| tcx.crate_name(*c).to_string()).collect();
            let r = rustc_internal::run(tcx, || {
                let mut d = Dump::new();
                let mut roots = vec![];
                for f in rustc_public::local_crate().fn_defs() {
                    let n = f.trimmed_name();
                    if let Some(i) = n.rfind("model_") {
                        d.models.insert(n[i..].to_string(), f);
                    }
                }
                for f in rustc_public::local_crate().fn_defs() {
                    let n = f.trimmed_name();
                    if n.starts_with("root_") {
                        if let Ok(i) = Instance::resolve(f, &GenericArgs(vec![])) {
                            let id = d.inst(i);
                            roots.push((n, id));
                        }
                    }
                }
                while let Some(id) = d.queue.pop_front() {
                    d.func(id);
                }
                std::fs::write(&out, d.write(&roots, &crates)).unwrap();
                eprintln!("hll-mirdump: {} roots, {} instances, {} types", roots.len(), d.insts.len(), d.types.len());
            });
            if let Err(e) = r {
                eprintln!("hll-mirdump: error {:?}", e);
                std::process::exit(101);
            }
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WRAPPER: argv[1] is the path of the real rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let code = rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
