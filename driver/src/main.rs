//! MIR exporter: runs as the compiler for one crate (the `roots` harness crate)
//! and dumps the *monomorphised MIR* of every function of the crates under
//! verification (and everything reachable from them) as JSON lines.
//!
//! Nothing is rewritten: each line is a direct transcription of the MIR which
//! rustc builds from /repo's current source.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
use rustc_public_bridge::IndexedVal;

use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;
use std::ops::ControlFlow;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<T>(it: impl IntoIterator<Item = T>, mut f: impl FnMut(T) -> String) -> String {
    let mut o = String::from("[");
    let mut first = true;
    for x in it {
        if !first {
            o.push(',');
        }
        first = false;
        o.push_str(&f(x));
    }
    o.push(']');
    o
}

struct Dump {
    tys: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    inst: HashMap<Instance, usize>,
    queue: VecDeque<Instance>,
    out: std::io::BufWriter<std::fs::File>,
    stop: Vec<String>,
}

impl Dump {
    fn inst_id(&mut self, i: Instance) -> usize {
        if let Some(&x) = self.inst.get(&i) {
            return x;
        }
        let id = self.inst.len();
        self.inst.insert(i, id);
        self.queue.push_back(i);
        id
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&x) = self.tys.get(&t) {
            return x;
        }
        let id = self.ty_out.len();
        self.tys.insert(t, id);
        self.ty_out.push(String::new());
        let s = self.ty_json(t, id);
        self.ty_out[id] = s;
        id
    }

    fn gargs(&mut self, a: &GenericArgs) -> String {
        let v: Vec<_> = a.0.clone();
        list(v, |g| match g {
            GenericArgKind::Lifetime(_) => "null".into(),
            GenericArgKind::Type(t) => format!("{}", self.ty(t)),
            GenericArgKind::Const(c) => format!("{{\"c\":{}}}", Self::tyconst(&c)),
        })
    }

    fn tyconst(c: &TyConst) -> String {
        match c.kind() {
            TyConstKind::Value(_, al) => match al.read_uint() {
                Ok(v) => format!("\"{}\"", v),
                Err(_) => "null".into(),
            },
            _ => match c.eval_target_usize() {
                Ok(v) => format!("\"{}\"", v),
                Err(_) => "null".into(),
            },
        }
    }

    fn ty_json(&mut self, t: Ty, id: usize) -> String {
        let k = t.kind();
        let disp = esc(&format!("{}", t));
        let body = match &k {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".into(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"b\":{}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!(
                    "\"k\":\"uint\",\"b\":{},\"size\":{}",
                    i.num_bytes() * 8,
                    matches!(i, UintTy::Usize)
                ),
                RigidTy::Float(_) => "\"k\":\"float\"".into(),
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().unwrap_or(u64::MAX);
                    format!("\"k\":\"array\",\"e\":{},\"n\":{}", self.ty(*e), n)
                }
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(*e)),
                RigidTy::RawPtr(e, m) => format!(
                    "\"k\":\"ptr\",\"e\":{},\"m\":{}",
                    self.ty(*e),
                    matches!(m, Mutability::Mut)
                ),
                RigidTy::Ref(_, e, m) => format!(
                    "\"k\":\"ref\",\"e\":{},\"m\":{}",
                    self.ty(*e),
                    matches!(m, Mutability::Mut)
                ),
                RigidTy::Tuple(ts) => {
                    let ts = ts.clone();
                    format!("\"k\":\"tuple\",\"f\":{}", list(ts, |x| self.ty(x).to_string()))
                }
                RigidTy::FnDef(d, a) => {
                    format!("\"k\":\"fndef\",\"n\":{},\"a\":{}", esc(&d.name()), self.gargs(a))
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Closure(d, a) => {
                    // upvar types: last generic arg is the tuple of upvars
                    let up = a.0.last().and_then(|g| g.ty().copied());
                    let upf = match up.map(|u| u.kind()) {
                        Some(TyKind::RigidTy(RigidTy::Tuple(ts))) => {
                            list(ts, |x| self.ty(x).to_string())
                        }
                        _ => "[]".into(),
                    };
                    format!("\"k\":\"closure\",\"n\":{},\"f\":{}", esc(&d.name()), upf)
                }
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".into(),
                RigidTy::Adt(d, a) => {
                    let kind = match d.kind() {
                        AdtKind::Struct => "struct",
                        AdtKind::Enum => "enum",
                        AdtKind::Union => "union",
                    };
                    let mut vs = String::from("[");
                    for (i, v) in d.variants().into_iter().enumerate() {
                        if i > 0 {
                            vs.push(',');
                        }
                        let fs = v.fields();
                        let mut fl = Vec::new();
                        for f in fs {
                            let ft = f.ty_with_args(a);
                            fl.push((f.name.clone(), ft));
                        }
                        let fj = list(fl, |(n, t)| format!("[{},{}]", esc(&n), self.ty(t)));
                        let dv = if kind == "enum" {
                            d.discriminant_for_variant(v.idx()).val.to_string()
                        } else {
                            "0".into()
                        };
                        let _ = write!(
                            vs,
                            "{{\"n\":{},\"d\":\"{}\",\"f\":{}}}",
                            esc(&v.name()),
                            dv,
                            fj
                        );
                    }
                    vs.push(']');
                    format!(
                        "\"k\":\"adt\",\"kind\":\"{}\",\"n\":{},\"a\":{},\"v\":{}",
                        kind,
                        esc(&d.name()),
                        self.gargs(a),
                        vs
                    )
                }
                other => format!("\"k\":\"other\",\"d\":{}", esc(&format!("{:?}", other))),
            },
            other => format!("\"k\":\"nonrigid\",\"d\":{}", esc(&format!("{:?}", other))),
        };
        format!("{{\"T\":{},{},\"s\":{}}}", id, body, disp)
    }

    // ---------- constants ----------
    fn uint_at(al: &Allocation, off: usize, n: usize) -> Option<u128> {
        al.read_partial_uint(off..off + n).ok()
    }

    fn prov_at(al: &Allocation, off: usize) -> Option<rustc_public::mir::alloc::AllocId> {
        al.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0)
    }

    fn val(&mut self, al: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        if depth > 40 {
            return "{\"x\":\"depth\"}".into();
        }
        let k = t.kind();
        let TyKind::RigidTy(r) = &k else { return "{\"x\":\"nonrigid\"}".into() };
        match r {
            RigidTy::Bool => format!("{}", Self::uint_at(al, off, 1) == Some(1)),
            RigidTy::Char => match Self::uint_at(al, off, 4) {
                Some(v) => format!("\"{}\"", v),
                None => "{\"x\":\"uninit\"}".into(),
            },
            RigidTy::Uint(u) => match Self::uint_at(al, off, u.num_bytes()) {
                Some(v) => format!("\"{}\"", v),
                None => "{\"x\":\"uninit\"}".into(),
            },
            RigidTy::Int(u) => match Self::uint_at(al, off, u.num_bytes()) {
                Some(v) => {
                    let n = u.num_bytes() * 8;
                    let s = if n == 128 {
                        v as i128
                    } else if v >> (n - 1) & 1 == 1 {
                        v as i128 - (1i128 << n)
                    } else {
                        v as i128
                    };
                    format!("\"{}\"", s)
                }
                None => "{\"x\":\"uninit\"}".into(),
            },
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0);
                let sz = match e.layout() {
                    Ok(l) => l.shape().size.bytes(),
                    Err(_) => return "{\"x\":\"layout\"}".into(),
                };
                let e = *e;
                let items = list(0..n as usize, |i| self.val(al, off + i * sz, e, depth + 1));
                format!("{{\"arr\":{}}}", items)
            }
            RigidTy::Tuple(ts) => {
                if ts.is_empty() {
                    return "{\"tup\":[]}".into();
                }
                let Ok(l) = t.layout() else { return "{\"x\":\"layout\"}".into() };
                let sh = l.shape();
                let FieldsShape::Arbitrary { offsets } = sh.fields else {
                    return "{\"x\":\"fields\"}".into();
                };
                let fs: Vec<(usize, Ty)> =
                    offsets.iter().map(|o| o.bytes()).zip(ts.iter().copied()).collect();
                format!(
                    "{{\"tup\":{}}}",
                    list(fs, |(o, ft)| self.val(al, off + o, ft, depth + 1))
                )
            }
            RigidTy::Adt(d, a) => {
                let Ok(l) = t.layout() else { return "{\"x\":\"layout\"}".into() };
                let sh = l.shape();
                let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                    VariantsShape::Empty => return "{\"x\":\"empty\"}".into(),
                    VariantsShape::Single { index } => {
                        let FieldsShape::Arbitrary { offsets } = &sh.fields else {
                            if d.kind() == AdtKind::Union {
                                return "{\"x\":\"union\"}".into();
                            }
                            return "{\"x\":\"fields\"}".into();
                        };
                        (index.to_index(), offsets.iter().map(|o| o.bytes()).collect())
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let FieldsShape::Arbitrary { offsets } = &sh.fields else {
                            return "{\"x\":\"fields\"}".into();
                        };
                        let toff = offsets[*tag_field].bytes();
                        let prim = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } => *value,
                            rustc_public::abi::Scalar::Union { value } => *value,
                        };
                        let tsz = prim.size(&rustc_public::target::MachineInfo::target()).bytes();
                        let is_ptr = Self::prov_at(al, off + toff).is_some();
                        let tagv = Self::uint_at(al, off + toff, tsz);
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let Some(tv) = tagv else { return "{\"x\":\"uninit\"}".into() };
                                let mut f = None;
                                for v in d.variants() {
                                    let dv = d.discriminant_for_variant(v.idx()).val;
                                    let mask = if tsz == 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    if dv & mask == tv {
                                        f = Some(v.idx().to_index());
                                    }
                                }
                                match f {
                                    Some(x) => x,
                                    None => return "{\"x\":\"tag\"}".into(),
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let u = untagged_variant.to_index();
                                if is_ptr {
                                    u
                                } else {
                                    let Some(tv) = tagv else { return "{\"x\":\"uninit\"}".into() };
                                    let mask = if tsz == 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    let rel = tv.wrapping_sub(*niche_start) & mask;
                                    let lo = niche_variants.start().to_index();
                                    let hi = niche_variants.end().to_index();
                                    if rel <= (hi - lo) as u128 {
                                        lo + rel as usize
                                    } else {
                                        u
                                    }
                                }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                    }
                };
                let v = d.variants().into_iter().nth(vi).unwrap();
                let fs: Vec<(usize, Ty)> = offs
                    .into_iter()
                    .zip(v.fields().iter().map(|f| f.ty_with_args(a)).collect::<Vec<_>>())
                    .collect();
                format!(
                    "{{\"adt\":{},\"f\":{}}}",
                    vi,
                    list(fs, |(o, ft)| self.val(al, off + o, ft, depth + 1))
                )
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let Some(p) = Self::prov_at(al, off) else {
                    return match Self::uint_at(al, off, 8) {
                        Some(v) => format!("{{\"addr\":\"{}\"}}", v),
                        None => "{\"x\":\"uninit\"}".into(),
                    };
                };
                let base = Self::uint_at(al, off, 8).unwrap_or(0) as usize;
                match GlobalAlloc::from(p) {
                    GlobalAlloc::Memory(m) => match e.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let len = Self::uint_at(al, off + 8, 8).unwrap_or(0) as usize;
                            let bytes: Vec<u8> = m.bytes[base..base + len]
                                .iter()
                                .map(|b| b.unwrap_or(0))
                                .collect();
                            format!("{{\"str\":{}}}", list(bytes, |b| b.to_string()))
                        }
                        TyKind::RigidTy(RigidTy::Slice(et)) => {
                            let len = Self::uint_at(al, off + 8, 8).unwrap_or(0) as usize;
                            let sz = match et.layout() {
                                Ok(l) => l.shape().size.bytes(),
                                Err(_) => return "{\"x\":\"layout\"}".into(),
                            };
                            format!(
                                "{{\"ref\":{{\"arr\":{}}}}}",
                                list(0..len, |i| self.val(&m, base + i * sz, et, depth + 1))
                            )
                        }
                        TyKind::RigidTy(RigidTy::Dynamic(..)) => "{\"x\":\"dyn\"}".into(),
                        _ => {
                            if m.bytes.is_empty() {
                                format!("{{\"ref\":{}}}", self.val(&m, 0, *e, depth + 1))
                            } else {
                                format!("{{\"ref\":{}}}", self.val(&m, base, *e, depth + 1))
                            }
                        }
                    },
                    GlobalAlloc::Static(s) => match s.eval_initializer() {
                        Ok(m) => format!("{{\"ref\":{}}}", self.val(&m, base, *e, depth + 1)),
                        Err(_) => "{\"x\":\"static\"}".into(),
                    },
                    _ => "{\"x\":\"alloc\"}".into(),
                }
            }
            RigidTy::FnPtr(_) => match Self::prov_at(al, off).map(GlobalAlloc::from) {
                Some(GlobalAlloc::Function(i)) => {
                    let id = self.inst_id(i);
                    format!("{{\"fnptr\":{}}}", id)
                }
                _ => "{\"x\":\"fnptr\"}".into(),
            },
            RigidTy::FnDef(d, a) => self.fnref(*d, a),
            RigidTy::Closure(..) => "{\"adt\":0,\"f\":[]}".into(),
            _ => "{\"x\":\"kind\"}".into(),
        }
    }

    fn fnref(&mut self, d: FnDef, a: &GenericArgs) -> String {
        match Instance::resolve(d, a) {
            Ok(i) => {
                let id = self.inst_id(i);
                format!("{{\"fn\":{}}}", id)
            }
            Err(_) => format!("{{\"x\":{}}}", esc(&format!("unresolved {}", d.name()))),
        }
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        let v = match c.kind() {
            ConstantKind::Allocated(al) => self.val(al, 0, t, 0),
            ConstantKind::ZeroSized => match t.kind() {
                TyKind::RigidTy(RigidTy::FnDef(d, a)) => self.fnref(d, &a),
                TyKind::RigidTy(RigidTy::Tuple(_)) => "{\"tup\":[]}".into(),
                TyKind::RigidTy(RigidTy::Array(..)) => {
                    let al = Allocation {
                        bytes: vec![],
                        provenance: ProvenanceMap { ptrs: vec![] },
                        align: 1,
                        mutability: Mutability::Not,
                    };
                    self.val(&al, 0, t, 0)
                }
                TyKind::RigidTy(RigidTy::Adt(..)) => {
                    let al = Allocation {
                        bytes: vec![],
                        provenance: ProvenanceMap { ptrs: vec![] },
                        align: 1,
                        mutability: Mutability::Not,
                    };
                    self.val(&al, 0, t, 0)
                }
                TyKind::RigidTy(RigidTy::Closure(..)) => "{\"adt\":0,\"f\":[]}".into(),
                _ => "{\"x\":\"zst\"}".into(),
            },
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t2, al) => {
                    let t2 = *t2;
                    self.val(al, 0, t2, 0)
                }
                TyConstKind::ZSTValue(t2) => {
                    if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = t2.kind() {
                        self.fnref(d, &a)
                    } else {
                        "{\"tup\":[]}".into()
                    }
                }
                _ => "{\"x\":\"tyconst\"}".into(),
            },
            other => format!("{{\"x\":{}}}", esc(&format!("{:?}", other))),
        };
        format!("{{\"t\":{},\"v\":{}}}", tid, v)
    }

    // ---------- bodies ----------
    fn place(&mut self, p: &Place) -> String {
        if p.projection.is_empty() {
            return format!("[{}]", p.local);
        }
        let pr = list(p.projection.clone(), |e| match e {
            ProjectionElem::Deref => "\"*\"".to_string(),
            ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(t)),
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
            }
            ProjectionElem::Subslice { from, to, from_end } => {
                format!("[\"ss\",{},{},{}]", from, to, from_end)
            }
            ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
            ProjectionElem::OpaqueCast(_) => "[\"oc\"]".to_string(),
        });
        format!("[{},{}]", p.local, pr)
    }

    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.konst(&c.const_)),
            Operand::RuntimeChecks(_) => "{\"rc\":false}".into(),
        }
    }

    fn rv(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p)),
            Rvalue::Ref(_, bk, p) => format!(
                "[\"ref\",{},{}]",
                matches!(bk, BorrowKind::Mut { .. }),
                self.place(p)
            ),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p)),
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::BinaryOp(b, x, y) => format!(
                "[\"bin\",\"{:?}\",{},{},{}]",
                b,
                self.op(x),
                self.op(y),
                x.ty(locals).map(|t| self.ty(t)).unwrap_or(0)
            ),
            Rvalue::CheckedBinaryOp(b, x, y) => format!(
                "[\"cbin\",\"{:?}\",{},{},{}]",
                b,
                self.op(x),
                self.op(y),
                x.ty(locals).map(|t| self.ty(t)).unwrap_or(0)
            ),
            Rvalue::UnaryOp(u, x) => format!(
                "[\"un\",\"{:?}\",{},{}]",
                u,
                self.op(x),
                x.ty(locals).map(|t| self.ty(t)).unwrap_or(0)
            ),
            Rvalue::Cast(k, o, t) => {
                let st = o.ty(locals).map(|t| self.ty(t)).unwrap_or(0);
                format!(
                    "[\"cast\",{},{},{},{}]",
                    esc(&format!("{:?}", k)),
                    self.op(o),
                    st,
                    self.ty(*t)
                )
            }
            Rvalue::Discriminant(p) => format!(
                "[\"discr\",{},{}]",
                self.place(p),
                p.ty(locals).map(|t| self.ty(t)).unwrap_or(0)
            ),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!(
                "[\"rep\",{},{}]",
                self.op(o),
                n.eval_target_usize().unwrap_or(u64::MAX)
            ),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::Aggregate(k, ops) => {
                let fs = list(ops.iter(), |o| self.op(o));
                let kk = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, a, _, uf) => {
                        let t = d.ty_with_args(a);
                        format!(
                            "[\"adt\",{},{},{}]",
                            self.ty(t),
                            v.to_index(),
                            uf.map(|x| x.to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", kk, fs)
            }
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<LocalDecl> = b.locals().to_vec();
        let lt = list(locals.iter(), |l| self.ty(l.ty).to_string());
        let dbg = list(
            b.var_debug_info.iter().filter_map(|v| match &v.value {
                VarDebugInfoContents::Place(p) => Some((v.name.clone(), p.clone())),
                _ => None,
            }),
            |(n, p)| format!("[{},{}]", esc(&n), self.place(&p)),
        );
        let blocks = list(b.blocks.iter(), |bb| {
            let st = list(
                bb.statements.iter().filter(|s| {
                    !matches!(
                        s.kind,
                        StatementKind::FakeRead(..)
                            | StatementKind::PlaceMention(..)
                            | StatementKind::AscribeUserType { .. }
                            | StatementKind::Coverage(..)
                            | StatementKind::ConstEvalCounter
                            | StatementKind::StorageLive(_)
                            | StatementKind::StorageDead(_)
                            | StatementKind::Nop
                    )
                }),
                |s| match &s.kind {
                    StatementKind::Assign(p, r) => {
                        format!("[\"=\",{},{}]", self.place(p), self.rv(r, &locals))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index())
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(_)) => "[\"nop\"]".into(),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        format!("[\"cpy\",{},{},{}]", self.op(&c.src), self.op(&c.dst), self.op(&c.count))
                    }
                    _ => "[\"nop\"]".into(),
                },
            );
            let li = bb.terminator.source_info.span.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br = list(targets.branches(), |(v, t)| format!("[\"{}\",{}]", v, t));
                    let dt = discr.ty(&locals).map(|t| self.ty(t)).unwrap_or(0);
                    format!("[\"switch\",{},{},{},{}]", self.op(discr), br, targets.otherwise(), dt)
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(place), target)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func);
                    let a = list(args.iter(), |o| self.op(o));
                    let at = list(args.iter(), |o| {
                        o.ty(&locals).map(|t| self.ty(t)).unwrap_or(0).to_string()
                    });
                    format!(
                        "[\"call\",{},{},{},{},{},{}]",
                        f,
                        a,
                        self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into()),
                        at,
                        li
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg);
                    let m = m.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
                    format!("[\"assert\",{},{},{},{}]", self.op(cond), expected, esc(&m), target)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            format!("{{\"s\":{},\"t\":{}}}", st, t)
        });
        format!(
            "\"args\":{},\"spread\":{},\"locals\":{},\"dbg\":{},\"bb\":{}",
            b.arg_locals().len(),
            b.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()),
            lt,
            dbg,
            blocks
        )
    }

    fn emit(&mut self, i: Instance) {
        let id = self.inst[&i];
        let name = i.name();
        let fn_def_name;
        let (krate, file, line) = match i.ty().kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, _)) => {
                fn_def_name = d.name();
                let sp = d.span();
                (d.krate().name, sp.get_filename(), sp.get_lines().start_line)
            }
            TyKind::RigidTy(RigidTy::Closure(d, _)) => {
                fn_def_name = d.name();
                let sp = d.span();
                (d.krate().name, sp.get_filename(), sp.get_lines().start_line)
            }
            _ => {
                fn_def_name = name.clone();
                (String::new(), String::new(), 0)
            }
        };
        let (kind, extra) = match i.kind {
            InstanceKind::Item => ("item", String::new()),
            InstanceKind::Intrinsic => ("intrinsic", i.intrinsic_name().unwrap_or_default()),
            InstanceKind::LlvmIntrinsic => ("llvm", String::new()),
            InstanceKind::Virtual { idx } => ("virtual", idx.to_string()),
            InstanceKind::Shim => ("shim", String::new()),
        };
        let ga = {
            let a = i.args();
            self.gargs(&a)
        };
        let stopped = self.stop.iter().any(|s| krate == *s || (s.contains("::") && name.starts_with(s.as_str())));
        let body = if stopped || kind == "virtual" || kind == "intrinsic" || kind == "llvm" {
            None
        } else {
            i.body()
        };
        let sig = match i.ty().kind().fn_sig() {
            Some(s) => {
                let s = s.skip_binder();
                let ins = s.inputs().to_vec();
                let o = s.output();
                format!("\"sig\":[{},{}],", list(ins, |t| self.ty(t).to_string()), self.ty(o))
            }
            None => String::new(),
        };
        let b = match body {
            Some(b) => self.body(&b),
            None => "\"bb\":null".into(),
        };
        let line_s = format!(
            "{{\"F\":{},\"n\":{},\"d\":{},\"kind\":\"{}\",\"x\":{},\"crate\":{},\"file\":{},\"line\":{},\"ga\":{},{}{}}}\n",
            id, esc(&name), esc(&fn_def_name), kind, esc(&extra), esc(&krate), esc(&file), line, ga, sig, b
        );
        self.out.write_all(line_s.as_bytes()).unwrap();
    }
}

fn analyze(out: String, roots: Vec<String>, stop: Vec<String>) -> ControlFlow<()> {
    let f = std::fs::File::create(&out).expect("create out");
    let mut d = Dump {
        tys: HashMap::new(),
        ty_out: vec![],
        inst: HashMap::new(),
        queue: VecDeque::new(),
        out: std::io::BufWriter::new(f),
        stop,
    };
    let mut seen = HashSet::new();
    // Local roots.
    for it in rustc_public::all_local_items() {
        if matches!(it.kind(), rustc_public::ItemKind::Fn) {
            if let Ok(i) = Instance::try_from(it) {
                d.inst_id(i);
            }
        }
    }
    // Every non-generic function of the crates under verification.
    let mut crates = vec![];
    for r in &roots {
        crates.extend(rustc_public::find_crates(r));
    }
    for c in crates {
        for fd in c.fn_defs() {
            if !seen.insert(fd) {
                continue;
            }
            let mut generic = false;
            let mut g = Some(fd.generics_of());
            let mut parent_has = false;
            if let Some(gg) = &g {
                parent_has = gg.parent_count > 0;
            }
            while let Some(gg) = g {
                if gg.params.iter().any(|p| !matches!(p.kind, GenericParamDefKind::Lifetime)) {
                    generic = true;
                }
                g = None;
            }
            if parent_has || generic {
                // generic (or inside a generic impl / trait): reached through
                // the roots crate instead
                if generic {
                    continue;
                }
            }
            // identity args with lifetimes only
            let t = fd.ty();
            if let TyKind::RigidTy(RigidTy::FnDef(def, args)) = t.kind() {
                if args.0.iter().any(|a| !matches!(a, GenericArgKind::Lifetime(_))) {
                    continue;
                }
                if !def.has_body() {
                    continue;
                }
                if let Ok(i) = Instance::resolve(def, &args) {
                    d.inst_id(i);
                }
            }
        }
    }
    while let Some(i) = d.queue.pop_front() {
        d.emit(i);
    }
    let tys = std::mem::take(&mut d.ty_out);
    for t in tys {
        d.out.write_all(t.as_bytes()).unwrap();
        d.out.write_all(b"\n").unwrap();
    }
    d.out.write_all(b"{\"END\":true}\n").unwrap();
    d.out.flush().unwrap();
    ControlFlow::Continue(())
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER style invocation: argv[1] is the real rustc path
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let target = std::env::var("MIRX_CRATE").unwrap_or_default();
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let out = std::env::var("MIRX_OUT").unwrap_or_default();
    if name != target || out.is_empty() {
        // behave as plain rustc (with a parallel front end)
        if name.starts_with("openzeppelin") || name.starts_with("alloy") || name.starts_with("stylus") {
            args.push("-Zthreads=8".into());
        }
        let status = std::process::Command::new(std::env::var("MIRX_RUSTC").unwrap())
            .args(&args[1..])
            .status()
            .expect("rustc");
        std::process::exit(status.code().unwrap_or(1));
    }
    let roots = std::env::var("MIRX_ROOTS").unwrap_or_default();
    let stop = std::env::var("MIRX_STOP").unwrap_or_default();
    let split = |s: &str| s.split(',').filter(|x| !x.is_empty()).map(String::from).collect::<Vec<_>>();
    let (roots, stop) = (split(&roots), split(&stop));
    let r = rustc_public::run!(&args, || analyze(out.clone(), roots.clone(), stop.clone()));
    if r.is_err() {
        eprintln!("mirx: {:?}", r);
        std::process::exit(1);
    }
}
