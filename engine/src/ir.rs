//! Lowered form of the monomorphic MIR of one function instance, plus constant decoding.
use crate::term::*;
use crate::val::*;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape, Primitive, Scalar};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum P {
    Deref,
    F(u32),
    VF(u32, u32),
    Idx(usize),
    CI { off: u64, from_end: bool },
    Sub { from: u64, to: u64, from_end: bool, arr: bool },
    BoxRaw,
}
#[derive(Clone, Debug)]
pub struct Pl { pub local: usize, pub proj: Box<[P]>, pub ty: Ty }
#[derive(Clone, Debug)]
pub enum Opd { Copy(Pl), Move(Pl), Const(V, Ty) }
impl Opd {
    pub fn ty(&self) -> Ty { match self { Opd::Copy(p) | Opd::Move(p) => p.ty, Opd::Const(_, t) => *t } }
}
#[derive(Clone, Debug)]
pub enum Rv {
    Use(Opd),
    Ref(Pl),
    Agg(Vec<Opd>),
    Array(Vec<Opd>),
    Variant(u32, u32, Vec<Opd>), // variant index, number of variants
    Transparent(Opd),
    RawPtr(Opd, Opd, Ty),
    Repeat(Opd, u64),
    Bin(BinOp, Opd, Opd),
    Checked(BinOp, Opd, Opd),
    Un(UnOp, Opd),
    Discr(Pl),
    Len(Pl),
    Cast(CastKind, Opd, Ty),
    Unsup(String),
}
#[derive(Clone, Debug)]
pub enum St {
    Assign(Pl, Rv),
    SetDiscr(Pl, u32, u32),
    Dead(usize),
    Live(usize),
    Assume(Opd),
    Unsup(String),
}
pub enum Tm {
    Goto(usize),
    Switch(Opd, Vec<(i128, usize)>, usize),
    Return,
    Unreachable,
    Call { func: Callee, args: Vec<Opd>, dest: Pl, target: Option<usize> },
    Assert { cond: Opd, expected: bool, msg: String, target: usize, overflow: bool },
    Unsup(String),
}
pub enum Callee { Def(FnDef, GenericArgs), Val(Opd) }
pub struct Blk { pub st: Vec<St>, pub tm: Tm, pub span: Span }
pub struct Func {
    pub inst: Instance,
    pub name: String,
    pub nargs: usize,
    pub tys: Vec<Ty>,
    pub spread: Option<usize>,
    pub blocks: Vec<Blk>,
    /// per block: WTO path (positions through the nested components)
    pub wto: Vec<Vec<u32>>,
    /// krate of definition
    pub krate: String,
}

thread_local! {
    static FUNCS: std::cell::RefCell<HashMap<Instance, Option<&'static Func>>> = Default::default();
    static CONSTS: std::cell::RefCell<HashMap<(Ty, Vec<Option<u8>>, String), V>> = Default::default();
}

pub fn func(inst: Instance) -> Option<&'static Func> {
    if let Some(f) = FUNCS.with(|m| m.borrow().get(&inst).cloned()) { return f; }
    let r = inst.body().map(|b| {
        if let Ok(d) = std::env::var("MIRVAL_DUMP") { if inst.name().contains(&d) { let _ = b.dump(&mut std::io::stderr(), &inst.name()); } }
        &*Box::leak(Box::new(lower(inst, b)))
    });
    FUNCS.with(|m| m.borrow_mut().insert(inst, r));
    r
}

pub fn norm_name(n: &str) -> String {
    // strip generic arguments, keep `<A as B>::m` structure
    fn strip(s: &str) -> String {
        let b: Vec<char> = s.chars().collect();
        let mut out = String::new();
        let mut i = 0;
        while i < b.len() {
            if b[i] == '<' {
                // impl header at the start of a path segment?
                let at_start = out.is_empty() || out.ends_with(' ') || out.ends_with('(') || out.ends_with('&') || out.ends_with('[') || out.ends_with("*const ") || out.ends_with("*mut ");
                let mut d = 0; let mut j = i;
                while j < b.len() { if b[j] == '<' { d += 1 } else if b[j] == '>' && !(j > 0 && b[j - 1] == '-') { d -= 1; if d == 0 { break; } } j += 1; }
                let inner: String = b[i + 1..j.min(b.len())].iter().collect();
                if at_start {
                    // find top-level " as "
                    let mut depth = 0i32; let ic: Vec<char> = inner.chars().collect(); let mut pos = None;
                    for k in 0..ic.len() { match ic[k] { '<' | '(' | '[' => depth += 1, ')' | ']' => depth -= 1, '>' => if k == 0 || ic[k - 1] != '-' { depth -= 1 }, _ => {} }
                        if depth == 0 && ic[k..].starts_with(&[' ', 'a', 's', ' ']) { pos = Some(k); break; } }
                    match pos {
                        Some(k) => { let a: String = ic[..k].iter().collect(); let t: String = ic[k + 4..].iter().collect();
                            out.push_str(&format!("<{} as {}>", strip(&a), strip(&t))); }
                        None => { out.push_str(&format!("<{}>", strip(&inner))); }
                    }
                } else {
                    if out.ends_with("::") { out.pop(); out.pop(); }
                }
                i = j + 1;
            } else { out.push(b[i]); i += 1; }
        }
        out
    }
    let s = strip(n);
    // lifetimes
    let b: Vec<char> = s.chars().collect();
    let mut r = String::new(); let mut i = 0;
    while i < b.len() {
        if b[i] == '\'' && i + 1 < b.len() && (b[i + 1].is_alphabetic() || b[i + 1] == '_') {
            let mut j = i + 1; while j < b.len() && (b[j].is_alphanumeric() || b[j] == '_') { j += 1; }
            while j < b.len() && b[j] == ' ' { j += 1; }
            i = j;
        } else { r.push(b[i]); i += 1; }
    }
    for p in ["std::", "core::", "alloc::"] { r = r.replace(p, ""); }
    r
}

/// Types whose representation is that of their payload field.
pub fn transparent_field(ty: Ty) -> Option<usize> {
    if let TyKind::RigidTy(RigidTy::Adt(d, _)) = ty.kind() {
        let n = d.name();
        let k = n.rsplit("::").next().unwrap_or("").to_string();
        let std = n.starts_with("std::") || n.starts_with("core::") || n.starts_with("alloc::");
        if !std { return None; }
        return match k.as_str() {
            "ManuallyDrop" | "MaybeDangling" | "UnsafeCell" | "NonNull" | "Unique" | "BoxRaw" => Some(0),
            "MaybeUninit" => Some(1),
            _ => None,
        };
    }
    None
}
/// A struct whose only field is an array: its length and element type.
pub fn array_newtype(ty: Ty) -> Option<(u64, Ty)> {
    if let TyKind::RigidTy(RigidTy::Adt(d, a)) = ty.kind() { if d.kind() == AdtKind::Struct {
        let fs = d.variants()[0].fields();
        if fs.len() == 1 { if let TyKind::RigidTy(RigidTy::Array(t, n)) = fs[0].ty_with_args(&a).kind() { return n.eval_target_usize().ok().map(|n| (n, t)); } }
    } }
    None
}
pub fn is_box(ty: Ty) -> bool { matches!(ty.kind(), TyKind::RigidTy(RigidTy::Adt(d, _)) if d.is_box()) }
pub fn deref_ty(ty: Ty) -> Option<Ty> {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => Some(t),
        TyKind::RigidTy(RigidTy::Adt(d, a)) if d.is_box() => a.0[0].ty().cloned(),
        _ => None,
    }
}
fn lower_place(p: &Place, tys: &[Ty]) -> Pl {
    let mut ty = tys[p.local];
    let mut out = vec![];
    let mut down: Option<u32> = None;
    for e in &p.projection {
        match e {
            ProjectionElem::Deref => { out.push(P::Deref); ty = deref_ty(ty).unwrap_or(ty); }
            ProjectionElem::Field(i, fty) => {
                if let Some(v) = down.take() { out.push(P::VF(v, *i as u32)); }
                else if is_box(ty) { out.push(P::BoxRaw); }
                else if transparent_field(ty).is_some() { /* same representation */ }
                else { out.push(P::F(*i as u32)); }
                ty = *fty;
            }
            ProjectionElem::Index(l) => { out.push(P::Idx(*l)); ty = elem_ty(ty); }
            ProjectionElem::ConstantIndex { offset, from_end, .. } => { out.push(P::CI { off: *offset, from_end: *from_end }); ty = elem_ty(ty); }
            ProjectionElem::Subslice { from, to, from_end } => {
                let arr = ty.kind().is_array();
                out.push(P::Sub { from: *from, to: *to, from_end: *from_end, arr });
                if arr { let e = elem_ty(ty); if let TyKind::RigidTy(RigidTy::Array(_, n)) = ty.kind() { let n = n.eval_target_usize().unwrap_or(0);
                    let k = if *from_end { n - to - from } else { to - from }; if let Ok(t) = Ty::try_new_array(e, k) { ty = t; } } }
            }
            ProjectionElem::Downcast(v) => { down = Some(v.to_index() as u32); }
            ProjectionElem::OpaqueCast(t) => { ty = *t; }
        }
    }
    Pl { local: p.local, proj: out.into_boxed_slice(), ty }
}
pub fn elem_ty(ty: Ty) -> Ty {
    match ty.kind() { TyKind::RigidTy(RigidTy::Array(t, _)) | TyKind::RigidTy(RigidTy::Slice(t)) => t, _ => ty }
}
fn lower_op(o: &Operand, tys: &[Ty]) -> Opd {
    match o {
        Operand::Copy(p) => Opd::Copy(lower_place(p, tys)),
        Operand::Move(p) => Opd::Move(lower_place(p, tys)),
        Operand::Constant(k) => Opd::Const(lower_const(&k.const_), k.const_.ty()),
        Operand::RuntimeChecks(RuntimeChecks::OverflowChecks) => Opd::Const(V::T(TRUE), Ty::bool_ty()),
        Operand::RuntimeChecks(_) => Opd::Const(V::T(FALSE), Ty::bool_ty()),
    }
}
pub fn lower_const(k: &MirConst) -> V {
    match k.kind() {
        ConstantKind::Allocated(a) => decode(a, 0, k.ty()).unwrap_or_else(|e| V::Bad(Rc::new(format!("const: {}", e)))),
        ConstantKind::ZeroSized => zst(k.ty()),
        ConstantKind::Ty(t) => match t.kind() {
            TyConstKind::Value(ty, a) => decode(a, 0, *ty).unwrap_or_else(|e| V::Bad(Rc::new(format!("const: {}", e)))),
            TyConstKind::ZSTValue(ty) => zst(*ty),
            _ => match t.eval_target_usize() { Ok(v) => V::T(c(v as i128)), Err(_) => V::Bad(Rc::new("const generic".into())) },
        },
        _ => match k.eval_target_usize() { Ok(v) => V::T(c(v as i128)), Err(_) => V::Bad(Rc::new(format!("const {:?}", k.kind()))) },
    }
}
pub fn zst(ty: Ty) -> V {
    if transparent_field(ty).is_some() { return V::unit(); }
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Tuple(ts)) => V::Agg(Rc::new(ts.iter().map(|t| zst(*t)).collect())),
        TyKind::RigidTy(RigidTy::Array(_, n)) => { let n = n.eval_target_usize().unwrap_or(0);
            V::seq(vec![zst(elem_ty(ty)); n as usize]) }
        TyKind::RigidTy(RigidTy::Adt(d, a)) => match d.kind() {
            AdtKind::Struct => V::Agg(Rc::new(d.variants()[0].fields().iter().map(|f| zst(f.ty_with_args(&a))).collect())),
            AdtKind::Enum => { let nv = d.num_variants(); let idx = match ty.layout().map(|l| l.shape().variants) { Ok(VariantsShape::Single { index }) => index.to_index(), _ => 0 };
                let fs = d.variants()[idx].fields().iter().map(|f| zst(f.ty_with_args(&a))).collect();
                V::variant(idx as u32, nv as u32, fs) }
            _ => V::unit(),
        },
        _ => V::unit(),
    }
}
fn scalar_size(s: &Scalar) -> usize {
    let p = match s { Scalar::Initialized { value, .. } => value, Scalar::Union { value } => value };
    match p { Primitive::Int { length, .. } => length.bits() / 8, Primitive::Float { length } => length.bits() / 8, Primitive::Pointer(_) => 8 }
}
fn rd(a: &Allocation, off: usize, n: usize) -> Result<u128, String> {
    if n == 0 { return Ok(0); }
    let mut v: u128 = 0;
    for i in 0..n { match a.bytes.get(off + i) { Some(Some(b)) => v |= (*b as u128) << (8 * i), _ => return Err("uninit".into()) } }
    Ok(v)
}
fn prov(a: &Allocation, off: usize) -> Option<rustc_public::mir::alloc::AllocId> {
    a.provenance.ptrs.iter().find(|p| p.0 == off).map(|p| p.1.0)
}
thread_local! { static ALLOCS: std::cell::RefCell<HashMap<(rustc_public::mir::alloc::AllocId, Ty, usize, usize), Rc<V>>> = Default::default(); }
pub fn decode(a: &Allocation, off: usize, ty: Ty) -> Result<V, String> {
    if let Some(i) = transparent_field(ty) {
        if let TyKind::RigidTy(RigidTy::Adt(d, args)) = ty.kind() {
            let f = d.variants()[0].fields()[i].ty_with_args(&args);
            return decode(a, off, f).or(Ok(V::Undef));
        }
    }
    match ty.kind() {
        TyKind::RigidTy(k) => match k {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => { let n = size_of(ty); Ok(V::T(c(rd(a, off, n)? as i128))) }
            RigidTy::Int(_) => { let n = size_of(ty); Ok(V::T(c(wrap_val(rd(a, off, n)? as i128, (n * 8) as u8, true)))) }
            RigidTy::Float(_) => { let n = size_of(ty); let r = rd(a, off, n)?; Ok(V::T(c(if n == 4 { (f32::from_bits(r as u32) as f64).to_bits() as i128 } else { r as i128 }))) }
            RigidTy::Pat(t, _) => decode(a, off, t),
            RigidTy::Array(t, n) => { let n = n.eval_target_usize().map_err(|e| format!("{:?}", e))?; let sz = size_of(t);
                let mut v = Vec::with_capacity(n as usize);
                for i in 0..n as usize { v.push(decode(a, off + i * sz, t)?); }
                Ok(V::seq(v)) }
            RigidTy::Tuple(ts) => { let l = ty.layout().map_err(|e| format!("{:?}", e))?.shape(); let offs = offsets(&l.fields);
                let mut v = vec![]; for (i, t) in ts.iter().enumerate() { v.push(decode(a, off + offs[i], *t)?); } Ok(V::Agg(Rc::new(v))) }
            RigidTy::FnDef(..) | RigidTy::Closure(..) if size_of(ty) == 0 => Ok(zst(ty)),
            RigidTy::FnPtr(_) => match prov(a, off).map(GlobalAlloc::from) { Some(GlobalAlloc::Function(i)) => Ok(V::Fn(Rc::new(i))), _ => Err("fn ptr".into()) },
            RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) => decode_ptr(a, off, t),
            RigidTy::Adt(d, args) => {
                let l = ty.layout().map_err(|e| format!("{:?}", e))?.shape();
                match d.kind() {
                    AdtKind::Struct => {
                        if d.name().ends_with("string::String") || d.name().ends_with("vec::Vec") {
                            // only empty containers can occur in constants
                            return Ok(V::seq(vec![]));
                        }
                        let offs = offsets(&l.fields);
                        let mut v = vec![];
                        for (i, f) in d.variants()[0].fields().iter().enumerate() { v.push(decode(a, off + offs[i], f.ty_with_args(&args))?); }
                        Ok(V::Agg(Rc::new(v)))
                    }
                    AdtKind::Enum => {
                        let nv = d.num_variants();
                        let (idx, offs): (usize, Vec<usize>) = match &l.variants {
                            VariantsShape::Single { index } => (index.to_index(), offsets(&l.fields)),
                            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                                let toff = offsets(&l.fields)[*tag_field];
                                let n = scalar_size(tag);
                                let idx = match tag_encoding {
                                    TagEncoding::Direct => { let raw = rd(a, off + toff, n)?; let mask = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                        d.variants().iter().position(|v| d.discriminant_for_variant(v.idx()).val & mask == raw).ok_or("bad tag")? }
                                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                        if prov(a, off + toff).is_some() { untagged_variant.to_index() } else {
                                            let raw = rd(a, off + toff, n)?; let mask = if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
                                            let rel = raw.wrapping_sub(*niche_start) & mask;
                                            let cnt = (niche_variants.end().to_index() - niche_variants.start().to_index()) as u128;
                                            if rel <= cnt { niche_variants.start().to_index() + rel as usize } else { untagged_variant.to_index() } } }
                                };
                                (idx, variants[idx].offsets.iter().map(|o| o.bytes()).collect())
                            }
                            _ => return Err("empty enum".into()),
                        };
                        let mut v = vec![];
                        for (i, f) in d.variants()[idx].fields().iter().enumerate() { v.push(decode(a, off + offs[i], f.ty_with_args(&args))?); }
                        Ok(V::variant(idx as u32, nv as u32, v))
                    }
                    AdtKind::Union => Err(format!("union {}", d.name())),
                }
            }
            _ => if size_of(ty) == 0 { Ok(V::unit()) } else { Err(format!("decode {:?}", ty.kind())) },
        },
        _ => Err("decode: non-rigid".into()),
    }
}
fn offsets(f: &FieldsShape) -> Vec<usize> {
    match f { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
        FieldsShape::Array { stride, count } => (0..*count as usize).map(|i| i * stride.bytes()).collect(), _ => vec![0; 8] }
}
pub fn size_of(ty: Ty) -> usize { ty.layout().map(|l| l.shape().size.bytes()).unwrap_or(0) }
fn decode_ptr(a: &Allocation, off: usize, t: Ty) -> Result<V, String> {
    let addr = rd(a, off, 8)? as usize;
    let unsized_len = match t.kind() { TyKind::RigidTy(RigidTy::Str) | TyKind::RigidTy(RigidTy::Slice(_)) => Some(rd(a, off + 8, 8)? as usize), _ => None };
    let id = match prov(a, off) { Some(i) => i, None => {
        // dangling pointer to a zero-sized value
        let v = match t.kind() { TyKind::RigidTy(RigidTy::Str) | TyKind::RigidTy(RigidTy::Slice(_)) => V::seq(vec![]), _ => if size_of(t) == 0 { zst(t) } else { V::Undef } };
        return Ok(V::ptr(Ptr { root: Root::Val(Rc::new(v)), path: vec![], view: unsized_len.map(|n| (FALSE, c(n as i128))), dynty: None }));
    } };
    let key = (id, t, addr, unsized_len.unwrap_or(usize::MAX));
    let val = match ALLOCS.with(|m| m.borrow().get(&key).cloned()) { Some(v) => v, None => {
        let mem = match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(m) => m,
            GlobalAlloc::Static(s) => s.eval_initializer().map_err(|e| format!("{:?}", e))?,
            GlobalAlloc::Function(i) => return Ok(V::Fn(Rc::new(i))),
            _ => return Err("global alloc kind".into()),
        };
        let v = match t.kind() {
            TyKind::RigidTy(RigidTy::Str) => {
                let n = unsized_len.unwrap();
                let mut bs = vec![]; for i in 0..n { bs.push(rd(&mem, addr + i, 1)? as u8); }
                let s = String::from_utf8(bs).map_err(|_| "utf8")?;
                V::seq(s.chars().map(|ch| V::T(c(ch as u32 as i128))).collect())
            }
            TyKind::RigidTy(RigidTy::Slice(e)) => { let n = unsized_len.unwrap(); let sz = size_of(e); let mut v = vec![];
                for i in 0..n { v.push(decode(&mem, addr + i * sz, e)?); } V::seq(v) }
            _ => decode(&mem, addr, t)?,
        };
        let r = Rc::new(v);
        ALLOCS.with(|m| m.borrow_mut().insert(key, r.clone()));
        r
    } };
    let view = unsized_len.map(|_| (FALSE, val.seq_len().unwrap_or(FALSE)));
    Ok(V::ptr(Ptr { root: Root::Val(val), path: vec![], view, dynty: None }))
}

pub fn is_signed(ty: Ty) -> bool { matches!(ty.kind(), TyKind::RigidTy(RigidTy::Int(_))) }
pub fn int_bits(ty: Ty) -> Option<(u8, bool)> {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Int(i)) => Some(((i.num_bytes() * 8) as u8, true)),
        TyKind::RigidTy(RigidTy::Uint(i)) => Some(((i.num_bytes() * 8) as u8, false)),
        TyKind::RigidTy(RigidTy::Bool) => Some((8, false)),
        TyKind::RigidTy(RigidTy::Char) => Some((32, false)),
        _ => None,
    }
}
fn lower_rv(r: &Rvalue, tys: &[Ty]) -> Rv {
    let o = |x: &Operand| lower_op(x, tys);
    match r {
        Rvalue::Use(x, _) => Rv::Use(o(x)),
        Rvalue::CopyForDeref(p) => Rv::Use(Opd::Copy(lower_place(p, tys))),
        Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) | Rvalue::Reborrow(_, _, p) => Rv::Ref(lower_place(p, tys)),
        Rvalue::Aggregate(k, ops) => {
            let v: Vec<Opd> = ops.iter().map(o).collect();
            match k {
                AggregateKind::Array(_) => Rv::Array(v),
                AggregateKind::Tuple | AggregateKind::Closure(..) => Rv::Agg(v),
                AggregateKind::Adt(d, idx, args, _, active) => match d.kind() {
                    AdtKind::Enum => Rv::Variant(idx.to_index() as u32, d.num_variants() as u32, v),
                    AdtKind::Union => { let _ = active; if v.len() == 1 { Rv::Transparent(v.into_iter().next().unwrap()) } else { Rv::Unsup("union".into()) } }
                    AdtKind::Struct => {
                        let ty = d.ty_with_args(args);
                        if let Some(i) = transparent_field(ty) { Rv::Transparent(v.into_iter().nth(i).unwrap()) } else { Rv::Agg(v) }
                    }
                },
                AggregateKind::RawPtr(t, _) => { let mut it = v.into_iter(); let a = it.next().unwrap(); let b = it.next().unwrap(); Rv::RawPtr(a, b, *t) }
                _ => Rv::Unsup("coroutine".into()),
            }
        }
        Rvalue::BinaryOp(op, a, b) => Rv::Bin(*op, o(a), o(b)),
        Rvalue::CheckedBinaryOp(op, a, b) => Rv::Checked(*op, o(a), o(b)),
        Rvalue::UnaryOp(op, a) => Rv::Un(*op, o(a)),
        Rvalue::Discriminant(p) => Rv::Discr(lower_place(p, tys)),
        Rvalue::Len(p) => Rv::Len(lower_place(p, tys)),
        Rvalue::Repeat(x, n) => match n.eval_target_usize() { Ok(n) => Rv::Repeat(o(x), n), Err(_) => Rv::Unsup("repeat".into()) },
        Rvalue::Cast(k, x, t) => Rv::Cast(k.clone(), o(x), *t),
        Rvalue::ThreadLocalRef(_) => Rv::Unsup("thread local".into()),
    }
}
fn lower(inst: Instance, b: Body) -> Func {
    let tys: Vec<Ty> = b.locals().iter().map(|l| l.ty).collect();
    let mut blocks = vec![];
    for blk in &b.blocks {
        let mut st = vec![];
        for s in &blk.statements {
            match &s.kind {
                StatementKind::Assign(p, r) => st.push(St::Assign(lower_place(p, &tys), lower_rv(r, &tys))),
                StatementKind::SetDiscriminant { place, variant_index } => {
                    let p = lower_place(place, &tys);
                    let nv = match p.ty.kind() { TyKind::RigidTy(RigidTy::Adt(d, _)) => d.num_variants(), _ => 0 };
                    st.push(St::SetDiscr(p, variant_index.to_index() as u32, nv as u32)) }
                StatementKind::StorageDead(l) => st.push(St::Dead(*l)),
                StatementKind::StorageLive(l) => st.push(St::Live(*l)),
                StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => st.push(St::Assume(lower_op(o, &tys))),
                StatementKind::Intrinsic(_) => st.push(St::Unsup("copy_nonoverlapping".into())),
                _ => {}
            }
        }
        let tm = match &blk.terminator.kind {
            TerminatorKind::Goto { target } => Tm::Goto(*target),
            TerminatorKind::Drop { target, place, .. } => { 
                if place.projection.is_empty() { st.push(St::Dead(place.local)); }
                Tm::Goto(*target) }
            TerminatorKind::SwitchInt { discr, targets } => {
                let d = lower_op(discr, &tys);
                let ty = d.ty();
                let (bits, sg) = int_bits(ty).unwrap_or((64, false));
                Tm::Switch(d, targets.branches().map(|(v, t)| (if sg { wrap_val(v as i128, bits, true) } else { v as i128 }, t)).collect(), targets.otherwise())
            }
            TerminatorKind::Return => Tm::Return,
            TerminatorKind::Unreachable => Tm::Unreachable,
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let callee = match func {
                    Operand::Constant(k) => match k.const_.ty().kind() { TyKind::RigidTy(RigidTy::FnDef(d, a)) => Callee::Def(d, a), _ => Callee::Val(lower_op(func, &tys)) },
                    _ => { let o = lower_op(func, &tys); match o.ty().kind() { TyKind::RigidTy(RigidTy::FnDef(d, a)) => Callee::Def(d, a), _ => Callee::Val(o) } }
                };
                Tm::Call { func: callee, args: args.iter().map(|a| lower_op(a, &tys)).collect(), dest: lower_place(destination, &tys), target: *target }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let (m, ov) = match msg { AssertMessage::BoundsCheck { .. } => ("index out of bounds".to_string(), false),
                    AssertMessage::Overflow(..) | AssertMessage::OverflowNeg(_) => (msg.description().unwrap_or("arithmetic overflow").to_string(), true),
                    _ => (msg.description().map(|s| s.to_string()).unwrap_or_else(|_| "assertion".into()), false) };
                Tm::Assert { cond: lower_op(cond, &tys), expected: *expected, msg: m, target: *target, overflow: ov }
            }
            TerminatorKind::Resume | TerminatorKind::Abort => Tm::Unreachable,
            TerminatorKind::InlineAsm { .. } => Tm::Unsup("asm".into()),
        };
        blocks.push(Blk { st, tm, span: blk.terminator.source_info.span });
    }
    let succ: Vec<Vec<usize>> = blocks.iter().map(|b| match &b.tm {
        Tm::Goto(t) => vec![*t],
        Tm::Switch(_, v, o) => { let mut r: Vec<usize> = v.iter().map(|x| x.1).collect(); r.push(*o); r }
        Tm::Call { target: Some(t), .. } => vec![*t],
        Tm::Assert { target, .. } => vec![*target],
        _ => vec![],
    }).collect();
    let wto = wto(&succ);
    let name = inst.name();
    let krate = { let d = rustc_public::CrateItem::try_from(inst).map(|i| i.krate().name).unwrap_or_default(); d };
    Func { inst, name, nargs: b.arg_locals().len(), tys, spread: b.spread_arg(), blocks, wto, krate }
}

/// Weak topological order: for every block the path of positions through nested components.
fn wto(succ: &[Vec<usize>]) -> Vec<Vec<u32>> {
    let n = succ.len();
    let mut out = vec![vec![u32::MAX]; n];
    fn sccs(nodes: &[usize], inset: &dyn Fn(usize) -> bool, succ: &[Vec<usize>], entry_first: &[usize]) -> Vec<Vec<usize>> {
        // Tarjan, iterative; returns SCCs in topological order
        let n = succ.len();
        let mut index = vec![usize::MAX; n]; let mut low = vec![0; n]; let mut on = vec![false; n];
        let mut stack = vec![]; let mut res: Vec<Vec<usize>> = vec![]; let mut cnt = 0;
        let order: Vec<usize> = entry_first.iter().cloned().chain(nodes.iter().cloned()).collect();
        for &s in &order {
            if index[s] != usize::MAX || !inset(s) { continue; }
            let mut work: Vec<(usize, usize)> = vec![(s, 0)];
            while let Some((v, i)) = work.pop() {
                if i == 0 { index[v] = cnt; low[v] = cnt; cnt += 1; stack.push(v); on[v] = true; }
                let mut recurse = None;
                let mut j = i;
                while j < succ[v].len() {
                    let w = succ[v][j];
                    j += 1;
                    if !inset(w) { continue; }
                    if index[w] == usize::MAX { recurse = Some(w); break; }
                    else if on[w] { low[v] = low[v].min(index[w]); }
                }
                if let Some(w) = recurse { work.push((v, j)); work.push((w, 0)); continue; }
                if low[v] == index[v] { let mut comp = vec![]; loop { let w = stack.pop().unwrap(); on[w] = false; comp.push(w); if w == v { break; } } res.push(comp); }
                if let Some(&(u, _)) = work.last() { low[u] = low[u].min(low[v]); }
            }
        }
        res.reverse();
        res
    }
    fn go(nodes: Vec<usize>, head_removed: Option<usize>, succ: &[Vec<usize>], prefix: &[u32], out: &mut Vec<Vec<u32>>, entries: &[usize]) {
        let set: std::collections::HashSet<usize> = nodes.iter().cloned().filter(|x| Some(*x) != head_removed).collect();
        let inset = |x: usize| set.contains(&x);
        let ns: Vec<usize> = nodes.iter().cloned().filter(|x| Some(*x) != head_removed).collect();
        let cs = sccs(&ns, &inset, succ, entries);
        let mut pos = 1u32;
        for comp in cs {
            let mut path = prefix.to_vec();
            path.push(pos); pos += 1;
            let cyc = comp.len() > 1 || succ[comp[0]].contains(&comp[0]);
            if !cyc { out[comp[0]] = path; continue; }
            // head: a node entered from outside, else the lowest
            let cset: std::collections::HashSet<usize> = comp.iter().cloned().collect();
            let mut head = None;
            for u in 0..succ.len() { if cset.contains(&u) { continue; } for w in &succ[u] { if cset.contains(w) && (inset(u) || Some(u) == head_removed) { head = Some(head.map_or(*w, |h: usize| h.min(*w))); } } }
            if head.is_none() { for e in entries { if cset.contains(e) { head = Some(*e); } } }
            let h = head.unwrap_or(*comp.iter().min().unwrap());
            let mut hp = path.clone(); hp.push(0);
            out[h] = hp;
            let es: Vec<usize> = succ[h].clone();
            go(comp, Some(h), succ, &path, out, &es);
        }
    }
    // reachable nodes only
    let mut seen = vec![false; n]; let mut w = vec![0]; seen[0] = true;
    while let Some(v) = w.pop() { for &s in &succ[v] { if !seen[s] { seen[s] = true; w.push(s); } } }
    let nodes: Vec<usize> = (0..n).filter(|i| seen[*i]).collect();
    go(nodes, None, succ, &[], &mut out, &[0]);
    out
}
#[allow(unused)]
fn _unused(_: InstanceKind) {}
