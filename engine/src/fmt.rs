//! Abstract transfer functions for core::fmt.
use crate::interp::*;
use crate::ir::*;
use crate::n;
use crate::natives::*;
use crate::term::*;
use crate::val::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::rc::Rc;

#[derive(Clone, Copy, Default)]
pub struct Opts { pub flags: u32, pub width: Option<usize>, pub prec: Option<usize> }
impl Opts {
    fn fill(&self) -> char { let f = self.flags & 0x1f_ffff; if f == 0 { ' ' } else { char::from_u32(f).unwrap_or(' ') } }
    fn plus(&self) -> bool { self.flags >> 21 & 1 == 1 }
    fn alt(&self) -> bool { self.flags >> 23 & 1 == 1 }
    fn zero(&self) -> bool { self.flags >> 24 & 1 == 1 }
    fn align(&self) -> u32 { self.flags >> 29 & 3 }
    fn plain(&self) -> bool { self.width.is_none() && self.prec.is_none() && !self.plus() && !self.alt() }
    fn enc(&self) -> V { V::agg(vec![V::int((self.flags | (self.width.is_some() as u32) << 27 | (self.prec.is_some() as u32) << 28) as i128), V::int(self.width.unwrap_or(0) as i128), V::int(self.prec.unwrap_or(0) as i128)]) }
}
fn pad(s: String, o: &Opts, default_right: bool) -> String {
    let w = match o.width { Some(w) => w, None => return s };
    let n = s.chars().count();
    if n >= w { return s; }
    let k = w - n;
    let (l, r) = match o.align() { 0 => (0, k), 1 => (k, 0), 2 => (k / 2, k - k / 2), _ => if default_right { (k, 0) } else { (0, k) } };
    let f = o.fill();
    let mut out = String::new();
    for _ in 0..l { out.push(f); } out.push_str(&s); for _ in 0..r { out.push(f); }
    out
}
fn fmt_int(v: i128, kind: u8, bits: u8, o: &Opts) -> String {
    let mask = if bits >= 127 { i128::MAX } else { (1i128 << bits) - 1 };
    let (neg, body, pre) = match kind {
        2 => (false, format!("{:x}", v & mask), "0x"), 3 => (false, format!("{:X}", v & mask), "0x"),
        4 => (false, format!("{:b}", v & mask), "0b"), 5 => (false, format!("{:o}", v & mask), "0o"),
        _ => (v < 0, format!("{}", v.unsigned_abs()), ""),
    };
    let mut head = String::new();
    if neg { head.push('-'); } else if o.plus() { head.push('+'); }
    if o.alt() { head.push_str(pre); }
    if o.zero() { if let Some(w) = o.width { let n = head.len() + body.len(); if n < w { head.push_str(&"0".repeat(w - n)); } } return head + &body; }
    pad(head + &body, o, true)
}
fn fmt_float(bits: i128, is32: bool, o: &Opts, debug: bool) -> String {
    let x = f64::from_bits(bits as u64);
    let s = match (o.prec, debug) {
        (Some(p), _) => if is32 { format!("{:.*}", p, x as f32) } else { format!("{:.*}", p, x) },
        (None, true) => if is32 { format!("{:?}", x as f32) } else { format!("{:?}", x) },
        (None, false) => if is32 { format!("{}", x as f32) } else { format!("{}", x) },
    };
    let s = if o.plus() && !s.starts_with('-') { format!("+{}", s) } else { s };
    if o.zero() { if let Some(w) = o.width { if s.len() < w { let (sg, d) = if s.starts_with(['-', '+']) { s.split_at(1) } else { ("", &s[..]) }; return format!("{}{}{}", sg, "0".repeat(w - s.len()), d); } } return s; }
    pad(s, o, true)
}
/// text produced per leaf of a finite term, as a symbolic-length cell sequence
fn per_leaf(cx: &Cx, st: &State, t: T, cap: usize, f: &mut dyn FnMut(i128) -> String) -> R<Option<Seq>> {
    let t = cx.simp(st, t);
    let (t, ks) = match cx.cases(st, t) { Ok(x) => x, Err(E::Unsup(_)) => return Ok(None), Err(e) => return Err(e) };
    if ks.len() > cap || !t.pure_dd() { return Ok(None); }
    let m: std::collections::HashMap<i128, Vec<char>> = ks.iter().map(|k| (*k, f(*k).chars().collect())).collect();
    let maxl = m.values().map(|v| v.len()).max().unwrap_or(0);
    let mut el = vec![];
    for i in 0..maxl {
        let d = m.values().find_map(|v| v.get(i)).map(|x| *x as i128).unwrap_or(0);
        el.push(V::T(map_leaves(t, &mut |k| m.get(&k).and_then(|v| v.get(i)).map(|x| *x as i128).unwrap_or(d))));
    }
    let len = map_leaves(t, &mut |k| m.get(&k).map(|v| v.len() as i128).unwrap_or(0));
    Ok(Some(Seq { el, len }))
}
fn text(s: &str) -> Vec<V> { s.chars().map(|x| V::int(x as i128)).collect() }
fn emit(cx: &mut Cx, st: &mut State, sink: &Ptr, el: &[V], n: T) -> R<()> { mut_seq(cx, st, sink, |cx, st, s| append(cx, st, s, el, n)) }

pub fn pad_text(cx: &Cx, st: &State, s: &Seq, o: &Opts) -> R<Seq> {
    let mut s = Seq { el: s.el.clone(), len: cx.simp(st, s.len) };
    if let Some(p) = o.prec { no_tokens(&s)?; let n = cx.need(st, s.len)? as usize; if n > p { s.el.truncate(p); s.len = c(p as i128); } }
    if let Some(w) = o.width {
        no_tokens(&s)?; let n = cx.need(st, s.len)? as usize;
        if n < w { let k = w - n; let (l, r) = match o.align() { 1 => (k, 0), 2 => (k / 2, k - k / 2), _ => (0, k) };
            let f = V::int(o.fill() as i128);
            let mut el = vec![f.clone(); l]; el.extend_from_slice(&s.el[..n]); el.extend(vec![f; r]);
            s = Seq { len: c(el.len() as i128), el }; }
    }
    Ok(s)
}
/// kind: 0 Display 1 Debug 2 x 3 X 4 b 5 o
pub fn display(cx: &mut Cx, st: &mut State, kind: u8, ty: Ty, p: &V, o: Opts, sink: &Ptr) -> R<()> {
    match ty.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) => {
            let q = cx.deref(st, p)?;
            let v = cx.read(st, &q)?;
            return display(cx, st, kind, t, &v, o, sink);
        }
        TyKind::RigidTy(RigidTy::Str) if kind == 0 => { let s = seq_at(cx, st, p)?; let s = pad_text(cx, st, &s, &o)?; return emit(cx, st, sink, &s.el, s.len); }
        TyKind::RigidTy(RigidTy::Adt(d, a)) => {
            let n = norm_name(&d.name());
            if n == "string::String" && kind == 0 { let s = seq_at(cx, st, p)?; let s = pad_text(cx, st, &s, &o)?; return emit(cx, st, sink, &s.el, s.len); }
            if n == "fmt::Arguments" { let q = cx.deref(st, p)?; let v = cx.read(st, &q)?; return render(cx, st, &v, sink); }
            if n == "boxed::Box" { let mut q = cx.deref(st, p)?; q.path.push(PE::In); let t = *a.0[0].ty().unwrap(); return display(cx, st, kind, t, &V::ptr(q), o, sink); }
        }
        TyKind::RigidTy(RigidTy::Char) if kind == 0 => { let q = cx.deref(st, p)?; let v = cx.read(st, &q)?; if matches!(v, V::Case(_)) { cx.int(&v)?; } let s = pad_text(cx, st, &Seq { el: vec![v], len: TRUE }, &o)?; return emit(cx, st, sink, &s.el, s.len); }
        TyKind::RigidTy(RigidTy::Bool) => { let q = cx.deref(st, p)?; let v = cx.read(st, &q)?; let t = cx.int(&v)?; let s = per_leaf(cx, st, t, 4, &mut |x| pad(if x != 0 { "true".into() } else { "false".into() }, &o, false))?; return match s { Some(s) => emit(cx, st, sink, &s.el, s.len), None => unsup("bool display") }; }
        TyKind::RigidTy(RigidTy::Int(_)) | TyKind::RigidTy(RigidTy::Uint(_)) => {
            let (bits, _) = int_bits(ty).unwrap();
            let q = cx.deref(st, p)?; let v = cx.read(st, &q)?; let t = cx.int(&v)?; let t = cx.simp(st, t);
            if let Some(s) = per_leaf(cx, st, t, 300, &mut |v| fmt_int(v, kind, bits, &o))? { return emit(cx, st, sink, &s.el, s.len); }
            if kind <= 1 && o.plain() && t.range().0 >= 0 && t.top().is_some() {
                // constants in some branches: spelled out there, a token elsewhere
                let mut any = None;
                let mask = map_leaf_terms(t, &mut |l| { if let Some(v) = l.val() { any = Some(v); } b(l.is_const()) });
                if let Some(v0) = any {
                    let consts = map_leaf_terms(t, &mut |l| if l.is_const() { l } else { c(v0) });
                    if let Some(s) = per_leaf(cx, st, consts, 300, &mut |v| fmt_int(v, kind, bits, &o))? {
                        let tok = V::seq(vec![V::T(add(t, c(1 << 100)))]);
                        if let V::Seq(m) = merge(mask, &V::Seq(Rc::new(s)), &tok) { return emit(cx, st, sink, &m.el, m.len); }
                    }
                }
            }
            if kind <= 1 && o.plain() && t.range().0 >= 0 { return emit(cx, st, sink, &[V::T(add(t, c(1 << 100)))], TRUE); }
            return unsup("rendering of an unbounded number");
        }
        TyKind::RigidTy(RigidTy::Float(f)) => {
            let q = cx.deref(st, p)?; let v = cx.read(st, &q)?; let t = cx.int(&v)?;
            let is32 = f == FloatTy::F32;
            return match per_leaf(cx, st, t, 1200, &mut |v| fmt_float(v, is32, &o, kind == 1))? { Some(s) => emit(cx, st, sink, &s.el, s.len), None => unsup("rendering of an unbounded float") };
        }
        _ => {}
    }
    // user-defined or composite: analyse its formatting implementation
    let shim = match kind { 0 => "fmt_display", 1 => "fmt_debug", 2 => "fmt_lower_hex", 3 => "fmt_upper_hex", _ => return unsup("formatting trait") };
    let mut buf = sink.clone(); buf.dynty = cx.string_ty;
    st.fr.push(Rc::new(Frame { l: vec![V::agg(vec![o.enc(), V::ptr(buf)])] }));
    let fp = V::ptr(Ptr { root: Root::Local(st.fr.len() as u32 - 1, 0), path: vec![], view: None, dynty: None });
    let r = cx.call_shim(shim, GenericArgs(vec![GenericArgKind::Type(ty)]), vec![p.clone(), fp], st)?;
    st.fr.pop();
    if let V::En(e) = &r { if cx.simp(st, e.d) == FALSE { return Ok(()); } }
    unsup("formatting may fail")
}
/// Render an Arguments value into the text behind `sink`.
pub fn render(cx: &mut Cx, st: &mut State, args: &V, sink: &Ptr) -> R<()> {
    let a = match args { V::Agg(a) => a.clone(), V::Case(k) => return Err(E::Split(k.0)), _ => return unsup("fmt::Arguments") };
    if a.len() == 1 { let s = seq_at(cx, st, &a[0])?; return emit(cx, st, sink, &s.el, s.len); }
    let tpl = seq_at(cx, st, &a[0])?;
    let bytes: Vec<u8> = tpl.el.iter().map(|x| if let V::T(t) = x { t.val().unwrap_or(0) as u8 } else { 0 }).collect();
    let argv = seq_at(cx, st, &a[1])?;
    let mut i = 0; let mut next = 0usize;
    let u16at = |i: usize| bytes[i] as usize | (bytes[i + 1] as usize) << 8;
    while i < bytes.len() {
        let b0 = bytes[i]; i += 1;
        if b0 == 0 { break; }
        if b0 < 0x80 { let n = b0 as usize; let s = std::str::from_utf8(&bytes[i..i + n]).unwrap_or("?").to_string(); i += n; emit(cx, st, sink, &text(&s), c(s.chars().count() as i128))?; continue; }
        if b0 == 0x80 { let n = u16at(i); i += 2; let s = std::str::from_utf8(&bytes[i..i + n]).unwrap_or("?").to_string(); i += n; emit(cx, st, sink, &text(&s), c(s.chars().count() as i128))?; continue; }
        let mut o = Opts { flags: (' ' as u32) | 3 << 29, width: None, prec: None };
        let (mut wi, mut pi) = (None, None);
        if b0 != 0xC0 {
            if b0 & 1 != 0 { o.flags = (u16at(i) | u16at(i + 2) << 16) as u32; i += 4; }
            if b0 & 2 != 0 { let w = u16at(i); i += 2; if b0 & 16 != 0 { wi = Some(w) } else { o.width = Some(w) } }
            if b0 & 4 != 0 { let w = u16at(i); i += 2; if b0 & 32 != 0 { pi = Some(w) } else { o.prec = Some(w) } }
            if b0 & 8 != 0 { next = u16at(i); i += 2; }
        }
        let cnt = |cx: &mut Cx, st: &mut State, k: usize| -> R<usize> { match argv.el.get(k) { Some(V::Fmt(f)) if f.0 == 100 => { let p = cx.deref(st, &f.2)?; let v = cx.read(st, &p)?; let t = cx.int(&v)?; Ok(cx.need(st, t)? as usize) } _ => unsup("format count") } };
        if let Some(k) = wi { o.width = Some(cnt(cx, st, k)?); }
        if let Some(k) = pi { o.prec = Some(cnt(cx, st, k)?); }
        let f = match argv.el.get(next) { Some(V::Fmt(f)) => f.clone(), Some(V::Case(k)) => return Err(E::Split(k.0)), _ => return unsup("format argument") };
        next += 1;
        display(cx, st, f.0, f.1, &f.2, o, sink)?;
    }
    Ok(())
}
/// Render into a fresh string.
fn render_new(cx: &mut Cx, st: &mut State, f: impl FnOnce(&mut Cx, &mut State, &Ptr) -> R<()>) -> R<V> {
    st.fr.push(Rc::new(Frame { l: vec![V::seq(vec![])] }));
    let d = st.fr.len() as u32 - 1;
    let sink = Ptr { root: Root::Local(d, 0), path: vec![], view: None, dynty: None };
    f(cx, st, &sink)?;
    let fr = st.fr.pop().unwrap();
    Ok(fr.l[0].clone())
}
/// sink of a Formatter: pointer to the text it writes to, plus its options
fn formatter(cx: &Cx, st: &State, f: &V) -> R<(Ptr, Opts)> {
    let p = cx.deref(st, f)?;
    let v = cx.read(st, &p)?;
    let a = match &v { V::Agg(a) => a.clone(), V::Case(k) => return Err(E::Split(k.0)), _ => return unsup("formatter") };
    let mut q = cx.deref(st, &a[1])?;
    if q.dynty != cx.string_ty { return unsup("formatter over a custom writer"); }
    q.dynty = None;
    let g = |i: usize| -> R<i128> { match &a[0] { V::Agg(x) => cx.need(st, cx.int(&x[i])?), _ => unsup("formatter options") } };
    let fl = g(0)? as u32;
    Ok((q, Opts { flags: fl, width: if fl >> 27 & 1 == 1 { Some(g(1)? as usize) } else { None }, prec: if fl >> 28 & 1 == 1 { Some(g(2)? as usize) } else { None } }))
}
fn okunit() -> V { V::ok(V::unit()) }
macro_rules! newarg { ($k:expr) => { n!(|cx, st, a, ci| { let t = targ(ci, 0)?; Ok(V::Fmt(Rc::new(($k, t, a[0].clone())))) }) } }

pub fn lookup(name: &str) -> Option<Nat> {
    match name {
        "fmt::rt::Argument::new_display" => newarg!(0),
        "fmt::rt::Argument::new_debug" => newarg!(1),
        "fmt::rt::Argument::new_lower_hex" => newarg!(2),
        "fmt::rt::Argument::new_upper_hex" => newarg!(3),
        "fmt::rt::Argument::new_binary" => newarg!(4),
        "fmt::rt::Argument::new_octal" => newarg!(5),
        "fmt::rt::Argument::from_usize" => n!(|cx, st, a, ci| Ok(V::Fmt(Rc::new((100, ci.tys[0], a[0].clone()))))),
        "fmt::Arguments::new" | "fmt::rt::new" => n!(|cx, st, a, ci| Ok(V::agg(vec![a[0].clone(), a[1].clone()]))),
        "fmt::Arguments::from_str" | "fmt::Arguments::from_str_nonconst" | "fmt::rt::from_str" | "fmt::rt::from_str_nonconst" => n!(|cx, st, a, ci| Ok(V::agg(vec![a[0].clone()]))),
        "fmt::Arguments::as_str" | "fmt::Arguments::as_statically_known_str" => n!(|cx, st, a, ci| Ok(V::none())),
        "fmt::format" | "fmt::format::format_inner" => n!(|cx, st, a, ci| render_new(cx, st, |cx, st, s| render(cx, st, &a[0], s))),
        "fmt::Formatter::write_fmt" | "<fmt::Formatter as fmt::Write>::write_fmt" => n!(|cx, st, a, ci| { let (s, _) = formatter(cx, st, &a[0])?; render(cx, st, &a[1], &s)?; Ok(okunit()) }),
        "fmt::Formatter::write_str" | "<fmt::Formatter as fmt::Write>::write_str" => n!(|cx, st, a, ci| { let (s, _) = formatter(cx, st, &a[0])?; let t = seq_at(cx, st, &a[1])?; emit(cx, st, &s, &t.el, t.len)?; Ok(okunit()) }),
        "<fmt::Formatter as fmt::Write>::write_char" => n!(|cx, st, a, ci| { let (s, _) = formatter(cx, st, &a[0])?; emit(cx, st, &s, &[a[1].clone()], TRUE)?; Ok(okunit()) }),
        "fmt::Formatter::pad" => n!(|cx, st, a, ci| { let (s, o) = formatter(cx, st, &a[0])?; let t = seq_at(cx, st, &a[1])?; let t = pad_text(cx, st, &t, &o)?; emit(cx, st, &s, &t.el, t.len)?; Ok(okunit()) }),
        "fmt::Write::write_fmt" | "<string::String as fmt::Write>::write_fmt" => n!(|cx, st, a, ci| {
            let t = deref_ty(ci.tys[0]).unwrap_or(ci.tys[0]);
            if Some(t) == cx.string_ty { let p = cx.deref(st, &a[0])?; render(cx, st, &a[1], &p)?; return Ok(okunit()); }
            if let TyKind::RigidTy(RigidTy::Adt(d, _)) = t.kind() { if norm_name(&d.name()) == "fmt::Formatter" { let (s, _) = formatter(cx, st, &a[0])?; render(cx, st, &a[1], &s)?; return Ok(okunit()); } }
            if let TyKind::RigidTy(RigidTy::Ref(_, u, _)) = t.kind() { if Some(u) == cx.string_ty { let p = cx.deref(st, &a[0])?; let v = cx.read(st, &p)?; let q = cx.deref(st, &v)?; render(cx, st, &a[1], &q)?; return Ok(okunit()); } }
            // other writers: render, then hand over the text in one piece
            let txt = render_new(cx, st, |cx, st, s| render(cx, st, &a[1], s))?;
            cx.call_shim("write_str_to", GenericArgs(vec![GenericArgKind::Type(t)]), vec![a[0].clone(), V::slice_of(txt)], st) }),
        "fmt::write" => n!(|cx, st, a, ci| { let mut p = cx.deref(st, &a[0])?; if p.dynty != cx.string_ty { return unsup("fmt::write to a custom writer"); } p.dynty = None; render(cx, st, &a[1], &p)?; Ok(okunit()) }),
        "<T as string::SpecToString>::spec_to_string" => n!(|cx, st, a, ci| { let t = deref_ty(ci.tys[0]).unwrap_or(ci.tys[0]); render_new(cx, st, |cx, st, s| display(cx, st, 0, t, &a[0], Opts { flags: ' ' as u32 | 3 << 29, ..Default::default() }, s)) }),
        "fmt::num::imp::fmt" | "<str as fmt::Display>::fmt" | "<string::String as fmt::Display>::fmt" | "<char as fmt::Display>::fmt" | "<bool as fmt::Display>::fmt" | "fmt::float::fmt" => n!(|cx, st, a, ci| { let (s, o) = formatter(cx, st, &a[1])?; let t = deref_ty(ci.tys[0]).unwrap_or(ci.tys[0]); display(cx, st, 0, t, &a[0], o, &s)?; Ok(okunit()) }),
        _ => {
            if name.starts_with('<') && name.ends_with(" as string::SpecToString>::spec_to_string") && !name.starts_with("<str") && !name.starts_with("<string::String") {
                return lookup("<T as string::SpecToString>::spec_to_string");
            }
            None
        }
    }
}
#[allow(unused)]
fn _u(d: AdtDef) -> String { d.name() }
