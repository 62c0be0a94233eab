//! Transfer functions for the codecs of the `image` crate (buffers and rotations are interpreted).
use crate::interp::*;
use crate::n;
use crate::natives::*;
use crate::term::*;
use crate::val::*;
use rustc_public::ty::*;

/// One unknown per run: whether the codec succeeds.
pub fn encoder_ok(cx: &mut Cx) -> T {
    if let Some(t) = cx.ob.encoder { return t; }
    let t = sym_term(new_sym("encoder_ok", vec![(0, 1)]));
    cx.ob.inputs.push(("encoder_ok".into(), crate::check::Kind::Num, vec![t]));
    cx.ob.encoder = Some(t);
    t
}
fn variant_name(ty: Ty, i: i128) -> R<String> {
    match ty.kind() { TyKind::RigidTy(RigidTy::Adt(d, _)) => match d.variants().get(i as usize) { Some(v) => Ok(v.name()), None => unsup("variant") }, _ => unsup("variant") }
}
fn enum_of(cx: &Cx, st: &State, v: &V) -> R<(i128, Vec<V>)> {
    match v {
        V::En(e) => { let d = cx.need(st, e.d)?; Ok((d, e.pay.get(d as usize).cloned().flatten().map(|p| (*p).clone()).unwrap_or_default())) }
        V::Case(k) => Err(E::Split(k.0)),
        _ => unsup("enum expected"),
    }
}
/// The byte vector a writer ends in, and the position it writes at.
fn sink(cx: &Cx, st: &State, v: &V, pos: i128) -> R<(Ptr, i128)> {
    let p = cx.deref(st, v)?;
    match cx.read(st, &p)? {
        V::Seq(_) => Ok((p, pos)),
        V::Case(k) => Err(E::Split(k.0)),
        x @ V::Ptr(_) => sink(cx, st, &x, pos),
        V::Agg(f) => {
            // a cursor or another wrapper: one sink, and possibly a position
            let mut found = None; let mut at = pos;
            for (i, x) in f.iter().enumerate() { match x {
                V::T(t) => at = cx.need(st, *t)?,
                V::Seq(_) | V::Ptr(_) | V::Agg(_) => { if matches!(x, V::Agg(a) if a.is_empty()) { continue; } if found.is_some() { return unsup("writer"); } found = Some(i); }
                _ => return unsup("writer"),
            } }
            match found { Some(i) => { let mut q = p.clone(); q.path.push(PE::F(i as u32)); sink(cx, st, &V::ptr(q), at) } None => unsup("writer") }
        }
        _ => unsup("writer"),
    }
}
fn emit(cx: &mut Cx, st: &mut State, to: (Ptr, i128), out: Vec<V>, ret: Ty) -> R<V> {
    let ok = encoder_ok(cx);
    let junk = V::T(sym_term(new_sym("partial_output", vec![(0, 255)])));
    let (p, pos) = to;
    let old = match cx.read(st, &p)? { V::Seq(s) => s, _ => return unsup("writer") };
    let n = cx.need(st, old.len)? as usize;
    let put = |data: &[V]| -> Vec<V> {
        let mut el = old.el[..n].to_vec();
        while el.len() < pos as usize { el.push(V::int(0)); }
        for (i, x) in data.iter().enumerate() { let j = pos as usize + i; if j < el.len() { el[j] = x.clone(); } else { el.push(x.clone()); } }
        el
    };
    let good = V::seq(put(&out)); let bad = V::seq(put(&[junk]));
    cx.write(st, &p, merge(ok, &good, &bad))?;
    // the error: any kind, unknown contents
    let opaque = || V::Bad(std::rc::Rc::new("contents of the codec's error".into()));
    let ety = match ret.kind() { TyKind::RigidTy(RigidTy::Adt(_, args)) => args.0.iter().filter_map(|g| match g { GenericArgKind::Type(t) => Some(*t), _ => None }).nth(1), _ => None };
    let e = match ety.map(|t| t.kind()) {
        Some(TyKind::RigidTy(RigidTy::Adt(d, _))) if d.kind().is_enum() && !d.variants().is_empty() => {
            let k = d.variants().len() as i128;
            let t = sym_term(new_sym("encoder_error", vec![(0, k - 1)]));
            cx.ob.inputs.push(("encoder_error".into(), crate::check::Kind::Num, vec![t]));
            V::En(std::rc::Rc::new(En { d: t, pay: d.variants().iter().map(|v| Some(std::rc::Rc::new(v.fields().iter().map(|_| opaque()).collect()))).collect() }))
        }
        _ => opaque(),
    };
    let mut pay = vec![Some(std::rc::Rc::new(vec![V::unit()])), Some(std::rc::Rc::new(vec![e]))];
    if ok == TRUE { pay[1] = None; }
    Ok(V::En(std::rc::Rc::new(En { d: not(ok), pay })))
}
fn bytes(s: &str) -> Vec<V> { s.bytes().map(|b| V::int(b as i128)).collect() }
fn be32(t: T) -> Vec<V> { let v = match t.val() { Some(v) => v, None => -1 }; (0..4).rev().map(|i| V::int((v >> (8 * i)) & 255)).collect() }

/// Writes format, pixel type, size and pixels to the writer (argument 1) in the format of argument 2.
fn write_image(cx: &mut Cx, st: &mut State, buf: &V, iname: &str, a: &[V], ci: &Ci) -> R<V> {
    let (f, _) = enum_of(cx, st, &a[2])?;
    let fname = variant_name(ci.tys[2], f)?;
    let to = if matches!(a[1], V::Ptr(_)) { sink(cx, st, &a[1], 0)? } else if let V::Agg(fs) = &a[1] {
        let mut pos = 0; let mut w = None;
        for x in fs.iter() { match x { V::T(t) => pos = cx.need(st, *t)?, V::Ptr(_) => w = Some(x.clone()), _ => return unsup("writer") } }
        match w { Some(w) => sink(cx, st, &w, pos)?, None => return unsup("writer") }
    } else { return unsup("writer") };
    let buf = match buf { V::Agg(b) => b.clone(), V::Case(k) => return Err(E::Split(k.0)), _ => return unsup("image buffer") };
    let (mut dims, mut data) = (vec![], None);
    for x in buf.iter() { match x { V::T(t) => dims.push(cx.need(st, *t)?), V::Seq(s) => data = Some(s.clone()), _ => {} } }
    let data = match data { Some(d) => d, None => return unsup("image data") };
    if dims.len() < 2 { return unsup("image size"); }
    let n = cx.need(st, data.len)? as usize;
    let mut out = bytes(&fname); out.extend(bytes(":")); out.extend(bytes(iname)); out.extend(bytes(":"));
    // the buffer may be longer than the picture; the picture is what is encoded
    let ch = if iname.contains("Rgba") { 4 } else if iname.contains("Rgb") { 3 } else if iname.contains("LumaA") { 2 } else { 1 };
    let want = (dims[0] * dims[1]) as usize * ch;
    out.extend(be32(c(dims[0]))); out.extend(be32(c(dims[1]))); out.extend_from_slice(&data.el[..want.min(n)]);
    emit(cx, st, to, out, ci.ret)
}

pub fn lookup(name: &str) -> Option<Nat> {
    if !name.starts_with("image::") { return None; }
    let last = name.rsplit("::").next().unwrap_or("");
    if name.ends_with("DynamicImage::write_to") {
        return n!(|cx, st, a, ci| {
            let p = cx.deref(st, &a[0])?;
            let v = cx.read(st, &p)?;
            let (k, pay) = enum_of(cx, st, &v)?;
            let ity = match crate::ir::deref_ty(ci.tys[0]) { Some(t) => t, None => return unsup("image") };
            let iname = variant_name(ity, k)?;
            let buf = match pay.first() { Some(b) => b.clone(), None => return unsup("image buffer") };
            write_image(cx, st, &buf, &iname, a, ci)
        });
    }
    if name.ends_with("ImageBuffer::write_to") {
        return n!(|cx, st, a, ci| {
            let p = cx.deref(st, &a[0])?;
            let buf = cx.read(st, &p)?;
            let ity = match crate::ir::deref_ty(ci.tys[0]) { Some(t) => t, None => return unsup("image") };
            // the pixel type decides what is handed to the codec, exactly as for DynamicImage
            let arg = match ity.kind() { TyKind::RigidTy(RigidTy::Adt(_, args)) => args.0.iter().find_map(|g| match g { GenericArgKind::Type(t) => Some(format!("{}", t)), _ => None }), _ => None };
            let iname = match arg { Some(t) if t.replace(' ', "").ends_with("Rgba<u8>") => "ImageRgba8", _ => return unsup("pixel type") };
            write_image(cx, st, &buf, iname, a, ci)
        });
    }
    let _ = last;
    None
}
