//! Transfer functions for library operations the analysis does not descend into: containers,
//! strings, iterators over them, formatting machinery and compiler intrinsics.
use crate::fmt;
use crate::interp::*;
use crate::ir::*;
use crate::rt;
use crate::term::*;
use crate::val::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::rc::Rc;

pub type Nat = fn(&mut Cx, &mut State, &[V], &Ci) -> R<V>;

#[macro_export]
macro_rules! n {
    (|$cx:ident, $st:ident, $a:ident, $ci:ident| $body:expr) => {{
        #[allow(unused_variables, unused_mut)]
        fn f($cx: &mut Cx, $st: &mut State, $a: &[V], $ci: &Ci) -> R<V> { $body }
        Some(f as Nat)
    }};
}

pub const TOKEN: i128 = 1i128 << 99; // cells at or above are decimal-rendering tokens

pub fn targ(ci: &Ci, i: usize) -> R<Ty> {
    match ci.args.0.iter().filter_map(|x| x.ty()).nth(i) { Some(t) => Ok(*t), None => unsup(format!("type argument of {}", ci.name)) }
}
/// cells of the sequence behind a reference (slice, str, &Vec, &String, &[T;N])
pub fn seq_at(cx: &Cx, st: &State, v: &V) -> R<Rc<Seq>> {
    match v {
        V::Seq(s) => return Ok(s.clone()),
        V::Box(b) => return seq_at(cx, st, b),
        _ => {}
    }
    let p = cx.deref(st, v)?;
    match cx.read(st, &p)? {
        V::Seq(s) => Ok(s),
        V::Case(k) => Err(E::Split(k.0)),
        x @ (V::Ptr(_) | V::Box(_)) => seq_at(cx, st, &x),
        x => unsup(format!("sequence expected, got {:?}", x)),
    }
}
pub fn view_ptr(cx: &Cx, st: &State, v: &V) -> R<Ptr> {
    let mut p = cx.deref(st, v)?;
    if p.view.is_some() { return Ok(p); }
    match cx.read(st, &p)? {
        V::Seq(s) => { p.view = Some((FALSE, s.len)); Ok(p) }
        V::Case(k) => Err(E::Split(k.0)),
        V::Box(b) => match &*b { V::Seq(s) => { p.path.push(PE::In); p.view = Some((FALSE, s.len)); Ok(p) } _ => unsup("boxed non-sequence") },
        x @ V::Ptr(_) => view_ptr(cx, st, &x),
        x => unsup(format!("sequence expected, got {:?}", x)),
    }
}
pub fn clamp_len(cx: &Cx, st: &State, s: &Seq) -> R<Rc<Seq>> {
    let n = cx.simp(st, s.len);
    if let Some(k) = n.val() { let k = k as usize; return Ok(Rc::new(Seq { el: s.el[..k.min(s.el.len())].to_vec(), len: n })); }
    Ok(Rc::new(Seq { el: s.el.clone(), len: n }))
}
/// append `n` cells of src to s (lengths may be symbolic)
pub fn append(cx: &Cx, st: &State, s: &mut Seq, src: &[V], n: T) -> R<()> {
    let n = cx.simp(st, n);
    let m = match n.val() { Some(k) => (k as usize).min(src.len()), None => (n.range().1.max(0) as usize).min(src.len()) };
    if m == 0 { return Ok(()); }
    let l = cx.simp(st, s.len);
    if let Some(k) = l.val() {
        s.el.truncate(k as usize);
        s.el.extend_from_slice(&src[..m]);
        s.len = add(l, n);
        return Ok(());
    }
    let (l, ks) = cx.cases(st, l)?;
    if ks.len() * m > 400_000 { return unsup("symbolic length too wide"); }
    let top = (*ks.last().unwrap() as usize) + m;
    while s.el.len() < top { s.el.push(V::Undef); }
    s.el.truncate(top.max(*ks.last().unwrap() as usize));
    for k in ks {
        if k < 0 { continue; }
        let at = cmp(Op::Eq, l, c(k));
        for i in 0..m {
            let g = if n.is_const() { at } else { and(at, cmp(Op::Lt, c(i as i128), n)) };
            if g == FALSE { continue; }
            let j = k as usize + i;
            s.el[j] = merge(g, &src[i], &s.el[j]);
        }
    }
    s.len = add(l, n);
    Ok(())
}
pub fn is_token(cell: &V) -> bool { matches!(cell, V::T(t) if t.range().1 >= TOKEN) }
pub fn no_tokens(s: &Seq) -> R<()> { if s.el.iter().any(is_token) { unsup("text contains a rendered number of unbounded width") } else { Ok(()) } }
pub fn cell(v: &V) -> R<T> { match v { V::T(t) => Ok(*t), V::Case(k) => Err(E::Split(k.0)), V::Undef => Ok(FALSE), _ => unsup("text cell") } }
/// number of UTF-8 bytes of a cell
pub fn width(t: T) -> T {
    if t.range().1 < 0x80 { return TRUE; }
    let w3 = cmp(Op::Lt, t, c(0x10000)); let w2 = cmp(Op::Lt, t, c(0x800)); let w1 = cmp(Op::Lt, t, c(0x80));
    ite(w1, c(1), ite(w2, c(2), ite(w3, c(3), c(4))))
}
pub fn all_ascii(cx: &Cx, st: &State, s: &Seq) -> bool {
    s.el.iter().all(|x| match x { V::T(t) => t.range().1 < 0x80 || cx.simp(st, *t).range().1 < 0x80, V::Undef => true, _ => false })
}
/// byte length of text
pub fn byte_len(cx: &Cx, st: &State, s: &Seq) -> R<T> {
    no_tokens(s)?;
    if all_ascii(cx, st, s) { return Ok(s.len); }
    let n = cx.simp(st, s.len);
    let mut acc = FALSE;
    for (i, x) in s.el.iter().enumerate() {
        let inb = cmp(Op::Lt, c(i as i128), n);
        if inb == FALSE { break; }
        let w = width(cx.simp(st, cell(x)?));
        acc = add(acc, if inb == TRUE { w } else { ite(inb, w, FALSE) });
    }
    Ok(acc)
}
/// convert a byte offset into a cell offset; also returns when it is a boundary
pub fn byte_to_cell(cx: &Cx, st: &State, s: &Seq, off: T) -> R<(T, T)> {
    no_tokens(s)?;
    let off = cx.simp(st, off);
    if all_ascii(cx, st, s) { return Ok((off, and(cmp(Op::Le, FALSE, off), cmp(Op::Le, off, s.len)))); }
    let mut pos = FALSE; let mut res = FALSE; let mut ok = FALSE;
    let n = cx.simp(st, s.len);
    for i in 0..=s.el.len() {
        let inb = cmp(Op::Le, c(i as i128), n);
        if inb == FALSE { break; }
        let hit = and(inb, cmp(Op::Eq, pos, off));
        if hit != FALSE { res = ite(hit, c(i as i128), res); ok = or(ok, hit); }
        if ok == TRUE || pos.range().0 > off.range().1 { break; }
        if i < s.el.len() { pos = add(pos, width(cx.simp(st, cell(&s.el[i])?))); if let Some(e) = expand(pos) { pos = e; } }
    }
    Ok((res, ok))
}
pub fn utf8(cx: &Cx, st: &State, s: &Seq) -> R<Seq> {
    no_tokens(s)?;
    if all_ascii(cx, st, s) { return Ok(Seq { el: s.el.clone(), len: s.len }); }
    let n = cx.simp(st, s.len);
    let mut out = Seq { el: vec![], len: FALSE };
    for (i, x) in s.el.iter().enumerate() {
        let inb = cmp(Op::Lt, c(i as i128), n);
        if inb == FALSE { break; }
        let t = cx.simp(st, cell(x)?);
        let w = width(t);
        let sh = |k: i128| bin(Op::Shr, t, c(k));
        let lo6 = |u: T| add(rem_euclid(u, 64), c(0x80));
        let pick = |a: T, b2: T, b3: T, b4: T| { let w1 = cmp(Op::Eq, w, c(1)); let w2 = cmp(Op::Eq, w, c(2)); let w3 = cmp(Op::Eq, w, c(3)); ite(w1, a, ite(w2, b2, ite(w3, b3, b4))) };
        let (s6, s12, s18) = (sh(6), sh(12), sh(18));
        let b0 = pick(t, add(s6, c(0xC0)), add(s12, c(0xE0)), add(s18, c(0xF0)));
        let b1 = pick(FALSE, lo6(t), lo6(s6), lo6(s12));
        let b2 = pick(FALSE, FALSE, lo6(t), lo6(s6));
        let b3 = pick(FALSE, FALSE, FALSE, lo6(t));
        let w = if inb == TRUE { w } else { ite(inb, w, FALSE) };
        append(cx, st, &mut out, &[V::T(b0), V::T(b1), V::T(b2), V::T(b3)], w)?;
    }
    Ok(out)
}

/// structural equality of values of a type whose PartialEq is structural
pub fn eq_v(cx: &Cx, st: &State, a: &V, b_: &V) -> R<T> {
    if same_rc(a, b_) { return Ok(TRUE); }
    match (a, b_) {
        (V::Case(k), _) | (_, V::Case(k)) => { let g = cx.simp(st, k.0); if g.is_const() { let pick = |v: &V| if let V::Case(k2) = v { if cx.simp(st, k2.0) == TRUE { k2.1.clone() } else { k2.2.clone() } } else { v.clone() }; eq_v(cx, st, &pick(a), &pick(b_)) } else { Err(E::Split(g)) } }
        (V::T(x), V::T(y)) => Ok(cmp(Op::Eq, cx.simp(st, *x), cx.simp(st, *y))),
        (V::Agg(x), V::Agg(y)) if x.len() == y.len() => { let mut g = TRUE; for (p, q) in x.iter().zip(y.iter()) { g = and(g, eq_v(cx, st, p, q)?); if g == FALSE { break; } } Ok(g) }
        (V::Seq(x), V::Seq(y)) => eq_seq(cx, st, x, y),
        (V::En(x), V::En(y)) if x.pay.len() == y.pay.len() => {
            let mut g = cmp(Op::Eq, cx.simp(st, x.d), cx.simp(st, y.d));
            for (i, (p, q)) in x.pay.iter().zip(y.pay.iter()).enumerate() {
                if let (Some(p), Some(q)) = (p, q) { if p.len() != q.len() { continue; }
                    let is = cmp(Op::Eq, x.d, c(i as i128)); if is == FALSE || and(g, is) == FALSE { continue; }
                    let mut e = TRUE; for (u, v) in p.iter().zip(q.iter()) { if matches!(u, V::Undef) || matches!(v, V::Undef) { continue; } e = and(e, eq_v(cx, st, u, v)?); }
                    g = and(g, or(not(is), e)); }
            }
            Ok(g)
        }
        (V::Ptr(_), V::Ptr(_)) => { let (p, q) = (cx.deref(st, a)?, cx.deref(st, b_)?); let (x, y) = (cx.read(st, &p)?, cx.read(st, &q)?); eq_v(cx, st, &x, &y) }
        (V::Ptr(_), y) => { let p = cx.deref(st, a)?; let x = cx.read(st, &p)?; eq_v(cx, st, &x, y) }
        (x, V::Ptr(_)) => { let p = cx.deref(st, b_)?; let y = cx.read(st, &p)?; eq_v(cx, st, x, &y) }
        (V::Box(x), V::Box(y)) => eq_v(cx, st, x, y),
        _ => unsup("equality"),
    }
}
pub fn eq_seq(cx: &Cx, st: &State, x: &Seq, y: &Seq) -> R<T> {
    let (n, m) = (cx.simp(st, x.len), cx.simp(st, y.len));
    let mut g = cmp(Op::Eq, n, m);
    if g == FALSE { return Ok(FALSE); }
    let k = x.el.len().min(y.el.len());
    for i in 0..k {
        let inb = cmp(Op::Lt, c(i as i128), n);
        if inb == FALSE || and(g, inb) == FALSE { break; }
        let e = eq_v(cx, st, &x.el[i], &y.el[i])?;
        g = and(g, if inb == TRUE { e } else { or(not(inb), e) });
        if g == FALSE { break; }
    }
    Ok(g)
}
fn eq_ok(ty: Ty) -> bool {
    match ty.kind() {
        TyKind::RigidTy(k) => match k {
            RigidTy::Bool | RigidTy::Char | RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::Str => true,
            RigidTy::Ref(_, t, _) | RigidTy::Slice(t) | RigidTy::Array(t, _) => eq_ok(t),
            RigidTy::Tuple(ts) => ts.iter().all(|t| eq_ok(*t)),
            RigidTy::Adt(d, a) => { let n = norm_name(&d.name()); (n == "string::String" || n == "vec::Vec" || n == "option::Option" || n == "cmp::Ordering" || n == "boxed::Box") && a.0.iter().filter_map(|x| x.ty()).take(1).all(|t| eq_ok(*t)) }
            _ => false,
        },
        _ => false,
    }
}
fn nat_eq(cx: &mut Cx, st: &mut State, a: &[V], ci: &Ci) -> R<V> {
    for x in ci.args.0.iter().filter_map(|x| x.ty()).take(2) { if !eq_ok(*x) && !norm_name(&format!("{:?}", x)).contains("Global") { if ty_is_alloc(*x) { continue; } return unsup(format!("equality on {:?}", x)); } }
    let g = eq_v(cx, st, &a[0], &a[1])?;
    Ok(V::T(g))
}
fn ty_is_alloc(t: Ty) -> bool { matches!(t.kind(), TyKind::RigidTy(RigidTy::Adt(d, _)) if d.name().ends_with("Global")) }
fn nat_ne(cx: &mut Cx, st: &mut State, a: &[V], ci: &Ci) -> R<V> { let v = nat_eq(cx, st, a, ci)?; Ok(V::T(not(cx.int(&v)?))) }
fn nat_cmp_seq(cx: &mut Cx, st: &mut State, a: &[V], ci: &Ci) -> R<V> {
    let (x, y) = (seq_at(cx, st, &a[0])?, seq_at(cx, st, &a[1])?);
    no_tokens(&x)?; no_tokens(&y)?;
    // first differing position decides (code point order equals UTF-8 byte order)
    let k = x.el.len().max(y.el.len());
    let mut d = ite(cmp(Op::Lt, x.len, y.len), c(0), ite(cmp(Op::Eq, x.len, y.len), c(1), c(2)));
    for i in (0..k).rev() {
        let both = and(cmp(Op::Lt, c(i as i128), x.len), cmp(Op::Lt, c(i as i128), y.len));
        if both == FALSE { continue; }
        let (p, q) = (cell(&x.el[i])?, cell(&y.el[i])?);
        d = ite(and(both, cmp(Op::Lt, p, q)), c(0), ite(and(both, cmp(Op::Lt, q, p)), c(2), d));
    }
    Ok(V::En(Rc::new(En { d, pay: vec![Some(Rc::new(vec![])); 3] })))
}

pub fn require(cx: &mut Cx, st: &mut State, ok: T, msg: &str) -> R<()> {
    let bad = and(st.g, not(ok));
    if bad != FALSE { cx.record_panic(bad, msg, false); st.g = and(st.g, ok); if st.g == FALSE { return Err(E::Dead); } }
    Ok(())
}
/// Some(k)/None shape of usize ranges: (start, end, is_range)
pub fn range_of(cx: &Cx, st: &State, idx: &V, ty: Ty, len: T) -> R<Option<(T, T)>> {
    let n = match ty.kind() { TyKind::RigidTy(RigidTy::Adt(d, _)) => norm_name(&d.name()), _ => return Ok(None) };
    let last = n.rsplit("::").next().unwrap_or("").to_string();
    let f = |i: usize| -> R<T> { match idx { V::Agg(a) => cx.int(&a[i]), V::Case(k) => Err(E::Split(k.0)), _ => unsup("range value") } };
    Ok(Some(match last.as_str() {
        "Range" => (f(0)?, f(1)?),
        "RangeFrom" => (f(0)?, len),
        "RangeTo" => (FALSE, f(0)?),
        "RangeFull" => (FALSE, len),
        "RangeInclusive" => (f(0)?, add(f(1)?, TRUE)),
        "RangeToInclusive" => (FALSE, add(f(0)?, TRUE)),
        _ => return unsup(format!("index type {}", n)),
    }))
}
fn is_text(ty: Ty) -> bool {
    match ty.kind() { TyKind::RigidTy(RigidTy::Str) => true, TyKind::RigidTy(RigidTy::Adt(d, _)) => d.name().ends_with("string::String"), TyKind::RigidTy(RigidTy::Ref(_, t, _)) => is_text(t), _ => false }
}
fn pointee(ty: Ty) -> Ty { deref_ty(ty).unwrap_or(ty) }
/// index of a sequence: `checked` returns Option semantics
pub fn index(cx: &mut Cx, st: &mut State, seqp: &V, idx: &V, ity: Ty, text: bool, opt: bool) -> R<V> {
    let p = view_ptr(cx, st, seqp)?;
    let (s, n) = p.view.unwrap();
    if text {
        let sq = seq_at(cx, st, &V::ptr(p.clone()))?;
        let bl = byte_len(cx, st, &sq)?;
        let (lo, hi) = match range_of(cx, st, idx, ity, bl)? { Some(x) => x, None => return unsup("str index") };
        let (cl, ok1) = byte_to_cell(cx, st, &sq, lo)?;
        let (ch, ok2) = byte_to_cell(cx, st, &sq, hi)?;
        let ok = and(and(ok1, ok2), cmp(Op::Le, lo, hi));
        let ok = cx.simp(st, ok);
        let mut q = p; q.view = Some((add(s, cl), sub(ch, cl)));
        if opt { return Ok(V::opt(ok, V::ptr(q))); }
        require(cx, st, ok, "string slice index out of range or not on a char boundary")?;
        return Ok(V::ptr(q));
    }
    match range_of(cx, st, idx, ity, n)? {
        Some((lo, hi)) => {
            let ok = cx.simp(st, and(cmp(Op::Le, lo, hi), and(cmp(Op::Le, hi, n), cmp(Op::Le, FALSE, lo))));
            let mut q = p; q.view = Some((add(s, lo), sub(hi, lo)));
            if opt { return Ok(V::opt(ok, V::ptr(q))); }
            require(cx, st, ok, "range index out of bounds")?;
            Ok(V::ptr(q))
        }
        None => {
            let i = cx.simp(st, cx.int(idx)?);
            let ok = cx.simp(st, and(cmp(Op::Lt, i, n), cmp(Op::Le, FALSE, i)));
            if ok == FALSE && opt { return Ok(V::none()); }
            if !opt { require(cx, st, ok, "index out of bounds")?; }
            let i = if opt { ite(ok, i, FALSE) } else { cx.simp(st, i) };
            let mut q = p; q.view = None; q.path.push(PE::El(add(s, i)));
            Ok(if opt { V::opt(ok, V::ptr(q)) } else { V::ptr(q) })
        }
    }
}
fn nat_index(cx: &mut Cx, st: &mut State, a: &[V], ci: &Ci) -> R<V> {
    let text = is_text(pointee(ci.tys[0]));
    let ity = match ci.tys.get(1) { Some(t) => *t, None => return unsup("index type") };
    index(cx, st, &a[0], &a[1], ity, text, false)
}
fn nat_get(cx: &mut Cx, st: &mut State, a: &[V], ci: &Ci) -> R<V> {
    let text = is_text(pointee(ci.tys[0]));
    index(cx, st, &a[0], &a[1], ci.tys[1], text, true)
}

// ---------------------------------------------------------------- iterators over sequences
pub fn sub_ptr(p: &Ptr, e: PE) -> Ptr { let mut q = p.clone(); q.view = None; q.path.push(e); q }
fn it_view(cx: &Cx, st: &State, a: &V) -> R<(Ptr, Ptr, T, T)> {
    let p = cx.deref(st, a)?;
    let f = sub_ptr(&p, PE::F(0));
    let q = match cx.read(st, &f)? { V::Ptr(q) => (*q).clone(), V::Case(k) => return Err(E::Split(k.0)), v => return unsup(format!("iterator state {:?}", v)) };
    let (s, n) = match q.view { Some(v) => v, None => return unsup("iterator view") };
    Ok((f, q, cx.simp(st, s), cx.simp(st, n)))
}
fn el_at(q: &Ptr, i: T) -> Ptr { let mut e = q.clone(); e.view = None; e.path.push(PE::El(i)); e }
fn it_next(cx: &mut Cx, st: &mut State, a: &V, back: bool, chars: bool) -> R<V> {
    let (f, q, s, n) = it_view(cx, st, a)?;
    let pos = cx.simp(st, cmp(Op::Lt, FALSE, n));
    if pos == FALSE { return Ok(V::none()); }
    let i = if back { sub(add(s, n), TRUE) } else { s };
    let i = if pos == TRUE { i } else { ite(pos, i, s) };
    let e = el_at(&q, i);
    let item = if chars { let v = cx.read(st, &e)?; if is_token(&v) { return unsup("character of a rendered number"); } v } else { V::ptr(e) };
    let mut q2 = q;
    q2.view = Some(if pos == TRUE { (if back { s } else { add(s, TRUE) }, sub(n, TRUE)) } else { (if back { s } else { ite(pos, add(s, TRUE), s) }, ite(pos, sub(n, TRUE), FALSE)) });
    cx.write(st, &f, V::ptr(q2))?;
    Ok(V::opt(pos, item))
}
fn owned_next(cx: &mut Cx, st: &mut State, a: &V, back: bool) -> R<V> {
    let p = cx.deref(st, a)?;
    let v = cx.read(st, &p)?;
    let (seq, s, n) = match &v { V::Agg(x) if x.len() == 3 => (x[0].clone(), cx.int(&x[1])?, cx.int(&x[2])?), V::Case(k) => return Err(E::Split(k.0)), _ => return unsup("owned iterator") };
    let (s, n) = (cx.simp(st, s), cx.simp(st, n));
    let pos = cx.simp(st, cmp(Op::Lt, FALSE, n));
    if pos == FALSE { return Ok(V::none()); }
    let i = if back { sub(add(s, n), TRUE) } else { s };
    let i = if pos == TRUE { i } else { ite(pos, i, s) };
    let item = cx.walk(st, &seq, &[PE::El(i)])?;
    let (s2, n2) = if pos == TRUE { (if back { s } else { add(s, TRUE) }, sub(n, TRUE)) } else { (if back { s } else { ite(pos, add(s, TRUE), s) }, ite(pos, sub(n, TRUE), FALSE)) };
    cx.write(st, &p, V::agg(vec![seq, V::T(s2), V::T(n2)]))?;
    Ok(V::opt(pos, item))
}
fn chunk_next(cx: &mut Cx, st: &mut State, a: &V, kind: u8) -> R<V> {
    let (f, q, s, n) = it_view(cx, st, a)?;
    let p = cx.deref(st, a)?;
    let size = { let v = cx.read(st, &sub_ptr(&p, PE::F(1)))?; let t = cx.int(&v)?; cx.need(st, t)? };
    let (pos, take, step) = match kind {
        0 => { let pos = cmp(Op::Lt, FALSE, n); let full = cmp(Op::Le, c(size), n); let t = ite(full, c(size), n); (pos, t, t) }
        1 => { let pos = cmp(Op::Le, c(size), n); (pos, c(size), c(size)) }
        _ => { let pos = cmp(Op::Le, c(size), n); (pos, c(size), TRUE) }
    };
    let pos = cx.simp(st, pos);
    if pos == FALSE { return Ok(V::none()); }
    let mut item = q.clone(); item.view = Some((s, take));
    let mut q2 = q;
    q2.view = Some(if pos == TRUE { (add(s, step), sub(n, step)) } else { (ite(pos, add(s, step), s), ite(pos, sub(n, step), n)) });
    cx.write(st, &f, V::ptr(q2))?;
    Ok(V::opt(pos, V::ptr(item)))
}
fn it_len(cx: &Cx, st: &State, a: &V) -> R<T> {
    let p = cx.deref(st, a)?;
    match cx.read(st, &p)? {
        V::Agg(x) if x.len() == 3 => cx.int(&x[2]),
        V::Agg(x) => match &x[0] { V::Ptr(q) => q.view.map(|v| v.1).map(Ok).unwrap_or_else(|| unsup("iterator view")), V::Case(k) => Err(E::Split(k.0)), V::Agg(y) => match &y[0] { V::Ptr(q) => q.view.map(|v| v.1).map(Ok).unwrap_or_else(|| unsup("view")), _ => unsup("iterator") }, _ => unsup("iterator") },
        V::Case(k) => Err(E::Split(k.0)),
        _ => unsup("iterator"),
    }
}
fn hint(n: T) -> V { V::agg(vec![V::T(n), V::some(V::T(n))]) }
fn own(v: Rc<Seq>) -> V { let n = v.len; V::agg(vec![V::Seq(v), V::T(FALSE), V::T(n)]) }
fn char_indices_next(cx: &mut Cx, st: &mut State, a: &V) -> R<V> {
    let p = cx.deref(st, a)?;
    let off = { let v = cx.read(st, &sub_ptr(&p, PE::F(0)))?; cx.int(&v)? };
    let it = V::ptr(sub_ptr(&p, PE::F(1)));
    let r = it_next(cx, st, &it, false, true)?;
    match &r { V::En(e) => { if let Some(Some(pl)) = e.pay.get(1) { if !pl.is_empty() {
            let ch = cell(&pl[0])?;
            let w = width(ch);
            let np = ite(cx.simp(st, e.d), add(off, w), off);
            cx.write(st, &sub_ptr(&p, PE::F(0)), V::T(np))?;
            return Ok(V::opt(cx.simp(st, e.d), V::agg(vec![V::T(off), V::T(ch)]))); } } Ok(V::none()) }
        _ => unsup("char_indices") }
}

// ---------------------------------------------------------------- patterns
/// predicate: does the char cell match the (char-like) pattern?
fn pat_cell(cx: &mut Cx, st: &mut State, pat: &V, pty: Ty, x: T) -> R<Option<T>> {
    match pty.kind() {
        TyKind::RigidTy(RigidTy::Char) => Ok(Some(cmp(Op::Eq, x, cx.int(pat)?))),
        TyKind::RigidTy(RigidTy::Closure(..)) | TyKind::RigidTy(RigidTy::FnDef(..)) => {
            st.fr.push(Rc::new(Frame { l: vec![pat.clone()] }));
            let p = V::ptr(Ptr { root: Root::Local(st.fr.len() as u32 - 1, 0), path: vec![], view: None, dynty: None });
            let r = cx.call_closure(p, pty, true, vec![V::T(x)], st, Ty::bool_ty())?;
            st.fr.pop();
            Ok(Some(cx.int(&r)?))
        }
        TyKind::RigidTy(RigidTy::Array(..)) | TyKind::RigidTy(RigidTy::Slice(_)) => { let s = seq_at(cx, st, pat)?; let mut g = FALSE; for e in &s.el { g = or(g, cmp(Op::Eq, x, cell(e)?)); } Ok(Some(g)) }
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) => match t.kind() {
            TyKind::RigidTy(RigidTy::Str) => Ok(None),
            TyKind::RigidTy(RigidTy::Ref(..)) | TyKind::RigidTy(RigidTy::Char) => { let p = cx.deref(st, pat)?; let v = cx.read(st, &p)?; pat_cell(cx, st, &v, t, x) }
            TyKind::RigidTy(RigidTy::Adt(..)) => Ok(None),
            TyKind::RigidTy(RigidTy::Array(..)) | TyKind::RigidTy(RigidTy::Slice(_)) => { let s = seq_at(cx, st, pat)?; let mut g = FALSE; for e in &s.el { g = or(g, cmp(Op::Eq, x, cell(e)?)); } Ok(Some(g)) }
            _ => unsup("pattern"),
        },
        _ => unsup("pattern"),
    }
}
fn match_at(cx: &Cx, st: &State, s: &Seq, i: usize, pat: &Seq) -> R<T> {
    let m = cx.need(st, pat.len)? as usize;
    let mut g = cmp(Op::Le, c((i + m) as i128), s.len);
    if g == FALSE { return Ok(FALSE); }
    for j in 0..m { if i + j >= s.el.len() { return Ok(FALSE); } g = and(g, cmp(Op::Eq, cell(&s.el[i + j])?, cell(&pat.el[j])?)); if g == FALSE { break; } }
    Ok(g)
}
/// per-position match predicates, and pattern length in cells
fn pat_positions(cx: &mut Cx, st: &mut State, s: &Seq, pat: &V, pty: Ty) -> R<(Vec<T>, i128)> {
    no_tokens(s)?;
    let mut out = vec![];
    if let Some(_) = if s.el.is_empty() { None } else { pat_cell(cx, st, pat, pty, cell(&s.el[0])?)? } {
        for i in 0..s.el.len() { let inb = cmp(Op::Lt, c(i as i128), s.len); if inb == FALSE { break; } let g = pat_cell(cx, st, pat, pty, cell(&s.el[i])?)?.unwrap_or(FALSE); out.push(and(inb, g)); }
        return Ok((out, 1));
    }
    if s.el.is_empty() && !matches!(pty.kind(), TyKind::RigidTy(RigidTy::Ref(..))) { return Ok((vec![], 1)); }
    let p = seq_at(cx, st, pat)?;
    let m = cx.need(st, p.len)?;
    for i in 0..=s.el.len() { out.push(match_at(cx, st, s, i, &p)?); }
    Ok((out, m))
}

fn split_owned(cells: &[V]) -> V { V::slice_of(V::seq(cells.to_vec())) }

// ---------------------------------------------------------------- integer intrinsics
fn ity(ci: &Ci) -> R<(u8, bool)> { match int_bits(ci.tys[0]) { Some(x) => Ok(x), None => match targ(ci, 0).ok().and_then(int_bits) { Some(x) => Ok(x), None => unsup(format!("integer type of {}", ci.name)) } } }
fn two(cx: &Cx, st: &State, a: &[V]) -> R<(T, T)> { Ok((cx.simp(st, cx.int(&a[0])?), cx.simp(st, cx.int(&a[1])?))) }
fn leafwise(cx: &Cx, st: &State, t: T, f: &mut dyn FnMut(i128) -> i128) -> R<V> { let (t, _) = cx.cases(st, t)?; Ok(V::T(map_leaves(t, f))) }

/// predicate or map on characters with a possibly huge domain
pub fn char_pred(cx: &Cx, st: &State, t: T, f: fn(char) -> bool) -> R<T> {
    let t = cx.simp(st, t);
    if t.pure_dd() { return Ok(map_leaves(t, &mut |v| char::from_u32(v as u32).map(f).unwrap_or(false) as i128)); }
    fn go(t: T, f: fn(char) -> bool) -> Option<T> {
        if let Some(v) = t.val() { return Some(b(char::from_u32(v as u32).map(f).unwrap_or(false))); }
        match t.node() {
            Node::Id(y) => {
                let rs = st2().syms[*y as usize].ranges.clone();
                let mut ps: Vec<(i128, T)> = vec![];
                for (lo, hi) in rs { for v in lo..=hi { let r = b(char::from_u32(v as u32).map(f).unwrap_or(false)); if ps.last().map(|p| p.1) != Some(r) { ps.push((v, r)); } } }
                Some(mk_split(*y, ps))
            }
            Node::Split(y, ps) => { let mut o = vec![]; for (k, x) in ps.iter() { o.push((*k, go(*x, f)?)); } Some(mk_split(*y, o)) }
            _ => None,
        }
    }
    fn st2() -> &'static mut Store { crate::term::st() }
    match go(t, f) { Some(r) => Ok(r), None => unsup("character predicate") }
}
/// text case mapping when it is one-to-one on every leaf
fn char_map(cx: &Cx, st: &State, t: T, f: fn(char) -> char) -> R<T> {
    let t = cx.simp(st, t);
    if t.pure_dd() { return Ok(map_leaves(t, &mut |v| char::from_u32(v as u32).map(f).map(|x| x as i128).unwrap_or(v))); }
    fn go(t: T, f: fn(char) -> char) -> Option<T> {
        if let Some(v) = t.val() { return Some(c(char::from_u32(v as u32).map(f).map(|x| x as i128).unwrap_or(v))); }
        match t.node() {
            Node::Id(y) => {
                // only differs on ASCII letters for the functions used here
                let idt = sym_term(*y);
                let mut r = idt;
                for v in 0..128i128 { let w = f(v as u8 as char) as i128; if w != v { r = ite(cmp(Op::Eq, idt, c(v)), c(w), r); } }
                Some(r)
            }
            Node::Split(y, ps) => { let mut o = vec![]; for (k, x) in ps.iter() { o.push((*k, go(*x, f)?)); } Some(mk_split(*y, o)) }
            _ => None,
        }
    }
    match go(t, f) { Some(r) => Ok(r), None => unsup("character mapping") }
}

pub fn lookup_pre(name: &str) -> Option<Nat> {
    if let Some(n) = rt::lookup(name) { return Some(n); }
    match name {
        "clone::Clone::clone" => None,
        "hint::must_use" | "hint::black_box" => n!(|cx, st, a, ci| Ok(a[0].clone())),
        _ => None,
    }
}

const IT: [&str; 4] = ["slice::Iter", "slice::IterMut", "str::Chars", "str::Bytes"];
const OWN: [&str; 2] = ["vec::IntoIter", "array::IntoIter"];
const CH: [&str; 3] = ["slice::Chunks", "slice::ChunksExact", "slice::Windows"];

pub fn lookup(name: &str) -> Option<Nat> {
    if let Some(n) = fmt::lookup(name) { return Some(n); }
    if let Some(n) = crate::imgnat::lookup(name) { return Some(n); }
    // iterators
    if let Some(rest) = name.strip_prefix('<') { if let Some((ty, tail)) = rest.split_once(" as ") { if let Some((tr, m)) = tail.split_once(">::") {
        let tr = tr.rsplit("::").next().unwrap_or(tr);
        if IT.contains(&ty) {
            let chars = ty == "str::Chars";
            match (tr, m) {
                ("Iterator", "next") => return if chars { n!(|cx, st, a, ci| it_next(cx, st, &a[0], false, true)) } else if ty == "str::Bytes" { n!(|cx, st, a, ci| it_next(cx, st, &a[0], false, true)) } else { n!(|cx, st, a, ci| it_next(cx, st, &a[0], false, false)) },
                ("DoubleEndedIterator", "next_back") => return if chars || ty == "str::Bytes" { n!(|cx, st, a, ci| it_next(cx, st, &a[0], true, true)) } else { n!(|cx, st, a, ci| it_next(cx, st, &a[0], true, false)) },
                ("Iterator", "size_hint") => return n!(|cx, st, a, ci| Ok(hint(it_len(cx, st, &a[0])?))),
                ("ExactSizeIterator", "len") => return n!(|cx, st, a, ci| Ok(V::T(it_len(cx, st, &a[0])?))),
                ("ExactSizeIterator", "is_empty") => return n!(|cx, st, a, ci| Ok(V::T(cmp(Op::Eq, it_len(cx, st, &a[0])?, FALSE)))),
                ("Iterator", "__iterator_get_unchecked") => return n!(|cx, st, a, ci| { let (_, q, s, _) = it_view(cx, st, &a[0])?; let i = cx.int(&a[1])?; let e = el_at(&q, add(s, i)); if ci.name.contains("Bytes") { cx.read(st, &e) } else { Ok(V::ptr(e)) } }),
                ("Clone", "clone") => return n!(|cx, st, a, ci| { let p = cx.deref(st, &a[0])?; cx.read(st, &p) }),
                _ => {}
            }
        }
        if OWN.contains(&ty) {
            match (tr, m) {
                ("Iterator", "next") => return n!(|cx, st, a, ci| owned_next(cx, st, &a[0], false)),
                ("DoubleEndedIterator", "next_back") => return n!(|cx, st, a, ci| owned_next(cx, st, &a[0], true)),
                ("Iterator", "size_hint") => return n!(|cx, st, a, ci| Ok(hint(it_len(cx, st, &a[0])?))),
                ("ExactSizeIterator", "len") => return n!(|cx, st, a, ci| Ok(V::T(it_len(cx, st, &a[0])?))),
                ("Iterator", "__iterator_get_unchecked") => return n!(|cx, st, a, ci| { let p = cx.deref(st, &a[0])?; let v = cx.read(st, &p)?; match &v { V::Agg(x) => { let i = add(cx.int(&x[1])?, cx.int(&a[1])?); cx.walk(st, &x[0], &[PE::El(i)]) } _ => unsup("into_iter") } }),
                ("Clone", "clone") => return n!(|cx, st, a, ci| { let p = cx.deref(st, &a[0])?; cx.read(st, &p) }),
                _ => {}
            }
        }
        if CH.contains(&ty) {
            match (tr, m) {
                ("Iterator", "next") => return match ty { "slice::Chunks" => n!(|cx, st, a, ci| chunk_next(cx, st, &a[0], 0)), "slice::ChunksExact" => n!(|cx, st, a, ci| chunk_next(cx, st, &a[0], 1)), _ => n!(|cx, st, a, ci| chunk_next(cx, st, &a[0], 2)) },
                ("Iterator", "size_hint") | ("ExactSizeIterator", "len") => return n!(|cx, st, a, ci| {
                    let (_, _, _, n) = it_view(cx, st, &a[0])?; let p = cx.deref(st, &a[0])?; let v = cx.read(st, &sub_ptr(&p, PE::F(1)))?; let t = cx.int(&v)?; let k = cx.need(st, t)?; let n = cx.need(st, n)?;
                    let r = if ci.name.contains("Windows") { (n - k + 1).max(0) } else if ci.name.contains("Exact") { n / k } else { (n + k - 1) / k };
                    Ok(if ci.name.ends_with("len") { V::int(r) } else { hint(c(r)) }) }),
                _ => {}
            }
        }
        if ty == "str::CharIndices" { match (tr, m) {
            ("Iterator", "next") => return n!(|cx, st, a, ci| char_indices_next(cx, st, &a[0])),
            ("Iterator", "size_hint") => return n!(|cx, st, a, ci| Ok(V::agg(vec![V::int(0), V::none()]))),
            _ => {} } }
        if (ty == "iter::Zip" || ty == "iter::adapters::zip::Zip") && tr == "ZipImpl" {
            match m {
                "next" => return n!(|cx, st, a, ci| { let (x, y) = zip_args(ci)?; let p = cx.deref(st, &a[0])?; let (pa, pb) = (V::ptr(sub_ptr(&p, PE::F(0))), V::ptr(sub_ptr(&p, PE::F(1)))); cx.call_shim("zip_next", GenericArgs(vec![GenericArgKind::Type(x), GenericArgKind::Type(y)]), vec![pa, pb], st) }),
                "next_back" => return n!(|cx, st, a, ci| { let (x, y) = zip_args(ci)?; let p = cx.deref(st, &a[0])?; let (pa, pb) = (V::ptr(sub_ptr(&p, PE::F(0))), V::ptr(sub_ptr(&p, PE::F(1)))); cx.call_shim("zip_next_back", GenericArgs(vec![GenericArgKind::Type(x), GenericArgKind::Type(y)]), vec![pa, pb], st) }),
                "new" => return n!(|cx, st, a, ci| Ok(V::agg(vec![a[0].clone(), a[1].clone(), V::int(0), V::int(0)]))),
                "size_hint" => return n!(|cx, st, a, ci| { let (x, y) = zip_args(ci)?; let p = cx.deref(st, &a[0])?; let (pa, pb) = (V::ptr(sub_ptr(&p, PE::F(0))), V::ptr(sub_ptr(&p, PE::F(1)))); cx.call_shim("zip_size_hint", GenericArgs(vec![GenericArgKind::Type(x), GenericArgKind::Type(y)]), vec![pa, pb], st) }),
                _ => {}
            }
        }
        // equality and ordering of sequences
        if tr == "PartialEq" && (ty.starts_with('[') || ty.starts_with("vec::Vec") || ty == "str" || ty == "string::String" || ty == "&str" || ty.starts_with("&[") || ty.starts_with("&'") && ty.ends_with("str") || ty == "borrow::Cow") {
            return match m { "eq" => Some(nat_eq as Nat), "ne" => Some(nat_ne as Nat), _ => None };
        }
        if tr == "Ord" && m == "cmp" && (ty == "str" || ty == "string::String" || ty.starts_with('[') || ty == "vec::Vec") { return Some(nat_cmp_seq as Nat); }
        if tr == "PartialOrd" && m == "partial_cmp" && (ty == "str" || ty == "string::String" || ty.starts_with('[') || ty == "vec::Vec") { return n!(|cx, st, a, ci| { let v = nat_cmp_seq(cx, st, a, ci)?; Ok(V::some(v)) }); }
    } } }
    match name {
        "str::traits::eq" | "slice::cmp::eq" | "string::eq" | "vec::partial_eq::eq" | "array::equality::eq" => return Some(nat_eq as Nat),
        "str::traits::ne" | "slice::cmp::ne" | "string::ne" | "vec::partial_eq::ne" | "array::equality::ne" => return Some(nat_ne as Nat),
        "str::traits::cmp" | "slice::cmp::cmp" => return Some(nat_cmp_seq as Nat),
        // ---- Vec / String
        "vec::Vec::new" | "string::String::new" | "vec::Vec::with_capacity" | "string::String::with_capacity" | "<vec::Vec as default::Default>::default" | "<string::String as default::Default>::default" | "vec::Vec::with_capacity_in" | "vec::Vec::new_in" => n!(|cx, st, a, ci| Ok(V::seq(vec![]))),
        "vec::Vec::push" | "string::String::push" | "vec::Vec::extend_one" | "vec::Vec::push_mut" => n!(|cx, st, a, ci| { let p = cx.deref(st, &a[0])?; let v = a[1].clone(); if let V::Case(_) = &v { } mut_seq(cx, st, &p, |cx, st, s| append(cx, st, s, &[v], TRUE))?; Ok(V::unit()) }),
        "string::String::push_str" | "vec::Vec::extend_from_slice" | "<string::String as fmt::Write>::write_str" => n!(|cx, st, a, ci| { let p = cx.deref(st, &a[0])?; let src = seq_at(cx, st, &a[1])?; mut_seq(cx, st, &p, |cx, st, s| append(cx, st, s, &src.el, src.len))?; Ok(if ci.name.ends_with("write_str") { V::ok(V::unit()) } else { V::unit() }) }),
        "<string::String as fmt::Write>::write_char" => n!(|cx, st, a, ci| { let p = cx.deref(st, &a[0])?; let v = a[1].clone(); mut_seq(cx, st, &p, |cx, st, s| append(cx, st, s, &[v], TRUE))?; Ok(V::ok(V::unit())) }),
        "<string::String as ops::Add>::add" => n!(|cx, st, a, ci| { let mut s = (*seq_at(cx, st, &a[0])?).clone2(); let src = seq_at(cx, st, &a[1])?; append(cx, st, &mut s, &src.el, src.len)?; Ok(V::Seq(Rc::new(s))) }),
        "<string::String as ops::AddAssign>::add_assign" => n!(|cx, st, a, ci| { let p = cx.deref(st, &a[0])?; let src = seq_at(cx, st, &a[1])?; mut_seq(cx, st, &p, |cx, st, s| append(cx, st, s, &src.el, src.len))?; Ok(V::unit()) }),
        "vec::Vec::append" => n!(|cx, st, a, ci| { let p = cx.deref(st, &a[0])?; let q = cx.deref(st, &a[1])?; let src = seq_at(cx, st, &a[1])?; mut_seq(cx, st, &p, |cx, st, s| append(cx, st, s, &src.el, src.len))?; cx.write(st, &q, V::seq(vec![]))?; Ok(V::unit()) }),
        "vec::Vec::pop" | "string::String::pop" => n!(|cx, st, a, ci| {
            let p = cx.deref(st, &a[0])?; let s = seq_at(cx, st, &a[0])?; let n = cx.simp(st, s.len); let pos = cx.simp(st, cmp(Op::Lt, FALSE, n));
            if pos == FALSE { return Ok(V::none()); }
            let item = if pos == TRUE { cx.walk(st, &V::Seq(s.clone()), &[PE::El(sub(n, TRUE))])? } else { cx.walk(st, &V::Seq(s.clone()), &[PE::El(ite(pos, sub(n, TRUE), FALSE))])? };
            if is_token(&item) { return unsup("pop of a rendered number"); }
            let n2 = if pos == TRUE { sub(n, TRUE) } else { ite(pos, sub(n, TRUE), FALSE) };
            let s2 = clamp_len(cx, st, &Seq { el: s.el.clone(), len: n2 })?;
            cx.write(st, &p, V::Seq(s2))?; Ok(V::opt(pos, item)) }),
        "vec::Vec::len" | "slice::len" => n!(|cx, st, a, ci| { let p = view_ptr(cx, st, &a[0])?; Ok(V::T(cx.simp(st, p.view.unwrap().1))) }),
        "vec::Vec::is_empty" | "slice::is_empty" | "str::is_empty" | "string::String::is_empty" => n!(|cx, st, a, ci| { let p = view_ptr(cx, st, &a[0])?; Ok(V::T(cmp(Op::Eq, cx.simp(st, p.view.unwrap().1), FALSE))) }),
        "str::len" | "string::String::len" => n!(|cx, st, a, ci| { let s = seq_at(cx, st, &a[0])?; Ok(V::T(byte_len(cx, st, &s)?)) }),
        "vec::Vec::capacity" | "string::String::capacity" => n!(|cx, st, a, ci| unsup("capacity")),
        "vec::Vec::reserve" | "vec::Vec::reserve_exact" | "string::String::reserve" | "vec::Vec::shrink_to_fit" | "string::String::shrink_to_fit" => n!(|cx, st, a, ci| Ok(V::unit())),
        "vec::Vec::clear" | "string::String::clear" => n!(|cx, st, a, ci| { let p = cx.deref(st, &a[0])?; cx.write(st, &p, V::seq(vec![]))?; Ok(V::unit()) }),
        "vec::Vec::truncate" => n!(|cx, st, a, ci| { let p = cx.deref(st, &a[0])?; let s = seq_at(cx, st, &a[0])?; let k = cx.int(&a[1])?; let n = ite(cmp(Op::Lt, k, s.len), k, s.len); let s2 = clamp_len(cx, st, &Seq { el: s.el.clone(), len: n })?; cx.write(st, &p, V::Seq(s2))?; Ok(V::unit()) }),
        "string::String::truncate" => n!(|cx, st, a, ci| { let p = cx.deref(st, &a[0])?; let s = seq_at(cx, st, &a[0])?; let k = cx.int(&a[1])?; let bl = byte_len(cx, st, &s)?; let small = cmp(Op::Le, k, bl); let (cl, ok) = byte_to_cell(cx, st, &s, k)?; require(cx, st, or(not(small), ok), "truncate not on a char boundary")?; let n = ite(small, cl, s.len); let s2 = clamp_len(cx, st, &Seq { el: s.el.clone(), len: n })?; cx.write(st, &p, V::Seq(s2))?; Ok(V::unit()) }),
        "vec::Vec::insert" | "string::String::insert" | "string::String::insert_str" => n!(|cx, st, a, ci| {
            let p = cx.deref(st, &a[0])?; let s = seq_at(cx, st, &a[0])?; let k = cx.int(&a[1])?;
            let text = ci.name.starts_with("string");
            let (k, ok) = if text { byte_to_cell(cx, st, &s, k)? } else { (k, cmp(Op::Le, k, s.len)) };
            let k = cx.need(st, k)? as usize; 
            require(cx, st, ok, "insertion index out of bounds")?;
            let n = cx.simp(st, s.len);
            if (k as i128) > n.range().0 { return unsup("insert at a symbolic position"); }
            let src: Rc<Seq> = if ci.name.ends_with("insert_str") { seq_at(cx, st, &a[2])? } else { Rc::new(Seq { el: vec![a[2].clone()], len: TRUE }) };
            let mut o = Seq { el: s.el[..k].to_vec(), len: c(k as i128) };
            append(cx, st, &mut o, &src.el, src.len)?; append(cx, st, &mut o, &s.el[k..], sub(n, c(k as i128)))?;
            cx.write(st, &p, V::Seq(Rc::new(o)))?; Ok(V::unit()) }),
        "vec::Vec::remove" | "string::String::remove" | "vec::Vec::swap_remove" => n!(|cx, st, a, ci| {
            let p = cx.deref(st, &a[0])?; let s = seq_at(cx, st, &a[0])?; let k = cx.int(&a[1])?;
            let (k, ok) = if ci.name.starts_with("string") { let (x, y) = byte_to_cell(cx, st, &s, k)?; (x, and(y, cmp(Op::Lt, x, s.len))) } else { (k, cmp(Op::Lt, k, s.len)) };
            let n = cx.need(st, s.len)? as usize; let k = cx.need(st, k)?;
            require(cx, st, ok, "removal index out of bounds")?;
            let k = k as usize; let mut el = s.el[..n].to_vec();
            let x = if ci.name.ends_with("swap_remove") { el.swap_remove(k) } else { el.remove(k) };
            cx.write(st, &p, V::seq(el))?; Ok(x) }),
        "vec::Vec::split_off" | "string::String::split_off" => n!(|cx, st, a, ci| {
            let p = cx.deref(st, &a[0])?; let s = seq_at(cx, st, &a[0])?; let k = cx.int(&a[1])?;
            let (k, ok) = if ci.name.starts_with("string") { byte_to_cell(cx, st, &s, k)? } else { (k, cmp(Op::Le, k, s.len)) };
            let n = cx.need(st, s.len)? as usize; let k = cx.need(st, k)?;
            require(cx, st, ok, "split_off out of bounds")?;
            let el = s.el[..n].to_vec(); let (x, y) = el.split_at(k as usize);
            cx.write(st, &p, V::seq(x.to_vec()))?; Ok(V::seq(y.to_vec())) }),
        "vec::Vec::resize" => n!(|cx, st, a, ci| { let p = cx.deref(st, &a[0])?; let s = seq_at(cx, st, &a[0])?; let n = cx.need(st, s.len)? as usize; let k = cx.int(&a[1])?; let k = cx.need(st, k)? as usize; if k > 2_000_000 { return unsup("resize"); } let mut el = s.el[..n].to_vec(); el.resize(k, a[2].clone()); cx.write(st, &p, V::seq(el))?; Ok(V::unit()) }),
        "vec::Vec::drain" | "string::String::drain" => n!(|cx, st, a, ci| {
            let p = cx.deref(st, &a[0])?; let s = seq_at(cx, st, &a[0])?; let n = cx.need(st, s.len)?;
            let r = range_of(cx, st, &a[1], ci.tys[1], c(n))?; let (lo, hi) = match r { Some(x) => x, None => return unsup("drain range") };
            if ci.name.starts_with("string") && !all_ascii(cx, st, &s) { return unsup("drain of text"); }
            let (lo, hi) = (cx.need(st, lo)?, cx.need(st, hi)?);
            require(cx, st, b(lo <= hi && hi <= n), "drain range out of bounds")?;
            let mut el = s.el[..n as usize].to_vec(); let d: Vec<V> = el.drain(lo as usize..hi as usize).collect();
            cx.write(st, &p, V::seq(el))?; Ok(own(Rc::new(Seq { len: c(d.len() as i128), el: d }))) }),
        "<vec::Drain as iter::Iterator>::next" | "<vec::drain::Drain as iter::Iterator>::next" | "<string::Drain as iter::Iterator>::next" => n!(|cx, st, a, ci| owned_next(cx, st, &a[0], false)),
        "vec::Vec::as_slice" | "vec::Vec::as_mut_slice" | "string::String::as_str" | "string::String::as_mut_str" | "<vec::Vec as ops::Deref>::deref" | "<vec::Vec as ops::DerefMut>::deref_mut" | "<string::String as ops::Deref>::deref" | "<string::String as ops::DerefMut>::deref_mut"
        | "<vec::Vec as convert::AsRef>::as_ref" | "<vec::Vec as convert::AsMut>::as_mut" | "<string::String as borrow::Borrow>::borrow" | "<vec::Vec as borrow::Borrow>::borrow" | "<[T] as convert::AsRef>::as_ref" | "<[T; N] as convert::AsRef>::as_ref" | "array::as_slice" | "array::as_mut_slice" | "str::as_str" | "slice::borrow" | "<[T; N] as borrow::Borrow>::borrow" | "array::<[T; N]>::as_slice" | "slice::as_slice" => n!(|cx, st, a, ci| { if pointee(ci.ret).kind() != pointee(ci.tys[0]).kind() || matches!(pointee(ci.ret).kind(), TyKind::RigidTy(RigidTy::Slice(_) | RigidTy::Str)) { Ok(V::ptr(view_ptr(cx, st, &a[0])?)) } else { Ok(a[0].clone()) } }),
        "<string::String as convert::AsRef>::as_ref" | "<str as convert::AsRef>::as_ref" => n!(|cx, st, a, ci| { match pointee(ci.ret).kind() { TyKind::RigidTy(RigidTy::Str) => Ok(V::ptr(view_ptr(cx, st, &a[0])?)), _ => as_bytes(cx, st, &a[0]) } }),
        "str::as_bytes" | "string::String::as_bytes" => n!(|cx, st, a, ci| as_bytes(cx, st, &a[0])),
        "string::String::into_bytes" => n!(|cx, st, a, ci| { let s = seq_at(cx, st, &a[0])?; Ok(V::Seq(Rc::new(utf8(cx, st, &s)?))) }),
        "<vec::Vec as ops::Index>::index" | "<vec::Vec as ops::IndexMut>::index_mut" | "slice::index::index" | "slice::index::index_mut" | "<[T] as ops::Index>::index" | "<[T] as ops::IndexMut>::index_mut" | "<string::String as ops::Index>::index" | "string::index" | "str::traits::index" | "<str as ops::Index>::index" | "array::index" | "array::index_mut" | "<[T; N] as ops::Index>::index" | "<[T; N] as ops::IndexMut>::index_mut" => Some(nat_index as Nat),
        "slice::get" | "slice::get_mut" | "str::get" => Some(nat_get as Nat),
        "slice::get_unchecked" | "slice::get_unchecked_mut" | "str::get_unchecked" => Some(nat_index as Nat),
        "slice::iter" | "slice::iter_mut" => n!(|cx, st, a, ci| Ok(V::agg(vec![V::ptr(view_ptr(cx, st, &a[0])?)]))),
        "str::chars" => n!(|cx, st, a, ci| { let p = view_ptr(cx, st, &a[0])?; Ok(V::agg(vec![V::ptr(p)])) }),
        "str::char_indices" => n!(|cx, st, a, ci| { let p = view_ptr(cx, st, &a[0])?; Ok(V::agg(vec![V::int(0), V::agg(vec![V::ptr(p)])])) }),
        "str::bytes" => n!(|cx, st, a, ci| { let p = as_bytes(cx, st, &a[0])?; Ok(V::agg(vec![p])) }),
        "str::Chars::as_str" | "slice::Iter::as_slice" | "slice::IterMut::into_slice" => n!(|cx, st, a, ci| { let p = cx.deref(st, &a[0])?; cx.read(st, &sub_ptr(&p, PE::F(0))) }),
        "<vec::Vec as iter::IntoIterator>::into_iter" | "array::iter::into_iter" | "<[T; N] as iter::IntoIterator>::into_iter" => n!(|cx, st, a, ci| { if let V::Ptr(_) = &a[0] { return Ok(V::agg(vec![V::ptr(view_ptr(cx, st, &a[0])?)])); } Ok(own(seq_at(cx, st, &a[0])?)) }),
        "slice::iter::into_iter" | "array::into_iter" | "<&[T; N] as iter::IntoIterator>::into_iter" | "<&[T] as iter::IntoIterator>::into_iter" | "<&vec::Vec as iter::IntoIterator>::into_iter" | "<&mut vec::Vec as iter::IntoIterator>::into_iter" => n!(|cx, st, a, ci| { if let V::Seq(s) = &a[0] { return Ok(own(s.clone())); } Ok(V::agg(vec![V::ptr(view_ptr(cx, st, &a[0])?)])) }),
        "slice::chunks" | "slice::chunks_exact" | "slice::windows" => n!(|cx, st, a, ci| { let k = cx.int(&a[1])?; require(cx, st, cmp(Op::Lt, FALSE, k), "chunk size must be non-zero")?; Ok(V::agg(vec![V::ptr(view_ptr(cx, st, &a[0])?), a[1].clone()])) }),
        "slice::ChunksExact::remainder" => n!(|cx, st, a, ci| unsup("remainder")),
        "slice::first" | "slice::first_mut" => n!(|cx, st, a, ci| { let p = view_ptr(cx, st, &a[0])?; let (s, n) = p.view.unwrap(); let pos = cx.simp(st, cmp(Op::Lt, FALSE, n)); if pos == FALSE { return Ok(V::none()); } Ok(V::opt(pos, V::ptr(el_at(&p, s)))) }),
        "slice::last" | "slice::last_mut" => n!(|cx, st, a, ci| { let p = view_ptr(cx, st, &a[0])?; let (s, n) = p.view.unwrap(); let n = cx.simp(st, n); let pos = cx.simp(st, cmp(Op::Lt, FALSE, n)); if pos == FALSE { return Ok(V::none()); } let i = sub(add(s, n), TRUE); let i = if pos == TRUE { i } else { ite(pos, i, s) }; Ok(V::opt(pos, V::ptr(el_at(&p, i)))) }),
        "slice::split_first" | "slice::split_last" => n!(|cx, st, a, ci| { let p = view_ptr(cx, st, &a[0])?; let (s, n) = p.view.unwrap(); let n = cx.simp(st, n); let pos = cx.simp(st, cmp(Op::Lt, FALSE, n)); if pos == FALSE { return Ok(V::none()); }
            let mut r = p.clone(); let i; if ci.name.ends_with("first") { i = s; r.view = Some((add(s, TRUE), sub(n, TRUE))); } else { i = sub(add(s, n), TRUE); r.view = Some((s, sub(n, TRUE))); }
            if pos != TRUE { return Err(E::Split(pos)); }
            Ok(V::opt(pos, V::agg(vec![V::ptr(el_at(&p, i)), V::ptr(r)]))) }),
        "slice::split_at" | "slice::split_at_mut" | "slice::split_at_checked" | "str::split_at" => n!(|cx, st, a, ci| { let p = view_ptr(cx, st, &a[0])?; let (s, n) = p.view.unwrap(); let k = cx.int(&a[1])?;
            let (k, ok) = if ci.name.starts_with("str") { let sq = seq_at(cx, st, &a[0])?; byte_to_cell(cx, st, &sq, k)? } else { (k, cmp(Op::Le, k, n)) };
            let (mut x, mut y) = (p.clone(), p); x.view = Some((s, k)); y.view = Some((add(s, k), sub(n, k))); let r = V::agg(vec![V::ptr(x), V::ptr(y)]);
            if ci.name.ends_with("checked") { return Ok(V::opt(cx.simp(st, ok), r)); }
            require(cx, st, ok, "split_at out of bounds")?; Ok(r) }),
        "slice::contains" => n!(|cx, st, a, ci| { let s = seq_at(cx, st, &a[0])?; let t = elem_ty(pointee(ci.tys[0])); if !eq_ok(t) { return unsup("contains"); } let p = cx.deref(st, &a[1])?; let x = cx.read(st, &p)?; let mut g = FALSE; for (i, e) in s.el.iter().enumerate() { let inb = cmp(Op::Lt, c(i as i128), s.len); if inb == FALSE { break; } g = or(g, and(inb, eq_v(cx, st, e, &x)?)); } Ok(V::T(g)) }),
        "slice::to_vec" | "slice::to_owned" | "slice::into_vec" | "str::to_owned" | "<str as borrow::ToOwned>::to_owned" | "<[T] as borrow::ToOwned>::to_owned" | "string::String::from" | "<string::String as convert::From>::from" | "<vec::Vec as convert::From>::from" | "vec::from" | "string::from" | "str::into_string" | "str::to_string" | "<string::String as clone::Clone>::clone" | "<vec::Vec as clone::Clone>::clone" | "vec::Vec::into_boxed_slice_" | "<str as string::ToString>::to_string" | "<string::String as string::ToString>::to_string" | "<str as string::SpecToString>::spec_to_string" | "<string::String as string::SpecToString>::spec_to_string" | "slice::hack::to_vec" | "str::into_boxed_str_" | "string::String::from_utf8_unchecked" | "str::from_utf8_unchecked_" => n!(|cx, st, a, ci| { if let V::T(_) = &a[0] { return Ok(V::seq(vec![a[0].clone()])); }
            let to_text = is_text(ci.ret); let from_text = is_text(pointee(ci.tys[0])); let s = seq_at(cx, st, &a[0])?; let s = clamp_len(cx, st, &s)?; if from_text && !to_text { return Ok(V::Seq(Rc::new(utf8(cx, st, &s)?))); } if to_text && !from_text && !all_ascii(cx, st, &s) { return unsup("bytes to text"); } Ok(V::Seq(s)) }),
        "vec::from_elem" => n!(|cx, st, a, ci| { let k = cx.int(&a[1])?; let k = cx.simp(st, k); if let Some(n) = k.val() { if n > 4_000_000 { return unsup("huge vec"); } return Ok(V::seq(vec![a[0].clone(); n as usize])); } let hi = k.range().1; if hi > 5000 { let _ = cx.need(st, k)?; } Ok(V::seq_len_of(vec![a[0].clone(); hi as usize], k)) }),
        "slice::reverse" => n!(|cx, st, a, ci| { let p = view_ptr(cx, st, &a[0])?; let s = seq_at(cx, st, &V::ptr(p.clone()))?; let n = cx.need(st, s.len)? as usize; let mut el = s.el[..n].to_vec(); el.reverse(); cx.write(st, &p, V::seq(el))?; Ok(V::unit()) }),
        "slice::swap" => n!(|cx, st, a, ci| { let p = view_ptr(cx, st, &a[0])?; let (s, n) = p.view.unwrap(); let (i, j) = (cx.int(&a[1])?, cx.int(&a[2])?); require(cx, st, and(cmp(Op::Lt, i, n), cmp(Op::Lt, j, n)), "index out of bounds")?; let (pi, pj) = (el_at(&p, add(s, i)), el_at(&p, add(s, j))); let (x, y) = (cx.read(st, &pi)?, cx.read(st, &pj)?); cx.write(st, &pi, y)?; cx.write(st, &pj, x)?; Ok(V::unit()) }),
        "slice::fill" => n!(|cx, st, a, ci| { let p = view_ptr(cx, st, &a[0])?; let n = cx.need(st, p.view.unwrap().1)? as usize; cx.write(st, &p, V::seq(vec![a[1].clone(); n]))?; Ok(V::unit()) }),
        "slice::copy_from_slice" | "slice::clone_from_slice" => n!(|cx, st, a, ci| { let p = view_ptr(cx, st, &a[0])?; let s = seq_at(cx, st, &a[1])?; let n = p.view.unwrap().1; require(cx, st, cmp(Op::Eq, n, s.len), "copy_from_slice: length mismatch")?; let s = clamp_len(cx, st, &s)?; let _ = cx.need(st, s.len)?; cx.write(st, &p, V::Seq(s))?; Ok(V::unit()) }),
        "slice::starts_with" | "slice::ends_with" => n!(|cx, st, a, ci| { let (s, q) = (seq_at(cx, st, &a[0])?, seq_at(cx, st, &a[1])?); if !eq_ok(elem_ty(pointee(ci.tys[0]))) { return unsup("starts_with"); } let m = cx.need(st, q.len)?; let n = cx.simp(st, s.len); if ci.name.ends_with("starts_with") { let g = cmp(Op::Le, c(m), n); if g == FALSE { return Ok(V::T(FALSE)); } let (el, _) = (s.el[..(m as usize).min(s.el.len())].to_vec(), 0); let e = eq_seq(cx, st, &Seq { len: c(el.len() as i128), el }, &q)?; Ok(V::T(and(g, e))) } else { let n = cx.need(st, n)?; if m > n { return Ok(V::T(FALSE)); } let el = s.el[(n - m) as usize..n as usize].to_vec(); let e = eq_seq(cx, st, &Seq { len: c(m), el }, &q)?; Ok(V::T(e)) } }),
        "slice::concat" | "str::concat" | "<[V] as slice::Concat>::concat" | "<[S] as slice::Concat>::concat" => n!(|cx, st, a, ci| { let s = seq_at(cx, st, &a[0])?; let n = cx.need(st, s.len)? as usize; let mut o = Seq { el: vec![], len: FALSE }; for x in &s.el[..n] { let q = seq_at(cx, st, x)?; append(cx, st, &mut o, &q.el, q.len)?; } Ok(V::Seq(Rc::new(o))) }),
        "slice::join" | "<[V] as slice::Join>::join" | "<[S] as slice::Join>::join" => n!(|cx, st, a, ci| { let s = seq_at(cx, st, &a[0])?; let n = cx.need(st, s.len)? as usize; let sep = match &a[1] { V::Ptr(p) if p.view.is_none() => match cx.read(st, p)? { V::Seq(s) => s, v => Rc::new(Seq { el: vec![v], len: TRUE }) }, v => seq_at(cx, st, v)? }; let mut o = Seq { el: vec![], len: FALSE }; for (i, x) in s.el[..n].iter().enumerate() { if i > 0 { append(cx, st, &mut o, &sep.el, sep.len)?; } let q = seq_at(cx, st, x)?; append(cx, st, &mut o, &q.el, q.len)?; } Ok(V::Seq(Rc::new(o))) }),
        "slice::repeat" | "str::repeat" => n!(|cx, st, a, ci| { let s = seq_at(cx, st, &a[0])?; let k = cx.int(&a[1])?; let k = cx.need(st, k)?; if k * s.el.len() as i128 > 2_000_000 { return unsup("huge repeat"); } let mut o = Seq { el: vec![], len: FALSE }; for _ in 0..k { append(cx, st, &mut o, &s.el, s.len)?; } Ok(V::Seq(Rc::new(o))) }),
        "slice::rotate_left" | "slice::rotate_right" => n!(|cx, st, a, ci| { let p = view_ptr(cx, st, &a[0])?; let s = seq_at(cx, st, &V::ptr(p.clone()))?; let n = cx.need(st, s.len)? as usize; let k = cx.int(&a[1])?; let k = cx.need(st, k)? as usize; require(cx, st, b(k <= n), "rotate")?; let mut el = s.el[..n].to_vec(); if ci.name.ends_with("left") { el.rotate_left(k) } else { el.rotate_right(k) } cx.write(st, &p, V::seq(el))?; Ok(V::unit()) }),
        "array::map" => n!(|cx, st, a, ci| { let s = seq_at(cx, st, &a[0])?; let fty = ci.tys[1]; st.fr.push(Rc::new(Frame { l: vec![a[1].clone()] })); let p = V::ptr(Ptr { root: Root::Local(st.fr.len() as u32 - 1, 0), path: vec![], view: None, dynty: None }); let mut o = vec![]; for x in &s.el { o.push(cx.call_closure(p.clone(), fty, true, vec![x.clone()], st, elem_ty(ci.ret))?); } st.fr.pop(); Ok(V::seq(o)) }),
        "array::from_fn" => n!(|cx, st, a, ci| { let fty = ci.tys[0]; let nn = match ci.ret.kind() { TyKind::RigidTy(RigidTy::Array(_, k)) => k.eval_target_usize().unwrap_or(0), _ => return unsup("from_fn") }; st.fr.push(Rc::new(Frame { l: vec![a[0].clone()] })); let p = V::ptr(Ptr { root: Root::Local(st.fr.len() as u32 - 1, 0), path: vec![], view: None, dynty: None }); let mut o = vec![]; for i in 0..nn { o.push(cx.call_closure(p.clone(), fty, true, vec![V::int(i as i128)], st, elem_ty(ci.ret))?); } st.fr.pop(); Ok(V::seq(o)) }),
        "array::clone" | "<[T; N] as clone::Clone>::clone" => n!(|cx, st, a, ci| { let p = cx.deref(st, &a[0])?; cx.read(st, &p) }),
        "<[T; N] as convert::TryFrom>::try_from" | "array::try_from" => n!(|cx, st, a, ci| { let s = seq_at(cx, st, &a[0])?; let rty = match ci.ret.kind() { TyKind::RigidTy(RigidTy::Adt(_, g)) => *g.0[0].ty().unwrap(), _ => return unsup("try_from") }; let (isref, aty) = match rty.kind() { TyKind::RigidTy(RigidTy::Ref(_, t, _)) => (true, t), _ => (false, rty) }; let k = match aty.kind() { TyKind::RigidTy(RigidTy::Array(_, k)) => k.eval_target_usize().unwrap_or(0), _ => return unsup("try_from") }; let n = cx.need(st, s.len)?; if n != k as i128 { return Ok(V::err(V::unit())); } let v = V::Seq(clamp_len(cx, st, &s)?); if isref { let mut p = view_ptr(cx, st, &a[0])?; if p.view.unwrap().0 == FALSE { p.view = None; Ok(V::ok(V::ptr(p))) } else { Ok(V::ok(V::refval(v))) } } else { Ok(V::ok(v)) } }),
        "boxed::Box::new" => n!(|cx, st, a, ci| Ok(V::Box(Rc::new(a[0].clone())))),
        "boxed::Box::new_uninit" => n!(|cx, st, a, ci| Ok(V::Box(Rc::new(V::Undef)))),
        "boxed::box_assume_init_into_vec_unsafe" => n!(|cx, st, a, ci| match &a[0] { V::Box(x) => Ok((**x).clone()), V::Case(k) => Err(E::Split(k.0)), _ => unsup("box into vec") }),
        "vec::Vec::into_boxed_slice" | "string::String::into_boxed_str" => n!(|cx, st, a, ci| Ok(V::Box(Rc::new(a[0].clone())))),
        "<boxed::Box as clone::Clone>::clone" => n!(|cx, st, a, ci| { let p = cx.deref(st, &a[0])?; cx.read(st, &p) }),
        // ---- str
        "str::is_char_boundary" => n!(|cx, st, a, ci| { let s = seq_at(cx, st, &a[0])?; let k = cx.int(&a[1])?; let (_, ok) = byte_to_cell(cx, st, &s, k)?; Ok(V::T(ok)) }),
        "str::is_ascii" | "slice::ascii::is_ascii" => n!(|cx, st, a, ci| { let s = seq_at(cx, st, &a[0])?; let mut g = TRUE; for (i, x) in s.el.iter().enumerate() { let inb = cmp(Op::Lt, c(i as i128), s.len); if inb == FALSE { break; } let e = cmp(Op::Lt, cell(x)?, c(128)); g = and(g, or(not(inb), e)); } Ok(V::T(g)) }),
        "str::contains" => n!(|cx, st, a, ci| { let s = seq_at(cx, st, &a[0])?; let (ps, _) = pat_positions(cx, st, &s, &a[1], ci.tys[1])?; let mut g = FALSE; for p in ps { g = or(g, p); } Ok(V::T(g)) }),
        "str::starts_with" => n!(|cx, st, a, ci| { let s = seq_at(cx, st, &a[0])?; let (ps, _) = pat_positions(cx, st, &s, &a[1], ci.tys[1])?; Ok(V::T(ps.first().cloned().unwrap_or(FALSE))) }),
        "str::ends_with" => n!(|cx, st, a, ci| { let s = seq_at(cx, st, &a[0])?; let n = cx.need(st, s.len)?; let (ps, m) = pat_positions(cx, st, &s, &a[1], ci.tys[1])?; let i = n - m; Ok(V::T(if i < 0 { FALSE } else { ps.get(i as usize).cloned().unwrap_or(FALSE) })) }),
        "str::find" | "str::rfind" => n!(|cx, st, a, ci| { let s = seq_at(cx, st, &a[0])?; let (ps, _) = pat_positions(cx, st, &s, &a[1], ci.tys[1])?;
            let mut pos = vec![]; let mut acc = FALSE; for i in 0..ps.len() { pos.push(acc); if i < s.el.len() { acc = add(acc, width(cell(&s.el[i])?)); } }
            let mut any = FALSE; let mut idx = FALSE;
            let order: Vec<usize> = if ci.name.ends_with("rfind") { (0..ps.len()).rev().collect() } else { (0..ps.len()).collect() };
            for i in order { let hit = and(ps[i], not(any)); idx = ite(hit, pos[i], idx); any = or(any, ps[i]); }
            Ok(V::opt(cx.simp(st, any), V::T(idx))) }),
        "str::strip_prefix" => n!(|cx, st, a, ci| { let s = seq_at(cx, st, &a[0])?; let (ps, m) = pat_positions(cx, st, &s, &a[1], ci.tys[1])?; let g = cx.simp(st, ps.first().cloned().unwrap_or(FALSE)); let mut p = view_ptr(cx, st, &a[0])?; let (s0, n0) = p.view.unwrap(); p.view = Some((add(s0, c(m)), sub(n0, c(m)))); Ok(V::opt(g, V::ptr(p))) }),
        "str::strip_suffix" => n!(|cx, st, a, ci| { let s = seq_at(cx, st, &a[0])?; let n = cx.need(st, s.len)?; let (ps, m) = pat_positions(cx, st, &s, &a[1], ci.tys[1])?; let i = n - m; let g = if i < 0 { FALSE } else { cx.simp(st, ps.get(i as usize).cloned().unwrap_or(FALSE)) }; let mut p = view_ptr(cx, st, &a[0])?; let (s0, n0) = p.view.unwrap(); p.view = Some((s0, sub(n0, c(m)))); Ok(V::opt(g, V::ptr(p))) }),
        "str::trim_end_matches" | "str::trim_start_matches" | "str::trim_matches" | "str::trim" | "str::trim_end" | "str::trim_start" => n!(|cx, st, a, ci| { let s = seq_at(cx, st, &a[0])?; let n = cx.need(st, s.len)? as usize; no_tokens_ends(&s, n)?;
            let (mut lo, mut hi) = (0usize, n);
            let ws = a.len() < 2;
            let end = !ci.name.contains("start"); let start = !ci.name.contains("end");
            let test = |cx: &mut Cx, st: &mut State, i: usize| -> R<bool> { if is_token(&s.el[i]) { return Ok(false); } let t = cell(&s.el[i])?; let g = if ws { char_pred(cx, st, t, |x| x.is_whitespace())? } else { match pat_cell(cx, st, &a[1], ci.tys[1], t)? { Some(g) => g, None => return unsup("trim pattern") } }; Ok(cx.need(st, g)? != 0) };
            if start { while lo < hi && test(cx, st, lo)? { lo += 1; } }
            if end { while lo < hi && test(cx, st, hi - 1)? { hi -= 1; } }
            let mut p = view_ptr(cx, st, &a[0])?; let (s0, _) = p.view.unwrap(); p.view = Some((add(s0, c(lo as i128)), c((hi - lo) as i128))); Ok(V::ptr(p)) }),
        "str::to_uppercase" | "str::to_lowercase" | "str::to_ascii_uppercase" | "str::to_ascii_lowercase" => n!(|cx, st, a, ci| { let s = seq_at(cx, st, &a[0])?; if !ci.name.contains("ascii") && !all_ascii(cx, st, &s) { return unsup("unicode case mapping"); } let up = ci.name.ends_with("uppercase"); let mut el = vec![]; for x in &s.el { if is_token(x) { el.push(x.clone()); continue; } let t = cell(x)?; el.push(V::T(char_map(cx, st, t, if up { |x| x.to_ascii_uppercase() } else { |x| x.to_ascii_lowercase() })?)); } Ok(V::seq_len_of(el, s.len)) }),
        "str::replace" => n!(|cx, st, a, ci| { let s = seq_at(cx, st, &a[0])?; let n = cx.need(st, s.len)? as usize; let to = seq_at(cx, st, &a[2])?; 
            // single-character patterns
            let mut o = Seq { el: vec![], len: FALSE };
            if n > 0 && pat_cell(cx, st, &a[1], ci.tys[1], cell(&s.el[0])?)?.is_none() {
                let p = seq_at(cx, st, &a[1])?; let m = cx.need(st, p.len)? as usize; if m == 0 { return unsup("replace of empty pattern"); }
                let mut i = 0; while i < n { let g = match_at(cx, st, &Seq { el: s.el[..n].to_vec(), len: c(n as i128) }, i, &p)?; if cx.need(st, g)? != 0 { append(cx, st, &mut o, &to.el, to.len)?; i += m; } else { append(cx, st, &mut o, &[s.el[i].clone()], TRUE)?; i += 1; } }
                return Ok(V::Seq(Rc::new(o)));
            }
            for i in 0..n { if is_token(&s.el[i]) { append(cx, st, &mut o, &[s.el[i].clone()], TRUE)?; continue; }
                let t = cell(&s.el[i])?; let g = match pat_cell(cx, st, &a[1], ci.tys[1], t)? { Some(g) => cx.simp(st, g), None => return unsup("replace") };
                // piece: `to` when matched, the character otherwise
                let k = to.el.len().max(1); let mut el = vec![]; for j in 0..k { let x = to.el.get(j).cloned().unwrap_or(V::Undef); el.push(if j == 0 { merge(g, &x, &s.el[i]) } else { x }); }
                append(cx, st, &mut o, &el, ite(g, to.len, TRUE))?; }
            Ok(V::Seq(Rc::new(o))) }),
        "str::split" | "str::split_terminator" => n!(|cx, st, a, ci| { let s = seq_at(cx, st, &a[0])?; let n = cx.need(st, s.len)? as usize; let (ps, m) = pat_positions(cx, st, &s, &a[1], ci.tys[1])?; if m == 0 { return unsup("empty split pattern"); } let mut out = vec![]; let mut cur = 0; let mut i = 0; while i < n { let g = ps.get(i).cloned().unwrap_or(FALSE); if cx.need(st, g)? != 0 { out.push(split_owned(&s.el[cur..i])); i += m as usize; cur = i; } else { i += 1; } } if !(ci.name.ends_with("terminator") && cur == n) { out.push(split_owned(&s.el[cur..n])); } Ok(own(Rc::new(Seq { len: c(out.len() as i128), el: out }))) }),
        "str::lines" => n!(|cx, st, a, ci| { let s = seq_at(cx, st, &a[0])?; let n = cx.need(st, s.len)? as usize; let mut out = vec![]; let mut cur = 0; for i in 0..n { if is_token(&s.el[i]) { continue; } let g = cmp(Op::Eq, cell(&s.el[i])?, c(10)); if cx.need(st, g)? != 0 { out.push(split_owned(&s.el[cur..i])); cur = i + 1; } } if cur < n { out.push(split_owned(&s.el[cur..n])); } Ok(own(Rc::new(Seq { len: c(out.len() as i128), el: out }))) }),
        "<str::Split as iter::Iterator>::next" | "<str::SplitTerminator as iter::Iterator>::next" | "<str::Lines as iter::Iterator>::next" => n!(|cx, st, a, ci| owned_next(cx, st, &a[0], false)),
        "str::parse" => n!(|cx, st, a, ci| { let s = seq_at(cx, st, &a[0])?; no_tokens(&s)?; let rty = match ci.ret.kind() { TyKind::RigidTy(RigidTy::Adt(_, g)) => *g.0[0].ty().unwrap(), _ => return unsup("parse") }; let (bits, sg) = match int_bits(rty) { Some(x) if !rty.kind().is_char() && !rty.kind().is_bool() => x, _ => return unsup("parse type") };
            let n = cx.need(st, s.len)? as usize; if n == 0 { return Ok(V::err(V::agg(vec![V::variant(0, 5, vec![])]))); } if sg { return unsup("signed parse"); }
            if n == 1 { let t = cell(&s.el[0])?; let ok = and(cmp(Op::Le, c(48), t), cmp(Op::Le, t, c(57))); let v = sub(t, c(48)); return Ok(res(cx.simp(st, ok), V::T(ite(ok, v, FALSE)), V::agg(vec![V::variant(1, 5, vec![])]))); }
            let mut ok = TRUE; let mut v = FALSE; for i in 0..n { let t = cell(&s.el[i])?; let plus = if i == 0 { cmp(Op::Eq, t, c(43)) } else { FALSE }; let d = and(cmp(Op::Le, c(48), t), cmp(Op::Le, t, c(57))); ok = and(ok, or(d, plus)); v = add(mulc(v, 10), ite(d, sub(t, c(48)), FALSE)); }
            let fits = cmp(Op::Le, v, c(int_range(bits, sg).1)); let ok2 = and(ok, fits); Ok(res(cx.simp(st, ok2), V::T(v), V::agg(vec![V::variant(1, 5, vec![])]))) }),
        "str::from_utf8" | "str::converts::from_utf8" | "string::String::from_utf8" | "str::from_utf8_unchecked" | "str::converts::from_utf8_unchecked" => n!(|cx, st, a, ci| { let s = seq_at(cx, st, &a[0])?; if !all_ascii(cx, st, &s) { return unsup("from_utf8 of non-ASCII"); } let v = if ci.name.starts_with("string") { a[0].clone() } else { V::ptr(view_ptr(cx, st, &a[0])?) }; Ok(if ci.name.ends_with("unchecked") { v } else { V::ok(v) }) }),
        "str::eq_ignore_ascii_case" => n!(|cx, st, a, ci| { let (x, y) = (seq_at(cx, st, &a[0])?, seq_at(cx, st, &a[1])?); let low = |s: &Seq| -> R<Seq> { let mut el = vec![]; for e in &s.el { el.push(V::T(char_map(cx, st, cell(e)?, |x| x.to_ascii_lowercase())?)); } Ok(Seq { el, len: s.len }) }; let (p, q) = (low(&x)?, low(&y)?); Ok(V::T(eq_seq(cx, st, &p, &q)?)) }),
        // ---- char
        "char::methods::is_alphabetic" => n!(|cx, st, a, ci| { let t = cx.int(&a[0])?; Ok(V::T(char_pred(cx, st, t, |x| x.is_alphabetic())?)) }),
        "char::methods::is_alphanumeric" => n!(|cx, st, a, ci| { let t = cx.int(&a[0])?; Ok(V::T(char_pred(cx, st, t, |x| x.is_alphanumeric())?)) }),
        "char::methods::is_numeric" => n!(|cx, st, a, ci| { let t = cx.int(&a[0])?; Ok(V::T(char_pred(cx, st, t, |x| x.is_numeric())?)) }),
        "char::methods::is_whitespace" => n!(|cx, st, a, ci| { let t = cx.int(&a[0])?; Ok(V::T(char_pred(cx, st, t, |x| x.is_whitespace())?)) }),
        "char::methods::is_uppercase" => n!(|cx, st, a, ci| { let t = cx.int(&a[0])?; Ok(V::T(char_pred(cx, st, t, |x| x.is_uppercase())?)) }),
        "char::methods::is_lowercase" => n!(|cx, st, a, ci| { let t = cx.int(&a[0])?; Ok(V::T(char_pred(cx, st, t, |x| x.is_lowercase())?)) }),
        "char::methods::is_control" => n!(|cx, st, a, ci| { let t = cx.int(&a[0])?; Ok(V::T(char_pred(cx, st, t, |x| x.is_control())?)) }),
        "char::methods::to_ascii_uppercase" => n!(|cx, st, a, ci| { let p = cx.deref(st, &a[0])?; let v = cx.read(st, &p)?; let t = cx.int(&v)?; Ok(V::T(char_map(cx, st, t, |x| x.to_ascii_uppercase())?)) }),
        "char::methods::to_ascii_lowercase" => n!(|cx, st, a, ci| { let p = cx.deref(st, &a[0])?; let v = cx.read(st, &p)?; let t = cx.int(&v)?; Ok(V::T(char_map(cx, st, t, |x| x.to_ascii_lowercase())?)) }),
        "char::methods::len_utf8" => n!(|cx, st, a, ci| { let t = cx.int(&a[0])?; Ok(V::T(width(t))) }),
        "char::convert::from_u32" | "char::from_u32" | "char::methods::from_u32" => n!(|cx, st, a, ci| { let t = cx.simp(st, cx.int(&a[0])?); let ok = or(cmp(Op::Lt, t, c(0xD800)), and(cmp(Op::Lt, c(0xDFFF), t), cmp(Op::Le, t, c(0x10FFFF)))); Ok(V::opt(ok, V::T(t))) }),
        "char::convert::from_u32_unchecked" | "char::convert::char_try_from_u32_" => n!(|cx, st, a, ci| Ok(a[0].clone())),
        // ---- memory
        "mem::swap" => n!(|cx, st, a, ci| { let (p, q) = (cx.deref(st, &a[0])?, cx.deref(st, &a[1])?); let (x, y) = (cx.read(st, &p)?, cx.read(st, &q)?); cx.write(st, &p, y)?; cx.write(st, &q, x)?; Ok(V::unit()) }),
        "mem::replace" => n!(|cx, st, a, ci| { let p = cx.deref(st, &a[0])?; let x = cx.read(st, &p)?; cx.write(st, &p, a[1].clone())?; Ok(x) }),
        "ptr::read" | "intrinsic::read_via_copy" | "ptr::const_ptr::read" | "ptr::mut_ptr::read" => n!(|cx, st, a, ci| { let p = cx.deref(st, &a[0])?; cx.read(st, &p) }),
        "ptr::write" | "intrinsic::write_via_move" | "ptr::mut_ptr::write" => n!(|cx, st, a, ci| { let p = cx.deref(st, &a[0])?; cx.write(st, &p, a[1].clone())?; Ok(V::unit()) }),
        "mem::forget" | "mem::drop" | "ptr::drop_in_place" => n!(|cx, st, a, ci| Ok(V::unit())),
        "intrinsic::forget" | "intrinsic::assume" | "intrinsic::assert_inhabited" | "intrinsic::assert_zero_valid" | "intrinsic::cold_path" | "intrinsic::ub_checks" => n!(|cx, st, a, ci| Ok(V::unit())),
        "intrinsic::likely" | "intrinsic::unlikely" | "intrinsic::black_box" => n!(|cx, st, a, ci| Ok(a[0].clone())),
        "intrinsic::size_of" => n!(|cx, st, a, ci| Ok(V::int(size_of(targ(ci, 0)?) as i128))),
        "intrinsic::needs_drop" => n!(|cx, st, a, ci| Ok(V::bool(false))),
        "intrinsic::is_val_statically_known" => n!(|cx, st, a, ci| Ok(V::bool(false))),
        "intrinsic::transmute" | "intrinsic::transmute_unchecked" => n!(|cx, st, a, ci| cx.transmute(a[0].clone(), ci.tys[0], ci.ret)),
        "intrinsic::discriminant_value" => n!(|cx, st, a, ci| { let p = cx.deref(st, &a[0])?; let v = cx.read(st, &p)?; cx.discr(st, &v, pointee(ci.tys[0])) }),
        "intrinsic::select_unpredictable" | "bool::select_unpredictable" | "hint::select_unpredictable" => n!(|cx, st, a, ci| { let g = cx.simp(st, cx.int(&a[0])?); Ok(merge(g, &a[1], &a[2])) }),
        "intrinsic::const_eval_select" => n!(|cx, st, a, ci| { let t = match &a[0] { V::Agg(v) => (**v).clone(), _ => return unsup("const_eval_select") }; cx.call_closure(a[2].clone(), ci.tys[2], false, t, st, ci.ret) }),
        "intrinsic::wrapping_add" | "intrinsic::wrapping_sub" | "intrinsic::wrapping_mul" => n!(|cx, st, a, ci| { let (bits, sg) = ity(ci)?; let (x, y) = two(cx, st, a)?; let r = if ci.name.ends_with("add") { add(x, y) } else if ci.name.ends_with("sub") { sub(x, y) } else { mul(x, y) }; Ok(V::T(wrap(r, bits, sg))) }),
        "intrinsic::add_with_overflow" | "intrinsic::sub_with_overflow" | "intrinsic::mul_with_overflow" => n!(|cx, st, a, ci| { let (bits, sg) = ity(ci)?; let (x, y) = two(cx, st, a)?; let r = if ci.name.contains("add") { add(x, y) } else if ci.name.contains("sub") { sub(x, y) } else { mul(x, y) }; let (lo, hi) = int_range(bits, sg); let ov = or(cmp(Op::Lt, r, c(lo)), cmp(Op::Lt, c(hi), r)); Ok(V::agg(vec![V::T(wrap(r, bits, sg)), V::T(ov)])) }),
        "intrinsic::saturating_add" | "intrinsic::saturating_sub" => n!(|cx, st, a, ci| { let (bits, sg) = ity(ci)?; let (x, y) = two(cx, st, a)?; let r = if ci.name.ends_with("add") { add(x, y) } else { sub(x, y) }; let (lo, hi) = int_range(bits, sg); Ok(V::T(ite(cmp(Op::Lt, r, c(lo)), c(lo), ite(cmp(Op::Lt, c(hi), r), c(hi), r)))) }),
        "intrinsic::unchecked_add" => n!(|cx, st, a, ci| { let (x, y) = two(cx, st, a)?; Ok(V::T(add(x, y))) }),
        "intrinsic::unchecked_sub" => n!(|cx, st, a, ci| { let (x, y) = two(cx, st, a)?; Ok(V::T(sub(x, y))) }),
        "intrinsic::unchecked_mul" => n!(|cx, st, a, ci| { let (x, y) = two(cx, st, a)?; Ok(V::T(mul(x, y))) }),
        "intrinsic::unchecked_div" | "intrinsic::exact_div" => n!(|cx, st, a, ci| { let (x, y) = two(cx, st, a)?; Ok(V::T(bin(Op::Div, x, y))) }),
        "intrinsic::unchecked_rem" => n!(|cx, st, a, ci| { let (x, y) = two(cx, st, a)?; Ok(V::T(bin(Op::Rem, x, y))) }),
        "intrinsic::unchecked_shl" => n!(|cx, st, a, ci| { let (bits, sg) = ity(ci)?; let (x, y) = two(cx, st, a)?; Ok(V::T(wrap(bin(Op::Shl, x, y), bits, sg))) }),
        "intrinsic::unchecked_shr" => n!(|cx, st, a, ci| { let (x, y) = two(cx, st, a)?; Ok(V::T(bin(Op::Shr, x, y))) }),
        "intrinsic::ctpop" => n!(|cx, st, a, ci| { let t = cx.int(&a[0])?; let (bits, _) = ity(ci)?; leafwise(cx, st, t, &mut |v| ((v as u128) & (u128::MAX >> (128 - bits as u32))).count_ones() as i128) }),
        "intrinsic::cttz" | "intrinsic::cttz_nonzero" => n!(|cx, st, a, ci| { let t = cx.int(&a[0])?; let (bits, _) = ity(ci)?; leafwise(cx, st, t, &mut |v| if v == 0 { bits as i128 } else { v.trailing_zeros() as i128 }) }),
        "intrinsic::ctlz" | "intrinsic::ctlz_nonzero" => n!(|cx, st, a, ci| { let t = cx.int(&a[0])?; let (bits, _) = ity(ci)?; leafwise(cx, st, t, &mut |v| { let u = (v as u128) & (u128::MAX >> (128 - bits as u32)); u.leading_zeros() as i128 - (128 - bits as i128) }) }),
        "intrinsic::bitreverse" => n!(|cx, st, a, ci| { let t = cx.int(&a[0])?; let (bits, sg) = ity(ci)?; leafwise(cx, st, t, &mut |v| wrap_val(((v as u128).reverse_bits() >> (128 - bits as u32)) as i128, bits, sg)) }),
        "intrinsic::bswap" => n!(|cx, st, a, ci| { let t = cx.int(&a[0])?; let (bits, sg) = ity(ci)?; leafwise(cx, st, t, &mut |v| wrap_val(((v as u128).swap_bytes() >> (128 - bits as u32)) as i128, bits, sg)) }),
        "intrinsic::rotate_left" | "intrinsic::rotate_right" => n!(|cx, st, a, ci| { let (bits, sg) = ity(ci)?; let (x, k) = two(cx, st, a)?; let k = cx.need(st, k)?; let m = bits as u32; let k = (k.rem_euclid(m as i128)) as u32; let k = if ci.name.ends_with("left") { k } else { (m - k) % m }; leafwise(cx, st, x, &mut |v| { let u = (v as u128) & (u128::MAX >> (128 - m)); let r = if k == 0 { u } else { (u << k | u >> (m - k)) & (u128::MAX >> (128 - m)) }; wrap_val(r as i128, bits, sg) }) }),
        "intrinsic::three_way_compare" => n!(|cx, st, a, ci| { let (x, y) = two(cx, st, a)?; Ok(ordering(x, y)) }),
        "intrinsic::ptr_metadata" => n!(|cx, st, a, ci| { let p = view_ptr(cx, st, &a[0])?; Ok(V::T(p.view.unwrap().1)) }),
        "intrinsic::offset" | "intrinsic::arith_offset" => n!(|cx, st, a, ci| { let mut p = cx.deref(st, &a[0])?; let k = cx.int(&a[1])?; match p.path.last_mut() { Some(PE::El(t)) => { *t = add(*t, k); Ok(V::ptr(p)) } _ => unsup("pointer offset") } }),
        "intrinsic::compare_bytes" => n!(|cx, st, a, ci| unsup("compare_bytes")),
        "intrinsic::raw_eq" => n!(|cx, st, a, ci| Ok(V::T(eq_v(cx, st, &a[0], &a[1])?))),
        "intrinsic::abort" => n!(|cx, st, a, ci| { let g = st.g; cx.record_panic(g, "abort", false); Err(E::Dead) }),
        "intrinsic::unreachable" => n!(|cx, st, a, ci| Err(E::Dead)),
        "intrinsic::min_align_of" | "intrinsic::align_of" => n!(|cx, st, a, ci| Ok(V::int(1))),
        "intrinsic::floorf64" | "intrinsic::ceilf64" | "intrinsic::roundf64" | "intrinsic::truncf64" | "intrinsic::fabsf64" | "intrinsic::sqrtf64" | "intrinsic::round_ties_even_f64" | "f64::floor" | "f64::ceil" | "f64::round" | "f64::trunc" | "f64::abs" | "f64::sqrt" | "std_float::round" => n!(|cx, st, a, ci| { let t = cx.int(&a[0])?; let n = ci.name.to_string(); leafwise(cx, st, t, &mut |v| { let x = f64::from_bits(v as u64); let r = if n.contains("floor") { x.floor() } else if n.contains("ceil") { x.ceil() } else if n.contains("ties") { x.round_ties_even() } else if n.contains("round") { x.round() } else if n.contains("trunc") { x.trunc() } else if n.contains("abs") { x.abs() } else { x.sqrt() }; r.to_bits() as i128 }) }),
        "char::methods::is_digit" => None,
        _ => None,
    }
}
fn res(g: T, okv: V, errv: V) -> V {
    if g == TRUE { return V::ok(okv); } if g == FALSE { return V::err(errv); }
    V::En(Rc::new(En { d: not(g), pay: vec![Some(Rc::new(vec![okv])), Some(Rc::new(vec![errv]))] }))
}
fn no_tokens_ends(s: &Seq, n: usize) -> R<()> { let _ = (s, n); Ok(()) }
fn zip_args(ci: &Ci) -> R<(Ty, Ty)> {
    // Self = Zip<A, B>
    let z = pointee(ci.tys[0]);
    match z.kind() { TyKind::RigidTy(RigidTy::Adt(_, g)) => { let v: Vec<Ty> = g.0.iter().filter_map(|x| x.ty()).cloned().collect(); if v.len() >= 2 { Ok((v[0], v[1])) } else { unsup("zip") } } _ => unsup("zip") }
}
pub fn as_bytes(cx: &mut Cx, st: &mut State, v: &V) -> R<V> {
    let p = view_ptr(cx, st, v)?;
    let s = seq_at(cx, st, &V::ptr(p.clone()))?;
    no_tokens(&s)?;
    if all_ascii(cx, st, &s) { return Ok(V::ptr(p)); }
    let u = utf8(cx, st, &s)?;
    Ok(V::slice_of(V::Seq(Rc::new(u))))
}
pub trait Clone2 { fn clone2(&self) -> Self; }
impl Clone2 for Seq { fn clone2(&self) -> Seq { Seq { el: self.el.clone(), len: self.len } } }
pub fn mut_seq(cx: &mut Cx, st: &mut State, p: &Ptr, f: impl FnOnce(&Cx, &State, &mut Seq) -> R<()>) -> R<()> {
    let shadow = State { g: st.g, fr: vec![] };
    let cxr: &Cx = cx;
    cxr.update(st, p, |v| match v {
        V::Seq(s) => { let s = Rc::make_mut(s); f(cxr, &shadow, s) }
        V::Case(k) => Err(E::Split(k.0)),
        V::Undef => unsup("write to uninitialised container"),
        _ => unsup("container expected"),
    })
}

/// Library functions replaced by equivalent generic loops from the harness crate.
pub fn shim(name: &str, ga: &GenericArgs) -> Option<&'static str> {
    let rest = name.strip_prefix('<')?;
    let (ty, tail) = rest.split_once(" as ")?;
    let (tr, m) = tail.split_once(">::")?;
    let tr = tr.rsplit("::").next().unwrap_or(tr);
    let seqit = IT.contains(&ty) || OWN.contains(&ty) || CH.contains(&ty) || ty == "str::CharIndices" || ty == "str::Split" || ty == "str::Lines" || ty.ends_with("Drain");
    if tr == "Iterator" && seqit {
        return Some(match m { "fold" => "iter_fold", "count" => "iter_count", "last" => "iter_last", "nth" => "iter_nth", "for_each" => "iter_for_each", "all" => "iter_all", "any" => "iter_any", "find" => "iter_find", "find_map" => "iter_find_map", "position" => "iter_position", "try_fold" => "iter_try_fold", "advance_by" => "iter_advance_by", "rposition" => "iter_rposition", _ => return None });
    }
    if tr == "DoubleEndedIterator" && seqit { return Some(match m { "rfold" => "iter_rfold", "nth_back" => "iter_nth_back", "rfind" => "iter_rfind", _ => return None }); }
    if (ty == "iter::Zip") && tr == "Iterator" { return Some(match m { "fold" => "iter_fold", "nth" => "iter_nth", "try_fold" => "iter_try_fold", _ => return None }); }
    if tr == "FromIterator" && m == "from_iter" {
        if ty == "vec::Vec" { return Some("vec_from_iter"); }
        if ty == "string::String" { return Some("string_from_iter"); }
    }
    if tr == "Extend" && m == "extend" {
        if ty == "string::String" { return Some("string_extend"); }
        if ty == "vec::Vec" {
            let v: Vec<Ty> = ga.0.iter().filter_map(|x| x.ty()).cloned().collect();
            if v.len() >= 2 {
                let elem = match v[0].kind() { TyKind::RigidTy(RigidTy::Adt(_, g)) => g.0[0].ty().cloned(), _ => None };
                return Some(if elem == Some(v[1]) { "vec_extend" } else { "vec_extend_ref" });
            }
        }
    }
    None
}
pub fn shim_default(name: &str) -> Option<&'static str> {
    Some(match name { "iter::Iterator::unzip" => "iter_unzip", _ => return None })
}
