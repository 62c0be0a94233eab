//! Natives behind the harness crate's `vrt` module: abstract inputs and checks.
use crate::check::*;
use crate::interp::*;
use crate::n;
use crate::natives::*;
use crate::term::*;
use crate::val::*;

fn cstr(cx: &Cx, st: &State, v: &V) -> R<String> {
    let s = seq_at(cx, st, v)?;
    let mut o = String::new();
    for x in &s.el { match x { V::T(t) => match t.val() { Some(k) => o.push(char::from_u32(k as u32).unwrap_or('?')), None => return unsup("constant text expected") }, _ => return unsup("constant text expected") } }
    Ok(o)
}
fn cint(cx: &Cx, st: &State, v: &V) -> R<i128> { let t = cx.int(v)?; cx.need(st, t) }
fn inputs(cx: &mut Cx, label: String, kind: Kind, n: usize, ranges: Vec<(i128, i128)>) -> Vec<T> {
    let ts: Vec<T> = (0..n).map(|i| { if ranges.len() == 1 && ranges[0].0 == ranges[0].1 { c(ranges[0].0) } else { sym_term(new_sym(&format!("{}{}", label, i), ranges.clone())) } }).collect();
    cx.ob.inputs.push((label, kind, ts.clone()));
    ts
}
pub fn domain(chars: &mut Vec<i128>) -> Vec<(i128, i128)> {
    chars.sort(); chars.dedup();
    let mut r: Vec<(i128, i128)> = vec![];
    for &x in chars.iter() { match r.last_mut() { Some(l) if l.1 + 1 == x => l.1 = x, _ => r.push((x, x)) } }
    r
}
fn vt(ts: Vec<T>) -> V { V::seq(ts.into_iter().map(V::T).collect()) }

pub fn lookup(name: &str) -> Option<Nat> {
    let m = name.strip_prefix("harness::").unwrap_or(name).strip_prefix("vrt::")?;
    match m {
        "param" => n!(|cx, st, a, ci| { let i = cint(cx, st, &a[0])? as usize; Ok(V::int(*cx.ob.params.get(i).unwrap_or(&0))) }),
        "text" => n!(|cx, st, a, ci| { let l = cstr(cx, st, &a[0])?; let k = cint(cx, st, &a[1])?; let al = cstr(cx, st, &a[2])?; let mut v: Vec<i128> = al.chars().map(|x| x as i128).collect(); let r = domain(&mut v); Ok(vt(inputs(cx, l, Kind::Text, k as usize, r))) }),
        "uni" => n!(|cx, st, a, ci| { let l = cstr(cx, st, &a[0])?; let k = cint(cx, st, &a[1])?; Ok(vt(inputs(cx, l, Kind::Text, k as usize, vec![(0, 0xD7FF), (0xE000, 0x10FFFF)]))) }),
        "uni_in" => n!(|cx, st, a, ci| { let l = cstr(cx, st, &a[0])?; let k = cint(cx, st, &a[1])?; let (lo, hi) = (cint(cx, st, &a[2])?, cint(cx, st, &a[3])?); let r: Vec<(i128, i128)> = [(0, 0xD7FF), (0xE000, 0x10FFFF)].iter().map(|r: &(i128, i128)| (r.0.max(lo), r.1.min(hi))).filter(|r| r.0 <= r.1).collect(); Ok(vt(inputs(cx, l, Kind::Text, k as usize, r))) }),
        "bytes" => n!(|cx, st, a, ci| { let l = cstr(cx, st, &a[0])?; let k = cint(cx, st, &a[1])?; let (lo, hi) = (cint(cx, st, &a[2])?, cint(cx, st, &a[3])?); Ok(vt(inputs(cx, l, Kind::Bytes, k as usize, vec![(lo, hi)]))) }),
        "num" => n!(|cx, st, a, ci| { let l = cstr(cx, st, &a[0])?; let (lo, hi) = (cint(cx, st, &a[1])?, cint(cx, st, &a[2])?); Ok(V::T(inputs(cx, l, Kind::Num, 1, vec![(lo, hi)])[0])) }),
        "case" => n!(|cx, st, a, ci| { let t = cx.int(&a[0])?; Ok(V::int(cx.need(st, t)?)) }),
        "assume" => n!(|cx, st, a, ci| { let t = cx.int(&a[0])?; st.g = and(st.g, t); if st.g == FALSE { return Err(E::Dead); } Ok(V::unit()) }),
        "check" => n!(|cx, st, a, ci| { let t = cx.int(&a[0])?; let t = cx.simp(st, t); let m = cstr(cx, st, &a[1])?; check_pred(cx, st, t, &m); Ok(V::unit()) }),
        "fail" => n!(|cx, st, a, ci| { let m = cstr(cx, st, &a[0])?; check_pred(cx, st, FALSE, &m); Err(E::Dead) }),
        "same" => n!(|cx, st, a, ci| { let (g, w) = (seq_at(cx, st, &a[0])?, seq_at(cx, st, &a[1])?); let m = cstr(cx, st, &a[2])?; check_same(cx, st, &g, &w, None, false, &m)?; Ok(V::unit()) }),
        "same_text" => n!(|cx, st, a, ci| { let (g, w) = (seq_at(cx, st, &a[0])?, seq_at(cx, st, &a[1])?); let m = cstr(cx, st, &a[2])?; check_same(cx, st, &g, &w, None, true, &m)?; Ok(V::unit()) }),
        "same_known" => n!(|cx, st, a, ci| { let (g, w, k) = (seq_at(cx, st, &a[0])?, seq_at(cx, st, &a[1])?, seq_at(cx, st, &a[2])?); let id = cstr(cx, st, &a[3])?; let m = cstr(cx, st, &a[4])?; check_same(cx, st, &g, &w, Some((&k, &id)), false, &m)?; Ok(V::unit()) }),
        "known" => n!(|cx, st, a, ci| { let t = cx.int(&a[0])?; let id = cstr(cx, st, &a[1])?; let g = and(st.g, t); if g != FALSE { if let Some(w) = witness(g, cx.ob.seed) { let i = cx.ob.show_inputs(&w); if !cx.ob.known.iter().any(|k| k.0 == id) { cx.ob.known.push((id, i)); } } } Ok(V::unit()) }),
        "encoder_ok" => n!(|cx, st, a, ci| Ok(V::T(crate::imgnat::encoder_ok(cx)))),
        "debug" => n!(|cx, st, a, ci| { let p = cx.deref(st, &a[0])?; let v = cx.read(st, &p)?; eprintln!("DEBUG g={} {:?}", show(st.g), v); Ok(V::unit()) }),
        _ => None,
    }
}
