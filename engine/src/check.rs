//! Obligation bookkeeping: inputs, discharged checks, violations with certificates.
use crate::interp::*;
use crate::term::*;
use crate::val::*;

pub enum Kind { Text, Bytes, Num }
pub struct Viol { pub msg: String, pub inputs: String, pub detail: String, pub site: String }
#[derive(Default)]
pub struct Ob { pub encoder: Option<T>,
    pub params: Vec<i128>,
    pub inputs: Vec<(String, Kind, Vec<T>)>,
    pub proved: u64,
    pub viol: Vec<Viol>,
    pub undec: Vec<String>,
    pub known: Vec<(String, String)>,
    pub seed: u64,
    pub sites: u64,
}
impl Ob {
    pub fn show_inputs(&self, a: &Asg) -> String {
        let mut out = vec![];
        for (l, k, ts) in &self.inputs {
            let vs: Vec<i128> = ts.iter().map(|t| eval(*t, a).unwrap_or(0)).collect();
            out.push(match k {
                Kind::Text => format!("{}={:?}", l, vs.iter().map(|v| char::from_u32(*v as u32).unwrap_or('?')).collect::<String>()),
                Kind::Bytes => format!("{}={:?}", l, vs),
                Kind::Num => format!("{}={}", l, vs[0]),
            });
        }
        if !self.params.is_empty() { out.push(format!("params={:?}", self.params)); }
        out.join(" ")
    }
}
/// Concrete content of an abstract sequence under an assignment.
pub fn concrete(s: &Seq, a: &Asg) -> Option<Vec<i128>> {
    let n = eval(s.len, a)?;
    let mut out = vec![];
    for i in 0..n as usize { match s.el.get(i)? { V::T(t) => out.push(eval(*t, a)?), _ => return None } }
    Some(out)
}
pub fn concrete_text(s: &Seq, a: &Asg) -> Option<String> {
    let mut o = String::new();
    for v in concrete(s, a)? { if v >= crate::natives::TOKEN { o.push_str(&(v - (1i128 << 100)).to_string()); } else { o.push(char::from_u32(v as u32)?); } }
    Some(o)
}
fn clip(s: String) -> String { if s.chars().count() > 600 { s.chars().take(600).collect::<String>() + "…" } else { s } }

pub fn check_pred(cx: &mut Cx, st: &State, ok: T, msg: &str) {
    let mut bad = and(st.g, not(ok));
    if bad != FALSE { if let Some(d) = deep(bad) { bad = d; } }
    cx.ob.sites += 1;
    if bad == FALSE { cx.ob.proved += 1; return; }
    match witness(bad, cx.ob.seed) {
        Some(a) => { let inputs = cx.ob.show_inputs(&a); add_viol(cx, msg, inputs, String::new()); }
        None => { if std::env::var("MIRVAL_DEBUG").is_ok() { eprintln!("bad {}", show(bad)); for s in syms_of(bad) { eprintln!("   {} {:?}", show_sym(s), crate::term::st().syms[s as usize].ranges); } } cx.ob.undec.push(format!("{}: not discharged, no certificate", msg)) }
    }
}
pub fn add_viol(cx: &mut Cx, msg: &str, inputs: String, detail: String) {
    if cx.ob.viol.len() >= 3 { return; }
    let site = cx.site();
    cx.ob.viol.push(Viol { msg: msg.to_string(), inputs: clip(inputs), detail: clip(detail), site });
}
pub fn check_same(cx: &mut Cx, st: &State, got: &Seq, want: &Seq, known: Option<(&Seq, &str)>, text: bool, msg: &str) -> R<()> {
    cx.ob.sites += 1;
    if known.is_none() { if let (Some(n), Some(m)) = (got.len.val(), want.len.val()) { if n == m && got.el.len() >= n as usize && want.el.len() >= n as usize {
        // element by element: one wrong element decides, and no conjunction of them all is built
        let mut all = true;
        for (x, y) in got.el[..n as usize].iter().zip(want.el[..n as usize].iter()) {
            let (x, y) = match (x, y) { (V::T(x), V::T(y)) => (*x, *y), _ => { all = false; break; } };
            if x == y { continue; }
            let mut bad = and(st.g, not(cmp(Op::Eq, x, y)));
            if bad != FALSE { if let Some(d) = deep(bad) { bad = d; } }
            if bad == FALSE { continue; }
            all = false;
            if let Some(a) = witness(bad, cx.ob.seed) { if let (Some(g), Some(w)) = (concrete(got, &a), concrete(want, &a)) { if g != w {
                let (g, w) = if text { (concrete_text(got, &a).unwrap_or_default(), concrete_text(want, &a).unwrap_or_default()) } else { (format!("{:?}", g), format!("{:?}", w)) };
                let inputs = cx.ob.show_inputs(&a);
                add_viol(cx, msg, inputs, format!("got {} want {}", g, w));
                return Ok(());
            } } }
            break;
        }
        if all { cx.ob.proved += 1; return Ok(()); }
    } } }
    let eq = crate::natives::eq_seq(cx, st, got, want)?;
    let mut bad = and(st.g, not(eq));
    if bad != FALSE { if let Some(d) = deep(bad) { bad = d; } }
    if bad == FALSE { cx.ob.proved += 1; return Ok(()); }
    let (bad, kn) = match known { Some((k, id)) => { let e2 = crate::natives::eq_seq(cx, st, got, k)?; (and(bad, not(e2)), Some((and(bad, e2), id))) } None => (bad, None) };
    let mut ok = true;
    if bad != FALSE {
        ok = false;
        let mut found = false;
        for r in 0..6u64 {
            let a = match witness(bad, cx.ob.seed.wrapping_add(r * 7919)) { Some(a) => a, None => break };
            let (g, w) = if text { (concrete_text(got, &a), concrete_text(want, &a)) } else { (concrete(got, &a).map(|v| format!("{:?}", v)), concrete(want, &a).map(|v| format!("{:?}", v))) };
            let k = known.and_then(|(k, _)| if text { concrete_text(k, &a) } else { concrete(k, &a).map(|v| format!("{:?}", v)) });
            if let (Some(g), Some(w)) = (g, w) {
                if g != w && Some(&g) != k.as_ref() {
                    let inputs = cx.ob.show_inputs(&a);
                    add_viol(cx, msg, inputs, format!("got {} want {}", g, w));
                    found = true; break;
                }
            }
        }
        if !found && std::env::var("MIRVAL_DEBUG").is_ok() {
            for (i, (x, y)) in got.el.iter().zip(want.el.iter()).enumerate() { if let (V::T(x), V::T(y)) = (x, y) { let e = or(cmp(Op::Eq, *x, *y), not(st.g)); if e != TRUE { eprintln!("element {}: got {} want {} under {}", i, show(*x), show(*y), show(st.g)); eprintln!("   bad {}", show(not(e))); for s in crate::term::syms_of(*x).into_iter().chain(crate::term::syms_of(*y)) { eprintln!("   {}", crate::term::show_sym(s)); } break; } } }
            eprintln!("lengths {} {}", show(got.len), show(want.len));
        }
        if !found { cx.ob.undec.push(format!("{}: sequences not shown equal, no certificate", msg)); }
    }
    if let Some((g, id)) = kn { if g != FALSE { match witness(g, cx.ob.seed) { Some(a) => { let i = cx.ob.show_inputs(&a); if !cx.ob.known.iter().any(|k| k.0 == id) { cx.ob.known.push((id.to_string(), clip(i))); } } None => { ok = false; cx.ob.undec.push(format!("{}: known finding {} possibly reached", msg, id)); } } } }
    if ok { cx.ob.proved += 1; }
    Ok(())
}
