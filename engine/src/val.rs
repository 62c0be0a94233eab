//! Abstract values: shape trees with scalar terms at the leaves.
use crate::term::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::Ty;
use std::rc::Rc;

#[derive(Clone)]
pub enum V {
    Undef,
    T(T),
    Agg(Rc<Vec<V>>),
    En(Rc<En>),
    Seq(Rc<Seq>),
    Ptr(Rc<Ptr>),
    Box(Rc<V>),
    Fn(Rc<Instance>),
    Dyn(Rc<(Ty, V)>),
    /// formatting argument: kind, type of the value, pointer to it
    Fmt(Rc<(u8, Ty, V)>),
    /// values of different shapes, selected by a term
    Case(Rc<(T, V, V)>),
    Bad(Rc<String>),
}
#[derive(Clone)]
pub struct En { pub d: T, pub pay: Vec<Option<Rc<Vec<V>>>> }
#[derive(Clone)]
pub struct Seq { pub el: Vec<V>, pub len: T }
#[derive(Clone, PartialEq, Debug)]
/// Px: k consecutive elements seen as a struct wrapping an array
pub enum PE { F(u32), VF(u32, u32), El(T), In, Px(T, u32) }
#[derive(Clone, Debug)]
pub enum Root { Local(u32, u32), Val(Rc<V>), Int(T) }
#[derive(Clone, Debug)]
pub struct Ptr { pub root: Root, pub path: Vec<PE>, pub view: Option<(T, T)>, pub dynty: Option<Ty> }

impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            V::Undef => write!(f, "_"),
            V::T(t) => write!(f, "{}", show(*t)),
            V::Agg(v) => { write!(f, "(")?; for x in v.iter().take(12) { write!(f, "{:?},", x)?; } write!(f, ")") }
            V::En(e) => { write!(f, "En[{}]", show(e.d))?; for (i, p) in e.pay.iter().enumerate() { if let Some(p) = p { if !p.is_empty() { write!(f, "#{}{:?}", i, p)?; } } } Ok(()) }
            V::Seq(s) => { write!(f, "Seq{}[", show(s.len))?; for x in s.el.iter().take(16) { write!(f, "{:?},", x)?; } write!(f, "]") }
            V::Ptr(p) => write!(f, "&{:?}", p),
            V::Box(b) => write!(f, "Box({:?})", b),
            V::Fn(i) => write!(f, "fn {}", i.name()),
            V::Dyn(d) => write!(f, "dyn({:?})", d.1),
            V::Fmt(_) => write!(f, "fmtarg"),
            V::Case(c) => write!(f, "Case({} ? {:?} : {:?})", show(c.0), c.1, c.2),
            V::Bad(s) => write!(f, "Bad({})", s),
        }
    }
}

impl V {
    pub fn unit() -> V { V::Agg(Rc::new(vec![])) }
    pub fn agg(v: Vec<V>) -> V { V::Agg(Rc::new(v)) }
    pub fn seq(v: Vec<V>) -> V { let n = v.len(); V::Seq(Rc::new(Seq { el: v, len: c(n as i128) })) }
    pub fn seq_len_of(el: Vec<V>, len: T) -> V { V::Seq(Rc::new(Seq { el, len })) }
    pub fn ptr(p: Ptr) -> V { V::Ptr(Rc::new(p)) }
    pub fn int(v: i128) -> V { V::T(c(v)) }
    pub fn bool(v: bool) -> V { V::T(b(v)) }
    pub fn variant(i: u32, n: u32, f: Vec<V>) -> V {
        let mut pay = vec![None; n as usize];
        if (i as usize) < pay.len() { pay[i as usize] = Some(Rc::new(f)); }
        V::En(Rc::new(En { d: c(i as i128), pay }))
    }
    pub fn none() -> V { V::variant(0, 2, vec![]) }
    pub fn some(v: V) -> V { V::variant(1, 2, vec![v]) }
    pub fn ok(v: V) -> V { V::variant(0, 2, vec![v]) }
    pub fn err(v: V) -> V { V::variant(1, 2, vec![v]) }
    /// Option value present under `g`.
    pub fn opt(g: T, v: V) -> V {
        if g == FALSE { return V::none(); }
        V::En(Rc::new(En { d: g, pay: vec![Some(Rc::new(vec![])), Some(Rc::new(vec![v]))] }))
    }
    pub fn seq_len(&self) -> Option<T> { if let V::Seq(s) = self { Some(s.len) } else { None } }
    pub fn refval(v: V) -> V { V::ptr(Ptr { root: Root::Val(Rc::new(v)), path: vec![], view: None, dynty: None }) }
    pub fn slice_of(v: V) -> V { let n = v.seq_len().unwrap(); V::ptr(Ptr { root: Root::Val(Rc::new(v)), path: vec![], view: Some((FALSE, n)), dynty: None }) }
    pub fn str_const(s: &str) -> V { V::slice_of(V::seq(s.chars().map(|ch| V::int(ch as i128)).collect())) }
}

pub fn same_rc(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Undef, V::Undef) => true,
        (V::T(x), V::T(y)) => x == y,
        (V::Agg(x), V::Agg(y)) => Rc::ptr_eq(x, y) || (x.is_empty() && y.is_empty()),
        (V::En(x), V::En(y)) => Rc::ptr_eq(x, y),
        (V::Seq(x), V::Seq(y)) => Rc::ptr_eq(x, y),
        (V::Ptr(x), V::Ptr(y)) => Rc::ptr_eq(x, y),
        (V::Box(x), V::Box(y)) => Rc::ptr_eq(x, y),
        (V::Fn(x), V::Fn(y)) => Rc::ptr_eq(x, y) || **x == **y,
        (V::Fmt(x), V::Fmt(y)) => Rc::ptr_eq(x, y),
        (V::Dyn(x), V::Dyn(y)) => Rc::ptr_eq(x, y),
        (V::Case(x), V::Case(y)) => Rc::ptr_eq(x, y),
        _ => false,
    }
}
/// Structural identity (used to avoid spurious Case values).
pub fn identical(a: &V, b: &V) -> bool {
    if same_rc(a, b) { return true; }
    match (a, b) {
        (V::Agg(x), V::Agg(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| identical(p, q)),
        (V::En(x), V::En(y)) => x.d == y.d && x.pay.iter().zip(y.pay.iter()).all(|(p, q)| match (p, q) { (None, None) => true, (Some(p), Some(q)) => p.len() == q.len() && p.iter().zip(q.iter()).all(|(a, b)| identical(a, b)), _ => false }),
        (V::Seq(x), V::Seq(y)) => x.len == y.len && x.el.len() == y.el.len() && x.el.iter().zip(y.el.iter()).all(|(p, q)| identical(p, q)),
        (V::Ptr(x), V::Ptr(y)) => x.path == y.path && x.view == y.view && x.dynty == y.dynty && same_root(&x.root, &y.root),
        (V::Box(x), V::Box(y)) => identical(x, y),
        (V::Fmt(x), V::Fmt(y)) => x.0 == y.0 && x.1 == y.1 && identical(&x.2, &y.2),
        (V::Case(x), V::Case(y)) => x.0 == y.0 && identical(&x.1, &y.1) && identical(&x.2, &y.2),
        _ => false,
    }
}
pub fn same_root(a: &Root, b: &Root) -> bool {
    match (a, b) { (Root::Local(x, y), Root::Local(p, q)) => x == p && y == q, (Root::Val(x), Root::Val(y)) => Rc::ptr_eq(x, y) || identical(x, y), (Root::Int(x), Root::Int(y)) => x == y, _ => false }
}

pub fn merge(g: T, a: &V, b_: &V) -> V {
    if g == TRUE { return a.clone(); }
    if g == FALSE { return b_.clone(); }
    if same_rc(a, b_) { return a.clone(); }
    match (a, b_) {
        (V::Undef, x) | (x, V::Undef) => x.clone(),
        (V::T(x), V::T(y)) => V::T(ite(g, *x, *y)),
        (V::Agg(x), V::Agg(y)) if x.len() == y.len() => V::Agg(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| merge(g, p, q)).collect())),
        (V::En(x), V::En(y)) if x.pay.len() == y.pay.len() => {
            let d = ite(g, x.d, y.d);
            let pay = x.pay.iter().zip(y.pay.iter()).map(|(p, q)| match (p, q) {
                (None, o) | (o, None) => o.clone(),
                (Some(p), Some(q)) => if Rc::ptr_eq(p, q) { Some(p.clone()) } else { Some(Rc::new(p.iter().zip(q.iter()).map(|(a, b)| merge(g, a, b)).collect())) },
            }).collect();
            V::En(Rc::new(En { d, pay }))
        }
        (V::Seq(x), V::Seq(y)) => {
            let n = x.el.len().max(y.el.len());
            let mut el = Vec::with_capacity(n);
            for i in 0..n { el.push(match (x.el.get(i), y.el.get(i)) { (Some(p), Some(q)) => merge(g, p, q), (Some(p), None) => p.clone(), (None, Some(q)) => q.clone(), _ => V::Undef }); }
            V::Seq(Rc::new(Seq { el, len: ite(g, x.len, y.len) }))
        }
        (V::Ptr(x), V::Ptr(y)) => match merge_ptr(g, x, y) { Some(p) => V::ptr(p), None => case(g, a, b_) },
        (V::Box(x), V::Box(y)) if !matches!((&**x, &**y), (V::Dyn(p), V::Dyn(q)) if p.0 != q.0) => V::Box(Rc::new(merge(g, x, y))),
        (V::Dyn(x), V::Dyn(y)) if x.0 == y.0 => V::Dyn(Rc::new((x.0, merge(g, &x.1, &y.1)))),
        _ => if identical(a, b_) { a.clone() } else { case(g, a, b_) },
    }
}
fn case(g: T, a: &V, b_: &V) -> V { V::Case(Rc::new((g, a.clone(), b_.clone()))) }
fn merge_ptr(g: T, x: &Ptr, y: &Ptr) -> Option<Ptr> {
    if x.dynty != y.dynty || x.view.is_some() != y.view.is_some() { return None; }
    let root = if same_root(&x.root, &y.root) { x.root.clone() } else {
        match (&x.root, &y.root) {
            (Root::Val(p), Root::Val(q)) if x.path == y.path => Root::Val(Rc::new(merge(g, p, q))),
            (Root::Val(_), Root::Val(_)) => {
                // resolve both to direct values
                let p = static_read(x)?; let q = static_read(y)?;
                let m = merge(g, &p, &q);
                if matches!(m, V::Case(_)) { return None; }
                let view = match (x.view, y.view) { (Some(a), Some(b)) => Some((ite(g, a.0, b.0), ite(g, a.1, b.1))), _ => None };
                return Some(Ptr { root: Root::Val(Rc::new(m)), path: vec![], view, dynty: x.dynty });
            }
            _ => return None,
        }
    };
    if let Root::Val(v) = &root { if matches!(**v, V::Case(_)) { return None; } }
    let path = if x.path == y.path { x.path.clone() } else {
        if x.path.len() != y.path.len() { return None; }
        let mut p = vec![];
        for (a, b) in x.path.iter().zip(y.path.iter()) {
            p.push(match (a, b) { (PE::El(s), PE::El(t)) => PE::El(ite(g, *s, *t)), (PE::Px(s, k), PE::Px(t, j)) if k == j => PE::Px(ite(g, *s, *t), *k), _ => if a == b { a.clone() } else { return None } });
        }
        p
    };
    let view = match (x.view, y.view) { (Some(a), Some(b)) => Some((ite(g, a.0, b.0), ite(g, a.1, b.1))), _ => None };
    Some(Ptr { root, path, view, dynty: x.dynty })
}
/// Read a constant-rooted pointer whose path has constant indices.
fn static_read(p: &Ptr) -> Option<V> {
    let mut v: &V = match &p.root { Root::Val(v) => v, _ => return None };
    for e in &p.path {
        v = match (e, v) {
            (PE::F(i), V::Agg(a)) => a.get(*i as usize)?,
            (PE::VF(k, i), V::En(e)) => e.pay[*k as usize].as_ref()?.get(*i as usize)?,
            (PE::El(t), V::Seq(s)) => s.el.get(t.val()? as usize)?,
            (PE::In, V::Box(b)) => b,
            _ => return None,
        };
    }
    Some(v.clone())
}
