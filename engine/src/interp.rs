//! Abstract interpretation of lowered MIR with joins at every control-flow merge.
use crate::ir::*;
use crate::natives::{self, Nat};
use crate::term::*;
use crate::val::*;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub enum E { Split(T), Unsup(String), Dead }
pub type R<X> = Result<X, E>;
pub fn unsup<X>(s: impl Into<String>) -> R<X> { Err(E::Unsup(s.into())) }

#[derive(Clone)]
pub struct Frame { pub l: Vec<V> }
#[derive(Clone)]
pub struct State { pub g: T, pub fr: Vec<Rc<Frame>> }

#[derive(Clone)]
pub struct Panic { pub g: T, pub msg: String, pub site: String, pub overflow: bool }

#[derive(Clone, Copy)]
pub enum Target { Native(Nat), Inst(Instance), FnTrait, DynCall(FnDef), Diverge }
#[derive(Clone)]
pub struct Resolved { pub tgt: Target, pub inst: Option<Instance>, pub name: Rc<String>, pub args: Rc<GenericArgs> }

pub struct Ci<'a> { pub name: &'a str, pub args: &'a GenericArgs, pub tys: &'a [Ty], pub ret: Ty, pub inst: Option<Instance> }

#[derive(Default)]
pub struct Stats { pub blocks: u64, pub stmts: u64, pub joins: u64, pub calls: u64, pub splits: u64, pub funcs: BTreeSet<String>, pub sites: BTreeSet<String> }

pub struct Cx {
    pub panics: Vec<Panic>,
    pub undec: Vec<(T, String)>,
    pub stack: Vec<(&'static Func, usize)>,
    pub stats: Stats,
    pub deadline: std::time::Instant,
    pub shims: HashMap<String, FnDef>,
    pub ob: crate::check::Ob,
    pub string_ty: Option<Ty>,
    res_cache: HashMap<(FnDef, GenericArgs), Resolved>,
}

pub const USER_CRATES: [&str; 1] = ["barcoders"];

type Key = Vec<u32>;

/// A tuple constructor used as a function.
fn ctor(i: Instance, args: &[V]) -> Option<V> {
    let ret = match i.ty().kind().fn_sig() { Some(s) => s.skip_binder().output(), None => return None };
    let TyKind::RigidTy(RigidTy::Adt(d, _)) = ret.kind() else { return None };
    let last = norm_name(&i.def.name()); let last = last.rsplit("::").next()?.to_string();
    let vs = d.variants();
    let k = vs.iter().position(|v| v.name() == last)?;
    if vs[k].fields().len() != args.len() { return None; }
    if d.kind().is_enum() { Some(V::variant(k as u32, vs.len() as u32, args.to_vec())) } else { Some(V::agg(args.to_vec())) }
}
impl Cx {
    pub fn new(shims: HashMap<String, FnDef>) -> Cx {
        Cx { panics: vec![], undec: vec![], stack: vec![], stats: Default::default(), deadline: std::time::Instant::now() + std::time::Duration::from_secs(3600),
            shims, ob: Default::default(), string_ty: None, res_cache: Default::default() }
    }
    pub fn site(&self) -> String {
        for (f, b) in self.stack.iter().rev() {
            if f.krate == "barcoders" {
                let sp = &f.blocks[*b].span;
                let file = sp.get_filename();
                let file = file.rsplit("/src/").next().unwrap_or("").to_string();
                return format!("{} ({}:{})", short_fn(&f.name), file, sp.get_lines().start_line);
            }
        }
        self.stack.last().map(|x| short_fn(&x.0.name)).unwrap_or_default()
    }
    pub fn trace(&self) -> String { self.stack.iter().rev().take(6).map(|x| short_fn(&x.0.name)).collect::<Vec<_>>().join(" < ") }
    pub fn record_panic(&mut self, g: T, msg: &str, overflow: bool) {
        if g == FALSE { return; }
        let site = self.site();
        if let Some(p) = self.panics.iter_mut().find(|p| p.site == site && p.msg == msg) { p.g = or(p.g, g); return; }
        self.panics.push(Panic { g, msg: msg.to_string(), site, overflow });
    }
    pub fn record_undec(&mut self, g: T, msg: String) {
        if std::env::var("MIRVAL_DEBUG").is_ok() { eprintln!("UNSUP {} @ {}", msg, self.trace()); if let Some((f, b)) = self.stack.last() { eprintln!("  block {} of {}: {:?}", b, f.name, f.blocks[*b].span); } }
        let m = format!("{} @ {}", msg, self.trace());
        if let Some(p) = self.undec.iter_mut().find(|p| p.1 == m) { p.0 = or(p.0, g); return; }
        if self.undec.len() < 50 { self.undec.push((g, m)); } else { self.undec[0].0 = or(self.undec[0].0, g); }
    }

    // ------------------------------------------------------------ scalars
    pub fn simp(&self, st: &State, t: T) -> T { if t.is_const() || st.g == TRUE { t } else { restrict(t, st.g) } }
    pub fn need(&self, st: &State, t: T) -> R<i128> {
        if let Some(v) = t.val() { return Ok(v); }
        let r = self.simp(st, t);
        if let Some(v) = r.val() { return Ok(v); }
        if let Ok((t, ks)) = self.cases(st, r) {
            let mut live = ks.iter().filter(|k| and(st.g, cmp(Op::Eq, t, c(**k))) != FALSE);
            if let (Some(k), None) = (live.next(), live.next()) { return Ok(*k); }
        }
        Err(E::Split(r))
    }
    pub fn int(&self, v: &V) -> R<T> {
        match v { V::T(t) => Ok(*t), V::Case(k) => Err(E::Split(k.0)), V::Agg(a) if a.len() == 1 => self.int(&a[0]), V::Ptr(p) => match &p.root { Root::Int(t) => Ok(*t), _ => unsup("pointer as integer") }, _ => unsup(format!("integer expected, got {:?}", v)) }
    }
    /// constant leaves of t under the guard
    pub fn cases(&self, st: &State, t: T) -> R<(T, Vec<i128>)> {
        let r = self.simp(st, t);
        if let Some(v) = leaves(r, 1300) { return Ok((r, v)); }
        let r2 = explicit(r, st.g);
        if let Some(v) = leaves(r2, 1300) { return Ok((r2, v)); }
        if let Some(e) = expand(r2) { if let Some(v) = leaves(e, 1300) { return Ok((e, v)); } }
        unsup("value not enumerable")
    }

    // ------------------------------------------------------------ memory
    pub fn walk(&self, st: &State, v: &V, path: &[PE]) -> R<V> {
        if path.is_empty() { return Ok(v.clone()); }
        match (&path[0], v) {
            (_, V::Case(k)) => {
                let g = self.simp(st, k.0);
                if g == TRUE { return self.walk(st, &k.1, path); }
                if g == FALSE { return self.walk(st, &k.2, path); }
                Err(E::Split(g))
            }
            (PE::F(i), V::Agg(a)) => match a.get(*i as usize) { Some(x) => self.walk(st, x, &path[1..]), None => unsup("field") },
            (PE::VF(k, i), V::En(e)) => match e.pay.get(*k as usize) { Some(Some(p)) => match p.get(*i as usize) { Some(x) => self.walk(st, x, &path[1..]), None => unsup("variant field") }, _ => Err(E::Dead) },
            (PE::In, V::Box(b)) => self.walk(st, b, &path[1..]),
            (PE::In, V::Dyn(d)) => self.walk(st, &d.1, &path[1..]),
            (PE::El(t), V::Seq(s)) => {
                if let Some(k) = t.val() { return match s.el.get(k as usize) { Some(x) => self.walk(st, x, &path[1..]), None => unsup("element out of range") }; }
                let (t, ks) = self.cases(st, *t)?;
                let mut acc: Option<V> = None;
                let mut allc = true;
                let mut vals = vec![];
                for k in &ks {
                    if *k < 0 || *k as usize >= s.el.len() { continue; }
                    let x = self.walk(st, &s.el[*k as usize], &path[1..])?;
                    if !matches!(&x, V::T(t) if t.is_const()) { allc = false; }
                    vals.push((*k, x));
                }
                if vals.is_empty() { return unsup("element out of range"); }
                if allc && t.pure_dd() {
                    let m: HashMap<i128, i128> = vals.iter().map(|(k, v)| (*k, if let V::T(t) = v { t.val().unwrap() } else { 0 })).collect();
                    let d = *m.values().next().unwrap();
                    return Ok(V::T(map_leaves(t, &mut |k| *m.get(&k).unwrap_or(&d))));
                }
                for (k, x) in vals.into_iter().rev() {
                    acc = Some(match acc { None => x, Some(a) => merge(cmp(Op::Eq, t, c(k)), &x, &a) });
                }
                Ok(acc.unwrap())
            }
            (PE::Px(t, k), V::Seq(s)) => {
                let i = self.need(st, *t)? as usize; let k = *k as usize;
                if i + k > s.el.len() { return unsup("pixel out of range"); }
                let px = V::agg(vec![V::seq(s.el[i..i + k].to_vec())]);
                self.walk(st, &px, &path[1..])
            }
            (_, V::Undef) => unsup("read of uninitialised value"),
            (_, V::Bad(s)) => unsup(s.to_string()),
            // single-field wrappers around scalars / pointers
            (PE::F(0), V::Ptr(_)) | (PE::F(0), V::T(_)) => self.walk(st, v, &path[1..]),
            (p, v) => unsup(format!("projection {:?} of {:?}", p, v)),
        }
    }
    pub fn root<'a>(&self, st: &'a State, p: &'a Ptr) -> R<&'a V> {
        match &p.root {
            Root::Local(d, l) => match st.fr.get(*d as usize).and_then(|f| f.l.get(*l as usize)) { Some(v) => Ok(v), None => unsup("dangling pointer") },
            Root::Val(v) => Ok(v),
            Root::Int(_) => unsup("integer pointer dereferenced"),
        }
    }
    pub fn read(&self, st: &State, p: &Ptr) -> R<V> {
        let v = self.walk(st, self.root(st, p)?, &p.path)?;
        match p.view {
            None => Ok(v),
            Some((s, n)) => match &v {
                V::Seq(q) => {
                    if s == FALSE && n == q.len { return Ok(v); }
                    let (el, len) = self.view_cells(st, q, s, n)?;
                    Ok(V::seq_len_of(el, len))
                }
                V::Case(k) => Err(E::Split(k.0)),
                _ => unsup("view of non-sequence"),
            },
        }
    }
    pub fn view_cells(&self, st: &State, q: &Seq, s: T, n: T) -> R<(Vec<V>, T)> {
        let s = self.simp(st, s); let n = self.simp(st, n);
        if let Some(k) = s.val() {
            let k = k as usize;
            let e = match n.val() { Some(m) => (k + m as usize).min(q.el.len()), None => { let hi = n.range().1; ((k as i128 + hi).max(0) as usize).min(q.el.len()) } };
            if k > q.el.len() { return Ok((vec![], n)); }
            return Ok((q.el[k.min(e)..e].to_vec(), n));
        }
        let (s, ks) = self.cases(st, s)?;
        let maxn = n.range().1.min(q.el.len() as i128).max(0) as usize;
        let mut out = Vec::with_capacity(maxn);
        for i in 0..maxn {
            let mut acc: Option<V> = None;
            for k in ks.iter().rev() { let j = *k + i as i128; if j < 0 || j as usize >= q.el.len() { continue; }
                let x = &q.el[j as usize];
                acc = Some(match acc { None => x.clone(), Some(a) => merge(cmp(Op::Eq, s, c(*k)), x, &a) }); }
            out.push(acc.unwrap_or(V::Undef));
        }
        Ok((out, n))
    }
    fn set(&self, st_g: &State, slot: &mut V, path: &[PE], v: V) -> R<()> {
        if path.is_empty() { *slot = v; return Ok(()); }
        if let V::Case(k) = slot {
            let g = self.simp(st_g, k.0);
            if g == TRUE { let x = k.1.clone(); *slot = x; } else if g == FALSE { let x = k.2.clone(); *slot = x; } else { return Err(E::Split(g)); }
        }
        match (&path[0], &mut *slot) {
            (PE::F(i), V::Agg(a)) => { let a = Rc::make_mut(a); while a.len() <= *i as usize { a.push(V::Undef); } self.set(st_g, &mut a[*i as usize], &path[1..], v) }
            (PE::F(i), V::Undef) => { let mut a = vec![V::Undef; *i as usize + 1]; self.set(st_g, &mut a[*i as usize], &path[1..], v)?; *slot = V::agg(a); Ok(()) }
            (PE::VF(k, i), V::En(e)) => { let e = Rc::make_mut(e); while e.pay.len() <= *k as usize { e.pay.push(None); }
                let p = e.pay[*k as usize].get_or_insert_with(|| Rc::new(vec![])); let p = Rc::make_mut(p); while p.len() <= *i as usize { p.push(V::Undef); }
                self.set(st_g, &mut p[*i as usize], &path[1..], v) }
            (PE::VF(k, i), V::Undef) => { let mut a = vec![V::Undef; *i as usize + 1]; self.set(st_g, &mut a[*i as usize], &path[1..], v)?; *slot = V::variant(*k, *k + 1, a); Ok(()) }
            (PE::In, V::Box(b)) => self.set(st_g, Rc::make_mut(b), &path[1..], v),
            (PE::In, V::Dyn(d)) => { let d = Rc::make_mut(d); self.set(st_g, &mut d.1, &path[1..], v) }
            (PE::El(t), V::Seq(s)) => {
                if let Some(k) = t.val() { let s = Rc::make_mut(s); return match s.el.get_mut(k as usize) { Some(x) => self.set(st_g, x, &path[1..], v), None => unsup("store out of range") }; }
                let (t, ks) = self.cases(st_g, *t)?;
                let mut new = vec![];
                for k in ks { if k < 0 || k as usize >= s.el.len() { continue; }
                    let mut x = s.el[k as usize].clone(); self.set(st_g, &mut x, &path[1..], v.clone())?;
                    new.push((k as usize, merge(cmp(Op::Eq, t, c(k)), &x, &s.el[k as usize]))); }
                let s = Rc::make_mut(s);
                for (k, x) in new { s.el[k] = x; }
                Ok(())
            }
            (PE::Px(t, k), V::Seq(s)) => {
                let i = self.need(st_g, *t)? as usize; let k = *k as usize;
                if i + k > s.el.len() { return unsup("pixel out of range"); }
                let mut px = V::agg(vec![V::seq(s.el[i..i + k].to_vec())]);
                self.set(st_g, &mut px, &path[1..], v)?;
                let q = match &px { V::Agg(a) if a.len() == 1 => match &a[0] { V::Seq(q) if q.el.len() == k => q.el.clone(), _ => return unsup("pixel store") }, V::Case(c) => return Err(E::Split(c.0)), _ => return unsup("pixel store") };
                let s = Rc::make_mut(s);
                for (j, x) in q.into_iter().enumerate() { s.el[i + j] = x; }
                Ok(())
            }
            (PE::F(0), V::Ptr(_)) | (PE::F(0), V::T(_)) => self.set(st_g, slot, &path[1..], v),
            (p, s) => unsup(format!("store through {:?} of {:?}", p, s)),
        }
    }
    pub fn write(&self, st: &mut State, p: &Ptr, v: V) -> R<()> {
        if let Some((s, n)) = p.view {
            // element-wise store of a whole array through a view
            if let V::Seq(q) = &v {
                let n = self.need(st, n)?;
                for i in 0..n as usize { let mut pp = p.clone(); pp.view = None; pp.path.push(PE::El(add(s, c(i as i128)))); let x = q.el[i].clone(); self.write(st, &pp, x)?; }
                return Ok(());
            }
            return unsup("store through view");
        }
        match &p.root {
            Root::Local(d, l) => {
                let (d, l) = (*d as usize, *l as usize);
                if d >= st.fr.len() { return unsup("dangling pointer"); }
                if p.path.is_empty() { Rc::make_mut(&mut st.fr[d]).l[l] = v; return Ok(()); }
                let g = State { g: st.g, fr: vec![] };
                let slot = &mut Rc::make_mut(&mut st.fr[d]).l[l];
                self.set(&g, slot, &p.path, v)
            }
            _ => unsup("store to constant memory"),
        }
    }
    /// Mutate the value behind a pointer in place.
    pub fn update<X>(&self, st: &mut State, p: &Ptr, f: impl FnOnce(&mut V) -> R<X>) -> R<X> {
        // constant paths: in place; otherwise read-modify-write
        if let Root::Local(d, l) = &p.root {
            if p.view.is_none() && p.path.iter().all(|e| !matches!(e, PE::El(t) if !t.is_const()) && !matches!(e, PE::Px(..))) {
                let (d, l) = (*d as usize, *l as usize);
                if d >= st.fr.len() { return unsup("dangling pointer"); }
                // check path first
                self.walk(st, &st.fr[d].l[l], &p.path)?;
                let mut slot = &mut Rc::make_mut(&mut st.fr[d]).l[l];
                for e in &p.path {
                    slot = match (e, slot) {
                        (PE::F(i), V::Agg(a)) => &mut Rc::make_mut(a)[*i as usize],
                        (PE::VF(k, i), V::En(e)) => &mut Rc::make_mut(Rc::make_mut(e).pay[*k as usize].as_mut().unwrap())[*i as usize],
                        (PE::In, V::Box(b)) => Rc::make_mut(b),
                        (PE::In, V::Dyn(d)) => &mut Rc::make_mut(d).1,
                        (PE::El(t), V::Seq(s)) => &mut Rc::make_mut(s).el[t.val().unwrap() as usize],
                        (PE::F(0), s) => s,
                        _ => return unsup("update path"),
                    };
                }
                return f(slot);
            }
        }
        let mut v = self.read(st, p)?;
        let x = f(&mut v)?;
        self.write(st, p, v)?;
        Ok(x)
    }
    pub fn deref(&self, st: &State, v: &V) -> R<Ptr> {
        match v {
            V::Ptr(p) => Ok((**p).clone()),
            V::Case(k) => { let g = self.simp(st, k.0); if g == TRUE { self.deref(st, &k.1) } else if g == FALSE { self.deref(st, &k.2) } else { Err(E::Split(g)) } }
            V::Bad(s) => unsup(s.to_string()),
            _ => unsup(format!("dereference of {:?}", v)),
        }
    }
    fn place(&self, st: &State, p: &Pl) -> R<Ptr> {
        let d = st.fr.len() as u32 - 1;
        let mut cur = Ptr { root: Root::Local(d, p.local as u32), path: vec![], view: None, dynty: None };
        for e in p.proj.iter() {
            match e {
                P::Deref => {
                    let v = if cur.path.is_empty() && cur.view.is_none() { self.root(st, &cur)?.clone() } else { self.read(st, &cur)? };
                    match &v {
                        V::Box(_) => cur.path.push(PE::In),
                        V::Case(k) => { let g = self.simp(st, k.0); if let Some(_) = g.val() { cur = self.deref(st, &v)?; } else { return Err(E::Split(g)); } }
                        _ => cur = self.deref(st, &v)?,
                    }
                }
                P::BoxRaw => { let mut q = cur.clone(); q.path.push(PE::In); cur = Ptr { root: Root::Val(Rc::new(V::ptr(q))), path: vec![], view: None, dynty: None }; }
                P::F(i) => { cur.view = None; cur.path.push(PE::F(*i)); }
                P::VF(k, i) => { cur.path.push(PE::VF(*k, *i)); }
                P::Idx(l) => { let t = self.int(&st.fr[d as usize].l[*l])?; let s = cur.view.take().map(|v| v.0).unwrap_or(FALSE); cur.path.push(PE::El(add(s, self.simp(st, t)))); }
                P::CI { off, from_end } => {
                    let (s, n) = self.view_of(st, &cur)?;
                    let i = if *from_end { sub(n, c(*off as i128)) } else { c(*off as i128) };
                    cur.view = None; cur.path.push(PE::El(add(s, i)));
                }
                P::Sub { from, to, from_end, .. } => {
                    let (s, n) = self.view_of(st, &cur)?;
                    let len = if *from_end { sub(n, c((*from + *to) as i128)) } else { c((*to - *from) as i128) };
                    cur.view = Some((add(s, c(*from as i128)), len));
                }
            }
        }
        Ok(cur)
    }
    pub fn view_of(&self, st: &State, p: &Ptr) -> R<(T, T)> {
        if let Some(v) = p.view { return Ok(v); }
        match self.read(st, p)? { V::Seq(s) => Ok((FALSE, s.len)), V::Case(k) => Err(E::Split(k.0)), v => unsup(format!("sequence expected, got {:?}", v)) }
    }
    fn op(&self, st: &State, o: &Opd) -> R<V> {
        match o {
            Opd::Const(V::Bad(s), _) => unsup(s.to_string()),
            Opd::Const(v, _) => Ok(v.clone()),
            Opd::Copy(p) | Opd::Move(p) => {
                if p.proj.is_empty() { return Ok(st.fr[st.fr.len() - 1].l[p.local].clone()); }
                let q = self.place(st, p)?;
                self.read(st, &q)
            }
        }
    }
    fn clear_moved(&self, st: &mut State, o: &Opd, keep: usize) {
        if let Opd::Move(p) = o { if p.proj.is_empty() && p.local != keep {
            let d = st.fr.len() - 1;
            if !matches!(st.fr[d].l[p.local], V::T(_) | V::Undef) { Rc::make_mut(&mut st.fr[d]).l[p.local] = V::Undef; } } }
    }

    // ------------------------------------------------------------ operators
    pub fn float_ty(ty: Ty) -> Option<bool> { match ty.kind() { TyKind::RigidTy(RigidTy::Float(FloatTy::F32)) => Some(true), TyKind::RigidTy(RigidTy::Float(_)) => Some(false), _ => None } }
    pub fn binop(&self, st: &State, op: BinOp, a: &V, b_: &V, ty: Ty) -> R<V> {
        if let (V::Case(k), _) | (_, V::Case(k)) = (a, b_) { return Err(E::Split(k.0)); }
        if let Some(f32_) = Self::float_ty(ty) {
            let (x, y) = (self.int(a)?, self.int(b_)?);
            let rnd = |t: T| if f32_ { un(Op::F32Round, t) } else { t };
            return Ok(V::T(match op {
                BinOp::Add => rnd(bin(Op::FAdd, x, y)), BinOp::Sub => rnd(bin(Op::FSub, x, y)), BinOp::Mul => rnd(bin(Op::FMul, x, y)), BinOp::Div => rnd(bin(Op::FDiv, x, y)),
                BinOp::Eq => bin(Op::FEq, x, y), BinOp::Ne => not(bin(Op::FEq, x, y)), BinOp::Lt => bin(Op::FLt, x, y), BinOp::Le => bin(Op::FLe, x, y),
                BinOp::Gt => bin(Op::FLt, y, x), BinOp::Ge => bin(Op::FLe, y, x), _ => return unsup("float op") }));
        }
        if let (V::Ptr(p), V::Ptr(q)) = (a, b_) {
            let same = same_root(&p.root, &q.root) && p.path == q.path && p.view == q.view;
            return match op { BinOp::Eq if same => Ok(V::T(TRUE)), BinOp::Ne if same => Ok(V::T(FALSE)), _ => unsup("pointer comparison") };
        }
        if let (BinOp::Offset, V::Ptr(p)) = (op, a) {
            let mut q = (**p).clone(); let k = self.int(b_)?;
            return match q.path.last_mut() { Some(PE::El(t)) => { *t = add(*t, k); Ok(V::ptr(q)) } _ => unsup("pointer offset") };
        }
        if matches!(op, BinOp::Eq | BinOp::Ne) { if let (V::Agg(x), V::Agg(y)) = (a, b_) { if x.is_empty() && y.is_empty() { return Ok(V::bool(op == BinOp::Eq)); } } }
        let (x, y) = (self.int(a)?, self.int(b_)?);
        let (x, y) = (self.simp(st, x), self.simp(st, y));
        let (bits, sg) = int_bits(ty).unwrap_or((64, false));
        Ok(match op {
            BinOp::Add => V::T(wrap(add(x, y), bits, sg)), BinOp::Sub => V::T(wrap(sub(x, y), bits, sg)), BinOp::Mul => V::T(wrap(mul(x, y), bits, sg)),
            BinOp::AddUnchecked => V::T(add(x, y)), BinOp::SubUnchecked => V::T(sub(x, y)), BinOp::MulUnchecked => V::T(mul(x, y)),
            BinOp::Div => V::T(wrap(bin(Op::Div, x, y), bits, sg)), BinOp::Rem => V::T(bin(Op::Rem, x, y)),
            BinOp::BitAnd => V::T(self.bitop(st, Op::And, x, y, bits, sg)), BinOp::BitOr => V::T(self.bitop(st, Op::Or, x, y, bits, sg)), BinOp::BitXor => V::T(self.bitop(st, Op::Xor, x, y, bits, sg)),
            BinOp::Shl | BinOp::ShlUnchecked => V::T(wrap(bin(Op::Shl, x, rem_euclid(y, bits as i128)), bits, sg)),
            BinOp::Shr | BinOp::ShrUnchecked => V::T(bin(Op::Shr, x, rem_euclid(y, bits as i128))),
            BinOp::Eq => V::T(cmp(Op::Eq, x, y)), BinOp::Ne => V::T(cmp(Op::Ne, x, y)), BinOp::Lt => V::T(cmp(Op::Lt, x, y)), BinOp::Le => V::T(cmp(Op::Le, x, y)),
            BinOp::Gt => V::T(cmp(Op::Lt, y, x)), BinOp::Ge => V::T(cmp(Op::Le, y, x)),
            BinOp::Cmp => ordering(x, y),
            BinOp::Offset => return unsup("offset"),
        })
    }
    fn bitop(&self, _st: &State, op: Op, x: T, y: T, _bits: u8, _sg: bool) -> T {
        let isb = |t: T| t.range().0 >= 0 && t.range().1 <= 1;
        if isb(x) && isb(y) { return match op { Op::And => and(x, y), Op::Or => or(x, y), _ => ite(x, not(y), y) }; }
        bin(op, x, y)
    }
    fn rvalue(&mut self, st: &mut State, rv: &Rv) -> R<V> {
        match rv {
            Rv::Use(o) | Rv::Transparent(o) => self.op(st, o),
            Rv::Ref(p) => { let q = self.place(st, p)?; Ok(V::ptr(q)) }
            Rv::Agg(v) => { let mut r = Vec::with_capacity(v.len()); for o in v { r.push(self.op(st, o)?); } Ok(V::agg(r)) }
            Rv::Array(v) => { let mut r = Vec::with_capacity(v.len()); for o in v { r.push(self.op(st, o)?); } Ok(V::seq(r)) }
            Rv::Variant(i, n, v) => { let mut r = Vec::with_capacity(v.len()); for o in v { r.push(self.op(st, o)?); } Ok(V::variant(*i, *n, r)) }
            Rv::RawPtr(a, m, _) => {
                let a = self.op(st, a)?; let m = self.op(st, m)?;
                let mut p = self.deref(st, &a)?;
                if let V::T(n) = m {
                    let s = match p.path.last() { Some(PE::El(t)) => { let t = *t; p.path.pop(); t } _ => FALSE };
                    p.view = Some((s, n));
                }
                Ok(V::ptr(p))
            }
            Rv::Repeat(o, n) => { let v = self.op(st, o)?; Ok(V::seq(vec![v; *n as usize])) }
            Rv::Bin(op, a, b_) => { let ty = a.ty(); let (a, b_) = (self.op(st, a)?, self.op(st, b_)?); self.binop(st, *op, &a, &b_, ty) }
            Rv::Checked(op, a, b_) => {
                let ty = a.ty();
                let (x, y) = (self.op(st, a)?, self.op(st, b_)?);
                let (x, y) = (self.int(&x)?, self.int(&y)?);
                let (x, y) = (self.simp(st, x), self.simp(st, y));
                let (bits, sg) = int_bits(ty).unwrap_or((64, false));
                let raw = match op { BinOp::Add => add(x, y), BinOp::Sub => sub(x, y), BinOp::Mul => mul(x, y),
                    BinOp::Shl | BinOp::Shr => { let ov = not(and(cmp(Op::Le, FALSE, y), cmp(Op::Lt, y, c(bits as i128)))); let r = self.binop(st, *op, &V::T(x), &V::T(y), ty)?; return Ok(V::agg(vec![r, V::T(ov)])); }
                    _ => return unsup("checked op") };
                let (lo, hi) = int_range(bits, sg);
                let ov = or(cmp(Op::Lt, raw, c(lo)), cmp(Op::Lt, c(hi), raw));
                Ok(V::agg(vec![V::T(wrap(raw, bits, sg)), V::T(ov)]))
            }
            Rv::Un(op, a) => {
                let ty = a.ty();
                let v = self.op(st, a)?;
                match op {
                    UnOp::PtrMetadata => match &v { V::Ptr(p) => match p.view { Some((_, n)) => Ok(V::T(n)), None => match self.view_of(st, p) { Ok((_, n)) => Ok(V::T(n)), Err(e) => Err(e) } }, V::Case(k) => Err(E::Split(k.0)), _ => unsup("ptr metadata") },
                    UnOp::Not => { let t = self.int(&v)?; if ty.kind().is_bool() { Ok(V::T(not(t))) } else { let (b_, s) = int_bits(ty).unwrap_or((64, false)); Ok(V::T(un(Op::BNot(b_, s), t))) } }
                    UnOp::Neg => { let t = self.int(&v)?; if Self::float_ty(ty).is_some() { Ok(V::T(bin(Op::FMul, t, c((-1.0f64).to_bits() as i128)))) } else { let (b_, s) = int_bits(ty).unwrap_or((64, true)); Ok(V::T(wrap(sub(FALSE, t), b_, s))) } }
                }
            }
            Rv::Discr(p) => {
                let q = self.place(st, p)?;
                let v = self.read(st, &q)?;
                let v = if matches!(v, V::Undef) && size_of(p.ty) == 0 { zst(p.ty) } else { v };
                self.discr(st, &v, p.ty)
            }
            Rv::Len(p) => { let q = self.place(st, p)?; let (_, n) = self.view_of(st, &q)?; Ok(V::T(n)) }
            Rv::Cast(k, o, t) => { let from = o.ty(); let v = self.op(st, o)?; self.cast(st, k, v, from, *t) }
            Rv::Unsup(s) => unsup(s.clone()),
        }
    }
    pub fn discr(&self, st: &State, v: &V, ty: Ty) -> R<V> {
        match v {
            V::En(e) => {
                let d = self.simp(st, e.d);
                if let TyKind::RigidTy(RigidTy::Adt(def, _)) = ty.kind() {
                    let m = discr_map(def);
                    if let Some(m) = m { if d.pure_dd() { return Ok(V::T(map_leaves(d, &mut |i| m.get(i as usize).cloned().unwrap_or(i)))); } }
                }
                Ok(V::T(d))
            }
            V::Case(k) => { let g = self.simp(st, k.0); if g == TRUE { self.discr(st, &k.1, ty) } else if g == FALSE { self.discr(st, &k.2, ty) } else { Err(E::Split(g)) } }
            V::Bad(s) => unsup(s.to_string()),
            _ => if let TyKind::RigidTy(RigidTy::Adt(d, _)) = ty.kind() { if d.num_variants() == 1 { Ok(V::int(0)) } else { unsup(format!("discriminant of {:?}", v)) } } else { unsup("discriminant") },
        }
    }
    fn cast(&mut self, st: &State, k: &CastKind, v: V, from: Ty, to: Ty) -> R<V> {
        if let V::Case(k) = &v { return Err(E::Split(k.0)); }
        match k {
            CastKind::IntToInt => {
                let t = match &v { V::En(_) => self.int(&self.discr(st, &v, from)?)?, _ => self.int(&v)? };
                let t = self.simp(st, t);
                let (bits, sg) = int_bits(to).unwrap_or((64, false)); Ok(V::T(wrap(t, bits, sg))) }
            CastKind::IntToFloat => { let t = self.int(&v)?; let r = un(Op::IToF, self.simp(st, t)); Ok(V::T(if Self::float_ty(to) == Some(true) { un(Op::F32Round, r) } else { r })) }
            CastKind::FloatToInt => { let t = self.int(&v)?; let (bits, sg) = int_bits(to).unwrap_or((64, false)); Ok(V::T(un(Op::FToI(bits, sg), t))) }
            CastKind::FloatToFloat => { let t = self.int(&v)?; Ok(V::T(if Self::float_ty(to) == Some(true) { un(Op::F32Round, t) } else { t })) }
            CastKind::PtrToPtr => {
                if let V::Ptr(p) = &v {
                    let tt = deref_ty(to);
                    let unsz = tt.map(|t| matches!(t.kind(), TyKind::RigidTy(RigidTy::Str) | TyKind::RigidTy(RigidTy::Slice(_)) | TyKind::RigidTy(RigidTy::Dynamic(..)))).unwrap_or(false);
                    // a run of elements seen as a struct around an array (pixels)
                    if let (Some(ft), Some(k)) = (deref_ty(from), tt.and_then(array_newtype)) { if k.1 == ft {
                        let mut q = (**p).clone();
                        if let Some((s, _)) = q.view.take() { q.path.push(PE::El(s)); }
                        if let Some(PE::El(s)) = q.path.last() { let s = *s; q.path.pop(); q.path.push(PE::Px(s, k.0 as u32)); return Ok(V::ptr(q)); }
                    } }
                    if !unsz { if let Some((s, _)) = p.view { let mut q = (**p).clone(); q.view = None; q.path.push(PE::El(s)); return Ok(V::ptr(q)); } }
                }
                Ok(v)
            }
            CastKind::PointerCoercion(PointerCoercion::Unsize) => self.unsize(st, v, from, to),
            CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) => match from.kind() { TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve_for_fn_ptr(d, &a) { Ok(i) => Ok(V::Fn(Rc::new(i))), Err(_) => unsup("fn pointer") }, _ => unsup("reify") },
            CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => match from.kind() { TyKind::RigidTy(RigidTy::Closure(d, a)) => match Instance::resolve_closure(d, &a, ClosureKind::FnOnce) { Ok(i) => Ok(V::Fn(Rc::new(i))), Err(_) => unsup("closure fn pointer") }, _ => unsup("closure reify") },
            CastKind::PointerCoercion(PointerCoercion::ArrayToPointer) => { let mut p = self.deref(st, &v)?; let s = p.view.take().map(|x| x.0).unwrap_or(FALSE); p.path.push(PE::El(s)); Ok(V::ptr(p)) }
            CastKind::PointerCoercion(_) => Ok(v),
            CastKind::Transmute | CastKind::BoxDerefTransmute | CastKind::Subtype => self.transmute(v, from, to),
            _ => unsup(format!("cast {:?}", k)),
        }
    }
    pub fn transmute(&self, v: V, from: Ty, to: Ty) -> R<V> {
        if from == to { return Ok(v); }
        if let (Some((_, _)), Some((b2, s2))) = (int_bits(from), int_bits(to)) { let t = self.int(&v)?; return Ok(V::T(wrap(t, b2, s2))); }
        match &v { V::Ptr(_) | V::Fn(_) => return Ok(v), _ => {} }
        // newtype wrappers
        fn peel(ty: Ty) -> Option<Ty> {
            if let TyKind::RigidTy(RigidTy::Adt(d, a)) = ty.kind() { if d.kind() == AdtKind::Struct {
                if let Some(i) = transparent_field(ty) { return Some(d.variants()[0].fields()[i].ty_with_args(&a)); }
                let fs = d.variants()[0].fields(); if fs.len() == 1 { return Some(fs[0].ty_with_args(&a)); } } }
            None
        }
        let is_tr = |t: Ty| transparent_field(t).is_some();
        if let Some(f) = peel(from) { if is_tr(from) { return self.transmute(v, f, to); } if let V::Agg(a) = &v { if a.len() == 1 { return self.transmute(a[0].clone(), f, to); } } }
        if let Some(t) = peel(to) { let x = self.transmute(v, from, t)?; return Ok(if is_tr(to) { x } else { V::agg(vec![x]) }); }
        match (&v, from.kind(), to.kind()) {
            (V::Seq(_), TyKind::RigidTy(RigidTy::Array(..)), TyKind::RigidTy(RigidTy::Array(..))) => Ok(v),
            (V::T(t), TyKind::RigidTy(RigidTy::Float(_)), _) | (V::T(t), _, TyKind::RigidTy(RigidTy::Float(_))) => Ok(V::T(*t)),
            _ => if size_of(from) == 0 && size_of(to) == 0 { Ok(zst(to)) } else if from.kind() == to.kind() { Ok(v) } else { unsup(format!("transmute {:?} -> {:?}", from, to)) },
        }
    }
    fn unsize(&mut self, st: &State, v: V, from: Ty, to: Ty) -> R<V> {
        let (ft, tt) = match (deref_ty(from), deref_ty(to)) { (Some(a), Some(b)) => (a, b), _ => return unsup("unsize") };
        match (ft.kind(), tt.kind()) {
            (TyKind::RigidTy(RigidTy::Array(..)), TyKind::RigidTy(RigidTy::Slice(_))) => match v {
                V::Ptr(p) => { let (s, n) = self.view_of(st, &p)?; let mut q = (*p).clone(); q.view = Some((s, n)); Ok(V::ptr(q)) }
                V::Box(b) => Ok(V::Box(b)),
                _ => unsup("unsize array"),
            },
            (TyKind::RigidTy(RigidTy::Dynamic(..)), TyKind::RigidTy(RigidTy::Dynamic(..))) => Ok(v),
            (_, TyKind::RigidTy(RigidTy::Dynamic(..))) => match v {
                V::Ptr(p) => { let mut q = (*p).clone(); q.dynty = Some(ft); Ok(V::ptr(q)) }
                V::Box(b) => Ok(V::Box(Rc::new(V::Dyn(Rc::new((ft, (*b).clone())))))),
                _ => unsup("unsize dyn"),
            },
            _ => unsup("unsize kind"),
        }
    }
    fn stmt(&mut self, st: &mut State, s: &St) -> R<()> {
        self.stats.stmts += 1;
        match s {
            St::Assign(p, rv) => {
                let v = self.rvalue(st, rv)?;
                if p.proj.is_empty() {
                    let d = st.fr.len() - 1;
                    Rc::make_mut(&mut st.fr[d]).l[p.local] = v;
                } else { let q = self.place(st, p)?; self.write(st, &q, v)?; }
                match rv {
                    Rv::Use(o) | Rv::Transparent(o) | Rv::Cast(_, o, _) | Rv::Repeat(o, _) => self.clear_moved(st, o, p.local),
                    Rv::Agg(v) | Rv::Array(v) | Rv::Variant(_, _, v) => for o in v { self.clear_moved(st, o, p.local); },
                    _ => {}
                }
                Ok(())
            }
            St::SetDiscr(p, i, n) => {
                let q = self.place(st, p)?;
                let (i, n) = (*i, *n);
                self.update(st, &q, |v| { match v { V::En(e) => { Rc::make_mut(e).d = c(i as i128); let e = Rc::make_mut(e); while e.pay.len() < n as usize { e.pay.push(None); } if e.pay[i as usize].is_none() { e.pay[i as usize] = Some(Rc::new(vec![])); } } _ => *v = V::variant(i, n, vec![]) } Ok(()) })
            }
            St::Dead(l) | St::Live(l) => { let d = st.fr.len() - 1; if !matches!(st.fr[d].l[*l], V::Undef) { Rc::make_mut(&mut st.fr[d]).l[*l] = V::Undef; } Ok(()) }
            St::Assume(_) => Ok(()),
            St::Unsup(s) => unsup(s.clone()),
        }
    }

    // ------------------------------------------------------------ control flow
    fn split(&mut self, st: &State, t: T) -> Option<Vec<T>> {
        self.stats.splits += 1;
        let (t, ks) = match self.cases(st, t) { Ok(x) => x, Err(_) => return None };
        let mut out = vec![];
        for k in ks { let g = and(st.g, cmp(Op::Eq, t, c(k))); if g != FALSE { out.push(g); } }
        Some(out)
    }
    /// Replace alternatives whose condition is decided by the guard.
    fn settle(&self, st: &State, v: &V, ch: &mut bool) -> V {
        fn list(cx: &Cx, st: &State, x: &[V], ch: &mut bool) -> Option<Vec<V>> {
            let mut c1 = false;
            let r: Vec<V> = x.iter().map(|y| cx.settle(st, y, &mut c1)).collect();
            if c1 { *ch = true; Some(r) } else { None }
        }
        match v {
            V::Case(k) => {
                let g = self.simp(st, k.0);
                if g == TRUE { *ch = true; return self.settle(st, &k.1, ch); }
                if g == FALSE { *ch = true; return self.settle(st, &k.2, ch); }
                let mut c1 = false;
                let (x, y) = (self.settle(st, &k.1, &mut c1), self.settle(st, &k.2, &mut c1));
                if c1 { *ch = true; V::Case(Rc::new((k.0, x, y))) } else { v.clone() }
            }
            V::Agg(x) => match list(self, st, x, ch) { Some(r) => V::Agg(Rc::new(r)), None => v.clone() },
            V::Seq(s) => match list(self, st, &s.el, ch) { Some(r) => V::seq_len_of(r, s.len), None => v.clone() },
            V::En(e) => {
                let mut c1 = false;
                let pay: Vec<Option<Rc<Vec<V>>>> = e.pay.iter().map(|p| p.as_ref().map(|p| match list(self, st, p, &mut c1) { Some(r) => Rc::new(r), None => p.clone() })).collect();
                if c1 { *ch = true; V::En(Rc::new(En { d: e.d, pay })) } else { v.clone() }
            }
            V::Box(b) => { let mut c1 = false; let r = self.settle(st, b, &mut c1); if c1 { *ch = true; V::Box(Rc::new(r)) } else { v.clone() } }
            V::Dyn(d) => { let mut c1 = false; let r = self.settle(st, &d.1, &mut c1); if c1 { *ch = true; V::Dyn(Rc::new((d.0, r))) } else { v.clone() } }
            V::Ptr(p) => if let Root::Val(b) = &p.root { let mut c1 = false; let r = self.settle(st, b, &mut c1); if c1 { *ch = true; let mut q = (**p).clone(); q.root = Root::Val(Rc::new(r)); V::ptr(q) } else { v.clone() } } else { v.clone() },
            _ => v.clone(),
        }
    }
    pub fn merge_states(&mut self, a: State, b_: State) -> State {
        self.stats.joins += 1;
        let g = or(a.g, b_.g);
        let cond = restrict(a.g, g);
        let mut fr = Vec::with_capacity(a.fr.len());
        for (x, y) in a.fr.iter().zip(b_.fr.iter()) {
            if Rc::ptr_eq(x, y) { fr.push(x.clone()); continue; }
            let l = x.l.iter().zip(y.l.iter()).map(|(p, q)| merge(cond, p, q)).collect();
            fr.push(Rc::new(Frame { l }));
        }
        State { g, fr }
    }
    fn next_key(f: &Func, key: &Key, from: usize, to: usize) -> Key {
        // key layout: p1,i1,p2,i2,...,pk
        let (pb, pc) = (&f.wto[from], &f.wto[to]);
        let mut out: Key = vec![];
        let mut shared = true;
        for j in 0..pc.len() {
            out.push(pc[j]);
            if j + 1 < pc.len() {
                shared = shared && j + 1 < pb.len() && pb[j] == pc[j];
                let mut it = if shared { key[2 * j + 1] } else { 0 };
                // back edge to the head of this component
                if shared && j + 2 == pc.len() && pc[j + 1] == 0 { it += 1; }
                out.push(it);
            }
        }
        out
    }
    /// Analyse one call. Returns the joined outcome, or None if no state returns.
    pub fn run(&mut self, f: &'static Func, args: Vec<V>, mut st: State) -> Option<(State, V)> {
        if self.stack.len() > 150 { self.record_undec(st.g, "call depth".into()); return None; }
        if std::env::var("MIRVAL_TRACE").is_ok() { eprintln!("{}{}", " ".repeat(self.stack.len()), f.name); }
        if self.stats.funcs.len() < 5000 && f.krate == "barcoders" { self.stats.funcs.insert(short_fn(&f.name)); }
        let mut l = vec![V::Undef; f.tys.len()];
        let mut args = args;
        if args.len() + 1 == f.nargs && f.nargs > 0 && args.iter().all(|a| !matches!(a, V::Bad(_))) { args.insert(0, V::unit()); }
        for (i, a) in args.into_iter().enumerate() { if i + 1 < l.len() { l[i + 1] = a; } }
        st.fr.push(Rc::new(Frame { l }));
        let depth = st.fr.len();
        let mut work: BTreeMap<Key, (State, usize)> = BTreeMap::new();
        let mut k0: Key = vec![]; for (j, p) in f.wto[0].iter().enumerate() { k0.push(*p); if j + 1 < f.wto[0].len() { k0.push(0); } }
        work.insert(k0, (st, 0));
        let mut ret: Option<State> = None;
        self.stack.push((f, 0));
        while let Some((key, (st, b_))) = work.pop_first() {
            self.stats.blocks += 1;
            if self.stats.blocks & 255 == 0 && std::time::Instant::now() > self.deadline {
                let mut g = st.g; for (_, (s, _)) in &work { g = or(g, s.g); }
                self.record_undec(g, "time budget".into());
                work.clear();
                break;
            }
            let si = self.stack.len() - 1;
            self.stack[si].1 = b_;
            let blk = &f.blocks[b_];
            let mut todo: Vec<(State, usize)> = vec![(st, 0)];
            let mut succ: Vec<(State, usize)> = vec![];
            let mut rets: Vec<State> = vec![];
            while let Some((mut st, mut i)) = todo.pop() {
                let mut failed: Option<E> = None;
                while i < blk.st.len() {
                    match self.stmt(&mut st, &blk.st[i]) { Ok(()) => {} Err(e) => { failed = Some(e); break; } }
                    i += 1;
                }
                if failed.is_none() { match self.term(f, b_, &mut st, &mut succ, &mut rets) { Ok(()) => {} Err(e) => failed = Some(e) } }
                match failed {
                    None => {}
                    Some(E::Split(t)) => match { st.fr.truncate(depth); self.split(&st, t) } {
                        Some(gs) if gs.len() > 1 => { for g in gs { let mut s = st.clone(); s.g = g; todo.push((s, i)); } }
                        Some(gs) if gs.len() == 1 && gs[0] != st.g => { let mut s = st; s.g = gs[0]; todo.push((s, i)); }
                        Some(_) => {
                            // decided alternatives nested inside the frames: resolve them under the current guard
                            let mut ch = false;
                            let fr: Vec<Rc<Frame>> = st.fr.iter().map(|x| { let mut c1 = false; let l: Vec<V> = x.l.iter().map(|v| self.settle(&st, v, &mut c1)).collect(); if c1 { ch = true; Rc::new(Frame { l }) } else { x.clone() } }).collect();
                            if ch { st.fr = fr; todo.push((st, i)); } else { self.record_undec(st.g, "split made no progress".into()) }
                        }
                        None => self.record_undec(st.g, "unbounded case split".into()),
                    },
                    Some(E::Unsup(m)) => self.record_undec(st.g, m),
                    Some(E::Dead) => {}
                }
            }
            for s in rets { debug_assert_eq!(s.fr.len(), depth); ret = Some(match ret { None => s, Some(r) => self.merge_states(r, s) }); }
            for (s, t) in succ {
                let k = Self::next_key(f, &key, b_, t);
                let m = match work.remove(&k) { None => s, Some((o, _)) => self.merge_states(o, s) };
                work.insert(k, (m, t));
            }
        }
        self.stack.pop();
        let mut st = ret?;
        let fr = st.fr.pop().unwrap();
        let v = fr.l[0].clone();
        drop(fr);
        Some((st, v))
    }
    fn term(&mut self, f: &'static Func, b_: usize, st: &mut State, succ: &mut Vec<(State, usize)>, rets: &mut Vec<State>) -> R<()> {
        let take = |st: &mut State| State { g: st.g, fr: std::mem::take(&mut st.fr) };
        match &f.blocks[b_].tm {
            Tm::Goto(t) => { succ.push((take(st), *t)); Ok(()) }
            Tm::Return => { rets.push(take(st)); Ok(()) }
            Tm::Unreachable => Ok(()),
            Tm::Unsup(s) => unsup(s.clone()),
            Tm::Switch(o, brs, other) => {
                let v = self.op(st, o)?;
                let t = match &v { V::Case(k) => return Err(E::Split(k.0)), _ => self.int(&v)? };
                let t = self.simp(st, t);
                if let Some(k) = t.val() {
                    let tgt = brs.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*other);
                    succ.push((take(st), tgt));
                    return Ok(());
                }
                let mut outs: Vec<(T, usize)> = vec![];
                let mut rest = st.g;
                for (k, tgt) in brs {
                    let e = cmp(Op::Eq, t, c(*k));
                    let g = and(st.g, e);
                    if g == FALSE { continue; }
                    rest = and(rest, not(e));
                    match outs.iter_mut().find(|x| x.1 == *tgt) { Some(x) => x.0 = or(x.0, g), None => outs.push((g, *tgt)) }
                }
                if rest != FALSE { match outs.iter_mut().find(|x| x.1 == *other) { Some(x) => x.0 = or(x.0, rest), None => outs.push((rest, *other)) } }
                let n = outs.len();
                for (i, (g, tgt)) in outs.into_iter().enumerate() {
                    if matches!(f.blocks[tgt].tm, Tm::Unreachable) && f.blocks[tgt].st.is_empty() { continue; }
                    let mut s = if i + 1 == n { take(st) } else { st.clone() };
                    s.g = g; succ.push((s, tgt));
                }
                Ok(())
            }
            Tm::Assert { cond, expected, msg, target, overflow } => {
                let v = self.op(st, cond)?;
                let t = self.int(&v)?;
                let okc = if *expected { t } else { not(t) };
                let bad = and(st.g, not(okc));
                if bad != FALSE { self.record_panic(bad, msg, *overflow); }
                st.g = and(st.g, okc);
                if st.g == FALSE { return Ok(()); }
                succ.push((take(st), *target));
                Ok(())
            }
            Tm::Call { func, args, dest, target } => {
                let mut av = Vec::with_capacity(args.len());
                for a in args { av.push(self.op(st, a)?); }
                let tys: Vec<Ty> = args.iter().map(|a| a.ty()).collect();
                self.stats.calls += 1;
                let v = match func {
                    Callee::Def(d, ga) => {
                        let r = self.resolve(*d, ga)?;
                        let movable = matches!(r.tgt, Target::Inst(_));
                        if movable { for a in args { self.clear_moved(st, a, usize::MAX); } }
                        if target.is_none() {
                            // diverging call: a panic unless it has an analysable body
                            let msg = self.panic_msg(st, &r.name, &av);
                            if !matches!(r.tgt, Target::Native(_)) && !matches!(r.tgt, Target::Inst(i) if user_fn(i)) { let g = st.g; self.record_panic(g, &msg, false); return Ok(()); }
                        }
                        let v = self.dispatch(&r, av, &tys, dest.ty, st);
                        if !movable && v.is_ok() { for a in args { self.clear_moved(st, a, usize::MAX); } }
                        v?
                    }
                    Callee::Val(o) => { let fv = self.op(st, o)?; let fty = o.ty(); self.call_value(fv, fty, av, st, dest.ty)? }
                };
                match target {
                    Some(t) => {
                        if dest.proj.is_empty() { let d = st.fr.len() - 1; Rc::make_mut(&mut st.fr[d]).l[dest.local] = v; }
                        else { let q = self.place(st, dest)?; self.write(st, &q, v)?; }
                        succ.push((take(st), *t));
                    }
                    None => {}
                }
                Ok(())
            }
        }
    }
    fn panic_msg(&self, st: &State, name: &str, args: &[V]) -> String {
        let short = name.rsplit("::").next().unwrap_or(name).to_string();
        for a in args {
            if let V::Ptr(p) = a { if p.view.is_some() { if let Ok(V::Seq(s)) = self.read(st, p) { let m: Option<String> = s.el.iter().map(|x| if let V::T(t) = x { t.val().and_then(|v| char::from_u32(v as u32)) } else { None }).collect(); if let Some(m) = m { return format!("{}: {}", short, m); } } } }
        }
        short
    }

    // ------------------------------------------------------------ calls
    pub fn resolve(&mut self, d: FnDef, ga: &GenericArgs) -> R<Resolved> {
        let key = (d, ga.clone());
        if let Some(r) = self.res_cache.get(&key) { return Ok(r.clone()); }
        let r = self.resolve0(d, ga)?;
        self.res_cache.insert(key, r.clone());
        Ok(r)
    }
    fn resolve0(&mut self, d: FnDef, ga: &GenericArgs) -> R<Resolved> {
        let dn = norm_name(&d.name());
        let mk = |tgt, inst: Option<Instance>, name: String, args: GenericArgs| Resolved { tgt, inst, name: Rc::new(name), args: Rc::new(args) };
        if dn.ends_with("FnOnce::call_once") || dn.ends_with("FnMut::call_mut") || dn.ends_with("Fn::call") {
            return Ok(mk(Target::FnTrait, None, dn, ga.clone()));
        }
        if let Some(n) = natives::lookup_pre(&dn) { return Ok(mk(Target::Native(n), None, dn, ga.clone())); }
        let inst = match Instance::resolve(d, ga) { Ok(i) => i, Err(_) => return unsup(format!("unresolved {}", d.name())) };
        if let InstanceKind::Virtual { .. } = inst.kind { return Ok(mk(Target::DynCall(d), Some(inst), dn, ga.clone())); }
        let iname = norm_name(&inst.def.name()); if std::env::var("MIRVAL_NAMES").is_ok() { eprintln!("iname {}", iname); }
        if let Some(n) = natives::lookup(&iname) { return Ok(mk(Target::Native(n), Some(inst), iname, inst.args())); }
        // shims written in the harness crate
        if let Some(sh) = natives::shim(&iname, ga).or_else(|| natives::shim_default(&iname)) {
            if let Some(sd) = self.shims.get(sh).cloned() {
                let args = ga.clone();
                if let Ok(i) = Instance::resolve(sd, &args) { return Ok(mk(Target::Inst(i), Some(i), iname, args)); }
                return unsup(format!("shim {} does not resolve", sh));
            }
        }
        if inst.kind == InstanceKind::Intrinsic {
            let n = inst.intrinsic_name().unwrap_or_default();
            let key = format!("intrinsic::{}", n);
            if let Some(nf) = natives::lookup(&key) { return Ok(mk(Target::Native(nf), Some(inst), key, inst.args())); }
        }
        if iname.starts_with("panicking::") || iname.ends_with("::unwrap_failed") || iname.ends_with("expect_failed") || iname == "rt::panic_fmt" { return Ok(mk(Target::Diverge, Some(inst), iname, ga.clone())); }
        Ok(mk(Target::Inst(inst), Some(inst), iname, ga.clone()))
    }
    pub fn dispatch(&mut self, r: &Resolved, args: Vec<V>, tys: &[Ty], ret: Ty, st: &mut State) -> R<V> {
        match r.tgt {
            Target::Native(n) => { let name = r.name.clone(); let ga = r.args.clone(); let ci = Ci { name: &name, args: &ga, tys, ret, inst: r.inst }; n(self, st, &args, &ci) }
            Target::Inst(i) => self.call_inst(i, args, st),
            Target::Diverge => { let m = self.panic_msg(st, &r.name, &args); let g = st.g; self.record_panic(g, &m, false); Err(E::Dead) }
            Target::FnTrait => {
                let mut it = args.into_iter(); let fv = it.next().unwrap(); let tup = it.next().unwrap_or(V::unit());
                let a = match tup { V::Agg(v) => (*v).clone(), V::Case(k) => return Err(E::Split(k.0)), _ => return unsup("call tuple") };
                let fty = match r.args.0[0].ty() { Some(t) => *t, None => return unsup("fn trait self") };
                let by_ref = !r.name.ends_with("call_once");
                self.call_closure(fv, fty, by_ref, a, st, ret)
            }
            Target::DynCall(d) => {
                let p = self.deref(st, &args[0])?;
                let (ty, p) = match p.dynty { Some(t) => { let mut q = p.clone(); q.dynty = None; (t, q) }
                    None => match self.read(st, &p)? { V::Dyn(d) => { let mut q = p.clone(); q.path.push(PE::In); (d.0, q) } V::Box(_) => { let mut q = p.clone(); q.path.push(PE::In); match self.read(st, &q)? { V::Dyn(d) => { q.path.push(PE::In); (d.0, q) } _ => return unsup("dyn call") } } V::Case(k) => return Err(E::Split(k.0)), _ => return unsup("dyn call") } };
                let mut ga = (*r.args).clone(); ga.0[0] = GenericArgKind::Type(ty);
                let rr = self.resolve(d, &ga)?;
                let mut a = args; a[0] = V::ptr(p);
                self.dispatch(&rr, a, tys, ret, st)
            }
        }
    }
    pub fn call_inst(&mut self, i: Instance, args: Vec<V>, st: &mut State) -> R<V> {
        let f = match func(i) { Some(f) => f, None => { if let Some(v) = ctor(i, &args) { return Ok(v); } return unsup(format!("no MIR for {} [{}]", i.name(), norm_name(&i.def.name()))) } };
        self.call_func(f, args, st)
    }
    pub fn call_func(&mut self, f: &'static Func, mut args: Vec<V>, st: &mut State) -> R<V> {
        if let Some(sp) = f.spread { // collect trailing arguments into a tuple
            let keep = sp - 1;
            if !(args.len() == f.nargs && matches!(args.last(), Some(V::Agg(_)))) { let rest = args.split_off(keep); args.push(V::agg(rest)); }
        } else if args.len() == 2 && f.nargs != 2 { if let V::Agg(t) = &args[1] { if t.len() + 1 == f.nargs { let t = t.clone(); args.pop(); args.extend(t.iter().cloned()); } } }
        let s = State { g: st.g, fr: std::mem::take(&mut st.fr) };
        match self.run(f, args, s) { Some((s, v)) => { *st = s; Ok(v) } None => Err(E::Dead) }
    }
    /// Call a function named in the harness crate with generic arguments.
    pub fn call_shim(&mut self, name: &str, ga: GenericArgs, args: Vec<V>, st: &mut State) -> R<V> {
        let d = match self.shims.get(name) { Some(d) => *d, None => return unsup(format!("shim {} missing", name)) };
        match Instance::resolve(d, &ga) { Ok(i) => self.call_inst(i, args, st), Err(_) => unsup(format!("shim {} unresolved", name)) }
    }
    /// `fv` is the callee value (or a pointer to it when by_ref).
    pub fn call_closure(&mut self, fv: V, fty: Ty, by_ref: bool, args: Vec<V>, st: &mut State, ret: Ty) -> R<V> {
        match fty.kind() {
            TyKind::RigidTy(RigidTy::Closure(d, a)) => {
                // kind of the closure body: by value or by reference environment
                let inst = match Instance::resolve_closure(d, &a, ClosureKind::FnOnce).ok().filter(|i| closure_takes_value(*i, fty)) { Some(i) => i,
                    None => match Instance::resolve_closure(d, &a, ClosureKind::FnMut).or_else(|_| Instance::resolve_closure(d, &a, ClosureKind::Fn)) { Ok(i) => i, Err(_) => return unsup("closure") } };
                let f = match func(inst) { Some(f) => f, None => return unsup("closure body") };
                let env_is_ref = matches!(f.tys[1].kind(), TyKind::RigidTy(RigidTy::Ref(..)));
                let mut all = vec![];
                if env_is_ref && !by_ref {
                    // materialise the environment in a temporary frame
                    st.fr.push(Rc::new(Frame { l: vec![fv] }));
                    let p = V::ptr(Ptr { root: Root::Local(st.fr.len() as u32 - 1, 0), path: vec![], view: None, dynty: None });
                    all.push(p); all.extend(args);
                    let v = self.call_func(f, all, st)?;
                    st.fr.pop();
                    return Ok(v);
                }
                if !env_is_ref && by_ref { let p = self.deref(st, &fv)?; all.push(self.read(st, &p)?); } else { all.push(fv); }
                all.extend(args);
                self.call_func(f, all, st)
            }
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => { let r = self.resolve(d, &a)?; let tys: Vec<Ty> = match fty.kind().fn_sig() { Some(s) => s.skip_binder().inputs().to_vec(), None => vec![] }; self.dispatch(&r, args, &tys, ret, st) }
            TyKind::RigidTy(RigidTy::FnPtr(_)) => { let v = if by_ref { let p = self.deref(st, &fv)?; self.read(st, &p)? } else { fv }; self.call_value(v, fty, args, st, ret) }
            TyKind::RigidTy(RigidTy::Ref(_, t, _)) => { let v = if by_ref { let p = self.deref(st, &fv)?; self.read(st, &p)? } else { fv }; self.call_closure(v, t, true, args, st, ret) }
            TyKind::RigidTy(RigidTy::Dynamic(..)) => {
                let p = self.deref(st, &fv)?;
                let (ty, p) = match p.dynty { Some(t) => { let mut q = p.clone(); q.dynty = None; (t, q) } None => match self.read(st, &p)? { V::Dyn(d) => { let mut q = p.clone(); q.path.push(PE::In); (d.0, q) } _ => return unsup("dyn closure") } };
                self.call_closure(V::ptr(p), ty, true, args, st, ret)
            }
            TyKind::RigidTy(RigidTy::Adt(d, ga)) if d.is_box() => {
                let inner = *ga.0[0].ty().unwrap();
                if by_ref { let mut p = self.deref(st, &fv)?; p.path.push(PE::In); self.call_closure(V::ptr(p), inner, true, args, st, ret) }
                else {
                    st.fr.push(Rc::new(Frame { l: vec![fv] }));
                    let p = V::ptr(Ptr { root: Root::Local(st.fr.len() as u32 - 1, 0), path: vec![PE::In], view: None, dynty: None });
                    let v = self.call_closure(p, inner, true, args, st, ret)?;
                    st.fr.pop();
                    Ok(v)
                }
            }
            _ => unsup(format!("call of {:?}", fty)),
        }
    }
    fn call_value(&mut self, fv: V, _fty: Ty, args: Vec<V>, st: &mut State, ret: Ty) -> R<V> {
        match fv {
            V::Fn(i) => {
                let iname = norm_name(&i.def.name());
                if let Some(n) = natives::lookup(&iname) { let ga = i.args(); let tys: Vec<Ty> = match i.ty().kind().fn_sig() { Some(s) => s.skip_binder().inputs().to_vec(), None => vec![] }; let ci = Ci { name: &iname, args: &ga, tys: &tys, ret, inst: Some(*i) }; return n(self, st, &args, &ci); }
                self.call_inst(*i, args, st)
            }
            V::Case(k) => Err(E::Split(k.0)),
            _ => unsup("indirect call"),
        }
    }
}
fn closure_takes_value(i: Instance, cty: Ty) -> bool {
    // the FnOnce shim of a by-ref closure is not the body itself
    match func(i) { Some(f) => f.tys.get(1).map(|t| *t == cty).unwrap_or(false) && i.kind == InstanceKind::Item, None => false }
}
pub fn user_fn(i: Instance) -> bool { rustc_public::CrateItem::try_from(i).map(|c| { let n = c.krate().name; n == "barcoders" || n.starts_with("harness") }).unwrap_or(false) }
pub fn ordering(x: T, y: T) -> V {
    let d = ite(cmp(Op::Lt, x, y), c(0), ite(cmp(Op::Eq, x, y), c(1), c(2)));
    V::En(Rc::new(En { d, pay: vec![Some(Rc::new(vec![])); 3] }))
}
thread_local! { static DISCR: std::cell::RefCell<HashMap<AdtDef, Option<Rc<Vec<i128>>>>> = Default::default(); }
fn discr_map(d: AdtDef) -> Option<Rc<Vec<i128>>> {
    if let Some(r) = DISCR.with(|m| m.borrow().get(&d).cloned()) { return r; }
    let mut v = vec![]; let mut id = true;
    if d.kind() == AdtKind::Enum { for (i, x) in d.variants().iter().enumerate() { let k = d.discriminant_for_variant(x.idx());
        let val = match int_bits(k.ty) { Some((b_, s)) => wrap_val(k.val as i128, b_, s), None => k.val as i128 }; if val != i as i128 { id = false; } v.push(val); } }
    let r = if id { None } else { Some(Rc::new(v)) };
    DISCR.with(|m| m.borrow_mut().insert(d, r.clone()));
    r
}
pub fn short_fn(n: &str) -> String {
    let s = norm_name(n);
    s
}
