//! Abstract scalar domain: hash-consed finite-function terms over input symbols.
//!
//! A term denotes a total function from valuations of the input symbols to integers, kept in a
//! (mostly) canonical form:
//!   Const            a constant
//!   Split(s, pieces) a multi-way decision on the value of symbol s (range pieces)
//!   Id(s)            the value of a symbol with a large domain
//!   Lin(c, k*atom..) an integer-linear combination of terms
//! Operations that leave this form introduce *derived symbols* which are hash-consed on their
//! definition (canonical residues `lin mod m`, or opaque operations with interval bounds).
use std::collections::HashMap;

pub type Sym = u32;

/// Term handle. Small constants are stored inline (tag 1).
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct T(pub u64);

impl std::fmt::Debug for T {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", show(*self))
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Split(Sym, Box<[(i128, T)]>),
    Lin(i128, Box<[(i128, T)]>),
    Id(Sym),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Def {
    Base,
    Mod(i128, T),
    Op(Op, Vec<T>),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Op {
    Add, Sub, Mul, Div, Rem, And, Or, Xor, Shl, Shr,
    Eq, Ne, Lt, Le,
    // wrap into [lo, lo+2^bits): (value, bits, signed) handled by wrap()
    Wrap(u8, bool),
    FAdd, FSub, FMul, FDiv, FLt, FLe, FEq,
    IToF, UToF, FToI(u8, bool), F32Round,
    /// decimal rendering token (value of a text cell)
    Disp,
    /// generic uninterpreted operation
    Ext(u32),
    Not1, // logical not
    BNot(u8, bool),
    DivEuclid, RemEuclid,
}

pub struct SymInfo {
    pub name: String,
    pub ranges: Vec<(i128, i128)>,
    pub def: Def,
}
impl SymInfo {
    pub fn lo(&self) -> i128 { self.ranges[0].0 }
    pub fn hi(&self) -> i128 { self.ranges[self.ranges.len() - 1].1 }
    pub fn size(&self) -> i128 { self.ranges.iter().map(|r| r.1 - r.0 + 1).sum() }
}

pub const SMALL: i128 = 1200;
pub const NODE_CAP: usize = 60_000;

/// Distinct terms allowed in one obligation.
pub const TERM_CAP: usize = 8_000_000;
/// Raised (as a panic payload) when an obligation exceeds its budget.
pub struct Limit(pub &'static str);

pub struct Store {
    pub deadline: Option<std::time::Instant>,
    pub nodes: Vec<Box<Node>>,
    pub info: Vec<(i128, i128, bool)>, // lo, hi, pure
    cons: HashMap<Node, u32>,
    big: Vec<i128>,
    bigmap: HashMap<i128, u32>,
    pub syms: Vec<SymInfo>,
    defs: HashMap<Def, Sym>,
    memo2: HashMap<(Op, T, T), T>,
    modexp: HashMap<T, (i128, T)>,
    memo_ite: HashMap<(T, T, T), T>,
    memo_restrict: HashMap<(T, T), T>,
    pub ext_names: Vec<String>,
}

static mut STORE: *mut Store = std::ptr::null_mut();
pub fn st() -> &'static mut Store {
    unsafe {
        if STORE.is_null() {
            STORE = Box::into_raw(Box::new(Store {
                deadline: None, nodes: vec![], info: vec![], cons: HashMap::new(), big: vec![], bigmap: HashMap::new(),
                syms: vec![], defs: HashMap::new(), memo2: HashMap::new(), modexp: HashMap::new(), memo_ite: HashMap::new(),
                memo_restrict: HashMap::new(), ext_names: vec![],
            }));
        }
        &mut *STORE
    }
}
/// Forget all symbols and non-constant terms (a new analysis partition).
pub fn reset() {
    let s = st();
    s.nodes.clear(); s.info.clear(); s.cons.clear(); s.syms.clear(); s.defs.clear();
    s.modexp.clear(); s.memo2.clear(); s.memo_ite.clear(); s.memo_restrict.clear();
}

pub fn ext(name: &str) -> Op {
    let s = st();
    if let Some(i) = s.ext_names.iter().position(|n| n == name) { return Op::Ext(i as u32); }
    s.ext_names.push(name.to_string());
    Op::Ext(s.ext_names.len() as u32 - 1)
}

pub const FALSE: T = T(1);
pub const TRUE: T = T((1 << 2) | 1);

pub fn c(v: i128) -> T {
    if v >= -(1i128 << 60) && v < (1i128 << 60) {
        T((((v as i64) << 2) as u64) | 1)
    } else {
        let s = st();
        let i = match s.bigmap.get(&v) { Some(i) => *i, None => {
            let i = s.big.len() as u32; s.big.push(v); s.bigmap.insert(v, i); i } };
        T(((i as u64) << 2) | 2)
    }
}
pub fn b(v: bool) -> T { if v { TRUE } else { FALSE } }

impl T {
    #[inline]
    pub fn val(self) -> Option<i128> {
        match self.0 & 3 {
            1 => Some(((self.0 as i64) >> 2) as i128),
            2 => Some(st().big[(self.0 >> 2) as usize]),
            _ => None,
        }
    }
    #[inline]
    pub fn is_const(self) -> bool { self.0 & 3 != 0 }
    #[inline]
    pub fn node(self) -> &'static Node { &*st().nodes[(self.0 >> 2) as usize] }
    pub fn range(self) -> (i128, i128) {
        if let Some(v) = self.val() { return (v, v); }
        let i = &st().info[(self.0 >> 2) as usize];
        (i.0, i.1)
    }
    pub fn pure_dd(self) -> bool {
        if self.is_const() { return true; }
        st().info[(self.0 >> 2) as usize].2
    }
    /// top decision symbol
    pub fn top(self) -> Option<Sym> {
        if self.is_const() { return None; }
        match self.node() { Node::Split(s, _) => Some(*s), _ => None }
    }
    /// A decision on one symbol with constant leaves.
    pub fn single(self) -> Option<Sym> {
        if self.is_const() { return None; }
        match self.node() {
            Node::Split(s, ps) if ps.iter().all(|p| p.1.is_const()) => Some(*s),
            _ => None,
        }
    }
}

fn intern(n: Node) -> T {
    let s = st();
    if let Some(i) = s.cons.get(&n) { return T((*i as u64) << 2); }
    let (lo, hi, pure) = match &n {
        Node::Id(y) => { let i = &s.syms[*y as usize]; (i.lo(), i.hi(), false) }
        Node::Split(_, ps) => {
            let mut lo = i128::MAX; let mut hi = i128::MIN; let mut p = true;
            for (_, t) in ps.iter() { let (a, b) = t.range(); lo = lo.min(a); hi = hi.max(b); p &= t.pure_dd(); }
            (lo, hi, p)
        }
        Node::Lin(c, ts) => {
            let (mut lo, mut hi) = (*c, *c);
            for (k, t) in ts.iter() {
                let (a, b) = t.range();
                let (x, y) = (k.saturating_mul(a), k.saturating_mul(b));
                lo = lo.saturating_add(x.min(y)); hi = hi.saturating_add(x.max(y));
            }
            (lo, hi, false)
        }
    };
    let i = s.nodes.len() as u32;
    if i & 0xffff == 0xffff || i as usize >= TERM_CAP {
        if i as usize >= TERM_CAP { std::panic::panic_any(Limit("term limit")); }
        if s.deadline.map_or(false, |d| std::time::Instant::now() > d) { std::panic::panic_any(Limit("time budget")); }
    }
    s.nodes.push(Box::new(n.clone()));
    s.info.push((lo, hi, pure));
    s.cons.insert(n, i);
    T((i as u64) << 2)
}

pub fn new_sym(name: &str, ranges: Vec<(i128, i128)>) -> Sym {
    let s = st();
    s.syms.push(SymInfo { name: name.to_string(), ranges, def: Def::Base });
    s.syms.len() as u32 - 1
}
/// The value of a symbol as a term.
pub fn sym_term(y: Sym) -> T {
    let i = &st().syms[y as usize];
    if i.size() <= SMALL {
        let mut ps = vec![];
        for (a, b) in i.ranges.clone() { for v in a..=b { ps.push((v, c(v))); } }
        mk_split(y, ps)
    } else { intern(Node::Id(y)) }
}
fn derived(def: Def, lo: i128, hi: i128) -> T {
    let s = st();
    let y = match s.defs.get(&def) { Some(y) => *y, None => {
        s.syms.push(SymInfo { name: format!("d{}", s.syms.len()), ranges: vec![(lo, hi)], def: def.clone() });
        let y = s.syms.len() as u32 - 1;
        s.defs.insert(def, y); y } };
    sym_term(y)
}
pub fn opaque(op: Op, args: Vec<T>, lo: i128, hi: i128) -> T { derived(Def::Op(op, args), lo, hi) }

/// Build a split; pieces (start, child) ascending; clipped to the symbol's domain, canonical.
pub fn mk_split(y: Sym, ps: Vec<(i128, T)>) -> T {
    let ranges = &st().syms[y as usize].ranges;
    let mut out: Vec<(i128, T)> = Vec::with_capacity(ps.len());
    let mut k = 0;
    for &(a, bb) in ranges {
        // piece covering a
        while k + 1 < ps.len() && ps[k + 1].0 <= a { k += 1; }
        let mut j = k;
        loop {
            let start = if out.is_empty() { i128::MIN } else { a.max(ps[j].0) };
            let ch = ps[j].1;
            match out.last() { Some(l) if l.1 == ch => {}, _ => out.push((start, ch)) }
            if j + 1 < ps.len() && ps[j + 1].0 <= bb { j += 1; } else { break; }
        }
        k = j;
    }
    if out.len() == 1 { return out[0].1; }
    if out.iter().any(|p| p.1.top().map_or(false, |z| z >= y)) {
        // keep the order of decisions: rebuild through ite
        let mut acc = out[0].1;
        for i in 1..out.len() { let cond = mk_split(y, vec![(i128::MIN, FALSE), (out[i].0, TRUE)]); acc = ite(cond, out[i].1, acc); }
        return acc;
    }
    intern(Node::Split(y, out.into_boxed_slice()))
}

fn pieces(t: T, y: Sym) -> Option<&'static [(i128, T)]> {
    if t.is_const() { return None; }
    match t.node() { Node::Split(s, ps) if *s == y => Some(ps), _ => None }
}

/// Merge the piece boundaries of several terms on symbol y; call f for each joint piece.
fn joint<const N: usize>(y: Sym, ts: [T; N], mut f: impl FnMut([T; N]) -> T) -> T {
    let pss: [Option<&[(i128, T)]>; N] = ts.map(|t| pieces(t, y));
    let mut idx = [0usize; N];
    let mut out: Vec<(i128, T)> = vec![];
    let mut start = i128::MIN;
    loop {
        let mut cur = ts;
        for n in 0..N { if let Some(ps) = pss[n] { cur[n] = ps[idx[n]].1; } }
        let r = f(cur);
        match out.last() { Some(l) if l.1 == r => {}, _ => out.push((start, r)) }
        let mut next = i128::MAX; let mut any = false;
        for n in 0..N { if let Some(ps) = pss[n] { if idx[n] + 1 < ps.len() { next = next.min(ps[idx[n] + 1].0); any = true; } } }
        if !any { break; }
        for n in 0..N { if let Some(ps) = pss[n] { if idx[n] + 1 < ps.len() && ps[idx[n] + 1].0 == next { idx[n] += 1; } } }
        start = next;
    }
    mk_split(y, out)
}

fn max_top(ts: &[T]) -> Option<Sym> { ts.iter().filter_map(|t| t.top()).max() }

// ---------------------------------------------------------------- boolean / ite
pub fn not(a: T) -> T { ite(a, FALSE, TRUE) }
pub fn and(a: T, b: T) -> T {
    if a == FALSE || b == FALSE { return FALSE; }
    if a == TRUE { return b; } if b == TRUE || a == b { return a; }
    let (a, b) = if a < b { (a, b) } else { (b, a) };
    if let Some(r) = st().memo2.get(&(Op::And, a, b)) { return *r; }
    let y = max_top(&[a, b]).expect("and: not a predicate");
    let r = joint(y, [a, b], |[p, q]| and(p, q));
    st().memo2.insert((Op::And, a, b), r);
    r
}
pub fn or(a: T, b: T) -> T {
    if a == TRUE || b == TRUE { return TRUE; }
    if a == FALSE { return b; } if b == FALSE || a == b { return a; }
    let (a, b) = if a < b { (a, b) } else { (b, a) };
    if let Some(r) = st().memo2.get(&(Op::Or, a, b)) { return *r; }
    let y = max_top(&[a, b]).expect("or: not a predicate");
    let r = joint(y, [a, b], |[p, q]| or(p, q));
    st().memo2.insert((Op::Or, a, b), r);
    r
}
pub fn ite(g: T, a: T, b: T) -> T {
    if g == TRUE || a == b { return a; }
    if g == FALSE { return b; }
    if a == TRUE && b == FALSE { return g; }
    if let Some(r) = st().memo_ite.get(&(g, a, b)) { return *r; }
    let y = max_top(&[g, a, b]).unwrap();
    let r = joint(y, [g, a, b], |[p, q, r]| ite(p, q, r));
    st().memo_ite.insert((g, a, b), r);
    r
}
/// Simplify t using g as care set.
pub fn restrict(t: T, g: T) -> T {
    if g == TRUE || g == FALSE || t.is_const() { return t; }
    if let Some(r) = st().memo_restrict.get(&(t, g)) { return *r; }
    let r = match (t.top(), g.top()) {
        (None, _) => restrict_leaf(t, g),
        (Some(_), None) => t,
        (Some(y), Some(z)) if z > y => {
            // existential elimination of z in g
            let mut acc = FALSE;
            if let Some(ps) = pieces(g, z) { let v: Vec<T> = ps.iter().map(|p| p.1).collect(); for p in v { acc = or(acc, p); } }
            restrict(t, acc)
        }
        (Some(y), Some(_)) => {
            let ps = pieces(t, y).unwrap().to_vec();
            let gs: Vec<(i128, T)> = match pieces(g, y) { Some(p) => p.to_vec(), None => vec![(i128::MIN, g)] };
            let (dlo, dhi) = { let i = &st().syms[y as usize]; (i.lo(), i.hi()) };
            let mut out: Vec<(i128, Option<T>)> = vec![];
            let (mut i, mut j) = (0, 0);
            let mut start = i128::MIN;
            loop {
                // does the joint piece intersect the domain at all?
                let ne = { let mut n = i128::MAX;
                    if i + 1 < ps.len() { n = n.min(ps[i + 1].0); }
                    if j + 1 < gs.len() { n = n.min(gs[j + 1].0); } n };
                let dead = gs[j].1 == FALSE || ne <= dlo || start > dhi || !hits(y, start, ne);
                out.push((start, if dead { None } else { Some(restrict(ps[i].1, gs[j].1)) }));
                if ne == i128::MAX { break; }
                if i + 1 < ps.len() && ps[i + 1].0 == ne { i += 1; }
                if j + 1 < gs.len() && gs[j + 1].0 == ne { j += 1; }
                start = ne;
            }
            // fill don't-cares from the neighbours
            let mut last = out.iter().find_map(|p| p.1).unwrap_or(ps[0].1);
            let full: Vec<(i128, T)> = out.into_iter().map(|(s, o)| { if let Some(t) = o { last = t; } (s, last) }).collect();
            mk_split(y, full)
        }
    };
    st().memo_restrict.insert((t, g), r);
    r
}
fn hits(y: Sym, a: i128, b_excl: i128) -> bool {
    st().syms[y as usize].ranges.iter().any(|r| r.0 < b_excl && r.1 >= a)
}
/// Values of y allowed by predicate g (existential projection).
pub fn project(g: T, y: Sym) -> T {
    match g.top() {
        None => g,
        Some(z) if z < y => b(g != FALSE),
        Some(z) if z == y => {
            let ps: Vec<(i128, T)> = pieces(g, z).unwrap().iter().map(|p| (p.0, b(p.1 != FALSE))).collect();
            mk_split(y, ps)
        }
        Some(z) => {
            let mut acc = FALSE;
            let v: Vec<T> = pieces(g, z).unwrap().iter().map(|p| p.1).collect();
            for p in v { acc = or(acc, p); }
            project(acc, y)
        }
    }
}
/// Enumerate y's values under predicate p (a predicate on y only), up to cap.
fn enum_values(y: Sym, p: T, cap: i128) -> Option<Vec<i128>> {
    let mut v = vec![];
    let ps: Vec<(i128, T)> = match pieces(p, y) { Some(x) => x.to_vec(), None => vec![(i128::MIN, p)] };
    let rs = st().syms[y as usize].ranges.clone();
    let mut n = 0i128;
    for (k, (s, t)) in ps.iter().enumerate() {
        if *t == FALSE { continue; }
        let e = if k + 1 < ps.len() { ps[k + 1].0 } else { i128::MAX };
        for r in &rs {
            let a = r.0.max(*s); let z = if e == i128::MAX { r.1 } else { r.1.min(e - 1) };
            if a <= z { n += z - a + 1; if n > cap { return None; } for x in a..=z { v.push(x); } }
        }
    }
    Some(v)
}
/// Make Id leaves explicit where the guard bounds them to few values; also restricts.
fn restrict_leaf(t: T, g: T) -> T { explicit(t, g) }
pub fn explicit(t: T, g: T) -> T {
    if t.is_const() { return t; }
    match t.node() {
        Node::Id(y) => {
            let p = project(g, *y);
            if p == TRUE { return t; }
            match enum_values(*y, p, SMALL) {
                Some(vs) if !vs.is_empty() => {
                    let ps: Vec<(i128, T)> = vs.iter().map(|v| (*v, c(*v))).collect();
                    mk_split(*y, ps)
                }
                _ => t,
            }
        }
        Node::Lin(k, ts) => {
            let mut acc = c(*k);
            let ts: Vec<(i128, T)> = ts.to_vec();
            for (k, a) in ts { let a = if a.pure_dd() { restrict(a, g) } else { explicit(a, g) }; acc = add(acc, mulc(a, k)); }
            acc
        }
        Node::Split(..) => restrict(t, g),
    }
}

// ---------------------------------------------------------------- linear arithmetic
fn add_lin(m: &mut Vec<(i128, T)>, cst: &mut i128, t: T, k: i128) {
    if k == 0 { return; }
    if let Some(v) = t.val() { *cst += k * v; return; }
    match t.node() {
        Node::Lin(c0, ts) => { *cst += k * c0; for (q, a) in ts.to_vec() { add_lin(m, cst, a, k * q); } }
        _ => {
            if t.pure_dd() && t.single().is_none() {
                if let Some((parts, c0)) = separable(t) { *cst += k * c0; for p in parts { add_lin(m, cst, p, k); } return; }
            }
            if let Some(e) = m.iter_mut().find(|e| e.1 == t) { e.0 += k; return; }
            m.push((k, t));
        }
    }
}
/// Write a decision diagram over several symbols as a sum of single-symbol ones, if it is one.
fn separable(t: T) -> Option<(Vec<T>, i128)> {
    let mut parts = vec![]; let mut t = t;
    loop {
        if let Some(v) = t.val() { return Some((parts, v)); }
        if t.single().is_some() { parts.push(t); return Some((parts, 0)); }
        let (y, ps) = match t.node() { Node::Split(y, ps) => (*y, ps.clone()), _ => return None };
        let base = ps[0].1;
        let first = |mut u: T| -> i128 { while let Node::Split(_, p) = if u.is_const() { return u.val().unwrap() } else { u.node() } { u = p[0].1; } 0 };
        let b0 = first(base);
        let mut g = vec![];
        for (s, p) in ps.iter() {
            if p.pure_dd() == false { return None; }
            let d = first(*p) - b0;
            if *p != base && map_leaves(base, &mut |v| v + d) != *p { return None; }
            g.push((*s, c(d)));
        }
        let gt = mk_split(y, g);
        if !gt.is_const() { parts.push(gt); }
        t = base;
    }
}
fn norm_lin(mut cst: i128, m: Vec<(i128, T)>) -> T {
    // combine single-symbol atoms on the same symbol, normalise them to min 0 / coefficient 1
    let mut singles: std::collections::BTreeMap<Sym, T> = Default::default();
    let mut rest: Vec<(i128, T)> = vec![];
    for (k, t) in m {
        if k == 0 { continue; }
        match t.single() {
            Some(y) => {
                let s = map_leaves(t, &mut |v| k * v);
                match singles.get(&y) {
                    Some(p) => { let r = apply_pure(Op::Add, *p, s).unwrap(); singles.insert(y, r); }
                    None => { singles.insert(y, s); }
                }
            }
            None => rest.push((k, t)),
        }
    }
    let mut atoms: Vec<(i128, T)> = vec![];
    let nsing = singles.len();
    for (_, t) in singles {
        if let Some(v) = t.val() { cst += v; continue; }
        if nsing == 1 && rest.is_empty() {
            return map_leaves(t, &mut |v| v + cst);
        }
        let lo = t.range().0;
        let t0 = if lo != 0 { map_leaves(t, &mut |v| v - lo) } else { t };
        cst += lo;
        if t0.is_const() { continue; }
        atoms.push((1, t0));
    }
    rest.sort_by_key(|e| e.1);
    atoms.extend(rest);
    if atoms.is_empty() { return c(cst); }
    if atoms.len() == 1 {
        let (k, t) = atoms[0];
        if t.pure_dd() { return map_leaves(t, &mut |v| k * v + cst); }
        if k == 1 && cst == 0 { return t; }
    }
    intern(Node::Lin(cst, atoms.into_boxed_slice()))
}
pub fn map_leaves(t: T, f: &mut dyn FnMut(i128) -> i128) -> T {
    fn go(t: T, f: &mut dyn FnMut(i128) -> i128, memo: &mut HashMap<T, T>) -> T {
        if let Some(v) = t.val() { return c(f(v)); }
        if let Some(r) = memo.get(&t) { return *r; }
        let r = match t.node() {
            Node::Split(y, ps) => { let v: Vec<(i128, T)> = ps.iter().map(|p| (p.0, p.1)).collect(); let v = v.into_iter().map(|p| (p.0, go(p.1, f, memo))).collect(); mk_split(*y, v) }
            _ => panic!("map_leaves on impure term"),
        };
        memo.insert(t, r);
        r
    }
    go(t, f, &mut HashMap::new())
}
/// Apply a function on terms to all (non-split) leaves.
pub fn map_leaf_terms(t: T, f: &mut dyn FnMut(T) -> T) -> T {
    fn go(t: T, f: &mut dyn FnMut(T) -> T, memo: &mut HashMap<T, T>) -> T {
        if t.is_const() { return f(t); }
        if let Some(r) = memo.get(&t) { return *r; }
        let r = match t.node() {
            Node::Split(y, ps) => { let v = ps.iter().map(|p| (p.0, go(p.1, f, memo))).collect(); mk_split(*y, v) }
            _ => f(t),
        };
        memo.insert(t, r);
        r
    }
    go(t, f, &mut HashMap::new())
}

pub fn count_nodes(t: T, cap: usize) -> usize {
    fn go(t: T, seen: &mut std::collections::HashSet<T>, cap: usize) {
        if t.is_const() || seen.len() > cap || !seen.insert(t) { return; }
        if let Node::Split(_, ps) = t.node() { for p in ps.iter() { go(p.1, seen, cap); } }
    }
    let mut s = Default::default();
    go(t, &mut s, cap);
    s.len()
}

fn leaf_op(op: Op, a: i128, bb: i128) -> i128 {
    let f = |x: i128| f64::from_bits(x as u64);
    match op {
        Op::Add => a + bb, Op::Sub => a - bb, Op::Mul => a * bb,
        Op::Div => if bb == 0 { 0 } else { a / bb },
        Op::Rem => if bb == 0 { 0 } else { a % bb },
        Op::DivEuclid => if bb == 0 { 0 } else { a.div_euclid(bb) },
        Op::RemEuclid => if bb == 0 { 0 } else { a.rem_euclid(bb) },
        Op::And => a & bb, Op::Or => a | bb, Op::Xor => a ^ bb,
        Op::Shl => if (0..100).contains(&bb) { a << bb } else { 0 },
        Op::Shr => if (0..127).contains(&bb) { a >> bb } else { 0 },
        Op::Eq => (a == bb) as i128, Op::Ne => (a != bb) as i128,
        Op::Lt => (a < bb) as i128, Op::Le => (a <= bb) as i128,
        Op::FAdd => (f(a) + f(bb)).to_bits() as i128, Op::FSub => (f(a) - f(bb)).to_bits() as i128,
        Op::FMul => (f(a) * f(bb)).to_bits() as i128, Op::FDiv => (f(a) / f(bb)).to_bits() as i128,
        Op::FLt => (f(a) < f(bb)) as i128, Op::FLe => (f(a) <= f(bb)) as i128, Op::FEq => (f(a) == f(bb)) as i128,
        Op::IToF | Op::UToF => (a as f64).to_bits() as i128,
        Op::FToI(bits, signed) => { let v = f(a); let (lo, hi) = int_range(bits, signed);
            if v.is_nan() { 0 } else if v <= lo as f64 { lo } else if v >= hi as f64 { hi } else { v as i128 } }
        Op::F32Round => ((f(a) as f32) as f64).to_bits() as i128,
        Op::Wrap(bits, signed) => wrap_val(a, bits, signed),
        Op::BNot(bits, signed) => wrap_val(!a, bits, signed),
        Op::Not1 => (a == 0) as i128,
        Op::Disp | Op::Ext(_) => unreachable!(),
    }
}
pub fn int_range(bits: u8, signed: bool) -> (i128, i128) {
    if bits == 128 { return if signed { (i128::MIN, i128::MAX) } else { (0, i128::MAX) }; }
    if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) }
}
pub fn wrap_val(v: i128, bits: u8, signed: bool) -> i128 {
    if bits >= 127 { return v; }
    let m = 1i128 << bits;
    let r = v.rem_euclid(m);
    if signed && r >= m / 2 { r - m } else { r }
}

/// Pointwise application on pure decision diagrams. None if it grows too large.
pub fn apply_pure(op: Op, a: T, bb: T) -> Option<T> {
    let mut budget = NODE_CAP;
    fn go(op: Op, a: T, bb: T, budget: &mut usize) -> Option<T> {
        if let (Some(x), Some(y)) = (a.val(), bb.val()) { return Some(c(leaf_op(op, x, y))); }
        if let Some(r) = st().memo2.get(&(op, a, bb)) { return Some(*r); }
        if *budget == 0 { return None; }
        *budget -= 1;
        let y = max_top(&[a, bb])?;
        let mut fail = false;
        let r = joint(y, [a, bb], |[p, q]| { if fail { return FALSE; } match go(op, p, q, budget) { Some(t) => t, None => { fail = true; FALSE } } });
        if fail { return None; }
        st().memo2.insert((op, a, bb), r);
        Some(r)
    }
    go(op, a, bb, &mut budget)
}

fn overlapping(a: T, b_: T) -> bool {
    // both pure: do they plausibly share symbols, or is one multi-symbol
    match (a.single(), b_.single()) {
        (Some(x), Some(y)) => x == y,
        _ => {
            // a residue keeps its linear form as long as it is combined with other symbols
            if st().modexp.contains_key(&a) || st().modexp.contains_key(&b_) {
                let (mut x, mut y) = (Default::default(), Default::default());
                base_support(a, &mut x, &mut Default::default()); base_support(b_, &mut y, &mut Default::default());
                return !x.is_disjoint(&y);
            }
            // sums of single-symbol parts stay linear
            if separable(a).is_some() && separable(b_).is_some() {
                let (mut x, mut y) = (Default::default(), Default::default());
                base_support(a, &mut x, &mut Default::default()); base_support(b_, &mut y, &mut Default::default());
                return !x.is_disjoint(&y);
            }
            true
        }
    }
}

pub fn add(a: T, bb: T) -> T { lin2(a, bb, 1) }
pub fn sub(a: T, bb: T) -> T { lin2(a, bb, -1) }
fn has_nonpure_split(t: T) -> bool { !t.is_const() && !t.pure_dd() && matches!(t.node(), Node::Split(..)) }
fn lin2(a: T, bb: T, k: i128) -> T {
    if let (Some(x), Some(y)) = (a.val(), bb.val()) { return c(x + k * y); }
    if bb == FALSE { return a; }
    if let Some(r) = st().memo2.get(&(if k == 1 { Op::Add } else { Op::Sub }, a, bb)) { return *r; }
    let r = (|| {
        if a.pure_dd() && bb.pure_dd() && (a.is_const() || bb.is_const() || overlapping(a, bb)) {
            if let Some(r) = apply_pure(if k == 1 { Op::Add } else { Op::Sub }, a, bb) {
                // a residue plus a constant is still congruent to its linear form
                if bb.is_const() { shift_modexp(a, 1, k * bb.val().unwrap(), r); } else if a.is_const() { shift_modexp(bb, k, a.val().unwrap(), r); }
                return r;
            }
        }
        // distribute over splits with non-constant leaves
        if has_nonpure_split(a) || has_nonpure_split(bb) {
            let y = max_top(&[if has_nonpure_split(a) { a } else { FALSE }, if has_nonpure_split(bb) { bb } else { FALSE }]).unwrap();
            return joint(y, [a, bb], |[p, q]| lin2(p, q, k));
        }
        let mut m = vec![]; let mut cst = 0;
        add_lin(&mut m, &mut cst, a, 1);
        add_lin(&mut m, &mut cst, bb, k);
        norm_lin(cst, m)
    })();
    st().memo2.insert((if k == 1 { Op::Add } else { Op::Sub }, a, bb), r);
    r
}
fn shift_modexp(a: T, k: i128, off: i128, r: T) {
    if a.is_const() || r.is_const() || a.single().is_some() || st().modexp.contains_key(&r) { return; }
    if let Some((m, l)) = st().modexp.get(&a).copied() {
        let (c0, ats) = lin_parts(l);
        let l2 = norm_lin(k * c0 + off, ats.into_iter().map(|x| (k * x.0, x.1)).collect());
        if !l2.pure_dd() { st().modexp.insert(r, (m, l2)); }
    }
}
pub fn mulc(a: T, k: i128) -> T {
    if k == 0 { return c(0); } if k == 1 { return a; }
    if a.pure_dd() { let r = map_leaves(a, &mut |v| v * k); shift_modexp(a, k, 0, r); return r; }
    if has_nonpure_split(a) { return map_leaf_terms(a, &mut |t| mulc(t, k)); }
    let mut m = vec![]; let mut cst = 0;
    add_lin(&mut m, &mut cst, a, k);
    norm_lin(cst, m)
}
pub fn mul(a: T, bb: T) -> T {
    if let Some(v) = a.val() { return mulc(bb, v); }
    if let Some(v) = bb.val() { return mulc(a, v); }
    if a.pure_dd() && bb.pure_dd() { if let Some(r) = apply_pure(Op::Mul, a, bb) { return r; } }
    // a small choice of factors selects between multiples
    for (x, y) in [(a, bb), (bb, a)] { if x.pure_dd() && !y.pure_dd() && leaves(x, 64).is_some() { return map_leaf_terms(x, &mut |v| mulc(y, v.val().unwrap())); } }
    if let Some(r) = distribute(Op::Mul, a, bb) { return r; }
    // normal form: pull out constant factors and distribute over Lin with few atoms
    let la = lin_parts(a); let lb = lin_parts(bb);
    if la.1.len() * lb.1.len() <= 16 && (la.1.len() + lb.1.len() > 2 || la.0 != 0 || lb.0 != 0 || la.1.iter().any(|x| x.0 != 1) || lb.1.iter().any(|x| x.0 != 1)) {
        let mut acc = c(la.0 * lb.0);
        for (k, t) in &la.1 { acc = add(acc, mulc(*t, k * lb.0)); }
        for (k, t) in &lb.1 { acc = add(acc, mulc(*t, k * la.0)); }
        for (k, t) in &la.1 { for (q, u) in &lb.1 { acc = add(acc, mulc(mul_atom(*t, *u), k * q)); } }
        return acc;
    }
    mul_atom(a, bb)
}
fn mul_atom(a: T, bb: T) -> T {
    let (x, y) = if a <= bb { (a, bb) } else { (bb, a) };
    let (al, ah) = x.range(); let (bl, bh) = y.range();
    let cs = [al.saturating_mul(bl), al.saturating_mul(bh), ah.saturating_mul(bl), ah.saturating_mul(bh)];
    opaque(Op::Mul, vec![x, y], *cs.iter().min().unwrap(), *cs.iter().max().unwrap())
}
fn lin_parts(t: T) -> (i128, Vec<(i128, T)>) {
    if let Some(v) = t.val() { return (v, vec![]); }
    match t.node() { Node::Lin(c0, ts) => (*c0, ts.to_vec()), _ => (0, vec![(1, t)]) }
}
/// Distribute an operation over a split whose leaves are not all constants.
fn distribute(op: Op, a: T, bb: T) -> Option<T> {
    if !(has_nonpure_split(a) || has_nonpure_split(bb)) { return None; }
    let y = max_top(&[a, bb])?;
    Some(joint(y, [a, bb], |[p, q]| bin(op, p, q)))
}

// ---------------------------------------------------------------- expansion of linear terms
/// Expand a Lin whose atoms are all single-symbol into a decision diagram through `fin`.
fn expand_lin(cst: i128, atoms: &[(i128, T)], prune: &dyn Fn(i128, i128, i128) -> Option<i128>, norm: &dyn Fn(i128) -> i128, cap: usize) -> Option<T> {
    let mut ats: Vec<(Sym, T)> = vec![];
    for (k, t) in atoms { let y = t.single()?; if *k != 1 { ats.push((y, map_leaves(*t, &mut |v| v * k))); } else { ats.push((y, *t)); } }
    ats.sort_by(|a, b| b.0.cmp(&a.0)); // top first
    let n = ats.len();
    let mut lo = vec![0i128; n + 1]; let mut hi = vec![0i128; n + 1];
    for i in (0..n).rev() { let (a, z) = ats[i].1.range(); lo[i] = lo[i + 1] + a; hi[i] = hi[i + 1] + z; }
    let mut memo: HashMap<(usize, i128), T> = HashMap::new();
    fn go(i: usize, acc: i128, ats: &[(Sym, T)], lo: &[i128], hi: &[i128], prune: &dyn Fn(i128, i128, i128) -> Option<i128>, norm: &dyn Fn(i128) -> i128, memo: &mut HashMap<(usize, i128), T>, cap: usize) -> Option<T> {
        if let Some(v) = prune(acc, lo[i], hi[i]) { return Some(c(v)); }
        if let Some(r) = memo.get(&(i, acc)) { return Some(*r); }
        if memo.len() > cap { return None; }
        let y = ats[i].0;
        let ps: Vec<(i128, T)> = pieces(ats[i].1, y).unwrap().to_vec();
        let mut out = vec![];
        for (s, t) in ps { out.push((s, go(i + 1, norm(acc + t.val().unwrap()), ats, lo, hi, prune, norm, memo, cap)?)); }
        let r = mk_split(y, out);
        memo.insert((i, acc), r);
        Some(r)
    }
    go(0, norm(cst), &ats, &lo, &hi, prune, norm, &mut memo, cap)
}
/// Fully expand a term to a pure decision diagram if that is small enough.
pub fn expand(t: T) -> Option<T> {
    if t.pure_dd() { return Some(t); }
    match t.node() {
        Node::Lin(c0, ats) => {
            if ats.iter().all(|a| a.1.single().is_some()) {
                return expand_lin(*c0, ats, &|acc, lo, hi| if lo == 0 && hi == 0 { Some(acc) } else { None }, &|x| x, 20_000);
            }
            let mut acc = c(*c0);
            for (k, a) in ats.to_vec() { let e = expand(a)?; acc = apply_pure(Op::Add, acc, map_leaves(e, &mut |v| v * k))?; }
            Some(acc)
        }
        Node::Split(y, ps) => {
            let mut out: Vec<(i128, T)> = vec![];
            for (s, p) in ps.to_vec() { out.push((s, expand(p)?)); }
            // children may mention symbols >= y: rebuild through ite
            let y = *y;
            let mut acc = out[0].1;
            for i in 1..out.len() { let cond = mk_split(y, vec![(i128::MIN, FALSE), (out[i].0, TRUE)]); acc = ite(cond, out[i].1, acc); }
            Some(acc)
        }
        Node::Id(_) => None,
    }
}

pub fn cmp(op: Op, a: T, bb: T) -> T {
    // op in Eq, Ne, Lt, Le
    if let (Some(x), Some(y)) = (a.val(), bb.val()) { return c(leaf_op(op, x, y)); }
    if a == bb { return b(matches!(op, Op::Eq | Op::Le)); }
    if let Some(r) = st().memo2.get(&(op, a, bb)) { return *r; }
    let r = cmp0(op, a, bb);
    st().memo2.insert((op, a, bb), r);
    r
}
fn cmp0(op: Op, a: T, bb: T) -> T {
    let (al, ah) = a.range(); let (bl, bh) = bb.range();
    let dec = match op {
        Op::Lt => if ah < bl { Some(true) } else if al >= bh { Some(false) } else { None },
        Op::Le => if ah <= bl { Some(true) } else if al > bh { Some(false) } else { None },
        Op::Eq => if ah < bl || al > bh { Some(false) } else { None },
        Op::Ne => if ah < bl || al > bh { Some(true) } else { None },
        _ => None,
    };
    if let Some(d) = dec { return b(d); }
    if op == Op::Ne { return not(cmp(Op::Eq, a, bb)); }
    if a.pure_dd() && bb.pure_dd() { if let Some(r) = apply_pure(op, a, bb) { return r; } }
    if let Some(r) = distribute(op, a, bb) { return r; }
    // text-cell tokens: a decimal rendering token never equals an ordinary cell
    let d = sub(a, bb);
    if let Some(v) = d.val() { return c(leaf_op(op, v, 0)); }
    let (lo, hi) = d.range();
    match op {
        Op::Lt => { if hi < 0 { return TRUE; } if lo >= 0 { return FALSE; } }
        Op::Le => { if hi <= 0 { return TRUE; } if lo > 0 { return FALSE; } }
        Op::Eq => { if hi < 0 || lo > 0 { return FALSE; } }
        _ => {}
    }
    if d.pure_dd() { return map_leaves(d, &mut |v| leaf_op(op, v, 0)); }
    if has_nonpure_split(d) { return map_leaf_terms(d, &mut |t| cmp(op, t, FALSE)); }
    let (c0, ats) = lin_parts(d);
    // single identity atom: thresholds
    if ats.len() == 1 {
        if let Node::Id(y) = ats[0].1.node() {
            let (k, y) = (ats[0].0, *y);
            // c0 + k*x op 0
            let t = match op {
                Op::Eq => if (-c0) % k == 0 { let v = (-c0) / k; mk_split(y, vec![(i128::MIN, FALSE), (v, TRUE), (v + 1, FALSE)]) } else { FALSE },
                Op::Lt | Op::Le => {
                    // k>0: x < -c0/k ; smallest x where false
                    let lim = if op == Op::Lt { 0 } else { 1 };
                    if k > 0 { // c0 + k x >= lim  => false ; x >= ceil((lim-c0)/k)
                        let v = -((-(lim - c0)).div_euclid(k)); mk_split(y, vec![(i128::MIN, TRUE), (v, FALSE)])
                    } else { // false iff c0 + k x >= lim <=> x <= (c0-lim)/(-k)
                        let v = (c0 - lim).div_euclid(-k); mk_split(y, vec![(i128::MIN, FALSE), (v + 1, TRUE)])
                    }
                }
                _ => unreachable!(),
            };
            return t;
        }
    }
    // one identity atom and diagrams: a threshold for every value the diagrams take
    if ats.iter().filter(|a| !a.1.pure_dd()).count() == 1 {
        let id = ats.iter().find(|a| !a.1.pure_dd()).copied().unwrap();
        if let Node::Id(_) = id.1.node() {
            let mut rest = Some(FALSE);
            for (k, t) in ats.iter().filter(|a| a.1.pure_dd()) { rest = rest.and_then(|r| apply_pure(Op::Add, r, map_leaves(*t, &mut |v| v * k))); }
            if let Some(r) = rest { if leaves(r, 1300).is_some() { let base = mulc(id.1, id.0); return map_leaf_terms(r, &mut |v| { let d = add(base, c(v.val().unwrap() + c0)); cmp(op, d, FALSE) }); } }
        }
    }
    if ats.iter().all(|a| a.1.single().is_some()) {
        let r = match op {
            Op::Lt => expand_lin(c0, &ats, &|acc, lo, hi| if acc + hi < 0 { Some(1) } else if acc + lo >= 0 { Some(0) } else { None }, &|x| x, 40_000),
            Op::Le => expand_lin(c0, &ats, &|acc, lo, hi| if acc + hi <= 0 { Some(1) } else if acc + lo > 0 { Some(0) } else { None }, &|x| x, 40_000),
            _ => expand_lin(c0, &ats, &|acc, lo, hi| if acc + hi < 0 || acc + lo > 0 { Some(0) } else if lo == hi { Some(1) } else { None }, &|x| x, 40_000),
        };
        if let Some(r) = r { return r; }
    }
    // canonical sign for equality
    let d = if op == Op::Eq && lead_neg(d) { mulc(d, -1) } else { d };
    opaque(op, vec![d, FALSE], 0, 1)
}
fn lead_neg(t: T) -> bool { let (c0, a) = lin_parts(t); a.first().map(|x| x.0 < 0).unwrap_or(c0 < 0) }

fn gcd(a: i128, b: i128) -> i128 { if b == 0 { a.abs() } else { gcd(b, a % b) } }

/// Euclidean residue of t modulo m (m > 0).
pub fn rem_euclid(t: T, m: i128) -> T {
    if let Some(v) = t.val() { return c(v.rem_euclid(m)); }
    let (lo, hi) = t.range();
    if lo >= 0 && hi < m { return t; }
    if t.pure_dd() {
        let r = map_leaves(t, &mut |v| v.rem_euclid(m));
        // remember the linear form of a residue over several symbols
        if t.single().is_none() && !r.is_const() && r.single().is_none() && !st().modexp.contains_key(&r) {
            if let Some((parts, c0)) = separable(t) { let l = norm_lin(c0, parts.into_iter().map(|p| (1, p)).collect()); if !l.pure_dd() { st().modexp.insert(r, (m, l)); } }
            else if let Some((mm, l)) = st().modexp.get(&t).copied() { if mm % m == 0 { st().modexp.insert(r, (m, l)); } }
        }
        return r;
    }
    if has_nonpure_split(t) { return map_leaf_terms(t, &mut |u| rem_euclid(u, m)); }
    let key = (Op::RemEuclid, t, c(m));
    if let Some(r) = st().memo2.get(&key) { return *r; }
    let r = rem0(t, m);
    st().memo2.insert(key, r);
    r
}
fn rem0(t: T, m: i128) -> T {
    // substitute residues: d = L mod m' with m | m', and atoms that are congruent-linear in d
    let (mut c0, mut ats) = lin_parts(t);
    let mut changed = true;
    let mut rounds = 0;
    while changed && rounds < 20 {
        changed = false; rounds += 1;
        for i in 0..ats.len() {
            let (k, a) = ats[i];
            if let Some((mm, l)) = st().modexp.get(&a).copied() { if mm % m == 0 {
                ats.remove(i);
                let mut mvec = ats.clone();
                add_lin(&mut mvec, &mut c0, l, k);
                let n = norm_lin(c0, mvec);
                let p = if n.pure_dd() { return map_leaves(n, &mut |v| v.rem_euclid(m)); } else { lin_parts(n) };
                c0 = p.0; ats = p.1;
                changed = true;
                break;
            } }
            let (y, slope, off) = match a.node() {
                Node::Id(y) => (*y, 1, 0),
                Node::Split(y, ps) if ps.iter().all(|p| p.1.is_const()) => {
                    let y = *y;
                    let (mm, base_lo, n) = match &st().syms[y as usize].def { Def::Mod(mm, _) => (*mm, st().syms[y as usize].lo(), st().syms[y as usize].size()), _ => continue };
                    if mm % m != 0 { continue; }
                    // f(x) congruent to slope*x+off mod m for all x?
                    let vals: Vec<(i128, i128)> = match enum_values(y, TRUE, SMALL) { Some(v) => v.iter().map(|x| (*x, eval1(a, *x))).collect(), None => continue };
                    let _ = (base_lo, n);
                    if vals.len() < 2 { continue; }
                    let slope = (vals[1].1 - vals[0].1).rem_euclid(m);
                    let off = (vals[0].1 - slope * vals[0].0).rem_euclid(m);
                    if !vals.iter().all(|(x, v)| (slope * x + off - v).rem_euclid(m) == 0) { continue; }
                    (y, slope, off)
                }
                _ => continue,
            };
            let (mm, l) = match &st().syms[y as usize].def { Def::Mod(mm, l) => (*mm, *l), _ => continue };
            if mm % m != 0 { continue; }
            ats.remove(i);
            c0 += k * off;
            let mut mvec = ats.clone();
            add_lin(&mut mvec, &mut c0, l, k * slope);
            let n = norm_lin(c0, mvec);
            let p = if n.pure_dd() { return map_leaves(n, &mut |v| v.rem_euclid(m)); } else { lin_parts(n) };
            c0 = p.0; ats = p.1;
            changed = true;
            break;
        }
    }
    // reduce atoms mod m
    let mut mvec: Vec<(i128, T)> = vec![];
    for (k, a) in ats {
        let k = k.rem_euclid(m);
        if k == 0 { continue; }
        match a.single() {
            Some(y) => {
                // canonical: value at the lowest domain point becomes 0
                let lo = st().syms[y as usize].lo();
                let v0 = eval1(a, lo) * k;
                c0 += v0;
                let r = map_leaves(a, &mut |v| (k * v - v0).rem_euclid(m));
                if !r.is_const() { mvec.push((1, r)); }
            }
            None => mvec.push((k, a)),
        }
    }
    let c0 = c0.rem_euclid(m);
    if mvec.is_empty() { return c(c0); }
    let nsym = mvec.len();
    if mvec.iter().all(|a| a.1.single().is_some()) {
        if nsym == 1 { return map_leaves(mvec[0].1, &mut |v| (v + c0).rem_euclid(m)); }
        if nsym == 2 {
            if let Some(r) = expand_lin(c0, &mvec, &|acc, lo, hi| if lo == 0 && hi == 0 { Some(acc) } else { None }, &|x| x.rem_euclid(m), 20_000) { let l = norm_lin(c0, mvec.clone()); st().modexp.insert(r, (m, l)); return r; }
        }
        // canonical representative up to multiplication by a unit and constant shift
        mvec.sort_by_key(|a| a.1.single().unwrap());
        let mut us: Vec<i128> = if m <= 2000 { (1..m).filter(|u| gcd(*u, m) == 1).collect() } else { vec![1] };
        // the unit giving the lexicographically least tables
        'pick: for (_, a) in &mvec {
            let Node::Split(_, ps) = a.node() else { break };
            for p in ps.iter() {
                if us.len() <= 1 { break 'pick; }
                let v = match p.1.val() { Some(v) => v, None => break 'pick };
                if v == 0 { continue; }
                let best = us.iter().map(|u| (v * u).rem_euclid(m)).min().unwrap();
                us.retain(|u| (v * u).rem_euclid(m) == best);
            }
        }
        let u = us.first().copied().unwrap_or(1);
        let uinv = (1..m).find(|v| (v * u).rem_euclid(m) == 1 % m).unwrap_or(1);
        let canon: Vec<(i128, T)> = mvec.iter().map(|(_, a)| (1, map_leaves(*a, &mut |v| (v * u).rem_euclid(m)))).collect();
        let l = norm_lin(0, canon);
        let d = derived(Def::Mod(m, l), 0, m - 1);
        if d.pure_dd() { return map_leaves(d, &mut |v| (v * uinv + c0).rem_euclid(m)); }
        if uinv == 1 && c0 == 0 { return d; }
        let l2 = norm_lin(c0, mvec);
        return derived(Def::Mod(m, l2), 0, m - 1);
    }
    let l = norm_lin(c0, mvec);
    derived(Def::Mod(m, l), 0, m - 1)
}
fn eval1(t: T, x: i128) -> i128 {
    if let Some(v) = t.val() { return v; }
    match t.node() { Node::Split(_, ps) => { let i = ps.partition_point(|p| p.0 <= x); ps[i.max(1) - 1].1.val().unwrap() } _ => panic!() }
}

/// Truncated division remainder / quotient and every other operator.
pub fn bin(op: Op, a: T, bb: T) -> T {
    if let (Some(x), Some(y)) = (a.val(), bb.val()) { return c(leaf_op(op, x, y)); }
    match op {
        Op::Add => add(a, bb),
        Op::Sub => sub(a, bb),
        Op::Mul => mul(a, bb),
        Op::Eq | Op::Ne | Op::Lt | Op::Le => cmp(op, a, bb),
        Op::Rem | Op::RemEuclid => {
            if let Some(m) = bb.val() {
                if m > 0 && (a.range().0 >= 0 || op == Op::RemEuclid) { return rem_euclid(a, m); }
            }
            generic(op, a, bb)
        }
        Op::Div => {
            if let Some(m) = bb.val() { if m == 1 { return a; } 
                if m > 0 && a.range().0 >= 0 && a.range().1 < m { return FALSE; } }
            generic(op, a, bb)
        }
        Op::And => {
            // masks 2^k-1
            for (x, y) in [(a, bb), (bb, a)] {
                if let Some(m) = y.val() {
                    if m == 0 { return FALSE; }
                    let (lo, hi) = x.range();
                    if m > 0 && (m & (m + 1)) == 0 && lo >= 0 { if hi <= m { return x; } if !x.pure_dd() { return rem_euclid(x, m + 1); } }
                }
            }
            if a == bb { return a; }
            generic(op, a, bb)
        }
        Op::Or => { if a == FALSE { return bb; } if bb == FALSE || a == bb { return a; } generic(op, a, bb) }
        Op::Xor => { if a == FALSE { return bb; } if bb == FALSE { return a; } generic(op, a, bb) }
        Op::Shl => { if let Some(k) = bb.val() { if (0..100).contains(&k) { return mulc(a, 1i128 << k); } } generic(op, a, bb) }
        Op::Shr => { if let Some(k) = bb.val() { if k == 0 { return a; } } generic(op, a, bb) }
        _ => generic(op, a, bb),
    }
}
fn generic(op: Op, a: T, bb: T) -> T {
    if a.pure_dd() && bb.pure_dd() { if let Some(r) = apply_pure(op, a, bb) { return r; } }
    if let Some(r) = distribute(op, a, bb) { return r; }
    if let (Some(x), Some(y)) = (expand(a), expand(bb)) { if let Some(r) = apply_pure(op, x, y) { return r; } }
    let (al, ah) = a.range(); let (bl, bh) = bb.range();
    let (lo, hi) = match op {
        Op::Div if bl > 0 && al >= 0 => (al / bh, ah / bl),
        Op::Rem if bl > 0 && al >= 0 => (0, ah.min(bh - 1)),
        Op::Shr if bl >= 0 && al >= 0 => (0, ah),
        Op::And if al >= 0 && bl >= 0 => (0, ah.min(bh)),
        Op::Or | Op::Xor if al >= 0 && bl >= 0 => { let m = ah.max(bh).max(1) as u128; (0, (m.next_power_of_two() as i128).saturating_mul(2) - 1) }
        Op::FLt | Op::FLe | Op::FEq => (0, 1),
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => (0, u64::MAX as i128),
        _ => { let m = al.abs().max(ah.abs()).max(bl.abs()).max(bh.abs()); (-m.saturating_mul(2), m.saturating_mul(2)) }
    };
    let (x, y) = if matches!(op, Op::And | Op::Or | Op::Xor) && bb < a { (bb, a) } else { (a, bb) };
    opaque(op, vec![x, y], lo, hi)
}
/// Unary operator.
pub fn un(op: Op, a: T) -> T {
    if let Some(x) = a.val() { return c(leaf_op(op, x, 0)); }
    if a.pure_dd() { return map_leaves(a, &mut |v| leaf_op(op, v, 0)); }
    if has_nonpure_split(a) { return map_leaf_terms(a, &mut |t| un(op, t)); }
    if let Some(e) = expand(a) { return map_leaves(e, &mut |v| leaf_op(op, v, 0)); }
    let (lo, hi) = match op {
        Op::BNot(bits, s) | Op::FToI(bits, s) => int_range(bits, s),
        Op::Not1 => (0, 1),
        _ => (0, u64::MAX as i128),
    };
    opaque(op, vec![a], lo, hi)
}
/// Reduce into the range of an integer type (two's complement wrapping).
pub fn wrap(t: T, bits: u8, signed: bool) -> T {
    let (lo, hi) = t.range();
    let (a, z) = int_range(bits, signed);
    if lo >= a && hi <= z { return t; }
    if bits >= 127 { return t; }
    if t.pure_dd() { return map_leaves(t, &mut |v| wrap_val(v, bits, signed)); }
    if has_nonpure_split(t) { return map_leaf_terms(t, &mut |u| wrap(u, bits, signed)); }
    let m = 1i128 << bits;
    let r = rem_euclid(t, m);
    if !signed { return r; }
    let neg = cmp(Op::Le, c(m / 2), r);
    ite(neg, sub(r, c(m)), r)
}

/// Distinct constant leaves (None if some leaf is not constant).
pub fn leaves(t: T, cap: usize) -> Option<Vec<i128>> {
    fn go(t: T, seen: &mut std::collections::HashSet<T>, out: &mut std::collections::BTreeSet<i128>, cap: usize) -> bool {
        if let Some(v) = t.val() { out.insert(v); return out.len() <= cap; }
        if !seen.insert(t) { return true; }
        match t.node() { Node::Split(_, ps) => ps.iter().all(|p| go(p.1, seen, out, cap)), _ => false }
    }
    let mut o = Default::default();
    if go(t, &mut Default::default(), &mut o, cap) { Some(o.into_iter().collect()) } else { None }
}

// ---------------------------------------------------------------- evaluation and witnesses
pub type Asg = HashMap<Sym, i128>;

/// Exact value under an assignment of base symbols. None for uninterpreted operations.
pub fn eval(t: T, a: &Asg) -> Option<i128> {
    if let Some(v) = t.val() { return Some(v); }
    match t.node() {
        Node::Id(y) => eval_sym(*y, a),
        Node::Split(y, ps) => { let x = eval_sym(*y, a)?; let i = ps.partition_point(|p| p.0 <= x); eval(ps[i.max(1) - 1].1, a) }
        Node::Lin(c0, ts) => { let mut s = *c0; for (k, t) in ts.iter() { s += k * eval(*t, a)?; } Some(s) }
    }
}
pub fn eval_sym(y: Sym, a: &Asg) -> Option<i128> {
    if let Some(v) = a.get(&y) { return Some(*v); }
    let i = &st().syms[y as usize];
    match &i.def {
        Def::Base => Some(i.lo()),
        Def::Mod(m, l) => Some(eval(*l, a)?.rem_euclid(*m)),
        Def::Op(op, args) => match op {
            Op::Disp => { let v = eval(args[0], a)?; Some((1i128 << 100) + v) }
            Op::Ext(_) => None,
            _ => { let x = eval(args[0], a)?; let y = if args.len() > 1 { eval(args[1], a)? } else { 0 }; Some(leaf_op(*op, x, y)) }
        },
    }
}
fn base_support(t: T, out: &mut std::collections::BTreeSet<Sym>, seen: &mut std::collections::HashSet<T>) {
    if t.is_const() || !seen.insert(t) { return; }
    let mut go_sym = |y: Sym, out: &mut std::collections::BTreeSet<Sym>, seen: &mut std::collections::HashSet<T>| {
        match &st().syms[y as usize].def { Def::Base => { out.insert(y); } Def::Mod(_, l) => base_support(*l, out, seen), Def::Op(_, v) => for t in v.clone() { base_support(t, out, seen) } }
    };
    match t.node() {
        Node::Id(y) => go_sym(*y, out, seen),
        Node::Split(y, ps) => { go_sym(*y, out, seen); for p in ps.iter() { base_support(p.1, out, seen); } }
        Node::Lin(_, ts) => for p in ts.iter() { base_support(p.1, out, seen) },
    }
}
/// Find a base assignment under which predicate g evaluates to true (exactly).
/// `Some(asg)` is a certificate; None means none was found within the budget.
pub fn witness(g: T, seed: u64) -> Option<Asg> {
    if g == FALSE { return None; }
    let mut tries = 0usize;
    let mut rng = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut next = move || { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; rng };
    let mut sup = Default::default();
    base_support(g, &mut sup, &mut Default::default());
    let sup: Vec<Sym> = sup.into_iter().collect();
    // 1. paths through the diagram, fixing base symbols; derived requirements repaired by search
    for round in 0..400 {
        let mut asg = Asg::new();
        let mut need: Vec<(Sym, i128, i128)> = vec![]; // derived symbol must lie in [lo,hi]
        let mut t = g;
        let mut dead = false;
        while let Some(y) = t.top() {
            let ps = pieces(t, y).unwrap();
            // non-false children that intersect the domain
            let live: Vec<usize> = (0..ps.len()).filter(|i| ps[*i].1 != FALSE).collect();
            if live.is_empty() { dead = true; break; }
            let i = if round == 0 { live[0] } else { live[(next() as usize) % live.len()] };
            let s = ps[i].0; let e = if i + 1 < ps.len() { ps[i + 1].0 - 1 } else { i128::MAX };
            let info = &st().syms[y as usize];
            let cands: Vec<(i128, i128)> = info.ranges.iter().map(|r| (r.0.max(s), r.1.min(e))).filter(|r| r.0 <= r.1).collect();
            if cands.is_empty() { dead = true; break; }
            if matches!(info.def, Def::Base) {
                let r = if round == 0 { cands[0] } else { cands[(next() as usize) % cands.len()] };
                let v = if round == 0 { r.0 } else if round == 1 { r.1 } else { r.0 + (next() as i128 & 0xffff_ffff) % (r.1 - r.0 + 1) };
                asg.insert(y, v);
            } else { need.push((y, cands[0].0, cands[cands.len() - 1].1)); }
            t = ps[i].1;
        }
        if dead || t != TRUE { continue; }
        if eval(g, &asg) == Some(1) { return Some(asg); }
        if need.is_empty() && round > 5 { continue; }
        // vary the unfixed symbols, then pairs
        let mut free: Vec<Sym> = sup.iter().cloned().filter(|y| !asg.contains_key(y)).collect();
        if free.is_empty() { free = sup.clone(); }
        for k in 0..300 {
            tries += 1;
            let mut a2 = asg.clone();
            let hi_mode = k % 3 == 0;
            for y in &free {
                let i = &st().syms[*y as usize];
                let v = if hi_mode && k < 3 { // extreme corner
                    i.hi() } else { let r = i.ranges[(next() as usize) % i.ranges.len()]; r.0 + (next() as i128 & 0xffff_ffff) % (r.1 - r.0 + 1) };
                a2.insert(*y, v);
            }
            if eval(g, &a2) == Some(1) { return Some(a2); }
        }
        if tries > 40_000 { break; }
    }
    // 2. corners for linear comparisons: all-high / all-low by table extreme
    for mode in 0..2 {
        let mut a = Asg::new();
        for y in &sup { let i = &st().syms[*y as usize]; a.insert(*y, if mode == 0 { i.hi() } else { i.lo() }); }
        if eval(g, &a) == Some(1) { return Some(a); }
    }
    None
}

pub fn show(t: T) -> String {
    if let Some(v) = t.val() { return format!("{}", v); }
    match t.node() {
        Node::Id(y) => st().syms[*y as usize].name.clone(),
        Node::Split(y, ps) => {
            let mut s = format!("{}?[", st().syms[*y as usize].name);
            for (i, p) in ps.iter().enumerate().take(6) { if i > 0 { s += "," } s += &if p.0 == i128::MIN { format!("..:{}", show(p.1)) } else { format!("{}:{}", p.0, show(p.1)) }; if s.len() > 200 { break; } }
            s + "]"
        }
        Node::Lin(c0, ts) => { let mut s = format!("{}", c0); for (k, t) in ts.iter().take(6) { s += &format!("+{}*{}", k, show(*t)); if s.len() > 200 { break; } } s }
    }
}

/// Direct symbols of a term.
pub fn syms_of(t: T) -> Vec<Sym> {
    let mut out = vec![];
    let mut todo = vec![t];
    while let Some(t) = todo.pop() {
        if t.is_const() { continue; }
        match t.node() {
            Node::Id(y) => out.push(*y),
            Node::Split(y, ps) => { out.push(*y); for p in ps.iter() { todo.push(p.1); } }
            Node::Lin(_, a) => for x in a.iter() { todo.push(x.1); },
        }
    }
    out.sort(); out.dedup(); out.truncate(8); out
}
pub fn show_sym(y: Sym) -> String {
    let i = &st().syms[y as usize];
    match &i.def { Def::Base => format!("{}: base", i.name), Def::Mod(m, l) => format!("{} = ({}) mod {}", i.name, show(*l), m), Def::Op(op, a) => format!("{} = {:?}({})", i.name, op, a.iter().map(|x| show(*x)).collect::<Vec<_>>().join(", ")), #[allow(unreachable_patterns)] _ => format!("{}: derived", i.name) }
}

/// Replace residue symbols in a predicate by their definitions over the base symbols.
pub fn deep(t: T) -> Option<T> {
    fn sym_dd(y: Sym, memo: &mut HashMap<Sym, Option<T>>) -> Option<T> {
        if let Some(r) = memo.get(&y) { return *r; }
        let r = match st().syms[y as usize].def.clone() {
            Def::Mod(m, l) => match l.node() {
                Node::Lin(c0, ats) if ats.iter().all(|a| a.1.single().is_some()) => expand_lin(*c0, ats, &|acc, lo, hi| if lo == 0 && hi == 0 { Some(acc) } else { None }, &|x| x.rem_euclid(m), 20_000),
                _ => expand(l).map(|e| map_leaves(e, &mut |v| v.rem_euclid(m))),
            },
            _ => None,
        };
        let r = match r { Some(e) => go(e, &mut HashMap::new(), memo), None => None };
        memo.insert(y, r);
        r
    }
    fn go(t: T, done: &mut HashMap<T, T>, memo: &mut HashMap<Sym, Option<T>>) -> Option<T> {
        if t.is_const() { return Some(t); }
        if let Some(r) = done.get(&t) { return Some(*r); }
        let (y, ps) = match t.node() { Node::Split(y, ps) => (*y, ps), _ => return None };
        let mut ch = vec![];
        for p in ps.iter() { ch.push((p.0, go(p.1, done, memo)?)); }
        let base = matches!(st().syms[y as usize].def, Def::Base);
        let e = if base { None } else { sym_dd(y, memo) };
        let mut acc = ch[0].1;
        for i in 1..ch.len() {
            let lo = ch[i].0;
            let cond = match e { Some(e) => map_leaves(e, &mut |v| (v >= lo) as i128), None => mk_split(y, vec![(i128::MIN, FALSE), (lo, TRUE)]) };
            acc = ite(cond, ch[i].1, acc);
        }
        done.insert(t, acc);
        Some(acc)
    }
    go(t, &mut HashMap::new(), &mut HashMap::new())
}
