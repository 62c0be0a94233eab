//! Fact extraction for the structural rules: effects, statics, visibility, constructions.
//! Works on the crate under analysis itself (as the local crate), before any optimisation.
use crate::esc;
use rustc_driver::{Callbacks, Compilation};
use rustc_middle::mir::visit::Visitor;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::BTreeSet;

extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};

struct W<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    facts: BTreeSet<(String, String)>,
}
fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let krate = tcx.crate_name(d.krate);
    format!("{}{}", krate, tcx.def_path(d).to_string_no_crate_verbose())
}
fn adts<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, out: &mut BTreeSet<String>) {
    for a in t.walk() {
        if let Some(t) = a.as_type() {
            match t.kind() {
                ty::Adt(d, _) => { out.insert(path(tcx, d.did())); }
                ty::Ref(_, _, m) if m.is_mut() => { out.insert("&mut".into()); }
                ty::RawPtr(..) => { out.insert("*".into()); }
                ty::Alias(_, _) => { out.insert("opaque".into()); }
                ty::Dynamic(..) => { out.insert("dyn".into()); }
                _ => {}
            }
        }
    }
}
impl<'tcx> W<'tcx> {
    fn put(&mut self, k: &str, v: String) { self.facts.insert((k.to_string(), v)); }
    fn callee(&mut self, t: Ty<'tcx>, k: &str) {
        match t.kind() {
            ty::FnDef(d, a) => {
                let a = a.no_bound_vars().unwrap_or_else(|| ty::List::empty());
                let mut p = path(self.tcx, *d);
                let mut selfty = String::new();
                if self.tcx.trait_of_assoc(*d).is_some() && !a.is_empty() { if let Some(t) = a.get(0).and_then(|x| x.as_type()) { selfty = t.to_string(); } }
                if !a.is_empty() && !a.has_escaping_bound_vars() {
                    if let Ok(Some(i)) = Instance::try_resolve(self.tcx, self.env, *d, a) { let r = path(self.tcx, i.def_id()); if r != p { self.put(k, format!("{}\t{}", p, selfty)); p = r; } }
                }
                self.put(k, format!("{}\t{}", p, selfty));
                if self.tcx.is_foreign_item(*d) { self.put("foreign", p); }
            }
            ty::Closure(d, _) => { let p = path(self.tcx, *d); self.put(k, format!("{}\t", p)); }
            ty::FnPtr(..) => self.put("indirect", t.to_string()),
            _ => {}
        }
    }
}
impl<'tcx> Visitor<'tcx> for W<'tcx> {
    fn visit_const_operand(&mut self, c: &ConstOperand<'tcx>, _l: Location) {
        let t = c.const_.ty();
        self.callee(t, "call");
        if let Some(d) = c.check_static_ptr(self.tcx) { let p = path(self.tcx, d); self.put("static_use", p); }
    }
    fn visit_rvalue(&mut self, r: &Rvalue<'tcx>, l: Location) {
        match r {
            Rvalue::Aggregate(k, _) => match &**k {
                AggregateKind::Adt(d, v, ..) => { let p = path(self.tcx, *d); let def = self.tcx.adt_def(*d); self.put("make", format!("{}\t{}", p, def.variant(*v).name)); }
                AggregateKind::Closure(d, _) => { let p = path(self.tcx, *d); self.put("call", format!("{}\t", p)); }
                _ => {}
            },
            Rvalue::Cast(k, _, t) => match k {
                CastKind::PointerExposeProvenance => self.put("expose", t.to_string()),
                CastKind::Transmute => self.put("transmute", t.to_string()),
                _ => {}
            },
            Rvalue::ThreadLocalRef(d) => { let p = path(self.tcx, *d); self.put("thread_local", p); }
            _ => {}
        }
        self.super_rvalue(r, l);
    }
    fn visit_terminator(&mut self, t: &Terminator<'tcx>, l: Location) {
        if let TerminatorKind::InlineAsm { .. } = t.kind { self.put("asm", String::new()); }
        self.super_terminator(t, l);
    }
    fn visit_place(&mut self, p: &Place<'tcx>, c: visit::PlaceContext, _l: Location) {
        // writes to, or mutable borrows of, a field of a local type
        if c.is_mutating_use() {
            for (base, elem) in p.iter_projections() {
                if let ProjectionElem::Field(f, _) = elem {
                    let bt = base.ty(BODY.with(|b| unsafe { &*(*b.borrow() as *const Body<'tcx>) }), self.tcx);
                    if let ty::Adt(d, _) = bt.ty.kind() {
                        if d.did().is_local() && !d.is_box() {
                            let v = d.variant(bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT));
                            let name = format!("{}\t{}.{}", path(self.tcx, d.did()), v.name, v.fields[f].name);
                            self.put("mutate", name);
                        }
                    }
                }
            }
        }
    }
}
extern crate rustc_abi;
thread_local!(static BODY: std::cell::RefCell<*const ()> = const { std::cell::RefCell::new(std::ptr::null()) });

fn body_facts<'tcx>(tcx: TyCtxt<'tcx>, d: DefId, body: &Body<'tcx>) -> String {
    let env = TypingEnv::post_analysis(tcx, d);
    BODY.with(|b| *b.borrow_mut() = body as *const Body<'tcx> as *const ());
    let mut w = W { tcx, env, facts: BTreeSet::new() };
    w.visit_body(body);
    let mut locals = BTreeSet::new();
    for l in body.local_decls.iter() { adts(tcx, l.ty, &mut locals); }
    let mut o = String::from("[");
    for (i, (k, v)) in w.facts.iter().enumerate() { if i > 0 { o.push(','); } o += &format!("[{},{}]", esc(k), esc(v)); }
    for l in &locals { if o.len() > 1 { o.push(','); } o += &format!("[\"local\",{}]", esc(l)); }
    o + "]"
}
struct Unsafe { n: usize }
impl<'v> rustc_hir::intravisit::Visitor<'v> for Unsafe {
    fn visit_block(&mut self, b: &'v rustc_hir::Block<'v>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules { if !b.span.from_expansion() || b.span.ctxt().outer_expn_data().macro_def_id.is_some_and(|d| d.is_local()) { self.n += 1; } }
        rustc_hir::intravisit::walk_block(self, b);
    }
}
fn set(s: &BTreeSet<String>) -> String { format!("[{}]", s.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")) }

/// The text of a body (and of its promoted constants) with full paths, for comparison between configurations.
fn text<'tcx>(tcx: TyCtxt<'tcx>, d: DefId, body: &Body<'tcx>, promoted: bool) -> String {
    ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!({
        let w = pretty::MirWriter::new(tcx);
        let mut o: Vec<u8> = vec![];
        let _ = w.write_mir_fn(body, &mut o);
        if promoted { for b in tcx.promoted_mir(d).iter() { let _ = w.write_mir_fn(b, &mut o); } }
        String::from_utf8_lossy(&o).into_owned()
    }))
}

pub struct Facts;
impl Callbacks for Facts {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut out = vec![];
        let vis = tcx.effective_visibilities(());
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    out.push(format!("{{\"static\":{},\"mut\":{},\"freeze\":{},\"ty\":{}}}", esc(&path(tcx, d)), mutability.is_mut(), t.is_freeze(tcx, TypingEnv::fully_monomorphized()), esc(&t.to_string())));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(d);
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let env = TypingEnv::post_analysis(tcx, d);
                    let mut fs = vec![];
                    for v in def.variants() { for f in &v.fields { let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip(); fs.push(format!("[{},{},{},{}]", esc(v.name.as_str()), esc(f.name.as_str()), f.vis.is_public(), esc(&ft.to_string()))); } }
                    out.push(format!("{{\"adt\":{},\"public\":{},\"kind\":\"{}\",\"freeze\":{},\"fields\":[{}],\"variants\":{}}}", esc(&path(tcx, d)), vis.is_reachable(ld), if def.is_enum() { "enum" } else { "struct" }, t.is_freeze(tcx, env), fs.join(","), def.variants().len()));
                }
                DefKind::Impl { of_trait: true } => {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    let mut s = BTreeSet::new();
                    adts(tcx, tr.self_ty(), &mut s);
                    out.push(format!("{{\"impl\":{},\"self\":{},\"adts\":{},\"unsafe\":{}}}", esc(&path(tcx, tr.def_id)), esc(&tr.self_ty().to_string()), set(&s), tcx.trait_def(tr.def_id).safety.is_unsafe()));
                }
                DefKind::ForeignMod => out.push("{\"foreign_mod\":true}".to_string()),
                DefKind::Mod => out.push(format!("{{\"mod\":{},\"public\":{}}}", esc(&path(tcx, d)), vis.is_reachable(ld))),
                _ => {}
            }
        }
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            let k = tcx.def_kind(d);
            let (body, kind): (&Body<'tcx>, &str) = match k {
                DefKind::Fn | DefKind::AssocFn => (tcx.optimized_mir(d), "fn"),
                DefKind::Closure => (tcx.optimized_mir(d), "closure"),
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => {
                    if matches!(k, DefKind::AnonConst) { continue; }
                    (tcx.mir_for_ctfe(d), "const")
                }
                _ => continue,
            };
            let mut u = Unsafe { n: 0 };
            rustc_hir::intravisit::Visitor::visit_body(&mut u, tcx.hir_body_owned_by(ld));
            let (mut ins, mut outs, mut public, mut uns, mut trait_) = (BTreeSet::new(), BTreeSet::new(), false, false, String::new());
            if kind == "fn" {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                for i in sig.inputs() { adts(tcx, *i, &mut ins); }
                adts(tcx, sig.output(), &mut outs);
                uns = sig.safety().is_unsafe();
                public = vis.is_reachable(ld);
                if let Some(i) = tcx.trait_impl_of_assoc(d) { let tr = tcx.impl_trait_ref(i).instantiate_identity().skip_norm_wip(); trait_ = path(tcx, tr.def_id); public = true; }
            }
            let parent = tcx.typeck_root_def_id(d);
            if std::env::var("MIRVAL_TEXT").is_ok() { out.push(format!("{{\"mir\":{},\"text\":{}}}", esc(&ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(tcx.def_path_str(d)))), esc(&text(tcx, d, body, true)))); }
            out.push(format!("{{\"body\":{},\"kind\":\"{}\",\"root\":{},\"public\":{},\"trait\":{},\"unsafe_blocks\":{},\"unsafe_fn\":{},\"in\":{},\"out\":{},\"facts\":{}}}",
                esc(&path(tcx, d)), kind, esc(&path(tcx, parent)), public, esc(&trait_), u.n, uns, set(&ins), set(&outs), body_facts(tcx, d, body)));
        }
        let mut crates = BTreeSet::new();
        for c in tcx.crates(()) { crates.insert(tcx.crate_name(*c).to_string()); }
        out.push(format!("{{\"crates\":{},\"crate\":{}}}", set(&crates), esc(tcx.crate_name(LOCAL_CRATE).as_str())));
        std::fs::write(std::env::var("MIRVAL_OUT").unwrap(), out.join("\n") + "\n").unwrap();
        Compilation::Stop
    }
}
pub fn main(args: &[String]) {
    let _ = rustc_driver::catch_fatal_errors(|| rustc_driver::compiler_entrypoint(args, &mut Facts));
}
