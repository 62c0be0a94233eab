#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;
mod check;
mod facts;
mod fmt;
mod imgnat;
mod interp;
mod ir;
mod natives;
mod rt;
mod term;
mod val;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::collections::HashMap;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() { match ch { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\r' => o += "\\r", '\t' => o += "\\t", x if (x as u32) < 0x20 || (x as u32) > 0x7e => { let mut b = [0u16; 2]; for u in x.encode_utf16(&mut b) { o += &format!("\\u{:04x}", u); } } x => o.push(x) } }
    o.push('"'); o
}
fn arr(v: impl Iterator<Item = String>) -> String { format!("[{}]", v.collect::<Vec<_>>().join(",")) }

fn take_ticket(path: &str) -> usize {
    use std::io::{Read, Seek, Write};
    let mut f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("counter");
    f.lock().expect("counter lock");
    let mut s = String::new();
    f.read_to_string(&mut s).unwrap();
    let k: usize = s.trim().parse().unwrap_or(0);
    f.rewind().unwrap();
    write!(f, "{:<12}", k + 1).unwrap();
    k
}

fn run_jobs() {
    let krate = rustc_public::local_crate();
    let mut shims = HashMap::new();
    let mut obs: HashMap<String, FnDef> = HashMap::new();
    for d in krate.fn_defs() {
        let n = ir::norm_name(&d.name());
        let n = n.strip_prefix("harness::").unwrap_or(&n).to_string();
        if let Some(s) = n.strip_prefix("shim::") { shims.insert(s.to_string(), d); }
        if let Some(s) = n.strip_prefix("ob::") { obs.insert(s.rsplit("::").next().unwrap().to_string(), d); }
    }
    let mut cx = interp::Cx::new(shims);
    if let Some(d) = cx.shims.get("string_ty") { cx.string_ty = Some(d.fn_sig().skip_binder().output()); }
    let jobs = std::fs::read_to_string(std::env::var("MIRVAL_JOBS").expect("MIRVAL_JOBS")).expect("jobs");
    let out = std::env::var("MIRVAL_OUT").expect("MIRVAL_OUT");
    let budget: f64 = std::env::var("MIRVAL_BUDGET").ok().and_then(|x| x.parse().ok()).unwrap_or(60.0);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    use std::io::Write;
    let mut f = std::fs::File::create(&out).unwrap();
    let lines: Vec<&str> = jobs.lines().collect();
    let mut own = 0usize;
    loop {
        // several drivers may share one job list through a counter file
        let k = match std::env::var("MIRVAL_CTR") {
            Ok(c) => take_ticket(&c),
            Err(_) => { own += 1; own - 1 }
        };
        if k >= lines.len() { break; }
        let line = lines[k];
        let mut w = line.split_whitespace();
        let name = match w.next() { Some(n) => n, None => continue };
        let params: Vec<i128> = w.map(|x| x.parse().unwrap_or(0)).collect();
        let t0 = std::time::Instant::now();
        term::reset();
        cx.panics.clear(); cx.undec.clear(); cx.stack.clear();
        cx.stats = Default::default();
        cx.ob = check::Ob { params: params.clone(), seed, ..Default::default() };
        cx.deadline = t0 + std::time::Duration::from_secs_f64(budget);
        let d = match obs.get(name) { Some(d) => *d, None => { writeln!(f, "{{\"ob\":{},\"status\":\"missing\"}}", esc(name)).unwrap(); continue; } };
        writeln!(f, "{{\"start\":{},\"params\":{:?}}}", esc(name), params).unwrap();
        let inst = Instance::resolve(d, &GenericArgs(vec![])).expect("obligation");
        let fun = ir::func(inst).expect("obligation body");
        term::st().deadline = Some(cx.deadline + std::time::Duration::from_secs_f64(budget * 0.2));
        // the budget is enforced by unwinding out of the analysis
        let limited = |e: Box<dyn std::any::Any + Send>| -> &'static str { match e.downcast_ref::<term::Limit>() { Some(l) => l.0, None => "internal error of the analyser" } };
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let r = cx.run(fun, vec![], interp::State { g: term::TRUE, fr: vec![] }); drop(r); })) {
            Ok(()) => {}
            Err(e) => { let m = limited(e).to_string(); cx.ob.undec.push(m); }
        }
        let panics = std::mem::take(&mut cx.panics);
        for p in &panics {
            if p.site.starts_with("ob::") || p.site.starts_with("harness") || p.site.starts_with("refs::") { cx.ob.undec.push(format!("panic in harness code {}: {}", p.site, p.msg)); continue; }
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| term::witness(p.g, seed))).unwrap_or(None) {
                Some(a) => { let i = cx.ob.show_inputs(&a); cx.ob.viol.push(check::Viol { msg: format!("panic: {}", p.msg), inputs: i, detail: String::new(), site: p.site.clone() }); }
                None => cx.ob.undec.push(format!("possible panic {} at {}: no certificate", p.msg, p.site)),
            }
        }
        let und = std::mem::take(&mut cx.undec);
        for (_, m) in &und { cx.ob.undec.push(m.clone()); }
        let status = if !cx.ob.viol.is_empty() { "violation" } else if !cx.ob.undec.is_empty() { "undecided" } else if cx.ob.sites == 0 { "vacuous" } else { "proved" };
        let viol = arr(cx.ob.viol.iter().map(|v| format!("{{\"msg\":{},\"inputs\":{},\"detail\":{},\"site\":{}}}", esc(&v.msg), esc(&v.inputs), esc(&v.detail), esc(&v.site))));
        writeln!(f, "{{\"ob\":{},\"params\":{:?},\"status\":\"{}\",\"proved\":{},\"sites\":{},\"violations\":{},\"undecided\":{},\"known\":{},\"blocks\":{},\"joins\":{},\"calls\":{},\"splits\":{},\"functions\":{},\"secs\":{:.2}}}",
            esc(name), params, status, cx.ob.proved, cx.ob.sites, viol, arr(cx.ob.undec.iter().take(5).map(|s| esc(s))), arr(cx.ob.known.iter().map(|k| format!("[{},{}]", esc(&k.0), esc(&k.1)))),
            cx.stats.blocks, cx.stats.joins, cx.stats.calls, cx.stats.splits, arr(cx.stats.funcs.iter().map(|s| esc(s))), t0.elapsed().as_secs_f64()).unwrap();
    }
    writeln!(f, "{{\"done\":true}}").unwrap();
}

fn main() {
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| if !i.payload().is::<term::Limit>() { hook(i) }));
    let args: Vec<String> = std::env::args().collect();
    if std::env::var("MIRVAL_FACTS").is_ok() { facts::main(&args); return; }
    let r = run!(&args, || -> ControlFlow<()> { run_jobs(); ControlFlow::Break(()) });
    match r { Ok(_) | Err(rustc_public::CompilerError::Interrupted(_)) => {} Err(e) => { eprintln!("analysis driver: {:?}", e); std::process::exit(3); } }
}
