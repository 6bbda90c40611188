#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_abi;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_session;
extern crate rustc_span;

mod api;
mod bdd;
mod dom;
mod exec;
mod fx;
mod interp;
mod intrin;
mod llvm;
mod mem;
mod oblige;
mod spec;
mod word;

use interp::Interp;
use rustc_driver::{Callbacks, Compilation};
use rustc_public::crate_def::CrateDef;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::TyKind;
use rustc_public::CrateItem;

struct Cb;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}
fn strs<'a>(v: impl IntoIterator<Item = &'a String>) -> String {
    arr(v.into_iter().map(|s| esc(s)))
}

fn glob(p: &[u8], n: &[u8]) -> bool {
    match p.first() {
        None => n.is_empty(),
        Some(b'*') => (0..=n.len()).any(|i| glob(&p[1..], &n[i..])),
        Some(c) => n.first() == Some(c) && glob(&p[1..], &n[1..]),
    }
}

fn analyse() -> String {
    let sel: Vec<String> = std::env::var("AV_ROOTS").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let verbose = std::env::var("AV_VERBOSE").is_ok();
    let mut it = Interp::new("aes_crypto");
    it.overflow_checks = std::env::var("AV_OVERFLOW").is_ok();
    it.want_secret = std::env::var("AV_SECRET").map_or(true, |v| v != "0");
    let mut roots = vec![];
    let mut items: Vec<CrateItem> = rustc_public::all_local_items();
    items.sort_by_key(|i| i.name());
    let matches = |n: &str| {
        sel.is_empty()
            || sel.iter().any(|p| glob(p.as_bytes(), n.as_bytes()))
    };
    for i in items {
        let full = i.name();
        let name = full.rsplit("::").next().unwrap().to_string();
        if full.matches("::").count() > 1 || !matches!(i.ty().kind(), TyKind::RigidTy(rustc_public::ty::RigidTy::FnDef(..))) {
            continue;
        }
        if !matches(&name) {
            continue;
        }
        if i.requires_monomorphization() {
            continue;
        }
        let Ok(inst) = Instance::try_from(i) else { continue };
        let names: Vec<String> = match i.body() {
            Some(b) => {
                let n = b.arg_locals().len();
                let mut v = vec![String::new(); n];
                for d in &b.var_debug_info {
                    if let Some(a) = d.argument_index {
                        if (a as usize) >= 1 && (a as usize) <= n {
                            v[a as usize - 1] = d.name.clone();
                        }
                    }
                }
                v.into_iter().enumerate().map(|(k, s)| if s.is_empty() { format!("arg{k}") } else { s }).collect()
            }
            None => vec![],
        };
        roots.push((name, inst, names));
    }
    let limit: u64 = std::env::var("AV_ROOT_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(120);
    let mem: u64 = std::env::var("AV_MEM_MB").ok().and_then(|s| s.parse().ok()).unwrap_or(2600);
    let mut res = vec![];
    let (mut nodes_max, mut opaque) = (0usize, 0usize);
    let (mut failing, t0) = (false, std::time::Instant::now());
    for (name, inst, names) in roots {
        it.d = dom::Dom::new();
        it.call_memo.clear();
        if !it.statics.is_empty() {
            it.statics.clear();
            it.gmap.clear();
            it.globals.clear();
            it.fnmap.clear();
            it.consts.clear();
            it.locdummy = None;
        }
        it.steps = 0;
        it.deadline = Some(std::time::Instant::now() + std::time::Duration::from_secs(limit));
        it.d.deadline = it.deadline;
        it.d.mem_limit = mem << 20;
        let mut o = oblige::run_root(&mut it, inst, &name, &names, name.starts_with("slice_store"));
        if it.d.late {
            o.bad.retain(|b| !b.0.starts_with("no result is returned"));
        }
        if it.d.late && o.undecided.is_empty() {
            o.undecided.push(("time or memory of the analysis exhausted".into(), vec![name.clone()]));
        }
        nodes_max = nodes_max.max(it.d.b.nodes.len());
        opaque += it.d.n_overflow;
        if verbose {
            eprintln!("{name}: bad={} undecided={} events={} obligations={} {}ms {}", o.bad.len(), o.undecided.len(), o.events.len(), o.obligations, o.ms, o.info);
            for (a, w, s) in &o.bad {
                eprintln!("   BAD {a} | {w} | {s:?}");
            }
            for (a, s) in &o.undecided {
                eprintln!("   UNDECIDED {a} | {s:?}");
            }
            for (k, m, s, d) in &o.events {
                eprintln!("   {k:?} {m} {s:?} {d}");
            }
        }
        res.push(format!(
            "{{\"root\":{},\"obligations\":{},\"ms\":{},\"bad\":{},\"undecided\":{},\"events\":{}}}",
            esc(&o.root),
            o.obligations,
            o.ms,
            arr(o.bad.iter().map(|(a, w, s)| format!("[{},{},{}]", esc(a), esc(w), strs(s)))),
            arr(o.undecided.iter().map(|(a, s)| format!("[{},{}]", esc(a), strs(s)))),
            arr(o.events.iter().map(|(k, m, s, d)| format!("[{},{},{},{}]", esc(&format!("{k:?}")), esc(m), strs(s), d)))
        ));
        failing |= !o.bad.is_empty() || !o.undecided.is_empty();
        if it.d.late || it.deadline.map(|d| std::time::Instant::now() > d).unwrap_or(false) || (failing && t0.elapsed().as_secs() > 30) {
            break; // what is left would not do better; the caller reports this root
        }
    }
    let s = &it.stats;
    let mut fu: Vec<&String> = s.funcs.iter().collect();
    fu.sort();
    let mut cf: Vec<&String> = s.core_funcs.iter().collect();
    cf.sort();
    let mut ll: Vec<&String> = s.llvm.keys().collect();
    ll.sort();
    let mut tr: Vec<(String, String)> = s.transmutes.iter().cloned().collect();
    tr.sort();
    let mut sizes: Vec<u64> = vec![];
    for (b, k) in &s.blocks {
        if *k == 0 && it.site_local[*b] {
            sizes.extend(&it.site_bodies[*b].sizes);
        }
    }
    sizes.sort();
    sizes.dedup();
    let mut ss: Vec<&String> = s.statics_touched.iter().collect();
    ss.sort();
    format!(
        "{{\"roots\":{},\"stats\":{{\"functions\":{},\"core_functions\":{},\"instructions\":{},\"transmutes\":{},\"statics\":{},\"blocks\":{},\"call_sites\":{},\"calls\":{},\"branches\":{},\"symbolic_branches\":{},\"joins\":{},\"memory_checks\":{},\"asserts\":{},\"summaries\":{},\"reused\":{},\"exposed\":{},\"nodes_max\":{},\"opaque\":{},\"asm\":{},\"sizes\":{}}}}}",
        arr(res),
        strs(fu),
        strs(cf),
        strs(ll),
        arr(tr.iter().map(|(a, b)| format!("[{},{}]", esc(a), esc(b)))),
        strs(ss),
        s.blocks.len(),
        s.sites.len(),
        s.calls,
        s.branches,
        s.sym_branches,
        s.joins,
        s.mem_checks,
        s.asserts,
        s.summaries,
        s.reused,
        s.exposed,
        nodes_max,
        opaque,
        s.asm,
        arr(sizes.iter().map(|n| n.to_string()))
    )
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: rustc_middle::ty::TyCtxt<'tcx>) -> Compilation {
        if let Ok(p) = std::env::var("AV_API") {
            std::fs::write(p, api::dump(tcx)).unwrap();
            return Compilation::Continue;
        }
        let r = rustc_public::rustc_internal::run(tcx, analyse);
        match r {
            Ok(s) => match std::env::var("AV_OUT") {
                Ok(p) => std::fs::write(p, s).unwrap(),
                Err(_) => println!("{s}"),
            },
            Err(e) => {
                eprintln!("analysis failed: {e:?}");
                std::process::exit(3);
            }
        }
        Compilation::Stop
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 2 && args[1] == "--self-test" {
        match spec::self_test() {
            Ok(n) => println!("specification self-test: {n} FIPS-197 examples"),
            Err(e) => {
                eprintln!("specification self-test failed: {e}");
                std::process::exit(3);
            }
        }
        return;
    }
    // the interpreter recurses once per frame of the program analysed
    unsafe { std::env::set_var("RUST_MIN_STACK", (2usize << 30).to_string()) };
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
