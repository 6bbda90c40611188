//! Item-level facts about one crate, from the type-checked program: public API, layouts, auto
//! traits, statics, foreign items, features, and the types reinterpreted by each function.
use crate::esc;
use rustc_hir::def::{DefKind, Res};
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::TerminatorKind;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv, TypingMode, TypeVisitableExt};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{BTreeMap, BTreeSet, HashSet};

struct A<'tcx> {
    tcx: TyCtxt<'tcx>,
    /// textual private path -> public path
    names: Vec<(String, String)>,
}

fn obj(v: &[(&str, String)]) -> String {
    format!("{{{}}}", v.iter().map(|(k, x)| format!("{}:{}", esc(k), x)).collect::<Vec<_>>().join(","))
}
fn lst(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}
fn b(x: bool) -> String {
    x.to_string()
}

impl<'tcx> A<'tcx> {
    fn norm(&self, s: String) -> String {
        let mut s = s;
        for (p, q) in &self.names {
            let mut o = String::new();
            let mut rest = s.as_str();
            while let Some(i) = rest.find(p.as_str()) {
                let before = rest[..i].chars().last();
                let after = rest[i + p.len()..].chars().next();
                let idc = |c: Option<char>| c.is_some_and(|c| c.is_alphanumeric() || c == '_' || c == ':');
                let ida = |c: Option<char>| c.is_some_and(|c| c.is_alphanumeric() || c == '_');
                o.push_str(&rest[..i]);
                if idc(before) || ida(after) {
                    o.push_str(p);
                } else {
                    o.push_str(q);
                }
                rest = &rest[i + p.len()..];
            }
            o.push_str(rest);
            s = o;
        }
        s
    }
    fn path(&self, d: DefId) -> String {
        let s = with_no_trimmed_paths!(self.tcx.def_path_str(d));
        self.norm(s)
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        let s = with_no_trimmed_paths!(t.to_string());
        self.norm(s)
    }
    fn site(&self, d: DefId) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = self.tcx.def_span(d);
        let loc = sm.lookup_char_pos(sp.lo());
        format!("{}:{}", loc.file.name.prefer_local_unconditionally(), loc.line)
    }
    fn facts(&self, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::fully_monomorphized();
        let lay = tcx.layout_of(env.as_query_input(t));
        let (size, align) = match lay {
            Ok(l) => (l.size.bytes() as i64, l.align.abi.bytes() as i64),
            Err(_) => (-1, -1),
        };
        let infcx = tcx.infer_ctxt().build(TypingMode::non_body_analysis());
        let mut imp = vec![];
        for n in ["Send", "Sync", "Unpin", "UnwindSafe", "RefUnwindSafe", "Freeze"] {
            let holds = match n {
                "Freeze" => t.is_freeze(tcx, env),
                "Unpin" => t.is_unpin(tcx, env),
                "Send" | "UnwindSafe" | "RefUnwindSafe" => {
                    let s = match n {
                        "Send" => rustc_span::sym::Send,
                        "UnwindSafe" => rustc_span::sym::unwind_safe_trait,
                        _ => rustc_span::sym::ref_unwind_safe_trait,
                    };
                    let Some(d) = tcx.get_diagnostic_item(s) else { continue };
                    infcx.type_implements_trait(d, [t], ty::ParamEnv::empty()).must_apply_modulo_regions()
                }
                _ => {
                    let Some(d) = tcx.lang_items().sync_trait() else { continue };
                    infcx.type_implements_trait(d, [t], ty::ParamEnv::empty()).must_apply_modulo_regions()
                }
            };
            if holds {
                imp.push(n.to_string());
            }
        }
        let ptrs = self.has_pointer(t, &mut HashSet::new());
        obj(&[
            ("size", size.to_string()),
            ("align", align.to_string()),
            ("auto", lst(imp.iter().map(|s| esc(s)))),
            ("needs_drop", b(t.needs_drop(tcx, env))),
            ("pointers", b(ptrs)),
        ])
    }
    fn has_pointer(&self, t: Ty<'tcx>, seen: &mut HashSet<Ty<'tcx>>) -> bool {
        if !seen.insert(t) {
            return false;
        }
        match t.kind() {
            ty::RawPtr(..) | ty::Ref(..) | ty::FnPtr(..) | ty::Dynamic(..) => true,
            ty::Adt(d, a) => {
                d.all_fields().any(|f| self.has_pointer(f.ty(self.tcx, a).skip_norm_wip(), seen))
            }
            ty::Array(e, _) | ty::Slice(e) => self.has_pointer(*e, seen),
            ty::Tuple(l) => l.iter().any(|e| self.has_pointer(e, seen)),
            _ => false,
        }
    }

    fn module(&self, m: LocalDefId, prefix: &str, seen: &mut HashSet<LocalDefId>, items: &mut Vec<(String, Res<!>)>) {
        if !seen.insert(m) {
            return;
        }
        for c in self.tcx.module_children_local(m) {
            if !c.vis.is_public() {
                continue;
            }
            let name = format!("{prefix}{}", c.ident.name);
            items.push((name.clone(), c.res));
            if let Res::Def(DefKind::Mod, d) = c.res {
                if let Some(l) = d.as_local() {
                    self.module(l, &format!("{name}::"), seen, items);
                }
            }
        }
    }
    fn erased_sig(&self, d: DefId) -> ty::FnSig<'tcx> {
        let s = self.tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
        self.tcx.erase_and_anonymize_regions(self.tcx.instantiate_bound_regions_with_erased(s))
    }
    fn trait_ref(&self, d: DefId) -> ty::TraitRef<'tcx> {
        let t = self.tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
        self.tcx.erase_and_anonymize_regions(t)
    }
    fn preds(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let p: BTreeSet<String> = tcx
            .clauses_of(d)
            .clauses
            .iter()
            .map(|(p, _)| self.norm(with_no_trimmed_paths!(p.to_string())))
            .filter(|s| !s.starts_with("Self: "))
            .collect();
        if p.is_empty() {
            String::new()
        } else {
            format!(" where {}", p.into_iter().collect::<Vec<_>>().join(", "))
        }
    }
    fn generics(&self, d: DefId) -> String {
        let own: Vec<String> = self
            .tcx
            .generics_of(d)
            .own_params
            .iter()
            .filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime))
            .map(|p| p.name.to_string())
            .collect();
        if own.is_empty() { String::new() } else { format!("<{}>", own.join(",")) }
    }
    fn fn_entry(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let s = self.erased_sig(d);
        let c = if tcx.is_const_fn(d) { "const " } else { "" };
        let m = tcx.opt_associated_item(d).map(|a| a.is_method()).unwrap_or(false);
        let body = with_no_trimmed_paths!(s.to_string());
        format!("{c}{}{}{}{}", self.norm(body), self.generics(d), self.preds(d), if m { " [method]" } else { "" })
    }
    fn assoc(&self, owner: &str, d: DefId) -> Option<String> {
        let tcx = self.tcx;
        let it = tcx.associated_item(d);
        let n = it.name();
        Some(match it.kind {
            ty::AssocKind::Fn { .. } => format!("{owner}::{n}: {}", self.fn_entry(d)),
            ty::AssocKind::Const { .. } => format!("{owner}::{n}: const {}", self.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip())),
            ty::AssocKind::Type { .. } => {
                if tcx.defaultness(d).has_value() {
                    format!("{owner}::{n} = {}", self.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip()))
                } else {
                    let b: BTreeSet<String> = tcx
                        .item_bounds(d)
                        .instantiate_identity()
                        .skip_norm_wip()
                        .iter()
                        .map(|p| self.norm(with_no_trimmed_paths!(p.to_string())))
                        .collect();
                    format!("{owner}::{n}: {}", b.into_iter().collect::<Vec<_>>().join(" + "))
                }
            }
        })
    }
    fn mentions(&self, t: Ty<'tcx>, set: &HashSet<DefId>) -> bool {
        t.walk().any(|g| g.as_type().is_some_and(|t| matches!(t.kind(), ty::Adt(d, _) if set.contains(&d.did()))))
    }
}

/// Does the language leave the layout of this type open? A tuple, closure or repr(Rust) struct or
/// union with more than one field that takes space, an enum without a representation, or anything
/// that contains one.
pub fn loose<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> Option<Ty<'tcx>> {
    fn go<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, seen: &mut HashSet<Ty<'tcx>>) -> Option<Ty<'tcx>> {
        if !seen.insert(t) {
            return None;
        }
        let sized = |x: Ty<'tcx>| {
            if x.has_param() {
                return true;
            }
            tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(x)).map(|l| l.size.bytes() > 0).unwrap_or(true)
        };
        match t.kind() {
            ty::Tuple(l) => {
                if l.iter().filter(|e| sized(*e)).count() > 1 {
                    return Some(t);
                }
                l.iter().find_map(|e| go(tcx, e, seen))
            }
            ty::Adt(d, a) => {
                let r = d.repr();
                if r.simd() {
                    return None;
                }
                // core's own types document their layouts (MaybeUninit, NonNull, ...)
                let l = tcx.crate_name(d.did().krate);
                if l.as_str() != "core" {
                    if d.is_enum() {
                        if !r.c() && r.int.is_none() && d.variants().len() > 1 {
                            return Some(t);
                        }
                    } else if !r.c() && !r.transparent() {
                        let n = d.all_fields().filter(|f| sized(f.ty(tcx, a).skip_norm_wip())).count();
                        if n > 1 || (d.is_union() && n > 0) {
                            return Some(t);
                        }
                    }
                }
                d.all_fields().find_map(|f| go(tcx, f.ty(tcx, a).skip_norm_wip(), seen))
            }
            ty::Array(e, _) | ty::Slice(e) => go(tcx, *e, seen),
            ty::Closure(..) | ty::Coroutine(..) => Some(t),
            _ => None,
        }
    }
    go(tcx, t, &mut HashSet::new())
}

/// Identifies what the crate compiles to before any target is chosen: the MIR of every body, the
/// representation of every type and the attributes of every function.  Two configurations of equal
/// word size and byte order with equal fingerprints behave alike.
fn fingerprint(tcx: TyCtxt<'_>) -> String {
    use std::fmt::Write;
    let mut buf: Vec<u8> = vec![];
    rustc_middle::mir::pretty::write_mir_pretty(tcx, &mut buf).expect("MIR as text");
    let mut more = String::new();
    for l in tcx.hir_crate_items(()).definitions() {
        let d = l.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let a = tcx.adt_def(d);
                let _ = write!(more, "{d:?} {:?}", a.repr());
                for f in a.all_fields() {
                    let _ = write!(more, " {}: {:?}", f.name, tcx.type_of(f.did).instantiate_identity().skip_norm_wip());
                }
            }
            DefKind::Fn | DefKind::AssocFn => {
                let c = tcx.codegen_fn_attrs(d);
                let _ = write!(more, "{d:?} {:?} {:?}", c.flags, c.target_features.iter().map(|t| t.name.to_string()).collect::<Vec<_>>());
                if tcx.is_foreign_item(d) {
                    let _ = write!(more, " {:?}", c.symbol_name);
                }
            }
            _ => {}
        }
        more.push('\n');
    }
    // two independent 64-bit sums
    let mut h = [0xcbf2_9ce4_8422_2325u64, 0x9e37_79b9_7f4a_7c15];
    for x in buf.iter().chain(more.as_bytes()) {
        h[0] = (h[0] ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        h[1] = (h[1].rotate_left(23) ^ *x as u64).wrapping_mul(0xff51_afd7_ed55_8ccd);
    }
    if let Ok(p) = std::env::var("AV_MIR") {
        let _ = std::fs::write(p, [&buf[..], more.as_bytes()].concat());
    }
    format!("{:016x}{:016x}", h[0], h[1])
}

pub fn dump(tcx: TyCtxt<'_>) -> String {
    let mut a = A { tcx, names: vec![] };
    let mut items = vec![];
    a.module(rustc_hir::def_id::CRATE_DEF_ID, "", &mut HashSet::new(), &mut items);
    let mut public: HashSet<DefId> = HashSet::new();
    let mut names = vec![];
    for (n, r) in &items {
        if let Res::Def(_, d) = r {
            if public.insert(*d) && d.is_local() {
                let p = with_no_trimmed_paths!(tcx.def_path_str(*d));
                if &p != n {
                    names.push((p, n.clone()));
                }
            }
        }
    }
    names.sort_by_key(|x| std::cmp::Reverse(x.0.len()));
    a.names = names;
    // public items
    let mut api: BTreeMap<String, String> = BTreeMap::new();
    let mut types = vec![];
    let mut fields = vec![];
    let env = TypingEnv::fully_monomorphized();
    for (n, r) in &items {
        let Res::Def(k, d) = r else {
            api.insert(format!("{n}: {r:?}"), String::new());
            continue;
        };
        let d = *d;
        if !d.is_local() {
            api.insert(format!("{n}: re-export of {}", a.path(d)), String::new());
            continue;
        }
        let site = a.site(d);
        match k {
            DefKind::Fn => {
                api.insert(format!("{n}: {}", a.fn_entry(d)), site);
            }
            DefKind::Const { .. } | DefKind::Static { .. } => {
                api.insert(format!("{n}: {k:?} {}", a.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip())), site);
            }
            DefKind::Mod => {
                api.insert(format!("{n}: mod"), site);
            }
            DefKind::Trait => {
                api.insert(format!("{n}: trait{}{} unsafe={:?}", a.generics(d), {
                    let p: BTreeSet<String> = tcx.explicit_super_clauses_of(d).iter_identity_copied().map(|u| u.skip_norm_wip().0).map(|p| a.norm(with_no_trimmed_paths!(p.to_string()))).collect();
                    format!(" : {}", p.into_iter().collect::<Vec<_>>().join(" + "))
                }, tcx.trait_def(d).safety), site);
                for it in tcx.associated_item_def_ids(d) {
                    if let Some(e) = a.assoc(n, *it) {
                        let e = if tcx.defaultness(*it).has_value() { format!("{e} (provided)") } else { e };
                        api.insert(e, a.site(*it));
                    }
                }
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let def = tcx.adt_def(d);
                api.insert(format!("{n}: {k:?}{}{}", a.generics(d), a.preds(d)), site);
                for f in def.all_fields() {
                    let vis = f.vis.is_public();
                    let t = f.ty(tcx, ty::GenericArgs::identity_for_item(tcx, d)).skip_norm_wip();
                    if vis {
                        api.insert(format!("{n}.{}: {}", f.name, a.ty(t)), a.site(f.did));
                    }
                    fields.push(obj(&[("ty", esc(n)), ("field", esc(f.name.as_str())), ("pub", b(vis)), ("of", esc(&a.ty(t)))]));
                }
                if tcx.generics_of(d).own_params.is_empty() {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    types.push(format!("{}:{}", esc(n), a.facts(t)));
                }
                for i in tcx.inherent_impls(d) {
                    for it in tcx.associated_item_def_ids(*i) {
                        if tcx.visibility(*it).is_public() {
                            if let Some(e) = a.assoc(n, *it) {
                                api.insert(format!("{e}{}", a.preds(*i)), a.site(*it));
                            }
                        }
                    }
                }
            }
            _ => {
                api.insert(format!("{n}: {k:?}"), site);
            }
        }
    }
    // trait impls that involve a public type or apply to every type
    let mut sealed = vec![];
    for (tr, impls) in tcx.all_local_trait_impls(()) {
        for i in impls {
            let i = i.to_def_id();
            let t = a.trait_ref(i);
            let involved = t.args.types().any(|x| x.has_param() || a.mentions(x, &public));
            let head = a.norm(with_no_trimmed_paths!(t.to_string()));
            if tr.is_local() && !public.contains(tr) {
                sealed.push(obj(&[
                    ("trait", esc(&a.path(*tr))),
                    ("impl", esc(&head)),
                    ("blanket", b(matches!(t.self_ty().kind(), ty::Param(_) | ty::Alias(..)))),
                ]));
                continue;
            }
            if !involved {
                continue;
            }
            // derived helper traits that add nothing a caller can name
            let neg = if tcx.impl_polarity(i) == ty::ImplPolarity::Negative { "!" } else { "" };
            api.insert(format!("impl{} {neg}{head}{}", a.generics(i), a.preds(i)), a.site(i));
            for it in tcx.associated_item_def_ids(i) {
                let ai = tcx.associated_item(*it);
                if let ty::AssocKind::Type { .. } = ai.kind {
                    if let Some(e) = a.assoc(&head, *it) {
                        api.insert(e, a.site(*it));
                    }
                }
            }
        }
    }
    // private traits
    let mut traits = vec![];
    for l in tcx.hir_crate_items(()).definitions() {
        let d = l.to_def_id();
        if tcx.def_kind(d) == DefKind::Trait {
            traits.push(obj(&[
                ("trait", esc(&a.path(d))),
                ("public", b(public.contains(&d))),
                ("supers", lst(tcx.explicit_super_clauses_of(d).iter_identity_copied().map(|u| u.skip_norm_wip().0).filter_map(|c| c.as_trait_clause().map(|t| t.def_id())).map(|t| esc(&a.path(t))))),
            ]));
        }
    }
    // functions of the public API by what they take and give
    let mut fns = vec![];
    let adts = |t: Ty<'_>| -> Vec<String> {
        let mut v: BTreeSet<String> = BTreeSet::new();
        for g in t.walk() {
            if let Some(t) = g.as_type() {
                if let ty::Adt(d, _) = t.kind() {
                    if d.did().is_local() {
                        v.insert(a.path(d.did()));
                    }
                }
            }
        }
        v.into_iter().collect()
    };
    let ev = tcx.effective_visibilities(());
    for l in tcx.hir_body_owners() {
        let d = l.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            continue;
        }
        // a trait impl method has no effective visibility of its own: reachable if the trait and the type are
        let ti = tcx.opt_associated_item(d).filter(|x| matches!(x.container, ty::AssocContainer::TraitImpl(_))).map(|_| a.trait_ref(tcx.parent(d)));
        let reach = match ti {
            Some(t) => (!t.def_id.is_local() || public.contains(&t.def_id)) && t.args.types().any(|x| a.mentions(x, &public) || x.has_param()),
            None => ev.is_reachable(l),
        };
        let s = a.erased_sig(d);
        let ins: Vec<String> = s.inputs().iter().map(|t| {
            let m = match t.kind() {
                ty::Ref(_, _, m) => if m.is_mut() { "mut" } else { "ref" },
                ty::RawPtr(..) => "raw",
                _ => "val",
            };
            format!("[{},{},{}]", esc(m), esc(&a.ty(*t)), lst(adts(*t).iter().map(|x| esc(x))))
        }).collect();
        let asm = {
            {
                let body = tcx.optimized_mir(d);
                body.basic_blocks.iter().any(|bb| matches!(bb.terminator().kind, TerminatorKind::InlineAsm { .. }))
            }
        };
        fns.push(obj(&[
            ("fn", esc(&a.path(d))),
            ("site", esc(&a.site(d))),
            ("reachable", b(reach)),
            ("trait", esc(&ti.map(|t| a.norm(with_no_trimmed_paths!(t.to_string()))).unwrap_or_default())),
            ("unsafe", b(s.safety().is_unsafe())),
            ("inputs", lst(ins)),
            ("output", esc(&a.ty(s.output()))),
            ("gives", lst(adts(s.output()).iter().map(|x| esc(x)))),
            ("asm", b(asm)),
        ]));
    }
    // statics, foreign items, global assembly
    let mut statics = vec![];
    let mut foreign = vec![];
    let mut global_asm = vec![];
    for l in tcx.hir_crate_items(()).definitions() {
        let d = l.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let fl = tcx.codegen_fn_attrs(d).flags;
                let tl = fl.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::THREAD_LOCAL);
                statics.push(obj(&[
                    ("static", esc(&a.path(d))),
                    ("site", esc(&a.site(d))),
                    ("mut", b(mutability.is_mut())),
                    ("freeze", b(t.is_freeze(tcx, env))),
                    ("thread_local", b(tl)),
                    ("foreign", b(tcx.is_foreign_item(d))),
                    ("ty", esc(&a.ty(t))),
                ]));
            }
            DefKind::Fn if tcx.is_foreign_item(d) => {
                let n = tcx.codegen_fn_attrs(d).symbol_name.map(|s| s.to_string()).unwrap_or_else(|| tcx.item_name(d).to_string());
                foreign.push(obj(&[("fn", esc(&a.path(d))), ("site", esc(&a.site(d))), ("link_name", esc(&n)), ("abi", esc(&format!("{:?}", tcx.fn_sig(d).skip_binder().abi())))]));
            }
            DefKind::GlobalAsm => global_asm.push(esc(&a.site(d))),
            _ => {}
        }
    }
    let crates: Vec<String> = tcx.crates(()).iter().map(|c| esc(tcx.crate_name(*c).as_str())).collect();
    let feats: Vec<String> = tcx.features().enabled_features_iter_stable_order().map(|f| esc(f.0.as_str())).collect();
    obj(&[
        ("api", lst(api.iter().map(|(k, s)| format!("[{},{}]", esc(k), esc(s))))),
        ("types", format!("{{{}}}", types.join(","))),
        ("fields", lst(fields)),
        ("sealed", lst(sealed)),
        ("traits", lst(traits)),
        ("fns", lst(fns)),
        ("statics", lst(statics)),
        ("foreign", lst(foreign)),
        ("global_asm", lst(global_asm)),
        ("crates", lst(crates)),
        ("features", lst(feats)),
        ("items", items.len().to_string()),
        ("code", esc(&fingerprint(tcx))),
    ])
}
