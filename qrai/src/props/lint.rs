//! Effects: unsafe code, global state and calls that reach outside of the program.
use super::*;
use rustc_data_structures::fx::{FxHashMap, FxHashSet};
use rustc_hir as hir;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::mir::visit::Visitor as MirVisitor;
use rustc_middle::mir::{self, CastKind, Location, Rvalue, TerminatorKind};
use rustc_middle::ty::{self, InstanceKind, Ty, TypeVisitableExt};
use rustc_span::Span;

/// the functions that write a file because the user asked for it
const DUMPS: &[&str] = &["write_state_to", "write_grid_to"];

/// calls of the standard library whose result or effect is not a function of the arguments
const DENY: &[&str] = &[
    "std::fs::", "std::net::", "std::env::", "std::process::", "std::thread::", "std::time::", "core::time::SystemTime", "std::os::", "std::sys::", "std::path::Path::exists",
    "std::path::Path::is_file", "std::path::Path::is_dir", "std::path::Path::metadata", "std::path::Path::read_dir", "std::path::Path::canonicalize", "std::io::stdio::", "std::io::stdin",
    "std::io::stdout", "std::io::stderr", "std::io::_print", "std::io::_eprint", "std::io::pipe", "std::backtrace::",
    "std::sync::mpsc", "std::random::", "std::panic::set_hook", "std::panic::take_hook", "std::panic::catch_unwind", "std::panicking::try", "std::alloc::set_alloc_error_hook",
    "std::os_str::", "std::arch::x86_64::_rdtsc", "std::arch::x86_64::__rdtscp", "std::arch::x86_64::_rdrand", "std::arch::x86_64::_rdseed", "std::arch::x86_64::__cpuid", "core::core_arch::x86::rdtsc",
];
/// seeds of hash tables that are never iterated in hash order (lru::LruCache keeps its own order; the crate's calls are checked below)
const SEEDS: &[&str] = &["foldhash::seed::"];
/// order of a hash table
const HASH_ORDER: &[&str] = &["std::collections::hash_map::", "std::collections::HashMap", "std::collections::HashSet", "std::collections::hash_set::", "hashbrown::"];
/// parts of the above that are pure
const PURE: &[&str] = &["std::time::Duration", "core::time::Duration", "std::process::ExitCode"];

struct Unsafe<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<(Span, &'static str)>,
}
impl<'tcx> Visitor<'tcx> for Unsafe<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        if let hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided) = b.rules {
            if !external(self.tcx, b.span) {
                self.found.push((b.span, "unsafe block"));
            }
        }
        intravisit::walk_block(self, b)
    }
    fn visit_expr(&mut self, e: &'tcx hir::Expr<'tcx>) {
        if let hir::ExprKind::InlineAsm(_) = e.kind {
            self.found.push((e.span, "inline assembly"));
        }
        intravisit::walk_expr(self, e)
    }
    fn visit_fn(&mut self, k: intravisit::FnKind<'tcx>, d: &'tcx hir::FnDecl<'tcx>, b: hir::BodyId, s: Span, _: LocalDefId) {
        if k.header().is_some_and(|h| h.is_unsafe()) {
            self.found.push((s, "unsafe function"));
        }
        intravisit::walk_body(self, self.tcx.hir_body(b));
        let _ = d;
    }
    fn visit_item(&mut self, i: &'tcx hir::Item<'tcx>) {
        match &i.kind {
            hir::ItemKind::Impl(im) if im.of_trait.is_some_and(|t| t.safety.is_unsafe()) && !external(self.tcx, i.span) => self.found.push((i.span, "unsafe impl")),
            hir::ItemKind::ForeignMod { .. } => self.found.push((i.span, "foreign functions")),
            hir::ItemKind::GlobalAsm { .. } => self.found.push((i.span, "global assembly")),
            _ => {}
        }
        intravisit::walk_item(self, i)
    }
}

/// code written by a macro of another crate
fn external(tcx: TyCtxt<'_>, s: Span) -> bool {
    s.from_expansion() && s.ctxt().outer_expn_data().macro_def_id.is_some_and(|d| !d.is_local()) && {
        let _ = tcx;
        true
    }
}

fn place(tcx: TyCtxt<'_>, s: Span) -> String {
    tcx.sess.source_map().span_to_diagnostic_string(s)
}

fn order(path: &str) -> bool {
    HASH_ORDER.iter().any(|d| path.contains(d)) && ["::iter", "::keys", "::values", "::drain", "::into_iter", "::retain", "::extract_if", "::into_keys", "::into_values", "::next"].iter().any(|x| path.contains(x))
}

fn denied(path: &str) -> bool {
    DENY.iter().any(|d| path.starts_with(d)) && !PURE.iter().any(|d| path.starts_with(d))
}


enum Edge<'tcx> {
    Fn(DefId, ty::GenericArgsRef<'tcx>),
    Inst(Instance<'tcx>),
    Drop(Ty<'tcx>),
    Static(DefId),
    /// something that is an effect in itself
    Effect(&'static str),
    Indirect,
}

/// what the executable parts of a body refer to
struct Refs<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    env: ty::TypingEnv<'tcx>,
    body: &'a mir::Body<'tcx>,
    out: Vec<(Edge<'tcx>, Span)>,
    seen: FxHashSet<mir::interpret::AllocId>,
}
impl<'a, 'tcx> Refs<'a, 'tcx> {
    fn alloc(&mut self, id: mir::interpret::AllocId, sp: Span) {
        use mir::interpret::GlobalAlloc as G;
        if !self.seen.insert(id) {
            return;
        }
        match self.tcx.global_alloc(id) {
            G::Static(d) => self.out.push((Edge::Static(d), sp)),
            G::Memory(a) => {
                for p in a.inner().provenance().ptrs().values() {
                    self.alloc(p.alloc_id(), sp)
                }
            }
            G::Function { instance, .. } => self.out.push((Edge::Inst(instance), sp)),
            G::VTable(ty, dy) => {
                let a = self.tcx.vtable_allocation((ty, dy.principal().map(|p| self.tcx.instantiate_bound_regions_with_erased(p))));
                self.alloc(a, sp)
            }
            _ => {}
        }
    }
    fn span(&self, l: Location) -> Span {
        self.body.source_info(l).span
    }
    fn fn_ty(&mut self, t: Ty<'tcx>, sp: Span) {
        match t.kind() {
            ty::FnDef(d, a) => self.out.push((Edge::Fn(*d, a.no_bound_vars().unwrap()), sp)),
            ty::Closure(d, a) => self.out.push((Edge::Inst(Instance::new_raw(*d, a)), sp)),
            _ => {}
        }
    }
}
impl<'a, 'tcx> MirVisitor<'tcx> for Refs<'a, 'tcx> {
    fn visit_rvalue(&mut self, r: &Rvalue<'tcx>, l: Location) {
        let sp = self.span(l);
        match r {
            Rvalue::ThreadLocalRef(d) => self.out.push((Edge::Static(*d), sp)),
            Rvalue::Cast(CastKind::PointerExposeProvenance, ..) => self.out.push((Edge::Effect("address used as a number"), sp)),
            Rvalue::Cast(CastKind::PointerCoercion(ty::adjustment::PointerCoercion::Unsize, _), op, target) => {
                let tail = |t: Ty<'tcx>| t.builtin_deref(true).or_else(|| if let ty::Adt(d, a) = t.kind() { if d.is_box() { Some(a.type_at(0)) } else { None } } else { None });
                if let (Some(a), Some(b)) = (tail(op.ty(self.body, self.tcx)), tail(*target)) {
                    let (a, b) = self.tcx.struct_lockstep_tails_for_codegen(a, b, self.env);
                    if let ty::Dynamic(tr, ..) = b.kind() {
                        if !matches!(a.kind(), ty::Dynamic(..)) && !a.has_param() && !a.has_escaping_bound_vars() {
                            if let Some(p) = tr.principal() {
                                let tr = self.tcx.instantiate_bound_regions_with_erased(p.with_self_ty(self.tcx, a));
                                if !tr.has_param() {
                                    for e in self.tcx.vtable_entries(tr) {
                                        if let ty::VtblEntry::Method(i) = e {
                                            self.out.push((Edge::Inst(*i), sp));
                                        }
                                    }
                                }
                            }
                            self.out.push((Edge::Drop(a), sp));
                        }
                    }
                }
            }
            Rvalue::Aggregate(k, _) => {
                if let mir::AggregateKind::Closure(d, a) = **k {
                    self.out.push((Edge::Inst(Instance::new_raw(d, a)), sp));
                }
            }
            _ => {}
        }
        self.super_rvalue(r, l)
    }
    fn visit_const_operand(&mut self, c: &mir::ConstOperand<'tcx>, l: Location) {
        let sp = self.span(l);
        self.fn_ty(c.const_.ty(), sp);
        if c.const_.has_param() {
            return;
        }
        if let Ok(v) = c.const_.eval(self.tcx, self.env, sp) {
            match v {
                mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => self.alloc(p.provenance.alloc_id(), sp),
                mir::ConstValue::Indirect { alloc_id, .. } | mir::ConstValue::Slice { alloc_id, .. } => self.alloc(alloc_id, sp),
                _ => {}
            }
        }
    }
    fn visit_terminator(&mut self, t: &mir::Terminator<'tcx>, l: Location) {
        let sp = self.span(l);
        match &t.kind {
            TerminatorKind::Call { func, .. } | TerminatorKind::TailCall { func, .. } => {
                if !matches!(func.ty(self.body, self.tcx).kind(), ty::FnDef(..)) {
                    self.out.push((Edge::Indirect, sp));
                }
            }
            TerminatorKind::Drop { place, .. } => self.out.push((Edge::Drop(place.ty(self.body, self.tcx).ty), sp)),
            TerminatorKind::InlineAsm { .. } => self.out.push((Edge::Effect("inline assembly"), sp)),
            _ => {}
        }
        self.super_terminator(t, l)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum Node<'tcx> {
    Fn(Instance<'tcx>),
    Drop(Ty<'tcx>),
}

pub fn c28<'tcx>(tcx: TyCtxt<'tcx>, job: &Job, rep: &mut Report) {
    let verbose = std::env::var("QRAI_NAMES").is_ok();
    // 1. the crate itself
    let mut u = Unsafe { tcx, found: vec![] };
    tcx.hir_walk_toplevel_module(&mut u);
    let mut owners = 0;
    for (s, what) in &u.found {
        rep.violation_with(&place(tcx, *s), &format!("{what} in the crate"), &place(tcx, *s));
    }
    let items = tcx.hir_crate_items(());
    for d in items.definitions() {
        let did = d.to_def_id();
        let at = || place(tcx, tcx.def_span(did));
        let what = match tcx.def_kind(did) {
            DefKind::Static { nested: false, .. } => {
                rep.count("statics", 1);
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let env = ty::TypingEnv::post_analysis(tcx, did);
                if tcx.is_mutable_static(did) {
                    Some("mutable static")
                } else if tcx.is_thread_local_static(did) {
                    Some("thread-local static")
                } else if !t.is_freeze(tcx, env) {
                    Some("static with interior mutability")
                } else {
                    None
                }
            }
            DefKind::Fn | DefKind::AssocFn => {
                owners += 1;
                let a = tcx.codegen_fn_attrs(did);
                if a.flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE) || a.symbol_name.is_some() {
                    Some("function under a fixed symbol name")
                } else {
                    None
                }
            }
            _ => None,
        };
        if let Some(w) = what {
            rep.violation_with(&at(), &format!("{w}: {}", tcx.def_path_str(did)), &at());
        }
    }
    if u.found.is_empty() {
        rep.ok();
    }
    rep.count("functions_of_the_crate", owners);
    // 2. everything that can be executed
    let ev = tcx.effective_visibilities(());
    let mut roots: Vec<LocalDefId> = items
        .definitions()
        .filter(|d| matches!(tcx.def_kind(*d), DefKind::Fn | DefKind::AssocFn))
        .filter(|d| tcx.is_mir_available(d.to_def_id()))
        .filter(|d| {
            let p = tcx.local_parent(*d);
            ev.is_reachable(*d) || (matches!(tcx.def_kind(p), DefKind::Impl { of_trait: true }))
        })
        .filter(|d| !DUMPS.contains(&tcx.item_name(d.to_def_id()).as_str()))
        .collect();
    roots.sort_by_key(|d| tcx.def_path_str(d.to_def_id()));
    let mut seen: FxHashSet<Node<'tcx>> = Default::default();
    let mut reported: FxHashSet<String> = Default::default();
    let mut nodes = 0u64;
    for root in roots {
        let name = tcx.def_path_str(root.to_def_id());
        let env = ty::TypingEnv::post_analysis(tcx, root);
        let mut parent: FxHashMap<Node<'tcx>, Option<(Node<'tcx>, Span)>> = Default::default();
        let args = ty::GenericArgs::identity_for_item(tcx, root.to_def_id());
        let args = tcx.erase_and_anonymize_regions(args);
        let start = Node::Fn(Instance::new_raw(root.to_def_id(), args));
        let mut work = vec![start];
        parent.insert(start, None);
        let mut bad = false;
        while let Some(n) = work.pop() {
            let generic = match n {
                Node::Fn(i) => i.has_param(),
                Node::Drop(t) => t.has_param(),
            };
            // what does not depend on the root is looked at once
            if !generic && !seen.insert(n) {
                continue;
            }
            nodes += 1;
            let chain = |last: &str, sp: Span, parent: &FxHashMap<Node<'tcx>, Option<(Node<'tcx>, Span)>>| {
                let mut v = vec![last.to_string()];
                let mut site = (name.clone(), place(tcx, sp));
                let mut at = Some((n, sp));
                let mut found = false;
                while let Some((m, s)) = at {
                    let nm = match m {
                        Node::Fn(i) => tcx.def_path_str(i.def_id()),
                        Node::Drop(t) => format!("drop of {t}"),
                    };
                    if let (Node::Fn(i), false) = (m, found) {
                        if i.def_id().is_local() {
                            site = (nm.clone(), place(tcx, s));
                            found = true;
                        }
                    }
                    v.push(nm);
                    at = parent[&m];
                }
                v.reverse();
                (site, v.join(" -> "))
            };
            let mut edges: Vec<(Edge<'tcx>, Span)> = vec![];
            match n {
                Node::Drop(t) => drop_parts(tcx, env, t, &mut edges),
                Node::Fn(i) => {
                    let d = i.def_id();
                    if !tcx.is_mir_available(d) && !matches!(i.def, InstanceKind::Shim(_)) {
                        continue;
                    }
                    let raw = match i.def {
                        InstanceKind::Item(d) => {
                            if tcx.is_mir_available(d) {
                                tcx.optimized_mir(d)
                            } else {
                                continue;
                            }
                        }
                        InstanceKind::Shim(_) if !generic => tcx.instance_mir(i.def),
                        _ => continue,
                    };
                    let Ok(body) = i.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, raw.clone())) else {
                        rep.count("bodies_not_normalised", 1);
                        continue;
                    };
                    let mut r = Refs { tcx, env, body: &body, out: vec![], seen: Default::default() };
                    r.visit_body(&body);
                    edges = r.out;
                }
            }
            for (e, sp) in edges {
                let mut effect: Option<String> = None;
                let mut next: Option<Node<'tcx>> = None;
                let resolve = |d: DefId, a: ty::GenericArgsRef<'tcx>| -> Option<Instance<'tcx>> { Instance::try_resolve(tcx, env, d, a).ok().flatten() };
                let mut inst: Option<Instance<'tcx>> = None;
                let dump = |d: DefId| d.is_local() && tcx.def_kind(d) != DefKind::Closure && DUMPS.contains(&tcx.item_name(d).as_str());
                let local = match n {
                    Node::Fn(i) => i.def_id().is_local(),
                    _ => false,
                };
                match e {
                    Edge::Fn(d, _) if dump(d) => effect = Some(format!("call of {}", tcx.def_path_str(d))),
                    // one of the methods of a trait object, not called here
                    Edge::Inst(i) if dump(i.def_id()) => {}
                    Edge::Fn(d, a) if tcx.def_path_str_with_args(d, a).contains("RandomState as") || tcx.def_path_str(d).contains("RandomState::new") => {
                        rep.count("hash_seeds", 1);
                        if local {
                            effect = Some(format!("random number: {}", tcx.def_path_str(d)));
                        }
                    }
                    Edge::Fn(d, _) if local && order(&tcx.def_path_str(d)) => effect = Some(format!("order of a hash table: {}", tcx.def_path_str(d))),
                    Edge::Fn(d, a) => match resolve(d, a) {
                        Some(i) => inst = Some(i),
                        None => rep.count("calls_of_the_callers_code", 1),
                    },
                    Edge::Inst(i) => inst = Some(i),
                    Edge::Drop(t) => next = Some(Node::Drop(t)),
                    Edge::Static(d) => {
                        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                        if tcx.is_mutable_static(d) || tcx.is_thread_local_static(d) || !t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized()) {
                            let p = tcx.def_path_str(d);
                            if SEEDS.iter().any(|x| p.starts_with(x)) {
                                rep.count("hash_seeds", 1);
                            } else {
                                effect = Some(format!("global state {p}"));
                            }
                        }
                    }
                    Edge::Effect(w) => {
                        if local {
                            effect = Some(w.to_string());
                        }
                    }
                    Edge::Indirect => rep.count("indirect_calls", 1),
                }
                if let Some(i) = inst {
                    let d = i.def_id();
                    let path = tcx.def_path_str(d);
                    let imp = tcx.opt_associated_item(d).and_then(|_| tcx.impl_of_assoc(d)).map(|im| {
                        let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                        match t.peel_refs().kind() {
                            ty::Adt(a, _) => tcx.def_path_str(a.did()),
                            _ => String::new(),
                        }
                    });
                    if local && order(&path) {
                        effect = Some(format!("order of a hash table: {path}"));
                    } else if denied(&path) || imp.as_deref().is_some_and(denied) {
                        effect = Some(format!("call of {path}"));
                    } else if tcx.is_foreign_item(d) {
                        if !allowed_foreign(tcx.item_name(d).as_str()) {
                            effect = Some(format!("call of the foreign function {path}"));
                        }
                    } else if !tcx.is_closure_like(d) && !d.is_local() && tcx.fn_sig(d).skip_binder().output().skip_binder().is_never() {
                        // the end of a panic
                        rep.count("panic_edges", 1);
                    } else {
                        match i.def {
                            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) | InstanceKind::Virtual(..) => {}
                            InstanceKind::Shim(ty::ShimKind::DropGlue(_, t)) => {
                                if let Some(t) = t {
                                    next = Some(Node::Drop(t))
                                }
                            }
                            _ => next = Some(Node::Fn(i)),
                        }
                    }
                }
                if let Some(w) = effect {
                    bad = true;
                    let ((f, at), c) = chain(&w, sp, &parent);
                    if reported.insert(format!("{f}{w}")) {
                        if verbose {
                            eprintln!("{c}");
                        }
                        rep.violation_with(&format!("{f} ({at})"), &w, &c);
                    }
                } else if let Some(x) = next {
                    if !parent.contains_key(&x) {
                        parent.insert(x, Some((n, sp)));
                        work.push(x);
                    }
                }
            }
            if nodes > 2_000_000 {
                rep.undecided("call graph too large");
                return;
            }
        }
        if !bad {
            rep.ok();
        }
    }
    rep.count("call_graph_nodes", nodes);
    let _ = job;
}

fn allowed_foreign(n: &str) -> bool {
    ["memcpy", "memmove", "memset", "memcmp", "bcmp", "strlen"].contains(&n) || n.starts_with("__rust_") || n.starts_with("__rdl_") || n.starts_with("llvm.") || n.starts_with("miri_")
        || ["floor", "ceil", "sqrt", "fabs", "fmod", "pow", "sin", "cos", "tan", "atan2", "hypot", "cbrt", "exp", "log", "fma", "round", "trunc"].contains(&n.trim_end_matches('f'))
}

/// what dropping a value of this type executes
fn drop_parts<'tcx>(tcx: TyCtxt<'tcx>, env: ty::TypingEnv<'tcx>, t: Ty<'tcx>, out: &mut Vec<(Edge<'tcx>, Span)>) {
    let sp = rustc_span::DUMMY_SP;
    match t.kind() {
        ty::Adt(d, a) => {
            if let Some(x) = tcx.adt_destructor(d.did()) {
                out.push((Edge::Fn(x.did, a), sp));
            }
            if d.is_manually_drop() {
                return;
            }
            if d.is_box() {
                out.push((Edge::Drop(a.type_at(0)), sp));
            }
            for v in d.variants() {
                for f in &v.fields {
                    let ft = tcx.type_of(f.did).instantiate(tcx, a);
                    if let Ok(ft) = tcx.try_normalize_erasing_regions(env, ft) {
                        if ft.needs_drop(tcx, env) {
                            out.push((Edge::Drop(ft), sp));
                        }
                    }
                }
            }
            // containers drop their elements through raw pointers
            for x in a.types() {
                if x.needs_drop(tcx, env) {
                    out.push((Edge::Drop(x), sp));
                }
            }
        }
        ty::Tuple(ts) => ts.iter().for_each(|x| out.push((Edge::Drop(x), sp))),
        ty::Array(x, _) | ty::Slice(x) => out.push((Edge::Drop(*x), sp)),
        ty::Closure(_, a) => a.as_closure().upvar_tys().iter().for_each(|x| out.push((Edge::Drop(x), sp))),
        _ => {}
    }
}
