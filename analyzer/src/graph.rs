//! Queries over the type-checked crate: effects, shared state, unsafe code, and the
//! "initialisation needs" relation between lazily built statics.

use crate::interp::*;
use crate::models::{def_key, fn_key};
use crate::{jlist, js};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::hir::nested_filter;
use rustc_middle::mir::visit::Visitor as _;
use rustc_middle::mir::{self, Location};
use rustc_middle::ty::{self, GenericArg, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;

struct Finding {
    rule: &'static str,
    what: String,
    at: String,
    func: String,
}

struct G<'t> {
    tcx: TyCtxt<'t>,
    out: Vec<Finding>,
    bodies: u64,
    calls: u64,
    external: std::collections::BTreeSet<String>,
}

fn loc(tcx: TyCtxt<'_>, s: Span) -> String {
    let s = s.source_callsite();
    let l = tcx.sess.source_map().lookup_char_pos(s.lo());
    let name = match &l.file.name {
        rustc_span::FileName::Real(r) => match r.local_path() {
            Some(p) => p.display().to_string(),
            None => format!("{:?}", l.file.name),
        },
        n => format!("{n:?}"),
    };
    format!("{}:{}", name, l.line)
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(d))
}

/// Where an external item is defined: crate and module path.
fn is_under(k: &str, p: &str) -> bool {
    k == p || k.strip_prefix(p).is_some_and(|r| r.starts_with("::"))
}

const STD_PURE: &[&str] = &[
    "std::collections",
    "std::hash",
    "std::sync::once",
    "std::sync::once_lock",
    "std::sync::lazy_lock",
    "std::sync::poison::once",
    "std::panicking",
    "std::path",
    "std::ffi",
    "std::error",
    "std::num",
    "std::f32",
    "std::f64",
    "std::ascii",
    "std::macros",
];
const CORE_EFFECTS: &[&str] = &["core::arch", "core::sync::atomic", "core::core_arch"];
const PURE_CRATES: &[&str] = &[
    "alloc", "core", "bitflags", "lazy_static", "ethereum_types", "primitive_types", "uint", "fixed_hash", "ethbloom",
    "impl_rlp", "impl_serde", "impl_codec", "sha2", "sha3", "blake2", "digest", "generic_array", "typenum",
    "block_buffer", "crypto_common", "keccak", "k256", "ecdsa", "elliptic_curve", "signature", "crunchy", "hex",
    "rustc_hex", "byteorder", "static_assertions", "subtle", "cfg_if", "cpufeatures",
];
/// The element key type of the hash container a value of type `t` walks over, when `t` is such a
/// container or an iterator (possibly behind adaptors) whose order is the container's.
fn hash_order<'t>(tcx: TyCtxt<'t>, t: Ty<'t>) -> Option<Ty<'t>> {
    match t.kind() {
        ty::Adt(d, args) => {
            let k = def_key(tcx, d.did());
            if (is_under(&k, "std::collections::hash") && !k.contains("::Entry") && !k.contains("Hasher") && !k.contains("RandomState"))
                || k.starts_with("hashbrown::")
            {
                return Some(args.types().next().unwrap_or(t));
            }
            if k.starts_with("core::iter::") || k.starts_with("core::option") || k.starts_with("alloc::boxed") {
                return args.types().find_map(|a| hash_order(tcx, a));
            }
            None
        }
        ty::Ref(_, t, _) => hash_order(tcx, *t),
        _ => None,
    }
}

fn peel<'t>(mut t: Ty<'t>) -> Ty<'t> {
    while let ty::Ref(_, x, _) = t.kind() {
        t = *x;
    }
    t
}

fn is_container(tcx: TyCtxt<'_>, t: Ty<'_>) -> bool {
    matches!(t.kind(), ty::Adt(d, _) if matches!(
        tcx.item_name(d.did()).as_str(),
        "HashMap" | "HashSet" | "BTreeMap" | "BTreeSet"
    ) && !d.did().is_local())
}

/// A container filled from elements in any order ends up the same: sets always, maps when the
/// keys are those of the source container (so that no two elements compete for one key).
fn unordered_target<'t>(tcx: TyCtxt<'t>, t: Ty<'t>, key: Ty<'t>) -> bool {
    let t = peel(t);
    if !is_container(tcx, t) {
        return false;
    }
    let ty::Adt(d, args) = t.kind() else { return false };
    if tcx.item_name(d.did()).as_str().ends_with("Set") {
        return true;
    }
    peel(args.type_at(0)) == peel(key)
}

/// Elements are passed on one by one, in the source's order, and nothing else happens.
const ADAPTORS: &[&str] = &[
    "map", "filter", "filter_map", "copied", "cloned", "chain", "flat_map", "flatten", "inspect", "fuse", "by_ref",
    "into_iter", "size_hint", "len", "clone", "is_empty",
];
/// The result is the same for every order of the elements.
const UNORDERED: &[&str] = &["all", "any", "count", "max", "min"];

type Ctx<'a, 't> = Option<(&'a mir::Body<'t>, mir::BasicBlock)>;

fn succ<'t>(body: &mir::Body<'t>, b: mir::BasicBlock) -> Vec<mir::BasicBlock> {
    body.basic_blocks[b].terminator().successors().filter(|s| !body.basic_blocks[*s].is_cleanup).collect()
}

fn reach<'t>(body: &mir::Body<'t>, from: mir::BasicBlock) -> std::collections::BTreeSet<mir::BasicBlock> {
    let mut seen = std::collections::BTreeSet::new();
    let mut w = succ(body, from);
    while let Some(b) = w.pop() {
        if seen.insert(b) {
            w.extend(succ(body, b));
        }
    }
    seen
}

#[derive(Default)]
struct Uses {
    read: Vec<mir::Local>,
    written: Vec<mir::Local>,
}
impl<'t> mir::visit::Visitor<'t> for Uses {
    fn visit_local(&mut self, l: mir::Local, c: mir::visit::PlaceContext, _: Location) {
        use mir::visit::{MutatingUseContext as M, PlaceContext as P};
        match c {
            P::NonUse(_) => {}
            P::MutatingUse(M::Store | M::Call) => self.written.push(l),
            P::MutatingUse(M::Drop) => {}
            _ => self.read.push(l),
        }
    }
}

/// Whether the loop driven by the `next` call that ends block `head` does the same whatever the order
/// of the elements: it leaves only when the elements are exhausted (or by a panic), carries nothing from
/// one round to the next, and changes nothing but containers, by insertion.
fn commutative_loop<'t>(tcx: TyCtxt<'t>, body: &mir::Body<'t>, head: mir::BasicBlock, key: Ty<'t>) -> Result<(), String> {
    use std::collections::BTreeSet;
    let from = reach(body, head);
    let lp: BTreeSet<_> = from.iter().copied().filter(|b| *b == head || reach(body, *b).contains(&head)).collect();
    if !from.contains(&head) {
        return Err("a single element is taken".into());
    }
    let mir::TerminatorKind::Call { args, destination, .. } = &body.basic_blocks[head].terminator().kind else {
        return Err("next outside a call".into());
    };
    let opt = destination.local;
    let iter_ref = args.first().and_then(|a| a.node.place()).map(|p| p.local);
    let returns = |b: mir::BasicBlock| {
        let mut r = reach(body, b);
        r.insert(b);
        r.iter().any(|b| matches!(body.basic_blocks[*b].terminator().kind, mir::TerminatorKind::Return))
    };
    let mut after: BTreeSet<mir::BasicBlock> = BTreeSet::new();
    for b in &lp {
        for s in succ(body, *b) {
            if lp.contains(&s) || !returns(s) {
                continue;
            }
            // only the exit taken when there is no further element
            let bd = &body.basic_blocks[*b];
            let ok = match &bd.terminator().kind {
                mir::TerminatorKind::SwitchInt { discr, .. } => discr.place().is_some_and(|p| {
                    bd.statements.iter().any(|st| matches!(&st.kind, mir::StatementKind::Assign(x)
                        if x.0 == p && matches!(&x.1, mir::Rvalue::Discriminant(q) if q.local == opt && q.projection.is_empty())))
                }),
                _ => false,
            };
            if !ok {
                return Err("the loop can be left before the last element".into());
            }
            after.extend(reach(body, s));
            after.insert(s);
        }
    }
    // locals assigned in the loop must not be read after it, nor before they are assigned again
    let mut written: BTreeSet<mir::Local> = BTreeSet::new();
    for b in &lp {
        let mut u = Uses::default();
        u.visit_basic_block_data(*b, &body.basic_blocks[*b]);
        written.extend(u.written);
    }
    for b in &after {
        let mut u = Uses::default();
        u.visit_basic_block_data(*b, &body.basic_blocks[*b]);
        if let Some(l) = u.read.iter().find(|l| written.contains(l) && Some(**l) != iter_ref && **l != opt) {
            return Err(format!("{l:?} is set in the loop and used after it"));
        }
    }
    // definitely assigned since the start of the round
    let mut state: std::collections::BTreeMap<mir::BasicBlock, Option<BTreeSet<mir::Local>>> = lp.iter().map(|b| (*b, None)).collect();
    let head_out: BTreeSet<mir::Local> = [opt].into_iter().collect();
    let mut work = vec![];
    for s in succ(body, head) {
        if lp.contains(&s) && s != head {
            state.insert(s, Some(head_out.clone()));
            work.push(s);
        }
    }
    while let Some(b) = work.pop() {
        let mut d = state[&b].clone().unwrap_or_default();
        let bd = &body.basic_blocks[b];
        for (i, st) in bd.statements.iter().enumerate() {
            let mut u = Uses::default();
            u.visit_statement(st, Location { block: b, statement_index: i });
            d.extend(u.written);
        }
        let mut u = Uses::default();
        u.visit_terminator(bd.terminator(), Location { block: b, statement_index: bd.statements.len() });
        d.extend(u.written);
        for s in succ(body, b) {
            if !lp.contains(&s) || s == head {
                continue;
            }
            let n = match &state[&s] {
                None => d.clone(),
                Some(x) => x.intersection(&d).copied().collect(),
            };
            if state[&s].as_ref() != Some(&n) {
                state.insert(s, Some(n));
                work.push(s);
            }
        }
    }
    for b in &lp {
        let bd = &body.basic_blocks[*b];
        let mut d = if *b == head {
            // what is assigned in the head itself, before the call
            BTreeSet::new()
        } else {
            state[b].clone().unwrap_or_default()
        };
        let mut inserts: Vec<mir::Local> = vec![];
        let is_last_call = |l: mir::Local| -> bool {
            // the one call of this round that receives the borrow
            let call = lp.iter().find_map(|x| match &body.basic_blocks[*x].terminator().kind {
                mir::TerminatorKind::Call { func, args, destination, .. }
                    if args.first().and_then(|a| a.node.place()).map(|p| p.local) == Some(l) => Some((func, args, destination)),
                _ => None,
            });
            let Some((func, args, destination)) = call else { return false };
            let Some((f, _)) = func.const_fn_def() else { return false };
            if tcx.item_name(f).as_str() != "insert" {
                return false;
            }
            let t = peel(args[0].node.ty(body, tcx));
            if !unordered_target(tcx, t, key) {
                return false;
            }
            // what `insert` reports depends on what came before
            let mut used = false;
            for (x, xd) in body.basic_blocks.iter_enumerated() {
                let mut u = Uses::default();
                u.visit_basic_block_data(x, xd);
                used |= u.read.contains(&destination.local);
            }
            !used
        };
        for (i, st) in bd.statements.iter().enumerate() {
            let mut u = Uses::default();
            u.visit_statement(st, Location { block: *b, statement_index: i });
            if let mir::StatementKind::Assign(x) = &st.kind {
                if x.0.is_indirect() {
                    return Err("a write through a reference".into());
                }
                if !x.0.projection.is_empty() && !d.contains(&x.0.local) {
                    return Err("a write into a variable that outlives the round".into());
                }
                if let mir::Rvalue::Ref(_, mir::BorrowKind::Mut { .. }, pl) = &x.1 {
                    let t = x.0.local;
                    let known = d.contains(&pl.local) && !pl.is_indirect();
                    let own = Some(t) == iter_ref || iter_ref.is_some_and(|r| reborrow_of(body, r, t));
                    if !(known || own || is_last_call(t) || inserts.contains(&pl.local)) {
                        return Err("a mutable borrow of a variable that outlives the round".into());
                    }
                    inserts.push(t);
                }
                if let mir::Rvalue::RawPtr(..) = &x.1 {
                    return Err("a raw borrow".into());
                }
            }
            for r in u.read {
                if written.contains(&r) && !d.contains(&r) && Some(r) != iter_ref {
                    return Err(format!("{r:?} is carried from one round to the next"));
                }
            }
            d.extend(u.written);
        }
        if *b != head {
            if let mir::TerminatorKind::Call { args, destination, .. } = &bd.terminator().kind {
                if destination.is_indirect() {
                    return Err("a write through a reference".into());
                }
                for a in args {
                    let t = a.node.ty(body, tcx);
                    if let ty::Ref(_, _, m) = t.kind() {
                        if m.is_mut() {
                            let l = a.node.place().map(|p| p.local);
                            if !l.is_some_and(|l| d.contains(&l)) {
                                return Err("a mutable reference from outside the round is passed on".into());
                            }
                        }
                    }
                }
            }
        }
        let mut u = Uses::default();
        u.visit_terminator(bd.terminator(), Location { block: *b, statement_index: bd.statements.len() });
        for r in u.read {
            if written.contains(&r) && !d.contains(&r) && Some(r) != iter_ref {
                return Err(format!("{r:?} is carried from one round to the next"));
            }
        }
    }
    Ok(())
}

/// `t` is a temporary from which `r` is reborrowed.
fn reborrow_of(body: &mir::Body<'_>, r: mir::Local, t: mir::Local) -> bool {
    body.basic_blocks.iter().any(|b| {
        b.statements.iter().any(|st| matches!(&st.kind, mir::StatementKind::Assign(x)
            if x.0.local == r && matches!(&x.1, mir::Rvalue::Ref(_, _, p) if p.local == t && p.is_indirect())))
    })
}

/// The vector produced at the end of block `b` is sorted before anything else looks at it.
fn sorted_next<'t>(tcx: TyCtxt<'t>, body: &mir::Body<'t>, b: mir::BasicBlock) -> bool {
    let mir::TerminatorKind::Call { destination, target: Some(t), .. } = &body.basic_blocks[b].terminator().kind else {
        return false;
    };
    let mut derived: std::collections::BTreeSet<mir::Local> = [destination.local].into_iter().collect();
    let mut cur = *t;
    for _ in 0..12 {
        let bd = &body.basic_blocks[cur];
        for (i, st) in bd.statements.iter().enumerate() {
            let mut u = Uses::default();
            u.visit_statement(st, Location { block: cur, statement_index: i });
            if u.read.iter().any(|l| derived.contains(l)) {
                derived.extend(u.written);
            }
        }
        match &bd.terminator().kind {
            mir::TerminatorKind::Goto { target, .. } => cur = *target,
            mir::TerminatorKind::Call { func, args, destination, target: Some(t), .. } => {
                let touches = args.iter().any(|a| a.node.place().is_some_and(|p| derived.contains(&p.local)));
                let Some((f, _)) = func.const_fn_def() else { return false };
                let n = tcx.item_name(f);
                if touches {
                    match n.as_str() {
                        "sort" | "sort_unstable" => return true,
                        "deref_mut" | "as_mut_slice" | "as_mut" => {
                            derived.insert(destination.local);
                        }
                        _ => return false,
                    }
                }
                cur = *t;
            }
            _ => return false,
        }
    }
    false
}

fn mentions_hash_container<'t>(tcx: TyCtxt<'t>, t: Ty<'t>) -> bool {
    t.walk().any(|a| match a.kind() {
        ty::GenericArgKind::Type(t) => {
            matches!(t.kind(), ty::Adt(d, _) if { let k = def_key(tcx, d.did()); k.ends_with("::HashMap") || k.ends_with("::HashSet") })
        }
        _ => false,
    })
}

impl<'t> G<'t> {
    fn add(&mut self, rule: &'static str, what: String, s: Span, f: DefId) {
        let at = loc(self.tcx, s);
        let func = path(self.tcx, f);
        self.out.push(Finding { rule, what, at, func });
    }

    /// Whether what this call does with the elements depends on their order.
    fn order_matters(&self, d: DefId, args: ty::GenericArgsRef<'t>, did: DefId, key: Ty<'t>, ctx: Ctx<'_, 't>) -> Result<(), String> {
        let tcx = self.tcx;
        if did.is_local() {
            return Err("passed to a function that treats it as any sequence".into());
        }
        let name = tcx.item_name(d);
        let name = name.as_str();
        let tr = tcx.trait_of_assoc(d).map(|t| tcx.item_name(t).to_string()).unwrap_or_default();
        match (tr.as_str(), name) {
            ("Iterator" | "IntoIterator" | "Clone" | "ExactSizeIterator", n) if ADAPTORS.contains(&n) || UNORDERED.contains(&n) => {
                if stateful(tcx, args) {
                    return Err("the closure keeps state from one element to the next".into());
                }
                Ok(())
            }
            ("Iterator", "sum" | "product") => match args.types().last().map(|t| t.kind()) {
                Some(ty::Uint(_) | ty::Int(_)) => Ok(()),
                _ => Err("not an integer sum".into()),
            },
            ("Iterator", "collect") => {
                let Some(t) = args.types().last() else { return Err("collect".into()) };
                if unordered_target(tcx, t, key) {
                    return Ok(());
                }
                if adt_name(tcx, t) == "Vec" && ctx.is_some_and(|(b, bb)| sorted_next(tcx, b, bb)) {
                    return Ok(());
                }
                Err(format!("collected into {t}"))
            }
            ("Extend" | "FromIterator", _) => {
                let Some(t) = args.types().next() else { return Err(name.into()) };
                if unordered_target(tcx, t, key) {
                    return Ok(());
                }
                Err(format!("collected into {t}"))
            }
            ("Iterator", "next") => match ctx {
                Some((b, bb)) => commutative_loop(tcx, b, bb, key),
                None => Err("next".into()),
            },
            _ => Err(format!("{name} looks at the elements in order")),
        }
    }

    fn callee(&mut self, owner: LocalDefId, d: DefId, args: ty::GenericArgsRef<'t>, s: Span, ctx: Ctx<'_, 't>) {
        let tcx = self.tcx;
        self.calls += 1;
        let f = owner.to_def_id();
        let env = TypingEnv::post_analysis(tcx, f);
        let mut did = d;
        let mut dargs = args;
        if !args.has_escaping_bound_vars() {
            let args = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, args) {
                did = i.def_id();
                dargs = i.args;
            }
        }
        if tcx.is_foreign_item(did) {
            self.add("foreign function", path(tcx, did), s, f);
            return;
        }
        // iterating a hash container through any `IntoIterator`/`Iterator`/`Debug` bound
        for (dd, aa) in [(d, args), (did, dargs)] {
            for (p, _) in tcx.clauses_of(dd).instantiate(tcx, aa) {
                let p = p.skip_norm_wip();
                if let ty::ClauseKind::Trait(tp) = p.kind().skip_binder() {
                    let n = tcx.item_name(tp.def_id());
                    let n = n.as_str();
                    let st = tp.self_ty();
                    if matches!(n, "IntoIterator" | "Iterator") {
                        if let Some(key) = hash_order(tcx, st) {
                            if let Err(why) = self.order_matters(d, args, did, key, ctx) {
                                self.add("hash container iterated in its unspecified order", format!("{} over {}: {why}", path(tcx, d), st), s, f);
                                return;
                            }
                        }
                    }
                    if matches!(n, "Hash" | "Ord" | "PartialOrd" | "Debug" | "Pointer") && mentions_pointer(tcx, st) {
                        self.add("address made visible", format!("{} of {}", path(tcx, d), st), s, f);
                        return;
                    }
                    if n == "Debug" && !did.is_local() && mentions_hash_container(tcx, st) {
                        self.add("hash container printed in its unspecified order", format!("{} of {}", path(tcx, d), st), s, f);
                        return;
                    }
                    if n == "BuildHasher" && did.krate != tcx.crate_name_krate("std") && !is_std_hash(tcx, did) {
                        if let ty::Adt(a, _) = st.kind() {
                            if tcx.item_name(a.did()).as_str() == "RandomState" {
                                self.add("randomly keyed hash", path(tcx, d), s, f);
                                return;
                            }
                        }
                    }
                }
            }
        }
        if did.is_local() {
            return;
        }
        let k = def_key(tcx, did);
        self.external.insert(fn_key(tcx, did));
        let krate = tcx.crate_name(did.krate).to_string();
        let name = tcx.opt_item_name(did).map(|n| n.to_string()).unwrap_or_default();
        if is_under(&k, "std::collections::hash") && (name == "fmt" || (matches!(name.as_str(), "retain" | "extract_if") && stateful(tcx, dargs))) {
            self.add("hash container iterated in its unspecified order", path(tcx, did), s, f);
            return;
        }
        if k.contains("RandomState") || fn_key(tcx, did).contains("RandomState|") {
            self.add("randomly keyed hash", path(tcx, did), s, f);
            return;
        }
        let pointer_method = k.contains("ptr::const_ptr") || k.contains("ptr::mut_ptr") || k.contains("ptr::non_null") || k.starts_with("core::slice") || k.starts_with("core::str");
        if (name == "new_pointer" && k.starts_with("core::fmt"))
            || (name == "hash" && fn_key(tcx, did).ends_with("ptr::hash"))
            || (pointer_method && matches!(name.as_str(), "align_offset" | "addr" | "expose_provenance" | "is_aligned" | "is_aligned_to" | "align_to" | "align_to_mut"))
        {
            self.add("address made visible", path(tcx, did), s, f);
            return;
        }
        let lname = name.to_lowercase();
        if lname.contains("random") || lname.contains("thread_rng") || lname.contains("getrandom") {
            self.add("randomness", path(tcx, did), s, f);
            return;
        }
        let ok = match krate.as_str() {
            "std" => STD_PURE.iter().any(|p| is_under(&k, p)),
            "core" => !CORE_EFFECTS.iter().any(|p| is_under(&k, p)),
            c => PURE_CRATES.contains(&c),
        };
        if !ok {
            self.add("operation outside pure computation", path(tcx, did), s, f);
        }
        // a cache filled from the arguments of whoever comes first
        if matches!(name.as_str(), "get_or_init" | "get_or_try_init" | "set" | "call_once" | "get_mut_or_init") && is_under(&k, "std::sync") {
            let captures = dargs.types().any(|t| match t.kind() {
                ty::Closure(_, a) => !a.as_closure().upvar_tys().is_empty(),
                _ => false,
            });
            if captures || name == "set" || name == "call_once" {
                self.add("global state filled from call arguments", path(tcx, did), s, f);
            }
        }
    }
}

fn adt_name(tcx: TyCtxt<'_>, t: Ty<'_>) -> String {
    match t.kind() {
        ty::Adt(d, _) => tcx.item_name(d.did()).to_string(),
        _ => String::new(),
    }
}

/// A closure among the arguments that can change what it captured.
fn stateful<'t>(tcx: TyCtxt<'t>, args: ty::GenericArgsRef<'t>) -> bool {
    struct W(bool);
    impl<'t> mir::visit::Visitor<'t> for W {
        fn visit_local(&mut self, l: mir::Local, c: mir::visit::PlaceContext, _: Location) {
            if l.as_u32() == 1 && matches!(c, mir::visit::PlaceContext::MutatingUse(_)) {
                self.0 = true;
            }
        }
    }
    args.types().any(|t| match t.kind() {
        ty::Closure(d, a) => {
            if a.as_closure().kind() == ty::ClosureKind::Fn || a.as_closure().upvar_tys().is_empty() {
                return false;
            }
            if !d.is_local() || a.as_closure().upvar_tys().iter().any(|t| matches!(t.kind(), ty::Ref(_, _, m) if m.is_mut())) {
                return true;
            }
            let mut w = W(false);
            w.visit_body(tcx.optimized_mir(*d));
            w.0
        }
        _ => false,
    })
}

trait CrateByName {
    fn crate_name_krate(&self, n: &str) -> rustc_hir::def_id::CrateNum;
}
impl CrateByName for TyCtxt<'_> {
    fn crate_name_krate(&self, n: &str) -> rustc_hir::def_id::CrateNum {
        for c in self.crates(()) {
            if self.crate_name(*c).as_str() == n {
                return *c;
            }
        }
        rustc_hir::def_id::LOCAL_CRATE
    }
}
fn is_std_hash(tcx: TyCtxt<'_>, d: DefId) -> bool {
    is_under(&def_key(tcx, d), "std::collections")
}

struct V<'a, 't> {
    g: &'a mut G<'t>,
    owner: LocalDefId,
    body: &'a mir::Body<'t>,
}

impl<'a, 't> mir::visit::Visitor<'t> for V<'a, 't> {
    fn visit_const_operand(&mut self, c: &mir::ConstOperand<'t>, l: Location) {
        let s = self.body.source_info(l).span;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            let bd = &self.body.basic_blocks[l.block];
            let ctx = match &bd.terminator().kind {
                mir::TerminatorKind::Call { func: mir::Operand::Constant(f), .. }
                    if l.statement_index == bd.statements.len() && std::ptr::eq(&**f, c) =>
                {
                    Some((self.body, l.block))
                }
                _ => None,
            };
            self.g.callee(self.owner, *d, args.no_bound_vars().unwrap_or_else(|| args.skip_binder()), s, ctx);
        }
        self.super_const_operand(c, l);
    }
    fn visit_terminator(&mut self, t: &mir::Terminator<'t>, l: Location) {
        if let mir::TerminatorKind::InlineAsm { .. } = t.kind {
            self.g.add("inline assembly", String::new(), t.source_info.span, self.owner.to_def_id());
        }
        self.super_terminator(t, l);
    }
    fn visit_rvalue(&mut self, r: &mir::Rvalue<'t>, l: Location) {
        let s = self.body.source_info(l).span;
        let f = self.owner.to_def_id();
        match r {
            mir::Rvalue::ThreadLocalRef(d) => self.g.add("thread-local state", path(self.g.tcx, *d), s, f),
            mir::Rvalue::Cast(mir::CastKind::PointerExposeProvenance, ..) => {
                self.g.add("address made visible", "pointer to integer cast".into(), s, f)
            }
            mir::Rvalue::BinaryOp(mir::BinOp::Lt | mir::BinOp::Le | mir::BinOp::Gt | mir::BinOp::Ge | mir::BinOp::Cmp, ab)
                if mentions_pointer(self.g.tcx, ab.0.ty(self.body, self.g.tcx)) =>
            {
                self.g.add("address made visible", "pointers ordered".into(), s, f)
            }
            mir::Rvalue::Cast(mir::CastKind::PointerCoercion(ty::adjustment::PointerCoercion::Unsize, _), o, to) => {
                let from = o.ty(self.body, self.g.tcx);
                if hash_order(self.g.tcx, from).is_some() && hash_order(self.g.tcx, *to).is_none() {
                    self.g.add("hash container iterated in its unspecified order", format!("{from} made a trait object"), s, f)
                }
            }
            _ => {}
        }
        self.super_rvalue(r, l);
    }
}

struct U<'a, 't> {
    g: &'a mut G<'t>,
    owner: LocalDefId,
}
impl<'a, 't> Visitor<'t> for U<'a, 't> {
    type NestedFilter = nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'t> {
        self.g.tcx
    }
    fn visit_block(&mut self, b: &'t rustc_hir::Block<'t>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            if !b.span.in_external_macro(self.g.tcx.sess.source_map()) {
                self.g.add("unsafe code", "unsafe block".into(), b.span, self.owner.to_def_id());
            }
        }
        intravisit::walk_block(self, b);
    }
}

/// Does comparing, hashing or printing a value of this type look at an address?
fn mentions_pointer<'t>(tcx: TyCtxt<'t>, t: Ty<'t>) -> bool {
    match t.kind() {
        ty::RawPtr(..) | ty::FnPtr(..) => true,
        ty::Adt(_, args) => match adt_name(tcx, t).as_str() {
            "NonNull" | "AtomicPtr" => true,
            "PhantomData" => false,
            _ => args.types().any(|t| mentions_pointer(tcx, t)),
        },
        ty::Ref(_, t, _) | ty::Array(t, _) | ty::Slice(t) => mentions_pointer(tcx, *t),
        ty::Tuple(ts) => ts.iter().any(|t| mentions_pointer(tcx, t)),
        _ => false,
    }
}

fn once_like(tcx: TyCtxt<'_>, t: Ty<'_>) -> bool {
    match t.kind() {
        ty::Adt(d, _) => {
            let k = def_key(tcx, d.did());
            matches!(
                k.as_str(),
                "lazy_static::lazy::Lazy" | "std::sync::lazy_lock::LazyLock" | "std::sync::once_lock::OnceLock"
            )
        }
        _ => false,
    }
}

/// Interior mutability anywhere in what a static can reach, other than the once wrapper itself.
pub fn mutable_inside<'t>(tcx: TyCtxt<'t>, t: Ty<'t>) -> Option<String> {
    fn go<'t>(tcx: TyCtxt<'t>, t: Ty<'t>, seen: &mut Vec<Ty<'t>>) -> Option<String> {
        if seen.contains(&t) {
            return None;
        }
        seen.push(t);
        match t.kind() {
            ty::Adt(d, args) => {
                let k = def_key(tcx, d.did());
                if once_like(tcx, t) {
                    return go(tcx, args.type_at(0), seen);
                }
                if k.starts_with("core::cell::") || k.starts_with("core::sync::atomic::")
                    || (k.starts_with("std::sync::") && !k.starts_with("std::sync::once"))
                {
                    return Some(t.to_string());
                }
                for a in args.types() {
                    if let Some(x) = go(tcx, a, seen) {
                        return Some(x);
                    }
                }
                if d.did().is_local() {
                    for f in d.all_fields() {
                        let ft = tcx.type_of(f.did).instantiate(tcx, args).skip_norm_wip();
                        if let Some(x) = go(tcx, ft, seen) {
                            return Some(x);
                        }
                    }
                }
                None
            }
            ty::Ref(_, t, _) | ty::Slice(t) | ty::Array(t, _) | ty::RawPtr(t, _) => go(tcx, *t, seen),
            ty::Tuple(ts) => ts.iter().find_map(|t| go(tcx, t, seen)),
            _ => None,
        }
    }
    go(tcx, t, &mut vec![])
}

pub fn report(tcx: TyCtxt<'_>, repo: &str) -> String {
    let mut g = G { tcx, out: vec![], bodies: 0, calls: 0, external: Default::default() };
    let mut statics = vec![];
    for d in tcx.hir_body_owners() {
        let kind = tcx.def_kind(d);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                g.bodies += 1;
                let body = tcx.optimized_mir(d);
                V { g: &mut g, owner: d, body }.visit_body(body);
                if kind != DefKind::Closure {
                    let out = body.local_decls[mir::RETURN_PLACE].ty;
                    if hash_order(tcx, out).is_some() && !is_container(tcx, peel(out)) && tcx.visibility(d).is_public() {
                        g.add("hash container iterated in its unspecified order", format!("{out} is returned to callers"), tcx.def_span(d), d.to_def_id());
                    }
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                    let span = tcx.def_span(d);
                    if sig.safety().is_unsafe() && !span.in_external_macro(tcx.sess.source_map()) {
                        g.add("unsafe code", "unsafe fn".into(), span, d.to_def_id());
                    }
                    let hb = tcx.hir_body_owned_by(d);
                    U { g: &mut g, owner: d }.visit_body(hb);
                }
            }
            DefKind::Static { mutability, .. } => {
                statics.push(d.to_def_id());
                let span = tcx.def_span(d);
                if mutability.is_mut() {
                    g.add("mutable static", path(tcx, d.to_def_id()), span, d.to_def_id());
                }
                if tcx.is_thread_local_static(d.to_def_id()) {
                    g.add("thread-local state", path(tcx, d.to_def_id()), span, d.to_def_id());
                }
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let t = tcx.erase_and_anonymize_regions(t);
                if let Some(x) = mutable_inside(tcx, t) {
                    g.add("shared mutable state", format!("{} holds {x}", path(tcx, d.to_def_id())), span, d.to_def_id());
                }
            }
            _ => {}
        }
    }
    // values taken from the build environment
    {
        let e = tcx.sess.env_depinfo.borrow();
        let mut names: Vec<String> = e.iter().map(|x| x.0.to_string()).collect();
        names.sort();
        for n in names {
            if !n.starts_with("CARGO_") {
                g.out.push(Finding { rule: "build environment read", what: n, at: String::new(), func: String::new() });
            }
        }
    }
    // force every lazily initialised static from its declared (uninitialised) state
    let mut it = Interp::new(tcx, repo);
    let mut lazies = vec![];
    let deref = tcx.lang_items().deref_trait().unwrap();
    let skip = std::env::var("ZKABS_LAZY").as_deref() == Ok("0");
    for d in statics.iter().filter(|_| !skip) {
        let t = tcx.type_of(*d).instantiate_identity().skip_norm_wip();
        let t = tcx.erase_and_anonymize_regions(t);
        let lockish = matches!(t.kind(), ty::Adt(a, _) if def_key(tcx, a.did()) == "std::sync::lazy_lock::LazyLock");
        let local_deref = matches!(t.kind(), ty::Adt(a, _) if a.did().is_local())
            && it.trait_fn(deref, "deref", &[GenericArg::from(t)]).is_ok();
        if !lockish && !local_deref {
            continue;
        }
        it.pc = crate::bdd::T;
        it.failures.clear();
        it.lazy_edges.clear();
        let r = (|| {
            let c = it.static_cell(*d)?;
            let i = it.trait_fn(deref, "deref", &[t.into()])?;
            it.call(i, vec![crate::value::Value::refv(c, vec![], crate::value::Meta::None)], false)
        })();
        let mut abort = String::from("null");
        let mut done = false;
        match &r {
            Err(Abort(m)) => {
                abort = js(m);
            }
            Ok(x) => done = x.is_some(),
        }
        let fails: Vec<String> = it
            .failures
            .iter()
            .map(|f| format!("{{\"kind\":{},\"msg\":{},\"at\":{},\"func\":{},\"undecided\":{}}}", js(&f.kind), js(&f.msg), js(&f.at), js(&f.func), f.undecided))
            .collect();
        let name_of = |it: &Interp, c: u32| {
            it.static_cells.iter().find(|x| *x.1 == c).map(|x| path(tcx, *x.0)).unwrap_or_else(|| format!("cell {c}"))
        };
        let edges: Vec<String> = it
            .lazy_edges
            .iter()
            .map(|(a, b)| format!("[{},{}]", js(&a.map(|a| name_of(&it, a)).unwrap_or_else(|| "first access".into())), js(&name_of(&it, *b))))
            .collect();
        if r.is_err() {
            it.reset();
        }
        lazies.push(format!(
            "{{\"name\":{},\"completed\":{},\"abort\":{},\"failures\":{},\"needs\":{}}}",
            js(&path(tcx, *d)),
            done,
            abort,
            jlist(fails),
            jlist(edges)
        ));
    }
    let f: Vec<String> = g
        .out
        .iter()
        .map(|f| format!("{{\"rule\":{},\"what\":{},\"at\":{},\"func\":{}}}", js(f.rule), js(&f.what), js(&f.at), js(&f.func)))
        .collect();
    format!(
        "{{\"bodies\":{},\"calls\":{},\"statics\":{},\"external\":{},\"findings\":{},\"lazies\":{},\"steps\":{},\"obligations\":{}}}\n",
        g.bodies,
        g.calls,
        statics.len(),
        jlist(g.external.iter().map(|s| js(s))),
        jlist(f),
        jlist(lazies),
        it.steps,
        it.obligations
    )
}
