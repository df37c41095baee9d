//! Transfer functions for library items: containers, lazily initialised statics, digest
//! functions, intrinsics, and the vocabulary of the specification crate.

use crate::bdd::*;
use crate::consts::Src;
use crate::interp::*;
use crate::lower::*;
use crate::value::*;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::BinOp;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt};
use std::cmp::Ordering;
use std::rc::Rc;

pub type Model = for<'t> fn(&mut Interp<'t>, Instance<'t>, Vec<Value<'t>>) -> Res<Option<Value<'t>>>;

pub fn def_key(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

fn ty_key(tcx: TyCtxt<'_>, t: Ty<'_>) -> String {
    match t.kind() {
        ty::Adt(d, _) => def_key(tcx, d.did()),
        ty::Ref(_, p, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, ty_key(tcx, *p)),
        ty::RawPtr(p, _) => format!("*{}", ty_key(tcx, *p)),
        ty::Slice(_) => "[]".into(),
        ty::Array(..) => "[;]".into(),
        ty::Str => "str".into(),
        ty::Param(_) => "T".into(),
        ty::Tuple(_) => "()".into(),
        ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => t.to_string(),
        ty::Dynamic(..) => "dyn".into(),
        _ => "?".into(),
    }
}

pub fn fn_key(tcx: TyCtxt<'_>, d: DefId) -> String {
    if tcx.is_closure_like(d) {
        return String::new();
    }
    let p = match tcx.opt_parent(d) {
        Some(p) => p,
        None => return def_key(tcx, d),
    };
    let name = match tcx.opt_item_name(d) {
        Some(n) => n,
        None => return def_key(tcx, d),
    };
    match tcx.def_kind(p) {
        DefKind::Impl { of_trait } => {
            let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
            let sk = ty_key(tcx, st);
            if of_trait {
                let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                format!("{sk}|{}::{name}", tcx.item_name(tr.def_id))
            } else {
                format!("{sk}|{name}")
            }
        }
        DefKind::Trait => format!("{}|{name}", tcx.item_name(p)),
        _ => def_key(tcx, d),
    }
}

fn m<'t>(f: Model) -> Option<Disp<'t>> {
    Some(Disp::Model(f))
}

const VEC: &str = "alloc::vec::Vec|";
const DEQUE: &str = "alloc::collections::vec_deque::VecDeque|";
const LINKED: &str = "alloc::collections::linked_list::LinkedList|";
const HMAP: &str = "std::collections::hash::map::HashMap|";
const HSET: &str = "std::collections::hash::set::HashSet|";
const BMAP: &str = "alloc::collections::btree::map::BTreeMap|";
const BSET: &str = "alloc::collections::btree::set::BTreeSet|";

pub fn lookup<'t>(it: &mut Interp<'t>, k: &str, inst: Instance<'t>) -> Option<Disp<'t>> {
    if let Some((c, op)) = k.rsplit_once('|') {
        // the models of these do not run the destructors of what they discard
        let discards = matches!(op, "clear" | "truncate" | "resize" | "resize_with" | "retain" | "retain_mut" | "drain" | "splice")
            || op.starts_with("dedup")
            || (op == "insert" && !c.starts_with("alloc::vec"));
        if discards && (c.starts_with("alloc::vec") || c.starts_with("alloc::collections") || c.starts_with("std::collections")) {
            let l: Vec<Ty<'t>> = inst.args.types().collect();
            if l.into_iter().any(|t| !matches!(t.kind(), ty::Closure(..)) && it.drop_effect(t) != crate::lower::DropEffect::None) {
                return m(|it, _, _| Err(it.abort("a container discarding values whose destructor has an effect")));
            }
        }
    }
    let tcx = it.tcx;
    if let Some(r) = k.strip_prefix(VEC) {
        return vec_lookup(it, r, inst);
    }
    for p in [DEQUE, LINKED] {
        if let Some(r) = k.strip_prefix(p) {
            return deque_lookup(it, r, inst);
        }
    }
    for (p, sorted) in [(HMAP, false), (BMAP, true)] {
        if let Some(r) = k.strip_prefix(p) {
            return map_lookup(it, r, inst, sorted);
        }
    }
    for (p, sorted) in [(HSET, false), (BSET, true)] {
        if let Some(r) = k.strip_prefix(p) {
            return set_lookup(it, r, inst, sorted);
        }
    }
    if k.starts_with("std::collections::hash::") || k.starts_with("alloc::collections::btree::") || k.starts_with("alloc::vec::drain::Drain|") || k.starts_with("alloc::vec::splice::Splice|") || k.starts_with("alloc::collections::vec_deque::") || k.starts_with("alloc::collections::linked_list::") {
        if let Some(r) = entry_lookup(k) {
            return Some(r);
        }
        if k.ends_with("|Iterator::next") {
            return m(list_next);
        }
        if k.ends_with("|DoubleEndedIterator::next_back") {
            return m(list_next_back);
        }
        if k.ends_with("|Iterator::size_hint") {
            return m(list_size_hint);
        }
        if k.ends_with("|Clone::clone") {
            return m(|it, _, a| Ok(Some(it.load_ref(&a[0])?)));
        }
        // every other iterator method: the default written in terms of `next`
        if k.contains("|Iterator::") || k.contains("|DoubleEndedIterator::") || k.contains("|ExactSizeIterator::") {
            if let Some(i) = trait_default(tcx, inst) {
                return Some(Disp::Mir(i));
            }
        }
    }
    if k.ends_with("|PartialEq::eq") || k.ends_with("|PartialEq::ne") {
        if let Some(a) = inst.args.types().next() {
            let _ = a;
        }
        // both sides of one type with structural equality
        if let InstanceKind::Item(d) = inst.def {
            let sig = tcx.fn_sig(d).instantiate(tcx, inst.args).skip_norm_wip();
            let sig = tcx.normalize_erasing_late_bound_regions(env(), sig);
            let ins = sig.inputs();
            if ins.len() == 2 {
                let (a, b) = (strip_ref(ins[0]), strip_ref(ins[1]));
                let (a, b) = (strip_ref(a), strip_ref(b));
                if structural(tcx, a) && structural(tcx, b) && seqish(tcx, a) == seqish(tcx, b) {
                    return if k.ends_with("::eq") { m(eq_model) } else { m(ne_model) };
                }
            }
        }
    }
    if k.ends_with("|Clone::clone") {
        if let InstanceKind::Item(d) = inst.def {
            let sig = tcx.fn_sig(d).instantiate(tcx, inst.args).skip_norm_wip();
            let sig = tcx.normalize_erasing_late_bound_regions(env(), sig);
            let t = sig.output();
            // a `Copy` type outside the analysed crate is copied
            if tcx.type_is_copy_modulo_regions(env(), t) && !it.is_repo(d) {
                return m(|it, _, a| Ok(Some(it.load_ref(&a[0])?)));
            }
        }
    }
    Some(match k {
        // ---- vocabulary of the specifications
        "zkspec::rt::any" => return m(spec_any),
        "zkspec::rt::assume" => return m(spec_assume),
        "zkspec::rt::prove" => return m(spec_prove),
        "zkspec::rt::cover" => return m(spec_cover),
        "zkspec::rt::catch" => return m(spec_catch),
        "zkspec::rt::is_const" => return m(|it, _, a| {
            let v = it.load_ref(&a[0])?;
            let mut k = vec![];
            Ok(Some(Value::bool(it.const_key(&v, &mut k))))
        }),
        "std::panicking::panic_count::count_is_zero" | "std::rt::panic_count::count_is_zero" => return m(|_, _, _| Ok(Some(Value::bool(true)))),
        "core::ptr::swap_nonoverlapping" => return m(|it, _, a| {
            let Some(n) = a[2].as_const() else { return Err(it.unknown("swap of unknown extent")) };
            for i in 0..n as u64 {
                let (p, q) = if i == 0 && n == 1 {
                    (a[0].clone(), a[1].clone())
                } else {
                    let k = Value::usize(i);
                    (it.ptr_offset(&a[0], &k)?, it.ptr_offset(&a[1], &k)?)
                };
                let x = it.load_ref(&p)?;
                let y = it.load_ref(&q)?;
                it.store_ref(&p, y)?;
                it.store_ref(&q, x)?;
            }
            Ok(Some(Value::unit()))
        }),
        // freed memory is never handed out again
        "alloc::alloc::__rust_dealloc" | "alloc::alloc::dealloc" | "alloc::alloc::dealloc_nonnull" => return m(|_, _, _| Ok(Some(Value::unit()))),
        // a pointer to something allocated is no placeholder
        "alloc::rc::is_dangling" | "alloc::rcs::rc::is_dangling" => return m(|it, _, a| match &a[0] {
            Value::Ref(_) => Ok(Some(Value::bool(false))),
            _ => Err(it.abort("weak pointer to nothing")),
        }),
        "zkspec::rt::note" => return m(|it, _, a| {
            let s = it.str_of(&a[0]).unwrap_or_default();
            let v = it.load_ref(&a[1])?;
            let t = it.show(&v);
            it.notes.insert(s, t);
            Ok(Some(Value::unit()))
        }),
        "zkspec::rt::hash_of" => return m(|it, inst, a| {
            let t = inst.args.type_at(0);
            let bytes = it.seq_of_slice(&a[0])?;
            Ok(Some(it.digest(&t.to_string(), bytes)?))
        }),
        "zkspec::rt::numbered" => return m(|it, _, a| {
            let Some(n) = a[0].as_const() else { return Err(it.abort("unknown number of words")) };
            let mut w = Vec::with_capacity(n as usize);
            for i in 0..n as u64 {
                let mut f = vec![Value::Int(8, 0); 32];
                for k in 0..4 {
                    f[k] = Value::Int(8, ((i >> (24 - 8 * k)) & 255) as u128);
                    f[31 - k] = Value::Int(8, (!(i >> (8 * k)) & 255) as u128);
                }
                w.push(Value::agg(f));
            }
            let c = it.alloc(Value::agg(w));
            Ok(Some(Value::refv(c, vec![], Meta::Slice(Value::usize(0), Value::usize(n as u64)))))
        }),
        "zkspec::rt::arbitrary_words" => return m(|it, _, a| {
            let Some(n) = a[0].as_const() else { return Err(it.abort("unknown number of words")) };
            let mut w = Vec::with_capacity(n as usize);
            for i in 0..n as u64 {
                let mut f = Vec::with_capacity(32);
                // one fixed sequence, in a range of variables of its own
                let first = 0x4000_0000 + 256 * i as u32;
                for k in 0..32 {
                    f.push(Dom::from_bits((0..8).map(|b| it.dom.bdd.var(first + 8 * k + b)).collect()));
                }
                if n <= 1 << 12 {
                    it.leaves.push(crate::interp::Leaf { name: format!("words[{i}]"), bits: (first..first + 256).collect() });
                }
                w.push(Value::agg(f));
            }
            let c = it.alloc(Value::agg(w));
            Ok(Some(Value::refv(c, vec![], Meta::Slice(Value::usize(0), Value::usize(n as u64)))))
        }),
        "zkspec::rt::constants_between" => return m(|it, _, a| {
            let (Some(lo), Some(hi)) = (a[0].as_const(), a[1].as_const()) else { return Err(it.abort("bounds")) };
            let mut c = std::collections::BTreeSet::new();
            let fs: Vec<_> = it.funcs.values().filter(|f| f.is_repo).cloned().collect();
            for f in fs {
                f.constants(&mut c);
            }
            let v: Vec<_> = c.into_iter().filter(|x| *x >= lo && *x <= hi).map(|x| Value::usize(x as u64)).collect();
            let n = v.len() as u64;
            let c = it.alloc(Value::agg(v));
            Ok(Some(Value::refv(c, vec![], Meta::Slice(Value::usize(0), Value::usize(n)))))
        }),
        "zkspec::rt::hash_words" => return m(|it, inst, a| {
            let w = it.seq_of_slice(&a[0])?;
            let mut b = Vec::with_capacity(w.len() * 32);
            for x in w {
                b.extend(it.bytes_of(&x)?);
            }
            let n = inst.args.type_at(0).to_string();
            Ok(Some(it.digest(&n, b)?))
        }),
        "zkspec::rt::opaque" => return m(|it, _, a| {
            // a slice of the given (undetermined) length whose contents are never known
            let c = it.alloc(Value::top("contents of an opaque slice"));
            Ok(Some(Value::refv(c, vec![], Meta::Slice(Value::usize(0), a[0].clone()))))
        }),
        "zkspec::rt::output" => return m(|it, _, _| {
            let s = it.sink.clone();
            Ok(Some(Value::Seq(Rc::new(s))))
        }),

        // ---- boxes
        "alloc::boxed::Box|new" | "alloc::boxed::box_new" => return m(|it, _, mut a| {
            let c = it.alloc(a.pop().unwrap());
            Ok(Some(boxed(c)))
        }),
        "alloc::boxed::Box|new_uninit" | "alloc::boxed::Box|new_zeroed" => return m(|it, _, _| {
            let c = it.alloc(Value::Uninit);
            Ok(Some(boxed(c)))
        }),
        "alloc::boxed::Box|write" => return m(|it, _, a| {
            let p = box_ptr(&a[0]);
            it.store_ref(&p, a[1].clone())?;
            Ok(Some(a[0].clone()))
        }),
        "alloc::boxed::Box|Clone::clone" => {
            if matches!(inst.args.type_at(0).kind(), ty::Dynamic(..) | ty::Slice(_) | ty::Str) {
                return None;
            }
            return m(|it, inst, a| {
                let t = inst.args.type_at(0);
                let b = it.load_ref(&a[0])?;
                let p = box_ptr(&b);
                let Some(v) = it.clone_val(t, &p)? else { return Ok(None) };
                let c = it.alloc(v);
                Ok(Some(boxed(c)))
            });
        }
        "alloc::boxed::box_assume_init_into_vec_unsafe" => return m(|it, inst, a| {
            let p = box_ptr(&a[0]);
            let v = it.load_ref(&p)?;
            if let Value::Uninit = v {
                // stores of zero-sized elements leave no trace
                let t = inst.args.types().next();
                let n = inst.args.consts().next().and_then(|c| c.try_to_target_usize(it.tcx));
                if let (Some(t), Some(n)) = (t, n) {
                    if crate::lower::is_zst(it.tcx, t) {
                        let z = it.zst(t)?;
                        return Ok(Some(Value::Seq(Rc::new(vec![z; n as usize]))));
                    }
                }
            }
            Ok(Some(to_seq(v)))
        }),
        "alloc::boxed::Box|assume_init" | "alloc::boxed::Box|from_raw" | "alloc::boxed::Box|leak" => return None,
        "core::intrinsics::write_box_via_move" => return m(|it, _, a| {
            let p = box_ptr(&a[0]);
            it.store_ref(&p, a[1].clone())?;
            Ok(Some(a[0].clone()))
        }),
        "alloc::alloc::exchange_malloc" | "alloc::alloc::box_new_uninit" => return m(|it, _, _| {
            let c = it.alloc(Value::Uninit);
            Ok(Some(Value::refv(c, vec![], Meta::None)))
        }),
        "core::mem::drop" if it.drop_effect(inst.args.type_at(0)) != crate::lower::DropEffect::None => return None,
        "core::mem::drop" | "core::mem::forget" => return m(|_, _, _| Ok(Some(Value::unit()))),
        "core::ptr::drop_in_place" | "core::ptr::drop_glue" => return m(drop_at),
        "core::mem::maybe_uninit::MaybeUninit|uninit" => return m(|_, _, _| Ok(Some(Value::Uninit))),
        "core::mem::manually_drop::ManuallyDrop|drop" => return m(drop_at),

        "[;]|TryFrom::try_from" => {
            let InstanceKind::Item(d) = inst.def else { return None };
            let sig = tcx.fn_sig(d).instantiate(tcx, inst.args).skip_norm_wip();
            let sig = tcx.normalize_erasing_late_bound_regions(env(), sig);
            if !adt_is(tcx, sig.inputs()[0], "alloc::vec::Vec") {
                return None;
            }
            return m(|it, inst, a| {
                let n = inst.args.consts().next().and_then(|c| c.try_to_target_usize(it.tcx));
                let Some(n) = n else { return Err(it.abort("array length unknown")) };
                let Value::Seq(f) = &a[0] else { return Err(it.abort(format!("try_into array of {}", a[0].kind()))) };
                Ok(Some(if f.len() as u64 == n {
                    Value::Enum1(0, Rc::new(vec![Value::Agg(f.clone())]))
                } else {
                    Value::Enum1(1, Rc::new(vec![a[0].clone()]))
                }))
            });
        }
        "alloc::vec::from_elem" => return m(|it, inst, a| {
            let t = inst.args.type_at(0);
            let Some(n) = a[1].as_const() else { return Err(it.unknown("vector of unknown length")) };
            if n == 0 || it.tcx.type_is_copy_modulo_regions(env(), t) {
                return Ok(Some(Value::Seq(Rc::new(vec![a[0].clone(); n as usize]))));
            }
            let r = it.ref_to(&a[0]);
            let mut v = Vec::with_capacity(n as usize);
            for _ in 1..n {
                match it.clone_val(t, &r)? {
                    Some(x) => v.push(x),
                    None => return Ok(None),
                }
            }
            v.push(a[0].clone());
            Ok(Some(Value::Seq(Rc::new(v))))
        }),
        // ---- slices
        "[]|to_vec" | "[]|ToOwned::to_owned" | "alloc::slice::hack::to_vec" | "[]|to_vec_in" => return m(|it, inst, a| {
            let t = inst.args.type_at(0);
            let Some(v) = it.clone_slice(t, &a[0])? else { return Ok(None) };
            Ok(Some(Value::Seq(Rc::new(v))))
        }),
        "[]|into_vec" | "alloc::slice::hack::into_vec" => return m(|it, _, a| {
            let p = box_ptr(&a[0]);
            let v = it.seq_of_slice(&p)?;
            Ok(Some(Value::Seq(Rc::new(v))))
        }),
        "[]|copy_from_slice" | "[]|clone_from_slice" => {
            if k.contains("clone") && !tcx.type_is_copy_modulo_regions(env(), inst.args.type_at(0)) {
                return None;
            }
            return m(copy_from_slice);
        }
        "[]|fill" => {
            if !tcx.type_is_copy_modulo_regions(env(), inst.args.type_at(0)) {
                return None;
            }
            return m(|it, _, a| {
                let v = it.seq_of_slice(&a[0])?;
                let n = vec![a[1].clone(); v.len()];
                it.set_slice(&a[0], n)?;
                Ok(Some(Value::unit()))
            });
        }
        "[]|reverse" => return m(|it, _, a| {
            let mut v = it.seq_of_slice(&a[0])?;
            v.reverse();
            it.set_slice(&a[0], v)?;
            Ok(Some(Value::unit()))
        }),
        "[]|PartialOrd::lt" | "[]|PartialOrd::le" | "[]|PartialOrd::gt" | "[]|PartialOrd::ge" => {
            return match k.rsplit("::").next() {
                Some("lt") => m(|it, i, a| seq_order(it, i, a, &[0])),
                Some("le") => m(|it, i, a| seq_order(it, i, a, &[0, 1])),
                Some("gt") => m(|it, i, a| seq_order(it, i, a, &[2])),
                _ => m(|it, i, a| seq_order(it, i, a, &[1, 2])),
            };
        }
        "core::option::Option|as_slice" => return m(|it, _, a| {
            let v = it.load_ref(&a[0])?;
            let l = crate::value::alts(&v);
            let conds: Vec<B> = l.iter().map(|x| x.g).collect();
            it.fork(&conds, &mut |it, i| {
                let f: Vec<_> = l[i].f.iter().cloned().collect();
                let k = f.len() as u64;
                let c = it.alloc(Value::agg(f));
                Ok(Some(Value::refv(c, vec![], Meta::Slice(Value::usize(0), Value::usize(k)))))
            })
        }),
        "[]|rotate_left" | "[]|rotate_right" => return if k.ends_with("left") { m(|it, _, a| rotate(it, &a, true)) } else { m(|it, _, a| rotate(it, &a, false)) },
        "[]|as_chunks" | "[]|as_rchunks" | "[]|as_chunks_unchecked" => {
            return match k {
                "[]|as_chunks" => m(|it, inst, a| regroup(it, inst, &a, 0)),
                "[]|as_rchunks" => m(|it, inst, a| regroup(it, inst, &a, 1)),
                _ => m(|it, inst, a| regroup(it, inst, &a, 2)),
            };
        }
        "[]|swap" => return None,
        "[]|concat" => return m(|it, inst, a| {
            // [V]::concat where V: Borrow<[T]> or Borrow<str>
            let _ = inst;
            let parts = it.seq_of_slice(&a[0])?;
            let mut out = vec![];
            let mut is_str = false;
            for p in parts {
                out.extend(it.seq_of_any(&p, &mut is_str)?);
            }
            let s = Value::Seq(Rc::new(out));
            let t = strip_ref(strip_ref(inst.args.type_at(0)));
            if matches!(t.kind(), ty::Str) || adt_is(it.tcx, t, "alloc::string::String") {
                is_str = true;
            }
            Ok(Some(if is_str { Value::agg(vec![s]) } else { s }))
        }),
        "[]|join" => return m(|it, inst, a| {
            let parts = it.seq_of_slice(&a[0])?;
            let st = inst.args.type_at(1);
            let mut is_str = matches!(strip_ref(st).kind(), ty::Str);
            let sep = if matches!(strip_ref(st).kind(), ty::Str | ty::Slice(_)) {
                it.seq_of_slice(&a[1])?
            } else {
                vec![it.load_ref(&a[1])?]
            };
            let mut out = vec![];
            for (i, p) in parts.into_iter().enumerate() {
                if i > 0 {
                    out.extend(sep.iter().cloned());
                }
                out.extend(it.seq_of_any(&p, &mut is_str)?);
            }
            let s = Value::Seq(Rc::new(out));
            Ok(Some(if is_str { Value::agg(vec![s]) } else { s }))
        }),
        "[]|repeat" | "str|repeat" => {
            let is_str = k.starts_with("str");
            if !is_str && !tcx.type_is_copy_modulo_regions(env(), inst.args.type_at(0)) {
                return None;
            }
            fn rep<'t>(it: &mut Interp<'t>, a: &[Value<'t>]) -> Res<Value<'t>> {
                let Some(n) = a[1].as_const() else { return Err(it.unknown("repetition of unknown length")) };
                let v = it.seq_of_slice(&a[0])?;
                let mut out = vec![];
                for _ in 0..n {
                    out.extend(v.iter().cloned());
                }
                Ok(Value::Seq(Rc::new(out)))
            }
            return if is_str { m(|it, _, a| Ok(Some(Value::agg(vec![rep(it, &a)?])))) } else { m(|it, _, a| Ok(Some(rep(it, &a)?))) };
        }
        "[]|as_flattened" => return m(|it, _, a| {
            let w = it.seq_of_slice(&a[0])?;
            let mut b = Vec::new();
            for x in w {
                b.extend(it.bytes_of(&x)?);
            }
            let n = b.len() as u64;
            let c = it.alloc(Value::agg(b));
            Ok(Some(Value::refv(c, vec![], Meta::Slice(Value::usize(0), Value::usize(n)))))
        }),
        "[]|contains" => {
            if !structural(tcx, inst.args.type_at(0)) {
                return None;
            }
            return m(|it, _, a| {
                let v = it.seq_of_slice(&a[0])?;
                let x = it.load_ref(&a[1])?;
                let mut r = F;
                for e in v {
                    let q = it.sym_eq(&e, &x)?;
                    r = it.dom.bdd.or(r, q);
                }
                Ok(Some(Dom::bool_of(r)))
            });
        }
        "core::slice::iter::Iter|Iterator::next" | "core::slice::iter::IterMut|Iterator::next" => return m(slice_next),
        "[]|sort" | "[]|sort_unstable" => return m(|it, inst, a| {
            let t = inst.args.type_at(0);
            let v = it.seq_of_slice(&a[0])?;
            let Some(v) = it.sort_values(v, &mut |it, x, y| it.cmp_values(t, x, y))? else { return Ok(None) };
            it.set_slice(&a[0], v)?;
            Ok(Some(Value::unit()))
        }),
        "[]|sort_by" | "[]|sort_unstable_by" => return m(|it, inst, a| {
            let t = inst.args.type_at(0);
            let ft = inst.args.types().last().unwrap();
            let fc = it.alloc(a[1].clone());
            let v = it.seq_of_slice(&a[0])?;
            let r = it.sort_values(v, &mut |it, x, y| {
                let rt = Ty::new_imm_ref(it.tcx, it.tcx.lifetimes.re_erased, t);
                let args = vec![it.ref_to(x), it.ref_to(y)];
                let r = it.call_mut(ft, fc, args, vec![rt, rt])?;
                it.ordering(r)
            })?;
            let Some(v) = r else { return Ok(None) };
            it.set_slice(&a[0], v)?;
            Ok(Some(Value::unit()))
        }),
        "[]|sort_by_key" | "[]|sort_unstable_by_key" | "[]|sort_by_cached_key" => return m(|it, inst, a| {
            let ts: Vec<Ty<'_>> = inst.args.types().collect();
            let t = ts[0];
            let kt = ts[1];
            let ft = *ts.last().unwrap();
            let fc = it.alloc(a[1].clone());
            let v = it.seq_of_slice(&a[0])?;
            let rt = Ty::new_imm_ref(it.tcx, it.tcx.lifetimes.re_erased, t);
            let mut keyed = vec![];
            for x in v {
                let r = it.ref_to(&x);
                let Some(kv) = it.call_mut(ft, fc, vec![r], vec![rt])? else { return Ok(None) };
                keyed.push(Value::agg(vec![kv, x]));
            }
            let r = it.sort_values(keyed, &mut |it, x, y| {
                let (Value::Agg(p), Value::Agg(q)) = (x, y) else { return Err(it.abort("sort key")) };
                let (p, q) = (p[0].clone(), q[0].clone());
                it.cmp_values(kt, &p, &q)
            })?;
            let Some(v) = r else { return Ok(None) };
            let v = v.into_iter().map(|x| match &x { Value::Agg(f) => f[1].clone(), _ => x }).collect();
            it.set_slice(&a[0], v)?;
            Ok(Some(Value::unit()))
        }),
        "str|len" => return m(|it, _, a| Ok(Some(it.ptr_meta(&a[0])?))),
        "str|as_bytes" => return m(|_, _, a| Ok(Some(a[0].clone()))),
        "core::str::converts::from_utf8_unchecked" => return m(|_, _, a| Ok(Some(a[0].clone()))),
        "core::hash::BuildHasher|hash_one" => return m(|_, _, _| Ok(Some(Value::top("hash")))),

        // ---- lazily initialised statics
        "lazy_static::lazy::Lazy|get" => return m(lazy_get),
        "std::sync::lazy_lock::LazyLock|new" | "std::sync::LazyLock|new" | "core::cell::lazy::LazyCell|new" => {
            return m(|_, _, a| Ok(Some(Value::agg(vec![a[0].clone()]))));
        }
        "std::sync::lazy_lock::LazyLock|force" | "std::sync::lazy_lock::LazyLock|Deref::deref" => return m(lazylock_get),
        "std::sync::once_lock::OnceLock|get_or_init" => return m(lazy_get),

        // ---- digests
        "T|Digest::new" | "T|Digest::new_with_prefix" | "Digest|new" => return m(|it, inst, a| {
            let t = inst.args.type_at(0).to_string();
            let mut v = vec![];
            if let Some(x) = a.first() {
                v = it.bytes_of(x)?;
            }
            Ok(Some(Value::term(&format!("hasher {t}"), vec![hashed(v)])))
        }),
        "T|Digest::update" | "T|Digest::chain_update" | "digest::core_api::wrapper::CoreWrapper|Update::update" => {
            return m(digest_update);
        }
        "T|Digest::finalize" | "T|Digest::finalize_reset" => return m(|it, inst, a| {
            let t = inst.args.type_at(0).to_string();
            let h = match &a[0] {
                Value::Ref(_) => it.load_ref(&a[0])?,
                v => v.clone(),
            };
            let b = it.hasher_bytes(&h)?;
            if let Value::Ref(_) = &a[0] {
                it.store_ref(&a[0], Value::term(&format!("hasher {t}"), vec![hashed(vec![])]))?;
            }
            let mut r: Option<Value<'_>> = None;
            for (g, b) in b.into_iter().rev() {
                let d = it.digest(&t, b)?;
                r = Some(match r {
                    None => d,
                    Some(r) => it.dom.ite(g, &d, &r),
                });
            }
            Ok(r)
        }),
        "T|Digest::digest" => return m(|it, inst, a| {
            let t = inst.args.type_at(0).to_string();
            let b = it.bytes_of(&a[0])?;
            Ok(Some(it.digest(&t, b)?))
        }),
        "generic_array::GenericArray|Deref::deref"
        | "generic_array::GenericArray|DerefMut::deref_mut"
        | "generic_array::GenericArray|as_slice"
        | "generic_array::GenericArray|as_mut_slice"
        | "generic_array::GenericArray|AsRef::as_ref"
        | "generic_array::GenericArray|AsMut::as_mut"
        | "generic_array::GenericArray|Borrow::borrow" => return m(|it, _, a| {
            let n = it.seq_len(&a[0])?;
            let Value::Ref(r) = &a[0] else { return Err(it.abort("GenericArray reference")) };
            Ok(Some(Value::refv(r.cell, r.proj.clone(), Meta::Slice(Value::usize(0), Value::usize(n)))))
        }),
        "[;]|From::from" => {
            let f = tcx.fn_sig(inst.def_id()).instantiate(tcx, inst.args).skip_norm_wip();
            let f = tcx.normalize_erasing_late_bound_regions(env(), f);
            if adt_is(tcx, f.inputs()[0], "generic_array::GenericArray") {
                return m(|_, _, a| Ok(Some(a[0].clone())));
            }
            return None;
        }
        "generic_array::GenericArray|From::from" => return m(|_, _, a| Ok(Some(a[0].clone()))),

        // ---- environment of the price generator
        "std::fs::File|create" | "std::fs::OpenOptions|open" => return m(|it, _, a| {
            let name = a.iter().filter_map(|x| it.str_of(x)).last().unwrap_or_default();
            it.facts.push(format!("file {name}"));
            Ok(Some(Value::Enum1(0, Rc::new(vec![Value::term("file", vec![])]))))
        }),
        "std::fs::File|Write::write_all" => return m(|it, _, a| {
            let b = it.seq_of_slice(&a[1])?;
            it.sink.extend(b);
            Ok(Some(Value::Enum1(0, Rc::new(vec![Value::unit()]))))
        }),
        "std::fs::File|Write::write" => return m(|it, _, a| {
            let b = it.seq_of_slice(&a[1])?;
            let n = b.len();
            it.sink.extend(b);
            Ok(Some(Value::Enum1(0, Rc::new(vec![Value::usize(n as u64)]))))
        }),
        "std::fs::File|Write::flush" | "std::fs::File|sync_all" => {
            return m(|_, _, _| Ok(Some(Value::Enum1(0, Rc::new(vec![Value::unit()])))))
        }
        k if (k.contains("::bufwriter::BufWriter|") || k.contains("::linewriter::LineWriter|"))
            && (k.ends_with("|new") || k.ends_with("|with_capacity")) => return m(|_, _, a| {
            Ok(Some(Value::agg(vec![a[a.len() - 1].clone()])))
        }),
        k if (k.contains("::bufwriter::BufWriter|") || k.contains("::linewriter::LineWriter|"))
            && (k.ends_with("|Write::write_all") || k.ends_with("|Write::write") || k.ends_with("|Write::flush")) => return m(|it, inst, a| {
            // no buffering: passed on at once
            let name = it.tcx.item_name(inst.def_id()).to_string();
            let Some(item) = it.tcx.trait_item_of(inst.def_id()) else { return Err(it.abort("Write")) };
            let tr = it.tcx.parent(item);
            let w = inst.args.type_at(0);
            let i = it.trait_fn(tr, &name, &[w.into()])?;
            let Value::Ref(r) = &a[0] else { return Err(it.abort("writer reference")) };
            let mut p = r.proj.clone();
            p.push(Proj::Field(0));
            let mut b = a.clone();
            b[0] = Value::refv(r.cell, p, Meta::None);
            it.call(i, b, false)
        }),
        "std::fs::write" => return m(|it, _, a| {
            let mut s = false;
            let name = it.str_of(&a[0]).unwrap_or_default();
            it.facts.push(format!("file {name}"));
            let b = it.seq_of_any(&a[1], &mut s)?;
            it.sink.extend(b);
            Ok(Some(Value::Enum1(0, Rc::new(vec![Value::unit()]))))
        }),
        "std::io::stdio::_print" | "std::io::stdio::_eprint" => return m(|_, _, _| Ok(Some(Value::unit()))),

        // ---- formatting
        "alloc::fmt::format" => return m(|it, inst, a| fmt_format(it, inst, a)),
        "core::fmt::Arguments|as_str" => return m(|it, inst, a| {
            // the argument list is a pointer (even address) or an odd tagged length
            let v = it.load_ref(&a[0])?;
            if let Value::Agg(f) = &v {
                if f.len() == 2 {
                    let mut x = f[1].clone();
                    while let Value::Agg(g) = &x {
                        if g.len() != 1 { break }
                        x = g[0].clone();
                    }
                    if let Value::Ref(_) = x {
                        return Ok(Some(Value::none()));
                    }
                }
            }
            it.call_mir(inst, a, false)
        }),
        "core::slice::memchr::memchr" | "core::slice::memchr::memrchr" => return m(|it, inst, a| {
            let Value::Int(_, x) = a[0] else { return it.call_mir(inst, a, false) };
            let back = it.tcx.item_name(inst.def_id()).as_str() == "memrchr";
            let b = it.seq_of_slice(&a[1])?;
            let mut r = None;
            for (i, v) in b.iter().enumerate() {
                match v {
                    Value::Int(_, y) if *y == x => {
                        r = Some(i);
                        if !back { break }
                    }
                    Value::Int(..) => {}
                    _ => return Err(it.abort("search in unknown text")),
                }
            }
            Ok(Some(match r {
                Some(i) => Value::Enum1(1, Rc::new(vec![Value::usize(i as u64)])),
                None => Value::none(),
            }))
        }),
        k if matches!(k.split_once('|'), Some((t, "LowerHex::fmt" | "UpperHex::fmt" | "Octal::fmt" | "Binary::fmt"))
            if matches!(t, "u8" | "u16" | "u32" | "u64" | "usize" | "u128")) => return m(int_display),
        k if k.starts_with("core::fmt::num") => return None,
        "u8|Display::fmt" | "u16|Display::fmt" | "u32|Display::fmt" | "u64|Display::fmt" | "usize|Display::fmt"
        | "u128|Display::fmt" | "i8|Display::fmt" | "i16|Display::fmt" | "i32|Display::fmt" | "i64|Display::fmt"
        | "isize|Display::fmt" => return m(int_display),
        _ => {
            if let InstanceKind::Intrinsic(_) = inst.def {
                return None;
            }
            return None;
        }
    })
}

/// A constructor used as a function.
pub fn ctor<'t>(it: &mut Interp<'t>, inst: Instance<'t>, a: Vec<Value<'t>>) -> Res<Option<Value<'t>>> {
    let tcx = it.tcx;
    let d = inst.def_id();
    let p = tcx.parent(d);
    let v = match tcx.def_kind(p) {
        rustc_hir::def::DefKind::Variant => {
            let adt = tcx.adt_def(tcx.parent(p));
            Value::Enum1(adt.variant_index_with_ctor_id(d).as_u32(), Rc::new(a))
        }
        _ => {
            let sig = tcx.fn_sig(d).instantiate(tcx, inst.args).skip_norm_wip();
            let t = tcx.normalize_erasing_late_bound_regions(env(), sig).output();
            match crate::lower::transparent(tcx, t) {
                Some(i) => a[i].clone(),
                None => Value::agg(a),
            }
        }
    };
    Ok(Some(v))
}

/// The default body of a trait method an implementation overrides.
fn trait_default<'t>(tcx: TyCtxt<'t>, inst: Instance<'t>) -> Option<Instance<'t>> {
    let d = inst.def_id();
    let imp = tcx.impl_of_assoc(d)?;
    let tr = tcx.impl_trait_ref(imp).instantiate(tcx, inst.args).skip_norm_wip();
    let item = tcx.trait_item_of(d)?;
    if !tcx.defaultness(item).has_value() {
        return None;
    }
    let n = tcx.generics_of(imp).count();
    let mut args: Vec<ty::GenericArg<'t>> = tr.args.iter().collect();
    args.extend(inst.args.iter().skip(n));
    Some(Instance::new_raw(item, tcx.mk_args(&args)))
}

fn strip_ref<'t>(t: Ty<'t>) -> Ty<'t> {
    match t.kind() {
        ty::Ref(_, p, _) => *p,
        _ => t,
    }
}

fn seqish<'t>(tcx: TyCtxt<'t>, t: Ty<'t>) -> String {
    match t.kind() {
        ty::Slice(e) | ty::Array(e, _) => format!("[{e}]"),
        ty::Adt(_, a) if adt_is(tcx, t, "alloc::vec::Vec") => format!("[{}]", a.type_at(0)),
        _ => t.to_string(),
    }
}

/// Equality of the type is equality of its representation.
pub fn structural<'t>(tcx: TyCtxt<'t>, t: Ty<'t>) -> bool {
    structural_but(tcx, t, &mut |_| false)
}

/// The same, with `hand` deciding for the types whose equality is written by hand.
fn structural_but<'t>(tcx: TyCtxt<'t>, t: Ty<'t>, hand: &mut dyn FnMut(Ty<'t>) -> bool) -> bool {
    fn go<'t>(tcx: TyCtxt<'t>, t: Ty<'t>, depth: u32, hand: &mut dyn FnMut(Ty<'t>) -> bool) -> bool {
        if depth > 8 {
            return false;
        }
        if int_ty(tcx, t).is_some() {
            return true;
        }
        match t.kind() {
            ty::Str => true,
            ty::Tuple(ts) => ts.iter().all(|t| go(tcx, t, depth + 1, hand)),
            ty::Array(e, _) | ty::Slice(e) => go(tcx, *e, depth + 1, hand),
            ty::Ref(_, p, _) => go(tcx, *p, depth + 1, hand),
            ty::Adt(d, args) => {
                let k = def_key(tcx, d.did());
                if k == "alloc::vec::Vec" || k == "alloc::boxed::Box" {
                    return go(tcx, args.type_at(0), depth + 1, hand);
                }
                if k == "core::option::Option" || k == "core::result::Result" {
                    return args.types().all(|t| go(tcx, t, depth + 1, hand));
                }
                if k == "primitive_types::U256" || k == "primitive_types::H160" || k == "primitive_types::H256" {
                    return true;
                }
                let Some(sp) = tcx.lang_items().structural_peq_trait() else { return false };
                let mut found = false;
                tcx.for_each_relevant_impl(sp, t, |i| {
                    let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                    if matches!(st.kind(), ty::Adt(e, _) if e.did() == d.did()) {
                        found = true;
                    }
                });
                if !found {
                    return hand(t);
                }
                d.all_fields().all(|f| go(tcx, field_ty(tcx, f, args), depth + 1, hand))
            }
            _ => false,
        }
    }
    go(tcx, t, 0, hand)
}

pub fn boxed<'t>(c: u32) -> Value<'t> {
    Value::agg(vec![Value::refv(c, vec![], Meta::None), Value::unit()])
}

fn rotate_deque<'t>(it: &mut Interp<'t>, r: &Value<'t>, n: &Value<'t>, left: bool) -> Res<Option<Value<'t>>> {
    let k = it.seq_len(r)?;
    let Value::Ref(x) = r else { return Err(it.abort("queue reference")) };
    let s = Value::refv(x.cell, x.proj.clone(), Meta::Slice(Value::usize(0), Value::usize(k)));
    rotate(it, &[s, n.clone()], left)
}

/// rotate_left and rotate_right of a slice.
fn rotate<'t>(it: &mut Interp<'t>, a: &[Value<'t>], left: bool) -> Res<Option<Value<'t>>> {
    let mut v = it.seq_of_slice(&a[0])?;
    let Some(n) = a[1].as_const() else { return Err(it.unknown("rotation by an unknown amount")) };
    if n as usize > v.len() {
        let g = it.pc;
        it.panic_at(g, "panic", "rotation out of bounds");
        return Ok(None);
    }
    if left {
        v.rotate_left(n as usize);
    } else {
        v.rotate_right(n as usize);
    }
    it.set_slice(&a[0], v)?;
    Ok(Some(Value::unit()))
}

/// `<`, `<=`, `>` and `>=` of slices: whether `partial_cmp` gives one of these orderings.
fn seq_order<'t>(it: &mut Interp<'t>, inst: Instance<'t>, a: Vec<Value<'t>>, of: &[u32]) -> Res<Option<Value<'t>>> {
    let tr = it.tcx.lang_items().partial_ord_trait().unwrap();
    let f = it.tcx.fn_sig(inst.def_id()).instantiate(it.tcx, inst.args).skip_norm_wip();
    let f = it.tcx.normalize_erasing_late_bound_regions(env(), f);
    let (x, y) = (strip_ref(f.inputs()[0]), strip_ref(f.inputs()[1]));
    let i = it.trait_fn(tr, "partial_cmp", &[x.into(), y.into()])?;
    let Some(o) = it.call(i, a, false)? else { return Ok(None) };
    let mut r = F;
    for v in of {
        let e = it.sym_eq(&o, &Value::some(Value::Enum1(*v, Rc::new(vec![]))))?;
        r = it.dom.bdd.or(r, e);
    }
    Ok(Some(Dom::bool_of(r)))
}

/// as_chunks (0), as_rchunks (1) and as_chunks_unchecked (2): a shared view, so a copy will do.
fn regroup<'t>(it: &mut Interp<'t>, inst: Instance<'t>, a: &[Value<'t>], how: u8) -> Res<Option<Value<'t>>> {
    let Some(n) = inst.args.consts().next().and_then(|c| c.try_to_target_usize(it.tcx)) else { return Err(it.abort("length of a chunk")) };
    let n = n as usize;
    let v = it.seq_of_slice(&a[0])?;
    if n == 0 || (how == 2 && v.len() % n != 0) {
        let g = it.pc;
        it.panic_at(g, "panic", "chunk size");
        return Ok(None);
    }
    let cut = if how == 1 { v.len() % n } else { v.len() - v.len() % n };
    let slice = |it: &mut Interp<'t>, l: Vec<Value<'t>>| {
        let k = l.len() as u64;
        let c = it.alloc(Value::agg(l));
        Value::refv(c, vec![], Meta::Slice(Value::usize(0), Value::usize(k)))
    };
    let group = |l: &[Value<'t>]| l.chunks(n).map(|c| Value::agg(c.to_vec())).collect::<Vec<_>>();
    Ok(Some(match how {
        0 => {
            let g = slice(it, group(&v[..cut]));
            let r = slice(it, v[cut..].to_vec());
            Value::agg(vec![g, r])
        }
        1 => {
            let r = slice(it, v[..cut].to_vec());
            let g = slice(it, group(&v[cut..]));
            Value::agg(vec![r, g])
        }
        _ => slice(it, group(&v)),
    }))
}

/// Runs the destructor of the value a pointer refers to.
fn drop_at<'t>(it: &mut Interp<'t>, inst: Instance<'t>, mut a: Vec<Value<'t>>) -> Res<Option<Value<'t>>> {
    let p = a.pop().unwrap();
    Ok(it.drop_value(inst.args.type_at(0), p)?.then(Value::unit))
}

pub fn box_ptr<'t>(v: &Value<'t>) -> Value<'t> {
    match v {
        Value::Agg(f) if !f.is_empty() => f[0].clone(),
        v => v.clone(),
    }
}

fn to_seq<'t>(v: Value<'t>) -> Value<'t> {
    match v {
        Value::Agg(f) => Value::Seq(f),
        v => v,
    }
}

fn eq_model<'t>(it: &mut Interp<'t>, _: Instance<'t>, a: Vec<Value<'t>>) -> Res<Option<Value<'t>>> {
    let e = it.sym_eq(&a[0], &a[1])?;
    Ok(Some(Dom::bool_of(e)))
}
fn ne_model<'t>(it: &mut Interp<'t>, _: Instance<'t>, a: Vec<Value<'t>>) -> Res<Option<Value<'t>>> {
    let e = it.sym_eq(&a[0], &a[1])?;
    let n = it.dom.bdd.not(e);
    Ok(Some(Dom::bool_of(n)))
}

impl<'t> Interp<'t> {
    /// The place behind `r`, split over the alternatives of the container stored there.
    fn on_container(
        &mut self,
        r: &Value<'t>,
        f: &mut dyn FnMut(&mut Self, &Value<'t>) -> Res<Option<Value<'t>>>,
    ) -> Res<Option<Value<'t>>> {
        let v = self.load_ref(r)?;
        if let Value::Choice(l) = &v {
            let conds: Vec<B> = l.iter().map(|x| x.0).collect();
            let r = r.clone();
            return self.fork(&conds, &mut |s, i| {
                s.store_ref(&r, l[i].1.clone())?;
                f(s, &r)
            });
        }
        // a copy kept here would force the container to be copied when it is changed
        drop(v);
        f(self, r)
    }

    pub fn seq_len(&mut self, r: &Value<'t>) -> Res<u64> {
        match self.load_ref(r)? {
            Value::Seq(f) | Value::Agg(f) => Ok(f.len() as u64),
            v => Err(self.abort(format!("length of {}", v.kind()))),
        }
    }

    /// Elements of a slice reference.
    pub fn seq_of_slice(&mut self, r: &Value<'t>) -> Res<Vec<Value<'t>>> {
        match r {
            Value::Ref(x) => {
                let l = Loc { cell: x.cell, proj: x.proj.clone(), meta: x.meta.clone() };
                match self.load(&l)? {
                    Value::Agg(f) | Value::Seq(f) => Ok((*f).clone()),
                    Value::Uninit => Ok(vec![]),
                    v => Err(self.abort(format!("elements of {}", v.kind()))),
                }
            }
            Value::Int(..) => Ok(vec![]),
            v => Err(self.abort(format!("slice through {}", v.kind()))),
        }
    }

    pub fn seq_of_any(&mut self, v: &Value<'t>, is_str: &mut bool) -> Res<Vec<Value<'t>>> {
        match v {
            Value::Ref(r) => {
                if let Meta::Slice(..) = r.meta {
                    return self.seq_of_slice(v);
                }
                let x = self.load_ref(v)?;
                self.seq_of_any(&x, is_str)
            }
            Value::Seq(f) => Ok((**f).clone()),
            Value::Agg(f) if f.len() == 1 && matches!(f[0], Value::Seq(_)) => {
                *is_str = true;
                self.seq_of_any(&f[0].clone(), is_str)
            }
            Value::Agg(f) => Ok((**f).clone()),
            v => Err(self.abort(format!("sequence expected, found {}", v.kind()))),
        }
    }

    pub fn bytes_of(&mut self, v: &Value<'t>) -> Res<Vec<Value<'t>>> {
        let mut s = false;
        self.seq_of_any(v, &mut s)
    }

    pub fn set_slice(&mut self, r: &Value<'t>, n: Vec<Value<'t>>) -> Res<()> {
        let Value::Ref(x) = r else {
            if n.is_empty() {
                return Ok(());
            }
            return Err(self.abort("store through non-slice"));
        };
        let Meta::Slice(s, _) = &x.meta else { return Err(self.abort("store through non-slice")) };
        let Some(s) = s.as_const() else { return Err(self.unknown("slice at an unknown offset")) };
        for (i, v) in n.into_iter().enumerate() {
            let mut p = x.proj.clone();
            p.push(Proj::Elem(s as u64 + i as u64));
            self.set(x.cell, &p, v)?;
        }
        Ok(())
    }

    /// Clone of the value of type `ty` behind `r`.
    pub fn clone_val(&mut self, ty: Ty<'t>, r: &Value<'t>) -> Res<Option<Value<'t>>> {
        let tcx = self.tcx;
        if tcx.type_is_copy_modulo_regions(env(), ty) {
            return Ok(Some(self.load_ref(r)?));
        }
        let tr = tcx.lang_items().clone_trait().unwrap();
        let d = tcx.associated_item_def_ids(tr)[0];
        let inst = Instance::try_resolve(tcx, env(), d, tcx.mk_args(&[ty.into()]));
        match inst {
            Ok(Some(i)) => self.call(i, vec![r.clone()], false),
            _ => Err(self.abort(format!("no Clone for {ty}"))),
        }
    }

    pub fn clone_slice(&mut self, ty: Ty<'t>, r: &Value<'t>) -> Res<Option<Vec<Value<'t>>>> {
        let v = self.seq_of_slice(r)?;
        if self.tcx.type_is_copy_modulo_regions(env(), ty) {
            return Ok(Some(v));
        }
        let mut out = vec![];
        for x in v {
            let c = self.alloc(x);
            match self.clone_val(ty, &Value::refv(c, vec![], Meta::None))? {
                Some(v) => out.push(v),
                None => return Ok(None),
            }
        }
        Ok(Some(out))
    }

    pub fn trait_fn(&mut self, tr: DefId, name: &str, args: &[ty::GenericArg<'t>]) -> Res<Instance<'t>> {
        let tcx = self.tcx;
        let d = tcx
            .associated_items(tr)
            .in_definition_order()
            .find(|i| i.name().as_str() == name)
            .map(|i| i.def_id);
        let Some(d) = d else { return Err(self.abort(format!("no trait method {name}"))) };
        match Instance::try_resolve(tcx, env(), d, tcx.mk_args(args)) {
            Ok(Some(i)) => Ok(i),
            _ => Err(self.abort(format!("cannot resolve {name} for {args:?}"))),
        }
    }

    /// Call a closure or function value of type `ft` once.
    pub fn call_once(&mut self, ft: Ty<'t>, f: Value<'t>, args: Vec<Value<'t>>, at: Vec<Ty<'t>>) -> Res<Option<Value<'t>>> {
        let tcx = self.tcx;
        let tr = tcx.lang_items().fn_once_trait().unwrap();
        let tup = Ty::new_tup(tcx, &at);
        let i = self.trait_fn(tr, "call_once", &[ft.into(), tup.into()])?;
        self.call(i, vec![f, Value::agg(args)], true)
    }

    /// All elements an iterator yields, when the number of elements is determined.
    /// The elements in order; where the end depends on the input, one list per case.
    pub fn gather(&mut self, ity: Ty<'t>, iter: Value<'t>) -> Res<Option<Value<'t>>> {
        let tr = self.tcx.get_diagnostic_item(rustc_span::sym::Iterator).unwrap();
        let next = self.trait_fn(tr, "next", &[ity.into()])?;
        let c = self.alloc(iter);
        self.gather_rest(next, Value::refv(c, vec![], Meta::None), vec![], 0)
    }

    fn gather_rest(
        &mut self,
        next: Instance<'t>,
        r: Value<'t>,
        mut out: Vec<Value<'t>>,
        depth: u32,
    ) -> Res<Option<Value<'t>>> {
        if depth > 200 {
            return Err(self.abort("iterator whose length depends on the input in too many ways"));
        }
        loop {
            let Some(v) = self.call(next, vec![r.clone()], false)? else { return Ok(None) };
            if out.len() > 3_000_000 {
                return Err(self.abort("iterator does not end"));
            }
            match v {
                Value::Enum1(0, _) => return Ok(Some(Value::Seq(Rc::new(out)))),
                Value::Enum1(1, f) => out.push(f[0].clone()),
                Value::EnumN(a) => {
                    let some = a.iter().find(|x| x.var == 1).cloned();
                    let g = some.as_ref().map(|x| x.g).unwrap_or(F);
                    let g = self.dom.bdd.and(g, self.pc);
                    if g == F {
                        return Ok(Some(Value::Seq(Rc::new(out))));
                    }
                    let item = some.unwrap().f[0].clone();
                    if g == self.pc {
                        out.push(item);
                        continue;
                    }
                    let not = self.dom.bdd.not(g);
                    return self.fork(&[not, g], &mut |s, k| {
                        let mut o = out.clone();
                        if k == 0 {
                            return Ok(Some(Value::Seq(Rc::new(o))));
                        }
                        o.push(item.clone());
                        s.gather_rest(next, r.clone(), o, depth + 1)
                    });
                }
                v => return Err(self.abort(format!("iterator item is {}", v.kind()))),
            }
        }
    }

    /// `sink` receives each element; the loop is driven by `next` and joins like any other loop.
    pub fn drain_iter(
        &mut self,
        ity: Ty<'t>,
        iter: Value<'t>,
        sink: &mut dyn FnMut(&mut Self, Value<'t>) -> Res<()>,
    ) -> Res<bool> {
        let tcx = self.tcx;
        let tr = tcx.get_diagnostic_item(rustc_span::sym::Iterator).unwrap();
        let next = self.trait_fn(tr, "next", &[ity.into()])?;
        let c = self.alloc(iter);
        let r = Value::refv(c, vec![], Meta::None);
        let mut n = 0u64;
        loop {
            let Some(v) = self.call(next, vec![r.clone()], false)? else { return Ok(false) };
            n += 1;
            if n > 3_000_000 {
                return Err(self.abort("iterator does not end"));
            }
            match v {
                Value::Enum1(0, _) => return Ok(true),
                Value::Enum1(1, f) => sink(self, f[0].clone())?,
                Value::EnumN(a) => {
                    let some = a.iter().find(|x| x.var == 1).cloned();
                    let g = some.as_ref().map(|x| x.g).unwrap_or(F);
                    let g = self.dom.bdd.and(g, self.pc);
                    if g == F {
                        return Ok(true);
                    }
                    if g == self.pc {
                        sink(self, some.unwrap().f[0].clone())?;
                        continue;
                    }
                    return Err(self.abort("iterator whose length depends on the input"));
                }
                v => return Err(self.abort(format!("iterator item is {}", v.kind()))),
            }
        }
    }

    pub fn into_iter(&mut self, t: Ty<'t>, v: Value<'t>) -> Res<Option<(Ty<'t>, Value<'t>)>> {
        let tcx = self.tcx;
        let tr = tcx.get_diagnostic_item(rustc_span::sym::IntoIterator).unwrap();
        let i = self.trait_fn(tr, "into_iter", &[t.into()])?;
        let sig = match i.def {
            InstanceKind::Item(d) => {
                let s = tcx.fn_sig(d).instantiate(tcx, i.args).skip_norm_wip();
                tcx.normalize_erasing_late_bound_regions(env(), s)
            }
            _ => return Err(self.abort("into_iter shim")),
        };
        let ot = sig.output();
        match self.call(i, vec![v], false)? {
            Some(v) => Ok(Some((ot, v))),
            None => Ok(None),
        }
    }

    /// What has been hashed so far, by case.
    pub fn hasher_bytes(&mut self, v: &Value<'t>) -> Res<Vec<(B, Vec<Value<'t>>)>> {
        match v {
            Value::Term(t) if t.0.starts_with("hasher ") => match &t.1[0] {
                Value::Choice(l) => {
                    let mut o = vec![];
                    for (g, v) in l.iter() {
                        o.push((*g, unhashed(v).ok_or_else(|| self.abort("hash state"))?));
                    }
                    Ok(o)
                }
                v => Ok(vec![(T, unhashed(v).ok_or_else(|| self.abort("hash state"))?)]),
            },
            Value::Choice(l) => {
                let mut o = vec![];
                for (g, v) in l.iter() {
                    for (h, b) in self.hasher_bytes(v)? {
                        o.push((self.dom.bdd.and(*g, h), b));
                    }
                }
                Ok(o)
            }
            v => Err(self.abort(format!("hash state is {}", v.kind()))),
        }
    }

    /// An uninterpreted function of the hashed bytes.
    pub fn digest(&mut self, name: &str, bytes: Vec<Value<'t>>) -> Res<Value<'t>> {
        for b in &bytes {
            if !matches!(b, Value::Int(8, _) | Value::Sym(_)) {
                return Err(self.abort(format!("hash of {}", b.kind())));
            }
        }
        for (n, b, r) in &self.digests {
            if n == name && b.len() == bytes.len() && b.iter().zip(&bytes).all(|(x, y)| same(x, y)) {
                return Ok(r.clone());
            }
        }
        // the digests' bits side by side, in a range of variables of their own
        let k = self.digests.len() as u32;
        if k >= 1 << 16 {
            return Err(self.abort("too many digests"));
        }
        let mut out = vec![];
        for i in 0..32 {
            let bits: Vec<u32> = (8 * i..8 * i + 8).map(|b| 0x2000_0000 + (b << 16) + k).collect();
            let v: Vec<B> = bits.iter().map(|b| self.dom.bdd.var(*b)).collect();
            self.leaves.push(Leaf { name: format!("digest{}[{i}]", self.digests.len()), bits });
            out.push(Dom::from_bits(v));
        }
        let r = Value::agg(out);
        self.digests.push((name.to_string(), bytes, r.clone()));
        Ok(r)
    }
}

/// The bytes hashed so far, in pieces, so that extending a shared state copies little. The number
/// of bytes is part of the constructor: states of different lengths stay apart when cases join.
const PIECE: usize = 1024;

fn hashed<'t>(bytes: Vec<Value<'t>>) -> Value<'t> {
    let mut v = Value::term("hashed 0", vec![]);
    hash_more(&mut v, &bytes);
    v
}

fn hash_more<'t>(v: &mut Value<'t>, add: &[Value<'t>]) -> bool {
    let Value::Term(t) = v else { return false };
    let Some(n) = t.0.strip_prefix("hashed ").and_then(|n| n.parse::<usize>().ok()) else { return false };
    let t = Rc::make_mut(t);
    t.0 = format!("hashed {}", n + add.len());
    let mut add = add;
    while !add.is_empty() {
        let room = match t.1.last() {
            Some(Value::Seq(f)) => PIECE - f.len(),
            _ => 0,
        };
        if room == 0 {
            t.1.push(Value::Seq(empty()));
            continue;
        }
        let (now, later) = add.split_at(room.min(add.len()));
        let Some(Value::Seq(f)) = t.1.last_mut() else { return false };
        Rc::make_mut(f).extend(now.iter().cloned());
        add = later;
    }
    true
}

fn unhashed<'t>(v: &Value<'t>) -> Option<Vec<Value<'t>>> {
    let Value::Term(t) = v else { return None };
    t.0.strip_prefix("hashed ")?;
    let mut out = Vec::with_capacity(t.1.len() * PIECE);
    for p in &t.1 {
        let Value::Seq(f) = p else { return None };
        out.extend(f.iter().cloned());
    }
    Some(out)
}

fn digest_update<'t>(it: &mut Interp<'t>, inst: Instance<'t>, mut a: Vec<Value<'t>>) -> Res<Option<Value<'t>>> {
    let by_ref = matches!(a[0], Value::Ref(_));
    let _ = inst;
    let add = it.bytes_of(&a[1])?;
    let mut h = if by_ref { it.load_ref(&a[0])? } else { std::mem::replace(&mut a[0], Value::Uninit) };
    if by_ref {
        // the state is moved out so that it can be extended in place
        it.store_ref(&a[0], Value::Uninit)?;
    }
    let Value::Term(t) = &mut h else { return Err(it.abort("update of an unknown hash state")) };
    let t = Rc::make_mut(t);
    if !t.0.starts_with("hasher ") {
        return Err(it.abort("update of an unknown hash state"));
    }
    let ok = match &mut t.1[0] {
        Value::Choice(l) => Rc::make_mut(l).iter_mut().all(|(_, v)| hash_more(v, &add)),
        v => hash_more(v, &add),
    };
    if !ok {
        return Err(it.abort("hash state"));
    }
    if by_ref {
        it.store_ref(&a[0], h)?;
        Ok(Some(Value::unit()))
    } else {
        Ok(Some(h))
    }
}

fn copy_from_slice<'t>(it: &mut Interp<'t>, _: Instance<'t>, a: Vec<Value<'t>>) -> Res<Option<Value<'t>>> {
    let n = it.ptr_meta(&a[0])?;
    let k = it.ptr_meta(&a[1])?;
    let e = it.sym_eq(&n, &k)?;
    let ne = it.dom.bdd.not(e);
    let bad = it.dom.bdd.and(it.pc, ne);
    it.obligations += 1;
    it.panic_at(bad, "panic", "copy_from_slice: source and destination lengths differ");
    it.pc = it.dom.bdd.and(it.pc, e);
    if it.pc == F {
        return Ok(None);
    }
    let v = it.seq_of_slice(&a[1])?;
    it.set_slice(&a[0], v)?;
    Ok(Some(Value::unit()))
}

fn slice_next<'t>(it: &mut Interp<'t>, inst: Instance<'t>, a: Vec<Value<'t>>) -> Res<Option<Value<'t>>> {
    // fast path: both ends at known positions of one sequence
    if let Value::Ref(r) = &a[0] {
        if let Ok(c) = it.cell(r.cell) {
            if let Some(Value::Agg(f)) = get_ref(c, &r.proj) {
                if let [Value::Ref(p), Value::Ref(e), ..] = &f[..] {
                    if p.cell == e.cell && p.proj.len() == e.proj.len() && matches!(p.meta, Meta::None) {
                        let n = p.proj.len();
                        if n > 0 && p.proj[..n - 1] == e.proj[..n - 1] {
                            if let (Proj::Elem(i), Proj::Elem(j)) = (&p.proj[n - 1], &e.proj[n - 1]) {
                                if i == j {
                                    return Ok(Some(Value::none()));
                                }
                                let mut np = p.proj.clone();
                                np[n - 1] = Proj::Elem(i + 1);
                                let old = Value::Ref(p.clone());
                                let new = Value::refv(p.cell, np, Meta::None);
                                let mut proj = r.proj.clone();
                                proj.push(Proj::Field(0));
                                let cell = r.cell;
                                it.set(cell, &proj, new)?;
                                return Ok(Some(Value::some(old)));
                            }
                        }
                    }
                }
            }
        }
    }
    it.call_mir(inst, a, false)
}

// -------------------------------------------------------------------- lazies

fn lazy_eval<'t>(
    it: &mut Interp<'t>,
    cell: u32,
    f: &mut dyn FnMut(&mut Interp<'t>) -> Res<Option<Value<'t>>>,
) -> Res<Option<Value<'t>>> {
    let edge = (it.lazy_running.last().copied(), cell);
    if it.lazy_edges.len() < 10000 && !it.lazy_edges.contains(&edge) {
        it.lazy_edges.push(edge);
    }
    if let Some(c) = it.lazies.get(&cell) {
        return Ok(Some(Value::refv(*c, vec![], Meta::None)));
    }
    if it.lazy_running.contains(&cell) {
        let g = it.pc;
        it.panic_at(g, "lazy-cycle", "a lazily initialised static depends on itself");
        return Ok(None);
    }
    it.lazy_running.push(cell);
    let saved = it.isolate();
    let r = f(it);
    it.restore(saved);
    it.lazy_running.pop();
    match r? {
        Some(v) => {
            let c = it.alloc(v);
            it.lazies.insert(cell, c);
            Ok(Some(Value::refv(c, vec![], Meta::None)))
        }
        None => Ok(None),
    }
}

fn lazy_get<'t>(it: &mut Interp<'t>, inst: Instance<'t>, a: Vec<Value<'t>>) -> Res<Option<Value<'t>>> {
    let Value::Ref(r) = &a[0] else { return Err(it.abort("lazy value")) };
    let cell = r.cell;
    let ft = inst.args.types().last().unwrap();
    let f = a[1].clone();
    let global = it.static_cells.values().any(|c| *c == cell);
    if !global {
        return Err(it.abort("once-only cell that is not a static"));
    }
    // filled from the arguments of the first caller: every call is taken as the first one
    // (that the choice makes no difference is C32's to decide)
    let captures = matches!(ft.kind(), ty::Closure(_, a) if !a.as_closure().upvar_tys().is_empty());
    if captures || !r.proj.is_empty() {
        let Some(v) = it.call_once(ft, f, vec![], vec![])? else { return Ok(None) };
        return Ok(Some(it.ref_to(&v)));
    }
    lazy_eval(it, cell, &mut |it| it.call_once(ft, f.clone(), vec![], vec![]))
}

fn lazylock_get<'t>(it: &mut Interp<'t>, inst: Instance<'t>, a: Vec<Value<'t>>) -> Res<Option<Value<'t>>> {
    let Value::Ref(r) = &a[0] else { return Err(it.abort("lazy value")) };
    let cell = r.cell;
    let ft = inst.args.types().last().unwrap();
    let f = match it.load_ref(&a[0])? {
        Value::Agg(f) => f[0].clone(),
        v => return Err(it.abort(format!("LazyLock is {}", v.kind()))),
    };
    lazy_eval(it, cell, &mut |it| it.call_once(ft, f.clone(), vec![], vec![]))
}

pub fn decode_special<'t>(it: &mut Interp<'t>, t: Ty<'t>, s: &Src<'_>, off: u64) -> Res<Option<Value<'t>>> {
    let ty::Adt(d, args) = t.kind() else { return Ok(None) };
    let k = def_key(it.tcx, d.did());
    match k.as_str() {
        "std::sync::lazy_lock::LazyLock" => {
            let ft = args.type_at(1);
            let l = it.tcx.layout_of(env().as_query_input(t)).map_err(|_| it.abort("layout"))?;
            for (i, f) in d.non_enum_variant().fields.iter().enumerate() {
                if f.name.as_str() == "data" {
                    let v = it.decode(ft, s, off + l.fields.offset(i).bytes())?;
                    return Ok(Some(Value::agg(vec![v])));
                }
            }
            Ok(Some(Value::top("LazyLock")))
        }
        "alloc::vec::Vec" | "alloc::collections::vec_deque::VecDeque" | "alloc::collections::linked_list::LinkedList" => Ok(Some(Value::Seq(empty()))),
        "lazy_static::lazy::Lazy" | "std::sync::once_lock::OnceLock" => Ok(Some(Value::agg(vec![]))),
        "std::collections::hash::map::HashMap" | "std::collections::hash::set::HashSet" => {
            Ok(Some(Value::Map(Rc::new(MapV::default()))))
        }
        "alloc::collections::btree::map::BTreeMap" | "alloc::collections::btree::set::BTreeSet" => {
            Ok(Some(Value::Map(Rc::new(MapV { sorted: true, ..MapV::default() }))))
        }
        _ => Ok(None),
    }
}

// -------------------------------------------------------------------- specification vocabulary

fn spec_any<'t>(it: &mut Interp<'t>, inst: Instance<'t>, a: Vec<Value<'t>>) -> Res<Option<Value<'t>>> {
    let n = it.str_of(&a[0]).unwrap_or_else(|| "input".into());
    let t = inst.args.type_at(0);
    Ok(Some(it.any(t, &n)?))
}

fn spec_assume<'t>(it: &mut Interp<'t>, _: Instance<'t>, a: Vec<Value<'t>>) -> Res<Option<Value<'t>>> {
    let c = it.bool_b(&a[0])?;
    it.pc = it.dom.bdd.and(it.pc, c);
    if it.pc == F {
        return Ok(None);
    }
    Ok(Some(Value::unit()))
}

fn spec_prove<'t>(it: &mut Interp<'t>, _: Instance<'t>, a: Vec<Value<'t>>) -> Res<Option<Value<'t>>> {
    let c = it.bool_b(&a[0])?;
    let msg = it.str_of(&a[1]).unwrap_or_else(|| "obligation".into());
    let nc = it.dom.bdd.not(c);
    let bad = it.dom.bdd.and(it.pc, nc);
    it.obligations += 1;
    let e = it.proved.entry(msg.clone()).or_insert((0, 0));
    e.0 += 1;
    if bad == F {
        e.1 += 1;
    } else if it.failures.iter().filter(|f| f.msg == msg).count() < 3 {
        it.fail(bad, "obligation", &msg);
    } else {
        it.more_failures += 1;
    }
    Ok(Some(Value::unit()))
}

fn spec_cover<'t>(it: &mut Interp<'t>, _: Instance<'t>, a: Vec<Value<'t>>) -> Res<Option<Value<'t>>> {
    let c = it.bool_b(&a[0])?;
    let msg = it.str_of(&a[1]).unwrap_or_else(|| "cover".into());
    let g = it.dom.bdd.and(it.pc, c);
    let e = it.covered.entry(msg).or_insert(false);
    if g != F {
        *e = true;
    }
    Ok(Some(Value::unit()))
}

fn spec_catch<'t>(it: &mut Interp<'t>, inst: Instance<'t>, a: Vec<Value<'t>>) -> Res<Option<Value<'t>>> {
    let tys: Vec<Ty<'t>> = inst.args.types().collect();
    let ft = tys[1];
    let pc0 = it.pc;
    it.catch.push(F);
    let r = it.call_once(ft, a[0].clone(), vec![], vec![])?;
    it.catch.pop();
    let pc1 = it.pc;
    it.pc = pc0;
    Ok(Some(match r {
        None => Value::none(),
        Some(v) => {
            let s = Value::some(v);
            if pc1 == pc0 {
                s
            } else {
                it.dom.ite(pc1, &s, &Value::none())
            }
        }
    }))
}

// -------------------------------------------------------------------- Vec

fn elem_clone_model(k: &str) -> bool {
    matches!(k, "extend_from_slice" | "resize")
}

fn vec_lookup<'t>(it: &mut Interp<'t>, k: &str, inst: Instance<'t>) -> Option<Disp<'t>> {
    let _ = elem_clone_model;
    match k {
        "new" | "new_in" | "with_capacity" | "with_capacity_in" | "Default::default" => m(|_, _, _| Ok(Some(Value::Seq(empty())))),
        "len" => m(|it, _, a| {
            it.on_container(&a[0], &mut |it, r| Ok(Some(Value::usize(it.seq_len(r)?))))
        }),
        "is_empty" => m(|it, _, a| {
            it.on_container(&a[0], &mut |it, r| Ok(Some(Value::bool(it.seq_len(r)? == 0))))
        }),
        "capacity" => m(|_, _, _| Ok(Some(Value::top("capacity of a vector")))),
        "reserve" | "reserve_exact" | "shrink_to_fit" | "shrink_to" => m(|_, _, _| Ok(Some(Value::unit()))),
        "push" | "push_mut" => m(|it, _, a| {
            let v = a[1].clone();
            it.on_container(&a[0], &mut |it, r| {
                let Value::Ref(x) = r else { return Err(it.abort("vector reference")) };
                let n = it.seq_len(r)?;
                let mut p = x.proj.clone();
                p.push(Proj::Elem(n));
                it.set(x.cell, &p, v.clone())?;
                Ok(Some(Value::unit()))
            })
        }),
        "pop" => m(|it, _, a| {
            it.on_container(&a[0], &mut |it, r| {
                let mut v = it.seq_of_slice(r)?;
                let x = v.pop();
                it.store_ref(r, Value::Seq(Rc::new(v)))?;
                Ok(Some(match x {
                    Some(v) => Value::some(v),
                    None => Value::none(),
                }))
            })
        }),
        "clear" => m(|it, _, a| {
            it.store_ref(&a[0], Value::Seq(empty()))?;
            Ok(Some(Value::unit()))
        }),
        "truncate" | "set_len" => m(|it, _, a| {
            let Some(n) = a[1].as_const() else { return Err(it.unknown("truncate to an unknown length")) };
            it.on_container(&a[0], &mut |it, r| {
                let mut v = it.seq_of_slice(r)?;
                v.truncate(n as usize);
                it.store_ref(r, Value::Seq(Rc::new(v)))?;
                Ok(Some(Value::unit()))
            })
        }),
        "insert" => m(|it, _, a| {
            let Some(i) = a[1].as_const() else { return Err(it.unknown("insert at an unknown position")) };
            it.on_container(&a[0], &mut |it, r| {
                let mut v = it.seq_of_slice(r)?;
                if i as usize > v.len() {
                    let g = it.pc;
                    it.panic_at(g, "panic", "insertion index out of bounds");
                    return Ok(None);
                }
                v.insert(i as usize, a[2].clone());
                it.store_ref(r, Value::Seq(Rc::new(v)))?;
                Ok(Some(Value::unit()))
            })
        }),
        "remove" | "swap_remove" => {
            let swap = k == "swap_remove";
            if swap {
                return m(|it, _, a| {
                    let Some(i) = a[1].as_const() else { return Err(it.unknown("removal at an unknown position")) };
                    it.on_container(&a[0], &mut |it, r| {
                        let mut v = it.seq_of_slice(r)?;
                        if i as usize >= v.len() {
                            let g = it.pc;
                            it.panic_at(g, "panic", "removal index out of bounds");
                            return Ok(None);
                        }
                        let x = v.swap_remove(i as usize);
                        it.store_ref(r, Value::Seq(Rc::new(v)))?;
                        Ok(Some(x))
                    })
                });
            }
            m(|it, _, a| {
                let Some(i) = a[1].as_const() else { return Err(it.unknown("removal at an unknown position")) };
                it.on_container(&a[0], &mut |it, r| {
                    let mut v = it.seq_of_slice(r)?;
                    if i as usize >= v.len() {
                        let g = it.pc;
                        it.panic_at(g, "panic", "removal index out of bounds");
                        return Ok(None);
                    }
                    let x = v.remove(i as usize);
                    it.store_ref(r, Value::Seq(Rc::new(v)))?;
                    Ok(Some(x))
                })
            })
        }
        "as_slice" | "as_mut_slice" | "Deref::deref" | "DerefMut::deref_mut" | "AsRef::as_ref" | "AsMut::as_mut"
        | "Borrow::borrow" | "leak" => {
            if k == "AsRef::as_ref" || k == "AsMut::as_mut" {
                let f = it.tcx.fn_sig(inst.def_id()).instantiate(it.tcx, inst.args).skip_norm_wip();
                let f = it.tcx.normalize_erasing_late_bound_regions(env(), f);
                if !matches!(strip_ref(f.output()).kind(), ty::Slice(_)) {
                    return None;
                }
            }
            m(|it, _, a| {
                it.on_container(&a[0], &mut |it, r| {
                    let n = it.seq_len(r)?;
                    let Value::Ref(x) = r else { return Err(it.abort("vector reference")) };
                    Ok(Some(Value::refv(x.cell, x.proj.clone(), Meta::Slice(Value::usize(0), Value::usize(n)))))
                })
            })
        }
        "as_ptr" | "as_mut_ptr" => m(|it, _, a| {
            let Value::Ref(x) = &a[0] else { return Err(it.abort("vector reference")) };
            let mut p = x.proj.clone();
            p.push(Proj::Elem(0));
            Ok(Some(Value::refv(x.cell, p, Meta::None)))
        }),
        "append" => m(|it, _, a| {
            let b = it.seq_of_slice(&a[1])?;
            it.store_ref(&a[1], Value::Seq(empty()))?;
            it.on_container(&a[0], &mut |it, r| {
                let mut v = it.seq_of_slice(r)?;
                v.extend(b.iter().cloned());
                it.store_ref(r, Value::Seq(Rc::new(v)))?;
                Ok(Some(Value::unit()))
            })
        }),
        "extend_from_slice" => m(|it, inst, a| {
            let t = inst.args.type_at(0);
            let Some(b) = it.clone_slice(t, &a[1])? else { return Ok(None) };
            it.on_container(&a[0], &mut |it, r| {
                let Value::Ref(x) = r else { return Err(it.abort("vector reference")) };
                let n = it.seq_len(r)?;
                for (i, v) in b.iter().enumerate() {
                    let mut p = x.proj.clone();
                    p.push(Proj::Elem(n + i as u64));
                    it.set(x.cell, &p, v.clone())?;
                }
                Ok(Some(Value::unit()))
            })
        }),
        "extend_from_within" => m(|it, inst, a| {
            let t = inst.args.type_at(0);
            let rt = inst.args.types().last().unwrap();
            let v = it.seq_of_slice(&a[0])?;
            let Some((lo, hi)) = it.range_of(rt, &a[1], v.len())? else { return Ok(None) };
            let c = it.alloc(Value::agg(v[lo..hi].to_vec()));
            let sl = Value::refv(c, vec![], Meta::Slice(Value::usize(0), Value::usize((hi - lo) as u64)));
            let Some(b) = it.clone_slice(t, &sl)? else { return Ok(None) };
            let mut v = v;
            v.extend(b);
            it.store_ref(&a[0], Value::Seq(Rc::new(v)))?;
            Ok(Some(Value::unit()))
        }),
        "dedup" => {
            if !structural(it.tcx, inst.args.type_at(0)) {
                return None;
            }
            m(|it, _, a| {
                let v = it.seq_of_slice(&a[0])?;
                let mut out: Vec<Value<'_>> = vec![];
                for x in v {
                    if let Some(l) = out.last().cloned() {
                        let e = it.sym_eq(&l, &x)?;
                        let e = it.dom.bdd.and(e, it.pc);
                        if e == it.pc {
                            continue;
                        }
                        if e != F {
                            return Err(it.abort("dedup of undetermined values"));
                        }
                    }
                    out.push(x);
                }
                it.store_ref(&a[0], Value::Seq(Rc::new(out)))?;
                Ok(Some(Value::unit()))
            })
        }
        "dedup_by_key" => m(|it, inst, a| {
            let ts: Vec<Ty<'_>> = inst.args.types().collect();
            let (t, ft) = (ts[0], *ts.iter().rev().find(|t| matches!(t.kind(), ty::Closure(..) | ty::FnDef(..) | ty::FnPtr(..))).unwrap_or(&ts[0]));
            let rt = Ty::new_mut_ref(it.tcx, it.tcx.lifetimes.re_erased, t);
            let fc = it.alloc(a[1].clone());
            let v = it.seq_of_slice(&a[0])?;
            let mut out: Vec<Value<'_>> = vec![];
            let mut last: Option<Value<'_>> = None;
            for x in v {
                let r = it.ref_to(&x);
                let Some(kv) = it.call_mut(ft, fc, vec![r], vec![rt])? else { return Ok(None) };
                if let Some(l) = &last {
                    let e = it.sym_eq(l, &kv)?;
                    let e = it.dom.bdd.and(e, it.pc);
                    if e == it.pc {
                        continue;
                    }
                    if e != F {
                        return Err(it.abort("dedup of undetermined values"));
                    }
                }
                last = Some(kv);
                out.push(x);
            }
            it.store_ref(&a[0], Value::Seq(Rc::new(out)))?;
            Ok(Some(Value::unit()))
        }),
        "resize" => m(|it, _, a| {
            let Some(n) = a[1].as_const() else { return Err(it.unknown("resize to an unknown length")) };
            it.on_container(&a[0], &mut |it, r| {
                let mut v = it.seq_of_slice(r)?;
                v.resize(n as usize, a[2].clone());
                it.store_ref(r, Value::Seq(Rc::new(v)))?;
                Ok(Some(Value::unit()))
            })
        }),
        "resize_with" => m(|it, inst, a| {
            let Some(n) = a[1].as_const() else { return Err(it.unknown("resize to an unknown length")) };
            let ft = inst.args.types().last().unwrap();
            it.on_container(&a[0], &mut |it, r| {
                let mut v = it.seq_of_slice(r)?;
                v.truncate(n as usize);
                while v.len() < n as usize {
                    match it.call_once(ft, a[2].clone(), vec![], vec![])? {
                        Some(x) => v.push(x),
                        None => return Ok(None),
                    }
                }
                it.store_ref(r, Value::Seq(Rc::new(v)))?;
                Ok(Some(Value::unit()))
            })
        }),
        "split_off" => m(|it, _, a| {
            let Some(n) = a[1].as_const() else { return Err(it.unknown("split at an unknown position")) };
            let mut v = it.seq_of_slice(&a[0])?;
            if n as usize > v.len() {
                let g = it.pc;
                it.panic_at(g, "panic", "split_off out of bounds");
                return Ok(None);
            }
            let t = v.split_off(n as usize);
            it.store_ref(&a[0], Value::Seq(Rc::new(v)))?;
            Ok(Some(Value::Seq(Rc::new(t))))
        }),
        "into_boxed_slice" => m(|it, _, a| {
            let Value::Seq(f) = &a[0] else { return Err(it.abort("vector")) };
            let n = f.len() as u64;
            let c = it.alloc(a[0].clone());
            Ok(Some(Value::agg(vec![
                Value::refv(c, vec![], Meta::Slice(Value::usize(0), Value::usize(n))),
                Value::unit(),
            ])))
        }),
        "Clone::clone" => m(|it, inst, a| {
            let t = inst.args.type_at(0);
            it.on_container(&a[0], &mut |it, r| {
                Ok(it.clone_slice(t, r)?.map(|v| Value::Seq(Rc::new(v))))
            })
        }),
        "drain" => m(|it, inst, a| {
            let rt = inst.args.types().last().unwrap();
            let mut v = it.seq_of_slice(&a[0])?;
            let rt = match it.tcx.def_kind(inst.def_id()) {
                _ => inst.args.types().filter(|t| matches!(t.kind(), ty::Adt(d, _) if def_key(it.tcx, d.did()).starts_with("core::ops::range"))).last().unwrap_or(rt),
            };
            let Some((lo, hi)) = it.range_of(rt, &a[1], v.len())? else { return Ok(None) };
            let out: Vec<_> = v.drain(lo..hi).collect();
            it.store_ref(&a[0], Value::Seq(Rc::new(v)))?;
            Ok(Some(list_iter(it, Value::agg(out))))
        }),
        "splice" => m(|it, inst, a| {
            let f = it.tcx.fn_sig(inst.def_id()).instantiate(it.tcx, inst.args).skip_norm_wip();
            let f = it.tcx.normalize_erasing_late_bound_regions(env(), f);
            let (rt, nt) = (f.inputs()[1], f.inputs()[2]);
            let Some((ity, iter)) = it.into_iter(nt, a[2].clone())? else { return Ok(None) };
            let Some(new) = it.gather(ity, iter)? else { return Ok(None) };
            let Value::Seq(new) = new else { return Err(it.abort("splice of an undetermined sequence")) };
            let mut v = it.seq_of_slice(&a[0])?;
            let Some((lo, hi)) = it.range_of(rt, &a[1], v.len())? else { return Ok(None) };
            let out: Vec<_> = v.splice(lo..hi, new.iter().cloned()).collect();
            it.store_ref(&a[0], Value::Seq(Rc::new(v)))?;
            Ok(Some(list_iter(it, Value::agg(out))))
        }),
        "retain" | "retain_mut" => m(|it, inst, a| {
            let ft = inst.args.types().last().unwrap();
            let t = inst.args.type_at(0);
            let tcx = it.tcx;
            let v = it.seq_of_slice(&a[0])?;
            let fc = it.alloc(a[1].clone());
            let tr = tcx.lang_items().fn_mut_trait().unwrap();
            let by_mut = it.tcx.item_name(inst.def_id()).as_str() == "retain_mut";
            let rt = if by_mut { Ty::new_mut_ref(tcx, tcx.lifetimes.re_erased, t) } else { Ty::new_imm_ref(tcx, tcx.lifetimes.re_erased, t) };
            let tup = Ty::new_tup(tcx, &[rt]);
            let i = it.trait_fn(tr, "call_mut", &[ft.into(), tup.into()])?;
            let mut out = vec![];
            for x in v {
                let c = it.alloc(x.clone());
                let arg = Value::agg(vec![Value::refv(c, vec![], Meta::None)]);
                match it.call(i, vec![Value::refv(fc, vec![], Meta::None), arg], true)? {
                    Some(Value::Int(_, 1)) => out.push(it.load_ref(&Value::refv(c, vec![], Meta::None))?),
                    Some(Value::Int(_, _)) => {}
                    Some(_) => return Err(it.abort("retain on an undetermined condition")),
                    None => return Ok(None),
                }
            }
            it.store_ref(&a[0], Value::Seq(Rc::new(out)))?;
            Ok(Some(Value::unit()))
        }),
        "IntoIterator::into_iter" => m(|it, inst, a| {
            // IntoIter { buf, phantom, cap, alloc, ptr, end }
            let _ = inst;
            let Value::Seq(f) = &a[0] else {
                return Err(it.abort(format!("into_iter of {}", a[0].kind())));
            };
            let n = f.len() as u64;
            let c = it.alloc(Value::Agg(f.clone()));
            let p = |i: u64| Value::refv(c, vec![Proj::Elem(i)], Meta::None);
            Ok(Some(Value::agg(vec![p(0), Value::unit(), Value::usize(n), Value::unit(), p(0), p(n)])))
        }),
        "FromIterator::from_iter" | "SpecFromIter::from_iter" | "SpecFromIterNested::from_iter" => m(|it, inst, a| {
            let ts: Vec<Ty<'_>> = inst.args.types().collect();
            let t = *ts.last().unwrap();
            let Some((ity, iter)) = it.into_iter(t, a[0].clone())? else { return Ok(None) };
            it.gather(ity, iter)
        }),
        "Extend::extend" => {
            let f = it.tcx.fn_sig(inst.def_id()).instantiate(it.tcx, inst.args).skip_norm_wip();
            let f = it.tcx.normalize_erasing_late_bound_regions(env(), f);
            let _ = f;
            m(|it, inst, a| {
                let f = it.tcx.fn_sig(inst.def_id()).instantiate(it.tcx, inst.args).skip_norm_wip();
                let f = it.tcx.normalize_erasing_late_bound_regions(env(), f);
                let t = f.inputs()[1];
                let vt = match strip_ref(f.inputs()[0]).kind() {
                    ty::Adt(_, a) => a.type_at(0),
                    _ => return Err(it.abort("extend")),
                };
                let Some((ity, iter)) = it.into_iter(t, a[1].clone())? else { return Ok(None) };
                let Some(all) = it.gather(ity, iter)? else { return Ok(None) };
                let cases = match all {
                    Value::Choice(l) => l.to_vec(),
                    v => vec![(T, v)],
                };
                let conds: Vec<B> = cases.iter().map(|x| x.0).collect();
                it.fork(&conds, &mut |it, k| {
                    let Value::Seq(out) = &cases[k].1 else { return Err(it.abort("extend")) };
                    let mut out = out.to_vec();
                    // Extend<&T> copies
                    if !matches!(vt.kind(), ty::Ref(..)) {
                        for x in out.iter_mut() {
                            if let Value::Ref(_) = x {
                                *x = it.load_ref(x)?;
                            }
                        }
                    }
                    it.on_container(&a[0], &mut |it, r| {
                        let mut v = it.seq_of_slice(r)?;
                        v.extend(out.iter().cloned());
                        it.store_ref(r, Value::Seq(Rc::new(v)))?;
                        Ok(Some(Value::unit()))
                    })
                })
            })
        }
        "From::from" => m(|it, inst, a| {
            let f = it.tcx.fn_sig(inst.def_id()).instantiate(it.tcx, inst.args).skip_norm_wip();
            let f = it.tcx.normalize_erasing_late_bound_regions(env(), f);
            let _ = f;
            let mut s = false;
            let v = match &a[0] {
                Value::Agg(f) if f.len() == 2 && matches!(&f[0], Value::Ref(r) if matches!(r.meta, Meta::Slice(..))) => {
                    it.seq_of_slice(&f[0].clone())?
                }
                v => it.seq_of_any(v, &mut s)?,
            };
            Ok(Some(Value::Seq(Rc::new(v))))
        }),
        _ => None,
    }
}

/// Queues and lists: the same sequence of elements as a vector.
fn deque_lookup<'t>(it: &mut Interp<'t>, k: &str, inst: Instance<'t>) -> Option<Disp<'t>> {
    fn elem_ref<'t>(it: &mut Interp<'t>, r: &Value<'t>, i: u64) -> Res<Value<'t>> {
        let Value::Ref(x) = r else { return Err(it.abort("queue reference")) };
        let mut p = x.proj.clone();
        p.push(Proj::Elem(i));
        Ok(Value::refv(x.cell, p, Meta::None))
    }
    fn refs<'t>(it: &mut Interp<'t>, r: &Value<'t>) -> Res<Value<'t>> {
        let n = it.seq_len(r)?;
        let mut o = vec![];
        for i in 0..n {
            o.push(elem_ref(it, r, i)?);
        }
        Ok(list_iter(it, Value::agg(o)))
    }
    match k {
        "push_back" => vec_lookup(it, "push", inst),
        "pop_back" => vec_lookup(it, "pop", inst),
        "make_contiguous" => vec_lookup(it, "as_mut_slice", inst),
        "new" | "with_capacity" | "Default::default" | "len" | "is_empty" | "capacity" | "reserve" | "reserve_exact" | "shrink_to_fit" | "clear"
        | "truncate" | "insert" | "append" | "resize" | "split_off" | "Clone::clone" | "drain" | "retain" | "FromIterator::from_iter"
        | "Extend::extend" | "From::from" => vec_lookup(it, k, inst),
        "rotate_left" | "rotate_right" => {
            if k == "rotate_left" {
                m(|it, _, a| it.on_container(&a[0].clone(), &mut |it, r| rotate_deque(it, r, &a[1], true)))
            } else {
                m(|it, _, a| it.on_container(&a[0].clone(), &mut |it, r| rotate_deque(it, r, &a[1], false)))
            }
        }
        "swap" => m(|it, _, a| {
            let (Some(i), Some(j)) = (a[1].as_const(), a[2].as_const()) else { return Err(it.unknown("swap at an unknown position")) };
            it.on_container(&a[0], &mut |it, r| {
                let mut v = it.seq_of_slice(r)?;
                if i as usize >= v.len() || j as usize >= v.len() {
                    let g = it.pc;
                    it.panic_at(g, "panic", "queue index out of bounds");
                    return Ok(None);
                }
                v.swap(i as usize, j as usize);
                it.store_ref(r, Value::Seq(Rc::new(v)))?;
                Ok(Some(Value::unit()))
            })
        }),
        "push_front" => m(|it, _, a| {
            it.on_container(&a[0], &mut |it, r| {
                let mut v = it.seq_of_slice(r)?;
                v.insert(0, a[1].clone());
                it.store_ref(r, Value::Seq(Rc::new(v)))?;
                Ok(Some(Value::unit()))
            })
        }),
        "pop_front" => m(|it, _, a| {
            it.on_container(&a[0], &mut |it, r| {
                let mut v = it.seq_of_slice(r)?;
                if v.is_empty() {
                    return Ok(Some(Value::none()));
                }
                let x = v.remove(0);
                it.store_ref(r, Value::Seq(Rc::new(v)))?;
                Ok(Some(Value::some(x)))
            })
        }),
        "front" | "front_mut" => m(|it, _, a| {
            it.on_container(&a[0], &mut |it, r| {
                Ok(Some(if it.seq_len(r)? == 0 { Value::none() } else { Value::some(elem_ref(it, r, 0)?) }))
            })
        }),
        "back" | "back_mut" => m(|it, _, a| {
            it.on_container(&a[0], &mut |it, r| {
                let n = it.seq_len(r)?;
                Ok(Some(if n == 0 { Value::none() } else { Value::some(elem_ref(it, r, n - 1)?) }))
            })
        }),
        "get" | "get_mut" => m(|it, _, a| {
            let Some(i) = a[1].as_const() else { return Err(it.unknown("queue element at an unknown position")) };
            it.on_container(&a[0], &mut |it, r| {
                let n = it.seq_len(r)?;
                Ok(Some(if i as u64 >= n { Value::none() } else { Value::some(elem_ref(it, r, i as u64)?) }))
            })
        }),
        "iter" | "iter_mut" => m(|it, _, a| it.on_container(&a[0], &mut |it, r| Ok(Some(refs(it, r)?)))),
        "IntoIterator::into_iter" => m(|it, _, a| match &a[0] {
            Value::Seq(_) => Ok(Some(list_iter(it, a[0].clone()))),
            Value::Ref(_) => it.on_container(&a[0], &mut |it, r| Ok(Some(refs(it, r)?))),
            v => Err(it.abort(format!("into_iter of {}", v.kind()))),
        }),
        "PartialEq::eq" if structural(it.tcx, inst.args.type_at(0)) => m(eq_model),
        "contains" if structural(it.tcx, inst.args.type_at(0)) => m(|it, _, a| {
            let v = it.seq_of_slice(&a[0])?;
            let x = it.load_ref(&a[1])?;
            let mut r = F;
            for e in v {
                let q = it.sym_eq(&e, &x)?;
                r = it.dom.bdd.or(r, q);
            }
            Ok(Some(Dom::bool_of(r)))
        }),
        _ => None,
    }
}

impl<'t> Interp<'t> {
    /// The bounds a range expression selects in a sequence of `n` elements.
    fn range_of(&mut self, t: Ty<'t>, v: &Value<'t>, n: usize) -> Res<Option<(usize, usize)>> {
        let name = match t.kind() {
            ty::Adt(d, _) => self.tcx.item_name(d.did()).to_string(),
            _ => return Err(self.abort("range type")),
        };
        let f = match v {
            Value::Agg(f) => (**f).clone(),
            _ => vec![],
        };
        let mut c = vec![];
        for x in &f {
            match x.as_const() {
                Some(x) => c.push(x as usize),
                None => return Err(self.abort("undetermined range")),
            }
        }
        let (lo, hi) = match (name.as_str(), c.as_slice()) {
            ("RangeFull", _) => (0, n),
            ("Range", [a, b]) => (*a, *b),
            ("RangeFrom", [a]) => (*a, n),
            ("RangeTo", [b]) => (0, *b),
            ("RangeInclusive", [a, b, _]) => (*a, b + 1),
            ("RangeToInclusive", [b]) => (0, b + 1),
            _ => return Err(self.abort(format!("range {name}"))),
        };
        if lo > hi || hi > n {
            let g = self.pc;
            self.panic_at(g, "panic", "range out of bounds");
            return Ok(None);
        }
        Ok(Some((lo, hi)))
    }
}

/// A generic consuming iterator: [reference to the list, position, end].
fn list_iter<'t>(it: &mut Interp<'t>, v: Value<'t>) -> Value<'t> {
    let n = match &v {
        Value::Seq(f) | Value::Agg(f) => f.len(),
        _ => 0,
    };
    let c = it.alloc(v);
    Value::agg(vec![Value::refv(c, vec![], Meta::None), Value::usize(0), Value::usize(n as u64)])
}

fn list_parts<'t>(it: &mut Interp<'t>, r: &Value<'t>) -> Res<(Value<'t>, u64, u64)> {
    match it.load_ref(r)? {
        Value::Agg(f) if f.len() == 3 => match (f[1].as_const(), f[2].as_const()) {
            (Some(i), Some(n)) => Ok((f[0].clone(), i as u64, n as u64)),
            _ => Err(it.abort("position of a container iterator is undetermined")),
        },
        v => Err(it.abort(format!("container iterator is {}", v.kind()))),
    }
}

fn list_next<'t>(it: &mut Interp<'t>, _: Instance<'t>, a: Vec<Value<'t>>) -> Res<Option<Value<'t>>> {
    let (l, i, n) = list_parts(it, &a[0])?;
    if i >= n {
        return Ok(Some(Value::none()));
    }
    let Value::Ref(r) = &l else { return Err(it.abort("container iterator")) };
    let v = it.get(r.cell, &[Proj::Elem(i)])?;
    it.store_ref(&a[0], Value::agg(vec![l.clone(), Value::usize(i + 1), Value::usize(n)]))?;
    Ok(Some(Value::some(v)))
}

fn list_next_back<'t>(it: &mut Interp<'t>, _: Instance<'t>, a: Vec<Value<'t>>) -> Res<Option<Value<'t>>> {
    let (l, i, n) = list_parts(it, &a[0])?;
    if i >= n {
        return Ok(Some(Value::none()));
    }
    let Value::Ref(r) = &l else { return Err(it.abort("container iterator")) };
    let v = it.get(r.cell, &[Proj::Elem(n - 1)])?;
    it.store_ref(&a[0], Value::agg(vec![l.clone(), Value::usize(i), Value::usize(n - 1)]))?;
    Ok(Some(Value::some(v)))
}

fn list_size_hint<'t>(it: &mut Interp<'t>, _: Instance<'t>, a: Vec<Value<'t>>) -> Res<Option<Value<'t>>> {
    let (_, i, n) = list_parts(it, &a[0])?;
    let k = Value::usize(n.saturating_sub(i));
    Ok(Some(Value::agg(vec![k.clone(), Value::some(k)])))
}

// -------------------------------------------------------------------- maps and sets

fn prim_ord<'t>(tcx: TyCtxt<'t>, t: Ty<'t>) -> bool {
    match t.kind() {
        ty::Uint(_) | ty::Bool | ty::Char | ty::Str => true,
        ty::Ref(_, t, _) | ty::Slice(t) | ty::Array(t, _) => prim_ord(tcx, *t),
        ty::Tuple(ts) => ts.iter().all(|t| prim_ord(tcx, t)),
        _ => adt_is(tcx, t, "alloc::string::String"),
    }
}

impl<'t> Interp<'t> {
    pub fn ref_to(&mut self, v: &Value<'t>) -> Value<'t> {
        let c = self.alloc(v.clone());
        Value::refv(c, vec![], Meta::None)
    }

    /// Call a closure or function value of type `ft` stored in a cell.
    pub fn call_mut(&mut self, ft: Ty<'t>, cell: u32, args: Vec<Value<'t>>, at: Vec<Ty<'t>>) -> Res<Option<Value<'t>>> {
        let tcx = self.tcx;
        let tr = tcx.lang_items().fn_mut_trait().unwrap();
        let tup = Ty::new_tup(tcx, &at);
        let i = self.trait_fn(tr, "call_mut", &[ft.into(), tup.into()])?;
        self.call(i, vec![Value::refv(cell, vec![], Meta::None), Value::agg(args)], true)
    }

    fn ordering(&mut self, v: Option<Value<'t>>) -> Res<Option<Ordering>> {
        match v {
            Some(Value::Enum1(0, _)) => Ok(Some(Ordering::Less)),
            Some(Value::Enum1(1, _)) => Ok(Some(Ordering::Equal)),
            Some(Value::Enum1(2, _)) => Ok(Some(Ordering::Greater)),
            Some(_) => Err(self.abort("ordering of undetermined values")),
            None => Ok(None),
        }
    }

    /// `Ord::cmp` of two values of type `t`; None if it does not return.
    fn cmp_values(&mut self, t: Ty<'t>, a: &Value<'t>, b: &Value<'t>) -> Res<Option<Ordering>> {
        if prim_ord(self.tcx, t) {
            if let Some(o) = val_cmp(self, a, b) {
                return Ok(Some(o));
            }
            return Err(self.abort("ordering of undetermined values"));
        }
        let tcx = self.tcx;
        let tr = tcx.get_diagnostic_item(rustc_span::sym::Ord).unwrap();
        let i = self.trait_fn(tr, "cmp", &[t.into()])?;
        let x = self.ref_to(a);
        let y = self.ref_to(b);
        let r = self.call(i, vec![x, y], false)?;
        self.ordering(r)
    }

    /// Stable merge sort with a comparison that may itself be analysed code.
    fn sort_values(
        &mut self,
        v: Vec<Value<'t>>,
        f: &mut dyn FnMut(&mut Self, &Value<'t>, &Value<'t>) -> Res<Option<Ordering>>,
    ) -> Res<Option<Vec<Value<'t>>>> {
        if v.len() < 2 {
            return Ok(Some(v));
        }
        let mut l = v;
        let r = l.split_off(l.len() / 2);
        let Some(l) = self.sort_values(l, f)? else { return Ok(None) };
        let Some(r) = self.sort_values(r, f)? else { return Ok(None) };
        let (mut i, mut j) = (0, 0);
        let mut out = Vec::with_capacity(l.len() + r.len());
        while i < l.len() && j < r.len() {
            match f(self, &r[j], &l[i])? {
                Some(Ordering::Less) => {
                    out.push(r[j].clone());
                    j += 1;
                }
                Some(_) => {
                    out.push(l[i].clone());
                    i += 1;
                }
                None => return Ok(None),
            }
        }
        out.extend_from_slice(&l[i..]);
        out.extend_from_slice(&r[j..]);
        Ok(Some(out))
    }
}

/// (tag of the map reference, index, key) triples standing for map entries.
fn entry_parts<'t>(it: &mut Interp<'t>, v: &Value<'t>, n: usize) -> Res<Vec<Value<'t>>> {
    let v = match v {
        Value::Ref(_) => it.load_ref(v)?,
        v => v.clone(),
    };
    match &v {
        Value::Agg(f) if f.len() == n => Ok((**f).clone()),
        v => Err(it.abort(format!("map entry is {}", v.kind()))),
    }
}

fn entry_slot<'t>(it: &mut Interp<'t>, f: &[Value<'t>]) -> Res<Value<'t>> {
    let Value::Ref(r) = &f[0] else { return Err(it.abort("map reference")) };
    let mut p = r.proj.clone();
    p.push(it.idx_proj(&f[1])?);
    Ok(Value::refv(r.cell, p, Meta::None))
}

fn entry_lookup<'t>(k: &str) -> Option<Disp<'t>> {
    let (ty, me) = k.rsplit_once('|')?;
    if ty.ends_with("::OccupiedEntry") {
        return match me {
            "get" | "get_mut" | "into_mut" => m(|it, _, a| {
                let f = entry_parts(it, &a[0], 3)?;
                Ok(Some(entry_slot(it, &f)?))
            }),
            "key" => m(|it, _, a| {
                let f = entry_parts(it, &a[0], 3)?;
                Ok(Some(it.ref_to(&f[2])))
            }),
            "insert" => m(|it, _, a| {
                let f = entry_parts(it, &a[0], 3)?;
                let s = entry_slot(it, &f)?;
                let old = it.load_ref(&s)?;
                it.store_ref(&s, a[1].clone())?;
                Ok(Some(old))
            }),
            "remove" | "remove_entry" => {
                if me == "remove" {
                    m(|it, _, a| {
                        let f = entry_parts(it, &a[0], 3)?;
                        match it.map_remove(&f[0], &f[2])? {
                            Some(e) => Ok(Some(e.1)),
                            None => Err(it.abort("map entry")),
                        }
                    })
                } else {
                    m(|it, _, a| {
                        let f = entry_parts(it, &a[0], 3)?;
                        match it.map_remove(&f[0], &f[2])? {
                            Some(e) => Ok(Some(Value::agg(vec![e.0, e.1]))),
                            None => Err(it.abort("map entry")),
                        }
                    })
                }
            }
            _ => None,
        };
    }
    if ty.ends_with("::VacantEntry") {
        return match me {
            "key" => m(|it, _, a| {
                let f = entry_parts(it, &a[0], 2)?;
                Ok(Some(it.ref_to(&f[1])))
            }),
            "into_key" => m(|it, _, a| {
                let f = entry_parts(it, &a[0], 2)?;
                Ok(Some(f[1].clone()))
            }),
            "insert" | "insert_entry" => {
                fn ins<'t>(it: &mut Interp<'t>, a: &[Value<'t>]) -> Res<Vec<Value<'t>>> {
                    let f = entry_parts(it, &a[0], 2)?;
                    let mut mp = it.map_at(&f[0])?;
                    it.store_ref(&f[0], Value::Uninit)?;
                    it.map_insert(&mut mp, f[1].clone(), a[1].clone())?;
                    let n = mp.entries.len() as u64 - 1;
                    it.store_ref(&f[0], Value::Map(mp))?;
                    Ok(vec![f[0].clone(), Value::usize(n), f[1].clone()])
                }
                if me == "insert" {
                    m(|it, _, a| {
                        let f = ins(it, &a)?;
                        Ok(Some(entry_slot(it, &f)?))
                    })
                } else {
                    m(|it, _, a| Ok(Some(Value::agg(ins(it, &a)?))))
                }
            }
            _ => None,
        };
    }
    None
}

pub fn val_cmp<'t>(it: &mut Interp<'t>, a: &Value<'t>, b: &Value<'t>) -> Option<Ordering> {
    match (a, b) {
        (Value::Int(_, x), Value::Int(_, y)) => Some(x.cmp(y)),
        (Value::Enum1(v, f), Value::Enum1(u, g)) => {
            if v != u {
                return Some(v.cmp(u));
            }
            for (x, y) in f.iter().zip(g.iter()) {
                match val_cmp(it, x, y)? {
                    Ordering::Equal => {}
                    o => return Some(o),
                }
            }
            Some(Ordering::Equal)
        }
        (Value::Agg(f) | Value::Seq(f), Value::Agg(g) | Value::Seq(g)) => {
            for (x, y) in f.iter().zip(g.iter()) {
                match val_cmp(it, x, y)? {
                    Ordering::Equal => {}
                    o => return Some(o),
                }
            }
            Some(f.len().cmp(&g.len()))
        }
        (Value::Ref(r), Value::Ref(s)) => {
            if matches!(r.meta, Meta::Slice(..)) && matches!(s.meta, Meta::Slice(..)) {
                let x = it.seq_of_slice(a).ok()?;
                let y = it.seq_of_slice(b).ok()?;
                return val_cmp(it, &Value::agg(x), &Value::agg(y));
            }
            let x = it.load_ref(a).ok()?;
            let y = it.load_ref(b).ok()?;
            val_cmp(it, &x, &y)
        }
        _ => None,
    }
}

impl<'t> Interp<'t> {
    fn map_at(&mut self, r: &Value<'t>) -> Res<Rc<MapV<'t>>> {
        match self.load_ref(r)? {
            Value::Map(m) => Ok(m),
            v => Err(self.abort(format!("map expected, found {}", v.kind()))),
        }
    }

    /// Position of a key: (guard that it is present, index bits).
    fn map_find(&mut self, mp: &Rc<MapV<'t>>, key: &Value<'t>) -> Res<(B, Value<'t>)> {
        let mut k = vec![];
        let key = self.deref_key(key)?;
        if self.const_key(&key, &mut k) {
            if let Some(i) = mp.index.get(&k) {
                return Ok((T, Value::usize(*i as u64)));
            }
            if mp.index.len() == mp.entries.len() {
                return Ok((F, Value::usize(0)));
            }
        }
        let mut found = F;
        let mut idx = Value::usize(0);
        for i in 0..mp.entries.len() {
            let ek = mp.entries[i].0.clone();
            let ek = self.deref_key(&ek)?;
            let e = self.sym_eq(&ek, &key)?;
            if e == F {
                continue;
            }
            found = self.dom.bdd.or(found, e);
            idx = self.dom.ite(e, &Value::usize(i as u64), &idx);
        }
        Ok((found, idx))
    }

    fn deref_key(&mut self, key: &Value<'t>) -> Res<Value<'t>> {
        match key {
            Value::Ref(r) => {
                if let Meta::Slice(..) = r.meta {
                    let v = self.seq_of_slice(key)?;
                    return Ok(Value::agg(v));
                }
                let v = self.load_ref(key)?;
                self.deref_key(&v)
            }
            // String
            Value::Agg(f) if f.len() == 1 && matches!(f[0], Value::Seq(_)) => Ok(f[0].clone()),
            v => Ok(v.clone()),
        }
    }

    fn map_insert(&mut self, mp: &mut Rc<MapV<'t>>, key: Value<'t>, val: Value<'t>) -> Res<Value<'t>> {
        let (found, idx) = self.map_find(mp, &key)?;
        let found_pc = self.dom.bdd.and(found, self.pc);
        if found_pc != F {
            let i = match idx.as_const() {
                Some(i) if found == T || found_pc == self.pc => i as usize,
                _ => return Err(self.abort("insertion of an undetermined key")),
            };
            let mm = Rc::make_mut(mp);
            let old = std::mem::replace(&mut mm.entries[i].1, val);
            return Ok(Value::some(old));
        }
        let dk = self.deref_key(&key)?;
        let mut k = vec![];
        let c = self.const_key(&dk, &mut k);
        let mm = Rc::make_mut(mp);
        if c {
            mm.index.insert(k, mm.entries.len());
        }
        mm.entries.push((key, val));
        Ok(Value::none())
    }

    fn map_order(&mut self, mp: &Rc<MapV<'t>>, t: Ty<'t>) -> Res<Vec<usize>> {
        if !mp.sorted {
            return Ok((0..mp.entries.len()).collect());
        }
        let mut keyed = vec![];
        for (i, e) in mp.entries.iter().enumerate() {
            keyed.push(Value::agg(vec![e.0.clone(), Value::usize(i as u64)]));
        }
        let r = self.sort_values(keyed, &mut |it, x, y| {
            let (Value::Agg(p), Value::Agg(q)) = (x, y) else { return Err(it.abort("sort key")) };
            let (p, q) = (p[0].clone(), q[0].clone());
            it.cmp_values(t, &p, &q)
        })?;
        let Some(r) = r else { return Err(self.abort("key comparison panics")) };
        Ok(r.iter().map(|x| match x {
            Value::Agg(f) => f[1].as_const().unwrap_or(0) as usize,
            _ => 0,
        }).collect())
    }

    /// Positions, in key order, of the entries a range of keys selects.
    fn key_range(&mut self, t: Ty<'t>, rt: Ty<'t>, r: &Value<'t>, mp: &Rc<MapV<'t>>) -> Res<Option<Vec<usize>>> {
        let ty::Adt(d, args) = rt.kind() else { return Err(self.abort("range of keys")) };
        if args.types().next().is_some_and(|x| strip_ref(x) != strip_ref(t)) {
            return Err(self.abort("range of borrowed keys"));
        }
        let f = match r {
            Value::Agg(f) => (**f).clone(),
            _ => vec![],
        };
        // (key, included) of the two ends
        let (lo, hi) = match (self.tcx.item_name(d.did()).as_str(), f.as_slice()) {
            ("RangeFull", _) => (None, None),
            ("Range", [a, b]) => (Some((a, true)), Some((b, false))),
            ("RangeFrom", [a]) => (Some((a, true)), None),
            ("RangeTo", [b]) => (None, Some((b, false))),
            ("RangeInclusive", [a, b, _]) => (Some((a, true)), Some((b, true))),
            ("RangeToInclusive", [b]) => (None, Some((b, true))),
            (n, _) => return Err(self.abort(format!("range of keys given by {n}"))),
        };
        if let (Some((a, _)), Some((b, inc))) = (lo, hi) {
            match self.cmp_values(t, a, b)? {
                None => return Ok(None),
                Some(Ordering::Greater) => {
                    let g = self.pc;
                    self.panic_at(g, "panic", "range start is greater than range end");
                    return Ok(None);
                }
                Some(_) => {}
            }
            let _ = inc;
        }
        let mut out = vec![];
        for i in self.map_order(mp, t)? {
            let e = mp.entries[i].0.clone();
            let mut keep = true;
            for (end, low) in [(lo, true), (hi, false)] {
                let Some((k, inc)) = end else { continue };
                let Some(o) = self.cmp_values(t, &e, k)? else { return Ok(None) };
                keep &= match o {
                    Ordering::Equal => inc,
                    Ordering::Less => !low,
                    Ordering::Greater => low,
                };
            }
            if keep {
                out.push(i);
            }
        }
        Ok(Some(out))
    }

    /// The map without the entries whose index `f` rejects.
    fn map_filter(&mut self, mp: &Rc<MapV<'t>>, keep: &[bool]) -> Res<Value<'t>> {
        let mut n = MapV { sorted: mp.sorted, ..MapV::default() };
        for (j, e) in mp.entries.iter().enumerate() {
            if !keep[j] {
                continue;
            }
            let dk = self.deref_key(&e.0)?;
            let mut k = vec![];
            if self.const_key(&dk, &mut k) {
                n.index.insert(k, n.entries.len());
            }
            n.entries.push(e.clone());
        }
        Ok(Value::Map(Rc::new(n)))
    }

    fn map_remove(&mut self, r: &Value<'t>, key: &Value<'t>) -> Res<Option<(Value<'t>, Value<'t>)>> {
        let mp = self.map_at(r)?;
        let (found, idx) = self.map_find(&mp, key)?;
        if self.dom.bdd.and(found, self.pc) == F {
            return Ok(None);
        }
        let (Some(i), true) = (idx.as_const(), found == T) else {
            return Err(self.abort("removal of an undetermined key"));
        };
        let mut n = MapV { sorted: mp.sorted, ..MapV::default() };
        let mut out = None;
        for (j, e) in mp.entries.iter().enumerate() {
            if j == i as usize {
                out = Some(e.clone());
                continue;
            }
            let dk = self.deref_key(&e.0)?;
            let mut k = vec![];
            if self.const_key(&dk, &mut k) {
                n.index.insert(k, n.entries.len());
            }
            n.entries.push(e.clone());
        }
        self.store_ref(r, Value::Map(Rc::new(n)))?;
        Ok(out)
    }

    fn new_map(&mut self, sorted: bool) -> Value<'t> {
        Value::Map(Rc::new(MapV { sorted, ..MapV::default() }))
    }
}

/// Keys are found by equality of representation: it has to be what the key type calls equal.
fn key_ok<'t>(it: &mut Interp<'t>, inst: Instance<'t>, sorted: bool) -> bool {
    let Some(t) = inst.args.types().next() else { return true };
    let t = strip_ref(t);
    if adt_is(it.tcx, t, "alloc::string::String") {
        return true;
    }
    if let Some(r) = it.key_types.get(&(t, sorted)) {
        return *r;
    }
    let tcx = it.tcx;
    let mut r = structural_but(tcx, t, &mut |t| it.compare_is_structural(t, false).unwrap_or(false));
    if r && sorted && !prim_ord(tcx, t) {
        r = it.compare_is_structural(t, true).unwrap_or(false);
    }
    it.key_types.insert((t, sorted), r);
    r
}

impl<'t> Interp<'t> {
    /// A hand-written `==` (or `cmp`) of the type, analysed on two arbitrary values, says
    /// "equal" exactly for equal representations.
    fn compare_is_structural(&mut self, t: Ty<'t>, ord: bool) -> Res<bool> {
        let tcx = self.tcx;
        let saved = self.isolate();
        let (depth, frames, cells, fails) = (self.catch.len(), self.frames.len(), self.stack.len(), self.failures.len());
        self.catch.push(F);
        let r = (|| {
            let (x, y) = self.any_pair(t)?;
            let i = if ord {
                let tr = tcx.get_diagnostic_item(rustc_span::sym::Ord).unwrap();
                self.trait_fn(tr, "cmp", &[t.into()])?
            } else {
                let tr = tcx.lang_items().eq_trait().unwrap();
                self.trait_fn(tr, "eq", &[t.into(), t.into()])?
            };
            let want = self.sym_eq(&x, &y)?;
            let (x, y) = (self.ref_to(&x), self.ref_to(&y));
            let Some(v) = self.call(i, vec![x, y], false)? else { return Ok(false) };
            let got = if ord {
                let mut g = F;
                for a in alts(&v) {
                    if a.var == 1 {
                        g = self.dom.bdd.or(g, a.g);
                    }
                }
                g
            } else {
                match self.dom.bits(&v) {
                    Some(b) => b[0],
                    None => return Ok(false),
                }
            };
            Ok(got == want)
        })();
        let panics = self.catch.get(depth).copied().unwrap_or(T) != F;
        self.restore(saved);
        // an abandoned comparison leaves no frames behind
        self.frames.truncate(frames);
        self.stack.truncate(cells);
        self.stamp.truncate(cells);
        Ok(r? && !panics && self.failures.len() == fails)
    }
}

fn map_get<'t>(it: &mut Interp<'t>, a: &[Value<'t>]) -> Res<Value<'t>> {
    let mp = it.map_at(&a[0])?;
    let (found, idx) = it.map_find(&mp, &a[1])?;
    if found == F {
        return Ok(Value::none());
    }
    let Value::Ref(r) = &a[0] else { return Err(it.abort("map reference")) };
    let mut p = r.proj.clone();
    p.push(it.idx_proj(&idx)?);
    let s = Value::some(Value::refv(r.cell, p, Meta::None));
    if it.dom.bdd.implies(it.pc, found) {
        return Ok(s);
    }
    Ok(it.dom.ite(found, &s, &Value::none()))
}

fn map_lookup<'t>(it: &mut Interp<'t>, k: &str, inst: Instance<'t>, sorted: bool) -> Option<Disp<'t>> {
    if !key_ok(it, inst, sorted) {
        return m(|it, _, _| Err(it.abort("map whose key equality is not structural")));
    }
    match k {
        "new" | "with_capacity" | "Default::default" | "with_hasher" | "with_capacity_and_hasher" | "new_in" => {
            if sorted {
                m(|it, _, _| Ok(Some(it.new_map(true))))
            } else {
                m(|it, _, _| Ok(Some(it.new_map(false))))
            }
        }
        "len" => m(|it, _, a| {
            it.on_container(&a[0], &mut |it, r| {
                let n = it.map_at(r)?.entries.len();
                Ok(Some(Value::usize(n as u64)))
            })
        }),
        "is_empty" => m(|it, _, a| {
            it.on_container(&a[0], &mut |it, r| {
                let n = it.map_at(r)?.entries.len();
                Ok(Some(Value::bool(n == 0)))
            })
        }),
        "reserve" | "shrink_to_fit" => m(|_, _, _| Ok(Some(Value::unit()))),
        "split_off" if sorted => m(|it, inst, a| {
            let t = inst.args.type_at(0);
            let mp = it.map_at(&a[0])?;
            let key = it.load_ref(&a[1])?;
            let mut keep = vec![];
            for e in mp.entries.clone().iter() {
                match it.cmp_values(t, &e.0, &key)? {
                    Some(o) => keep.push(o == Ordering::Less),
                    None => return Ok(None),
                }
            }
            let low = it.map_filter(&mp, &keep)?;
            let keep: Vec<bool> = keep.iter().map(|x| !x).collect();
            let high = it.map_filter(&mp, &keep)?;
            it.store_ref(&a[0], low)?;
            Ok(Some(high))
        }),
        "append" if sorted => m(|it, _, a| {
            let mut mp = it.map_at(&a[0])?;
            let other = it.map_at(&a[1])?;
            it.store_ref(&a[0], Value::Uninit)?;
            for (key, v) in other.entries.iter() {
                it.map_insert(&mut mp, key.clone(), v.clone())?;
            }
            it.store_ref(&a[0], Value::Map(mp))?;
            let n = it.new_map(true);
            it.store_ref(&a[1], n)?;
            Ok(Some(Value::unit()))
        }),
        "clear" => m(|it, _, a| {
            let s = it.map_at(&a[0])?.sorted;
            let n = it.new_map(s);
            it.store_ref(&a[0], n)?;
            Ok(Some(Value::unit()))
        }),
        "insert" => m(|it, _, a| {
            it.on_container(&a[0], &mut |it, r| {
                let mut mp = it.map_at(r)?;
                it.store_ref(r, Value::Uninit)?;
                let o = it.map_insert(&mut mp, a[1].clone(), a[2].clone())?;
                it.store_ref(r, Value::Map(mp))?;
                Ok(Some(o))
            })
        }),
        "get" | "get_mut" => m(|it, _, a| {
            let b = a.clone();
            it.on_container(&a[0], &mut |it, _| Ok(Some(map_get(it, &b)?)))
        }),
        "get_key_value" => m(|it, _, a| {
            let b = a.clone();
            it.on_container(&a[0], &mut |it, r| {
                let mp = it.map_at(r)?;
                let (found, idx) = it.map_find(&mp, &b[1])?;
                let g = it.dom.bdd.and(found, it.pc);
                if g == F {
                    return Ok(Some(Value::none()));
                }
                let (Some(i), true) = (idx.as_const(), g == it.pc) else {
                    return Err(it.abort("lookup of an undetermined key"));
                };
                let kr = it.ref_to(&mp.entries[i as usize].0);
                let vr = entry_slot(it, &[r.clone(), idx.clone()])?;
                Ok(Some(Value::some(Value::agg(vec![kr, vr]))))
            })
        }),
        "remove_entry" => m(|it, _, a| {
            it.on_container(&a[0], &mut |it, r| {
                Ok(Some(match it.map_remove(r, &a[1])? {
                    Some(e) => Value::some(Value::agg(vec![e.0, e.1])),
                    None => Value::none(),
                }))
            })
        }),
        "into_keys" => m(|it, inst, a| {
            let Value::Map(mp) = &a[0] else { return Err(it.abort("map")) };
            let mp = mp.clone();
            let o = it.map_order(&mp, inst.args.type_at(0))?;
            Ok(Some(list_iter(it, Value::agg(o.iter().map(|i| mp.entries[*i].0.clone()).collect()))))
        }),
        "into_values" => m(|it, inst, a| {
            let Value::Map(mp) = &a[0] else { return Err(it.abort("map")) };
            let mp = mp.clone();
            let o = it.map_order(&mp, inst.args.type_at(0))?;
            Ok(Some(list_iter(it, Value::agg(o.iter().map(|i| mp.entries[*i].1.clone()).collect()))))
        }),
        "drain" => m(|it, inst, a| {
            let mp = it.map_at(&a[0])?;
            let n = it.new_map(mp.sorted);
            it.store_ref(&a[0], n)?;
            let o = it.map_order(&mp, inst.args.type_at(0))?;
            let v = o.iter().map(|i| Value::agg(vec![mp.entries[*i].0.clone(), mp.entries[*i].1.clone()])).collect();
            Ok(Some(list_iter(it, Value::agg(v))))
        }),
        "retain" => m(|it, inst, a| {
            let ts: Vec<Ty<'_>> = inst.args.types().collect();
            let ft = *ts.last().unwrap();
            let re = it.tcx.lifetimes.re_erased;
            let at = vec![Ty::new_imm_ref(it.tcx, re, ts[0]), Ty::new_mut_ref(it.tcx, re, ts[1])];
            let mp = it.map_at(&a[0])?;
            let fc = it.alloc(a[1].clone());
            let mut keep = vec![true; mp.entries.len()];
            for i in it.map_order(&mp, ts[0])? {
                let kr = it.ref_to(&mp.entries[i].0);
                let vr = entry_slot(it, &[a[0].clone(), Value::usize(i as u64)])?;
                match it.call_mut(ft, fc, vec![kr, vr], at.clone())? {
                    Some(Value::Int(_, x)) => keep[i] = x == 1,
                    Some(_) => return Err(it.abort("retain on an undetermined condition")),
                    None => return Ok(None),
                }
            }
            let mp = it.map_at(&a[0])?;
            let n = it.map_filter(&mp, &keep)?;
            it.store_ref(&a[0], n)?;
            Ok(Some(Value::unit()))
        }),
        "first_key_value" | "last_key_value" => {
            fn end<'t>(it: &mut Interp<'t>, inst: Instance<'t>, a: &[Value<'t>], last: bool) -> Res<Option<Value<'t>>> {
                let mp = it.map_at(&a[0])?;
                let o = it.map_order(&mp, inst.args.type_at(0))?;
                let i = if last { o.last() } else { o.first() };
                let Some(&i) = i else { return Ok(Some(Value::none())) };
                let kr = it.ref_to(&mp.entries[i].0);
                let vr = entry_slot(it, &[a[0].clone(), Value::usize(i as u64)])?;
                Ok(Some(Value::some(Value::agg(vec![kr, vr]))))
            }
            if k == "last_key_value" {
                m(|it, i, a| end(it, i, &a, true))
            } else {
                m(|it, i, a| end(it, i, &a, false))
            }
        }
        "first_entry" | "last_entry" => {
            fn end<'t>(it: &mut Interp<'t>, inst: Instance<'t>, a: &[Value<'t>], last: bool) -> Res<Option<Value<'t>>> {
                let mp = it.map_at(&a[0])?;
                let o = it.map_order(&mp, inst.args.type_at(0))?;
                let i = if last { o.last() } else { o.first() };
                let Some(&i) = i else { return Ok(Some(Value::none())) };
                let e = vec![a[0].clone(), Value::usize(i as u64), mp.entries[i].0.clone()];
                Ok(Some(Value::some(Value::agg(e))))
            }
            if k == "last_entry" {
                m(|it, i, a| end(it, i, &a, true))
            } else {
                m(|it, i, a| end(it, i, &a, false))
            }
        }
        "pop_first" | "pop_last" => {
            fn pop<'t>(it: &mut Interp<'t>, inst: Instance<'t>, a: &[Value<'t>], last: bool) -> Res<Option<Value<'t>>> {
                let mp = it.map_at(&a[0])?;
                let o = it.map_order(&mp, inst.args.type_at(0))?;
                let i = if last { o.last() } else { o.first() };
                let Some(&i) = i else { return Ok(Some(Value::none())) };
                let key = mp.entries[i].0.clone();
                let kr = it.ref_to(&key);
                match it.map_remove(&a[0], &kr)? {
                    Some(e) => Ok(Some(Value::some(Value::agg(vec![e.0, e.1])))),
                    None => Err(it.abort("pop of a map")),
                }
            }
            if k == "pop_last" {
                m(|it, i, a| pop(it, i, &a, true))
            } else {
                m(|it, i, a| pop(it, i, &a, false))
            }
        }
        "PartialEq::eq" | "PartialEq::ne" => {
            fn meq<'t>(it: &mut Interp<'t>, a: &[Value<'t>]) -> Res<B> {
                let x = it.map_at(&a[0])?;
                let y = it.map_at(&a[1])?;
                if x.entries.len() != y.entries.len() {
                    return Ok(F);
                }
                let mut r = T;
                for e in x.entries.iter() {
                    let kr = it.ref_to(&e.0);
                    let (f, i) = it.map_find(&y, &kr)?;
                    if f == F {
                        return Ok(F);
                    }
                    let Some(i) = i.as_const() else { return Err(it.abort("comparison of maps with undetermined keys")) };
                    let q = it.sym_eq(&e.1, &y.entries[i as usize].1)?;
                    let q = it.dom.bdd.and(q, f);
                    r = it.dom.bdd.and(r, q);
                }
                Ok(r)
            }
            // a map's values; a set's are units
            let own = it.tcx.fn_sig(inst.def_id()).instantiate(it.tcx, inst.args).skip_norm_wip();
            let own = it.tcx.normalize_erasing_late_bound_regions(env(), own);
            let ty::Adt(own, oa) = own.inputs()[0].builtin_deref(true)?.kind() else { return None };
            let is_map = [HMAP, BMAP].iter().any(|p| p.trim_end_matches('|').ends_with(it.tcx.item_name(own.did()).as_str()));
            if let (true, Some(t)) = (is_map, oa.types().nth(1)) {
                if !structural(it.tcx, t) {
                    return m(|it, _, _| Err(it.abort("comparison of maps of non-structural values")));
                }
            }
            if k.ends_with("eq") {
                m(|it, _, a| Ok(Some(Dom::bool_of(meq(it, &a)?))))
            } else {
                m(|it, _, a| {
                    let b = meq(it, &a)?;
                    Ok(Some(Dom::bool_of(it.dom.bdd.not(b))))
                })
            }
        }
        "contains_key" => m(|it, _, a| {
            it.on_container(&a[0], &mut |it, r| {
                let mp = it.map_at(r)?;
                let (f, _) = it.map_find(&mp, &a[1])?;
                Ok(Some(Dom::bool_of(f)))
            })
        }),
        "Index::index" => m(|it, _, a| {
            let b = a.clone();
            it.on_container(&a[0], &mut |it, r| {
                let mp = it.map_at(r)?;
                let (found, idx) = it.map_find(&mp, &b[1])?;
                let nf = it.dom.bdd.not(found);
                let bad = it.dom.bdd.and(it.pc, nf);
                it.obligations += 1;
                it.panic_at(bad, "panic", "map index: no entry found for key");
                it.pc = it.dom.bdd.and(it.pc, found);
                if it.pc == F {
                    return Ok(None);
                }
                let Value::Ref(x) = r else { return Err(it.abort("map reference")) };
                let mut p = x.proj.clone();
                p.push(it.idx_proj(&idx)?);
                Ok(Some(Value::refv(x.cell, p, Meta::None)))
            })
        }),
        "remove" => m(|it, _, a| {
            it.on_container(&a[0], &mut |it, r| {
                Ok(Some(match it.map_remove(r, &a[1])? {
                    Some(e) => Value::some(e.1),
                    None => Value::none(),
                }))
            })
        }),
        "entry" => m(|it, inst, a| {
            let f = it.tcx.fn_sig(inst.def_id()).instantiate(it.tcx, inst.args).skip_norm_wip();
            let f = it.tcx.normalize_erasing_late_bound_regions(env(), f);
            let ty::Adt(d, _) = f.output().kind() else { return Err(it.abort("entry")) };
            let var = |n: &str| d.variants().iter_enumerated().find(|v| v.1.name.as_str() == n).map(|v| v.0.as_u32());
            let (Some(o), Some(v)) = (var("Occupied"), var("Vacant")) else { return Err(it.abort("entry")) };
            it.on_container(&a[0], &mut |it, r| {
                let mp = it.map_at(r)?;
                let kr = it.ref_to(&a[1]);
                let (found, idx) = it.map_find(&mp, &kr)?;
                let occ = Value::Enum1(o, Rc::new(vec![Value::agg(vec![r.clone(), idx, a[1].clone()])]));
                let vac = Value::Enum1(v, Rc::new(vec![Value::agg(vec![r.clone(), a[1].clone()])]));
                let g = it.dom.bdd.and(found, it.pc);
                Ok(Some(if g == F {
                    vac
                } else if g == it.pc {
                    occ
                } else {
                    it.dom.ite(found, &occ, &vac)
                }))
            })
        }),
        "range" | "range_mut" if sorted => m(|it, inst, a| {
            let f = it.tcx.fn_sig(inst.def_id()).instantiate(it.tcx, inst.args).skip_norm_wip();
            let f = it.tcx.normalize_erasing_late_bound_regions(env(), f);
            let t = inst.args.type_at(0);
            let mp = it.map_at(&a[0])?;
            let Some(sel) = it.key_range(t, f.inputs()[1], &a[1], &mp)? else { return Ok(None) };
            let mut out = vec![];
            for i in sel {
                let kr = it.ref_to(&mp.entries[i].0);
                let vr = entry_slot(it, &[a[0].clone(), Value::usize(i as u64)])?;
                out.push(Value::agg(vec![kr, vr]));
            }
            Ok(Some(list_iter(it, Value::agg(out))))
        }),
        "iter" | "iter_mut" | "keys" | "values" | "values_mut" => {
            fn gen_<'t>(it: &mut Interp<'t>, inst: Instance<'t>, a: &[Value<'t>], what: u8) -> Res<Option<Value<'t>>> {
                let mp = it.map_at(&a[0])?;
                let Value::Ref(r) = &a[0] else { return Err(it.abort("map reference")) };
                let mut out = vec![];
                for i in it.map_order(&mp, inst.args.type_at(0))? {
                    let kc = it.alloc(mp.entries[i].0.clone());
                    let kr = Value::refv(kc, vec![], Meta::None);
                    let mut p = r.proj.clone();
                    p.push(Proj::Elem(i as u64));
                    let vr = Value::refv(r.cell, p, Meta::None);
                    out.push(match what {
                        0 => Value::agg(vec![kr, vr]),
                        1 => kr,
                        _ => vr,
                    });
                }
                Ok(Some(list_iter(it, Value::agg(out))))
            }
            match k {
                "keys" => m(|it, i, a| gen_(it, i, &a, 1)),
                "values" | "values_mut" => m(|it, i, a| gen_(it, i, &a, 2)),
                _ => m(|it, i, a| gen_(it, i, &a, 0)),
            }
        }
        "IntoIterator::into_iter" => m(|it, inst, a| {
            let Value::Map(mp) = &a[0] else { return Err(it.abort("map")) };
            let mp = mp.clone();
            let mut out = vec![];
            for i in it.map_order(&mp, inst.args.type_at(0))? {
                let (k, v) = mp.entries[i].clone();
                out.push(Value::agg(vec![k, v]));
            }
            Ok(Some(list_iter(it, Value::agg(out))))
        }),
        "FromIterator::from_iter" | "From::from" | "Extend::extend" => {
            fn build<'t>(it: &mut Interp<'t>, start: Value<'t>, t: Ty<'t>, v: Value<'t>, refs: bool) -> Res<Option<Value<'t>>> {
                let Value::Map(mut mp) = start else { return Err(it.abort("map")) };
                let Some((ity, iter)) = it.into_iter(t, v)? else { return Ok(None) };
                let mut out = vec![];
                let ok = it.drain_iter(ity, iter, &mut |_, v| {
                    out.push(v);
                    Ok(())
                })?;
                if !ok {
                    return Ok(None);
                }
                for e in out {
                    let Value::Agg(f) = &e else { return Err(it.abort("map entry")) };
                    let (key, val) = if refs { (it.load_ref(&f[0])?, it.load_ref(&f[1])?) } else { (f[0].clone(), f[1].clone()) };
                    it.map_insert(&mut mp, key, val)?;
                }
                Ok(Some(Value::Map(mp)))
            }
            if k == "Extend::extend" {
                return m(|it, inst, a| {
                    let f = it.tcx.fn_sig(inst.def_id()).instantiate(it.tcx, inst.args).skip_norm_wip();
                    let f = it.tcx.normalize_erasing_late_bound_regions(env(), f);
                    let s = it.load_ref(&a[0])?;
                    let refs = by_reference(it, inst);
                    let Some(v) = build(it, s, f.inputs()[1], a[1].clone(), refs)? else { return Ok(None) };
                    it.store_ref(&a[0], v)?;
                    Ok(Some(Value::unit()))
                });
            }
            if sorted {
                m(|it, inst, a| {
                    let f = it.tcx.fn_sig(inst.def_id()).instantiate(it.tcx, inst.args).skip_norm_wip();
                    let f = it.tcx.normalize_erasing_late_bound_regions(env(), f);
                    let s = it.new_map(true);
                    build(it, s, f.inputs()[0], a[0].clone(), false)
                })
            } else {
                m(|it, inst, a| {
                    let f = it.tcx.fn_sig(inst.def_id()).instantiate(it.tcx, inst.args).skip_norm_wip();
                    let f = it.tcx.normalize_erasing_late_bound_regions(env(), f);
                    let s = it.new_map(false);
                    build(it, s, f.inputs()[0], a[0].clone(), false)
                })
            }
        }
        "Clone::clone" => m(|it, _, a| Ok(Some(it.load_ref(&a[0])?))),
        _ => {
            let _ = inst;
            None
        }
    }
}

/// `Extend<&T>` or `Extend<(&K, &V)>`, which copy what the references refer to
fn by_reference<'t>(it: &Interp<'t>, inst: Instance<'t>) -> bool {
    let Some(i) = it.tcx.impl_of_assoc(inst.def_id()) else { return true };
    let t = it.tcx.impl_trait_ref(i).skip_binder().args.type_at(1);
    t.is_ref() || matches!(t.kind(), ty::Tuple(l) if l.iter().any(|x| x.is_ref()))
}

fn set_lookup<'t>(it: &mut Interp<'t>, k: &str, inst: Instance<'t>, sorted: bool) -> Option<Disp<'t>> {
    if !key_ok(it, inst, sorted) {
        return m(|it, _, _| Err(it.abort("set whose element equality is not structural")));
    }
    match k {
        "insert" => m(|it, _, a| {
            it.on_container(&a[0], &mut |it, r| {
                let mut mp = it.map_at(r)?;
                it.store_ref(r, Value::Uninit)?;
                let o = it.map_insert(&mut mp, a[1].clone(), Value::unit())?;
                it.store_ref(r, Value::Map(mp))?;
                Ok(Some(Value::bool(matches!(o, Value::Enum1(0, _)))))
            })
        }),
        "contains" => m(|it, _, a| {
            it.on_container(&a[0], &mut |it, r| {
                let mp = it.map_at(r)?;
                let (f, _) = it.map_find(&mp, &a[1])?;
                Ok(Some(Dom::bool_of(f)))
            })
        }),
        "remove" => m(|it, _, a| {
            it.on_container(&a[0], &mut |it, r| {
                Ok(Some(Value::bool(it.map_remove(r, &a[1])?.is_some())))
            })
        }),
        "iter" => m(|it, inst, a| {
            let mp = it.map_at(&a[0])?;
            let mut out = vec![];
            for i in it.map_order(&mp, inst.args.type_at(0))? {
                let kc = it.alloc(mp.entries[i].0.clone());
                out.push(Value::refv(kc, vec![], Meta::None));
            }
            Ok(Some(list_iter(it, Value::agg(out))))
        }),
        "IntoIterator::into_iter" => m(|it, inst, a| {
            let Value::Map(mp) = &a[0] else { return Err(it.abort("set")) };
            let mp = mp.clone();
            let mut out = vec![];
            for i in it.map_order(&mp, inst.args.type_at(0))? {
                out.push(mp.entries[i].0.clone());
            }
            Ok(Some(list_iter(it, Value::agg(out))))
        }),
        "FromIterator::from_iter" | "From::from" | "Extend::extend" => {
            fn build<'t>(it: &mut Interp<'t>, start: Value<'t>, t: Ty<'t>, v: Value<'t>, refs: bool) -> Res<Option<Value<'t>>> {
                let Value::Map(mut mp) = start else { return Err(it.abort("set")) };
                let Some((ity, iter)) = it.into_iter(t, v)? else { return Ok(None) };
                let mut out = vec![];
                let ok = it.drain_iter(ity, iter, &mut |_, v| {
                    out.push(v);
                    Ok(())
                })?;
                if !ok {
                    return Ok(None);
                }
                for e in out {
                    let e = if refs { it.load_ref(&e)? } else { e };
                    it.map_insert(&mut mp, e, Value::unit())?;
                }
                Ok(Some(Value::Map(mp)))
            }
            if k == "Extend::extend" {
                return m(|it, inst, a| {
                    let f = it.tcx.fn_sig(inst.def_id()).instantiate(it.tcx, inst.args).skip_norm_wip();
                    let f = it.tcx.normalize_erasing_late_bound_regions(env(), f);
                    let s = it.load_ref(&a[0])?;
                    let refs = by_reference(it, inst);
                    let Some(v) = build(it, s, f.inputs()[1], a[1].clone(), refs)? else { return Ok(None) };
                    it.store_ref(&a[0], v)?;
                    Ok(Some(Value::unit()))
                });
            }
            if sorted {
                m(|it, inst, a| {
                    let f = it.tcx.fn_sig(inst.def_id()).instantiate(it.tcx, inst.args).skip_norm_wip();
                    let f = it.tcx.normalize_erasing_late_bound_regions(env(), f);
                    let s = it.new_map(true);
                    build(it, s, f.inputs()[0], a[0].clone(), false)
                })
            } else {
                m(|it, inst, a| {
                    let f = it.tcx.fn_sig(inst.def_id()).instantiate(it.tcx, inst.args).skip_norm_wip();
                    let f = it.tcx.normalize_erasing_late_bound_regions(env(), f);
                    let s = it.new_map(false);
                    build(it, s, f.inputs()[0], a[0].clone(), false)
                })
            }
        }
        "get" => m(|it, _, a| {
            let b = a.clone();
            it.on_container(&a[0], &mut |it, r| {
                let mp = it.map_at(r)?;
                let (found, idx) = it.map_find(&mp, &b[1])?;
                let g = it.dom.bdd.and(found, it.pc);
                if g == F {
                    return Ok(Some(Value::none()));
                }
                let (Some(i), true) = (idx.as_const(), g == it.pc) else {
                    return Err(it.abort("lookup of an undetermined key"));
                };
                Ok(Some(Value::some(it.ref_to(&mp.entries[i as usize].0))))
            })
        }),
        "take" => m(|it, _, a| {
            it.on_container(&a[0], &mut |it, r| {
                Ok(Some(match it.map_remove(r, &a[1])? {
                    Some(e) => Value::some(e.0),
                    None => Value::none(),
                }))
            })
        }),
        "drain" => m(|it, inst, a| {
            let mp = it.map_at(&a[0])?;
            let n = it.new_map(mp.sorted);
            it.store_ref(&a[0], n)?;
            let o = it.map_order(&mp, inst.args.type_at(0))?;
            let v = o.iter().map(|i| mp.entries[*i].0.clone()).collect();
            Ok(Some(list_iter(it, Value::agg(v))))
        }),
        "range" if sorted => m(|it, inst, a| {
            let f = it.tcx.fn_sig(inst.def_id()).instantiate(it.tcx, inst.args).skip_norm_wip();
            let f = it.tcx.normalize_erasing_late_bound_regions(env(), f);
            let t = inst.args.type_at(0);
            let mp = it.map_at(&a[0])?;
            let Some(sel) = it.key_range(t, f.inputs()[1], &a[1], &mp)? else { return Ok(None) };
            let mut out = vec![];
            for i in sel {
                out.push(it.ref_to(&mp.entries[i].0));
            }
            Ok(Some(list_iter(it, Value::agg(out))))
        }),
        "first" | "last" => {
            fn end<'t>(it: &mut Interp<'t>, inst: Instance<'t>, a: &[Value<'t>], last: bool) -> Res<Option<Value<'t>>> {
                let mp = it.map_at(&a[0])?;
                let o = it.map_order(&mp, inst.args.type_at(0))?;
                let i = if last { o.last() } else { o.first() };
                let Some(&i) = i else { return Ok(Some(Value::none())) };
                Ok(Some(Value::some(it.ref_to(&mp.entries[i].0))))
            }
            if k == "last" {
                m(|it, i, a| end(it, i, &a, true))
            } else {
                m(|it, i, a| end(it, i, &a, false))
            }
        }
        "pop_first" | "pop_last" => {
            fn pop<'t>(it: &mut Interp<'t>, inst: Instance<'t>, a: &[Value<'t>], last: bool) -> Res<Option<Value<'t>>> {
                let mp = it.map_at(&a[0])?;
                let o = it.map_order(&mp, inst.args.type_at(0))?;
                let i = if last { o.last() } else { o.first() };
                let Some(&i) = i else { return Ok(Some(Value::none())) };
                let key = mp.entries[i].0.clone();
                let kr = it.ref_to(&key);
                match it.map_remove(&a[0], &kr)? {
                    Some(e) => Ok(Some(Value::some(e.0))),
                    None => Err(it.abort("pop of a set")),
                }
            }
            if k == "pop_last" {
                m(|it, i, a| pop(it, i, &a, true))
            } else {
                m(|it, i, a| pop(it, i, &a, false))
            }
        }
        "retain" => m(|it, inst, a| {
            let ts: Vec<Ty<'_>> = inst.args.types().collect();
            let ft = *ts.last().unwrap();
            let at = vec![Ty::new_imm_ref(it.tcx, it.tcx.lifetimes.re_erased, ts[0])];
            let mp = it.map_at(&a[0])?;
            let fc = it.alloc(a[1].clone());
            let mut keep = vec![true; mp.entries.len()];
            for i in it.map_order(&mp, ts[0])? {
                let kr = it.ref_to(&mp.entries[i].0);
                match it.call_mut(ft, fc, vec![kr], at.clone())? {
                    Some(Value::Int(_, x)) => keep[i] = x == 1,
                    Some(_) => return Err(it.abort("retain on an undetermined condition")),
                    None => return Ok(None),
                }
            }
            let n = it.map_filter(&mp, &keep)?;
            it.store_ref(&a[0], n)?;
            Ok(Some(Value::unit()))
        }),
        "difference" | "intersection" | "union" | "symmetric_difference" => {
            // elements of the first set by presence in the second, then those of the second alone
            fn op<'t>(it: &mut Interp<'t>, inst: Instance<'t>, a: &[Value<'t>], both: bool, only_a: bool, only_b: bool) -> Res<Option<Value<'t>>> {
                let t = inst.args.type_at(0);
                let x = it.map_at(&a[0])?;
                let y = it.map_at(&a[1])?;
                let mut r = it.new_map(x.sorted);
                let Value::Map(mut mp) = std::mem::replace(&mut r, Value::Uninit) else { unreachable!() };
                for (p, q, second) in [(&x, &y, false), (&y, &x, true)] {
                    for e in p.entries.iter() {
                        let kr = it.ref_to(&e.0);
                        let (f, _) = it.map_find(q, &kr)?;
                        if f != T && f != F {
                            return Err(it.abort("set operation on undetermined elements"));
                        }
                        let keep = if second { f == F && only_b } else if f == T { both } else { only_a };
                        if keep {
                            it.map_insert(&mut mp, e.0.clone(), Value::unit())?;
                        }
                    }
                }
                let mut out = vec![];
                for i in it.map_order(&mp, t)? {
                    out.push(it.ref_to(&mp.entries[i].0));
                }
                Ok(Some(list_iter(it, Value::agg(out))))
            }
            match k {
                "difference" => m(|it, i, a| op(it, i, &a, false, true, false)),
                "intersection" => m(|it, i, a| op(it, i, &a, true, false, false)),
                "union" => m(|it, i, a| op(it, i, &a, true, true, true)),
                _ => m(|it, i, a| op(it, i, &a, false, true, true)),
            }
        }
        "is_subset" | "is_superset" | "is_disjoint" => {
            fn rel<'t>(it: &mut Interp<'t>, x: &Value<'t>, y: &Value<'t>, want: bool) -> Res<Option<Value<'t>>> {
                let x = it.map_at(x)?;
                let y = it.map_at(y)?;
                let mut r = T;
                for e in x.entries.iter() {
                    let kr = it.ref_to(&e.0);
                    let (f, _) = it.map_find(&y, &kr)?;
                    let f = if want { f } else { it.dom.bdd.not(f) };
                    r = it.dom.bdd.and(r, f);
                }
                Ok(Some(Dom::bool_of(r)))
            }
            match k {
                "is_subset" => m(|it, _, a| rel(it, &a[0], &a[1], true)),
                "is_superset" => m(|it, _, a| rel(it, &a[1], &a[0], true)),
                _ => m(|it, _, a| rel(it, &a[0], &a[1], false)),
            }
        }
        "replace" => m(|it, _, a| {
            it.on_container(&a[0], &mut |it, r| {
                let kr = it.ref_to(&a[1]);
                let old = it.map_remove(r, &kr)?;
                let mut mp = it.map_at(r)?;
                it.store_ref(r, Value::Uninit)?;
                it.map_insert(&mut mp, a[1].clone(), Value::unit())?;
                it.store_ref(r, Value::Map(mp))?;
                Ok(Some(match old {
                    Some(e) => Value::some(e.0),
                    None => Value::none(),
                }))
            })
        }),
        k => map_lookup(it, k, inst, sorted),
    }
}

// -------------------------------------------------------------------- formatting

fn fmt_format<'t>(it: &mut Interp<'t>, inst: Instance<'t>, a: Vec<Value<'t>>) -> Res<Option<Value<'t>>> {
    // the text matters only where it reaches a file; on failure it is unknown
    it.call_mir(inst, a, false)
}

/// Text of an integer in the base its trait stands for; the number of digits is split on.
fn int_display<'t>(it: &mut Interp<'t>, inst: Instance<'t>, a: Vec<Value<'t>>) -> Res<Option<Value<'t>>> {
    let tcx = it.tcx;
    let p = tcx.parent(inst.def_id());
    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
    let signed = matches!(st.kind(), ty::Int(_));
    let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
    let tr = tcx.item_name(tr.def_id).to_string();
    let (base, prefix, ten) = match tr.as_str() {
        "LowerHex" => (16, "0x", b'a'),
        "UpperHex" => (16, "0x", b'A'),
        "Octal" => (8, "0o", b'a'),
        "Binary" => (2, "0b", b'a'),
        _ => (10, "", b'a'),
    };
    let v = it.load_ref(&a[0])?;
    if let Value::Int(w, x) = v {
        let s = match base {
            10 if signed => sext(w, x).unsigned_abs().to_string(),
            10 => x.to_string(),
            _ => {
                let mut x = x;
                let mut d = vec![];
                loop {
                    let k = (x % base) as u8;
                    d.push(if k < 10 { b'0' + k } else { ten + k - 10 } as char);
                    x /= base;
                    if x == 0 {
                        break;
                    }
                }
                d.into_iter().rev().collect()
            }
        };
        let nonneg = base != 10 || !signed || sext(w, x) >= 0;
        let bytes: Vec<Value<'t>> = s.bytes().map(|b| Value::Int(8, b as u128)).collect();
        return int_pad(it, inst, a[1].clone(), nonneg, prefix, bytes);
    }
    let Some(bits) = it.dom.bits(&v) else { return Err(it.abort("text of an undetermined integer")) };
    let w = bits.len() as u16;
    if signed || w > 64 || (base == 10 && w > 16) {
        return Err(it.abort("text of an undetermined integer"));
    }
    // digits, least significant first
    let t = Some(IntTy { w, signed: false });
    let (mut digits, mut conds) = (vec![], vec![]);
    let mut rest = v.clone();
    let mut more = T;
    while more != F {
        let d = it.binop(BinOp::Rem, &rest, &Value::Int(w, base), t)?;
        rest = it.binop(BinOp::Div, &rest, &Value::Int(w, base), t)?;
        let mut c = Value::Int(8, 0);
        for k in (0..base as u8).rev() {
            let e = it.sym_eq(&d, &Value::Int(w, k as u128))?;
            c = it.dom.ite(e, &Value::Int(8, if k < 10 { b'0' + k } else { ten + k - 10 } as u128), &c);
        }
        digits.push(c);
        let z = it.sym_eq(&rest, &Value::Int(w, 0))?;
        conds.push(it.dom.bdd.and(more, z));
        let nz = it.dom.bdd.not(z);
        more = it.dom.bdd.and(more, nz);
    }
    let f = a[1].clone();
    it.fork(&conds, &mut |it, i| int_pad(it, inst, f.clone(), true, prefix, digits[..=i].iter().rev().cloned().collect()))
}

fn int_pad<'t>(it: &mut Interp<'t>, inst: Instance<'t>, f: Value<'t>, nonneg: bool, prefix: &str, digits: Vec<Value<'t>>) -> Res<Option<Value<'t>>> {
    let tcx = it.tcx;
    let sig = tcx.fn_sig(inst.def_id()).instantiate(tcx, inst.args).skip_norm_wip();
    let sig = tcx.normalize_erasing_late_bound_regions(env(), sig);
    let ty::Adt(d, args) = strip_ref(sig.inputs()[1]).kind() else { return Err(it.abort("formatter")) };
    let pad = tcx.inherent_impls(d.did()).iter().find_map(|i| {
        tcx.associated_items(*i).in_definition_order().find(|x| x.opt_name().is_some_and(|n| n.as_str() == "pad_integral")).map(|x| x.def_id)
    });
    let Some(pad) = pad else { return Err(it.abort("no pad_integral")) };
    let mut text = |it: &mut Interp<'t>, b: Vec<Value<'t>>| {
        let n = b.len() as u64;
        let c = it.alloc(Value::agg(b));
        Value::refv(c, vec![], Meta::Slice(Value::usize(0), Value::usize(n)))
    };
    let p = text(it, prefix.bytes().map(|b| Value::Int(8, b as u128)).collect());
    let s = text(it, digits);
    let i = Instance::new_raw(pad, args);
    it.call(i, vec![f, Value::bool(nonneg), p, s], false)
}

// -------------------------------------------------------------------- intrinsics

/// The place an atomic operation works on: its pointer may be to a wrapper of the integer.
fn atomic_place<'t>(it: &mut Interp<'t>, p: &Value<'t>) -> Res<Value<'t>> {
    let mut p = p.clone();
    loop {
        match it.load_ref(&p)? {
            Value::Agg(f) if f.len() == 1 => {
                let Value::Ref(r) = &p else { return Err(it.abort("atomic operation")) };
                let mut q = r.proj.clone();
                q.push(Proj::Field(0));
                p = Value::refv(r.cell, q, Meta::None);
            }
            _ => return Ok(p),
        }
    }
}

pub fn intrinsic<'t>(it: &mut Interp<'t>, n: &str, inst: Instance<'t>, a: Vec<Value<'t>>) -> Res<Option<Value<'t>>> {
    let tcx = it.tcx;
    let ity = |i: usize| -> Option<IntTy> { inst.args.types().nth(i).and_then(|t| int_ty(tcx, t)) };
    let r = match n {
        "size_of" | "min_align_of" | "align_of" | "pref_align_of" => {
            let t = inst.args.type_at(0);
            let l = tcx.layout_of(env().as_query_input(t)).map_err(|_| it.abort("layout"))?;
            Value::usize(if n == "size_of" { l.size.bytes() } else { l.align.abi.bytes() })
        }
        "size_of_val" | "align_of_val" | "min_align_of_val" => {
            let t = inst.args.type_at(0);
            match t.kind() {
                ty::Slice(_) | ty::Str => {
                    let e = match t.kind() {
                        ty::Slice(e) => *e,
                        _ => tcx.types.u8,
                    };
                    if n == "size_of_val" {
                        let k = it.ptr_meta(&a[0])?;
                        let s = it.size_of(e)?;
                        it.binop(BinOp::Mul, &k, &Value::usize(s), Some(IntTy { w: 64, signed: false }))?
                    } else {
                        Value::usize(1)
                    }
                }
                ty::Dynamic(..) => Value::top("size of a dynamic value"),
                _ => {
                    let l = tcx.layout_of(env().as_query_input(t)).map_err(|_| it.abort("layout"))?;
                    Value::usize(if n == "size_of_val" { l.size.bytes() } else { l.align.abi.bytes() })
                }
            }
        }
        "needs_drop" => Value::bool(it.drop_effect(inst.args.type_at(0)) != crate::lower::DropEffect::None),
        "type_name" | "type_id" => Value::top("type name"),
        "likely" | "unlikely" | "black_box" => a[0].clone(),
        "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "assume" | "forget"
        => Value::unit(),
        "drop_in_place" | "drop_glue" => return drop_at(it, inst, a),
        "ub_checks" | "contract_checks" | "is_val_statically_known" => Value::bool(false),
        "overflow_checks" => Value::bool(tcx.sess.overflow_checks()),
        "abort" | "unreachable" => {
            let g = it.pc;
            it.panic_at(g, "unreachable", n);
            return Ok(None);
        }
        "wrapping_add" | "unchecked_add" => it.binop(BinOp::Add, &a[0], &a[1], ity(0))?,
        "wrapping_sub" | "unchecked_sub" => it.binop(BinOp::Sub, &a[0], &a[1], ity(0))?,
        "wrapping_mul" | "unchecked_mul" => it.binop(BinOp::Mul, &a[0], &a[1], ity(0))?,
        "unchecked_div" | "exact_div" => it.binop(BinOp::Div, &a[0], &a[1], ity(0))?,
        "unchecked_rem" => it.binop(BinOp::Rem, &a[0], &a[1], ity(0))?,
        "unchecked_shl" => it.binop(BinOp::Shl, &a[0], &a[1], ity(0))?,
        "unchecked_shr" => it.binop(BinOp::Shr, &a[0], &a[1], ity(0))?,
        "disjoint_bitor" => it.binop(BinOp::BitOr, &a[0], &a[1], ity(0))?,
        "add_with_overflow" => it.binop(BinOp::AddWithOverflow, &a[0], &a[1], ity(0))?,
        "sub_with_overflow" => it.binop(BinOp::SubWithOverflow, &a[0], &a[1], ity(0))?,
        "mul_with_overflow" => it.binop(BinOp::MulWithOverflow, &a[0], &a[1], ity(0))?,
        "three_way_compare" => it.binop(BinOp::Cmp, &a[0], &a[1], ity(0))?,
        "saturating_add" | "saturating_sub" => {
            let t = ity(0).ok_or_else(|| it.abort("saturating type"))?;
            let op = if n == "saturating_add" { BinOp::AddWithOverflow } else { BinOp::SubWithOverflow };
            let r = it.binop(op, &a[0], &a[1], Some(t))?;
            let Value::Agg(f) = r else { return Err(it.abort("saturating")) };
            let o = it.bool_b(&f[1])?;
            let lim = if !t.signed {
                Value::Int(t.w, if n == "saturating_add" { mask(t.w) } else { 0 })
            } else {
                let x = it.int_bits(&a[0], t.w)?;
                let neg = *x.last().unwrap();
                let mn = Value::Int(t.w, 1u128 << (t.w - 1));
                let mx = Value::Int(t.w, mask(t.w - 1));
                it.dom.ite(neg, &mn, &mx)
            };
            it.dom.ite(o, &lim, &f[0])
        }
        "rotate_left" | "rotate_right" => {
            let t = ity(0).ok_or_else(|| it.abort("rotate type"))?;
            let x = it.int_bits(&a[0], t.w)?;
            let Some(k) = a[1].as_const() else {
                return Ok(Some(it.fresh_unknown(t.w, "rotation by an unknown amount")));
            };
            let w = t.w as usize;
            let k = k as usize % w;
            let mut o = vec![F; w];
            for i in 0..w {
                let j = if n == "rotate_left" { (i + k) % w } else { (i + w - k) % w };
                o[j] = x[i];
            }
            Dom::from_bits(o)
        }
        "bswap" | "bitreverse" => {
            let t = ity(0).ok_or_else(|| it.abort("bswap type"))?;
            let x = it.int_bits(&a[0], t.w)?;
            let mut o: Vec<B> = vec![];
            if n == "bitreverse" {
                o = x.into_iter().rev().collect();
            } else {
                for c in x.chunks(8).rev() {
                    o.extend_from_slice(c);
                }
            }
            Dom::from_bits(o)
        }
        "ctpop" | "ctlz" | "cttz" | "ctlz_nonzero" | "cttz_nonzero" => {
            let t = ity(0).ok_or_else(|| it.abort("bit count type"))?;
            let x = it.int_bits(&a[0], t.w)?;
            let rw = 32usize;
            if n == "ctpop" {
                let mut acc = vec![F; rw];
                for b in x {
                    let z = vec![F; rw];
                    acc = it.dom.add(&acc, &z, b).0;
                }
                Dom::from_bits(acc)
            } else {
                let w = t.w as usize;
                let mut acc = Value::Int(32, w as u128);
                // the position found last in this order wins
                for k in (0..w).rev() {
                    let bit = if n.starts_with("ctlz") { x[w - 1 - k] } else { x[k] };
                    acc = it.dom.ite(bit, &Value::Int(32, k as u128), &acc);
                }
                acc
            }
        }
        "discriminant_value" => {
            let t = inst.args.type_at(0);
            let v = it.load_ref(&a[0])?;
            match t.kind() {
                ty::Adt(d, _) if d.is_enum() => {
                    let ds: Vec<u128> = d.discriminants(tcx).map(|x| x.1.val).collect();
                    let w = int_ty(tcx, t.discriminant_ty(tcx)).map(|i| i.w).unwrap_or(64);
                    it.discr(&v, &ds, w)?
                }
                _ => Value::Int(8, 0),
            }
        }
        "transmute" | "transmute_unchecked" => {
            let (f, t) = (inst.args.type_at(0), inst.args.type_at(1));
            it.transmute(a[0].clone(), f, t)?
        }
        "ptr_metadata" => it.ptr_meta(&a[0])?,
        "offset" | "arith_offset" => it.ptr_offset(&a[0], &a[1])?,
        "ptr_offset_from" | "ptr_offset_from_unsigned" => match (&a[0], &a[1]) {
            (Value::Ref(x), Value::Ref(y)) if x.cell == y.cell && x.proj.len() == y.proj.len() && !x.proj.is_empty() => {
                let k = x.proj.len() - 1;
                match (proj_idx(&x.proj[k]), proj_idx(&y.proj[k])) {
                    (Some(i), Some(j)) => {
                        let i = Dom::from_bits(i);
                        let j = Dom::from_bits(j);
                        it.sub_idx(&i, &j)?
                    }
                    _ => Value::usize(0),
                }
            }
            (Value::Ref(x), Value::Ref(y)) if x.cell == y.cell && x.proj == y.proj => Value::usize(0),
            (Value::Int(_, x), Value::Int(_, y)) => Value::usize((*x as u64).wrapping_sub(*y as u64)),
            _ => Value::top("distance of unrelated pointers"),
        },
        "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => it.load_ref(&a[0])?,
        "write_via_move" | "volatile_store" | "unaligned_volatile_store" => {
            it.store_ref(&a[0], a[1].clone())?;
            Value::unit()
        }
        "copy" | "copy_nonoverlapping" | "volatile_copy_nonoverlapping_memory" => {
            it.copy_elems(&a[0], &a[1], &a[2])?;
            Value::unit()
        }
        "write_bytes" => {
            let (Some(c), Some(k)) = (a[1].as_const(), a[2].as_const()) else {
                return Err(it.abort("write_bytes of unknown extent"));
            };
            let t = inst.args.type_at(0);
            let sz = it.size_of(t)?;
            let bits: Vec<B> = (0..sz * 8).map(|i| ((c >> (i % 8)) & 1) as B).collect();
            let v = it.decode(t, &Src::Bits(&bits), 0)?;
            for i in 0..k {
                let p = if i == 0 { a[0].clone() } else { it.ptr_offset(&a[0], &Value::usize(i as u64))? };
                it.store_ref(&p, v.clone())?;
            }
            Value::unit()
        }
        // one thread; a static with interior mutability has no known contents (`static_cell`)
        "atomic_fence" | "atomic_singlethreadfence" => Value::unit(),
        "atomic_load" => { let p = atomic_place(it, &a[0])?; it.load_ref(&p)? },
        "atomic_store" => {
            { let p = atomic_place(it, &a[0])?; it.store_ref(&p, a[1].clone())? };
            Value::unit()
        }
        "atomic_xchg" => {
            let x = { let p = atomic_place(it, &a[0])?; it.load_ref(&p)? };
            { let p = atomic_place(it, &a[0])?; it.store_ref(&p, a[1].clone())? };
            x
        }
        "atomic_xadd" | "atomic_xsub" | "atomic_and" | "atomic_or" | "atomic_xor" if ity(0).is_some() => {
            let op = match n {
                "atomic_xadd" => BinOp::Add,
                "atomic_xsub" => BinOp::Sub,
                "atomic_and" => BinOp::BitAnd,
                "atomic_or" => BinOp::BitOr,
                _ => BinOp::BitXor,
            };
            let x = { let p = atomic_place(it, &a[0])?; it.load_ref(&p)? };
            let y = it.binop(op, &x, &a[1], ity(0))?;
            { let p = atomic_place(it, &a[0])?; it.store_ref(&p, y)? };
            x
        }
        "atomic_cxchg" | "atomic_cxchgweak" if ity(0).is_some() => {
            let x = { let p = atomic_place(it, &a[0])?; it.load_ref(&p)? };
            let same = it.sym_eq(&x, &a[1])?;
            let y = it.dom.ite(same, &a[2], &x);
            { let p = atomic_place(it, &a[0])?; it.store_ref(&p, y)? };
            Value::agg(vec![x, Dom::bool_of(same)])
        }
        "typed_swap_nonoverlapping" => {
            let x = it.load_ref(&a[0])?;
            let y = it.load_ref(&a[1])?;
            it.store_ref(&a[0], y)?;
            it.store_ref(&a[1], x)?;
            Value::unit()
        }
        "raw_eq" => {
            let e = it.sym_eq(&a[0], &a[1])?;
            Dom::bool_of(e)
        }
        "compare_bytes" => {
            let Some(k) = a[2].as_const() else { return Err(it.unknown("comparison of unknown length")) };
            let mut acc = Value::Int(32, 0);
            for i in (0..k as u64).rev() {
                let p = it.ptr_offset(&a[0], &Value::usize(i))?;
                let q = it.ptr_offset(&a[1], &Value::usize(i))?;
                let x = it.load_ref(&p)?;
                let y = it.load_ref(&q)?;
                let x = it.int_bits(&x, 8)?;
                let y = it.int_bits(&y, 8)?;
                let lt = it.dom.ult(&x, &y);
                let gt = it.dom.ult(&y, &x);
                acc = it.dom.ite(lt, &Value::Int(32, 0xffff_ffff), &acc);
                acc = it.dom.ite(gt, &Value::Int(32, 1), &acc);
            }
            acc
        }
        "ptr_guaranteed_cmp" => Value::Int(8, 2),
        "select_unpredictable" => {
            let c = it.bool_b(&a[0])?;
            it.dom.ite(c, &a[1], &a[2])
        }
        "slice_get_unchecked" => {
            let r = it.to_elem(a[0].clone())?;
            it.ptr_offset(&r, &a[1])?
        }
        "aggregate_raw_ptr" => {
            let t = inst.args.type_at(0);
            match pointee(tcx, t).map(|t| *t.kind()) {
                Some(ty::Slice(_) | ty::Str) => it.make_slice(&a[0], &a[1])?,
                _ => a[0].clone(),
            }
        }
        "const_eval_select" => {
            // the function chosen at run time
            let ft = inst.args.type_at(2);
            let tr = tcx.lang_items().fn_once_trait().unwrap();
            let tup = inst.args.type_at(0);
            let i = it.trait_fn(tr, "call_once", &[ft.into(), tup.into()])?;
            return it.call(i, vec![a[2].clone(), a[0].clone()], true);
        }
        "caller_location" => Value::top("caller location"),
        "write_box_via_move" => {
            let p = box_ptr(&a[0]);
            it.store_ref(&p, a[1].clone())?;
            a[0].clone()
        }
        "box_new" => {
            let c = it.alloc(a[0].clone());
            boxed(c)
        }
        "unbox" => it.load_ref(&box_ptr(&a[0]))?,
        _ => {
            // fall back on the library body
            if let InstanceKind::Intrinsic(d) = inst.def {
                if tcx.is_mir_available(d) && !tcx.intrinsic(d).is_some_and(|i| i.must_be_overridden) {
                    return it.call_mir(inst, a, false);
                }
            }
            return Err(it.abort(format!("unsupported intrinsic {n}")));
        }
    };
    Ok(Some(r))
}
