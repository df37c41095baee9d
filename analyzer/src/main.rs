#![feature(rustc_private)]
//! zkabs: an abstract interpreter over the compiler's MIR, run as a rustc driver.

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod bdd;
mod consts;
mod graph;
mod interp;
mod lower;
mod models;
mod value;

use interp::*;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_middle::ty::{Instance, TyCtxt};
use std::fmt::Write as _;

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn jlist(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}

struct Cb {
    mode: String,
    out: String,
    repo: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.sess.dcx().has_errors().is_some() {
            return Compilation::Stop;
        }
        let r = match self.mode.as_str() {
            "graph" => graph::report(tcx, &self.repo),
            m => analyse(tcx, m, &self.repo),
        };
        std::fs::write(&self.out, r).unwrap();
        Compilation::Stop
    }
}

/// Constants of a module, by name: type and value.
fn consts_of<'tcx>(tcx: TyCtxt<'tcx>, path: &str) -> Option<Vec<(String, String, String)>> {
    let mut parts = path.split("::");
    let krate = parts.next()?;
    let mut items: Vec<(String, rustc_hir::def_id::DefId)> = vec![];
    let mut cur = if krate == "crate" {
        rustc_hir::def_id::CRATE_DEF_ID.to_def_id()
    } else {
        tcx.crates(()).iter().find(|c| tcx.crate_name(**c).as_str() == krate)?.as_def_id()
    };
    let children = |d: rustc_hir::def_id::DefId| -> Vec<(String, rustc_hir::def::Res<rustc_hir::def_id::DefId>)> {
        let l: Vec<_> = match d.as_local() {
            Some(l) => tcx.module_children_local(l).iter().collect(),
            None => tcx.module_children(d).iter().collect(),
        };
        l.into_iter().map(|c| (c.ident.name.to_string(), c.res.map_id(|_| unreachable!()))).collect()
    };
    for p in parts {
        let next = children(cur).into_iter().find_map(|(n, r)| match r {
            rustc_hir::def::Res::Def(DefKind::Mod, d) if n == p => Some(d),
            _ => None,
        });
        cur = next?;
    }
    for (n, r) in children(cur) {
        if let rustc_hir::def::Res::Def(DefKind::Const { .. }, d) = r {
            items.push((n, d));
        }
    }
    let mut out = vec![];
    for (n, d) in items {
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let v = match tcx.const_eval_poly(d) {
            Ok(v) => match v.try_to_scalar_int() {
                Some(i) => i.to_bits_unchecked().to_string(),
                None => format!("{v:?}"),
            },
            Err(_) => "error".into(),
        };
        out.push((n, t.to_string(), v));
    }
    out.sort();
    Some(out)
}

fn analyse<'tcx>(tcx: TyCtxt<'tcx>, mode: &str, repo: &str) -> String {
    let mut it = Interp::new(tcx, repo);
    let mut reports = vec![];
    let mut entries = vec![];
    for d in tcx.hir_body_owners() {
        if tcx.def_kind(d) != DefKind::Fn {
            continue;
        }
        let name = tcx.item_name(d.to_def_id()).to_string();
        let want = if mode == "main" {
            tcx.entry_fn(()).map(|e| e.0) == Some(d.to_def_id())
        } else {
            name.starts_with("check_")
        };
        if want && tcx.generics_of(d).count() == 0 {
            entries.push((name, d.to_def_id()));
        }
    }
    for (name, d) in entries {
        let t0 = std::time::Instant::now();
        it.failures.clear();
        it.proved.clear();
        it.covered.clear();
        it.notes.clear();
        it.leaves.clear();
        it.sink.clear();
        it.facts.clear();
        it.reasons.clear();
        it.pc = bdd::T;
        it.more_failures = 0;
        it.last_repo_call = None;
        it.catch.clear();
        let o0 = it.obligations;
        let v0 = it.visited.clone();
        it.visited.clear();
        let nsites = it.panic_sites.len();
        let inst = Instance::mono(tcx, d);
        let mut r = it.call(inst, vec![], false);
        // beyond the size limit the functions of the inputs are no longer exact: nothing found so far counts
        let lost = it.dom.bdd.overflowed;
        if lost {
            it.failures.clear();
            r = Err(it.abort("abstract state too large"));
        }
        let mut fails = vec![];
        for f in &it.failures {
            fails.push(format!(
                "{{\"kind\":{},\"msg\":{},\"at\":{},\"func\":{},\"undecided\":{},\"stack\":{},\"witness\":{}}}",
                js(&f.kind),
                js(&f.msg),
                js(&f.at),
                js(&f.func),
                f.undecided,
                jlist(f.stack.iter().map(|s| js(s))),
                jlist(f.witness.iter().map(|w| format!("[{},{}]", js(&w.0), js(&w.1))))
            ));
        }
        let mut abort = String::from("null");
        if let Err(Abort(m)) = &r {
            abort = js(m);
            it.reset();
        }
        let end = matches!(r, Ok(Some(_)));
        let mut fns: Vec<String> = it
            .funcs
            .values()
            .filter(|f| f.is_repo && it.visited.contains(&f.id))
            .map(|f| it.path(f.inst.def_id()))
            .collect();
        fns.sort();
        fns.dedup();
        let sink: Vec<u8> = it.sink.iter().map(|v| v.as_const().unwrap_or(0x3f) as u8).collect();
        let sink_known = it.sink.iter().all(|v| v.as_const().is_some());
        reports.push(format!(
            "{{\"name\":{},\"completed\":{},\"abort\":{},\"obligations\":{},\"panic_sites\":{},\"proved\":{{{}}},\"covered\":{{{}}},\"failures\":{},\"more_failures\":{},\"unknown\":{},\"functions\":{},\"all_functions\":{},\"steps\":{},\"calls\":{},\"joins\":{},\"nodes\":{},\"ms\":{},\"facts\":{},\"sink_known\":{},\"sink\":{}}}",
            js(&name),
            end,
            abort,
            it.obligations - o0,
            it.panic_sites.len() - nsites,
            it.proved.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, v.1)).collect::<Vec<_>>().join(","),
            it.covered.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
            jlist(fails),
            it.more_failures,
            jlist(it.reasons.iter().map(|s| js(s))),
            jlist(fns.iter().map(|s| js(s))),
            it.visited.len(),
            it.steps,
            it.calls,
            it.joins,
            it.dom.bdd.size(),
            t0.elapsed().as_millis(),
            jlist(it.facts.iter().map(|s| js(s))),
            sink_known,
            js(&String::from_utf8_lossy(&sink)),
        ));
        it.visited.extend(v0);
        if lost {
            // start afresh for the other statements
            it = Interp::new(tcx, repo);
        }
    }
    let mut mods = vec![];
    for m in std::env::var("ZKABS_MODULES").unwrap_or_default().split(',').filter(|m| !m.is_empty()) {
        let l = match consts_of(tcx, m) {
            None => "null".to_string(),
            Some(l) => jlist(l.iter().map(|(n, t, v)| jlist([js(n), js(t), js(v)]))),
        };
        mods.push(format!("{}:{}", js(m), l));
    }
    format!("{{\"checks\":[{}],\"modules\":{{{}}}}}\n", reports.join(",\n"), mods.join(","))
}

fn main() -> std::process::ExitCode {
    let mode = std::env::var("ZKABS_MODE").unwrap_or_default();
    let out = std::env::var("ZKABS_OUT").unwrap_or_else(|_| "/dev/stdout".into());
    let repo = std::env::var("ZKABS_REPO").unwrap_or_else(|_| "zkevm_opcode_defs".into());
    let args: Vec<String> = std::env::args().collect();
    if std::env::var("RUST_MIN_STACK").is_err() {
        // the compiler runs the callbacks on a thread of this stack size
        unsafe { std::env::set_var("RUST_MIN_STACK", (4u64 << 30).to_string()) };
    }
    let mut cb = Cb { mode, out, repo };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}
