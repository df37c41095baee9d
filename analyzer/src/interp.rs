//! Interprocedural abstract interpretation of monomorphised MIR.
//!
//! States are joined at every control-flow merge (immediate post-dominator); nothing is
//! enumerated path by path. A branch whose guard is inconsistent with the current guard
//! is not analysed. What the domain cannot represent becomes an unknown bit, and an
//! obligation that depends on an unknown bit is reported as undecided.

use crate::bdd::*;
use crate::lower::*;
use crate::value::*;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::AllocId;
use rustc_middle::mir::{BinOp, UnOp};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt};
use rustc_span::Span;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Debug, Clone)]
pub struct Abort(pub String);
pub type Res<T> = Result<T, Abort>;

pub struct Frame<'tcx> {
    pub func: Rc<Func<'tcx>>,
    pub base: usize,
    pub span: Span,
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub kind: String,
    pub msg: String,
    pub at: String,
    pub func: String,
    pub stack: Vec<String>,
    pub witness: Vec<(String, String)>,
    pub undecided: bool,
}

pub struct Leaf {
    pub name: String,
    pub bits: Vec<u32>,
}

#[derive(Clone)]
pub struct Loc<'tcx> {
    pub cell: u32,
    pub proj: Vec<Proj>,
    pub meta: Meta<'tcx>,
}

pub struct Interp<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub dom: Dom,
    pub repo_crate: String,
    pub funcs: HashMap<Instance<'tcx>, Rc<Func<'tcx>>>,
    pub stack: Vec<Value<'tcx>>,
    pub stamp: Vec<u32>,
    pub heap: Vec<Value<'tcx>>,
    hstamp: Vec<u32>,
    pub pc: B,
    fork_id: u32,
    next_fork: u32,
    logs: Vec<Vec<(u32, Value<'tcx>)>>,
    pub frames: Vec<Frame<'tcx>>,
    pub catch: Vec<B>,
    pub failures: Vec<Failure>,
    pub obligations: u64,
    pub split_wanted: bool,
    /// lowest heap and stack cells written since the innermost model call began
    pub touched: (u32, usize),
    pub panic_sites: BTreeSet<(usize, usize)>,
    pub proved: BTreeMap<String, (u64, u64)>,
    pub static_cells: HashMap<DefId, u32>,
    pub alloc_cells: HashMap<(AllocId, u64, Ty<'tcx>, u64), u32>,
    pub lazies: HashMap<u32, u32>,
    pub lazy_running: Vec<u32>,
    pub lazy_edges: Vec<(Option<u32>, u32)>,
    pub leaves: Vec<Leaf>,
    pub next_var: u32,
    pub unknown: HashSet<u32>,
    pub reasons: BTreeSet<String>,
    pub steps: u64,
    pub max_steps: u64,
    pub calls: u64,
    pub joins: u64,
    pub visited: HashSet<usize>,
    pub disp: HashMap<Instance<'tcx>, Disp<'tcx>>,
    pub key_types: HashMap<(rustc_middle::ty::Ty<'tcx>, bool), bool>,
    pub drop_effects: HashMap<rustc_middle::ty::Ty<'tcx>, crate::lower::DropEffect>,
    pub any_own_drop: Option<bool>,
    pub sink: Vec<Value<'tcx>>,
    pub trace: bool,
    pub last_repo_call: Option<(String, String)>,
    pub recovered: u64,
    pub facts: Vec<String>,
    pub digests: Vec<(String, Vec<Value<'tcx>>, Value<'tcx>)>,
    pub more_failures: u64,
    pub covered: BTreeMap<String, bool>,
    pub notes: BTreeMap<String, String>,
}

pub struct Saved<'tcx> {
    pc: B,
    fork_id: u32,
    logs: Vec<Vec<(u32, Value<'tcx>)>>,
    catch: Vec<B>,
}

#[derive(Clone)]
pub enum Disp<'tcx> {
    Mir(Instance<'tcx>),
    Model(crate::models::Model),
    Intrinsic(String),
    Never(String),
    Virtual(DefId),
}

impl<'tcx> Interp<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>, repo: &str) -> Self {
        Interp {
            tcx,
            dom: Dom { bdd: Bdd::new(60_000_000) },
            repo_crate: repo.to_string(),
            funcs: HashMap::new(),
            stack: vec![],
            stamp: vec![],
            heap: vec![],
            hstamp: vec![],
            pc: T,
            fork_id: 0,
            next_fork: 1,
            logs: vec![],
            frames: vec![],
            catch: vec![],
            failures: vec![],
            obligations: 0,
            split_wanted: false,
            touched: (u32::MAX, usize::MAX),
            panic_sites: BTreeSet::new(),
            proved: BTreeMap::new(),
            static_cells: HashMap::new(),
            alloc_cells: HashMap::new(),
            lazies: HashMap::new(),
            lazy_running: vec![],
            lazy_edges: vec![],
            leaves: vec![],
            next_var: 0,
            unknown: HashSet::new(),
            reasons: BTreeSet::new(),
            steps: 0,
            max_steps: 3_000_000_000,
            calls: 0,
            joins: 0,
            visited: HashSet::new(),
            disp: HashMap::new(),
            key_types: HashMap::new(),
            drop_effects: HashMap::new(),
            any_own_drop: None,
            sink: vec![],
            trace: std::env::var("ZKABS_TRACE").is_ok(),
            last_repo_call: None,
            recovered: 0,
            facts: vec![],
            digests: vec![],
            more_failures: 0,
            covered: BTreeMap::new(),
            notes: BTreeMap::new(),
        }
    }

    /// Drop the state of an abandoned analysis.
    pub fn reset(&mut self) {
        self.stack.clear();
        self.stamp.clear();
        self.frames.clear();
        self.logs.clear();
        self.catch.clear();
        self.lazy_running.clear();
        self.fork_id = self.next_fork;
        self.next_fork += 1;
        self.pc = T;
    }

    /// Leave the current guard and fork context (used for once-only initialisers, whose
    /// result does not depend on who forces them).
    pub fn isolate(&mut self) -> Saved<'tcx> {
        let s = Saved {
            pc: self.pc,
            fork_id: self.fork_id,
            logs: std::mem::take(&mut self.logs),
            catch: std::mem::take(&mut self.catch),
        };
        self.pc = T;
        self.fork_id = self.next_fork;
        self.next_fork += 1;
        s
    }

    pub fn restore(&mut self, s: Saved<'tcx>) {
        self.pc = s.pc;
        self.fork_id = s.fork_id;
        self.logs = s.logs;
        self.catch = s.catch;
    }

    pub fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    pub fn loc_str(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(s.lo());
        let name = match &l.file.name {
            rustc_span::FileName::Real(r) => match r.local_path() {
                Some(p) => p.display().to_string(),
                None => format!("{:?}", l.file.name),
            },
            n => format!("{n:?}"),
        };
        format!("{}:{}", name, l.line)
    }

    pub fn abort(&self, m: impl Into<String>) -> Abort {
        let mut s = m.into();
        for f in self.frames.iter().rev().take(12) {
            s.push_str(&format!("\n      in {} at {}", self.path(f.func.inst.def_id()), self.loc_str(f.span)));
        }
        Abort(s)
    }

    // ---------------------------------------------------------------- cells

    pub fn cell(&self, c: u32) -> Res<&Value<'tcx>> {
        if c & HEAP != 0 {
            Ok(&self.heap[(c & !HEAP) as usize])
        } else {
            match self.stack.get(c as usize) {
                Some(v) => Ok(v),
                None => Err(self.abort("reference to a dead local")),
            }
        }
    }

    pub fn cell_mut(&mut self, c: u32) -> Res<&mut Value<'tcx>> {
        if c & HEAP != 0 {
            let i = (c & !HEAP) as usize;
            self.touched.0 = self.touched.0.min(i as u32);
            if self.hstamp[i] != self.fork_id {
                if let Some(l) = self.logs.last_mut() {
                    l.push((c, self.heap[i].clone()));
                }
                self.hstamp[i] = self.fork_id;
            }
            Ok(&mut self.heap[i])
        } else {
            let i = c as usize;
            if i >= self.stack.len() {
                return Err(self.abort("write to a dead local"));
            }
            self.touched.1 = self.touched.1.min(i);
            if self.stamp[i] != self.fork_id {
                if let Some(l) = self.logs.last_mut() {
                    l.push((c, self.stack[i].clone()));
                }
                self.stamp[i] = self.fork_id;
            }
            Ok(&mut self.stack[i])
        }
    }

    pub fn alloc(&mut self, v: Value<'tcx>) -> u32 {
        self.heap.push(v);
        self.hstamp.push(self.fork_id);
        (self.heap.len() - 1) as u32 | HEAP
    }

    pub fn get(&mut self, cell: u32, proj: &[Proj]) -> Res<Value<'tcx>> {
        let v = self.cell(cell)?;
        if let Some(r) = get_ref(v, proj) {
            return Ok(r.clone());
        }
        let v = v.clone();
        let pc = self.pc;
        match get_slow(&mut self.dom, &v, proj) {
            Ok(r) => Ok(r),
            // not there in every alternative; look only at those possible here
            Err(_) => get_under(&mut self.dom, &v, proj, pc).map_err(|m| self.abort(m)),
        }
    }

    pub fn set(&mut self, cell: u32, proj: &[Proj], new: Value<'tcx>) -> Res<()> {
        if proj.is_empty() {
            *self.cell_mut(cell)? = new;
            return Ok(());
        }
        self.cell_mut(cell)?;
        let dom: *mut Dom = &mut self.dom;
        let v = self.cell_mut(cell)?;
        // the cell store and the domain are disjoint fields
        let r = set_val(unsafe { &mut *dom }, v, proj, new);
        r.map_err(|m| self.abort(m))
    }

    /// Value of a location, including array views.
    pub fn load(&mut self, l: &Loc<'tcx>) -> Res<Value<'tcx>> {
        let v = self.get(l.cell, &l.proj)?;
        if let Meta::Slice(s, n) = &l.meta {
            let (Some(s), Some(n)) = (s.as_const(), n.as_const()) else {
                let Some(n) = n.as_const() else {
                    return Err(self.unknown("load of a slice view of unknown extent"));
                };
                let mut o = vec![];
                let s = s.clone();
                for i in 0..n as u64 {
                    let at = self.add_idx(&s, &Value::usize(i))?;
                    let mut p = l.proj.clone();
                    p.push(self.idx_proj(&at)?);
                    o.push(self.get(l.cell, &p)?);
                }
                return Ok(Value::agg(o));
            };
            let items: Vec<Value<'tcx>> = match &v {
                Value::Agg(f) | Value::Seq(f) => {
                    if (s + n) as usize > f.len() {
                        return Err(self.abort("array view out of range"));
                    }
                    f[s as usize..(s + n) as usize].to_vec()
                }
                _ => {
                    let mut o = vec![];
                    for i in 0..n {
                        let mut p = l.proj.clone();
                        p.push(Proj::Elem((s + i) as u64));
                        o.push(self.get(l.cell, &p)?);
                    }
                    o
                }
            };
            return Ok(Value::agg(items));
        }
        Ok(v)
    }

    pub fn store(&mut self, l: &Loc<'tcx>, v: Value<'tcx>) -> Res<()> {
        if let Meta::Slice(s, n) = &l.meta {
            let (Some(s), Some(n)) = (s.as_const(), n.as_const()) else {
                return Err(self.unknown("store to a slice view of unknown extent"));
            };
            for i in 0..n as u64 {
                let e = get_slow(&mut self.dom, &v, &[Proj::Elem(i)]).map_err(|m| self.abort(m))?;
                let mut p = l.proj.clone();
                p.push(Proj::Elem(s as u64 + i));
                self.set(l.cell, &p, e)?;
            }
            return Ok(());
        }
        self.set(l.cell, &l.proj, v)
    }

    pub fn ref_locs(&mut self, v: &Value<'tcx>) -> Res<Vec<(B, Loc<'tcx>)>> {
        Ok(match v {
            Value::Ref(r) => vec![(T, Loc { cell: r.cell, proj: r.proj.clone(), meta: r.meta.clone() })],
            Value::Choice(l) => {
                let mut out = vec![];
                for (g, v) in l.iter() {
                    let g2 = self.dom.bdd.and(*g, self.pc);
                    if g2 == F {
                        continue;
                    }
                    for (h, loc) in self.ref_locs(v)? {
                        let g = self.dom.bdd.and(*g, h);
                        out.push((g, loc));
                    }
                }
                out
            }
            // dangling pointer to a zero-sized value
            Value::Int(..) => {
                let c = self.alloc(Value::unit());
                vec![(T, Loc { cell: c, proj: vec![], meta: Meta::None })]
            }
            Value::Top(r) => return Err(self.abort(format!("dereference of unknown pointer ({r})"))),
            v => return Err(self.abort(format!("dereference of {}", v.kind()))),
        })
    }

    pub fn load_ref(&mut self, v: &Value<'tcx>) -> Res<Value<'tcx>> {
        let ls = self.ref_locs(v)?;
        self.load_many(&ls)
    }

    fn load_many(&mut self, ls: &[(B, Loc<'tcx>)]) -> Res<Value<'tcx>> {
        let mut acc: Option<Value<'tcx>> = None;
        for (g, l) in ls.iter().rev() {
            let v = self.load(l)?;
            acc = Some(match acc {
                None => v,
                Some(a) => self.dom.ite(*g, &v, &a),
            });
        }
        acc.ok_or_else(|| self.abort("empty choice"))
    }

    pub fn store_ref(&mut self, r: &Value<'tcx>, v: Value<'tcx>) -> Res<()> {
        let ls = self.ref_locs(r)?;
        self.store_many(&ls, v)
    }

    fn store_many(&mut self, ls: &[(B, Loc<'tcx>)], v: Value<'tcx>) -> Res<()> {
        if ls.len() == 1 {
            return self.store(&ls[0].1, v);
        }
        for (g, l) in ls {
            let old = self.load(l)?;
            let n = self.dom.ite(*g, &v, &old);
            self.store(l, n)?;
        }
        Ok(())
    }

    // ---------------------------------------------------------------- places

    pub fn resolve(&mut self, base: usize, p: &Pl<'tcx>) -> Res<Vec<(B, Loc<'tcx>)>> {
        let mut cur = vec![(T, Loc { cell: (base + p.local as usize) as u32, proj: vec![], meta: Meta::None })];
        for e in &p.proj {
            match e {
                PEl::Deref => {
                    let mut out = vec![];
                    for (g, l) in cur {
                        let v = self.load(&l)?;
                        for (h, l2) in self.ref_locs(&v)? {
                            let g2 = self.dom.bdd.and(g, h);
                            out.push((g2, l2));
                        }
                    }
                    cur = out;
                }
                PEl::Field(i) => cur.iter_mut().for_each(|(_, l)| {
                    l.proj.push(Proj::Field(*i));
                    l.meta = Meta::None;
                }),
                PEl::VField(v, i) => cur.iter_mut().for_each(|(_, l)| {
                    l.proj.push(Proj::VField(*v, *i));
                    l.meta = Meta::None;
                }),
                PEl::Zst => {
                    let c = self.alloc(Value::unit());
                    cur = vec![(T, Loc { cell: c, proj: vec![], meta: Meta::None })];
                }
                PEl::Index(loc) => {
                    let idx = self.cell((base + *loc as usize) as u32)?.clone();
                    for (_, l) in cur.iter_mut() {
                        let i = match &l.meta {
                            Meta::Slice(s, _) => {
                                let s = s.clone();
                                self.add_idx(&s, &idx)?
                            }
                            _ => idx.clone(),
                        };
                        l.meta = Meta::None;
                        l.proj.push(self.idx_proj(&i)?);
                    }
                }
                PEl::CIdx(off, from_end) => {
                    for (_, l) in cur.iter_mut() {
                        let (s, n) = self.extent(l)?;
                        let i = if *from_end {
                            let k = self.sub_idx(&n, &Value::usize(*off))?;
                            self.add_idx(&s, &k)?
                        } else {
                            self.add_idx(&s, &Value::usize(*off))?
                        };
                        l.meta = Meta::None;
                        l.proj.push(self.idx_proj(&i)?);
                    }
                }
                PEl::Sub(from, to, from_end) => {
                    for (_, l) in cur.iter_mut() {
                        let (s, n) = self.extent(l)?;
                        let start = self.add_idx(&s, &Value::usize(*from))?;
                        let len = if *from_end {
                            self.sub_idx(&n, &Value::usize(from + to))?
                        } else {
                            Value::usize(to - from)
                        };
                        l.meta = Meta::Slice(start, len);
                    }
                }
            }
        }
        Ok(cur)
    }

    pub fn extent(&mut self, l: &Loc<'tcx>) -> Res<(Value<'tcx>, Value<'tcx>)> {
        match &l.meta {
            Meta::Slice(s, n) => Ok((s.clone(), n.clone())),
            _ => {
                let v = self.get(l.cell, &l.proj)?;
                match v {
                    Value::Agg(f) | Value::Seq(f) => Ok((Value::usize(0), Value::usize(f.len() as u64))),
                    v => Err(self.abort(format!("extent of {}", v.kind()))),
                }
            }
        }
    }

    pub fn add_idx(&mut self, a: &Value<'tcx>, b: &Value<'tcx>) -> Res<Value<'tcx>> {
        self.binop(BinOp::Add, a, b, Some(IntTy { w: 64, signed: false }))
    }
    pub fn sub_idx(&mut self, a: &Value<'tcx>, b: &Value<'tcx>) -> Res<Value<'tcx>> {
        self.binop(BinOp::Sub, a, b, Some(IntTy { w: 64, signed: false }))
    }
    pub fn idx_proj(&mut self, i: &Value<'tcx>) -> Res<Proj> {
        match i {
            Value::Int(_, v) => Ok(Proj::Elem(*v as u64)),
            Value::Sym(b) => Ok(Proj::ElemSym(b.clone())),
            v => Err(self.abort(format!("index by {} value", v.kind()))),
        }
    }

    pub fn read_place(&mut self, base: usize, p: &Pl<'tcx>) -> Res<Value<'tcx>> {
        if p.proj.is_empty() {
            return Ok(self.stack[base + p.local as usize].clone());
        }
        // fast path: field projections only, optionally behind one plain reference
        let mut v = &self.stack[base + p.local as usize];
        let mut ok = true;
        for e in &p.proj {
            match (e, v) {
                (PEl::Field(i), Value::Agg(f)) if (*i as usize) < f.len() => v = &f[*i as usize],
                (PEl::VField(n, i), Value::Enum1(m, f)) if n == m && (*i as usize) < f.len() => v = &f[*i as usize],
                (PEl::Deref, Value::Ref(r)) if matches!(r.meta, Meta::None) => match self.cell(r.cell).ok().and_then(|c| get_ref(c, &r.proj)) {
                    Some(x) => v = x,
                    None => {
                        ok = false;
                        break;
                    }
                },
                _ => {
                    ok = false;
                    break;
                }
            }
        }
        if ok {
            return Ok(v.clone());
        }
        let l = self.resolve(base, p)?;
        self.load_many(&l)
    }

    pub fn write_place(&mut self, base: usize, p: &Pl<'tcx>, v: Value<'tcx>) -> Res<()> {
        if p.proj.is_empty() {
            *self.cell_mut((base + p.local as usize) as u32)? = v;
            return Ok(());
        }
        let l = self.resolve(base, p)?;
        self.store_many(&l, v)
    }

    pub fn operand(&mut self, base: usize, o: &Op<'tcx>) -> Res<Value<'tcx>> {
        match o {
            Op::Const(v) => Ok(v.clone()),
            Op::Place(p) => self.read_place(base, p),
            Op::Take(l) => {
                let i = base + *l as usize;
                Ok(if self.stamp[i] == self.fork_id {
                    std::mem::replace(&mut self.stack[i], Value::Uninit)
                } else {
                    self.stack[i].clone()
                })
            }
        }
    }

    // ---------------------------------------------------------------- unknowns

    pub fn fresh_unknown(&mut self, w: u16, why: &str) -> Value<'tcx> {
        if !why.is_empty() {
            self.reasons.insert(why.to_string());
        }
        let mut b = vec![];
        for _ in 0..w {
            let v = self.next_var;
            self.next_var += 1;
            self.unknown.insert(v);
            b.push(self.dom.bdd.var(v));
        }
        Dom::from_bits(b)
    }

    pub fn int_bits(&mut self, v: &Value<'tcx>, w: u16) -> Res<Vec<B>> {
        if let Some(b) = self.dom.bits(v) {
            return Ok(b);
        }
        match v {
            Value::Top(r) => {
                let r = r.clone();
                let u = self.fresh_unknown(w, &r);
                Ok(self.dom.bits(&u).unwrap())
            }
            Value::Choice(l) => {
                // alternatives of one integer type, e.g. pointer-sized values
                let l = l.clone();
                let mut acc: Option<Vec<B>> = None;
                for (g, v) in l.iter().rev() {
                    let b = self.int_bits(v, w)?;
                    acc = Some(match acc {
                        None => b,
                        Some(a) => self.dom.ite_bits(*g, &b, &a),
                    });
                }
                acc.ok_or_else(|| self.abort("empty choice"))
            }
            v => Err(self.abort(format!("integer expected, found {}", v.kind()))),
        }
    }

    pub fn bool_b(&mut self, v: &Value<'tcx>) -> Res<B> {
        Ok(self.int_bits(v, 1)?[0])
    }

    // ---------------------------------------------------------------- operations

    pub fn binop(&mut self, op: BinOp, a: &Value<'tcx>, b: &Value<'tcx>, it: Option<IntTy>) -> Res<Value<'tcx>> {
        use BinOp::*;
        if op == Offset {
            return self.ptr_offset(a, b);
        }
        if let (Value::Top(_), _) | (_, Value::Top(_)) = (a, b) {
            if !matches!(op, AddWithOverflow | SubWithOverflow | MulWithOverflow | Cmp) {
                let r = if let Value::Top(_) = a { a } else { b };
                return Ok(r.clone());
            }
        }
        let ptrish = |v: &Value| matches!(v, Value::Ref(_) | Value::Fn(_))
            || matches!(v, Value::Choice(l) if l.iter().any(|x| matches!(x.1, Value::Ref(_))));
        if it.is_none() || ptrish(a) || ptrish(b) {
            if let (Value::Int(64, _), Value::Int(64, _)) = (a, b) {
                return self.binop(op, a, b, Some(IntTy { w: 64, signed: false }));
            }
            return self.ptr_cmp(op, a, b);
        }
        let it = it.unwrap();
        if let (Value::Int(w, x), Value::Int(wb, y)) = (a, b) {
            return Ok(const_bin(op, *w, *x, *wb, *y, it.signed));
        }
        let w = it.w;
        let x = self.int_bits(a, w)?;
        let wb = Dom::width(b).unwrap_or(w);
        let y = self.int_bits(b, wb)?;
        let d = &mut self.dom;
        let s = it.signed;
        let r = match op {
            Add | AddUnchecked => Dom::from_bits(d.add(&x, &y, F).0),
            Sub | SubUnchecked => {
                let ny = d.not_bits(&y);
                Dom::from_bits(d.add(&x, &ny, T).0)
            }
            AddWithOverflow => {
                let (v, c, p) = d.add(&x, &y, F);
                let o = if s { d.bdd.xor(c, p) } else { c };
                Value::agg(vec![Dom::from_bits(v), Dom::bool_of(o)])
            }
            SubWithOverflow => {
                let ny = d.not_bits(&y);
                let (v, c, p) = d.add(&x, &ny, T);
                let o = if s { d.bdd.xor(c, p) } else { d.bdd.not(c) };
                Value::agg(vec![Dom::from_bits(v), Dom::bool_of(o)])
            }
            Mul | MulUnchecked | MulWithOverflow => {
                let sy = |v: &Vec<B>| v.iter().filter(|b| **b > 1).count();
                let nx = sy(&x);
                let ny = sy(&y);
                if s && d.bdd.or(x[w as usize - 1], y[wb as usize - 1]) != F && op == MulWithOverflow {
                    // by magnitudes
                    let (mx, my) = (d.magnitude(&x), d.magnitude(&y));
                    if sy(&mx).min(sy(&my)) <= 10 {
                        let neg = d.bdd.xor(x[w as usize - 1], y[wb as usize - 1]);
                        let p = d.mul(&mx, &my);
                        let n = d.negate(&p);
                        let r = d.ite_bits(neg, &n, &p);
                        // in range when every higher bit repeats the sign
                        let top = r[w as usize - 1];
                        let mut o = F;
                        for b in &r[w as usize..] {
                            let ne = d.bdd.xor(*b, top);
                            o = d.bdd.or(o, ne);
                        }
                        return Ok(Value::agg(vec![Dom::from_bits(r[..w as usize].to_vec()), Dom::bool_of(o)]));
                    }
                }
                if nx.min(ny) > 10 || (s && op == MulWithOverflow && d.bdd.or(x[w as usize - 1], y[wb as usize - 1]) != F) {
                    let why = "product of two unknown factors";
                    let v = self.fresh_unknown(w, why);
                    if op == MulWithOverflow {
                        let o = self.fresh_unknown(1, why);
                        return Ok(Value::agg(vec![v, o]));
                    }
                    return Ok(v);
                }
                let p = d.mul(&x, &y);
                let lo = p[..w as usize].to_vec();
                if op == MulWithOverflow {
                    let mut o = F;
                    // a product of two non-negative signed numbers has one bit less to fill
                    for b in &p[w as usize - s as usize..] {
                        o = d.bdd.or(o, *b);
                    }
                    Value::agg(vec![Dom::from_bits(lo), Dom::bool_of(o)])
                } else {
                    Dom::from_bits(lo)
                }
            }
            Div | Rem => {
                if let (Value::Int(_, c), F) = (b, if s { d.bdd.or(x[w as usize - 1], y[w as usize - 1]) } else { F }) {
                    if c.is_power_of_two() {
                        let k = c.trailing_zeros() as usize;
                        let mut v = vec![F; w as usize];
                        if op == Div {
                            v[..w as usize - k].copy_from_slice(&x[k..]);
                        } else {
                            v[..k].copy_from_slice(&x[..k]);
                        }
                        return Ok(Dom::from_bits(v));
                    }
                }
                if s && (x[w as usize - 1] != F || y[w as usize - 1] != F) {
                    let (mx, my) = (d.magnitude(&x), d.magnitude(&y));
                    let (sx, sy) = (x[w as usize - 1], y[w as usize - 1]);
                    let u = Some(IntTy { w, signed: false });
                    let (va, vb) = (Dom::from_bits(mx), Dom::from_bits(my));
                    let r = self.binop(op, &va, &vb, u)?;
                    let r = self.int_bits(&r, w)?;
                    let d = &mut self.dom;
                    let n = d.negate(&r);
                    let neg = if op == Div { d.bdd.xor(sx, sy) } else { sx };
                    return Ok(Dom::from_bits(d.ite_bits(neg, &n, &r)));
                }
                let live = x.iter().filter(|b| **b > 1).count();
                let livy = y.iter().filter(|b| **b > 1).count();
                if live > 20 || livy > 8 {
                    return Ok(self.fresh_unknown(w, "quotient of unknown operands"));
                }
                let (q, r) = d.divrem(&x, &y);
                Dom::from_bits(if op == Div { q } else { r })
            }
            BitXor => Dom::from_bits(x.iter().zip(&y).map(|(p, q)| d.bdd.xor(*p, *q)).collect()),
            BitAnd => Dom::from_bits(x.iter().zip(&y).map(|(p, q)| d.bdd.and(*p, *q)).collect()),
            BitOr => Dom::from_bits(x.iter().zip(&y).map(|(p, q)| d.bdd.or(*p, *q)).collect()),
            Shl | ShlUnchecked | Shr | ShrUnchecked => {
                let left = matches!(op, Shl | ShlUnchecked);
                let lw = 16 - (w - 1).leading_zeros() as usize; // bits of a shift amount below w
                let mut cur = x;
                let sign = if s { *cur.last().unwrap() } else { F };
                for k in 0..lw {
                    let c = *y.get(k).unwrap_or(&F);
                    if c == F {
                        continue;
                    }
                    let n = 1usize << k;
                    let mut sh = vec![F; w as usize];
                    for i in 0..w as usize {
                        sh[i] = if left {
                            if i >= n { cur[i - n] } else { F }
                        } else if i + n < w as usize {
                            cur[i + n]
                        } else {
                            sign
                        };
                    }
                    cur = d.ite_bits(c, &sh, &cur);
                }
                Dom::from_bits(cur)
            }
            Eq => Dom::bool_of(d.eq_bits(&x, &y)),
            Ne => {
                let e = d.eq_bits(&x, &y);
                Dom::bool_of(d.bdd.not(e))
            }
            Lt => Dom::bool_of(d.lt(&x, &y, s)),
            Gt => Dom::bool_of(d.lt(&y, &x, s)),
            Le => {
                let e = d.lt(&y, &x, s);
                Dom::bool_of(d.bdd.not(e))
            }
            Ge => {
                let e = d.lt(&x, &y, s);
                Dom::bool_of(d.bdd.not(e))
            }
            Cmp => {
                let l = d.lt(&x, &y, s);
                let e = d.eq_bits(&x, &y);
                let le = d.bdd.or(l, e);
                let g = d.bdd.not(le);
                let mut o = vec![];
                for (i, c) in [l, e, g].into_iter().enumerate() {
                    if c != F {
                        o.push(Alt { g: c, var: i as u32, f: empty() });
                    }
                }
                from_alts(o)
            }
            Offset => unreachable!(),
        };
        if self.dom.bdd.overflowed {
            return Err(self.abort("abstract state too large"));
        }
        Ok(r)
    }

    fn ptr_cmp(&mut self, op: BinOp, a: &Value<'tcx>, b: &Value<'tcx>) -> Res<Value<'tcx>> {
        use BinOp::*;
        if let Value::Choice(l) = a {
            let l = l.clone();
            let mut acc: Option<Value<'tcx>> = None;
            for (g, v) in l.iter().rev() {
                let r = self.ptr_cmp(op, v, b)?;
                acc = Some(match acc {
                    None => r,
                    Some(x) => self.dom.ite(*g, &r, &x),
                });
            }
            return Ok(acc.unwrap());
        }
        if let Value::Choice(l) = b {
            let l = l.clone();
            let mut acc: Option<Value<'tcx>> = None;
            for (g, v) in l.iter().rev() {
                let r = self.ptr_cmp(op, a, v)?;
                acc = Some(match acc {
                    None => r,
                    Some(x) => self.dom.ite(*g, &r, &x),
                });
            }
            return Ok(acc.unwrap());
        }
        match (a, b) {
            (Value::Ref(x), Value::Ref(y)) => {
                if x.cell == y.cell && x.proj.len() == y.proj.len() && !x.proj.is_empty() {
                    let n = x.proj.len() - 1;
                    if x.proj[..n] == y.proj[..n] {
                        if let (Some(i), Some(j)) = (proj_idx(&x.proj[n]), proj_idx(&y.proj[n])) {
                            let i = Dom::from_bits(i);
                            let j = Dom::from_bits(j);
                            return self.binop(op, &i, &j, Some(IntTy { w: 64, signed: false }));
                        }
                    }
                }
                let eq = x.cell == y.cell && x.proj == y.proj && same_meta(&x.meta, &y.meta);
                match op {
                    Eq => Ok(Value::bool(eq)),
                    Ne => Ok(Value::bool(!eq)),
                    _ => Ok(Value::top("pointer ordering")),
                }
            }
            (Value::Ref(_), Value::Int(..)) | (Value::Int(..), Value::Ref(_)) => match op {
                Eq => Ok(Value::bool(false)),
                Ne => Ok(Value::bool(true)),
                _ => Ok(Value::top("pointer ordering")),
            },
            (Value::Fn(x), Value::Fn(y)) => match op {
                Eq => Ok(Value::bool(x == y)),
                Ne => Ok(Value::bool(x != y)),
                _ => Ok(Value::top("pointer ordering")),
            },
            _ => Ok(Value::top(format!("comparison of {} and {}", a.kind(), b.kind()))),
        }
    }

    pub fn ptr_offset(&mut self, p: &Value<'tcx>, n: &Value<'tcx>) -> Res<Value<'tcx>> {
        match p {
            Value::Ref(r) => {
                let mut proj = r.proj.clone();
                if let Meta::Slice(s, l) = &r.meta {
                    // pointer to an array view: step by whole views
                    let k = self.binop(BinOp::Mul, l, n, Some(IntTy { w: 64, signed: false }))?;
                    let s2 = self.add_idx(s, &k)?;
                    return Ok(Value::refv(r.cell, proj, Meta::Slice(s2, l.clone())));
                }
                match proj.last().and_then(proj_idx) {
                    Some(b) => {
                        let i = Dom::from_bits(b);
                        let j = self.add_idx(&i, n)?;
                        *proj.last_mut().unwrap() = self.idx_proj(&j)?;
                        Ok(Value::refv(r.cell, proj, r.meta.clone()))
                    }
                    None => {
                        if n.as_const() == Some(0) {
                            return Ok(p.clone());
                        }
                        Err(self.abort("pointer arithmetic outside a sequence"))
                    }
                }
            }
            Value::Int(..) => Ok(p.clone()),
            Value::Choice(l) => {
                let l = l.clone();
                let mut acc: Option<Value<'tcx>> = None;
                for (g, v) in l.iter().rev() {
                    let r = self.ptr_offset(v, n)?;
                    acc = Some(match acc {
                        None => r,
                        Some(x) => self.dom.ite(*g, &r, &x),
                    });
                }
                Ok(acc.unwrap())
            }
            v => Err(self.abort(format!("pointer arithmetic on {}", v.kind()))),
        }
    }

    pub fn unop(&mut self, op: UnOp, a: &Value<'tcx>, it: Option<IntTy>) -> Res<Value<'tcx>> {
        match op {
            UnOp::Not => {
                if let Value::Int(w, v) = a {
                    return Ok(Value::Int(*w, !v & mask(*w)));
                }
                let w = it.map(|i| i.w).unwrap_or(64);
                let x = self.int_bits(a, w)?;
                Ok(Dom::from_bits(self.dom.not_bits(&x)))
            }
            UnOp::Neg => {
                if let Value::Int(w, v) = a {
                    return Ok(Value::Int(*w, v.wrapping_neg() & mask(*w)));
                }
                let w = it.map(|i| i.w).unwrap_or(64);
                let x = self.int_bits(a, w)?;
                let n = self.dom.not_bits(&x);
                let z = vec![F; n.len()];
                Ok(Dom::from_bits(self.dom.add(&n, &z, T).0))
            }
            UnOp::PtrMetadata => self.ptr_meta(a),
        }
    }

    pub fn ptr_meta(&mut self, a: &Value<'tcx>) -> Res<Value<'tcx>> {
        match a {
            Value::Ref(r) => match &r.meta {
                Meta::Slice(_, n) => Ok(n.clone()),
                Meta::None => Ok(Value::unit()),
                Meta::Dyn(_) => Ok(Value::top("vtable")),
            },
            Value::Choice(l) => {
                let l = l.clone();
                let mut acc: Option<Value<'tcx>> = None;
                for (g, v) in l.iter().rev() {
                    let r = self.ptr_meta(v)?;
                    acc = Some(match acc {
                        None => r,
                        Some(x) => self.dom.ite(*g, &r, &x),
                    });
                }
                Ok(acc.unwrap())
            }
            Value::Int(..) => Ok(Value::unit()),
            v => Ok(Value::top(format!("metadata of {}", v.kind()))),
        }
    }

    pub fn cast_int(&mut self, v: &Value<'tcx>, f: IntTy, t: IntTy) -> Res<Value<'tcx>> {
        if let Value::Int(_, x) = v {
            let x = if f.signed { sext(f.w, *x) as u128 } else { *x };
            return Ok(Value::Int(t.w, x & mask(t.w)));
        }
        if let Value::Top(_) = v {
            return Ok(v.clone());
        }
        if matches!(v, Value::Ref(_)) {
            return Ok(Value::top("integer cast of a pointer"));
        }
        let mut b = self.int_bits(v, f.w)?;
        let fill = if f.signed { *b.last().unwrap() } else { F };
        b.resize(t.w as usize, fill);
        Ok(Dom::from_bits(b))
    }

    pub fn discr(&mut self, v: &Value<'tcx>, ds: &[u128], w: u16) -> Res<Value<'tcx>> {
        Ok(match v {
            Value::Enum1(n, _) => Value::Int(w, ds[*n as usize] & mask(w)),
            Value::EnumN(a) => {
                let a = a.clone();
                let mut acc: Option<Value<'tcx>> = None;
                for alt in a.iter().rev() {
                    let d = Value::Int(w, ds[alt.var as usize] & mask(w));
                    acc = Some(match acc {
                        None => d,
                        Some(x) => self.dom.ite(alt.g, &d, &x),
                    });
                }
                acc.ok_or_else(|| self.abort("empty enum"))?
            }
            Value::Choice(l) => {
                let l = l.clone();
                let mut acc: Option<Value<'tcx>> = None;
                for (g, v) in l.iter().rev() {
                    let d = self.discr(v, ds, w)?;
                    acc = Some(match acc {
                        None => d,
                        Some(x) => self.dom.ite(*g, &d, &x),
                    });
                }
                acc.unwrap()
            }
            Value::Top(r) => {
                let r = r.clone();
                self.fresh_unknown(w, &r)
            }
            v => return Err(self.abort(format!("discriminant of {}", v.kind()))),
        })
    }

    fn rvalue(&mut self, base: usize, r: &Rv<'tcx>) -> Res<Value<'tcx>> {
        Ok(match r {
            Rv::Use(o) => self.operand(base, o)?,
            Rv::Repeat(o, n) => {
                let v = self.operand(base, o)?;
                Value::agg(vec![v; *n as usize])
            }
            Rv::Ref(p) => {
                // reference to a dereferenced Vec-like value keeps the place
                let mut ls = self.resolve(base, p)?;
                if let ty::Slice(_) = p.ty.kind() {
                    // the unsized tail of a struct: its extent is that of the value behind it
                    for (_, l) in ls.iter_mut() {
                        if let Meta::None = l.meta {
                            let v = self.get(l.cell, &l.proj)?;
                            if let Value::Agg(f) | Value::Seq(f) = &v {
                                l.meta = Meta::Slice(Value::usize(0), Value::usize(f.len() as u64));
                            }
                        }
                    }
                }
                self.refs_of(ls)?
            }
            Rv::Cast(c, o) => {
                let v = self.operand(base, o)?;
                self.cast(c, v)?
            }
            Rv::Bin(op, a, b, it) => {
                let a = self.operand(base, a)?;
                let b = self.operand(base, b)?;
                self.binop(*op, &a, &b, *it)?
            }
            Rv::Un(op, a, it) => {
                let a = self.operand(base, a)?;
                self.unop(*op, &a, *it)?
            }
            Rv::Discr(p, ds, w) => {
                let v = self.read_place(base, p)?;
                self.discr(&v, ds, *w)?
            }
            Rv::Agg(ops) | Rv::Arr(ops) => {
                let mut f = Vec::with_capacity(ops.len());
                for o in ops {
                    f.push(self.operand(base, o)?);
                }
                if f.is_empty() {
                    Value::unit()
                } else {
                    Value::agg(f)
                }
            }
            Rv::AggE(v, ops) => {
                if ops.is_empty() {
                    Value::Enum1(*v, empty())
                } else {
                    let mut f = Vec::with_capacity(ops.len());
                    for o in ops {
                        f.push(self.operand(base, o)?);
                    }
                    Value::Enum1(*v, Rc::new(f))
                }
            }
            Rv::RawPtr(a, b, is_slice) => {
                let p = self.operand(base, a)?;
                let m = self.operand(base, b)?;
                if *is_slice {
                    self.make_slice(&p, &m)?
                } else {
                    p
                }
            }
            Rv::Bad(m) => return Err(self.abort(format!("unsupported rvalue: {m}"))),
        })
    }

    pub fn make_slice(&mut self, p: &Value<'tcx>, n: &Value<'tcx>) -> Res<Value<'tcx>> {
        match p {
            Value::Ref(r) => {
                let mut proj = r.proj.clone();
                match proj.last().and_then(proj_idx) {
                    Some(b) if matches!(r.meta, Meta::None) => {
                        proj.pop();
                        Ok(Value::refv(r.cell, proj, Meta::Slice(Dom::from_bits(b), n.clone())))
                    }
                    _ => {
                        if n.as_const() == Some(0) {
                            let c = self.alloc(Value::unit());
                            return Ok(Value::refv(c, vec![], Meta::Slice(Value::usize(0), Value::usize(0))));
                        }
                        if n.as_const() == Some(1) {
                            // slice::from_ref: a read-only one-element copy
                            let v = self.load_ref(p)?;
                            let c = self.alloc(Value::agg(vec![v]));
                            return Ok(Value::refv(c, vec![], Meta::Slice(Value::usize(0), Value::usize(1))));
                        }
                        Err(self.abort("slice made from a pointer outside a sequence"))
                    }
                }
            }
            Value::Int(..) => {
                let c = self.alloc(Value::unit());
                Ok(Value::refv(c, vec![], Meta::Slice(Value::usize(0), n.clone())))
            }
            Value::Choice(l) => {
                let l = l.clone();
                let mut acc: Option<Value<'tcx>> = None;
                for (g, v) in l.iter().rev() {
                    let r = self.make_slice(v, n)?;
                    acc = Some(match acc {
                        None => r,
                        Some(x) => self.dom.ite(*g, &r, &x),
                    });
                }
                Ok(acc.unwrap())
            }
            v => Err(self.abort(format!("slice made from {}", v.kind()))),
        }
    }

    fn refs_of(&mut self, ls: Vec<(B, Loc<'tcx>)>) -> Res<Value<'tcx>> {
        let mut acc: Option<Value<'tcx>> = None;
        for (g, l) in ls.into_iter().rev() {
            let r = Value::refv(l.cell, l.proj, l.meta);
            acc = Some(match acc {
                None => r,
                Some(x) => self.dom.ite(g, &r, &x),
            });
        }
        acc.ok_or_else(|| self.abort("reference to nothing"))
    }

    pub fn cast(&mut self, c: &CastOp<'tcx>, v: Value<'tcx>) -> Res<Value<'tcx>> {
        if let Value::Choice(l) = &v {
            if !matches!(c, CastOp::Nop | CastOp::Reify(_)) {
                let l = l.clone();
                let mut acc: Option<Value<'tcx>> = None;
                for (g, v) in l.iter().rev() {
                    let r = self.cast(c, v.clone())?;
                    acc = Some(match acc {
                        None => r,
                        Some(x) => self.dom.ite(*g, &r, &x),
                    });
                }
                return Ok(acc.unwrap());
            }
        }
        match c {
            CastOp::Nop => Ok(v),
            CastOp::Int(f, t) => self.cast_int(&v, *f, *t),
            CastOp::ToElem => self.to_elem(v),
            CastOp::Reify(i) => Ok(Value::Fn(*i)),
            CastOp::Unsize(f, t) => self.unsize(v, *f, *t),
            CastOp::PtrToPtr(f, t) => self.ptr_to_ptr(v, *f, *t),
            CastOp::Transmute(f, t) => self.transmute(v, *f, *t),
            CastOp::Bad(m) => Err(self.abort(format!("unsupported cast: {m}"))),
        }
    }

    pub fn to_elem(&mut self, v: Value<'tcx>) -> Res<Value<'tcx>> {
        match &v {
            Value::Ref(r) => {
                let mut proj = r.proj.clone();
                match &r.meta {
                    Meta::Slice(s, _) => {
                        let s = s.clone();
                        proj.push(self.idx_proj(&s)?)
                    }
                    _ => proj.push(Proj::Elem(0)),
                }
                Ok(Value::refv(r.cell, proj, Meta::None))
            }
            Value::Int(..) => Ok(v),
            v => Err(self.abort(format!("element pointer of {}", v.kind()))),
        }
    }

    pub fn ptr_to_ptr(&mut self, v: Value<'tcx>, f: Ty<'tcx>, t: Ty<'tcx>) -> Res<Value<'tcx>> {
        let tcx = self.tcx;
        let (Some(fp), Some(tp)) = (pointee(tcx, f), pointee(tcx, t)) else {
            return Ok(v);
        };
        let Value::Ref(r) = &v else { return Ok(v) };
        let fp = peel(tcx, fp);
        let tp = peel(tcx, tp);
        if fp == tp {
            return Ok(v);
        }
        let fs = matches!(fp.kind(), ty::Slice(_) | ty::Str);
        let ts = matches!(tp.kind(), ty::Slice(_) | ty::Str);
        if fs && ts {
            return Ok(v);
        }
        if matches!(fp.kind(), ty::Dynamic(..)) {
            if matches!(tp.kind(), ty::Dynamic(..)) {
                return Ok(v);
            }
            return Ok(Value::refv(r.cell, r.proj.clone(), Meta::None));
        }
        let size = |t: Ty<'tcx>| tcx.layout_of(env().as_query_input(t)).map(|l| l.size.bytes()).ok();
        if fs {
            let whole = matches!(fp.kind(), ty::Slice(e) if size(*e) == size(tp));
            if let (ty::Array(_, n), false) = (tp.kind(), whole) {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                if let Meta::Slice(s, _) = &r.meta {
                    return Ok(Value::refv(r.cell, r.proj.clone(), Meta::Slice(s.clone(), Value::usize(n))));
                }
            }
            return self.to_elem(v);
        }
        if let ty::Array(e, _) = fp.kind() {
            if matches!(tp.kind(), ty::Array(..)) && size(*e) == size(tp) && size(fp) != size(tp) {
                return self.to_elem(v);
            }
            if let ty::Array(e2, n2) = tp.kind() {
                if size(*e) == size(*e2) {
                    if size(fp) == size(tp) {
                        return Ok(v);
                    }
                    // prefix view
                    let n2 = n2.try_to_target_usize(tcx).unwrap_or(0);
                    let s = match &r.meta {
                        Meta::Slice(s, _) => s.clone(),
                        _ => Value::usize(0),
                    };
                    return Ok(Value::refv(r.cell, r.proj.clone(), Meta::Slice(s, Value::usize(n2))));
                }
            } else if size(*e) == size(tp) {
                return self.to_elem(v);
            }
        } else if let ty::Array(e, n) = tp.kind() {
            // element pointer to array pointer
            if size(*e) == size(fp) {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                let mut proj = r.proj.clone();
                if let Some(b) = proj.last().and_then(proj_idx) {
                    proj.pop();
                    return Ok(Value::refv(r.cell, proj, Meta::Slice(Dom::from_bits(b), Value::usize(n))));
                }
            }
        }
        Ok(v)
    }

    pub fn unsize(&mut self, v: Value<'tcx>, f: Ty<'tcx>, t: Ty<'tcx>) -> Res<Value<'tcx>> {
        let tcx = self.tcx;
        if let Value::Choice(l) = &v {
            let l = l.clone();
            let mut acc: Option<Value<'tcx>> = None;
            for (g, v) in l.iter().rev() {
                let r = self.unsize(v.clone(), f, t)?;
                acc = Some(match acc {
                    None => r,
                    Some(x) => self.dom.ite(*g, &r, &x),
                });
            }
            return Ok(acc.unwrap());
        }
        let unpat = |t: Ty<'tcx>| match t.kind() {
            ty::Pat(b, _) => *b,
            _ => t,
        };
        let f = unpat(f);
        let t = unpat(t);
        match (f.kind(), t.kind()) {
            (ty::Ref(_, a, _) | ty::RawPtr(a, _), ty::Ref(_, b, _) | ty::RawPtr(b, _)) => {
                let (sa, sb) = tcx.struct_lockstep_tails_for_codegen(*a, *b, env());
                let Value::Ref(r) = &v else {
                    if let (Value::Int(..), ty::Slice(_)) = (&v, sb.kind()) {
                        return self.make_slice(&v, &Value::usize(0));
                    }
                    if let (Value::Int(..), ty::Dynamic(..)) = (&v, sb.kind()) {
                        let c = self.alloc(Value::unit());
                        return Ok(Value::refv(c, vec![], Meta::Dyn(sa)));
                    }
                    return Err(self.abort(format!("unsize of {}", v.kind())));
                };
                match (sa.kind(), sb.kind()) {
                    (ty::Array(_, n), ty::Slice(_)) => {
                        if let Meta::Slice(..) = r.meta {
                            return Ok(v);
                        }
                        let n = n.try_to_target_usize(tcx).unwrap_or(0);
                        Ok(Value::refv(r.cell, r.proj.clone(), Meta::Slice(Value::usize(0), Value::usize(n))))
                    }
                    (ty::Dynamic(..), ty::Dynamic(..)) => Ok(v),
                    (_, ty::Dynamic(..)) => {
                        let meta = Meta::Dyn(sa);
                        Ok(Value::refv(r.cell, r.proj.clone(), meta))
                    }
                    _ => Err(self.abort(format!("unsize {f} to {t}"))),
                }
            }
            (ty::Adt(d, fa), ty::Adt(_, ta)) if d.is_struct() => {
                if let Some(i) = transparent(tcx, f) {
                    let fd = &d.non_enum_variant().fields[rustc_abi::FieldIdx::from_usize(i)];
                    let a = field_ty(tcx, fd, fa);
                    let b = field_ty(tcx, fd, ta);
                    return self.unsize(v, a, b);
                }
                let Value::Agg(fs) = &v else { return Err(self.abort("unsize of non-struct")) };
                let mut out = (**fs).clone();
                for (i, fd) in d.non_enum_variant().fields.iter().enumerate() {
                    let a = field_ty(tcx, fd, fa);
                    let b = field_ty(tcx, fd, ta);
                    if a != b && i < out.len() && !is_zst(tcx, a) {
                        out[i] = self.unsize(out[i].clone(), a, b)?;
                    }
                }
                Ok(Value::agg(out))
            }
            _ => Err(self.abort(format!("unsize {f} to {t}"))),
        }
    }

    // ---------------------------------------------------------------- control flow

    /// Analyse the alternatives `conds` separately from the current state and join.
    pub fn fork(
        &mut self,
        conds: &[B],
        f: &mut dyn FnMut(&mut Self, usize) -> Res<Option<Value<'tcx>>>,
    ) -> Res<Option<Value<'tcx>>> {
        let pc0 = self.pc;
        let parent = self.fork_id;
        struct Done<'tcx> {
            c: B,
            pc: B,
            v: Value<'tcx>,
            t: HashMap<u32, Value<'tcx>>,
        }
        let mut done: Vec<Done<'tcx>> = vec![];
        let feas: Vec<usize> = (0..conds.len()).filter(|i| self.dom.bdd.and(pc0, conds[*i]) != F).collect();
        if feas.len() == 1 {
            self.pc = self.dom.bdd.and(pc0, conds[feas[0]]);
            return f(self, feas[0]);
        }
        for i in feas {
            self.pc = self.dom.bdd.and(pc0, conds[i]);
            self.fork_id = self.next_fork;
            self.next_fork += 1;
            self.logs.push(vec![]);
            let r = f(self, i);
            let log = self.logs.pop().unwrap();
            self.fork_id = parent;
            let r = match r {
                Ok(r) => r,
                Err(e) => return Err(e),
            };
            let mut t: HashMap<u32, Value<'tcx>> = HashMap::new();
            for (c, old) in log.into_iter().rev() {
                if c & HEAP != 0 {
                    let cur = std::mem::replace(&mut self.heap[(c & !HEAP) as usize], old);
                    t.entry(c).or_insert(cur);
                    self.hstamp[(c & !HEAP) as usize] = u32::MAX;
                } else if (c as usize) < self.stack.len() {
                    let cur = std::mem::replace(&mut self.stack[c as usize], old);
                    t.entry(c).or_insert(cur);
                    self.stamp[c as usize] = u32::MAX;
                }
            }
            if let Some(v) = r {
                done.push(Done { c: conds[i], pc: self.pc, v, t });
            }
        }
        self.joins += 1;
        if done.is_empty() {
            self.pc = pc0;
            return Ok(None);
        }
        let mut cells: Vec<u32> = done.iter().flat_map(|d| d.t.keys().copied()).collect();
        cells.sort();
        cells.dedup();
        let n = done.len();
        for c in cells {
            let old = self.cell(c)?.clone();
            let pick = |d: &Done<'tcx>| d.t.get(&c).cloned().unwrap_or_else(|| old.clone());
            let mut acc = pick(&done[n - 1]);
            for d in done[..n - 1].iter().rev() {
                let v = pick(d);
                acc = self.dom.ite(d.c, &v, &acc);
            }
            *self.cell_mut(c)? = acc;
        }
        let mut acc = done[n - 1].v.clone();
        let mut pc = done[n - 1].pc;
        for d in done[..n - 1].iter().rev() {
            acc = self.dom.ite(d.c, &d.v, &acc);
            pc = self.dom.bdd.or(pc, d.pc);
        }
        self.pc = pc;
        if self.dom.bdd.overflowed {
            return Err(self.abort("abstract state too large"));
        }
        Ok(Some(acc))
    }

    pub fn panic_at(&mut self, g: B, kind: &str, msg: &str) {
        if let Some(f) = self.frames.last() {
            let id = f.func.id;
            self.panic_sites.insert((id, f.span.lo().0 as usize));
        }
        if g == F {
            return;
        }
        if let Some(c) = self.catch.last().copied() {
            let n = self.dom.bdd.or(c, g);
            *self.catch.last_mut().unwrap() = n;
            return;
        }
        self.fail(g, kind, msg);
    }

    /// Short rendering of a value for reports.
    pub fn show(&self, v: &Value<'tcx>) -> String {
        match v {
            Value::Int(_, x) => x.to_string(),
            Value::Agg(f) => format!("({})", f.iter().map(|v| self.show(v)).collect::<Vec<_>>().join(",")),
            Value::Enum1(k, f) if f.is_empty() => format!("#{k}"),
            Value::Enum1(k, f) => format!("#{k}({})", f.iter().map(|v| self.show(v)).collect::<Vec<_>>().join(",")),
            v => v.kind().to_string(),
        }
    }

    pub fn fail(&mut self, g: B, kind: &str, msg: &str) {
        let unk = &self.unknown;
        let undecided = if unk.is_empty() {
            false
        } else {
            let u = unk.clone();
            self.dom.bdd.forall(g, &|v| u.contains(&v)) == F
        };
        let w = self.dom.bdd.witness(g).unwrap_or_default();
        let vals: HashMap<u32, bool> = w.into_iter().collect();
        let mut witness = vec![];
        for l in &self.leaves {
            if !l.bits.iter().any(|b| vals.contains_key(b)) {
                continue;
            }
            let mut x = 0u128;
            for (i, b) in l.bits.iter().enumerate() {
                if *vals.get(b).unwrap_or(&false) {
                    x |= 1 << i;
                }
            }
            witness.push((l.name.clone(), format!("{x:#x}")));
        }
        for (k, v) in &self.notes {
            witness.push((k.clone(), v.clone()));
        }
        let mut stack = vec![];
        let mut at = String::new();
        let mut func = String::new();
        for f in self.frames.iter().rev() {
            let p = self.path(f.func.inst.def_id());
            let l = self.loc_str(f.span);
            if f.func.is_repo && at.is_empty() {
                at = l.clone();
                func = p.clone();
            }
            stack.push(format!("{p} at {l}"));
        }
        if at.is_empty() {
            if let Some((f, l)) = &self.last_repo_call {
                func = f.clone();
                at = l.clone();
            }
        }
        if self.failures.len() < 200 {
            self.failures.push(Failure {
                kind: kind.to_string(),
                msg: msg.to_string(),
                at,
                func,
                stack,
                witness,
                undecided,
            });
        }
    }

    pub fn run(&mut self, f: &Rc<Func<'tcx>>, base: usize, mut bb: usize, stop: usize) -> Res<bool> {
        loop {
            if bb == stop {
                return Ok(true);
            }
            let blk = &f.blocks[bb];
            self.steps += blk.stmts.len() as u64 + 1;
            if self.steps > self.max_steps {
                return Err(self.abort("analysis step limit"));
            }
            for (s, sp) in &blk.stmts {
                if let Some(fr) = self.frames.last_mut() {
                    fr.span = *sp;
                }
                match s {
                    St::Assign(p, r) => {
                        let v = self.rvalue(base, r)?;
                        self.write_place(base, p, v)?;
                    }
                    St::SetDiscr(p, v) => {
                        let old = self.read_place(base, p)?;
                        let n = match old {
                            Value::Enum1(k, f) if k == *v => Value::Enum1(k, f),
                            _ => Value::Enum1(*v, empty()),
                        };
                        self.write_place(base, p, n)?;
                    }
                    St::CopyNonOverlapping(a, b, n) => {
                        let a = self.operand(base, a)?;
                        let b = self.operand(base, b)?;
                        let n = self.operand(base, n)?;
                        self.copy_elems(&a, &b, &n)?;
                    }
                    St::Assume(_) => {}
                    St::Dead(_) => {}
                }
            }
            if let Some(fr) = self.frames.last_mut() {
                fr.span = blk.span;
            }
            match &blk.term {
                Te::Goto(t) => bb = *t,
                Te::Return => {
                    if stop != EXIT {
                        return Err(self.abort("return inside a region"));
                    }
                    return Ok(true);
                }
                Te::Unreachable => {
                    let g = self.pc;
                    self.panic_at(g, "unreachable", "code assumed unreachable is reachable");
                    return Ok(false);
                }
                Te::Diverge => return Ok(false),
                Te::Bad(m) => return Err(self.abort(format!("unsupported terminator {m}"))),
                Te::Switch(o, w, ts, other) => {
                    let v = self.operand(base, o)?;
                    if let Value::Int(_, x) = v {
                        bb = ts.iter().find(|t| t.0 == x).map(|t| t.1).unwrap_or(*other);
                        continue;
                    }
                    let bits = match &v {
                        Value::Ref(_) => return Err(self.abort("switch on pointer")),
                        _ => self.int_bits(&v, *w)?,
                    };
                    // group conditions by target block
                    let mut by: Vec<(usize, B)> = vec![];
                    let mut rest = T;
                    for (x, t) in ts {
                        let c = self.dom.eq_const(&bits, *x);
                        let nc = self.dom.bdd.not(c);
                        rest = self.dom.bdd.and(rest, nc);
                        if let Some(e) = by.iter_mut().find(|e| e.0 == *t) {
                            e.1 = self.dom.bdd.or(e.1, c);
                        } else {
                            by.push((*t, c));
                        }
                    }
                    if let Some(e) = by.iter_mut().find(|e| e.0 == *other) {
                        e.1 = self.dom.bdd.or(e.1, rest);
                    } else {
                        by.push((*other, rest));
                    }
                    let pc = self.pc;
                    by.retain(|e| self.dom.bdd.and(pc, e.1) != F);
                    if by.is_empty() {
                        return Ok(false);
                    }
                    if by.len() == 1 {
                        self.pc = self.dom.bdd.and(pc, by[0].1);
                        bb = by[0].0;
                        continue;
                    }
                    let join = f.ipdom[bb];
                    let conds: Vec<B> = by.iter().map(|e| e.1).collect();
                    let ff = f.clone();
                    self.depth_check()?;
                    let r = self.fork(&conds, &mut |s, i| {
                        Ok(if s.run(&ff, base, by[i].0, join)? { Some(Value::unit()) } else { None })
                    })?;
                    if r.is_none() {
                        return Ok(false);
                    }
                    if let Some(fr) = self.frames.last_mut() {
                        fr.span = blk.span;
                    }
                    if join == EXIT {
                        if stop != EXIT {
                            return Err(self.abort("join at exit inside a region"));
                        }
                        return Ok(true);
                    }
                    bb = join;
                }
                Te::Assert(o, exp, msg, t) => {
                    let v = self.operand(base, o)?;
                    let c = self.bool_b(&v)?;
                    let ok = if *exp { c } else { self.dom.bdd.not(c) };
                    let nok = self.dom.bdd.not(ok);
                    let bad = self.dom.bdd.and(self.pc, nok);
                    self.obligations += 1;
                    self.panic_at(bad, "panic", msg);
                    self.pc = self.dom.bdd.and(self.pc, ok);
                    if self.pc == F {
                        return Ok(false);
                    }
                    bb = *t;
                }
                Te::Drop { place, ty, target } => {
                    let r = self.rvalue(base, &Rv::Ref(place.clone()))?;
                    if !self.drop_value(*ty, r)? {
                        return Ok(false);
                    }
                    if let Some(fr) = self.frames.last_mut() {
                        fr.span = blk.span;
                    }
                    bb = *target;
                }
                Te::Call { callee, args, dest, target, untuple } => {
                    let mut av = Vec::with_capacity(args.len());
                    for a in args {
                        av.push(self.operand(base, a)?);
                    }
                    let r = match callee {
                        Callee::Inst(i) => self.call(*i, av, *untuple)?,
                        Callee::Ptr(o) => {
                            let p = self.operand(base, o)?;
                            self.call_ptr(&p, av)?
                        }
                        Callee::Bad(m) => return Err(self.abort(m.clone())),
                    };
                    if let Some(fr) = self.frames.last_mut() {
                        fr.span = blk.span;
                    }
                    match (r, target) {
                        (Some(v), Some(t)) => {
                            self.write_place(base, dest, v)?;
                            bb = *t;
                        }
                        _ => return Ok(false),
                    }
                }
            }
        }
    }

    /// Run the destructor of the value behind `r`; false if it never returns.
    pub fn drop_value(&mut self, t: Ty<'tcx>, r: Value<'tcx>) -> Res<bool> {
        match self.drop_effect(t) {
            crate::lower::DropEffect::None => return Ok(true),
            crate::lower::DropEffect::Unknown => return Err(self.abort(format!("drop of {t}"))),
            crate::lower::DropEffect::Runs => {}
        }
        if let ty::Adt(def, args) = t.kind() {
            if def.is_box() {
                let inner = self.load_ref(&r)?;
                return self.drop_value(args.type_at(0), crate::models::box_ptr(&inner));
            }
        }
        if crate::lower::adt_is(self.tcx, t, "alloc::vec::Vec") {
            let ty::Adt(_, args) = t.kind() else { unreachable!() };
            let n = self.seq_len(&r)?;
            let Value::Ref(x) = &r else { return Err(self.abort("vector reference")) };
            let s = Value::refv(x.cell, x.proj.clone(), Meta::Slice(Value::usize(0), Value::usize(n)));
            return self.drop_value(Ty::new_slice(self.tcx, args.type_at(0)), s);
        }
        if let ty::Dynamic(..) = t.kind() {
            return match dyn_of(&r) {
                Some((t, thin)) => self.drop_value(t, thin),
                None => Err(self.abort("drop of an undetermined dynamic value")),
            };
        }
        let i = Instance::resolve_drop_glue(self.tcx, t);
        Ok(self.call(i, vec![r], false)?.is_some())
    }

    fn depth_check(&self) -> Res<()> {
        if self.logs.len() > 3000 {
            return Err(self.abort("nesting of undetermined branches too deep (unbounded loop?)"));
        }
        Ok(())
    }

    pub fn copy_elems(&mut self, src: &Value<'tcx>, dst: &Value<'tcx>, n: &Value<'tcx>) -> Res<()> {
        let Some(n) = n.as_const() else { return Err(self.abort("copy of unknown length")) };
        let mut vals = vec![];
        for i in 0..n {
            let p = if i == 0 { src.clone() } else { self.ptr_offset(src, &Value::usize(i as u64))? };
            vals.push(self.load_ref(&p)?);
        }
        for (i, v) in vals.into_iter().enumerate() {
            let p = if i == 0 { dst.clone() } else { self.ptr_offset(dst, &Value::usize(i as u64))? };
            self.store_ref(&p, v)?;
        }
        Ok(())
    }

    pub fn call_ptr(&mut self, p: &Value<'tcx>, args: Vec<Value<'tcx>>) -> Res<Option<Value<'tcx>>> {
        match p {
            Value::Fn(i) => {
                // a closure coerced to a function pointer takes its (empty) environment first
                let i = *i;
                if self.tcx.is_closure_like(i.def_id()) || matches!(i.def, InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. })) {
                    let mut a = vec![Value::unit()];
                    a.push(Value::agg(args));
                    return self.call(i, a, true);
                }
                self.call(i, args, false)
            }
            Value::Choice(l) => {
                let l = l.clone();
                let conds: Vec<B> = l.iter().map(|x| x.0).collect();
                self.fork(&conds, &mut |s, k| s.call_ptr(&l[k].1, args.clone()))
            }
            v => Err(self.abort(format!("call through {}", v.kind()))),
        }
    }

    pub fn dispatch(&mut self, inst: Instance<'tcx>) -> Disp<'tcx> {
        if let Some(d) = self.disp.get(&inst) {
            return d.clone();
        }
        let d = self.dispatch_(inst);
        self.disp.insert(inst, d.clone());
        d
    }

    fn dispatch_(&mut self, inst: Instance<'tcx>) -> Disp<'tcx> {
        let tcx = self.tcx;
        if let InstanceKind::Virtual(d, _) = inst.def {
            return Disp::Virtual(d);
        }
        if let InstanceKind::Shim(ty::ShimKind::DropGlue(_, t)) = inst.def {
            return match t {
                Some(t) if self.drop_effect(t) != crate::lower::DropEffect::None => Disp::Mir(inst),
                _ => Disp::Model(|_, _, _| Ok(Some(Value::unit()))),
            };
        }
        let did = inst.def_id();
        if let rustc_hir::def::DefKind::Ctor(..) = tcx.def_kind(did) {
            return Disp::Model(crate::models::ctor);
        }
        if matches!(inst.def, InstanceKind::Item(_) | InstanceKind::Intrinsic(_) | InstanceKind::Shim(ty::ShimKind::Reify(..))) {
            let k = crate::models::fn_key(tcx, did);
            if let Some(m) = crate::models::lookup(self, &k, inst) {
                return m;
            }
            if let InstanceKind::Intrinsic(_) = inst.def {
                return Disp::Intrinsic(tcx.item_name(did).to_string());
            }
        }
        if let InstanceKind::Item(d) = inst.def {
            if !tcx.is_closure_like(d) {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                if sig.skip_binder().output().is_never() {
                    return Disp::Never(self.path(d));
                }
            }
        }
        Disp::Mir(inst)
    }

    pub fn call(&mut self, inst: Instance<'tcx>, args: Vec<Value<'tcx>>, untuple: bool) -> Res<Option<Value<'tcx>>> {
        self.calls += 1;
        if self.dom.bdd.overflowed {
            return Err(self.abort("abstract state too large"));
        }
        match self.dispatch(inst) {
            Disp::Mir(i) => self.call_mir(i, args, untuple),
            Disp::Never(n) => {
                self.obligations += 1;
                let msg = self.panic_msg(&args);
                let g = self.pc;
                self.panic_at(g, "panic", &format!("{n}{msg}"));
                Ok(None)
            }
            Disp::Virtual(d) => {
                if let Some(Value::Choice(l)) = args.first() {
                    let l = l.clone();
                    let conds: Vec<B> = l.iter().map(|x| x.0).collect();
                    return self.fork(&conds, &mut |s, k| {
                        let mut a = args.clone();
                        a[0] = l[k].1.clone();
                        s.call(inst, a, untuple)
                    });
                }
                self.call_virtual(inst, d, args, untuple)
            }
            Disp::Intrinsic(n) => {
                if let Some(r) = self.split_choice(inst, &args, untuple)? {
                    return Ok(r);
                }
                crate::models::intrinsic(self, &n, inst, args)
            }
            Disp::Model(m) => {
                if let Some(r) = self.split_choice(inst, &args, untuple)? {
                    return Ok(r);
                }
                self.split_wanted = false;
                let kept = args.iter().any(|a| unknown_integer(a).is_some()).then(|| args.clone());
                let before = (self.pc, self.frames.len(), self.logs.len(), self.catch.len(), self.failures.len());
                let (heap, stack) = (self.heap.len() as u32, self.stack.len());
                let outer = std::mem::replace(&mut self.touched, (u32::MAX, usize::MAX));
                let r = m(self, inst, args);
                let (h, k) = self.touched;
                self.touched = (h.min(outer.0), k.min(outer.1));
                if let (Err(_), true, Some(kept)) = (&r, std::mem::take(&mut self.split_wanted), kept) {
                    // only an operation that has not begun can be repeated
                    let now = (self.pc, self.frames.len(), self.logs.len(), self.catch.len(), self.failures.len());
                    if now == before && self.stack.len() == stack && h >= heap && k >= stack {
                        if let Some(r) = self.split_integer(inst, &kept, untuple)? {
                            return Ok(r);
                        }
                    }
                }
                r
            }
        }
    }

    /// The abort of an operation that needs a known integer; the call is then repeated for
    /// each value the integer can have.
    pub fn unknown(&mut self, m: impl Into<String>) -> Abort {
        self.split_wanted = true;
        self.abort(m)
    }

    fn split_integer(
        &mut self,
        inst: Instance<'tcx>,
        args: &[Value<'tcx>],
        untuple: bool,
    ) -> Res<Option<Option<Value<'tcx>>>> {
        fn put<'t>(v: &mut Value<'t>, with: &Value<'t>) -> bool {
            match v {
                Value::Sym(_) => {
                    *v = with.clone();
                    true
                }
                Value::Agg(f) if f.iter().any(|x| unknown_integer(x).is_some()) => {
                    Rc::make_mut(f).iter_mut().any(|x| put(x, with))
                }
                Value::Ref(r) => match &mut Rc::make_mut(r).meta {
                    Meta::Slice(s, n) => put(s, with) || put(n, with),
                    _ => false,
                },
                _ => false,
            }
        }
        for (i, a) in args.iter().enumerate() {
            let Some(bits) = unknown_integer(a) else { continue };
            let mut leaves = vec![(T, 0u128)];
            for (k, b) in bits.iter().enumerate().rev() {
                let mut next = vec![];
                for (g, v) in leaves {
                    for one in [false, true] {
                        let c = if one { *b } else { self.dom.bdd.not(*b) };
                        let g = self.dom.bdd.and(g, c);
                        let pc = self.pc;
                        if self.dom.bdd.and(g, pc) != F {
                            next.push((g, v | (one as u128) << k));
                        }
                    }
                }
                leaves = next;
                if leaves.len() > 64 {
                    return Ok(None);
                }
            }
            let conds: Vec<B> = leaves.iter().map(|x| x.0).collect();
            let width = bits.len() as u16;
            let r = self.fork(&conds, &mut |s, k| {
                let mut a = args.to_vec();
                put(&mut a[i], &Value::Int(width, leaves[k].1));
                s.call(inst, a, untuple)
            })?;
            return Ok(Some(r));
        }
        Ok(None)
    }

    fn split_choice(
        &mut self,
        inst: Instance<'tcx>,
        args: &[Value<'tcx>],
        untuple: bool,
    ) -> Res<Option<Option<Value<'tcx>>>> {
        for (i, a) in args.iter().enumerate() {
            if let Value::Choice(l) = a {
                let l = l.clone();
                let conds: Vec<B> = l.iter().map(|x| x.0).collect();
                let r = self.fork(&conds, &mut |s, k| {
                    let mut a = args.to_vec();
                    a[i] = l[k].1.clone();
                    s.call(inst, a, untuple)
                })?;
                return Ok(Some(r));
            }
        }
        Ok(None)
    }

    fn panic_msg(&mut self, args: &[Value<'tcx>]) -> String {
        for a in args {
            if let Some(s) = self.str_of(a) {
                return format!(": {s}");
            }
        }
        String::new()
    }

    /// The text of a constant `&str`.
    pub fn str_of(&mut self, v: &Value<'tcx>) -> Option<String> {
        let Value::Ref(r) = v else { return None };
        let Meta::Slice(s, n) = &r.meta else { return None };
        let (s, n) = (s.as_const()? as u64, n.as_const()? as u64);
        let mut out = vec![];
        for i in s..s + n {
            let mut p = r.proj.clone();
            p.push(Proj::Elem(i));
            match self.get(r.cell, &p).ok()? {
                Value::Int(8, b) => out.push(b as u8),
                _ => return None,
            }
        }
        String::from_utf8(out).ok()
    }

    fn call_virtual(
        &mut self,
        inst: Instance<'tcx>,
        d: DefId,
        mut args: Vec<Value<'tcx>>,
        untuple: bool,
    ) -> Res<Option<Value<'tcx>>> {
        let tcx = self.tcx;
        // find the receiver reference with dynamic metadata
        let (ty, thin) = match dyn_of(&args[0]) {
            Some(x) => x,
            None => return Err(self.abort(format!("virtual call on {:?}", args[0].kind()))),
        };
        args[0] = thin;
        let tr = tcx.parent(d);
        let ntr = tcx.generics_of(tr).count();
        let mut ga: Vec<ty::GenericArg<'tcx>> = inst.args.iter().collect();
        ga[0] = ty.into();
        let _ = ntr;
        let args_ref = tcx.mk_args(&ga);
        match Instance::try_resolve(tcx, env(), d, args_ref) {
            Ok(Some(i)) => self.call(i, args, untuple),
            _ => Err(self.abort(format!("cannot resolve {} for {}", self.path(d), ty))),
        }
    }

    pub fn call_mir(
        &mut self,
        inst: Instance<'tcx>,
        mut args: Vec<Value<'tcx>>,
        untuple: bool,
    ) -> Res<Option<Value<'tcx>>> {
        let f = self.func(inst)?;
        if self.frames.len() > 600 {
            return Err(self.abort("call depth limit"));
        }
        if untuple && f.spread.is_none() {
            if let Some(t) = args.pop() {
                match t {
                    Value::Agg(fs) => args.extend(fs.iter().cloned()),
                    v => return Err(self.abort(format!("untupling {}", v.kind()))),
                }
            }
        }
        if args.len() != f.nargs {
            return Err(self.abort(format!(
                "call of {} with {} arguments, {} expected",
                self.path(inst.def_id()),
                args.len(),
                f.nargs
            )));
        }
        self.visited.insert(f.id);
        if f.is_repo {
            let from_spec = self.frames.last().map(|x| !x.func.is_repo).unwrap_or(true);
            if from_spec && self.frames.iter().all(|x| !x.func.is_repo) {
                let did = inst.def_id();
                let sp = self.tcx.def_span(did);
                self.last_repo_call = Some((self.path(did), self.loc_str(sp)));
            }
        }
        let base = self.stack.len();
        let fid = self.fork_id;
        self.stack.resize(base + f.nlocals, Value::Uninit);
        self.stamp.resize(base + f.nlocals, fid);
        for (i, a) in args.into_iter().enumerate() {
            self.stack[base + 1 + i] = a;
        }
        let span = f.blocks[0].span;
        self.frames.push(Frame { func: f.clone(), base, span });
        if self.trace {
            eprintln!("{}-> {} {:?}", " ".repeat(self.frames.len()), inst, (0..f.nargs).map(|i| self.stack[base + 1 + i].kind()).collect::<Vec<_>>());
        }
        let ok = self.run(&f, base, 0, EXIT)?;
        if self.trace {
            eprintln!("{}<- {} {:?}", " ".repeat(self.frames.len()), inst, self.stack[base].kind());
        }
        self.frames.pop();
        let r = std::mem::replace(&mut self.stack[base], Value::Uninit);
        self.stack.truncate(base);
        self.stamp.truncate(base);
        Ok(if ok { Some(r) } else { None })
    }

    /// Structural equality as a boolean function; None if the values cannot be compared.
    pub fn sym_eq(&mut self, a: &Value<'tcx>, b: &Value<'tcx>) -> Res<B> {
        if let (Value::Int(_, x), Value::Int(_, y)) = (a, b) {
            return Ok((x == y) as B);
        }
        match (a, b) {
            (Value::Choice(l), _) => {
                let l = l.clone();
                let mut r = F;
                for (g, v) in l.iter() {
                    let gg = self.dom.bdd.and(*g, self.pc);
                    if gg == F {
                        continue;
                    }
                    let e = self.sym_eq(v, b)?;
                    let e = self.dom.bdd.and(*g, e);
                    r = self.dom.bdd.or(r, e);
                }
                Ok(r)
            }
            (_, Value::Choice(_)) => self.sym_eq(b, a),
            (Value::Top(r), _) | (_, Value::Top(r)) => {
                let r = r.clone();
                let u = self.fresh_unknown(1, &r);
                self.bool_b(&u)
            }
            (Value::Int(..) | Value::Sym(..), Value::Int(..) | Value::Sym(..)) => {
                let x = self.dom.bits(a).unwrap();
                let y = self.dom.bits(b).unwrap();
                Ok(self.dom.eq_bits(&x, &y))
            }
            (Value::Agg(x) | Value::Seq(x), Value::Agg(y) | Value::Seq(y)) => {
                if x.len() != y.len() {
                    return Ok(F);
                }
                if Rc::ptr_eq(x, y) {
                    return Ok(T);
                }
                let mut r = T;
                for (p, q) in x.iter().zip(y.iter()) {
                    let e = self.sym_eq(p, q)?;
                    r = self.dom.bdd.and(r, e);
                    if r == F {
                        return Ok(F);
                    }
                }
                Ok(r)
            }
            (Value::Enum1(..) | Value::EnumN(..), Value::Enum1(..) | Value::EnumN(..)) => {
                if let (Value::Enum1(v, f), Value::Enum1(u, g)) = (a, b) {
                    if v != u {
                        return Ok(F);
                    }
                    if f.is_empty() {
                        return Ok(T);
                    }
                    let _ = g;
                }
                let x = alts(a);
                let y = alts(b);
                let mut r = F;
                for p in &x {
                    if let Some(q) = y.iter().find(|q| q.var == p.var) {
                        let mut g = self.dom.bdd.and(p.g, q.g);
                        for (s, t) in p.f.iter().zip(q.f.iter()) {
                            if g == F {
                                break;
                            }
                            let e = self.sym_eq(s, t)?;
                            g = self.dom.bdd.and(g, e);
                        }
                        r = self.dom.bdd.or(r, g);
                    }
                }
                Ok(r)
            }
            // `&[T] == [T; N]`: one side is a reference more than the other
            (Value::Ref(x), Value::Agg(_) | Value::Seq(_)) => {
                let v = if let Meta::Slice(..) = x.meta { Value::agg(self.seq_of_slice(a)?) } else { self.load_ref(a)? };
                self.sym_eq(&v, b)
            }
            (Value::Agg(_) | Value::Seq(_), Value::Ref(_)) => self.sym_eq(b, a),
            (Value::Ref(x), Value::Ref(y)) => {
                if x.cell == y.cell && x.proj == y.proj && same_meta(&x.meta, &y.meta) {
                    return Ok(T);
                }
                if let (Meta::Slice(s1, n1), Meta::Slice(s2, n2)) = (&x.meta, &y.meta) {
                    let (Some(s1), Some(n1), Some(s2), Some(n2)) =
                        (s1.as_const(), n1.as_const(), s2.as_const(), n2.as_const())
                    else {
                        return Err(self.unknown("comparison of slices of unknown extent"));
                    };
                    if n1 != n2 {
                        return Ok(F);
                    }
                    let mut r = T;
                    for i in 0..n1 as u64 {
                        let mut p = x.proj.clone();
                        p.push(Proj::Elem(s1 as u64 + i));
                        let u = self.get(x.cell, &p)?;
                        let mut p = y.proj.clone();
                        p.push(Proj::Elem(s2 as u64 + i));
                        let v = self.get(y.cell, &p)?;
                        let e = self.sym_eq(&u, &v)?;
                        r = self.dom.bdd.and(r, e);
                        if r == F {
                            break;
                        }
                    }
                    return Ok(r);
                }
                let u = self.load_ref(a)?;
                let v = self.load_ref(b)?;
                self.sym_eq(&u, &v)
            }
            (Value::Map(x), Value::Map(y)) => {
                if x.entries.len() != y.entries.len() {
                    return Ok(F);
                }
                let (x, y) = (x.clone(), y.clone());
                let mut r = T;
                for (k, v) in &x.entries {
                    let mut found = F;
                    for (k2, v2) in &y.entries {
                        let e = self.sym_eq(k, k2)?;
                        if e == F {
                            continue;
                        }
                        let f = self.sym_eq(v, v2)?;
                        let ef = self.dom.bdd.and(e, f);
                        found = self.dom.bdd.or(found, ef);
                    }
                    r = self.dom.bdd.and(r, found);
                }
                Ok(r)
            }
            (Value::Term(x), Value::Term(y)) => {
                // equal terms denote equal values; different terms are not known to differ
                let (x, y) = (x.clone(), y.clone());
                if x.0 == y.0 && x.1.len() == y.1.len() {
                    let mut r = T;
                    for (p, q) in x.1.iter().zip(y.1.iter()) {
                        let e = self.sym_eq(p, q)?;
                        r = self.dom.bdd.and(r, e);
                    }
                    Ok(r)
                } else {
                    Ok(F)
                }
            }
            (Value::Fn(x), Value::Fn(y)) => Ok((x == y) as B),
            (Value::Uninit, Value::Uninit) => Ok(T),
            _ => Err(self.abort(format!("cannot compare {} with {}", a.kind(), b.kind()))),
        }
    }

    /// Canonical key of a constant value (references are compared by content).
    pub fn const_key(&mut self, v: &Value<'tcx>, out: &mut Vec<u64>) -> bool {
        match v {
            Value::Int(w, x) => {
                out.push(1 | ((*w as u64) << 8));
                out.push(*x as u64);
                if *w > 64 {
                    out.push((*x >> 64) as u64);
                }
                true
            }
            Value::Agg(f) | Value::Seq(f) => {
                out.push(2 | ((f.len() as u64) << 8));
                let f = f.clone();
                f.iter().all(|x| self.const_key(x, out))
            }
            Value::Enum1(n, f) => {
                out.push(3 | ((*n as u64) << 8));
                let f = f.clone();
                f.iter().all(|x| self.const_key(x, out))
            }
            Value::Ref(r) => {
                if let Meta::Slice(s, n) = &r.meta {
                    let (Some(s), Some(n)) = (s.as_const(), n.as_const()) else { return false };
                    out.push(2 | ((n as u64) << 8));
                    for i in s..s + n {
                        let mut p = r.proj.clone();
                        p.push(Proj::Elem(i as u64));
                        let Ok(v) = self.get(r.cell, &p) else { return false };
                        if !self.const_key(&v, out) {
                            return false;
                        }
                    }
                    true
                } else {
                    match self.load_ref(v) {
                        Ok(x) => self.const_key(&x, out),
                        Err(_) => false,
                    }
                }
            }
            _ => false,
        }
    }
}

pub fn dyn_of<'tcx>(v: &Value<'tcx>) -> Option<(Ty<'tcx>, Value<'tcx>)> {
    match v {
        Value::Ref(r) => match r.meta {
            Meta::Dyn(t) => Some((t, Value::refv(r.cell, r.proj.clone(), Meta::None))),
            _ => None,
        },
        Value::Agg(f) => {
            // Box<dyn ..>, Pin<..>: the first field that is a dynamic reference
            for (i, x) in f.iter().enumerate() {
                if let Some((t, thin)) = dyn_of(x) {
                    let mut n = (**f).clone();
                    n[i] = thin;
                    return Some((t, Value::agg(n)));
                }
            }
            None
        }
        _ => None,
    }
}

pub fn pointee<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> Option<Ty<'tcx>> {
    match peel(tcx, t).kind() {
        ty::Ref(_, p, _) | ty::RawPtr(p, _) => Some(*p),
        _ => None,
    }
}

/// Strip transparent wrappers.
pub fn peel<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> Ty<'tcx> {
    let mut t = t;
    loop {
        match t.kind() {
            ty::Pat(b, _) => t = *b,
            ty::Adt(d, args) => match transparent(tcx, t) {
                Some(i) => {
                    let f = &d.non_enum_variant().fields[rustc_abi::FieldIdx::from_usize(i)];
                    t = field_ty(tcx, f, args);
                }
                None => return t,
            },
            _ => return t,
        }
    }
}

pub fn get_ref<'a, 'tcx>(v: &'a Value<'tcx>, proj: &[Proj]) -> Option<&'a Value<'tcx>> {
    let mut v = v;
    for p in proj {
        v = match (p, v) {
            (Proj::Field(i), Value::Agg(f)) => f.get(*i as usize)?,
            (Proj::VField(n, i), Value::Enum1(m, f)) if n == m => f.get(*i as usize)?,
            (Proj::VField(n, i), Value::EnumN(a)) => a.iter().find(|a| a.var == *n)?.f.get(*i as usize)?,
            (Proj::Elem(i), Value::Agg(f) | Value::Seq(f)) => f.get(*i as usize)?,
            (Proj::Elem(i), Value::Map(m)) => &m.entries.get(*i as usize)?.1,
            _ => return None,
        };
    }
    Some(v)
}

fn get_under<'tcx>(dom: &mut Dom, v: &Value<'tcx>, proj: &[Proj], pc: B) -> Result<Value<'tcx>, String> {
    if proj.is_empty() {
        return Ok(v.clone());
    }
    let Value::Choice(l) = v else {
        let r = get_slow(dom, v, &proj[..1])?;
        return get_under(dom, &r, &proj[1..], pc);
    };
    let (mut left, mut found) = (pc, vec![]);
    for (k, (g, x)) in l.iter().enumerate() {
        // alternatives are taken in order, the last one when no other is
        let here = if k + 1 == l.len() { left } else { dom.bdd.and(left, *g) };
        if here != F {
            found.push((*g, get_under(dom, x, proj, here)?));
        }
        let not = dom.bdd.not(*g);
        left = dom.bdd.and(left, not);
    }
    let mut acc = found.pop().ok_or("empty choice")?.1;
    for (g, x) in found.iter().rev() {
        acc = dom.ite(*g, x, &acc);
    }
    Ok(acc)
}

pub fn get_slow<'tcx>(dom: &mut Dom, v: &Value<'tcx>, proj: &[Proj]) -> Result<Value<'tcx>, String> {
    if proj.is_empty() {
        return Ok(v.clone());
    }
    let rest = &proj[1..];
    match (v, &proj[0]) {
        (Value::Choice(l), _) => {
            let mut acc: Option<Value<'tcx>> = None;
            for (g, x) in l.iter().rev() {
                let r = get_slow(dom, x, proj)?;
                acc = Some(match acc {
                    None => r,
                    Some(a) => dom.ite(*g, &r, &a),
                });
            }
            acc.ok_or_else(|| "empty choice".to_string())
        }
        (Value::Agg(f) | Value::Seq(f), Proj::ElemSym(b)) => {
            let f = f.clone();
            select(dom, f.len(), b, &mut |dom, i| get_slow(dom, &f[i], rest))
        }
        (Value::Map(m), Proj::ElemSym(b)) => {
            let m = m.clone();
            select(dom, m.entries.len(), b, &mut |dom, i| get_slow(dom, &m.entries[i].1, rest))
        }
        (Value::Uninit, _) => Ok(Value::Uninit),
        (Value::Top(_), _) => Ok(v.clone()),
        (Value::Agg(f), Proj::Field(i)) => match f.get(*i as usize) {
            Some(x) => get_slow(dom, x, rest),
            None => Ok(Value::Uninit),
        },
        (Value::Enum1(n, f), Proj::VField(m, i)) => {
            if n != m {
                return Ok(Value::Uninit);
            }
            match f.get(*i as usize) {
                Some(x) => get_slow(dom, x, rest),
                None => Ok(Value::Uninit),
            }
        }
        (Value::EnumN(a), Proj::VField(m, i)) => match a.iter().find(|a| a.var == *m).and_then(|a| a.f.get(*i as usize)) {
            Some(x) => get_slow(dom, x, rest),
            None => Ok(Value::Uninit),
        },
        (Value::Agg(f) | Value::Seq(f), Proj::Elem(i)) => match f.get(*i as usize) {
            Some(x) => get_slow(dom, x, rest),
            None => Err(format!("element {i} of a sequence of {}", f.len())),
        },
        (Value::Map(m), Proj::Elem(i)) => match m.entries.get(*i as usize) {
            Some(x) => get_slow(dom, &x.1, rest),
            None => Err("map entry".into()),
        },
        (v, Proj::Elem(0)) if !matches!(v, Value::Ref(_)) => get_slow(dom, v, rest),
        (v, p) => Err(format!("projection {p:?} of {}", v.kind())),
    }
}

fn select<'tcx>(
    dom: &mut Dom,
    n: usize,
    b: &[B],
    f: &mut dyn FnMut(&mut Dom, usize) -> Result<Value<'tcx>, String>,
) -> Result<Value<'tcx>, String> {
    fn go<'tcx>(
        dom: &mut Dom,
        n: usize,
        b: &[B],
        k: usize,
        lo: usize,
        f: &mut dyn FnMut(&mut Dom, usize) -> Result<Value<'tcx>, String>,
    ) -> Result<Value<'tcx>, String> {
        if lo >= n {
            return Ok(Value::Uninit);
        }
        if k == 0 {
            return f(dom, lo);
        }
        let c = b[k - 1];
        if c == F {
            return go(dom, n, b, k - 1, lo, f);
        }
        let hi = lo + (1 << (k - 1));
        if c == T {
            return go(dom, n, b, k - 1, hi, f);
        }
        let x = go(dom, n, b, k - 1, hi, f)?;
        let y = go(dom, n, b, k - 1, lo, f)?;
        Ok(dom.ite(c, &x, &y))
    }
    if n == 0 {
        return Ok(Value::Uninit);
    }
    let mut k = 0;
    while (1usize << k) < n {
        k += 1;
    }
    go(dom, n, b, k.min(b.len()), 0, f)
}

pub fn set_val<'tcx>(dom: &mut Dom, v: &mut Value<'tcx>, proj: &[Proj], new: Value<'tcx>) -> Result<(), String> {
    if proj.is_empty() {
        *v = new;
        return Ok(());
    }
    let rest = &proj[1..];
    if let Value::Choice(l) = v {
        let l = Rc::make_mut(l);
        for (_, x) in l.iter_mut() {
            set_val(dom, x, proj, new.clone())?;
        }
        return Ok(());
    }
    match &proj[0] {
        Proj::Field(i) => {
            let i = *i as usize;
            if let Value::Uninit = v {
                *v = Value::agg(vec![]);
            }
            match v {
                Value::Agg(f) => {
                    let f = Rc::make_mut(f);
                    while f.len() <= i {
                        f.push(Value::Uninit);
                    }
                    set_val(dom, &mut f[i], rest, new)
                }
                Value::Top(_) => Ok(()),
                v => Err(format!("store to field of {}", v.kind())),
            }
        }
        Proj::VField(n, i) => {
            let i = *i as usize;
            match v {
                Value::Enum1(m, f) if m == n => {
                    let f = Rc::make_mut(f);
                    while f.len() <= i {
                        f.push(Value::Uninit);
                    }
                    set_val(dom, &mut f[i], rest, new)
                }
                Value::EnumN(a) => {
                    let a = Rc::make_mut(a);
                    match a.iter_mut().find(|a| a.var == *n) {
                        Some(x) => {
                            let f = Rc::make_mut(&mut x.f);
                            while f.len() <= i {
                                f.push(Value::Uninit);
                            }
                            set_val(dom, &mut f[i], rest, new)
                        }
                        None => Ok(()),
                    }
                }
                Value::Uninit | Value::Enum1(..) => {
                    let mut f = vec![Value::Uninit; i + 1];
                    set_val(dom, &mut f[i], rest, new)?;
                    *v = Value::Enum1(*n, Rc::new(f));
                    Ok(())
                }
                Value::Top(_) => Ok(()),
                v => Err(format!("store to variant field of {}", v.kind())),
            }
        }
        Proj::Elem(i) => {
            let i = *i as usize;
            if let Value::Uninit = v {
                *v = Value::agg(vec![]);
            }
            match v {
                Value::Agg(f) | Value::Seq(f) => {
                    let f = Rc::make_mut(f);
                    while f.len() <= i {
                        f.push(Value::Uninit);
                    }
                    set_val(dom, &mut f[i], rest, new)
                }
                Value::Map(m) => {
                    let m = Rc::make_mut(m);
                    set_val(dom, &mut m.entries[i].1, rest, new)
                }
                Value::Top(_) => Ok(()),
                v => {
                    if i == 0 {
                        return set_val(dom, v, rest, new);
                    }
                    Err(format!("store to element of {}", v.kind()))
                }
            }
        }
        Proj::ElemSym(b) => match v {
            Value::Agg(f) | Value::Seq(f) => {
                let f = Rc::make_mut(f);
                for i in 0..f.len() {
                    let g = dom.eq_const(b, i as u128);
                    if g == F {
                        continue;
                    }
                    let mut e = f[i].clone();
                    set_val(dom, &mut e, rest, new.clone())?;
                    f[i] = dom.ite(g, &e, &f[i]);
                }
                Ok(())
            }
            Value::Map(m) => {
                let m = Rc::make_mut(m);
                for i in 0..m.entries.len() {
                    let g = dom.eq_const(b, i as u128);
                    if g == F {
                        continue;
                    }
                    let mut e = m.entries[i].1.clone();
                    set_val(dom, &mut e, rest, new.clone())?;
                    m.entries[i].1 = dom.ite(g, &e, &m.entries[i].1);
                }
                Ok(())
            }
            v => Err(format!("store to unknown element of {}", v.kind())),
        },
    }
}

pub fn const_bin<'tcx>(op: BinOp, w: u16, x: u128, wb: u16, y: u128, signed: bool) -> Value<'tcx> {
    use BinOp::*;
    let m = mask(w);
    let sx = sext(w, x);
    let sy = sext(w, y);
    let ov = |full: Option<i128>, ufull: Option<u128>| -> bool {
        if signed {
            match full {
                None => true,
                Some(v) => sext(w, v as u128 & m) != v,
            }
        } else {
            match ufull {
                None => true,
                Some(v) => v & m != v,
            }
        }
    };
    let pair = |v: u128, o: bool| Value::agg(vec![Value::Int(w, v & m), Value::bool(o)]);
    match op {
        Add | AddUnchecked => Value::Int(w, x.wrapping_add(y) & m),
        Sub | SubUnchecked => Value::Int(w, x.wrapping_sub(y) & m),
        Mul | MulUnchecked => Value::Int(w, x.wrapping_mul(y) & m),
        AddWithOverflow => pair(x.wrapping_add(y), ov(sx.checked_add(sy), x.checked_add(y))),
        SubWithOverflow => pair(x.wrapping_sub(y), ov(sx.checked_sub(sy), x.checked_sub(y))),
        MulWithOverflow => pair(x.wrapping_mul(y), ov(sx.checked_mul(sy), x.checked_mul(y))),
        Div => {
            if y == 0 {
                return Value::top("division by zero");
            }
            Value::Int(w, if signed { sx.wrapping_div(sy) as u128 & m } else { x / y })
        }
        Rem => {
            if y == 0 {
                return Value::top("remainder by zero");
            }
            Value::Int(w, if signed { sx.wrapping_rem(sy) as u128 & m } else { x % y })
        }
        BitXor => Value::Int(w, x ^ y),
        BitAnd => Value::Int(w, x & y),
        BitOr => Value::Int(w, x | y),
        Shl | ShlUnchecked => {
            let s = (y & mask(wb)) as u32 & (w as u32 - 1);
            Value::Int(w, x.wrapping_shl(s) & m)
        }
        Shr | ShrUnchecked => {
            let s = (y & mask(wb)) as u32 & (w as u32 - 1);
            Value::Int(w, if signed { (sx >> s) as u128 & m } else { x >> s })
        }
        Eq => Value::bool(x == y),
        Ne => Value::bool(x != y),
        Lt => Value::bool(if signed { sx < sy } else { x < y }),
        Le => Value::bool(if signed { sx <= sy } else { x <= y }),
        Gt => Value::bool(if signed { sx > sy } else { x > y }),
        Ge => Value::bool(if signed { sx >= sy } else { x >= y }),
        Cmp => {
            let o = if signed { sx.cmp(&sy) } else { x.cmp(&y) };
            Value::Enum1((o as i8 + 1) as u32, empty())
        }
        Offset => Value::top("offset"),
    }
}

/// The first integer of unknown value directly inside an argument.
fn unknown_integer<'t>(v: &Value<'t>) -> Option<Rc<Vec<B>>> {
    match v {
        Value::Sym(b) => Some(b.clone()),
        Value::Agg(f) if f.len() <= 4 => f.iter().find_map(unknown_integer),
        Value::Ref(r) => match &r.meta {
            Meta::Slice(s, n) => unknown_integer(s).or_else(|| unknown_integer(n)),
            _ => None,
        },
        _ => None,
    }
}
