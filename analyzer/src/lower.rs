//! Monomorphic MIR -> compact IR with everything type-dependent resolved.

use crate::interp::*;
use crate::value::*;
use rustc_abi::VariantIdx;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, BinOp, UnOp};
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct IntTy {
    pub w: u16,
    pub signed: bool,
}

#[derive(Clone, Debug)]
pub enum PEl {
    Deref,
    Field(u32),
    VField(u32, u32),
    Zst,
    Index(u32),
    CIdx(u64, bool),
    Sub(u64, u64, bool),
}

#[derive(Clone, Debug)]
pub struct Pl<'tcx> {
    pub local: u32,
    pub proj: Vec<PEl>,
    pub ty: Ty<'tcx>,
}

#[derive(Clone, Debug)]
pub enum Op<'tcx> {
    Place(Pl<'tcx>),
    /// a whole local that is not read again
    Take(u32),
    Const(Value<'tcx>),
}

#[derive(Clone, Debug)]
pub enum CastOp<'tcx> {
    Int(IntTy, IntTy),
    /// no representation change
    Nop,
    /// array pointer to element pointer / fat slice pointer to thin element pointer
    ToElem,
    Unsize(Ty<'tcx>, Ty<'tcx>),
    Reify(Instance<'tcx>),
    Transmute(Ty<'tcx>, Ty<'tcx>),
    PtrToPtr(Ty<'tcx>, Ty<'tcx>),
    Bad(String),
}

#[derive(Clone, Debug)]
pub enum Rv<'tcx> {
    Use(Op<'tcx>),
    Repeat(Op<'tcx>, u64),
    Ref(Pl<'tcx>),
    Cast(CastOp<'tcx>, Op<'tcx>),
    Bin(BinOp, Op<'tcx>, Op<'tcx>, Option<IntTy>),
    Un(UnOp, Op<'tcx>, Option<IntTy>),
    Discr(Pl<'tcx>, Rc<Vec<u128>>, u16),
    Agg(Vec<Op<'tcx>>),
    AggE(u32, Vec<Op<'tcx>>),
    Arr(Vec<Op<'tcx>>),
    RawPtr(Op<'tcx>, Op<'tcx>, bool),
    Bad(String),
}

#[derive(Clone, Debug)]
pub enum St<'tcx> {
    Assign(Pl<'tcx>, Rv<'tcx>),
    SetDiscr(Pl<'tcx>, u32),
    CopyNonOverlapping(Op<'tcx>, Op<'tcx>, Op<'tcx>),
    Assume(Op<'tcx>),
    Dead(u32),
}

#[derive(Clone, Debug)]
pub enum Callee<'tcx> {
    Inst(Instance<'tcx>),
    Ptr(Op<'tcx>),
    Bad(String),
}

#[derive(Clone, Debug)]
pub enum Te<'tcx> {
    Goto(usize),
    Switch(Op<'tcx>, u16, Vec<(u128, usize)>, usize),
    Return,
    Unreachable,
    Call { callee: Callee<'tcx>, args: Vec<Op<'tcx>>, dest: Pl<'tcx>, target: Option<usize>, untuple: bool },
    Assert(Op<'tcx>, bool, &'static str, usize),
    /// The destructor of the value has an effect besides freeing memory.
    Drop { place: Pl<'tcx>, ty: Ty<'tcx>, target: usize },
    Diverge,
    Bad(String),
}

#[derive(Debug)]
pub struct Block<'tcx> {
    pub stmts: Vec<(St<'tcx>, Span)>,
    pub term: Te<'tcx>,
    pub span: Span,
}

#[derive(Debug)]
pub struct Func<'tcx> {
    pub inst: Instance<'tcx>,
    pub nlocals: usize,
    pub nargs: usize,
    pub spread: Option<usize>,
    pub blocks: Vec<Block<'tcx>>,
    pub ipdom: Vec<usize>,
    pub heads: Vec<bool>,
    pub is_repo: bool,
    pub id: usize,
}

impl<'tcx> Func<'tcx> {
    /// Integer constants that appear in the body.
    pub fn constants(&self, out: &mut std::collections::BTreeSet<u128>) {
        fn op(o: &Op<'_>, out: &mut std::collections::BTreeSet<u128>) {
            fn val(v: &Value<'_>, out: &mut std::collections::BTreeSet<u128>) {
                match v {
                    Value::Int(_, x) => {
                        out.insert(*x);
                    }
                    Value::Agg(f) if f.len() < 64 => f.iter().for_each(|v| val(v, out)),
                    _ => {}
                }
            }
            if let Op::Const(v) = o {
                val(v, out);
            }
        }
        for b in &self.blocks {
            for (s, _) in &b.stmts {
                match s {
                    St::Assign(_, r) => match r {
                        Rv::Use(a) | Rv::Repeat(a, _) | Rv::Cast(_, a) | Rv::Un(_, a, _) => op(a, out),
                        Rv::Bin(_, a, b, _) | Rv::RawPtr(a, b, _) => {
                            op(a, out);
                            op(b, out);
                        }
                        Rv::Agg(l) | Rv::AggE(_, l) | Rv::Arr(l) => l.iter().for_each(|a| op(a, out)),
                        Rv::Ref(_) | Rv::Discr(..) | Rv::Bad(_) => {}
                    },
                    St::CopyNonOverlapping(a, b, c) => [a, b, c].iter().for_each(|a| op(a, out)),
                    St::Assume(a) => op(a, out),
                    _ => {}
                }
            }
            match &b.term {
                Te::Switch(_, _, l, _) => out.extend(l.iter().map(|x| x.0)),
                Te::Call { args, .. } => args.iter().for_each(|a| op(a, out)),
                _ => {}
            }
        }
    }
}

pub const EXIT: usize = usize::MAX;

pub fn int_ty<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> Option<IntTy> {
    Some(match t.kind() {
        ty::Bool => IntTy { w: 1, signed: false },
        ty::Char => IntTy { w: 32, signed: false },
        ty::Uint(u) => IntTy { w: u.bit_width().unwrap_or(tcx.data_layout.pointer_size().bits()) as u16, signed: false },
        ty::Int(u) => IntTy { w: u.bit_width().unwrap_or(tcx.data_layout.pointer_size().bits()) as u16, signed: true },
        _ => return None,
    })
}

pub fn env<'tcx>() -> TypingEnv<'tcx> {
    TypingEnv::fully_monomorphized()
}

pub fn is_zst<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> bool {
    tcx.layout_of(env().as_query_input(t)).map(|l| l.is_zst()).unwrap_or(false)
}

/// For a `repr(transparent)` struct or union (and any union): the index of the field
/// that carries the representation.
pub fn transparent<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> Option<usize> {
    if let ty::Adt(def, args) = t.kind() {
        if def.is_union() || (def.is_struct() && def.repr().transparent()) {
            for (i, f) in def.non_enum_variant().fields.iter().enumerate() {
                let ft = field_ty(tcx, f, args);
                if !is_zst(tcx, ft) {
                    return Some(i);
                }
            }
        }
    }
    None
}

pub fn is_union(t: Ty<'_>) -> bool {
    matches!(t.kind(), ty::Adt(d, _) if d.is_union())
}

pub fn field_ty<'tcx>(tcx: TyCtxt<'tcx>, f: &ty::FieldDef, args: ty::GenericArgsRef<'tcx>) -> Ty<'tcx> {
    let t = tcx.type_of(f.did).instantiate(tcx, args);
    tcx.normalize_erasing_regions(env(), t)
}

pub fn adt_is(tcx: TyCtxt<'_>, t: Ty<'_>, path: &str) -> bool {
    matches!(t.kind(), ty::Adt(d, _) if crate::models::def_key(tcx, d.did()) == path)
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum DropEffect {
    /// Frees memory at most, which nothing analysed can observe.
    None,
    Runs,
    Unknown,
}

/// Standard types whose destructors finish the work of their operation.
const WORKING_DROPS: &[&str] = &[
    "Hole", "PeekMut", "RebuildOnDrop", "SetLenOnDrop", "BorrowRef", "BorrowRefMut", "DropGuard", "BackshiftOnDrop", "FillGapOnDrop",
    "CopyOnDrop", "InsertionHole", "GapGuard", "MergeState", "Rc", "Arc", "UniqueRc", "Weak", "MutexGuard", "RwLockReadGuard", "RwLockWriteGuard",
];

/// Standard types whose destructors free memory and drop what they hold, or whose operations are
/// modelled as finished when they return.
const FREEING_DROPS: &[&str] = &[
    "IntoIter", "Drain", "Splice", "BTreeMap", "VecDeque", "LinkedList", "RawTable", "RawTableInner", "RawIntoIter", "RawDrain", "Guard",
    "InPlaceDrop", "InPlaceDstDataSrcBufDrop", "UniqueRcUninit", "UniqueArcUninit", "ThinBox", "CString", "OnceLock", "ExtractIf",
    "Dropper", "OwnedFd", "FileDesc", "BufWriter", "LineWriter", "ReentrantLockGuard", "ReentrantLock", "Repr", "OsFunctions", "LazyLock", "LazyCell", "InitializingSlice", "GuardBack", "ReentrantLockGuard", "HashMap", "HashSet", "BTreeSet", "IntoKeys", "IntoValues", "OccupiedEntry", "VacantEntry", "CompleteStateOnDrop",
];

impl<'tcx> Interp<'tcx> {
    /// Whether dropping a value of this type does something an execution can observe.
    pub fn drop_effect(&mut self, t: Ty<'tcx>) -> DropEffect {
        if !t.needs_drop(self.tcx, env()) {
            return DropEffect::None;
        }
        if let Some(e) = self.drop_effects.get(&t) {
            return *e;
        }
        self.drop_effects.insert(t, DropEffect::None); // a recursive type has what its other parts have
        let e = self.drop_effect_(t);
        self.drop_effects.insert(t, e);
        e
    }

    fn drop_effect_(&mut self, t: Ty<'tcx>) -> DropEffect {
        let tcx = self.tcx;
        let worst = |s: &mut Self, l: Vec<Ty<'tcx>>| l.into_iter().map(|t| s.drop_effect(t)).max().unwrap_or(DropEffect::None);
        match t.kind() {
            ty::Adt(def, args) => {
                let krate = tcx.crate_name(def.did().krate);
                let std = matches!(krate.as_str(), "core" | "alloc" | "std" | "hashbrown");
                if std && def.is_manually_drop() {
                    return DropEffect::None;
                }
                if def.is_box() {
                    return self.drop_effect(args.type_at(0));
                }
                if tcx.adt_destructor(def.did()).is_some() {
                    if !std {
                        return DropEffect::Runs;
                    }
                    let n = tcx.item_name(def.did());
                    if WORKING_DROPS.contains(&n.as_str()) {
                        return DropEffect::Runs;
                    }
                    let inner = worst(self, args.types().collect());
                    return match n.as_str() {
                        "Vec" => inner,
                        // storage only: what it holds is dropped by its owner
                        "RawVec" => DropEffect::None,
                        n if inner == DropEffect::None && FREEING_DROPS.contains(&n) => DropEffect::None,
                        _ => DropEffect::Unknown,
                    };
                }
                if def.is_union() {
                    return DropEffect::None;
                }
                let l = def.all_fields().map(|f| field_ty(tcx, f, args)).collect();
                worst(self, l)
            }
            ty::Tuple(l) => worst(self, l.iter().collect()),
            ty::Array(t, _) | ty::Slice(t) => self.drop_effect(*t),
            ty::Closure(_, a) => worst(self, a.as_closure().upvar_tys().iter().collect()),
            ty::Dynamic(..) => {
                if self.own_drops() {
                    DropEffect::Runs
                } else {
                    DropEffect::None
                }
            }
            _ => DropEffect::Unknown,
        }
    }

    /// Whether a crate outside the standard library has a destructor of its own.
    fn own_drops(&mut self) -> bool {
        if let Some(x) = self.any_own_drop {
            return x;
        }
        let tcx = self.tcx;
        let tr = tcx.lang_items().drop_trait().unwrap();
        let x = tcx.all_impls(tr).any(|d| {
            !matches!(
                tcx.crate_name(d.krate).as_str(),
                "core" | "alloc" | "std" | "hashbrown" | "proc_macro" | "std_detect" | "test" | "panic_unwind" | "gimli" | "addr2line" | "object" | "memchr" | "rustc_demangle" | "unwind" | "libc" | "cfg_if" | "backtrace"
            )
        });
        self.any_own_drop = Some(x);
        x
    }

    pub fn func(&mut self, inst: Instance<'tcx>) -> Res<Rc<Func<'tcx>>> {
        if let Some(f) = self.funcs.get(&inst) {
            return Ok(f.clone());
        }
        let tcx = self.tcx;
        let has = match inst.def {
            InstanceKind::Item(d) => tcx.is_mir_available(d),
            InstanceKind::Shim(_) => true,
            InstanceKind::Intrinsic(d) => tcx.is_mir_available(d),
            _ => false,
        };
        if !has {
            return Err(self.abort(format!("no MIR body for {}", self.path(inst.def_id()))));
        }
        let body: &mir::Body<'tcx> = match inst.def {
            InstanceKind::Intrinsic(d) => tcx.instance_mir(InstanceKind::Item(d)),
            d => tcx.instance_mir(d),
        };
        let minst = match inst.def {
            InstanceKind::Intrinsic(d) => Instance { def: InstanceKind::Item(d), args: inst.args },
            _ => inst,
        };
        let body = match minst.try_instantiate_mir_and_normalize_erasing_regions(
            tcx,
            env(),
            EarlyBinder::bind(tcx, body.clone()),
        ) {
            Ok(b) => b,
            Err(_) => return Err(self.abort(format!("cannot normalise MIR of {}", self.path(inst.def_id())))),
        };
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            if bb.is_cleanup {
                blocks.push(Block { stmts: vec![], term: Te::Diverge, span: bb.terminator().source_info.span });
                continue;
            }
            let mut stmts = vec![];
            for s in &bb.statements {
                if let Some(st) = self.lower_stmt(&body, s)? {
                    stmts.push((st, s.source_info.span));
                }
            }
            let t = bb.terminator();
            let term = self.lower_term(&body, t)?;
            blocks.push(Block { stmts, term, span: t.source_info.span });
        }
        let ipdom = ipdoms(&blocks);
        let heads = loop_heads(&blocks);
        let is_repo = self.is_repo(inst.def_id());
        let id = self.funcs.len();
        let f = Rc::new(Func {
            inst,
            nlocals: body.local_decls.len(),
            nargs: body.arg_count,
            spread: body.spread_arg.map(|l| l.as_usize()),
            blocks,
            ipdom,
            heads,
            is_repo,
            id,
        });
        self.funcs.insert(inst, f.clone());
        Ok(f)
    }

    pub fn is_repo(&self, d: DefId) -> bool {
        self.repo_crate.split(',').any(|c| c == self.tcx.crate_name(d.krate).as_str())
    }

    fn lower_place(&mut self, body: &mir::Body<'tcx>, p: &mir::Place<'tcx>) -> Pl<'tcx> {
        let tcx = self.tcx;
        let mut proj = vec![];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                mir::ProjectionElem::Deref => proj.push(PEl::Deref),
                mir::ProjectionElem::Field(f, fty) => {
                    let i = f.as_usize();
                    if let Some(v) = pt.variant_index {
                        proj.push(PEl::VField(v.as_u32(), i as u32));
                    } else if is_union(pt.ty) {
                        if is_zst(tcx, fty) {
                            proj.push(PEl::Zst);
                        }
                    } else if let Some(k) = transparent(tcx, pt.ty) {
                        if k != i {
                            proj.push(PEl::Zst);
                        }
                    } else {
                        proj.push(PEl::Field(i as u32));
                    }
                }
                mir::ProjectionElem::Index(l) => proj.push(PEl::Index(l.as_u32())),
                mir::ProjectionElem::ConstantIndex { offset, from_end, .. } => proj.push(PEl::CIdx(offset, from_end)),
                mir::ProjectionElem::Subslice { from, to, from_end } => proj.push(PEl::Sub(from, to, from_end)),
                mir::ProjectionElem::Downcast(..) => {}
                _ => {}
            }
            pt = pt.projection_ty(tcx, e);
        }
        Pl { local: p.local.as_u32(), proj, ty: pt.ty }
    }

    fn lower_op(&mut self, body: &mir::Body<'tcx>, o: &mir::Operand<'tcx>) -> Res<Op<'tcx>> {
        Ok(match o {
            mir::Operand::Move(p)
                if p.projection.is_empty() && {
                    let t = body.local_decls[p.local].ty;
                    matches!(t.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Closure(..)) && !self.tcx.type_is_copy_modulo_regions(env(), t)
                } =>
            {
                Op::Take(p.local.as_u32())
            }
            mir::Operand::Copy(p) | mir::Operand::Move(p) => Op::Place(self.lower_place(body, p)),
            mir::Operand::Constant(c) => Op::Const(self.const_value(&c.const_, c.span)?),
            mir::Operand::RuntimeChecks(r) => Op::Const(Value::bool(match r {
                mir::RuntimeChecks::OverflowChecks => self.tcx.sess.overflow_checks(),
                _ => false,
            })),
        })
    }

    fn lower_stmt(&mut self, body: &mir::Body<'tcx>, s: &mir::Statement<'tcx>) -> Res<Option<St<'tcx>>> {
        Ok(Some(match &s.kind {
            mir::StatementKind::Assign(b) => {
                let (p, r) = &**b;
                let pl = self.lower_place(body, p);
                let rv = self.lower_rv(body, r)?;
                St::Assign(pl, rv)
            }
            mir::StatementKind::SetDiscriminant { place, variant_index } => {
                St::SetDiscr(self.lower_place(body, place), variant_index.as_u32())
            }
            mir::StatementKind::StorageDead(l) => St::Dead(l.as_u32()),
            mir::StatementKind::Intrinsic(i) => match &**i {
                mir::NonDivergingIntrinsic::Assume(o) => St::Assume(self.lower_op(body, o)?),
                mir::NonDivergingIntrinsic::CopyNonOverlapping(c) => St::CopyNonOverlapping(
                    self.lower_op(body, &c.src)?,
                    self.lower_op(body, &c.dst)?,
                    self.lower_op(body, &c.count)?,
                ),
            },
            _ => return Ok(None),
        }))
    }

    fn lower_rv(&mut self, body: &mir::Body<'tcx>, r: &mir::Rvalue<'tcx>) -> Res<Rv<'tcx>> {
        let tcx = self.tcx;
        Ok(match r {
            mir::Rvalue::Use(o, _) => Rv::Use(self.lower_op(body, o)?),
            mir::Rvalue::CopyForDeref(p) => Rv::Use(Op::Place(self.lower_place(body, p))),
            mir::Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                Rv::Repeat(self.lower_op(body, o)?, n)
            }
            mir::Rvalue::Ref(_, _, p) => Rv::Ref(self.lower_place(body, p)),
            mir::Rvalue::RawPtr(_, p) => Rv::Ref(self.lower_place(body, p)),
            mir::Rvalue::Reborrow(_, _, p) => Rv::Use(Op::Place(self.lower_place(body, p))),
            mir::Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(body, tcx);
                Rv::Bin(*op, self.lower_op(body, &ab.0)?, self.lower_op(body, &ab.1)?, int_ty(tcx, t))
            }
            mir::Rvalue::UnaryOp(op, a) => {
                let t = a.ty(body, tcx);
                Rv::Un(*op, self.lower_op(body, a)?, int_ty(tcx, t))
            }
            mir::Rvalue::Discriminant(p) => {
                let pl = self.lower_place(body, p);
                match pl.ty.kind() {
                    ty::Adt(d, _) if d.is_enum() => {
                        let v: Vec<u128> = d.discriminants(tcx).map(|x| x.1.val).collect();
                        let dt = pl.ty.discriminant_ty(tcx);
                        let w = int_ty(tcx, dt).map(|i| i.w).unwrap_or(64);
                        Rv::Discr(pl, Rc::new(v), w)
                    }
                    _ => Rv::Use(Op::Const(Value::Int(8, 0))),
                }
            }
            mir::Rvalue::Aggregate(k, fs) => {
                let mut ops = vec![];
                for f in fs {
                    ops.push(self.lower_op(body, f)?);
                }
                match &**k {
                    mir::AggregateKind::Array(_) => Rv::Arr(ops),
                    mir::AggregateKind::Tuple => Rv::Agg(ops),
                    mir::AggregateKind::Closure(..) => Rv::Agg(ops),
                    mir::AggregateKind::Adt(did, vi, args, _, active) => {
                        let def = tcx.adt_def(*did);
                        if def.is_enum() {
                            Rv::AggE(vi.as_u32(), ops)
                        } else if def.is_union() {
                            let _ = active;
                            Rv::Use(ops.pop().unwrap())
                        } else {
                            let t = Ty::new_adt(tcx, def, args);
                            match transparent(tcx, t) {
                                Some(i) => Rv::Use(ops.swap_remove(i)),
                                None => Rv::Agg(ops),
                            }
                        }
                    }
                    mir::AggregateKind::RawPtr(pointee, _) => {
                        let b = ops.pop().unwrap();
                        let a = ops.pop().unwrap();
                        let is_slice = matches!(pointee.kind(), ty::Slice(_) | ty::Str);
                        Rv::RawPtr(a, b, is_slice)
                    }
                    k => Rv::Bad(format!("aggregate {:?}", k)),
                }
            }
            mir::Rvalue::Cast(kind, o, to) => {
                let from = o.ty(body, tcx);
                let op = self.lower_op(body, o)?;
                let c = match kind {
                    mir::CastKind::IntToInt => {
                        let f = match from.kind() {
                            ty::Adt(..) => None,
                            _ => int_ty(tcx, from),
                        };
                        match (f, int_ty(tcx, *to)) {
                            (Some(a), Some(b)) => CastOp::Int(a, b),
                            _ => CastOp::Bad(format!("cast {from} as {to}")),
                        }
                    }
                    mir::CastKind::PtrToPtr => CastOp::PtrToPtr(from, *to),
                    mir::CastKind::FnPtrToPtr => CastOp::Nop,
                    mir::CastKind::Subtype => CastOp::Nop,
                    mir::CastKind::Transmute | mir::CastKind::BoxDerefTransmute => CastOp::Transmute(from, *to),
                    mir::CastKind::PointerExposeProvenance | mir::CastKind::PointerWithExposedProvenance => {
                        CastOp::Nop
                    }
                    mir::CastKind::PointerCoercion(pc, _) => match pc {
                        ty::adjustment::PointerCoercion::MutToConstPointer
                        | ty::adjustment::PointerCoercion::UnsafeFnPointer => CastOp::Nop,
                        ty::adjustment::PointerCoercion::ArrayToPointer => CastOp::ToElem,
                        ty::adjustment::PointerCoercion::Unsize => CastOp::Unsize(from, *to),
                        ty::adjustment::PointerCoercion::ReifyFnPointer(_) => match from.kind() {
                            ty::FnDef(d, args) => {
                                let args = args.no_bound_vars().unwrap();
                                match Instance::try_resolve(tcx, env(), *d, args) {
                                    Ok(Some(i)) => CastOp::Reify(i),
                                    _ => CastOp::Bad("reify".into()),
                                }
                            }
                            _ => CastOp::Bad("reify".into()),
                        },
                        ty::adjustment::PointerCoercion::ClosureFnPointer(_) => match from.kind() {
                            ty::Closure(d, args) => {
                                CastOp::Reify(Instance::resolve_closure(tcx, *d, args, ty::ClosureKind::FnOnce))
                            }
                            _ => CastOp::Bad("closure fn pointer".into()),
                        },
                    },
                    k => CastOp::Bad(format!("{k:?}")),
                };
                Rv::Cast(c, op)
            }
            r => Rv::Bad(format!("{r:?}")),
        })
    }

    fn lower_term(&mut self, body: &mir::Body<'tcx>, t: &mir::Terminator<'tcx>) -> Res<Te<'tcx>> {
        let tcx = self.tcx;
        Ok(match &t.kind {
            mir::TerminatorKind::Goto { target, .. } => Te::Goto(target.as_usize()),
            mir::TerminatorKind::FalseEdge { real_target, .. } => Te::Goto(real_target.as_usize()),
            mir::TerminatorKind::FalseUnwind { real_target, .. } => Te::Goto(real_target.as_usize()),
            mir::TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(body, tcx).ty;
                match self.drop_effect(ty) {
                    DropEffect::None => Te::Goto(target.as_usize()),
                    DropEffect::Unknown => Te::Bad(format!("drop of {ty}")),
                    DropEffect::Runs => Te::Drop { place: self.lower_place(body, place), ty, target: target.as_usize() },
                }
            }
            mir::TerminatorKind::Return => Te::Return,
            mir::TerminatorKind::Unreachable => Te::Unreachable,
            mir::TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(body, tcx);
                let w = int_ty(tcx, ty).map(|x| x.w).unwrap_or(64);
                Te::Switch(
                    self.lower_op(body, discr)?,
                    w,
                    targets.iter().map(|(v, b)| (v, b.as_usize())).collect(),
                    targets.otherwise().as_usize(),
                )
            }
            mir::TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let m = match &**msg {
                    mir::AssertKind::BoundsCheck { .. } => "index out of bounds",
                    mir::AssertKind::Overflow(op, ..) => match op {
                        BinOp::Add => "attempt to add with overflow",
                        BinOp::Sub => "attempt to subtract with overflow",
                        BinOp::Mul => "attempt to multiply with overflow",
                        BinOp::Shl => "attempt to shift left with overflow",
                        BinOp::Shr => "attempt to shift right with overflow",
                        _ => "arithmetic overflow",
                    },
                    mir::AssertKind::OverflowNeg(_) => "attempt to negate with overflow",
                    mir::AssertKind::DivisionByZero(_) => "division by zero",
                    mir::AssertKind::RemainderByZero(_) => "remainder by zero",
                    mir::AssertKind::MisalignedPointerDereference { .. } => "misaligned",
                    mir::AssertKind::NullPointerDereference => "null pointer",
                    _ => "assertion",
                };
                if m == "misaligned" || m == "null pointer" {
                    return Ok(Te::Goto(target.as_usize()));
                }
                Te::Assert(self.lower_op(body, cond)?, *expected, m, target.as_usize())
            }
            mir::TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = func.ty(body, tcx);
                let untuple = fty.fn_sig(tcx).abi() == rustc_abi::ExternAbi::RustCall;
                let callee = match fty.kind() {
                    ty::FnDef(d, a) => {
                        let a = a.no_bound_vars().unwrap();
                        match Instance::try_resolve(tcx, env(), *d, a) {
                            Ok(Some(i)) => Callee::Inst(i),
                            _ => Callee::Bad(format!("unresolved call to {}", tcx.def_path_str(*d))),
                        }
                    }
                    ty::FnPtr(..) => Callee::Ptr(self.lower_op(body, func)?),
                    _ => Callee::Bad("callee".into()),
                };
                let mut ops = vec![];
                for a in args.iter() {
                    ops.push(self.lower_op(body, &a.node)?);
                }
                Te::Call {
                    callee,
                    args: ops,
                    dest: self.lower_place(body, destination),
                    target: target.map(|t| t.as_usize()),
                    untuple,
                }
            }
            mir::TerminatorKind::UnwindResume | mir::TerminatorKind::UnwindTerminate(_) => Te::Diverge,
            k => Te::Bad(format!("{k:?}")),
        })
    }
}

pub fn succs(t: &Te) -> Vec<usize> {
    match t {
        Te::Goto(b) => vec![*b],
        Te::Switch(_, _, ts, o) => {
            let mut v: Vec<usize> = ts.iter().map(|x| x.1).collect();
            v.push(*o);
            v
        }
        Te::Call { target, .. } => target.iter().copied().collect(),
        Te::Assert(_, _, _, t) => vec![*t],
        Te::Drop { target, .. } => vec![*target],
        _ => vec![],
    }
}

fn loop_heads(blocks: &[Block]) -> Vec<bool> {
    // targets of back edges of a depth-first traversal
    let n = blocks.len();
    let mut heads = vec![false; n];
    let mut state = vec![0u8; n];
    let mut st: Vec<(usize, usize, Vec<usize>)> = vec![];
    if n == 0 {
        return heads;
    }
    st.push((0, 0, succs(&blocks[0].term)));
    state[0] = 1;
    while let Some((b, i, s)) = st.pop() {
        if i < s.len() {
            let t = s[i];
            st.push((b, i + 1, s));
            if state[t] == 0 {
                state[t] = 1;
                st.push((t, 0, succs(&blocks[t].term)));
            } else if state[t] == 1 {
                heads[t] = true;
            }
        } else {
            state[b] = 2;
        }
    }
    heads
}

/// Immediate post-dominators on the part of the graph that can reach `Return`.
fn ipdoms(blocks: &[Block]) -> Vec<usize> {
    let n = blocks.len();
    let exit = n;
    let mut succ: Vec<Vec<usize>> = blocks.iter().map(|b| succs(&b.term)).collect();
    for (i, b) in blocks.iter().enumerate() {
        if matches!(b.term, Te::Return) {
            succ[i] = vec![exit];
        }
    }
    succ.push(vec![]);
    let mut pred: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for i in 0..n {
        for s in &succ[i] {
            pred[*s].push(i);
        }
    }
    // post order on the reversed graph from exit
    let mut order = vec![];
    let mut seen = vec![false; n + 1];
    let mut st = vec![(exit, 0usize)];
    seen[exit] = true;
    while let Some((b, i)) = st.pop() {
        if i < pred[b].len() {
            st.push((b, i + 1));
            let p = pred[b][i];
            if !seen[p] {
                seen[p] = true;
                st.push((p, 0));
            }
        } else {
            order.push(b);
        }
    }
    let mut num = vec![usize::MAX; n + 1];
    for (k, b) in order.iter().enumerate() {
        num[*b] = k;
    }
    let mut idom = vec![usize::MAX; n + 1];
    idom[exit] = exit;
    let mut changed = true;
    while changed {
        changed = false;
        for b in order.iter().rev() {
            if *b == exit {
                continue;
            }
            let mut new = usize::MAX;
            for s in &succ[*b] {
                if num[*s] == usize::MAX || idom[*s] == usize::MAX {
                    continue;
                }
                new = if new == usize::MAX {
                    *s
                } else {
                    let (mut x, mut y) = (new, *s);
                    while x != y {
                        while num[x] < num[y] {
                            x = idom[x];
                        }
                        while num[y] < num[x] {
                            y = idom[y];
                        }
                    }
                    x
                };
            }
            if new != usize::MAX && idom[*b] != new {
                idom[*b] = new;
                changed = true;
            }
        }
    }
    (0..n).map(|b| if idom[b] == usize::MAX || idom[b] == exit { EXIT } else { idom[b] }).collect()
}

pub fn variant_idx(i: usize) -> VariantIdx {
    VariantIdx::from_usize(i)
}
