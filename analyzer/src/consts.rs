//! Compile-time constants, statics, layouts and bit-level reinterpretation.

use crate::bdd::*;
use crate::interp::*;
use crate::lower::*;
use crate::value::*;
use rustc_abi::{FieldIdx, Size, TagEncoding, VariantIdx, Variants};
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocId, Allocation, GlobalAlloc, Scalar, alloc_range};
use rustc_middle::mir::{self, ConstValue};
use rustc_middle::ty::layout::{LayoutCx, TyAndLayout};
use rustc_middle::ty::{self, Ty};
use rustc_span::Span;
use std::rc::Rc;

pub enum Src<'a> {
    Bits(&'a [B]),
    Alloc(&'a Allocation),
}

impl<'tcx> Interp<'tcx> {
    pub fn const_value(&mut self, c: &mir::Const<'tcx>, span: Span) -> Res<Value<'tcx>> {
        let ty = c.ty();
        if let ty::FnDef(..) = ty.kind() {
            return Ok(Value::unit());
        }
        match c.eval(self.tcx, env(), span) {
            Ok(cv) => self.cv_value(cv, ty),
            Err(_) => Ok(Value::top(format!("constant {c:?} failed to evaluate"))),
        }
    }

    pub fn cv_value(&mut self, cv: ConstValue, ty: Ty<'tcx>) -> Res<Value<'tcx>> {
        let tcx = self.tcx;
        match cv {
            ConstValue::ZeroSized => self.zst(ty),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let w = i.size().bits();
                let v = i.to_bits(i.size());
                let bits: Vec<B> = (0..w).map(|k| ((v >> k) & 1) as B).collect();
                self.decode(ty, &Src::Bits(&bits), 0)
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let pt = pointee(tcx, ty);
                self.ptr_to(prov.alloc_id(), off.bytes(), pt, None)
            }
            ConstValue::Slice { alloc_id, meta } => {
                let pt = pointee(tcx, ty).unwrap_or(tcx.types.str_);
                self.ptr_to(alloc_id, 0, Some(pt), Some(meta))
            }
            ConstValue::Indirect { alloc_id, offset } => match tcx.global_alloc(alloc_id) {
                GlobalAlloc::Memory(a) => self.decode(ty, &Src::Alloc(a.inner()), offset.bytes()),
                _ => Err(self.abort("constant in non-memory")),
            },
        }
    }

    pub fn ptr_to(&mut self, id: AllocId, off: u64, pt: Option<Ty<'tcx>>, len: Option<u64>) -> Res<Value<'tcx>> {
        let tcx = self.tcx;
        match tcx.global_alloc(id) {
            GlobalAlloc::Function { instance } => Ok(Value::Fn(instance)),
            GlobalAlloc::Static(d) => {
                let c = self.static_cell(d)?;
                if off != 0 {
                    return Ok(Value::top("pointer into the middle of a static"));
                }
                match (len, pt.map(|t| *t.kind())) {
                    (Some(n), Some(ty::Slice(_) | ty::Str)) => {
                        Ok(Value::refv(c, vec![], Meta::Slice(Value::usize(0), Value::usize(n))))
                    }
                    _ => Ok(Value::refv(c, vec![], Meta::None)),
                }
            }
            GlobalAlloc::Memory(a) => {
                let Some(pt) = pt else { return Ok(Value::top("pointer of unknown type")) };
                let (elem, n) = match (pt.kind(), len) {
                    (ty::Slice(e), Some(n)) => (*e, Some(n)),
                    (ty::Str, Some(n)) => (tcx.types.u8, Some(n)),
                    _ => (pt, None),
                };
                let key = (id, off, elem, n.unwrap_or(u64::MAX));
                let cell = match self.alloc_cells.get(&key) {
                    Some(c) => *c,
                    None => {
                        let v = match n {
                            None => self.decode(elem, &Src::Alloc(a.inner()), off)?,
                            Some(n) => {
                                let sz = self.size_of(elem)?;
                                let mut f = vec![];
                                for i in 0..n {
                                    f.push(self.decode(elem, &Src::Alloc(a.inner()), off + i * sz)?);
                                }
                                Value::agg(f)
                            }
                        };
                        let c = self.alloc(v);
                        self.alloc_cells.insert(key, c);
                        c
                    }
                };
                Ok(match n {
                    None => Value::refv(cell, vec![], Meta::None),
                    Some(n) => Value::refv(cell, vec![], Meta::Slice(Value::usize(0), Value::usize(n))),
                })
            }
            _ => Ok(Value::top("pointer to vtable or type id")),
        }
    }

    pub fn static_cell(&mut self, d: DefId) -> Res<u32> {
        if let Some(c) = self.static_cells.get(&d) {
            return Ok(*c);
        }
        let tcx = self.tcx;
        let ty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let ty = tcx.erase_and_anonymize_regions(ty);
        let v = if tcx.is_foreign_item(d) || tcx.is_thread_local_static(d) {
            Value::top("foreign or thread-local static")
        } else if tcx.is_mutable_static(d) || crate::graph::mutable_inside(tcx, ty).is_some() {
            // earlier calls may have left anything there
            Value::top("mutable global state")
        } else {
            match tcx.eval_static_initializer(d) {
                Ok(a) => match self.decode(ty, &Src::Alloc(a.inner()), 0) {
                    Ok(v) => v,
                    Err(_) => Value::top("static initialiser"),
                },
                Err(_) => Value::top("static initialiser failed"),
            }
        };
        let c = self.alloc(v);
        self.static_cells.insert(d, c);
        Ok(c)
    }

    pub fn size_of(&self, t: Ty<'tcx>) -> Res<u64> {
        match self.tcx.layout_of(env().as_query_input(t)) {
            Ok(l) => Ok(l.size.bytes()),
            Err(_) => Err(self.abort(format!("no layout for {t}"))),
        }
    }

    fn layout(&self, t: Ty<'tcx>) -> Res<TyAndLayout<'tcx>> {
        self.tcx.layout_of(env().as_query_input(t)).map_err(|_| self.abort(format!("no layout for {t}")))
    }

    pub fn zst(&mut self, t: Ty<'tcx>) -> Res<Value<'tcx>> {
        self.decode(t, &Src::Bits(&[]), 0)
    }

    fn src_bits(&self, s: &Src<'_>, off: u64, size: u64) -> Option<Vec<B>> {
        match s {
            Src::Bits(b) => {
                let lo = (off * 8) as usize;
                let hi = ((off + size) * 8) as usize;
                if hi > b.len() {
                    // booleans and the like are kept at their own width
                    let mut v: Vec<B> = b.get(lo..)?.to_vec();
                    v.resize((size * 8) as usize, F);
                    return Some(v);
                }
                Some(b[lo..hi].to_vec())
            }
            Src::Alloc(a) => {
                let r = alloc_range(Size::from_bytes(off), Size::from_bytes(size));
                if a.init_mask().is_range_initialized(r).is_err() {
                    return None;
                }
                let by = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + size) as usize);
                Some(by.iter().flat_map(|b| (0..8).map(move |k| ((b >> k) & 1) as B)).collect())
            }
        }
    }

    fn src_ptr(&self, s: &Src<'_>, off: u64) -> Option<(AllocId, u64)> {
        if let Src::Alloc(a) = s {
            if let Some(p) = a.provenance().get_ptr(Size::from_bytes(off)) {
                let by = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..off as usize + 8);
                let o = u64::from_le_bytes(by.try_into().unwrap());
                return Some((p.alloc_id(), o));
            }
        }
        None
    }

    /// Value of type `t` stored in `s` at byte offset `off`.
    pub fn decode(&mut self, t: Ty<'tcx>, s: &Src<'_>, off: u64) -> Res<Value<'tcx>> {
        let tcx = self.tcx;
        if let Some(it) = int_ty(tcx, t) {
            let sz = self.size_of(t)?;
            return Ok(match self.src_bits(s, off, sz) {
                Some(mut b) => {
                    b.truncate(it.w as usize);
                    Dom::from_bits(b)
                }
                None => Value::Uninit,
            });
        }
        match t.kind() {
            ty::Pat(b, _) => return self.decode(*b, s, off),
            ty::Ref(_, p, _) | ty::RawPtr(p, _) => {
                let tail = tcx.struct_tail_for_codegen(*p, env());
                match self.src_ptr(s, off) {
                    Some((id, o)) => {
                        return match tail.kind() {
                            ty::Slice(_) | ty::Str => {
                                let n = self.src_bits(s, off + 8, 8).map(|b| Dom::from_bits(b));
                                let n = n.and_then(|v: Value<'tcx>| v.as_const()).unwrap_or(0) as u64;
                                self.ptr_to(id, o, Some(*p), Some(n))
                            }
                            ty::Dynamic(..) => {
                                let vt = self.src_ptr(s, off + 8);
                                match vt.map(|v| tcx.global_alloc(v.0)) {
                                    Some(GlobalAlloc::VTable(ct, _)) => {
                                        let r = self.ptr_to(id, o, Some(ct), None)?;
                                        match r {
                                            Value::Ref(r) => Ok(Value::refv(r.cell, r.proj.clone(), Meta::Dyn(ct))),
                                            v => Ok(v),
                                        }
                                    }
                                    _ => Ok(Value::top("vtable")),
                                }
                            }
                            _ => self.ptr_to(id, o, Some(*p), None),
                        };
                    }
                    None => {
                        return Ok(match self.src_bits(s, off, 8) {
                            Some(b) => {
                                let v = Dom::from_bits(b);
                                match tail.kind() {
                                    ty::Slice(_) | ty::Str => {
                                        let n = self.src_bits(s, off + 8, 8).map(Dom::from_bits).unwrap_or(Value::usize(0));
                                        self.make_slice(&v, &n)?
                                    }
                                    ty::Dynamic(..) => match self.src_ptr(s, off + 8).map(|v| tcx.global_alloc(v.0)) {
                                        Some(GlobalAlloc::VTable(ct, _)) => {
                                            let z = self.zst(ct)?;
                                            let c = self.alloc(z);
                                            Value::refv(c, vec![], Meta::Dyn(ct))
                                        }
                                        _ => v,
                                    },
                                    _ => v,
                                }
                            }
                            None => Value::Uninit,
                        });
                    }
                }
            }
            ty::FnPtr(..) => {
                return Ok(match self.src_ptr(s, off) {
                    Some((id, _)) => match tcx.global_alloc(id) {
                        GlobalAlloc::Function { instance } => Value::Fn(instance),
                        _ => Value::top("function pointer"),
                    },
                    None => match self.src_bits(s, off, 8) {
                        Some(b) => Dom::from_bits(b),
                        None => Value::Uninit,
                    },
                });
            }
            ty::FnDef(..) | ty::Never => return Ok(Value::unit()),
            ty::Float(_) => return Ok(Value::top("floating point")),
            _ => {}
        }
        let l = self.layout(t)?;
        if let Src::Alloc(a) = s {
            if l.size.bytes() > 0 {
                let r = alloc_range(Size::from_bytes(off), l.size);
                // wholly uninitialised
                let some = (0..l.size.bytes()).any(|i| {
                    a.init_mask()
                        .is_range_initialized(alloc_range(Size::from_bytes(off + i), Size::from_bytes(1)))
                        .is_ok()
                });
                let _ = r;
                if !some {
                    return Ok(Value::Uninit);
                }
            }
        }
        let cx = LayoutCx::new(tcx, env());
        match t.kind() {
            ty::Adt(d, args) if d.is_enum() => {
                let fields = |me: &mut Self, vi: VariantIdx| -> Res<Vec<Value<'tcx>>> {
                    let vl = l.for_variant(&cx, vi);
                    let mut out = vec![];
                    for (i, f) in d.variant(vi).fields.iter().enumerate() {
                        let ft = field_ty(tcx, f, args);
                        let fo = vl.fields.offset(i).bytes();
                        out.push(me.decode(ft, s, off + fo)?);
                    }
                    Ok(out)
                };
                match &l.variants {
                    Variants::Empty => Ok(Value::Uninit),
                    Variants::Single { index } => {
                        let f = fields(self, *index)?;
                        Ok(Value::Enum1(index.as_u32(), Rc::new(f)))
                    }
                    Variants::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let to = l.fields.offset(tag_field.as_usize()).bytes();
                        let tsz = tag.size(&tcx).bytes();
                        if self.src_ptr(s, off + to).is_some() {
                            if let TagEncoding::Niche { untagged_variant, .. } = tag_encoding {
                                let f = fields(self, *untagged_variant)?;
                                return Ok(Value::Enum1(untagged_variant.as_u32(), Rc::new(f)));
                            }
                        }
                        let Some(tb) = self.src_bits(s, off + to, tsz) else { return Ok(Value::Uninit) };
                        let w = (tsz * 8) as u16;
                        let mut out: Vec<Alt<'tcx>> = vec![];
                        let mut rest = T;
                        let all: Vec<VariantIdx> = variants.indices().collect();
                        match tag_encoding {
                            TagEncoding::Direct => {
                                for vi in all {
                                    let dv = d.discriminant_for_variant(tcx, vi).val & mask(w);
                                    let g = self.dom.eq_const(&tb, dv);
                                    if g == F {
                                        continue;
                                    }
                                    let f = fields(self, vi)?;
                                    out.push(Alt { g, var: vi.as_u32(), f: Rc::new(f) });
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                for vi in all {
                                    if vi == *untagged_variant || vi.as_u32() < niche_variants.start.as_u32() || vi.as_u32() > niche_variants.last.as_u32() {
                                        continue;
                                    }
                                    let rel = (vi.as_u32() - niche_variants.start.as_u32()) as u128;
                                    let val = niche_start.wrapping_add(rel) & mask(w);
                                    let g = self.dom.eq_const(&tb, val);
                                    if g == F {
                                        continue;
                                    }
                                    let ng = self.dom.bdd.not(g);
                                    rest = self.dom.bdd.and(rest, ng);
                                    let f = fields(self, vi)?;
                                    out.push(Alt { g, var: vi.as_u32(), f: Rc::new(f) });
                                }
                                if rest != F {
                                    let f = fields(self, *untagged_variant)?;
                                    out.push(Alt { g: rest, var: untagged_variant.as_u32(), f: Rc::new(f) });
                                }
                            }
                        }
                        out.sort_by_key(|a| a.var);
                        if out.is_empty() {
                            return Err(self.abort(format!("no variant of {t} matches the tag")));
                        }
                        Ok(from_alts(out))
                    }
                }
            }
            ty::Adt(d, args) => {
                if let Some(r) = crate::models::decode_special(self, t, s, off)? {
                    return Ok(r);
                }
                if let Some(i) = transparent(tcx, t) {
                    let f = &d.non_enum_variant().fields[FieldIdx::from_usize(i)];
                    let ft = field_ty(tcx, f, args);
                    return self.decode(ft, s, off + l.fields.offset(i).bytes());
                }
                let mut out = vec![];
                for (i, f) in d.non_enum_variant().fields.iter().enumerate() {
                    let ft = field_ty(tcx, f, args);
                    out.push(self.decode(ft, s, off + l.fields.offset(i).bytes())?);
                }
                Ok(Value::agg(out))
            }
            ty::Tuple(ts) => {
                let mut out = vec![];
                for (i, ft) in ts.iter().enumerate() {
                    out.push(self.decode(ft, s, off + l.fields.offset(i).bytes())?);
                }
                Ok(Value::agg(out))
            }
            ty::Closure(_, a) => {
                let mut out = vec![];
                for (i, ft) in a.as_closure().upvar_tys().iter().enumerate() {
                    out.push(self.decode(ft, s, off + l.fields.offset(i).bytes())?);
                }
                Ok(Value::agg(out))
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                let sz = self.size_of(*e)?;
                let mut out = Vec::with_capacity(n as usize);
                for i in 0..n {
                    out.push(self.decode(*e, s, off + i * sz)?);
                }
                Ok(Value::agg(out))
            }
            _ => Ok(Value::top(format!("constant of type {t}"))),
        }
    }

    /// Bits of a value of type `t` (no pointers).
    pub fn encode(&mut self, v: &Value<'tcx>, t: Ty<'tcx>, out: &mut Vec<B>, off: u64) -> Res<()> {
        let tcx = self.tcx;
        if let Some(it) = int_ty(tcx, t) {
            if let Value::Uninit = v {
                return Ok(());
            }
            let b = self.int_bits(v, it.w)?;
            let o = (off * 8) as usize;
            out[o..o + b.len()].copy_from_slice(&b);
            return Ok(());
        }
        let t = peel(tcx, t);
        if int_ty(tcx, t).is_some() {
            return self.encode(v, t, out, off);
        }
        let l = self.layout(t)?;
        if l.is_zst() {
            return Ok(());
        }
        match t.kind() {
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                let sz = self.size_of(*e)?;
                for i in 0..n {
                    let x = get_slow(&mut self.dom, v, &[Proj::Elem(i)]).map_err(|m| self.abort(m))?;
                    self.encode(&x, *e, out, off + i * sz)?;
                }
                Ok(())
            }
            ty::Tuple(ts) => {
                for (i, ft) in ts.iter().enumerate() {
                    let x = get_slow(&mut self.dom, v, &[Proj::Field(i as u32)]).map_err(|m| self.abort(m))?;
                    self.encode(&x, ft, out, off + l.fields.offset(i).bytes())?;
                }
                Ok(())
            }
            ty::Adt(d, args) if d.is_struct() => {
                for (i, f) in d.non_enum_variant().fields.iter().enumerate() {
                    let ft = field_ty(tcx, f, args);
                    let x = get_slow(&mut self.dom, v, &[Proj::Field(i as u32)]).map_err(|m| self.abort(m))?;
                    self.encode(&x, ft, out, off + l.fields.offset(i).bytes())?;
                }
                Ok(())
            }
            ty::Adt(d, _) if d.is_enum() => match &l.variants {
                Variants::Multiple { tag, tag_encoding: TagEncoding::Direct, tag_field, .. }
                    if d.variants().iter().all(|v| v.fields.is_empty()) =>
                {
                    let to = l.fields.offset(tag_field.as_usize()).bytes();
                    let w = tag.size(&tcx).bits() as u16;
                    let ds: Vec<u128> = d.discriminants(tcx).map(|x| x.1.val).collect();
                    let mut acc: Option<Value<'tcx>> = None;
                    for a in alts(v).iter().rev() {
                        let x = Value::Int(w, ds[a.var as usize] & mask(w));
                        acc = Some(match acc {
                            None => x,
                            Some(y) => self.dom.ite(a.g, &x, &y),
                        });
                    }
                    let Some(x) = acc else { return Err(self.abort("bits of an unknown enum")) };
                    let b = self.int_bits(&x, w)?;
                    let o = ((off + to) * 8) as usize;
                    out[o..o + b.len()].copy_from_slice(&b);
                    Ok(())
                }
                _ => Err(self.abort(format!("bits of {t}"))),
            },
            _ => Err(self.abort(format!("bits of {t}"))),
        }
    }

    pub fn transmute(&mut self, v: Value<'tcx>, f: Ty<'tcx>, t: Ty<'tcx>) -> Res<Value<'tcx>> {
        let tcx = self.tcx;
        if f == t {
            return Ok(v);
        }
        if let Value::Uninit | Value::Top(_) = v {
            return Ok(v);
        }
        let (pf, pt) = (peel(tcx, f), peel(tcx, t));
        if pf == pt {
            return Ok(v);
        }
        let isptr = |t: Ty<'tcx>| matches!(t.kind(), ty::Ref(..) | ty::RawPtr(..) | ty::FnPtr(..));
        if isptr(pf) && isptr(pt) {
            return self.ptr_to_ptr(v, pf, pt);
        }
        if isptr(pt) || isptr(pf) {
            // integer without provenance to pointer, Option<&T> and the like
            if int_ty(tcx, pf).is_some() {
                return Ok(v);
            }
            if let (ty::Adt(d, _), Value::Enum1(n, fs)) = (pf.kind(), &v) {
                let _ = d;
                if fs.len() == 1 {
                    return Ok(fs[0].clone());
                }
                return Ok(Value::usize(*n as u64));
            }
            if let ty::Adt(d, _) = pt.kind() {
                if d.is_enum() && def_is_option(self.tcx, d.did()) {
                    return Ok(match v {
                        Value::Int(_, 0) => Value::none(),
                        v => Value::some(v),
                    });
                }
            }
            if int_ty(tcx, pt).is_some() {
                if let Value::Ref(_) = v {
                    return Ok(Value::top("address of a place"));
                }
            }
            return Ok(v);
        }
        if let (ty::Array(a, n), ty::Array(b, m)) = (pf.kind(), pt.kind()) {
            let (n, m) = (n.try_to_target_usize(tcx), m.try_to_target_usize(tcx));
            if n == m && self.size_of(*a)? == self.size_of(*b)? {
                if let Value::Agg(fs) = &v {
                    let mut out = vec![];
                    for x in fs.iter() {
                        out.push(self.transmute(x.clone(), *a, *b)?);
                    }
                    return Ok(Value::agg(out));
                }
            }
        }
        let sz = self.size_of(f)?;
        let mut bits = vec![F; (sz * 8) as usize];
        self.encode(&v, f, &mut bits, 0)?;
        self.decode(t, &Src::Bits(&bits), 0)
    }

    // ---------------------------------------------------------------- inputs

    /// An unconstrained value of type `t`: every representable value of the type.
    pub fn any(&mut self, t: Ty<'tcx>, name: &str) -> Res<Value<'tcx>> {
        // first the tags, then all integer leaves with their bits interleaved
        let mut leaves: Vec<(String, u16)> = vec![];
        self.collect_leaves(t, name, &mut leaves)?;
        let maxw = leaves.iter().map(|l| l.1).max().unwrap_or(0);
        let mut bits: Vec<Vec<u32>> = leaves.iter().map(|l| vec![0; l.1 as usize]).collect();
        for b in 0..maxw.min(32) {
            for (i, l) in leaves.iter().enumerate() {
                let mut k = b;
                while k < l.1 {
                    bits[i][k as usize] = self.next_var;
                    self.next_var += 1;
                    k += 32;
                }
            }
        }
        let mut it = 0;
        let v = self.build_any(t, &bits, &mut it)?;
        for (l, b) in leaves.into_iter().zip(bits) {
            self.leaves.push(Leaf { name: l.0, bits: b });
        }
        Ok(v)
    }

    /// Two arbitrary values of one type, their bits side by side.
    pub fn any_pair(&mut self, t: Ty<'tcx>) -> Res<(Value<'tcx>, Value<'tcx>)> {
        let mut leaves: Vec<(String, u16)> = vec![];
        self.collect_leaves(t, "", &mut leaves)?;
        let (mut x, mut y) = (vec![], vec![]);
        for l in &leaves {
            let v = self.next_var;
            self.next_var += 2 * l.1 as u32;
            x.push((0..l.1 as u32).map(|i| v + 2 * i).collect::<Vec<_>>());
            y.push((0..l.1 as u32).map(|i| v + 2 * i + 1).collect::<Vec<_>>());
        }
        Ok((self.build_any(t, &x, &mut 0)?, self.build_any(t, &y, &mut 0)?))
    }

    fn collect_leaves(&mut self, t: Ty<'tcx>, name: &str, out: &mut Vec<(String, u16)>) -> Res<()> {
        let tcx = self.tcx;
        if let Some(it) = int_ty(tcx, t) {
            out.push((name.to_string(), it.w));
            return Ok(());
        }
        match t.kind() {
            ty::Adt(d, args) if d.is_enum() => {
                let n = d.variants().len();
                let k = bits_for(n);
                if k > 0 {
                    out.push((format!("{name}.variant"), k));
                }
                for v in d.variants() {
                    for f in &v.fields {
                        let ft = field_ty(tcx, f, args);
                        self.collect_leaves(ft, &format!("{name}.{}.{}", v.name, f.name), out)?;
                    }
                }
                Ok(())
            }
            ty::Adt(d, args) if d.is_struct() => {
                for f in &d.non_enum_variant().fields {
                    let ft = field_ty(tcx, f, args);
                    if transparent(tcx, t).is_some() && is_zst(tcx, ft) {
                        continue;
                    }
                    self.collect_leaves(ft, &format!("{name}.{}", f.name), out)?;
                }
                Ok(())
            }
            ty::Tuple(ts) => {
                for (i, ft) in ts.iter().enumerate() {
                    self.collect_leaves(ft, &format!("{name}.{i}"), out)?;
                }
                Ok(())
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                for i in 0..n {
                    self.collect_leaves(*e, &format!("{name}[{i}]"), out)?;
                }
                Ok(())
            }
            _ => Err(self.abort(format!("unconstrained value of type {t}"))),
        }
    }

    fn build_any(&mut self, t: Ty<'tcx>, bits: &[Vec<u32>], it: &mut usize) -> Res<Value<'tcx>> {
        let tcx = self.tcx;
        if int_ty(tcx, t).is_some() {
            let b = &bits[*it];
            *it += 1;
            let v = b.iter().map(|x| self.dom.bdd.var(*x)).collect();
            return Ok(Dom::from_bits(v));
        }
        match t.kind() {
            ty::Adt(d, args) if d.is_enum() => {
                let n = d.variants().len();
                let tag: Vec<B> = if bits_for(n) > 0 {
                    let b = bits[*it].clone();
                    *it += 1;
                    b.iter().map(|x| self.dom.bdd.var(*x)).collect()
                } else {
                    vec![]
                };
                let mut out = vec![];
                let mut rest = T;
                for (i, v) in d.variants().iter().enumerate() {
                    let mut f = vec![];
                    for fd in &v.fields {
                        let ft = field_ty(tcx, fd, args);
                        f.push(self.build_any(ft, bits, it)?);
                    }
                    let g = if i + 1 == n {
                        rest
                    } else {
                        let g = self.dom.eq_const(&tag, i as u128);
                        let ng = self.dom.bdd.not(g);
                        rest = self.dom.bdd.and(rest, ng);
                        g
                    };
                    out.push(Alt { g, var: i as u32, f: Rc::new(f) });
                }
                Ok(from_alts(out))
            }
            ty::Adt(d, args) if d.is_struct() => {
                let tr = transparent(tcx, t);
                let mut f = vec![];
                for fd in &d.non_enum_variant().fields {
                    let ft = field_ty(tcx, fd, args);
                    if tr.is_some() && is_zst(tcx, ft) {
                        continue;
                    }
                    f.push(self.build_any(ft, bits, it)?);
                }
                if tr.is_some() {
                    return Ok(f.pop().unwrap());
                }
                Ok(Value::agg(f))
            }
            ty::Tuple(ts) => {
                let mut f = vec![];
                for ft in ts.iter() {
                    f.push(self.build_any(ft, bits, it)?);
                }
                Ok(Value::agg(f))
            }
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(0);
                let mut f = vec![];
                for _ in 0..n {
                    f.push(self.build_any(*e, bits, it)?);
                }
                Ok(Value::agg(f))
            }
            _ => Err(self.abort(format!("unconstrained value of type {t}"))),
        }
    }
}

fn bits_for(n: usize) -> u16 {
    let mut k = 0;
    while (1usize << k) < n {
        k += 1;
    }
    k
}

fn def_is_option(tcx: ty::TyCtxt<'_>, d: DefId) -> bool {
    tcx.lang_items().option_type() == Some(d)
}
