//! Abstract values. Every integer bit is a constant or a boolean function (BDD) of the
//! unconstrained inputs; enums are unions of guarded alternatives; references are places.

use crate::bdd::*;
use rustc_middle::ty::{Instance, Ty};
use std::cell::RefCell;
use std::rc::Rc;

pub type Fields<'tcx> = Rc<Vec<Value<'tcx>>>;

#[derive(Clone, Debug)]
pub enum Value<'tcx> {
    Uninit,
    Int(u16, u128),
    Sym(Rc<Vec<B>>),
    Agg(Fields<'tcx>),
    Enum1(u32, Fields<'tcx>),
    EnumN(Rc<Vec<Alt<'tcx>>>),
    Ref(Rc<RefV<'tcx>>),
    Seq(Fields<'tcx>),
    Map(Rc<MapV<'tcx>>),
    Fn(Instance<'tcx>),
    Choice(Rc<Vec<(B, Value<'tcx>)>>),
    /// uninterpreted term: constructor name and arguments
    Term(Rc<(String, Vec<Value<'tcx>>)>),
    Top(Rc<String>),
}

#[derive(Clone, Debug)]
pub struct Alt<'tcx> {
    pub g: B,
    pub var: u32,
    pub f: Fields<'tcx>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Proj {
    Field(u32),
    VField(u32, u32),
    Elem(u64),
    ElemSym(Rc<Vec<B>>),
}

#[derive(Clone, Debug)]
pub enum Meta<'tcx> {
    None,
    Slice(Value<'tcx>, Value<'tcx>),
    Dyn(Ty<'tcx>),
}

pub const HEAP: u32 = 1 << 31;

#[derive(Clone, Debug)]
pub struct RefV<'tcx> {
    pub cell: u32,
    pub proj: Vec<Proj>,
    pub meta: Meta<'tcx>,
}

#[derive(Clone, Debug, Default)]
pub struct MapV<'tcx> {
    pub entries: Vec<(Value<'tcx>, Value<'tcx>)>,
    pub index: std::collections::HashMap<Vec<u64>, usize>,
    pub sorted: bool,
}

thread_local! {
    static EMPTY: RefCell<Option<Rc<Vec<Value<'static>>>>> = RefCell::new(None);
}

pub fn empty<'tcx>() -> Fields<'tcx> {
    EMPTY.with(|e| {
        let mut e = e.borrow_mut();
        let r = e.get_or_insert_with(|| Rc::new(vec![])).clone();
        // an empty vector holds no 'tcx data
        unsafe { std::mem::transmute::<Rc<Vec<Value<'static>>>, Rc<Vec<Value<'tcx>>>>(r) }
    })
}

impl<'tcx> Value<'tcx> {
    pub fn unit() -> Value<'tcx> {
        Value::Agg(empty())
    }
    pub fn agg(v: Vec<Value<'tcx>>) -> Value<'tcx> {
        Value::Agg(Rc::new(v))
    }
    pub fn usize(n: u64) -> Value<'tcx> {
        Value::Int(64, n as u128)
    }
    pub fn bool(b: bool) -> Value<'tcx> {
        Value::Int(1, b as u128)
    }
    pub fn none() -> Value<'tcx> {
        Value::Enum1(0, empty())
    }
    pub fn some(v: Value<'tcx>) -> Value<'tcx> {
        Value::Enum1(1, Rc::new(vec![v]))
    }
    pub fn top(s: impl Into<String>) -> Value<'tcx> {
        Value::Top(Rc::new(s.into()))
    }
    pub fn term(n: &str, a: Vec<Value<'tcx>>) -> Value<'tcx> {
        Value::Term(Rc::new((n.to_string(), a)))
    }
    pub fn as_const(&self) -> Option<u128> {
        match self {
            Value::Int(_, v) => Some(*v),
            _ => None,
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Value::Uninit => "uninit",
            Value::Int(..) => "int",
            Value::Sym(..) => "sym",
            Value::Agg(..) => "agg",
            Value::Enum1(..) => "enum1",
            Value::EnumN(..) => "enumN",
            Value::Ref(..) => "ref",
            Value::Seq(..) => "seq",
            Value::Map(..) => "map",
            Value::Fn(..) => "fn",
            Value::Choice(..) => "choice",
            Value::Term(..) => "term",
            Value::Top(..) => "top",
        }
    }
    pub fn refv(cell: u32, proj: Vec<Proj>, meta: Meta<'tcx>) -> Value<'tcx> {
        Value::Ref(Rc::new(RefV { cell, proj, meta }))
    }
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext(w: u16, v: u128) -> i128 {
    if w == 0 || w >= 128 {
        return v as i128;
    }
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

/// Structural identity (not semantic equality): used to avoid building choices.
pub fn same<'t>(a: &Value<'t>, b: &Value<'t>) -> bool {
    match (a, b) {
        (Value::Uninit, Value::Uninit) => true,
        (Value::Int(w, x), Value::Int(u, y)) => w == u && x == y,
        (Value::Sym(x), Value::Sym(y)) => Rc::ptr_eq(x, y) || x == y,
        (Value::Agg(x), Value::Agg(y)) | (Value::Seq(x), Value::Seq(y)) => {
            Rc::ptr_eq(x, y) || (x.len() == y.len() && x.iter().zip(y.iter()).all(|(a, b)| same(a, b)))
        }
        (Value::Enum1(v, x), Value::Enum1(u, y)) => {
            v == u && (Rc::ptr_eq(x, y) || (x.len() == y.len() && x.iter().zip(y.iter()).all(|(a, b)| same(a, b))))
        }
        (Value::EnumN(x), Value::EnumN(y)) => {
            Rc::ptr_eq(x, y)
                || (x.len() == y.len()
                    && x.iter().zip(y.iter()).all(|(a, b)| {
                        a.g == b.g
                            && a.var == b.var
                            && a.f.len() == b.f.len()
                            && a.f.iter().zip(b.f.iter()).all(|(a, b)| same(a, b))
                    }))
        }
        (Value::Ref(x), Value::Ref(y)) => {
            Rc::ptr_eq(x, y) || (x.cell == y.cell && x.proj == y.proj && same_meta(&x.meta, &y.meta))
        }
        (Value::Map(x), Value::Map(y)) => Rc::ptr_eq(x, y),
        (Value::Fn(x), Value::Fn(y)) => x == y,
        (Value::Term(x), Value::Term(y)) => {
            Rc::ptr_eq(x, y)
                || (x.0 == y.0 && x.1.len() == y.1.len() && x.1.iter().zip(y.1.iter()).all(|(a, b)| same(a, b)))
        }
        (Value::Choice(x), Value::Choice(y)) => {
            Rc::ptr_eq(x, y)
                || (x.len() == y.len() && x.iter().zip(y.iter()).all(|(a, b)| a.0 == b.0 && same(&a.1, &b.1)))
        }
        (Value::Top(x), Value::Top(y)) => Rc::ptr_eq(x, y),
        _ => false,
    }
}

pub fn same_meta<'t>(a: &Meta<'t>, b: &Meta<'t>) -> bool {
    match (a, b) {
        (Meta::None, Meta::None) => true,
        (Meta::Slice(a, b), Meta::Slice(c, d)) => same(a, c) && same(b, d),
        (Meta::Dyn(a), Meta::Dyn(b)) => a == b,
        _ => false,
    }
}

/// Bit-level operations of the domain.
pub struct Dom {
    pub bdd: Bdd,
}

impl Dom {
    pub fn bits<'t>(&mut self, v: &Value<'t>) -> Option<Vec<B>> {
        match v {
            Value::Int(w, x) => Some((0..*w).map(|i| ((x >> i) & 1) as B).collect()),
            Value::Sym(b) => Some((**b).clone()),
            _ => None,
        }
    }
    pub fn width<'t>(v: &Value<'t>) -> Option<u16> {
        match v {
            Value::Int(w, _) => Some(*w),
            Value::Sym(b) => Some(b.len() as u16),
            _ => None,
        }
    }
    pub fn from_bits<'t>(b: Vec<B>) -> Value<'t> {
        if b.iter().all(|x| *x < 2) {
            let mut v = 0u128;
            for (i, x) in b.iter().enumerate() {
                v |= (*x as u128) << i;
            }
            Value::Int(b.len() as u16, v)
        } else {
            Value::Sym(Rc::new(b))
        }
    }
    pub fn bool_of<'t>(b: B) -> Value<'t> {
        if b < 2 {
            Value::Int(1, b as u128)
        } else {
            Value::Sym(Rc::new(vec![b]))
        }
    }
    pub fn eq_bits(&mut self, a: &[B], b: &[B]) -> B {
        let mut r = T;
        // from the last (least significant in order) to keep the diagrams small
        for (x, y) in a.iter().zip(b.iter()) {
            let e = self.bdd.xnor(*x, *y);
            r = self.bdd.and(r, e);
            if r == F {
                return F;
            }
        }
        r
    }
    pub fn eq_const(&mut self, a: &[B], c: u128) -> B {
        let mut r = T;
        for (i, x) in a.iter().enumerate() {
            let e = if (c >> i) & 1 == 1 { *x } else { self.bdd.not(*x) };
            r = self.bdd.and(r, e);
            if r == F {
                return F;
            }
        }
        r
    }
    /// (sum, carry out)
    pub fn add(&mut self, a: &[B], b: &[B], cin: B) -> (Vec<B>, B, B) {
        let mut c = cin;
        let mut prev = cin;
        let mut out = Vec::with_capacity(a.len());
        for (x, y) in a.iter().zip(b.iter()) {
            let xy = self.bdd.xor(*x, *y);
            out.push(self.bdd.xor(xy, c));
            prev = c;
            let g = self.bdd.and(*x, *y);
            let p = self.bdd.and(xy, c);
            c = self.bdd.or(g, p);
        }
        (out, c, prev)
    }
    pub fn not_bits(&mut self, a: &[B]) -> Vec<B> {
        a.iter().map(|x| self.bdd.not(*x)).collect()
    }
    pub fn ult(&mut self, a: &[B], b: &[B]) -> B {
        // a < b, least significant first
        let mut r = F;
        for (x, y) in a.iter().zip(b.iter()) {
            let eq = self.bdd.xnor(*x, *y);
            r = self.bdd.ite(eq, r, *y);
        }
        r
    }
    pub fn lt(&mut self, a: &[B], b: &[B], signed: bool) -> B {
        if !signed || a.is_empty() {
            return self.ult(a, b);
        }
        let mut a = a.to_vec();
        let mut b = b.to_vec();
        let n = a.len() - 1;
        a[n] = self.bdd.not(a[n]);
        b[n] = self.bdd.not(b[n]);
        self.ult(&a, &b)
    }
    pub fn ite_bits(&mut self, c: B, a: &[B], b: &[B]) -> Vec<B> {
        a.iter().zip(b.iter()).map(|(x, y)| self.bdd.ite(c, *x, *y)).collect()
    }
    pub fn zext(&self, a: &[B], n: usize) -> Vec<B> {
        let mut v = a.to_vec();
        v.resize(n, F);
        v
    }
    /// two's complement negation
    pub fn negate(&mut self, a: &[B]) -> Vec<B> {
        let n = self.not_bits(a);
        let zero = vec![F; a.len()];
        self.add(&n, &zero, T).0
    }
    /// absolute value of a signed number, as an unsigned one of the same width
    pub fn magnitude(&mut self, a: &[B]) -> Vec<B> {
        let n = self.negate(a);
        self.ite_bits(a[a.len() - 1], &n, a)
    }
    /// full product, 2w bits wide, unsigned
    pub fn mul(&mut self, a: &[B], b: &[B]) -> Vec<B> {
        let w = a.len();
        let mut acc = vec![F; 2 * w];
        let (a, b) = if b.iter().filter(|x| **x != F).count() <= a.iter().filter(|x| **x != F).count() {
            (a, b)
        } else {
            (b, a)
        };
        for (i, y) in b.iter().enumerate() {
            if *y == F {
                continue;
            }
            let mut row = vec![F; 2 * w];
            for (j, x) in a.iter().enumerate() {
                row[i + j] = self.bdd.and(*x, *y);
            }
            acc = self.add(&acc, &row, F).0;
        }
        acc
    }
    /// unsigned division (b known non-zero): (quotient, remainder)
    pub fn divrem(&mut self, a: &[B], b: &[B]) -> (Vec<B>, Vec<B>) {
        let w = a.len();
        let mut rem = vec![F; w + 1];
        let bx = self.zext(b, w + 1);
        let nb = self.not_bits(&bx);
        let mut q = vec![F; w];
        for i in (0..w).rev() {
            rem.pop();
            rem.insert(0, a[i]);
            let (d, c, _) = self.add(&rem, &nb, T);
            q[i] = c; // carry means rem >= b
            rem = self.ite_bits(c, &d, &rem);
        }
        rem.truncate(w);
        (q, rem)
    }
    pub fn ite<'t>(&mut self, c: B, a: &Value<'t>, b: &Value<'t>) -> Value<'t> {
        if c == T {
            return a.clone();
        }
        if c == F {
            return b.clone();
        }
        if same(a, b) {
            return a.clone();
        }
        match (a, b) {
            (Value::Uninit, x) | (x, Value::Uninit) => x.clone(),
            (Value::Top(_), _) => a.clone(),
            (_, Value::Top(_)) => b.clone(),
            (Value::Int(..) | Value::Sym(..), Value::Int(..) | Value::Sym(..))
                if Dom::width(a) == Dom::width(b) =>
            {
                let x = self.bits(a).unwrap();
                let y = self.bits(b).unwrap();
                Dom::from_bits(self.ite_bits(c, &x, &y))
            }
            (Value::Agg(x), Value::Agg(y)) if x.len() == y.len() => {
                Value::Agg(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| self.ite(c, p, q)).collect()))
            }
            (Value::Seq(x), Value::Seq(y)) if x.len() == y.len() => {
                Value::Seq(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| self.ite(c, p, q)).collect()))
            }
            (Value::Enum1(..) | Value::EnumN(..), Value::Enum1(..) | Value::EnumN(..)) => {
                let x = alts(a);
                let y = alts(b);
                let nc = self.bdd.not(c);
                let mut out: Vec<Alt<'t>> = vec![];
                let mut vars: Vec<u32> = x.iter().chain(y.iter()).map(|a| a.var).collect();
                vars.sort();
                vars.dedup();
                for v in vars {
                    let p = x.iter().find(|a| a.var == v);
                    let q = y.iter().find(|a| a.var == v);
                    let alt = match (p, q) {
                        (Some(p), Some(q)) => {
                            let n = p.f.len().max(q.f.len());
                            let u = Value::Uninit;
                            let mut f = vec![];
                            for i in 0..n {
                                f.push(self.ite(c, p.f.get(i).unwrap_or(&u), q.f.get(i).unwrap_or(&u)));
                            }
                            let g = self.bdd.ite(c, p.g, q.g);
                            Alt { g, var: v, f: Rc::new(f) }
                        }
                        (Some(p), None) => Alt { g: self.bdd.and(c, p.g), var: v, f: p.f.clone() },
                        (None, Some(q)) => Alt { g: self.bdd.and(nc, q.g), var: v, f: q.f.clone() },
                        _ => unreachable!(),
                    };
                    if alt.g != F {
                        out.push(alt);
                    }
                }
                from_alts(out)
            }
            (Value::Ref(x), Value::Ref(y)) => {
                if x.cell == y.cell && x.proj.len() == y.proj.len() {
                    let diff: Vec<usize> = (0..x.proj.len()).filter(|i| x.proj[*i] != y.proj[*i]).collect();
                    let meta = match (&x.meta, &y.meta) {
                        (m, n) if same_meta(m, n) => Some(m.clone()),
                        (Meta::Slice(s, l), Meta::Slice(s2, l2)) => {
                            Some(Meta::Slice(self.ite(c, s, s2), self.ite(c, l, l2)))
                        }
                        _ => None,
                    };
                    if let Some(meta) = meta {
                        if diff.is_empty() {
                            return Value::refv(x.cell, x.proj.clone(), meta);
                        }
                        if diff.len() == 1 {
                            let i = diff[0];
                            let p = proj_idx(&x.proj[i]);
                            let q = proj_idx(&y.proj[i]);
                            if let (Some(p), Some(q)) = (p, q) {
                                let m = self.ite_bits(c, &p, &q);
                                let mut proj = x.proj.clone();
                                proj[i] = Proj::ElemSym(Rc::new(m));
                                return Value::refv(x.cell, proj, meta);
                            }
                        }
                    }
                }
                self.choice(c, a, b)
            }
            (Value::Term(x), Value::Term(y)) if x.0 == y.0 && x.1.len() == y.1.len() => {
                let f = x.1.iter().zip(y.1.iter()).map(|(p, q)| self.ite(c, p, q)).collect();
                Value::Term(Rc::new((x.0.clone(), f)))
            }
            _ => self.choice(c, a, b),
        }
    }
    fn choice<'t>(&mut self, c: B, a: &Value<'t>, b: &Value<'t>) -> Value<'t> {
        let nc = self.bdd.not(c);
        let mut out: Vec<(B, Value<'t>)> = vec![];
        for (g0, v) in [(c, a), (nc, b)] {
            let one;
            let list: &[(B, Value<'t>)] = match v {
                Value::Choice(l) => l,
                _ => {
                    one = [(T, v.clone())];
                    &one
                }
            };
            for (g, v) in list {
                let g = self.bdd.and(g0, *g);
                if g == F {
                    continue;
                }
                if let Some(e) = out.iter_mut().find(|e| same(&e.1, v)) {
                    e.0 = self.bdd.or(e.0, g);
                } else {
                    out.push((g, v.clone()));
                }
            }
        }
        if out.len() == 1 {
            return out.pop().unwrap().1;
        }
        Value::Choice(Rc::new(out))
    }
}

pub fn proj_idx(p: &Proj) -> Option<Vec<B>> {
    match p {
        Proj::Elem(i) => Some((0..64).map(|k| ((i >> k) & 1) as B).collect()),
        Proj::ElemSym(b) => Some((**b).clone()),
        _ => None,
    }
}

pub fn alts<'t>(v: &Value<'t>) -> Vec<Alt<'t>> {
    match v {
        Value::Enum1(n, f) => vec![Alt { g: T, var: *n, f: f.clone() }],
        Value::EnumN(a) => (**a).clone(),
        _ => vec![],
    }
}

pub fn from_alts<'t>(mut out: Vec<Alt<'t>>) -> Value<'t> {
    if out.len() == 1 {
        let a = out.pop().unwrap();
        return Value::Enum1(a.var, a.f);
    }
    Value::EnumN(Rc::new(out))
}
