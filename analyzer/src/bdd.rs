//! A small reduced ordered BDD package: the lattice element "boolean function of
//! the unconstrained inputs" that the abstract domain attaches to every bit.

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type B = u32;
pub const F: B = 0;
pub const T: B = 1;

#[derive(Clone, Copy)]
struct Node {
    var: u32,
    lo: B,
    hi: B,
}

pub struct Bdd {
    nodes: Vec<Node>,
    unique: FxMap<(u32, B, B), B>,
    ite_cache: FxMap<(B, B, B), B>,
    pub limit: usize,
    pub overflowed: bool,
}

const TERM: u32 = u32::MAX;

impl Bdd {
    pub fn new(limit: usize) -> Bdd {
        Bdd {
            nodes: vec![Node { var: TERM, lo: 0, hi: 0 }, Node { var: TERM, lo: 1, hi: 1 }],
            unique: Default::default(),
            ite_cache: Default::default(),
            limit,
            overflowed: false,
        }
    }
    pub fn size(&self) -> usize {
        self.nodes.len()
    }
    fn mk(&mut self, var: u32, lo: B, hi: B) -> B {
        if lo == hi {
            return lo;
        }
        if let Some(&n) = self.unique.get(&(var, lo, hi)) {
            return n;
        }
        let id = self.nodes.len() as B;
        self.nodes.push(Node { var, lo, hi });
        self.unique.insert((var, lo, hi), id);
        id
    }
    pub fn var(&mut self, v: u32) -> B {
        self.mk(v, F, T)
    }
    #[inline]
    fn cof(&self, n: B, v: u32) -> (B, B) {
        let x = self.nodes[n as usize];
        if x.var == v {
            (x.lo, x.hi)
        } else {
            (n, n)
        }
    }
    pub fn ite(&mut self, c: B, a: B, b: B) -> B {
        if c == T {
            return a;
        }
        if c == F {
            return b;
        }
        if a == b {
            return a;
        }
        if a == T && b == F {
            return c;
        }
        let (c, a, b) = {
            let a = if a == c { T } else { a };
            let b = if b == c { F } else { b };
            (c, a, b)
        };
        if a == b {
            return a;
        }
        if a == T && b == F {
            return c;
        }
        if self.nodes.len() > self.limit {
            self.overflowed = true;
            return F;
        }
        if let Some(&r) = self.ite_cache.get(&(c, a, b)) {
            return r;
        }
        let v = self.nodes[c as usize].var.min(self.nodes[a as usize].var).min(self.nodes[b as usize].var);
        let (c0, c1) = self.cof(c, v);
        let (a0, a1) = self.cof(a, v);
        let (b0, b1) = self.cof(b, v);
        let lo = self.ite(c0, a0, b0);
        let hi = self.ite(c1, a1, b1);
        let r = self.mk(v, lo, hi);
        self.ite_cache.insert((c, a, b), r);
        r
    }
    pub fn not(&mut self, a: B) -> B {
        if a < 2 {
            return 1 - a;
        }
        self.ite(a, F, T)
    }
    pub fn and(&mut self, a: B, b: B) -> B {
        if a == F || b == F {
            return F;
        }
        if a == T {
            return b;
        }
        if b == T || a == b {
            return a;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.ite(a, b, F)
    }
    pub fn or(&mut self, a: B, b: B) -> B {
        if a == T || b == T {
            return T;
        }
        if a == F {
            return b;
        }
        if b == F || a == b {
            return a;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.ite(a, T, b)
    }
    pub fn xor(&mut self, a: B, b: B) -> B {
        if a == F {
            return b;
        }
        if b == F {
            return a;
        }
        if a == b {
            return F;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        let nb = self.not(b);
        self.ite(a, nb, b)
    }
    pub fn xnor(&mut self, a: B, b: B) -> B {
        let x = self.xor(a, b);
        self.not(x)
    }
    pub fn implies(&mut self, a: B, b: B) -> bool {
        let nb = self.not(b);
        self.and(a, nb) == F
    }
    /// One satisfying assignment (var -> value), None when unsatisfiable. Prefers 0.
    pub fn witness(&self, mut n: B) -> Option<Vec<(u32, bool)>> {
        if n == F {
            return None;
        }
        let mut out = vec![];
        while n != T {
            let x = self.nodes[n as usize];
            if x.lo != F {
                out.push((x.var, false));
                n = x.lo;
            } else {
                out.push((x.var, true));
                n = x.hi;
            }
        }
        Some(out)
    }
    pub fn support(&self, n: B) -> Vec<u32> {
        let mut seen: FxMap<B, ()> = Default::default();
        let mut vars: FxMap<u32, ()> = Default::default();
        let mut st = vec![n];
        while let Some(n) = st.pop() {
            if n < 2 || seen.insert(n, ()).is_some() {
                continue;
            }
            let x = self.nodes[n as usize];
            vars.insert(x.var, ());
            st.push(x.lo);
            st.push(x.hi);
        }
        let mut v: Vec<u32> = vars.into_keys().collect();
        v.sort();
        v
    }
    /// Universally quantify away all variables for which `pred` holds:
    /// the result is true only if `n` is true whatever those variables are.
    pub fn forall(&mut self, n: B, pred: &dyn Fn(u32) -> bool) -> B {
        let mut memo: FxMap<B, B> = Default::default();
        self.forall_(n, pred, &mut memo)
    }
    fn forall_(&mut self, n: B, pred: &dyn Fn(u32) -> bool, memo: &mut FxMap<B, B>) -> B {
        if n < 2 {
            return n;
        }
        if let Some(&r) = memo.get(&n) {
            return r;
        }
        let x = self.nodes[n as usize];
        let lo = self.forall_(x.lo, pred, memo);
        let hi = self.forall_(x.hi, pred, memo);
        let r = if pred(x.var) {
            self.and(lo, hi)
        } else {
            self.mk(x.var, lo, hi)
        };
        memo.insert(n, r);
        r
    }
}
