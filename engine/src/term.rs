//! Hash-consed integer terms and boolean conditions over the symbolic input variables.
//!
//! A term is an integer polynomial expression (plus if-then-else) over bounded integer variables.
//! Terms are interned structurally, and carry an algebraic fingerprint (evaluation at a fixed random point
//! of two prime fields, 123 bits), so algebraically equal polynomials are recognised: the sign of a
//! polynomial that the path already decided is not decided again. The thread-local arena persists over
//! the re-executions of one harness.

use std::cell::RefCell;
use std::collections::HashMap;

pub type T = u32;
pub type B = u32;

pub const NEG: u8 = 1;
pub const ZER: u8 = 2;
pub const POS: u8 = 4;

pub const B_FALSE: B = 0;
pub const B_TRUE: B = 1;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Node {
    Const(i128),
    Var(u32),
    Add(T, T),
    Sub(T, T),
    Mul(T, T),
    Neg(T),
    Ite(B, T, T),
    /// max(1,|t|): the absolute value of a term known to be non-zero on the path
    AbsNz(T),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BNode {
    False,
    True,
    /// sign of the term is in the mask
    Sgn(T, u8),
    And(B, B),
    Or(B, B),
}

pub type Fp = [u64; 2];
/// two primes, 2^61-1 and 2^62-57
const P: [u64; 2] = [(1 << 61) - 1, (1 << 62) - 57];
fn addp(a: u64, b: u64, p: u64) -> u64 {
    let s = a + b;
    if s >= p { s - p } else { s }
}
fn subp(a: u64, b: u64, p: u64) -> u64 {
    if a >= b { a - b } else { a + p - b }
}
fn mulp(a: u64, b: u64, p: u64) -> u64 {
    (((a as u128) * (b as u128)) % p as u128) as u64
}
fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
fn rnd(tag: u64, x: u64) -> Fp {
    let a = splitmix(splitmix(tag) ^ x);
    [a % P[0], splitmix(a ^ 0xABCDEF) % P[1]]
}
fn fp_const(c: i128) -> Fp {
    [c.rem_euclid(P[0] as i128) as u64, c.rem_euclid(P[1] as i128) as u64]
}
fn fadd(a: Fp, b: Fp) -> Fp {
    [addp(a[0], b[0], P[0]), addp(a[1], b[1], P[1])]
}
fn fsub(a: Fp, b: Fp) -> Fp {
    [subp(a[0], b[0], P[0]), subp(a[1], b[1], P[1])]
}
fn fmul(a: Fp, b: Fp) -> Fp {
    [mulp(a[0], b[0], P[0]), mulp(a[1], b[1], P[1])]
}
fn fneg(a: Fp) -> Fp {
    fsub([0, 0], a)
}
fn center(a: u64, p: u64) -> i128 {
    if a > p / 2 { a as i128 - p as i128 } else { a as i128 }
}
#[derive(Clone, Debug)]
pub struct TInfo {
    pub node: Node,
    pub lo: i128,
    pub hi: i128,
    pub fp: Fp,
    val: i128,
    epoch: u64,
}

pub struct VarInfo {
    pub name: String,
    pub lo: i64,
    pub hi: i64,
    pub term: T,
}

pub struct Arena {
    pub t: Vec<TInfo>,
    by_node: HashMap<Node, T>,
    pub b: Vec<BNode>,
    bval: Vec<(bool, u64)>,
    bfp: Vec<u64>,
    by_b: HashMap<BNode, B>,
    pub vars: Vec<VarInfo>,
    by_var: HashMap<(String, i64, i64), u32>,
    polys: HashMap<T, Option<std::rc::Rc<Poly>>>,
    factors: Vec<Poly>,
    prim: HashMap<T, (T, bool)>,
    pub model: Vec<i64>,
    epoch: u64,
}

/// expanded polynomial: sorted monomials (sorted lists of atoms) with their coefficients
pub type Poly = std::collections::BTreeMap<Vec<T>, i128>;
const POLY_TERMS: usize = 64;
/// signs of terms wider than this are taken without their constant factor
const SGN_BITS: u32 = 8;

#[derive(Debug)]
pub struct EngineError(pub String);

fn overflow() -> ! {
    std::panic::panic_any(EngineError("term range exceeds 120 bits".into()))
}
const LIM: i128 = 1 << 120;
fn chk(v: Option<i128>) -> i128 {
    match v {
        Some(x) if x > -LIM && x < LIM => x,
        _ => overflow(),
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            t: vec![],
            by_node: HashMap::new(),
            b: vec![BNode::False, BNode::True],
            bval: vec![(false, 0), (true, 0)],
            bfp: vec![11, 12],
            by_b: HashMap::new(),
            vars: vec![],
            by_var: HashMap::new(),
            polys: HashMap::new(),
            factors: vec![],
            prim: HashMap::new(),
            model: vec![],
            epoch: 1,
        };
        for c in -256..=256 {
            a.cst(c);
        }
        a
    }
    pub fn forget_factors(&mut self) {
        self.factors.clear();
    }
    pub fn set_model(&mut self, m: Vec<i64>) {
        self.model = m;
        self.epoch += 1;
    }
    fn intern(&mut self, node: Node, lo: i128, hi: i128, fp: Fp) -> T {
        if let Some(&t) = self.by_node.get(&node) {
            return t;
        }
        if !matches!(node, Node::Const(_)) {
            if lo == hi {
                return self.cst(lo);
            }
            // a polynomial without variables left
            let c = center(fp[0], P[0]);
            if c == center(fp[1], P[1]) && c.abs() < 1 << 50 && c >= lo && c <= hi {
                return self.cst(c);
            }
        }
        let id = self.t.len() as T;
        self.t.push(TInfo { node, lo, hi, fp, val: 0, epoch: 0 });
        self.by_node.insert(node, id);
        id
    }
    pub fn cst(&mut self, c: i128) -> T {
        chk(Some(c));
        self.intern(Node::Const(c), c, c, fp_const(c))
    }
    pub fn var(&mut self, name: &str, lo: i64, hi: i64) -> (u32, T) {
        let key = (name.to_string(), lo, hi);
        if let Some(&v) = self.by_var.get(&key) {
            return (v, self.vars[v as usize].term);
        }
        let v = self.vars.len() as u32;
        let term = self.intern(Node::Var(v), lo as i128, hi as i128, rnd(1, name.bytes().fold(lo as u64, |h, c| splitmix(h ^ c as u64))));
        self.vars.push(VarInfo { name: name.into(), lo, hi, term });
        self.by_var.insert(key, v);
        (v, term)
    }
    pub fn as_const(&self, t: T) -> Option<i128> {
        match self.t[t as usize].node {
            Node::Const(c) => Some(c),
            _ => None,
        }
    }
    pub fn range(&self, t: T) -> (i128, i128) {
        (self.t[t as usize].lo, self.t[t as usize].hi)
    }
    pub fn maxabs(&self, t: T) -> i128 {
        let (l, h) = self.range(t);
        l.abs().max(h.abs())
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let (x, y) = (&self.t[a as usize], &self.t[b as usize]);
        if let Node::Const(0) = x.node {
            return b;
        }
        if let Node::Const(0) = y.node {
            return a;
        }
        let (lo, hi, fp) = (
            chk(x.lo.checked_add(y.lo)),
            chk(x.hi.checked_add(y.hi)),
            fadd(x.fp, y.fp),
        );
        self.intern(Node::Add(a, b), lo, hi, fp)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let (x, y) = (&self.t[a as usize], &self.t[b as usize]);
        if let Node::Const(0) = y.node {
            return a;
        }
        let (lo, hi, fp) = (
            chk(x.lo.checked_sub(y.hi)),
            chk(x.hi.checked_sub(y.lo)),
            fsub(x.fp, y.fp),
        );
        self.intern(Node::Sub(a, b), lo, hi, fp)
    }
    pub fn neg(&mut self, a: T) -> T {
        let x = &self.t[a as usize];
        let (lo, hi, fp) = (-x.hi, -x.lo, fneg(x.fp));
        match x.node {
            Node::Neg(y) => y,
            Node::Sub(p, q) => self.sub(q, p),
            _ => self.intern(Node::Neg(a), lo, hi, fp),
        }
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let (x, y) = (&self.t[a as usize], &self.t[b as usize]);
        if let Node::Const(1) = x.node {
            return b;
        }
        if let Node::Const(1) = y.node {
            return a;
        }
        let c = [
            chk(x.lo.checked_mul(y.lo)),
            chk(x.lo.checked_mul(y.hi)),
            chk(x.hi.checked_mul(y.lo)),
            chk(x.hi.checked_mul(y.hi)),
        ];
        let mut lo = *c.iter().min().unwrap();
        let hi = *c.iter().max().unwrap();
        if a == b {
            lo = lo.max(0);
        }
        let fp = fmul(x.fp, y.fp);
        self.intern(Node::Mul(a, b), lo, hi, fp)
    }
    pub fn ite(&mut self, c: B, a: T, b: T) -> T {
        if c == B_TRUE || a == b {
            return a;
        }
        if c == B_FALSE {
            return b;
        }
        let (x, y) = (&self.t[a as usize], &self.t[b as usize]);
        let (lo, hi) = (x.lo.min(y.lo), x.hi.max(y.hi));
        let h = splitmix(x.fp[0] ^ splitmix(y.fp[0] ^ splitmix(self.bfp[c as usize])));
        let h2 = splitmix(x.fp[1] ^ splitmix(y.fp[1] ^ splitmix(h)));
        let f = rnd(2, h ^ h2.rotate_left(17));
        self.intern(Node::Ite(c, a, b), lo, hi, f)
    }
    /// |a| for a term that is non-zero whenever the result is used
    pub fn abs_nz(&mut self, a: T) -> T {
        let (lo, hi) = self.range(a);
        if lo >= 1 {
            return a;
        }
        if hi <= -1 {
            return self.neg(a);
        }
        if let Node::Neg(y) = self.t[a as usize].node {
            return self.abs_nz(y);
        }
        let fp = self.t[a as usize].fp;
        let n = fneg(fp);
        let key = fp.min(n);
        let f = rnd(3, key[0] ^ key[1].rotate_left(13));
        let m = lo.abs().max(hi.abs()).max(1);
        self.intern(Node::AbsNz(a), 1, m, f)
    }
    pub fn abs(&mut self, a: T) -> T {
        let (lo, hi) = self.range(a);
        if lo >= 0 {
            return a;
        }
        if hi <= 0 {
            return self.neg(a);
        }
        let c = self.sgn(a, NEG);
        let n = self.neg(a);
        let r = self.ite(c, n, a);
        let m = lo.abs().max(hi);
        let i = &mut self.t[r as usize];
        if let Node::Ite(..) = i.node {
            i.lo = i.lo.max(0);
            i.hi = i.hi.min(m);
        }
        r
    }

    // ---- booleans
    fn bint(&mut self, n: BNode) -> B {
        if let Some(&b) = self.by_b.get(&n) {
            return b;
        }
        let id = self.b.len() as B;
        let f = match n {
            BNode::Sgn(t, m) => {
                let (k, neg) = self.class(t);
                splitmix(k[0] ^ k[1].rotate_left(9) ^ if neg { Self::flip(m) } else { m } as u64)
            }
            BNode::And(x, y) => splitmix(1 ^ (self.bfp[x as usize].wrapping_add(self.bfp[y as usize]))),
            BNode::Or(x, y) => splitmix(2 ^ (self.bfp[x as usize].wrapping_add(self.bfp[y as usize]))),
            _ => unreachable!(),
        };
        self.bfp.push(f);
        self.b.push(n);
        self.bval.push((false, 0));
        self.by_b.insert(n, id);
        id
    }
    pub fn range_mask(&self, t: T) -> u8 {
        let (lo, hi) = self.range(t);
        let mut m = 0;
        if lo < 0 {
            m |= NEG
        }
        if lo <= 0 && hi >= 0 {
            m |= ZER
        }
        if hi > 0 {
            m |= POS
        }
        m
    }
    pub fn flip(m: u8) -> u8 {
        (m & ZER) | ((m & NEG) << 2) | ((m & POS) >> 2)
    }
    /// canonical representative: (term or its negation)
    pub fn sgn(&mut self, t: T, mask: u8) -> B {
        let r = self.range_mask(t);
        if r & mask == r {
            return B_TRUE;
        }
        if r & mask == 0 {
            return B_FALSE;
        }
        let node = self.t[t as usize].node;
        match node {
            Node::Neg(x) => return self.sgn(x, Self::flip(mask)),
            Node::Mul(a, b) => {
                let (ra, rb) = (self.range_mask(a), self.range_mask(b));
                if ra == POS {
                    return self.sgn(b, mask);
                }
                if rb == POS {
                    return self.sgn(a, mask);
                }
                if ra == NEG {
                    return self.sgn(b, Self::flip(mask));
                }
                if rb == NEG {
                    return self.sgn(a, Self::flip(mask));
                }
                if a == b {
                    // square: only zero or positive
                    return match (mask & ZER != 0, mask & POS != 0) {
                        (true, true) => B_TRUE,
                        (false, false) => B_FALSE,
                        (true, false) => self.sgn(a, ZER),
                        (false, true) => self.sgn(a, NEG | POS),
                    };
                }
            }
            Node::AbsNz(_) => return B_TRUE,
            _ => {}
        }
        if let Node::Mul(a, b) = node {
            // the sign of a product is decided by the signs of its factors: no multiplier is needed
            let mut r = B_FALSE;
            if mask & ZER != 0 {
                let (x, y) = (self.sgn(a, ZER), self.sgn(b, ZER));
                r = self.or(x, y);
            }
            for (m, neg) in [(POS, false), (NEG, true)] {
                if mask & m != 0 {
                    for s in [POS, NEG] {
                        let x = self.sgn(a, s);
                        let y = self.sgn(b, if neg { Self::flip(s) } else { s });
                        let q = self.and(x, y);
                        r = self.or(r, q);
                    }
                }
            }
            return r;
        }
        if let Node::Add(x, y) = node {
            // a sum of squares
            if let (Some(x), Some(y)) = (self.square(x), self.square(y)) {
                if mask & ZER != 0 && mask & POS != 0 {
                    return B_TRUE;
                }
                let (x, y) = (self.sgn(x, ZER), self.sgn(y, ZER));
                let z = self.and(x, y);
                return match (mask & ZER != 0, mask & POS != 0) {
                    (true, false) => z,
                    (false, true) => self.not(z),
                    _ => B_FALSE,
                };
            }
        }
        if matches!(node, Node::Add(..) | Node::Sub(..)) && self.maxabs(t) > 1 << SGN_BITS {
            let (u, exact) = self.primitive(t);
            if u != t {
                // between two integers: above is positive, at or below is negative
                let mask = if exact {
                    mask
                } else {
                    (mask & POS) | if mask & NEG != 0 { NEG | ZER } else { 0 }
                };
                return self.sgn(u, mask);
            }
        }
        let node = self.t[t as usize].node;
        let fp = self.t[t as usize].fp;
        let (t, mask) = match node {
            Node::Sub(x, y) if fneg(fp) < fp => (self.sub(y, x), Self::flip(mask)),
            _ => (t, mask),
        };
        self.bint(BNode::Sgn(t, mask & self.range_mask(t)))
    }
    /// r with t = c·r² for a constant c > 0
    fn square(&self, t: T) -> Option<T> {
        match self.t[t as usize].node {
            Node::Mul(a, b) if a == b => Some(a),
            Node::Mul(a, b) => {
                for (c, x) in [(a, b), (b, a)] {
                    if let Node::Const(k) = self.t[c as usize].node {
                        if k > 0 {
                            return self.square(x);
                        }
                    }
                }
                None
            }
            _ => None,
        }
    }
    fn poly_products(&mut self, t: T) -> usize {
        let Some(p) = self.poly(t) else { return usize::MAX };
        // prefixes are shared
        let mut seen = std::collections::HashSet::new();
        for k in p.keys() {
            for i in 2..=k.len() {
                seen.insert(k[..i].to_vec());
            }
        }
        seen.len()
    }
    /// different products of non-constant factors below the term
    fn products(&self, t: T) -> usize {
        let mut seen = std::collections::HashSet::new();
        let mut stack = vec![t];
        let mut n = 0;
        while let Some(t) = stack.pop() {
            if !seen.insert(t) {
                continue;
            }
            match self.t[t as usize].node {
                Node::Mul(x, y) => {
                    if self.as_const(x).is_none() && self.as_const(y).is_none() {
                        n += 1;
                    }
                    stack.extend([x, y]);
                }
                Node::Add(x, y) | Node::Sub(x, y) => stack.extend([x, y]),
                Node::Neg(x) => stack.push(x),
                _ => {}
            }
        }
        n
    }
    /// t = g·q + c with polynomial q without constant part: q + c/g (exact), or q - floor(-c/g)
    fn primitive(&mut self, t: T) -> (T, bool) {
        if let Some(u) = self.prim.get(&t) {
            return *u;
        }
        let mut u = (t, true);
        // only when the expanded form needs no more products than the term has
        if self.poly_products(t) <= self.products(t) {
            if let Some(p) = self.poly(t) {
                let mut p = (*p).clone();
                let c = p.remove(&vec![]).unwrap_or(0);
                let g = content(&p);
                if g > 1 {
                    let mut q: Poly = p.iter().map(|(k, v)| (k.clone(), v / g)).collect();
                    let f = (-c).div_euclid(g);
                    if f != 0 {
                        q.insert(vec![], -f);
                    }
                    u = (self.from_poly(&q), c % g == 0);
                }
            }
        }
        self.prim.insert(t, u);
        u
    }
    pub fn not(&mut self, b: B) -> B {
        match self.b[b as usize] {
            BNode::False => B_TRUE,
            BNode::True => B_FALSE,
            BNode::Sgn(t, m) => {
                let r = self.range_mask(t);
                self.sgn(t, r & !m)
            }
            BNode::And(x, y) => {
                let (x, y) = (self.not(x), self.not(y));
                self.or(x, y)
            }
            BNode::Or(x, y) => {
                let (x, y) = (self.not(x), self.not(y));
                self.and(x, y)
            }
        }
    }
    pub fn and(&mut self, a: B, b: B) -> B {
        if a == B_FALSE || b == B_FALSE {
            return B_FALSE;
        }
        if a == B_TRUE || a == b {
            return b;
        }
        if b == B_TRUE {
            return a;
        }
        if let (BNode::Sgn(t, m), BNode::Sgn(u, n)) = (self.b[a as usize], self.b[b as usize]) {
            if t == u {
                return self.sgn(t, m & n);
            }
        }
        let (a, b) = (a.min(b), a.max(b));
        self.bint(BNode::And(a, b))
    }
    pub fn or(&mut self, a: B, b: B) -> B {
        if a == B_TRUE || b == B_TRUE {
            return B_TRUE;
        }
        if a == B_FALSE || a == b {
            return b;
        }
        if b == B_FALSE {
            return a;
        }
        if let (BNode::Sgn(t, m), BNode::Sgn(u, n)) = (self.b[a as usize], self.b[b as usize]) {
            if t == u {
                return self.sgn(t, m | n);
            }
        }
        let (a, b) = (a.min(b), a.max(b));
        self.bint(BNode::Or(a, b))
    }

    // ---- evaluation under the current model
    pub fn eval(&mut self, t: T) -> i128 {
        let i = &self.t[t as usize];
        if i.epoch == self.epoch {
            return i.val;
        }
        let v = match i.node {
            Node::Const(c) => c,
            Node::Var(v) => {
                let (lo, hi) = (self.vars[v as usize].lo, self.vars[v as usize].hi);
                let d = lo + (hi - lo) / 2;
                (self.model.get(v as usize).copied().unwrap_or(d)).clamp(lo, hi) as i128
            }
            Node::Add(a, b) => self.eval(a) + self.eval(b),
            Node::Sub(a, b) => self.eval(a) - self.eval(b),
            Node::Mul(a, b) => self.eval(a) * self.eval(b),
            Node::Neg(a) => -self.eval(a),
            Node::Ite(c, a, b) => {
                if self.beval(c) {
                    self.eval(a)
                } else {
                    self.eval(b)
                }
            }
            Node::AbsNz(a) => self.eval(a).abs().max(1),
        };
        let e = self.epoch;
        let i = &mut self.t[t as usize];
        i.val = v;
        i.epoch = e;
        v
    }
    pub fn beval(&mut self, b: B) -> bool {
        if self.bval[b as usize].1 == self.epoch {
            return self.bval[b as usize].0;
        }
        let r = match self.b[b as usize] {
            BNode::False => false,
            BNode::True => true,
            BNode::Sgn(t, m) => {
                let v = self.eval(t);
                let s = if v < 0 { NEG } else if v == 0 { ZER } else { POS };
                s & m != 0
            }
            BNode::And(x, y) => self.beval(x) && self.beval(y),
            BNode::Or(x, y) => self.beval(x) || self.beval(y),
        };
        self.bval[b as usize] = (r, self.epoch);
        r
    }
}

thread_local! {
    pub static ARENA: RefCell<Arena> = RefCell::new(Arena::new());
}
pub fn ar<R>(f: impl FnOnce(&mut Arena) -> R) -> R {
    ARENA.with(|a| f(&mut a.borrow_mut()))
}

impl Arena {
    /// the term as an expanded polynomial over variables and opaque (if-then-else, abs) atoms
    pub fn poly(&mut self, t: T) -> Option<std::rc::Rc<Poly>> {
        if let Some(p) = self.polys.get(&t) {
            return p.clone();
        }
        let r = self.poly_new(t).map(std::rc::Rc::new);
        self.polys.insert(t, r.clone());
        r
    }
    fn poly_new(&mut self, t: T) -> Option<Poly> {
        let mut out = Poly::new();
        match self.t[t as usize].node {
            Node::Const(c) => {
                if c != 0 {
                    out.insert(vec![], c);
                }
            }
            Node::Var(_) | Node::Ite(..) | Node::AbsNz(_) => {
                out.insert(vec![t], 1);
            }
            Node::Neg(x) => {
                for (k, v) in self.poly(x)?.iter() {
                    out.insert(k.clone(), -v);
                }
            }
            Node::Add(x, y) | Node::Sub(x, y) => {
                let neg = matches!(self.t[t as usize].node, Node::Sub(..));
                let (x, y) = (self.poly(x)?, self.poly(y)?);
                out = (*x).clone();
                for (k, v) in y.iter() {
                    let e = out.entry(k.clone()).or_insert(0);
                    *e = e.checked_add(if neg { -v } else { *v })?;
                    if *e == 0 {
                        out.remove(k);
                    }
                }
            }
            Node::Mul(x, y) => {
                let (x, y) = (self.poly(x)?, self.poly(y)?);
                if x.len() * y.len() > POLY_TERMS * 4 {
                    return None;
                }
                for (k, v) in x.iter() {
                    for (l, w) in y.iter() {
                        let mut m = k.clone();
                        m.extend(l.iter());
                        m.sort_unstable();
                        let c = v.checked_mul(*w)?;
                        let e = out.entry(m.clone()).or_insert(0);
                        *e = e.checked_add(c)?;
                        if *e == 0 {
                            out.remove(&m);
                        }
                    }
                }
            }
        }
        (out.len() <= POLY_TERMS).then_some(out)
    }
    /// the term of an expanded polynomial
    pub fn from_poly(&mut self, p: &Poly) -> T {
        let mut r = self.cst(0);
        for (k, v) in p {
            let mut m = self.cst(*v);
            for a in k {
                m = self.mul(m, *a);
            }
            r = self.add(r, m);
        }
        r
    }
    /// n/d as an integer polynomial over a constant, when d (not constant) divides n
    pub fn exact_quotient(&mut self, n: T, d: T) -> Option<(T, i128)> {
        let (p, q) = (self.poly(n)?, self.poly(d)?);
        let c = content(&q);
        if c == 0 || q.keys().all(|k| k.is_empty()) {
            return None;
        }
        let q: Poly = q.iter().map(|(k, v)| (k.clone(), v / c)).collect();
        let out = poly_div(&p, &q)?;
        if !self.factors.contains(&q) && self.factors.len() < 16 {
            self.factors.push(q);
        }
        Some((self.from_poly(&out), c))
    }
    /// cancel factors that divided exactly before
    pub fn cancel_known(&mut self, n: T, d: T) -> Option<(T, T)> {
        if self.factors.is_empty() {
            return None;
        }
        let (mut p, mut q) = ((*self.poly(n)?).clone(), (*self.poly(d)?).clone());
        let (mut hit, mut odd) = (false, false);
        for f in &self.factors {
            let mut n = 0;
            while let (Some(x), Some(y)) = (poly_div(&p, f), poly_div(&q, f)) {
                hit = true;
                n += 1;
                p = x;
                q = y;
            }
            odd |= n % 2 != 0;
        }
        if !hit {
            return None;
        }
        let (mut n2, mut d2) = (self.from_poly(&p), self.from_poly(&q));
        // the denominator stays positive: its sign is that of the factors taken out
        if odd && self.range(d2).0 < 0 {
            let m = self.abs_nz(d2);
            let neg = self.sgn(d2, NEG);
            let nn = self.neg(n2);
            n2 = self.ite(neg, nn, n2);
            d2 = m;
        }
        Some((n2, d2))
    }
    /// the largest integer dividing every coefficient
    pub fn content_of(&mut self, t: T) -> Option<i128> {
        Some(content(&*self.poly(t)?))
    }
    pub fn divide_content(&mut self, t: T, g: i128) -> Option<T> {
        let p: Poly = self.poly(t)?.iter().map(|(k, v)| (k.clone(), v / g)).collect();
        Some(self.from_poly(&p))
    }
    /// s with s² = t, as polynomials
    pub fn poly_sqrt(&mut self, t: T) -> Option<T> {
        let p = self.poly(t)?;
        let (k, v) = lead(&p)?;
        let r = isqrt(v)?;
        if k.len() % 2 != 0 || k.chunks(2).any(|c| c[0] != c[1]) {
            return None;
        }
        let (k0, v0) = (k.iter().step_by(2).copied().collect::<Vec<_>>(), r);
        let mut s = Poly::new();
        let mut rest: Poly = (*p).clone();
        let sub_sq = |rest: &mut Poly, s: &Poly, k: &Vec<T>, v: i128| -> Option<()> {
            // (s+m)² = s² + 2sm + m²
            for (l, w) in s {
                add_to(rest, mono_mul(l, k), v.checked_mul(*w)?.checked_mul(-2)?)?;
            }
            add_to(rest, mono_mul(k, k), -v.checked_mul(v)?)
        };
        sub_sq(&mut rest, &s, &k0, v0)?;
        s.insert(k0.clone(), v0);
        while let Some((k, v)) = lead(&rest) {
            let m = mono_div(k, &k0)?;
            if v % (2 * v0) != 0 || s.len() > POLY_TERMS || s.contains_key(&m) {
                return None;
            }
            let c = v / (2 * v0);
            sub_sq(&mut rest, &s, &m, c)?;
            s.insert(m, c);
        }
        Some(self.from_poly(&s))
    }
    pub fn show_t(&mut self, t: T) -> String {
        match self.t[t as usize].node {
            Node::Const(c) => format!("{c}"),
            Node::Var(v) => self.vars[v as usize].name.clone(),
            Node::Add(x, y) => format!("({} + {})", self.show_t(x), self.show_t(y)),
            Node::Sub(x, y) => format!("({} - {})", self.show_t(x), self.show_t(y)),
            Node::Mul(x, y) => format!("{}*{}", self.show_t(x), self.show_t(y)),
            Node::Neg(x) => format!("-{}", self.show_t(x)),
            Node::Ite(b, x, y) => format!("({} ? {} : {})", self.show_b(b), self.show_t(x), self.show_t(y)),
            Node::AbsNz(x) => format!("|{}|", self.show_t(x)),
        }
    }
    pub fn show_b(&mut self, b: B) -> String {
        match self.b[b as usize] {
            BNode::False => "false".into(),
            BNode::True => "true".into(),
            BNode::Sgn(t, m) => format!("{} {} 0", self.show_t(t), ["", "<", "=", "<=", ">", "!=", ">="][m as usize]),
            BNode::And(x, y) => format!("({} & {})", self.show_b(x), self.show_b(y)),
            BNode::Or(x, y) => format!("({} | {})", self.show_b(x), self.show_b(y)),
        }
    }
    /// algebraic class of the term up to sign, and whether the term is the negated representative
    pub fn class(&self, t: T) -> (Fp, bool) {
        let f = self.t[t as usize].fp;
        let n = fneg(f);
        if n < f { (n, true) } else { (f, false) }
    }
    pub fn bool_fp(&self, b: B) -> u64 {
        self.bfp[b as usize]
    }
}

fn poly_div(p: &Poly, q: &Poly) -> Option<Poly> {
    let mut p = p.clone();
    let (lk, lv) = lead(q)?;
    let mut out = Poly::new();
    while let Some((k, v)) = lead(&p) {
        if v % lv != 0 || out.len() > POLY_TERMS {
            return None;
        }
        let m = mono_div(k, lk)?;
        let c = v / lv;
        for (k, v) in q {
            add_to(&mut p, mono_mul(k, &m), v.checked_mul(-c)?)?;
        }
        out.insert(m, c);
    }
    Some(out)
}
fn content(p: &Poly) -> i128 {
    let mut g = 0i128;
    for v in p.values() {
        let (mut a, mut b) = (g.abs(), v.abs());
        while b != 0 {
            (a, b) = (b, a % b);
        }
        g = a;
    }
    g
}
pub fn isqrt(v: i128) -> Option<i128> {
    if v < 0 {
        return None;
    }
    let s = (v as f64).sqrt() as i128;
    (s - 1..=s + 1).find(|r| *r >= 0 && r * r == v)
}
/// lexicographic order on monomials (sorted atom lists; smaller atoms weigh more)
fn mono_cmp(a: &[T], b: &[T]) -> std::cmp::Ordering {
    for (x, y) in a.iter().zip(b) {
        if x != y {
            return y.cmp(x);
        }
    }
    a.len().cmp(&b.len())
}
fn lead(p: &Poly) -> Option<(&Vec<T>, i128)> {
    p.iter().max_by(|a, b| mono_cmp(a.0, b.0)).map(|(k, v)| (k, *v))
}
fn mono_mul(a: &[T], b: &[T]) -> Vec<T> {
    let mut m = a.to_vec();
    m.extend(b);
    m.sort_unstable();
    m
}
fn mono_div(a: &[T], b: &[T]) -> Option<Vec<T>> {
    let mut r = vec![];
    let mut i = 0;
    for x in a {
        if i < b.len() && b[i] == *x {
            i += 1;
        } else {
            r.push(*x);
        }
    }
    (i == b.len()).then_some(r)
}
fn add_to(p: &mut Poly, k: Vec<T>, v: i128) -> Option<()> {
    let e = p.entry(k.clone()).or_insert(0);
    *e = e.checked_add(v)?;
    if *e == 0 {
        p.remove(&k);
    }
    Some(())
}
