//! The symbolic scalar. `Sym` implements `GenericScalar`, so the generic code of the crate under test is
//! compiled unchanged with symbolic coordinates. A value is an exact real expression over the inputs
//! (a rational function, possibly with square roots), a bound on the rounding error that f64 arithmetic
//! accumulated, a rounding class, and the concrete f64 of the representative input of the path.
//! Comparing two values branches on the sign of an integer polynomial.

use crate::path::*;
use crate::term::*;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::HashMap;

/// n/d with d > 0 on the path
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Q {
    pub n: T,
    pub d: T,
}

/// q + Σ c·√r
#[derive(Clone, Debug)]
pub struct ExV {
    pub q: Q,
    pub roots: Vec<(Q, Q)>,
}

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}

/// without the common factor of a constant that is large and of the integer content of the other
fn common_cst(a: &mut Arena, n: T, d: T) -> (T, T) {
    const LARGE: i128 = 1 << 20;
    if a.maxabs(n) <= LARGE || a.maxabs(d) <= LARGE {
        return (n, d);
    }
    if let (Some(c), Some(k)) = (a.as_const(n), a.as_const(d)) {
        let g = gcd(c, k);
        return (a.cst(c / g), a.cst(k / g));
    }
    // taking the content out of a polynomial loses its structure: only when it has to be
    if a.maxabs(n).max(a.maxabs(d)) <= 1 << 80 {
        return (n, d);
    }
    let (Some(c), Some(k)) = (a.content_of(n), a.content_of(d)) else { return (n, d) };
    let g = gcd(c, k);
    if g > 1 {
        if let (Some(n), Some(d)) = (a.divide_content(n, g), a.divide_content(d, g)) {
            return (n, d);
        }
    }
    (n, d)
}

impl Q {
    pub fn int(c: i128) -> Q {
        ar(|a| Q { n: a.cst(c), d: a.cst(1) })
    }
    pub fn frac(n: i128, d: i128) -> Q {
        let g = gcd(n, d).max(1);
        let s = if d < 0 { -1 } else { 1 };
        ar(|a| Q { n: a.cst(s * n / g), d: a.cst(s * d / g) })
    }
    pub fn term(t: T) -> Q {
        ar(|a| Q { n: t, d: a.cst(1) })
    }
    fn norm(self, a: &mut Arena) -> Q {
        let r = self.norm1(a);
        // keep large terms in check
        if a.maxabs(r.n) > 1 << 60 && a.as_const(r.d).is_none() {
            let (n, d) = common_cst(a, r.n, r.d);
            return Q { n, d };
        }
        if a.maxabs(r.n) > 1 << 36 && a.maxabs(r.d) > 1 { r.content(a) } else { r }
    }
    fn content(self, a: &mut Arena) -> Q {
        if let (None, Some(d)) = (a.as_const(self.n), a.as_const(self.d)) {
            if let Some(c) = a.content_of(self.n) {
                let g = gcd(c, d);
                if g > 1 {
                    if let Some(n) = a.divide_content(self.n, g) {
                        return Q { n, d: a.cst(d / g) }.norm1(a);
                    }
                }
            }
        }
        self
    }
    fn norm1(self, a: &mut Arena) -> Q {
        if let Some(0) = a.as_const(self.n) {
            return Q { n: self.n, d: a.cst(1) };
        }
        if let (Some(n), Some(d)) = (a.as_const(self.n), a.as_const(self.d)) {
            let g = gcd(n, d).max(1);
            return Q { n: a.cst(n / g), d: a.cst(d / g) };
        }
        if self.n == self.d {
            let o = a.cst(1);
            return Q { n: o, d: o };
        }
        // (c·t)/d with constants c, d
        if let (Node::Mul(x, y), Some(d)) = (a.t[self.n as usize].node, a.as_const(self.d)) {
            for (x, y) in [(x, y), (y, x)] {
                if let Some(c) = a.as_const(x) {
                    let g = gcd(c, d);
                    if g > 1 {
                        let cc = a.cst(c / g);
                        return Q { n: a.mul(cc, y), d: a.cst(d / g) };
                    }
                }
            }
        }
        self
    }
    pub fn add(self, o: Q) -> Q {
        ar(|a| {
            if self.d == o.d {
                return Q { n: a.add(self.n, o.n), d: self.d }.norm(a);
            }
            let (l, r, d) = Self::common(a, self, o);
            Q { n: a.add(l, r), d }.norm(a)
        })
    }
    pub fn sub(self, o: Q) -> Q {
        ar(|a| {
            if self.d == o.d {
                return Q { n: a.sub(self.n, o.n), d: self.d }.norm(a);
            }
            let (l, r, d) = Self::common(a, self, o);
            Q { n: a.sub(l, r), d }.norm(a)
        })
    }
    fn common(a: &mut Arena, x: Q, y: Q) -> (T, T, T) {
        if x.d == y.d {
            return (x.n, y.n, x.d);
        }
        if let (Some(p), Some(q)) = (a.as_const(x.d), a.as_const(y.d)) {
            let g = gcd(p, q);
            let (fp, fq) = (a.cst(q / g), a.cst(p / g));
            let d = a.cst(p / g * q);
            return (a.mul(x.n, fp), a.mul(y.n, fq), d);
        }
        // d1 = d2·k
        for (u, v, sw) in [(x, y, false), (y, x, true)] {
            if let Node::Mul(p, q) = a.t[u.d as usize].node {
                for (p, q) in [(p, q), (q, p)] {
                    if p == v.d {
                        let m = a.mul(v.n, q);
                        return if sw { (m, u.n, u.d) } else { (u.n, m, u.d) };
                    }
                }
            }
        }
        // leave large common constants out
        let split = |a: &Arena, t: T| -> Option<(i128, T)> {
            let Node::Mul(p, q) = a.t[t as usize].node else { return None };
            a.as_const(p).map(|c| (c, q)).or_else(|| a.as_const(q).map(|c| (c, p)))
        };
        let (p, q) = (split(a, x.d), split(a, y.d));
        if p.is_some() || q.is_some() {
            let one = a.cst(1);
            let all = |a: &Arena, t: T| a.as_const(t).map_or((1, t), |c| (c, one));
            let ((p, u), (q, v)) = (p.unwrap_or_else(|| all(a, x.d)), q.unwrap_or_else(|| all(a, y.d)));
            let g = gcd(p, q);
            if g > 1 << 20 {
                let (fp, fq) = (a.cst(q / g), a.cst(p / g));
                let (fp, fq) = (a.mul(fp, v), a.mul(fq, u));
                let d = a.mul(x.d, fp);
                return (a.mul(x.n, fp), a.mul(y.n, fq), d);
            }
        }
        let d = a.mul(x.d, y.d);
        (a.mul(x.n, y.d), a.mul(y.n, x.d), d)
    }
    pub fn common_pub(a: &mut Arena, x: Q, y: Q) -> (T, T, T) {
        Self::common(a, x, y)
    }
    pub fn neg(self) -> Q {
        ar(|a| Q { n: a.neg(self.n), d: self.d })
    }
    pub fn mul(self, o: Q) -> Q {
        ar(|a| {
            let (mut p, mut q) = (self, o);
            let one = a.cst(1);
            if p.n == q.d {
                p.n = one;
                q.d = one;
            }
            if q.n == p.d {
                q.n = one;
                p.d = one;
            }
            (p.n, q.d) = common_cst(a, p.n, q.d);
            (q.n, p.d) = common_cst(a, q.n, p.d);
            Q { n: a.mul(p.n, q.n), d: a.mul(p.d, q.d) }.norm(a)
        })
    }
    /// o must be non-zero on the path; branches on its sign
    pub fn div(self, o: Q) -> Q {
        let pos = decide(ar(|a| a.sgn(o.n, POS)));
        ar(|a| {
            let (n2, d2) = if pos {
                (o.n, o.d)
            } else {
                (a.neg(o.n), a.neg(o.d))
            };
            let (mut p, mut m, mut q, mut e) = (self.n, d2, self.d, n2);
            // (p·m)/(q·e)
            let one = a.cst(1);
            if m == q {
                m = one;
                q = one;
            } else if !pos && a.neg(m) == q {
                m = a.cst(-1);
                q = one;
            }
            if p == e {
                p = one;
                e = one;
            }
            (m, q) = common_cst(a, m, q);
            (p, e) = common_cst(a, p, e);
            let d = a.mul(q, e);
            Q { n: a.mul(p, m), d }.norm(a).cancel(a)
        })
    }
    /// cancel a denominator that divides the numerator as a polynomial, and common integer factors
    fn cancel(self, a: &mut Arena) -> Q {
        let mut r = self;
        if a.as_const(r.n).is_some() {
            return r;
        }
        if a.as_const(r.d).is_none() {
            match a.exact_quotient(r.n, r.d) {
                Some((n, c)) => r = Q { n, d: a.cst(c) }.norm(a),
                None => match a.cancel_known(r.n, r.d) {
                    Some((n, d)) => r = Q { n, d },
                    None => return r,
                },
            }
        }
        r.content(a)
    }
    pub fn is_const(self) -> Option<(i128, i128)> {
        ar(|a| match (a.as_const(self.n), a.as_const(self.d)) {
            (Some(n), Some(d)) => Some((n, d)),
            _ => None,
        })
    }
    pub fn maxabs(self) -> f64 {
        ar(|a| a.maxabs(self.n) as f64 / a.range(self.d).0.max(1) as f64)
    }
    pub fn value(self) -> f64 {
        ar(|a| a.eval(self.n) as f64 / a.eval(self.d) as f64)
    }
    fn dyadic53(self) -> bool {
        ar(|a| match a.as_const(self.d) {
            Some(d) => d.count_ones() == 1 && a.maxabs(self.n) < (1 << 53),
            None => false,
        })
    }
}

impl ExV {
    pub fn rat(q: Q) -> Self {
        ExV { q, roots: vec![] }
    }
    fn is_zero_rat(&self) -> bool {
        matches!(self.q.is_const(), Some((0, _)))
    }
    fn push_root(&mut self, c: Q, r: Q) {
        if let Some((0, _)) = c.is_const() {
            return;
        }
        if let Some((0, _)) = r.is_const() {
            return;
        }
        for x in self.roots.iter_mut() {
            if x.1 == r {
                x.0 = x.0.add(c);
                if let Some((0, _)) = x.0.is_const() {
                    let r = x.1;
                    self.roots.retain(|y| y.1 != r);
                }
                return;
            }
        }
        self.roots.push((c, r));
    }
    pub fn add(&self, o: &ExV) -> ExV {
        let mut e = ExV { q: self.q.add(o.q), roots: self.roots.clone() };
        for (c, r) in &o.roots {
            e.push_root(*c, *r);
        }
        e
    }
    pub fn neg(&self) -> ExV {
        ExV {
            q: self.q.neg(),
            roots: self.roots.iter().map(|(c, r)| (c.neg(), *r)).collect(),
        }
    }
    pub fn sub(&self, o: &ExV) -> ExV {
        if self.roots.is_empty() && o.roots.is_empty() {
            return ExV::rat(self.q.sub(o.q));
        }
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &ExV) -> ExV {
        let mut e = ExV::rat(self.q.mul(o.q));
        for (c, r) in &self.roots {
            e.push_root(c.mul(o.q), *r);
        }
        for (c, r) in &o.roots {
            e.push_root(c.mul(self.q), *r);
        }
        for (c, r) in &self.roots {
            for (k, s) in &o.roots {
                if r == s {
                    e.q = e.q.add(c.mul(*k).mul(*r));
                } else {
                    e.push_root(c.mul(*k), r.mul(*s));
                }
            }
        }
        e
    }
    /// divisor non-zero on the path
    pub fn div(&self, o: &ExV) -> ExV {
        if o.roots.is_empty() {
            let mut e = ExV::rat(self.q.div(o.q));
            for (c, r) in &self.roots {
                e.push_root(c.div(o.q), *r);
            }
            return e;
        }
        if o.roots.len() == 1 && o.is_zero_rat() {
            // x / (c√r) = x·√r / (c·r)
            let (c, r) = o.roots[0];
            let k = c.mul(r);
            let inv = Q::int(1).div(k);
            let mut w = ExV::rat(Q::int(0));
            w.push_root(inv, r);
            return self.mul(&w);
        }
        if o.roots.len() == 1 {
            // 1/(a+c√r) = (a-c√r)/(a²-c²r)
            let (c, r) = o.roots[0];
            let den = o.q.mul(o.q).sub(c.mul(c).mul(r));
            if decide(ar(|a| a.sgn(den.n, ZER))) {
                stop(Stop::Unsupported("division by a conjugate-zero surd".into()));
            }
            let conj = ExV { q: o.q, roots: vec![(c.neg(), r)] };
            return self.mul(&conj).div(&ExV::rat(den));
        }
        stop(Stop::Unsupported("division by a sum of roots".into()))
    }
    /// radicand non-negative on the path
    pub fn sqrt(&self) -> ExV {
        if !self.roots.is_empty() {
            stop(Stop::Unsupported("nested square root".into()));
        }
        let q = self.q;
        if let Some((n, d)) = q.is_const() {
            let (sn, sd) = ((n as f64).sqrt() as i128, (d as f64).sqrt() as i128);
            for a in [sn - 1, sn, sn + 1] {
                for b in [sd - 1, sd, sd + 1] {
                    if a >= 0 && b > 0 && a * a == n && b * b == d {
                        return ExV::rat(Q::frac(a, b));
                    }
                }
            }
        }
        // √(a²)/√const²
        let sq = ar(|a| match (a.t[q.n as usize].node, a.as_const(q.d)) {
            (Node::Mul(x, y), Some(d)) if x == y => {
                let sd = (d as f64).sqrt().round() as i128;
                (sd * sd == d).then(|| (a.abs(x), sd))
            }
            _ => None,
        });
        if let Some((n, sd)) = sq {
            return ExV::rat(ar(|a| Q { n, d: a.cst(sd) }.norm(a)));
        }
        // √(p²)/√const² for a polynomial p
        let sq = ar(|a| {
            let d = a.as_const(q.d)?;
            // n/d = (n·d)/d²
            let (n, sd) = match isqrt(d) {
                Some(sd) => (q.n, sd),
                None => (a.mul(q.n, q.d), d),
            };
            let s = a.poly_sqrt(n)?;
            let s = a.abs(s);
            let sd = a.cst(sd);
            Some(Q { n: s, d: sd }.norm(a))
        });
        if let Some(q) = sq {
            return ExV::rat(q);
        }
        let mut e = ExV::rat(Q::int(0));
        e.push_root(Q::int(1), q);
        e
    }
    /// (is positive, is zero)
    pub fn pos_zero(&self) -> (B, B) {
        if self.roots.is_empty() {
            return ar(|a| (a.sgn(self.q.n, POS), a.sgn(self.q.n, ZER)));
        }
        let mut x = self.clone();
        let (c, r) = x.roots.pop().unwrap();
        if x.roots.is_empty() && x.is_zero_rat() {
            return ar(|a| {
                let rp = a.sgn(r.n, POS);
                let rz = a.sgn(r.n, ZER);
                let cp = a.sgn(c.n, POS);
                let cz = a.sgn(c.n, ZER);
                (a.and(cp, rp), a.or(cz, rz))
            });
        }
        if x.roots.len() >= 2 && !x.is_zero_rat() || x.roots.len() >= 3 {
            stop(Stop::Unsupported("sign of a sum of more than three roots".into()));
        }
        let (xp, xz) = x.pos_zero();
        let mut c2r = ExV::rat(c.mul(c).mul(r));
        c2r = c2r.neg();
        let w = x.mul(&x).add(&c2r);
        let (wp, wz) = w.pos_zero();
        ar(|a| {
            let rp = a.sgn(r.n, POS);
            let rz = a.not(rp);
            let cp = a.sgn(c.n, POS);
            let cz = a.sgn(c.n, ZER);
            let cn = a.sgn(c.n, NEG);
            let yp = a.and(cp, rp);
            let yz = a.or(cz, rz);
            let yn = a.and(cn, rp);
            let xnn = a.or(xp, xz);
            let xn = a.not(xnn);
            let ynn = a.or(yp, yz);
            let wnn = a.or(wp, wz);
            let wn = a.not(wnn);
            let p1 = a.and(xp, ynn);
            let p2 = a.and(xnn, yp);
            let p3 = a.and(xp, yn);
            let p3 = a.and(p3, wp);
            let p4 = a.and(xn, yp);
            let p4 = a.and(p4, wn);
            let p = a.or(p1, p2);
            let p = a.or(p, p3);
            let p = a.or(p, p4);
            let z1 = a.and(xz, yz);
            let z2 = a.and(xp, yn);
            let z3 = a.and(xn, yp);
            let z4 = a.or(z2, z3);
            let z4 = a.and(z4, wz);
            (p, a.or(z1, z4))
        })
    }
    /// the same sign: times a positive constant that takes large constants out of the radicands' denominators
    fn without_scale(&self) -> ExV {
        const LARGE: i128 = 1 << 20;
        let x = ar(|a| {
            let mut l = 1i128;
            let mut big = false;
            for (c, r) in &self.roots {
                let (d, e) = (isqrt(a.as_const(r.d)?)?, a.as_const(c.d)?);
                big |= d > LARGE;
                let k = d.checked_mul(e)?;
                l = (l / gcd(l, k)).checked_mul(k)?;
            }
            let k = a.as_const(self.q.d)?;
            l = (l / gcd(l, k)).checked_mul(k)?;
            if !big || l > 1 << 60 {
                return None;
            }
            let one = a.cst(1);
            let mut up = |a: &mut Arena, n: T, k: i128| {
                let f = a.cst(l / k);
                Q { n: a.mul(f, n), d: one }
            };
            let q = up(a, self.q.n, k);
            let mut roots = vec![];
            for (c, r) in &self.roots {
                let k = isqrt(a.as_const(r.d)?)? * a.as_const(c.d)?;
                roots.push((up(a, c.n, k), Q { n: r.n, d: one }));
            }
            Some(ExV { q, roots })
        });
        x.unwrap_or_else(|| self.clone())
    }
    pub fn sgn(&self, mask: u8) -> B {
        if self.roots.is_empty() {
            return ar(|a| a.sgn(self.q.n, mask));
        }
        let (p, z) = self.without_scale().pos_zero();
        ar(|a| {
            let nn = a.or(p, z);
            let n = a.not(nn);
            let mut r = B_FALSE;
            if mask & NEG != 0 {
                r = a.or(r, n)
            }
            if mask & ZER != 0 {
                r = a.or(r, z)
            }
            if mask & POS != 0 {
                r = a.or(r, p)
            }
            r
        })
    }
    pub fn maxabs(&self) -> f64 {
        self.q.maxabs() + self.roots.iter().map(|(c, r)| c.maxabs() * r.maxabs().sqrt()).sum::<f64>()
    }
    pub fn value(&self) -> f64 {
        self.q.value() + self.roots.iter().map(|(c, r)| c.value() * r.value().sqrt()).sum::<f64>()
    }
    /// lower bound of |self| when it is non-zero
    pub fn gap(&self) -> f64 {
        if self.roots.is_empty() {
            ar(|a| 1.0 / a.range(self.q.d).1 as f64)
        } else {
            1e-9
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cls {
    /// the f64 is the exact value
    Exact,
    /// the f64 is the exact value rounded once: a function of the exact value alone
    Canon,
    /// several roundings
    Approx,
}

#[derive(Clone, Debug)]
pub enum V {
    Fin { ex: std::rc::Rc<ExV>, cls: Cls, err: f64 },
    Inf(bool),
    NaN,
    Atan { y: Sym, x: Sym },
}

#[derive(Clone, Debug)]
pub struct Val {
    pub v: V,
    pub sh: f64,
}

#[derive(Clone, Copy)]
pub struct Sym(pub u32);

pub const C_ZERO: u32 = 0;
pub const C_ONE: u32 = 1;
pub const C_TWO: u32 = 2;
pub const C_THREE: u32 = 3;
pub const C_INF: u32 = 4;
pub const C_NINF: u32 = 5;
pub const C_EPS: u32 = 6;
pub const C_NAN: u32 = 7;
const C_N: usize = 8;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Neg,
    Abs,
    Sqrt,
    Atan2,
    Ceil,
    Floor,
}

#[derive(Default)]
pub struct Vals {
    v: Vec<Val>,
    cse: HashMap<(Op, u32, u32), u32>,
    consts: HashMap<u64, u32>,
    ties: HashMap<(u32, u32), u8>,
}

thread_local! {
    pub static VALS: RefCell<Vals> = RefCell::new(Vals::default());
}

fn getv(s: Sym) -> Val {
    VALS.with(|v| {
        let v = v.borrow();
        match v.v.get(s.0 as usize) {
            Some(x) => x.clone(),
            None => panic!("symbolic value used outside its path"),
        }
    })
}
fn putv(v: Val) -> Sym {
    VALS.with(|a| {
        let mut a = a.borrow_mut();
        a.v.push(v);
        Sym((a.v.len() - 1) as u32)
    })
}
fn dyadic(x: f64) -> Option<(i128, i128)> {
    if x == 0.0 {
        return Some((0, 1));
    }
    let bits = x.to_bits();
    let e = ((bits >> 52) & 0x7ff) as i64;
    let m = bits & ((1 << 52) - 1);
    let (m, e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
    let tz = m.trailing_zeros() as i64;
    let (m, e) = (m >> tz, e + tz);
    let s = if x < 0.0 { -1 } else { 1 };
    if e >= 0 {
        if e > 60 {
            return None;
        }
        Some((s * ((m as i128) << e), 1))
    } else {
        if e < -70 {
            return None;
        }
        Some((s * m as i128, 1i128 << (-e)))
    }
}

/// start of a path: forget the values of the previous one
pub fn reset_vals() {
    ar(|a| a.forget_factors());
    VALS.with(|v| {
        let mut v = v.borrow_mut();
        v.v.clear();
        v.cse.clear();
        v.consts.clear();
        v.ties.clear();
    });
    for c in [0.0, 1.0, 2.0, 3.0] {
        putv(const_val(c));
    }
    putv(Val { v: V::Inf(false), sh: f64::INFINITY });
    putv(Val { v: V::Inf(true), sh: f64::NEG_INFINITY });
    putv(const_val(f64::EPSILON));
    putv(Val { v: V::NaN, sh: f64::NAN });
    VALS.with(|v| debug_assert_eq!(v.borrow().v.len(), C_N));
}
fn const_val(c: f64) -> Val {
    if c.is_nan() {
        return Val { v: V::NaN, sh: c };
    }
    if c.is_infinite() {
        return Val { v: V::Inf(c < 0.0), sh: c };
    }
    let q = match dyadic(c) {
        Some((n, d)) => Q::frac(n, d),
        // constants of extreme magnitude stand for a very large or very small number
        None if c.abs() > 1.0 => Q::int(if c > 0.0 { 1 << 80 } else { -(1 << 80) }),
        None => Q::frac(if c > 0.0 { 1 } else { -1 }, 1 << 80),
    };
    Val { v: V::Fin { ex: std::rc::Rc::new(ExV::rat(q)), cls: Cls::Exact, err: 0.0 }, sh: c }
}

fn cse(op: Op, a: Sym, b: Sym, f: impl FnOnce() -> Val) -> Sym {
    tick();
    let key = (op, a.0, b.0);
    if let Some(x) = VALS.with(|v| v.borrow().cse.get(&key).copied()) {
        return Sym(x);
    }
    let r = f();
    let s = putv(r);
    VALS.with(|v| v.borrow_mut().cse.insert(key, s.0));
    s
}

pub fn unsupported(what: &str) -> ! {
    stop(Stop::Unsupported(what.to_string()))
}

const U: f64 = 1.2e-16; // just above 2^-53

impl Sym {
    pub fn cst(c: f64) -> Sym {
        if c == 0.0 && c.is_sign_negative() {
            return putv(Val { v: const_val(0.0).v, sh: -0.0 });
        }
        if let Some(x) = VALS.with(|v| v.borrow().consts.get(&c.to_bits()).copied()) {
            return Sym(x);
        }
        for (i, k) in [0.0, 1.0, 2.0, 3.0].iter().enumerate() {
            if c == *k {
                return Sym(i as u32);
            }
        }
        let s = putv(const_val(c));
        VALS.with(|v| v.borrow_mut().consts.insert(c.to_bits(), s.0));
        s
    }
    /// an input: q must be exactly representable
    pub fn input(q: Q) -> Sym {
        assert!(q.dyadic53(), "inputs must be exact");
        putv(Val {
            v: V::Fin { ex: std::rc::Rc::new(ExV::rat(q)), cls: Cls::Exact, err: 0.0 },
            sh: q.value(),
        })
    }
    pub fn shadow(self) -> f64 {
        getv(self).sh
    }
    pub fn is_fin(self) -> bool {
        matches!(getv(self).v, V::Fin { .. })
    }
    /// the exact real value (rounding ignored); None for infinities and NaN
    pub fn exact(self) -> Option<ExV> {
        match getv(self).v {
            V::Fin { ex, .. } => Some((*ex).clone()),
            _ => None,
        }
    }
    pub fn err(self) -> f64 {
        match getv(self).v {
            V::Fin { err, .. } => err,
            _ => 0.0,
        }
    }

    fn finish(ex: ExV, exact_ops: bool, err_in: f64, sh: f64) -> Val {
        let (cls, err) = if ex.roots.is_empty() && ex.q.dyadic53() && exact_ops {
            (Cls::Exact, 0.0)
        } else if matches!(ex.q.is_const(), Some((0, _))) && ex.roots.is_empty() && exact_ops {
            (Cls::Exact, 0.0)
        } else {
            let m = ex.maxabs();
            (if exact_ops { Cls::Canon } else { Cls::Approx }, err_in + m * U)
        };
        Val { v: V::Fin { ex: std::rc::Rc::new(ex), cls, err }, sh }
    }

    fn sign_b(self, mask: u8) -> bool {
        match getv(self).v {
            V::Fin { ex, .. } => decide(ex.sgn(mask)),
            V::Inf(neg) => mask & (if neg { NEG } else { POS }) != 0,
            V::NaN => false,
            V::Atan { .. } => unsupported("sign of an angle"),
        }
    }

    fn arith(op: Op, a: Sym, b: Sym) -> Sym {
        // identities that hold exactly in f64
        match op {
            Op::Add => {
                if a.0 == C_ZERO {
                    tick();
                    return b;
                }
                if b.0 == C_ZERO {
                    tick();
                    return a;
                }
            }
            Op::Sub => {
                if b.0 == C_ZERO {
                    tick();
                    return a;
                }
                if a.0 == b.0 && a.is_fin() {
                    tick();
                    return Sym(C_ZERO);
                }
            }
            Op::Mul => {
                if a.0 == C_ONE {
                    tick();
                    return b;
                }
                if b.0 == C_ONE {
                    tick();
                    return a;
                }
            }
            Op::Div => {
                if b.0 == C_ONE {
                    tick();
                    return a;
                }
            }
            _ => {}
        }
        let (a, b) = match op {
            Op::Add | Op::Mul if a.0 > b.0 => (b, a),
            _ => (a, b),
        };
        // a - b and b - a are exact negatives: share the polynomial
        cse(op, a, b, || {
            let (va, vb) = (getv(a), getv(b));
            let sh = match op {
                Op::Add => va.sh + vb.sh,
                Op::Sub => va.sh - vb.sh,
                Op::Mul => va.sh * vb.sh,
                Op::Div => va.sh / vb.sh,
                _ => unreachable!(),
            };
            match (&va.v, &vb.v) {
                (V::NaN, _) | (_, V::NaN) => Val { v: V::NaN, sh },
                (V::Atan { .. }, _) | (_, V::Atan { .. }) => unsupported("arithmetic on an angle"),
                (V::Fin { ex: ea, cls: ca, err: ra }, V::Fin { ex: eb, cls: cb, err: rb }) => {
                    let exact_ops = *ca == Cls::Exact && *cb == Cls::Exact;
                    match op {
                        Op::Add => Self::finish(ea.add(eb), exact_ops, ra + rb, sh),
                        Op::Sub => Self::finish(ea.sub(eb), exact_ops, ra + rb, sh),
                        Op::Mul => {
                            let za = matches!(ea.q.is_const(), Some((0, _))) && ea.roots.is_empty() && *ca == Cls::Exact;
                            let zb = matches!(eb.q.is_const(), Some((0, _))) && eb.roots.is_empty() && *cb == Cls::Exact;
                            if za || zb {
                                let mut v = const_val(0.0);
                                v.sh = sh;
                                return v;
                            }
                            // scaling by a power of two keeps the class
                            for (x, cx, rx, y, cy) in [(ea, ca, ra, eb, cb), (eb, cb, rb, ea, ca)] {
                                if let (Some((n, d)), Cls::Exact) = (y.q.is_const(), cy) {
                                    if y.roots.is_empty()
                                        && n.unsigned_abs().count_ones() == 1
                                        && d.count_ones() == 1
                                        && *cx != Cls::Exact
                                    {
                                        let k = (n as f64 / d as f64).abs();
                                        return Val {
                                            v: V::Fin {
                                                ex: std::rc::Rc::new(x.mul(y)),
                                                cls: *cx,
                                                err: rx * k,
                                            },
                                            sh,
                                        };
                                    }
                                }
                            }
                            let e = ra * (eb.maxabs() + rb) + rb * ea.maxabs();
                            Self::finish(ea.mul(eb), exact_ops, e, sh)
                        }
                        Op::Div => {
                            let zero = decide(eb.sgn(ZER));
                            if zero {
                                if *cb == Cls::Approx && vb.sh != 0.0 {
                                    unsupported("division by a rounded zero");
                                }
                                // ±0 divisor: the sign of the zero is taken from the representative
                                let bneg = vb.sh.is_sign_negative();
                                if decide(ea.sgn(ZER)) {
                                    return Val { v: V::NaN, sh };
                                }
                                let aneg = decide(ea.sgn(NEG));
                                return Val { v: V::Inf(aneg != bneg), sh };
                            }
                            if let (Some((n, d)), Cls::Exact) = (eb.q.is_const(), cb) {
                                if eb.roots.is_empty()
                                    && n.unsigned_abs().count_ones() == 1
                                    && d.count_ones() == 1
                                    && *ca != Cls::Exact
                                {
                                    let k = (d as f64 / n as f64).abs();
                                    return Val {
                                        v: V::Fin { ex: std::rc::Rc::new(ea.div(eb)), cls: *ca, err: ra * k },
                                        sh,
                                    };
                                }
                            }
                            let g = eb.gap();
                            let q = ea.div(eb);
                            let m = q.maxabs();
                            let e = if *rb == 0.0 {
                                ra / g
                            } else {
                                (ra + m * rb) / (g - rb).max(g * 0.5)
                            };
                            Self::finish(q, exact_ops, e, sh)
                        }
                        _ => unreachable!(),
                    }
                }
                _ => {
                    // at least one infinity
                    let inf = |v: &V| if let V::Inf(n) = v { Some(*n) } else { None };
                    let (ia, ib) = (inf(&va.v), inf(&vb.v));
                    let v = match op {
                        Op::Add | Op::Sub => {
                            let ib = ib.map(|n| if op == Op::Sub { !n } else { n });
                            match (ia, ib) {
                                (Some(x), Some(y)) if x != y => V::NaN,
                                (Some(x), _) => V::Inf(x),
                                (_, Some(y)) => V::Inf(y),
                                _ => unreachable!(),
                            }
                        }
                        Op::Mul => {
                            let sg = |s: Sym, i: Option<bool>| match i {
                                Some(n) => Some(n),
                                None => {
                                    if s.sign_b(ZER) {
                                        None
                                    } else {
                                        Some(s.sign_b(NEG))
                                    }
                                }
                            };
                            match (sg(a, ia), sg(b, ib)) {
                                (Some(x), Some(y)) => V::Inf(x != y),
                                _ => V::NaN,
                            }
                        }
                        Op::Div => match (ia, ib) {
                            (Some(_), Some(_)) => V::NaN,
                            (Some(x), None) => {
                                let n = if b.sign_b(ZER) { vb.sh.is_sign_negative() } else { b.sign_b(NEG) };
                                V::Inf(x != n)
                            }
                            _ => const_val(0.0).v,
                        },
                        _ => unreachable!(),
                    };
                    Val { v, sh }
                }
            }
        })
    }
    pub fn neg_(self) -> Sym {
        if self.0 == C_INF {
            return Sym(C_NINF);
        }
        if self.0 == C_NINF {
            return Sym(C_INF);
        }
        let s = cse(Op::Neg, self, self, || {
            let v = getv(self);
            let sh = -v.sh;
            let v = match v.v {
                V::Fin { ex, cls, err } => V::Fin { ex: std::rc::Rc::new(ex.neg()), cls, err },
                V::Inf(n) => V::Inf(!n),
                V::NaN => V::NaN,
                V::Atan { .. } => unsupported("negated angle"),
            };
            Val { v, sh }
        });
        VALS.with(|v| {
            v.borrow_mut().cse.insert((Op::Neg, s.0, s.0), self.0);
        });
        s
    }
    pub fn abs_(self) -> Sym {
        if self.sign_b(NEG) {
            self.neg_()
        } else {
            self
        }
    }
    pub fn sqrt_(self) -> Sym {
        if self.sign_b(NEG) {
            return Sym(C_NAN);
        }
        cse(Op::Sqrt, self, self, || {
            let v = getv(self);
            let sh = v.sh.sqrt();
            match v.v {
                V::Fin { ex, cls, err } => {
                    let e = ex.sqrt();
                    // d√x ≤ dx / (2√x_min)
                    let g = ex.gap();
                    Self::finish(e, cls == Cls::Exact, if err == 0.0 { 0.0 } else { err / g.sqrt() }, sh)
                }
                _ => Val { v: v.v, sh },
            }
        })
    }
    pub fn atan2_(self, x: Sym) -> Sym {
        if !self.is_fin() || !x.is_fin() {
            unsupported("atan2 of a non-finite value");
        }
        cse(Op::Atan2, self, x, || Val {
            v: V::Atan { y: self, x },
            sh: self.shadow().atan2(x.shadow()),
        })
    }

    fn atan_cmp(a: (Sym, Sym), b: (Sym, Sym)) -> Ordering {
        // group: 0 (-π,0), 1 angle 0, 2 (0,π), 3 π
        fn group(y: Sym, x: Sym) -> u8 {
            if y.sign_b(NEG) {
                0
            } else if y.sign_b(POS) {
                2
            } else if x.sign_b(NEG) {
                3
            } else {
                1
            }
        }
        let (ga, gb) = (group(a.0, a.1), group(b.0, b.1));
        if ga != gb {
            return ga.cmp(&gb);
        }
        if ga == 1 || ga == 3 {
            return Ordering::Equal;
        }
        let ex = |s: Sym| s.exact().unwrap();
        let cr = ex(a.1).mul(&ex(b.0)).sub(&ex(a.0).mul(&ex(b.1)));
        if decide(cr.sgn(POS)) {
            Ordering::Less
        } else if decide(cr.sgn(ZER)) {
            // the same direction: f64 atan2 is taken to give the same angle
            path(|p| p.ties += 1);
            Ordering::Equal
        } else {
            Ordering::Greater
        }
    }

    /// Less / Equal / Greater, or None when NaN is involved
    pub fn cmp3(self, o: Sym) -> Option<Ordering> {
        tick();
        if self.0 == o.0 && self.0 != C_NAN {
            if let V::NaN = getv(self).v {
                return None;
            }
            return Some(Ordering::Equal);
        }
        let (a, b) = (getv(self), getv(o));
        let r = match (&a.v, &b.v) {
            (V::NaN, _) | (_, V::NaN) => None,
            (V::Atan { y, x }, V::Atan { y: y2, x: x2 }) => Some(Self::atan_cmp((*y, *x), (*y2, *x2))),
            (V::Atan { .. }, _) | (_, V::Atan { .. }) => unsupported("angle compared with a number"),
            (V::Inf(x), V::Inf(y)) => Some(y.cmp(x)),
            (V::Inf(x), _) => Some(if *x { Ordering::Less } else { Ordering::Greater }),
            (_, V::Inf(y)) => Some(if *y { Ordering::Greater } else { Ordering::Less }),
            (V::Fin { ex: ea, cls: ca, err: ra }, V::Fin { ex: eb, cls: cb, err: rb }) => {
                let d = ea.sub(eb);
                let certain = *ca != Cls::Approx && *cb != Cls::Approx;
                if ra + rb > 0.0 && d.gap() <= ra + rb {
                    path(|p| p.imprecise += 1);
                }
                if decide(d.sgn(NEG)) {
                    Some(Ordering::Less)
                } else if !decide(d.sgn(ZER)) {
                    Some(Ordering::Greater)
                } else if certain {
                    Some(Ordering::Equal)
                } else {
                    Some(match Self::tie(self, o, &[1, 2, 4], a.sh, b.sh) {
                        1 => Ordering::Less,
                        2 => Ordering::Equal,
                        _ => Ordering::Greater,
                    })
                }
            }
        };
        if r != a.sh.partial_cmp(&b.sh) {
            path(|p| p.shadow_mismatch += 1);
        }
        r
    }
    /// The exact values are equal but the rounded ones need not be: pick one of the outcome sets
    /// (bits: 1 less, 2 equal, 4 greater). The same two values compare the same way all along a path.
    fn tie(a: Sym, b: Sym, sets: &[u8], sa: f64, sb: f64) -> u8 {
        let (key, sw) = if a.0 <= b.0 { ((a.0, b.0), false) } else { ((b.0, a.0), true) };
        let flip = |m: u8| if sw { (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2) } else { m };
        let known = flip(VALS.with(|v| v.borrow().ties.get(&key).copied().unwrap_or(7)));
        let left: Vec<u8> = sets.iter().map(|s| s & known).filter(|s| *s != 0).collect();
        let r = if left.len() == 1 {
            left[0]
        } else {
            path(|p| p.ties += 1);
            let sh = if sa < sb { 1 } else if sa == sb { 2 } else { 4 };
            let s = left.iter().position(|m| m & sh != 0).unwrap_or(0);
            left[choose(Kind::Tie, left.len() as u32, s as u32) as usize]
        };
        VALS.with(|v| v.borrow_mut().ties.insert(key, flip(r)));
        r
    }
    /// strictly less (one decision when rounding cannot matter)
    fn lt_(self, o: Sym) -> bool {
        if self.0 == o.0 {
            return false;
        }
        let (a, b) = (getv(self), getv(o));
        if let (V::Fin { ex: ea, cls: ca, err: ra }, V::Fin { ex: eb, cls: cb, err: rb }) = (&a.v, &b.v) {
            if *ca != Cls::Approx && *cb != Cls::Approx {
                tick();
                let d = ea.sub(eb);
                if ra + rb > 0.0 && d.gap() <= ra + rb {
                    path(|p| p.imprecise += 1);
                }
                let r = decide(d.sgn(NEG));
                if r != (a.sh < b.sh) {
                    path(|p| p.shadow_mismatch += 1);
                }
                return r;
            }
        }
        self.cmp3(o) == Some(Ordering::Less)
    }
    fn eq_(self, o: Sym) -> bool {
        let (a, b) = (getv(self), getv(o));
        if let (V::NaN, _) | (_, V::NaN) = (&a.v, &b.v) {
            return false;
        }
        if self.0 == o.0 {
            return true;
        }
        if let (V::Fin { ex: ea, cls: ca, .. }, V::Fin { ex: eb, cls: cb, .. }) = (&a.v, &b.v) {
            tick();
            let d = ea.sub(eb);
            let certain = *ca != Cls::Approx && *cb != Cls::Approx;
            let mut r = decide(d.sgn(ZER));
            if r && !certain {
                r = Self::tie(self, o, &[2, 5], a.sh, b.sh) == 2;
            }
            if r != (a.sh == b.sh) {
                path(|p| p.shadow_mismatch += 1);
            }
            return r;
        }
        self.cmp3(o) == Some(Ordering::Equal)
    }
    fn ulps_tie(a: Sym, b: Sym, sh: bool) -> bool {
        let key = (a.0.min(b.0), a.0.max(b.0) | 1 << 31);
        if let Some(r) = VALS.with(|v| v.borrow().ties.get(&key).copied()) {
            return r == 2;
        }
        path(|p| p.ties += 1);
        let r = choose(Kind::Tie, 2, sh as u32) == 1;
        VALS.with(|v| v.borrow_mut().ties.insert(key, if r { 2 } else { 1 }));
        r
    }
    pub fn ulps_eq_(self, o: Sym, eps: Sym, max_ulps: u32) -> bool {
        tick();
        let (a, b) = (getv(self), getv(o));
        if let (V::NaN, _) | (_, V::NaN) = (&a.v, &b.v) {
            return false;
        }
        if self.0 == o.0 {
            return true;
        }
        let e = getv(eps).sh;
        let r = match (&a.v, &b.v) {
            (V::Fin { ex: ea, err: ra, cls: ca }, V::Fin { ex: eb, err: rb, cls: cb }) => {
                let d = ea.sub(eb);
                let m = ea.maxabs().max(eb.maxabs());
                let thr = e.max(max_ulps as f64 * m * 2.3e-16) + ra + rb;
                if d.gap() > thr {
                    let z = decide(d.sgn(ZER));
                    if z && (*ca == Cls::Approx || *cb == Cls::Approx) && ra + rb > e {
                        let s = approx::UlpsEq::ulps_eq(&a.sh, &b.sh, e, max_ulps);
                        Self::ulps_tie(self, o, s)
                    } else {
                        z
                    }
                } else {
                    path(|p| p.imprecise += 1);
                    // |a-b| <= eps exactly, or equal
                    let z = decide(d.sgn(ZER));
                    if z {
                        true
                    } else {
                        let ad = if decide(d.sgn(NEG)) { d.neg() } else { d };
                        let ee = getv(eps);
                        match ee.v {
                            V::Fin { ex, .. } => decide(ad.sub(&ex).sgn(NEG | ZER)) || {
                                let s = approx::UlpsEq::ulps_eq(&a.sh, &b.sh, 0.0, max_ulps);
                                Self::ulps_tie(self, o, s)
                            },
                            _ => true,
                        }
                    }
                }
            }
            (V::Inf(x), V::Inf(y)) => x == y,
            (V::Atan { .. }, _) | (_, V::Atan { .. }) => unsupported("ulps_eq on an angle"),
            _ => false,
        };
        let s = approx::UlpsEq::ulps_eq(&a.sh, &b.sh, e, max_ulps);
        if s != r {
            path(|p| p.shadow_mismatch += 1);
        }
        r
    }
    /// floor or ceiling of the value as a constant (branches over the possible integers, in an order that
    /// depends on the path only)
    fn floor_int(self, up: bool) -> i128 {
        let v = getv(self);
        match v.v {
            V::Fin { ex, .. } => {
                // up: the least c with x <= c; down: the least c with x < c + 1
                let below = |c: i128| {
                    if up {
                        decide(ex.sub(&ExV::rat(Q::int(c))).sgn(NEG | ZER))
                    } else {
                        decide(ex.sub(&ExV::rat(Q::int(c + 1))).sgn(NEG))
                    }
                };
                let (mut lo, mut hi);
                if below(0) {
                    hi = 0i128;
                    let mut k = 1;
                    while below(-k) {
                        hi = -k;
                        k *= 2;
                        if k > 1 << 40 {
                            unsupported("rounding of a large value to an integer");
                        }
                    }
                    lo = -k;
                } else {
                    lo = 0i128;
                    let mut k = 1;
                    while !below(k) {
                        lo = k;
                        k *= 2;
                        if k > 1 << 40 {
                            unsupported("rounding of a large value to an integer");
                        }
                    }
                    hi = k;
                }
                // !below(lo) and below(hi)
                while hi - lo > 1 {
                    let m = lo + (hi - lo) / 2;
                    if below(m) {
                        hi = m
                    } else {
                        lo = m
                    }
                }
                hi
            }
            _ => unsupported("integer part of a non-finite value"),
        }
    }
    pub fn ceil_(self) -> Sym {
        if !self.is_fin() {
            return self;
        }
        Sym::cst(self.floor_int(true) as f64)
    }
    pub fn floor_(self) -> Sym {
        if !self.is_fin() {
            return self;
        }
        Sym::cst(self.floor_int(false) as f64)
    }
    pub fn trunc_(self) -> Sym {
        if self.sign_b(NEG) {
            self.ceil_()
        } else {
            self.floor_()
        }
    }
    /// the concrete f64 of the representative; the path is split on the value being exactly this one
    pub fn concretize(self) -> f64 {
        let v = getv(self);
        match v.v {
            V::Fin { ex, .. } => {
                if ex.roots.is_empty() {
                    let (n, d) = ar(|a| (a.eval(ex.q.n), a.eval(ex.q.d)));
                    let c = ex.sub(&ExV::rat(Q::frac(n, d)));
                    let _ = decide(c.sgn(ZER));
                } else {
                    unsupported("conversion of a root to a primitive");
                }
                v.sh
            }
            V::Atan { .. } => unsupported("conversion of an angle to a primitive"),
            _ => v.sh,
        }
    }
}

// ------------------------------------------------------------------ trait implementations
use std::ops::*;

macro_rules! binop {
    ($tr:ident, $f:ident, $atr:ident, $af:ident, $op:expr) => {
        impl $tr for Sym {
            type Output = Sym;
            fn $f(self, o: Sym) -> Sym {
                Sym::arith($op, self, o)
            }
        }
        impl $atr for Sym {
            fn $af(&mut self, o: Sym) {
                *self = Sym::arith($op, *self, o)
            }
        }
    };
}
binop!(Add, add, AddAssign, add_assign, Op::Add);
binop!(Sub, sub, SubAssign, sub_assign, Op::Sub);
binop!(Mul, mul, MulAssign, mul_assign, Op::Mul);
binop!(Div, div, DivAssign, div_assign, Op::Div);
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        self.neg_()
    }
}
impl Rem for Sym {
    type Output = Sym;
    fn rem(self, o: Sym) -> Sym {
        let q = (self / o).trunc_();
        self - q * o
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        self.eq_(*o)
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        self.cmp3(*o)
    }
    fn lt(&self, o: &Sym) -> bool {
        self.lt_(*o)
    }
    fn gt(&self, o: &Sym) -> bool {
        o.lt_(*self)
    }
    fn le(&self, o: &Sym) -> bool {
        if !exactish(*self, *o) {
            return matches!(self.cmp3(*o), Some(Ordering::Less | Ordering::Equal));
        }
        !o.lt_(*self)
    }
    fn ge(&self, o: &Sym) -> bool {
        if !exactish(*self, *o) {
            return matches!(self.cmp3(*o), Some(Ordering::Greater | Ordering::Equal));
        }
        !self.lt_(*o)
    }
}
fn exactish(a: Sym, b: Sym) -> bool {
    let f = |s: Sym| matches!(getv(s).v, V::Fin { cls, .. } if cls != Cls::Approx);
    f(a) && f(b)
}
impl Default for Sym {
    fn default() -> Self {
        Sym(C_ZERO)
    }
}
thread_local! {
    /// numbers written as text so far, when the harness reads that text back
    static TEXT: RefCell<Option<Vec<Sym>>> = const { RefCell::new(None) };
}
/// Decimal text stands for its number while `text_begin` is in force: formatting without a precision is taken to be
/// injective and reversible (which the standard library promises for finite values), so what the text depends on is
/// which numbers are equal, and that is decided here, number by number. With a precision the digits depend on the value,
/// which is therefore pinned.
pub fn text_begin() {
    TEXT.with(|t| *t.borrow_mut() = Some(vec![]));
}
pub fn text_end() {
    TEXT.with(|t| *t.borrow_mut() = None);
}
/// the number a text stands for
pub fn text_read(s: &str) -> Option<Sym> {
    let x: f64 = s.parse().ok()?;
    let hit = TEXT.with(|t| t.borrow().as_ref().and_then(|v| v.iter().copied().find(|y| y.shadow() == x)));
    Some(hit.unwrap_or_else(|| Sym::cst(x)))
}
fn text_put(x: Sym, pin: bool) {
    let Some(seen) = TEXT.with(|t| t.borrow().clone()) else { return };
    if !x.is_fin() {
        unsupported("text of a number that is not finite")
    }
    if pin {
        let c = Sym::cst(x.shadow());
        if x != c {
            unsupported("text of a number that is not exact")
        }
    }
    if seen.iter().any(|y| *y == x) {
        return;
    }
    TEXT.with(|t| {
        if let Some(v) = t.borrow_mut().as_mut() {
            v.push(x)
        }
    });
}
macro_rules! fmt_impl {
    ($($tr:ident),*) => {$(
        impl std::fmt::$tr for Sym {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                text_put(*self, f.precision().is_some());
                let x = VALS.with(|v| v.try_borrow().ok().and_then(|v| v.v.get(self.0 as usize).map(|x| x.sh)));
                std::fmt::$tr::fmt(&x.unwrap_or(f64::NAN), f)
            }
        }
    )*};
}
fmt_impl!(Display, Debug, LowerExp);
impl std::str::FromStr for Sym {
    type Err = std::num::ParseFloatError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        Ok(Sym::cst(s.parse()?))
    }
}
impl From<Sym> for f64 {
    fn from(s: Sym) -> f64 {
        s.concretize()
    }
}
macro_rules! from_impl {
    ($($t:ty),*) => {$(
        impl From<$t> for Sym {
            fn from(x: $t) -> Sym { Sym::cst(x as f64) }
        }
    )*};
}
from_impl!(f32, u16, i16, i8, u8, f64, i32, u32);
macro_rules! as_impl {
    ($($t:ty),*) => {$(
        impl num_traits::AsPrimitive<$t> for Sym {
            fn as_(self) -> $t {
                if !self.is_fin() { return self.shadow() as $t; }
                let t = self.trunc_();
                t.shadow() as $t
            }
        }
    )*};
}
as_impl!(usize, isize, u64, i64, u32, i32, u16, i16, u8, i8);
impl num_traits::AsPrimitive<f64> for Sym {
    fn as_(self) -> f64 {
        self.concretize()
    }
}
impl num_traits::AsPrimitive<f32> for Sym {
    fn as_(self) -> f32 {
        self.concretize() as f32
    }
}
macro_rules! as_from {
    ($($t:ty),*) => {$(
        impl num_traits::AsPrimitive<Sym> for $t {
            fn as_(self) -> Sym { Sym::cst(self as f64) }
        }
    )*};
}
as_from!(usize, isize, u64, i64, u32, i32, u16, i16, u8, i8, f32, f64);
impl num_traits::ToPrimitive for Sym {
    fn to_i64(&self) -> Option<i64> {
        Some(self.trunc_().shadow() as i64)
    }
    fn to_u64(&self) -> Option<u64> {
        let t = self.trunc_().shadow();
        (t >= 0.0).then_some(t as u64)
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.concretize())
    }
}
impl num_traits::FromPrimitive for Sym {
    fn from_i64(n: i64) -> Option<Self> {
        Some(Sym::cst(n as f64))
    }
    fn from_u64(n: u64) -> Option<Self> {
        Some(Sym::cst(n as f64))
    }
    fn from_f64(n: f64) -> Option<Self> {
        Some(Sym::cst(n))
    }
}
impl num_traits::NumCast for Sym {
    fn from<N: num_traits::ToPrimitive>(n: N) -> Option<Self> {
        n.to_f64().map(Sym::cst)
    }
}
impl num_traits::Zero for Sym {
    fn zero() -> Self {
        Sym(C_ZERO)
    }
    fn is_zero(&self) -> bool {
        *self == Sym(C_ZERO)
    }
}
impl num_traits::One for Sym {
    fn one() -> Self {
        Sym(C_ONE)
    }
}
impl num_traits::Num for Sym {
    type FromStrRadixErr = num_traits::ParseFloatError;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> {
        <f64 as num_traits::Num>::from_str_radix(s, r).map(Sym::cst)
    }
}
impl num_traits::Signed for Sym {
    fn abs(&self) -> Self {
        self.abs_()
    }
    fn abs_sub(&self, o: &Self) -> Self {
        if *self <= *o { Sym(C_ZERO) } else { *self - *o }
    }
    fn signum(&self) -> Self {
        signum(*self)
    }
    fn is_positive(&self) -> bool {
        !is_neg_signbit(*self)
    }
    fn is_negative(&self) -> bool {
        is_neg_signbit(*self)
    }
}
fn signum(s: Sym) -> Sym {
    if let V::NaN = getv(s).v {
        return s;
    }
    if is_neg_signbit(s) {
        Sym::cst(-1.0)
    } else {
        Sym(C_ONE)
    }
}
fn is_neg_signbit(s: Sym) -> bool {
    s.sign_b(NEG) || (s.sign_b(ZER) && s.shadow().is_sign_negative())
}
fn minf(a: Sym, b: Sym) -> Sym {
    if let V::NaN = getv(a).v {
        return b;
    }
    if let V::NaN = getv(b).v {
        return a;
    }
    if let Some(s) = merge(a, b, true) {
        return s;
    }
    if b < a { b } else { a }
}
fn maxf(a: Sym, b: Sym) -> Sym {
    if let V::NaN = getv(a).v {
        return b;
    }
    if let V::NaN = getv(b).v {
        return a;
    }
    if let Some(s) = merge(a, b, false) {
        return s;
    }
    if b > a { b } else { a }
}
/// min/max of exact values as an if-then-else term (no branch), when the harness asked for it
fn merge(a: Sym, b: Sym, min: bool) -> Option<Sym> {
    if a.0 == b.0 {
        return Some(a);
    }
    if !path(|p| p.merge_minmax) {
        return None;
    }
    let (va, vb) = (getv(a), getv(b));
    if let (
        V::Fin { ex: ea, cls: Cls::Exact, .. },
        V::Fin { ex: eb, cls: Cls::Exact, .. },
    ) = (&va.v, &vb.v)
    {
        if ea.roots.is_empty() && eb.roots.is_empty() {
            tick();
            let d = ea.q.sub(eb.q);
            let known = ar(|m| path(|p| p.known(m, d.n)));
            if known & NEG == 0 {
                return Some(if min { b } else { a });
            }
            if known & POS == 0 {
                return Some(if min { a } else { b });
            }
            let q = ar(|m| {
                let (l, r, d2) = Q::common(m, ea.q, eb.q);
                let c = m.sgn(d.n, NEG);
                let n = if min { m.ite(c, l, r) } else { m.ite(c, r, l) };
                Q { n, d: d2 }
            });
            if !q.dyadic53() {
                return None;
            }
            let sh = if min { va.sh.min(vb.sh) } else { va.sh.max(vb.sh) };
            return Some(putv(Val {
                v: V::Fin { ex: std::rc::Rc::new(ExV::rat(q)), cls: Cls::Exact, err: 0.0 },
                sh,
            }));
        }
    }
    None
}

fn classify(s: Sym) -> std::num::FpCategory {
    use std::num::FpCategory::*;
    match getv(s).v {
        V::NaN => Nan,
        V::Inf(_) => Infinite,
        V::Atan { .. } => Normal,
        V::Fin { .. } => {
            if s.sign_b(ZER) {
                Zero
            } else {
                Normal
            }
        }
    }
}
fn powi(s: Sym, n: i32) -> Sym {
    let mut r = Sym(C_ONE);
    for _ in 0..n.unsigned_abs() {
        r = r * s;
    }
    if n < 0 { Sym(C_ONE) / r } else { r }
}
fn round_(s: Sym) -> Sym {
    if s.sign_b(NEG) {
        (s - Sym::cst(0.5)).ceil_()
    } else {
        (s + Sym::cst(0.5)).floor_()
    }
}
fn shadow(s: Sym) -> f64 {
    getv(s).sh
}
/// the same value computed by one f64 operation instead of several
fn with_shadow(s: Sym, sh: f64) -> Sym {
    let v = getv(s);
    if v.sh.to_bits() == sh.to_bits() {
        return s;
    }
    putv(Val { v: v.v.clone(), sh })
}
macro_rules! unsup {
    ($($f:ident),*) => {$( fn $f(self) -> Self { unsupported(stringify!($f)) } )*};
}
macro_rules! common_float {
    () => {
        fn infinity() -> Self {
            Sym(C_INF)
        }
        fn neg_infinity() -> Self {
            Sym(C_NINF)
        }
        fn nan() -> Self {
            Sym(C_NAN)
        }
        fn neg_zero() -> Self {
            Sym::cst(-0.0)
        }
        fn min_value() -> Self {
            Sym::cst(f64::MIN)
        }
        fn min_positive_value() -> Self {
            Sym::cst(f64::MIN_POSITIVE)
        }
        fn max_value() -> Self {
            Sym::cst(f64::MAX)
        }
        fn epsilon() -> Self {
            Sym(C_EPS)
        }
        fn is_nan(self) -> bool {
            matches!(getv(self).v, V::NaN)
        }
        fn is_infinite(self) -> bool {
            matches!(getv(self).v, V::Inf(_))
        }
        fn is_finite(self) -> bool {
            matches!(getv(self).v, V::Fin { .. } | V::Atan { .. })
        }
        fn is_normal(self) -> bool {
            classify(self) == std::num::FpCategory::Normal
        }
        fn classify(self) -> std::num::FpCategory {
            classify(self)
        }
        fn floor(self) -> Self {
            self.floor_()
        }
        fn ceil(self) -> Self {
            self.ceil_()
        }
        fn round(self) -> Self {
            round_(self)
        }
        fn trunc(self) -> Self {
            self.trunc_()
        }
        fn fract(self) -> Self {
            self - self.trunc_()
        }
        fn abs(self) -> Self {
            self.abs_()
        }
        fn signum(self) -> Self {
            signum(self)
        }
        fn is_sign_positive(self) -> bool {
            !is_neg_signbit(self)
        }
        fn is_sign_negative(self) -> bool {
            is_neg_signbit(self)
        }
        fn min(self, o: Self) -> Self {
            minf(self, o)
        }
        fn max(self, o: Self) -> Self {
            maxf(self, o)
        }
        fn recip(self) -> Self {
            Sym(C_ONE) / self
        }
        fn powi(self, n: i32) -> Self {
            powi(self, n)
        }
        fn to_degrees(self) -> Self {
            self * Sym::cst(180.0 / std::f64::consts::PI)
        }
        fn to_radians(self) -> Self {
            self * Sym::cst(std::f64::consts::PI / 180.0)
        }
    };
}
impl num_traits::float::FloatCore for Sym {
    common_float!();
    fn integer_decode(self) -> (u64, i16, i8) {
        unsupported("integer_decode")
    }
}
impl num_traits::Float for Sym {
    common_float!();
    fn sqrt(self) -> Self {
        self.sqrt_()
    }
    fn mul_add(self, a: Self, b: Self) -> Self {
        // one rounding in f64, two in the error bound
        with_shadow(self * a + b, shadow(self).mul_add(shadow(a), shadow(b)))
    }
    fn abs_sub(self, o: Self) -> Self {
        num_traits::Signed::abs_sub(&self, &o)
    }
    fn hypot(self, o: Self) -> Self {
        with_shadow((self * self + o * o).sqrt_(), shadow(self).hypot(shadow(o)))
    }
    fn atan2(self, x: Self) -> Self {
        self.atan2_(x)
    }
    fn powf(self, _n: Self) -> Self {
        unsupported("powf")
    }
    fn log(self, _b: Self) -> Self {
        unsupported("log")
    }
    fn sin_cos(self) -> (Self, Self) {
        unsupported("sin_cos")
    }
    unsup!(exp, exp2, ln, log2, log10, cbrt, sin, cos, tan, asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh);
    fn integer_decode(self) -> (u64, i16, i8) {
        unsupported("integer_decode")
    }
}
impl approx::AbsDiffEq for Sym {
    type Epsilon = Sym;
    fn default_epsilon() -> Sym {
        Sym(C_EPS)
    }
    fn abs_diff_eq(&self, o: &Sym, eps: Sym) -> bool {
        let d = if *self > *o { *self - *o } else { *o - *self };
        d <= eps
    }
}
impl approx::UlpsEq for Sym {
    fn default_max_ulps() -> u32 {
        4
    }
    fn ulps_eq(&self, o: &Sym, eps: Sym, max_ulps: u32) -> bool {
        self.ulps_eq_(*o, eps, max_ulps)
    }
}
impl vector_traits::GenericScalar for Sym {
    type BitsType = u64;
    const ZERO: Self = Sym(C_ZERO);
    const ONE: Self = Sym(C_ONE);
    const TWO: Self = Sym(C_TWO);
    const THREE: Self = Sym(C_THREE);
    const INFINITY: Self = Sym(C_INF);
    const NEG_INFINITY: Self = Sym(C_NINF);
    const EPSILON: Self = Sym(C_EPS);
    fn to_bits(self) -> u64 {
        // bit patterns are concretised
        let x = self.concretize();
        x.to_bits()
    }
    fn from_bits(b: u64) -> Self {
        Sym::cst(f64::from_bits(b))
    }
    fn clamp(self, min: Self, max: Self) -> Self {
        if self < min {
            min
        } else if self > max {
            max
        } else {
            self
        }
    }
}

// ------------------------------------------------------------------ vectors (same operation order as glam)
use vector_traits::{Approx, GenericVector2, GenericVector3, HasXY, HasXYZ};

#[derive(Clone, Copy, Debug, Default)]
pub struct SV2 {
    pub x: Sym,
    pub y: Sym,
}
#[derive(Clone, Copy, Debug, Default)]
pub struct SV3 {
    pub x: Sym,
    pub y: Sym,
    pub z: Sym,
}
impl PartialEq for SV2 {
    fn eq(&self, o: &Self) -> bool {
        self.x == o.x && self.y == o.y
    }
}
impl PartialEq for SV3 {
    fn eq(&self, o: &Self) -> bool {
        self.x == o.x && self.y == o.y && self.z == o.z
    }
}
macro_rules! vec_common {
    ($t:ident, $($c:ident),*) => {
        impl Add for $t { type Output = $t; fn add(self, o: $t) -> $t { $t { $($c: self.$c + o.$c),* } } }
        impl Sub for $t { type Output = $t; fn sub(self, o: $t) -> $t { $t { $($c: self.$c - o.$c),* } } }
        impl Neg for $t { type Output = $t; fn neg(self) -> $t { $t { $($c: -self.$c),* } } }
        impl AddAssign for $t { fn add_assign(&mut self, o: $t) { *self = *self + o } }
        impl Mul<Sym> for $t { type Output = $t; fn mul(self, k: Sym) -> $t { $t { $($c: self.$c * k),* } } }
        impl Div<Sym> for $t { type Output = $t; fn div(self, k: Sym) -> $t { $t { $($c: self.$c / k),* } } }
        impl Approx for $t {
            fn is_ulps_eq(self, o: Self, e: Sym, u: u32) -> bool { $(self.$c.ulps_eq_(o.$c, e, u))&&* }
            fn is_abs_diff_eq(self, o: Self, e: Sym) -> bool {
                $(approx::AbsDiffEq::abs_diff_eq(&self.$c, &o.$c, e))&&*
            }
        }
    };
}
vec_common!(SV2, x, y);
vec_common!(SV3, x, y, z);
impl Index<usize> for SV2 {
    type Output = Sym;
    fn index(&self, i: usize) -> &Sym {
        match i {
            0 => &self.x,
            1 => &self.y,
            _ => panic!("index out of bounds"),
        }
    }
}
impl Index<usize> for SV3 {
    type Output = Sym;
    fn index(&self, i: usize) -> &Sym {
        match i {
            0 => &self.x,
            1 => &self.y,
            2 => &self.z,
            _ => panic!("index out of bounds"),
        }
    }
}
macro_rules! hasxy {
    ($t:ident, |$x:ident, $y:ident| $new:expr) => {
        impl HasXY for $t {
            type Scalar = Sym;
            fn new_2d($x: Sym, $y: Sym) -> Self {
                $new
            }
            fn x(self) -> Sym {
                self.x
            }
            fn x_mut(&mut self) -> &mut Sym {
                &mut self.x
            }
            fn set_x(&mut self, v: Sym) {
                self.x = v
            }
            fn y(self) -> Sym {
                self.y
            }
            fn y_mut(&mut self) -> &mut Sym {
                &mut self.y
            }
            fn set_y(&mut self, v: Sym) {
                self.y = v
            }
        }
    };
}
hasxy!(SV2, |x, y| SV2 { x, y });
hasxy!(SV3, |x, y| SV3 { x, y, z: Sym(C_ZERO) });
impl HasXYZ for SV3 {
    fn new_3d(x: Sym, y: Sym, z: Sym) -> Self {
        SV3 { x, y, z }
    }
    fn z(self) -> Sym {
        self.z
    }
    fn z_mut(&mut self) -> &mut Sym {
        &mut self.z
    }
    fn set_z(&mut self, v: Sym) {
        self.z = v
    }
}
impl GenericVector2 for SV2 {
    type Vector3 = SV3;
    fn to_3d(self, z: Sym) -> SV3 {
        SV3 { x: self.x, y: self.y, z }
    }
    fn magnitude(self) -> Sym {
        self.dot(self).sqrt_()
    }
    fn magnitude_sq(self) -> Sym {
        self.dot(self)
    }
    fn dot(self, o: Self) -> Sym {
        (self.x * o.x) + (self.y * o.y)
    }
    fn perp_dot(self, o: Self) -> Sym {
        (self.x * o.y) - (self.y * o.x)
    }
    fn distance(self, o: Self) -> Sym {
        (self - o).magnitude()
    }
    fn distance_sq(self, o: Self) -> Sym {
        (self - o).magnitude_sq()
    }
    fn normalize(self) -> Self {
        self * (Sym(C_ONE) / self.magnitude())
    }
    fn safe_normalize(self) -> Option<Self> {
        let l = self.magnitude();
        if l == Sym(C_ZERO) { None } else { Some(self / l) }
    }
}
impl GenericVector3 for SV3 {
    type Vector2 = SV2;
    fn to_2d(&self) -> SV2 {
        SV2 { x: self.x, y: self.y }
    }
    fn magnitude(self) -> Sym {
        self.dot(self).sqrt_()
    }
    fn magnitude_sq(self) -> Sym {
        self.dot(self)
    }
    fn dot(self, o: Self) -> Sym {
        (self.x * o.x) + (self.y * o.y) + (self.z * o.z)
    }
    fn cross(self, o: Self) -> Self {
        SV3 {
            x: self.y * o.z - o.y * self.z,
            y: self.z * o.x - o.z * self.x,
            z: self.x * o.y - o.x * self.y,
        }
    }
    fn normalize(self) -> Self {
        self * (Sym(C_ONE) / self.magnitude())
    }
    fn safe_normalize(self) -> Option<Self> {
        let l = self.magnitude();
        if l == Sym(C_ZERO) { None } else { Some(self / l) }
    }
    fn distance(self, o: Self) -> Sym {
        (self - o).magnitude()
    }
    fn distance_sq(self, o: Self) -> Sym {
        (self - o).magnitude_sq()
    }
}
