//! The two interpretations of a harness: symbolic (coordinates are `Sym`) and native (coordinates are f64,
//! used to validate every explored path and to replay counterexamples on the real f64 code).

use crate::path::*;
use crate::sym::*;
use crate::term::*;
use std::cell::RefCell;
use std::ops::*;
use vector_traits::{GenericScalar, GenericVector2, GenericVector3};

pub trait BoolT:
    Copy + BitAnd<Output = Self> + BitOr<Output = Self> + Not<Output = Self> + 'static
{
    fn lit(b: bool) -> Self;
    fn implies(self, o: Self) -> Self {
        !self | o
    }
    fn iff(self, o: Self) -> Self {
        (self & o) | (!self & !o)
    }
}
impl BoolT for bool {
    fn lit(b: bool) -> bool {
        b
    }
}

pub trait ExT:
    Copy + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Neg<Output = Self> + 'static
{
    type B: BoolT;
    fn c(n: i64) -> Self;
    fn frac(n: i64, d: i64) -> Self;
    fn lt(self, o: Self) -> Self::B;
    fn eq(self, o: Self) -> Self::B;
    fn le(self, o: Self) -> Self::B {
        !o.lt(self)
    }
    fn gt(self, o: Self) -> Self::B {
        o.lt(self)
    }
    fn ge(self, o: Self) -> Self::B {
        !self.lt(o)
    }
    fn ne(self, o: Self) -> Self::B {
        !self.eq(o)
    }
    fn is0(self) -> Self::B {
        self.eq(Self::c(0))
    }
    fn sq(self) -> Self {
        self * self
    }
    fn ite(b: Self::B, x: Self, y: Self) -> Self;
    fn min(self, o: Self) -> Self {
        Self::ite(o.lt(self), o, self)
    }
    fn max(self, o: Self) -> Self {
        Self::ite(self.lt(o), o, self)
    }
    /// square root of a non-negative value
    fn root(self) -> Self;
}

/// A harness is written once against this interface.
pub trait Dom: Sized + 'static {
    type S: GenericScalar;
    type V2: GenericVector2<Scalar = Self::S, Vector3 = Self::V3> + 'static;
    type V3: GenericVector3<Scalar = Self::S, Vector2 = Self::V2> + 'static;
    type B: BoolT;
    type E: ExT<B = Self::B>;
    /// a symbolic integer in lo..=hi
    fn int(&mut self, name: &str, lo: i64, hi: i64) -> Self::E;
    /// an enumerated choice in 0..n
    fn choice(&mut self, name: &str, n: usize) -> usize;
    /// the scalar num/den·e; must be exactly representable
    fn scalar(&self, e: Self::E, num: i64, den: i64) -> Self::S;
    /// the exact value of a scalar the code under test produced
    fn ex(&mut self, s: Self::S) -> Self::E;
    fn is_finite(&mut self, s: Self::S) -> bool;
    fn is_nan(&mut self, s: Self::S) -> bool;
    fn assume(&mut self, b: Self::B);
    fn assert(&mut self, b: Self::B, label: &str);
    /// branch the harness itself on a condition
    fn branch(&mut self, b: Self::B) -> bool;
    fn cover(&mut self, label: &str);
    fn observe(&mut self, s: Self::S);
    /// let the environment models (hash seeds, work splitting) choose while `f` runs
    fn with_env<R>(&mut self, what: &'static [&'static str], f: impl FnOnce() -> R) -> R;
    /// `f` turns scalars into text, which `read_text` takes back while `f` runs
    fn with_text<R>(&mut self, f: impl FnOnce(&mut Self) -> R) -> R;
    fn read_text(&mut self, s: &str) -> Option<Self::S>;
    /// concrete description of a scalar (reports only)
    fn show(&self, s: Self::S) -> f64;
    fn is_symbolic(&self) -> bool;

    fn i(&mut self, name: &str, lo: i64, hi: i64) -> (Self::E, Self::S) {
        let e = self.int(name, lo, hi);
        let s = self.scalar(e, 1, 1);
        (e, s)
    }
    fn fail(&mut self, label: &str) {
        self.assert(Self::B::lit(false), label)
    }
    fn check(&mut self, b: bool, label: &str) {
        self.assert(Self::B::lit(b), label)
    }
    fn k(&self, c: f64) -> Self::S {
        // exact dyadic constant
        let d = 1i64 << 20;
        let n = (c * d as f64) as i64;
        assert!(n as f64 / d as f64 == c);
        self.scalar(Self::E::c(n), 1, d)
    }
    fn lit(&self, b: bool) -> Self::B {
        Self::B::lit(b)
    }
}

// ------------------------------------------------------------------------------------------ symbolic
#[derive(Clone, Copy)]
pub struct SB(pub B);
#[derive(Clone, Copy)]
pub struct SE(u32);

thread_local! {
    static EXS: RefCell<Vec<ExV>> = const { RefCell::new(vec![]) };
}
pub fn reset_exs() {
    EXS.with(|e| e.borrow_mut().clear());
}
impl SE {
    pub fn put(e: ExV) -> SE {
        EXS.with(|x| {
            let mut x = x.borrow_mut();
            x.push(e);
            SE((x.len() - 1) as u32)
        })
    }
    pub fn get(self) -> ExV {
        EXS.with(|x| x.borrow()[self.0 as usize].clone())
    }
}
impl BitAnd for SB {
    type Output = SB;
    fn bitand(self, o: SB) -> SB {
        SB(ar(|a| a.and(self.0, o.0)))
    }
}
impl BitOr for SB {
    type Output = SB;
    fn bitor(self, o: SB) -> SB {
        SB(ar(|a| a.or(self.0, o.0)))
    }
}
impl Not for SB {
    type Output = SB;
    fn not(self) -> SB {
        SB(ar(|a| a.not(self.0)))
    }
}
impl BoolT for SB {
    fn lit(b: bool) -> SB {
        SB(if b { B_TRUE } else { B_FALSE })
    }
}
impl Add for SE {
    type Output = SE;
    fn add(self, o: SE) -> SE {
        SE::put(self.get().add(&o.get()))
    }
}
impl Sub for SE {
    type Output = SE;
    fn sub(self, o: SE) -> SE {
        SE::put(self.get().sub(&o.get()))
    }
}
impl Mul for SE {
    type Output = SE;
    fn mul(self, o: SE) -> SE {
        SE::put(self.get().mul(&o.get()))
    }
}
impl Neg for SE {
    type Output = SE;
    fn neg(self) -> SE {
        SE::put(self.get().neg())
    }
}
impl ExT for SE {
    type B = SB;
    fn c(n: i64) -> SE {
        SE::put(ExV::rat(Q::int(n as i128)))
    }
    fn frac(n: i64, d: i64) -> SE {
        SE::put(ExV::rat(Q::frac(n as i128, d as i128)))
    }
    fn lt(self, o: SE) -> SB {
        SB(self.get().sub(&o.get()).sgn(NEG))
    }
    fn eq(self, o: SE) -> SB {
        SB(self.get().sub(&o.get()).sgn(ZER))
    }
    fn ite(b: SB, x: SE, y: SE) -> SE {
        if b.0 == B_TRUE {
            return x;
        }
        if b.0 == B_FALSE {
            return y;
        }
        let (p, q) = (x.get(), y.get());
        if !p.roots.is_empty() || !q.roots.is_empty() {
            unsupported("ite over roots");
        }
        let (l, r, d) = ar(|a| Q::common_pub(a, p.q, q.q));
        let n = ar(|a| a.ite(b.0, l, r));
        SE::put(ExV::rat(Q { n, d }))
    }
    fn root(self) -> SE {
        SE::put(self.get().sqrt())
    }
}

pub struct SymDom;

impl Dom for SymDom {
    type S = Sym;
    type V2 = SV2;
    type V3 = SV3;
    type B = SB;
    type E = SE;
    fn int(&mut self, name: &str, lo: i64, hi: i64) -> SE {
        debug_assert!(!name.contains(' '));
        let (_, t) = ar(|a| a.var(name, lo, hi));
        let v = ar(|a| a.eval(t)) as i64;
        path(|p| p.record.push((false, name.to_string(), v)));
        crate::explore::crash_log(false, name, v);
        SE::put(ExV::rat(Q::term(t)))
    }
    fn choice(&mut self, name: &str, n: usize) -> usize {
        env_choice(name, n as u32) as usize
    }
    fn scalar(&self, e: SE, num: i64, den: i64) -> Sym {
        let x = e.get();
        assert!(x.roots.is_empty());
        let q = x.q.mul(Q::frac(num as i128, den as i128));
        if let Some((n, d)) = q.is_const() {
            return Sym::cst(n as f64 / d as f64);
        }
        Sym::input(q)
    }
    fn ex(&mut self, s: Sym) -> SE {
        match s.exact() {
            Some(e) => SE::put(e),
            None => {
                self.fail("non-finite result");
                SE::c(0)
            }
        }
    }
    fn is_finite(&mut self, s: Sym) -> bool {
        s.is_fin()
    }
    fn is_nan(&mut self, s: Sym) -> bool {
        num_traits::Float::is_nan(s)
    }
    fn assume(&mut self, b: SB) {
        if !decide(b.0) {
            stop(Stop::Discard)
        }
    }
    fn assert(&mut self, b: SB, label: &str) {
        let c = ar(|a| path(|p| p.simp(a, b.0)));
        path(|p| {
            p.asserts += 1;
            if c != B_TRUE {
                p.goals.push(Goal { cond: c, label: label.to_string() })
            }
        });
    }
    fn branch(&mut self, b: SB) -> bool {
        decide(b.0)
    }
    fn cover(&mut self, label: &str) {
        path(|p| {
            if !p.covers.iter().any(|c| c == label) {
                p.covers.push(label.to_string())
            }
        });
    }
    fn observe(&mut self, s: Sym) {
        let x = s.shadow();
        path(|p| p.observed.push(x));
    }
    fn with_env<R>(&mut self, what: &'static [&'static str], f: impl FnOnce() -> R) -> R {
        lsv_hooks::set_hook(Some(Box::new(move |w, n| {
            if what.contains(&w) {
                env_choice(w, n)
            } else {
                0
            }
        })));
        struct Off;
        impl Drop for Off {
            fn drop(&mut self) {
                lsv_hooks::set_hook(None)
            }
        }
        let _off = Off;
        f()
    }
    fn with_text<R>(&mut self, f: impl FnOnce(&mut Self) -> R) -> R {
        text_begin();
        struct Off;
        impl Drop for Off {
            fn drop(&mut self) {
                text_end()
            }
        }
        let _off = Off;
        f(self)
    }
    fn read_text(&mut self, s: &str) -> Option<Sym> {
        text_read(s)
    }
    fn show(&self, s: Sym) -> f64 {
        s.shadow()
    }
    fn is_symbolic(&self) -> bool {
        true
    }
}
fn env_choice(name: &str, n: u32) -> u32 {
    debug_assert!(!name.contains(' '));
    let v = choose(Kind::Choice, n, 0);
    path(|p| p.record.push((true, name.to_string(), v as i64)));
    crate::explore::crash_log(true, name, v as i64);
    v
}

// ------------------------------------------------------------------------------------------ native
#[derive(Clone, Copy, Debug)]
pub struct NE(pub f64);
fn ntol(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * a.abs().max(b.abs()).max(1.0)
}
impl Add for NE {
    type Output = NE;
    fn add(self, o: NE) -> NE {
        NE(self.0 + o.0)
    }
}
impl Sub for NE {
    type Output = NE;
    fn sub(self, o: NE) -> NE {
        NE(self.0 - o.0)
    }
}
impl Mul for NE {
    type Output = NE;
    fn mul(self, o: NE) -> NE {
        NE(self.0 * o.0)
    }
}
impl Neg for NE {
    type Output = NE;
    fn neg(self) -> NE {
        NE(-self.0)
    }
}
impl ExT for NE {
    type B = bool;
    fn c(n: i64) -> NE {
        NE(n as f64)
    }
    fn frac(n: i64, d: i64) -> NE {
        NE(n as f64 / d as f64)
    }
    fn lt(self, o: NE) -> bool {
        self.0 < o.0 && !ntol(self.0, o.0)
    }
    fn eq(self, o: NE) -> bool {
        ntol(self.0, o.0)
    }
    fn ite(b: bool, x: NE, y: NE) -> NE {
        if b { x } else { y }
    }
    fn root(self) -> NE {
        NE(self.0.sqrt())
    }
}

#[derive(Default)]
pub struct NatDom {
    pub inputs: Vec<(bool, String, i64)>,
    pub pos: usize,
    pub failures: Vec<String>,
    pub observed: Vec<f64>,
    pub discarded: bool,
    pub diverged: Option<String>,
}
pub struct NatDiscard;

impl NatDom {
    pub fn new(inputs: Vec<(bool, String, i64)>) -> Self {
        NatDom { inputs, ..Default::default() }
    }
}
fn nat_next(inputs: &[(bool, String, i64)], pos: &mut usize, choice: bool, name: &str) -> Option<i64> {
    let r = inputs.get(*pos)?;
    if r.0 != choice || r.1 != name {
        return None;
    }
    *pos += 1;
    Some(r.2)
}

impl Dom for NatDom {
    type S = f64;
    type V2 = vector_traits::glam::DVec2;
    type V3 = vector_traits::glam::DVec3;
    type B = bool;
    type E = NE;
    fn int(&mut self, name: &str, lo: i64, hi: i64) -> NE {
        match nat_next(&self.inputs, &mut self.pos, false, name) {
            Some(v) => NE(v.clamp(lo, hi) as f64),
            None => {
                self.diverged = Some(format!("input {name} not recorded"));
                NE(lo as f64)
            }
        }
    }
    fn choice(&mut self, name: &str, n: usize) -> usize {
        if n <= 1 {
            return match nat_next(&self.inputs, &mut self.pos, true, name) {
                _ => 0,
            };
        }
        match nat_next(&self.inputs, &mut self.pos, true, name) {
            Some(v) => (v as usize).min(n - 1),
            None => {
                self.diverged = Some(format!("choice {name} not recorded"));
                0
            }
        }
    }
    fn scalar(&self, e: NE, num: i64, den: i64) -> f64 {
        e.0 * num as f64 / den as f64
    }
    fn ex(&mut self, s: f64) -> NE {
        if !s.is_finite() {
            self.fail("non-finite result");
            return NE(0.0);
        }
        NE(s)
    }
    fn is_finite(&mut self, s: f64) -> bool {
        s.is_finite()
    }
    fn is_nan(&mut self, s: f64) -> bool {
        s.is_nan()
    }
    fn assume(&mut self, b: bool) {
        if !b {
            self.discarded = true;
            std::panic::panic_any(NatDiscard)
        }
    }
    fn assert(&mut self, b: bool, label: &str) {
        if !b {
            self.failures.push(label.to_string())
        }
    }
    fn branch(&mut self, b: bool) -> bool {
        b
    }
    fn cover(&mut self, _: &str) {}
    fn observe(&mut self, s: f64) {
        self.observed.push(s)
    }
    fn with_env<R>(&mut self, what: &'static [&'static str], f: impl FnOnce() -> R) -> R {
        let inputs = self.inputs.clone();
        let pos = std::rc::Rc::new(std::cell::Cell::new(self.pos));
        let p2 = pos.clone();
        lsv_hooks::set_hook(Some(Box::new(move |w, n| {
            if !what.contains(&w) {
                return 0;
            }
            let mut p = p2.get();
            let r = nat_next(&inputs, &mut p, true, w).unwrap_or(0);
            p2.set(p);
            (r as u32).min(n - 1)
        })));
        struct Off;
        impl Drop for Off {
            fn drop(&mut self) {
                lsv_hooks::set_hook(None)
            }
        }
        let _off = Off;
        let r = f();
        self.pos = pos.get();
        r
    }
    fn with_text<R>(&mut self, f: impl FnOnce(&mut Self) -> R) -> R {
        f(self)
    }
    fn read_text(&mut self, s: &str) -> Option<f64> {
        s.parse().ok()
    }
    fn show(&self, s: f64) -> f64 {
        s
    }
    fn is_symbolic(&self) -> bool {
        false
    }
}
