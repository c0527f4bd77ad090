//! One execution path: decisions, choices and obligations of the run in progress (thread local).

use crate::term::*;
use std::cell::RefCell;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// a branch on a symbolic condition; id of the condition
    Cond(B),
    /// an enumerated choice (input structure, schedule, hash order)
    Choice,
    /// outcome of comparing rounded values that are exactly equal in real arithmetic
    Tie,
}

#[derive(Clone, Debug)]
pub struct Dec {
    pub kind: Kind,
    /// outcome (0/1 for conditions)
    pub val: u32,
    /// fingerprint of the condition (frozen prefixes are checked against it)
    pub fp: u64,
    /// number of alternatives left to explore are val+1..limit (choices), or 1 if unflipped (conditions)
    pub limit: u32,
    /// first outcome, for ties (explored cyclically)
    pub base: u32,
    pub n: u32,
    pub flipped: bool,
}

/// control-flow payloads thrown out of the code under test
pub enum Stop {
    Discard,
    Budget,
    Unsupported(String),
    Diverged(String),
}

#[derive(Clone, Debug)]
pub struct Goal {
    pub cond: B,
    pub label: String,
}

#[derive(Default)]
pub struct Path {
    pub stack: Vec<Dec>,
    pub pos: usize,
    pub frozen: Vec<(u32, u64)>,
    pub masks: std::collections::HashMap<Fp, u8>,
    /// compound conditions already decided
    pub known_b: std::collections::HashMap<B, bool>,
    pub goals: Vec<Goal>,
    pub covers: Vec<String>,
    pub observed: Vec<f64>,
    /// input record in program order: (is_choice, name, value)
    pub record: Vec<(bool, String, i64)>,
    pub ops: u64,
    pub op_budget: u64,
    pub tie_flips: bool,
    pub merge_minmax: bool,
    pub asserts: u64,
    pub ties: u64,
    pub shadow_mismatch: u64,
    pub imprecise: u64,
    pub active: bool,
}

thread_local! {
    pub static PATH: RefCell<Path> = RefCell::new(Path::default());
}
pub fn path<R>(f: impl FnOnce(&mut Path) -> R) -> R {
    PATH.with(|p| f(&mut p.borrow_mut()))
}

pub fn stop(s: Stop) -> ! {
    std::panic::panic_any(s)
}

impl Path {
    pub fn begin(&mut self) {
        self.pos = 0;
        self.masks.clear();
        self.known_b.clear();
        self.goals.clear();
        self.covers.clear();
        self.observed.clear();
        self.record.clear();
        self.ops = 0;
        self.ties = 0;
        self.shadow_mismatch = 0;
        self.imprecise = 0;
        self.asserts = 0;
        self.active = true;
    }
    /// signs of the term that the path still allows
    pub fn known(&self, a: &Arena, t: T) -> u8 {
        let r = a.range_mask(t);
        let (k, neg) = a.class(t);
        let m = match self.masks.get(&k) {
            Some(m) if neg => Arena::flip(*m) & r,
            Some(m) => *m & r,
            None => r,
        };
        if m == NEG || m == ZER || m == POS {
            return m;
        }
        match a.t[t as usize].node {
            Node::Mul(x, y) => {
                let (p, q) = (self.known(a, x), self.known(a, y));
                let mut o = 0;
                for i in [NEG, ZER, POS] {
                    for j in [NEG, ZER, POS] {
                        if p & i != 0 && q & j != 0 {
                            o |= if i == ZER || j == ZER {
                                ZER
                            } else if i == j {
                                POS
                            } else {
                                NEG
                            };
                        }
                    }
                }
                m & o
            }
            Node::Neg(x) => m & Arena::flip(self.known(a, x)),
            _ => m,
        }
    }
    /// simplify a condition with the signs known on this path
    pub fn simp(&self, a: &mut Arena, b: B) -> B {
        if let Some(&k) = self.known_b.get(&b) {
            return if k { B_TRUE } else { B_FALSE };
        }
        match a.b[b as usize] {
            BNode::Sgn(t, m) => {
                let k = self.known(a, t);
                if k & m == k {
                    return B_TRUE;
                }
                if k & m == 0 {
                    return B_FALSE;
                }
                if let Node::Mul(x, y) = a.t[t as usize].node {
                    for (p, q) in [(x, y), (y, x)] {
                        match self.known(a, p) {
                            POS => {
                                let c = a.sgn(q, m);
                                return self.simp(a, c);
                            }
                            NEG => {
                                let c = a.sgn(q, Arena::flip(m));
                                return self.simp(a, c);
                            }
                            _ => {}
                        }
                    }
                }
                b
            }
            BNode::And(x, y) => {
                let x = self.simp(a, x);
                if x == B_FALSE {
                    return B_FALSE;
                }
                let y = self.simp(a, y);
                a.and(x, y)
            }
            BNode::Or(x, y) => {
                let x = self.simp(a, x);
                if x == B_TRUE {
                    return B_TRUE;
                }
                let y = self.simp(a, y);
                a.or(x, y)
            }
            _ => b,
        }
    }
    fn learn(&mut self, a: &mut Arena, b: B) {
        if let BNode::And(..) | BNode::Or(..) = a.b[b as usize] {
            self.known_b.insert(b, true);
            let n = a.not(b);
            self.known_b.insert(n, false);
        }
        match a.b[b as usize] {
            BNode::Sgn(t, m) => {
                let (k, neg) = a.class(t);
                let m = if neg { Arena::flip(m) } else { m };
                *self.masks.entry(k).or_insert(7) &= m;
            }
            BNode::And(x, y) => {
                self.learn(a, x);
                self.learn(a, y);
            }
            _ => {}
        }
    }
    pub fn decide(&mut self, a: &mut Arena, b: B) -> Result<bool, Stop> {
        if !self.active {
            return Ok(a.beval(b));
        }
        let b = self.simp(a, b);
        if b == B_TRUE || b == B_FALSE {
            return Ok(b == B_TRUE);
        }
        let out = a.beval(b);
        if self.pos < self.stack.len() {
            let d = &self.stack[self.pos];
            if d.kind != Kind::Cond(b) || (d.val == 1) != out {
                return Err(Stop::Diverged(format!(
                    "decision {}: expected {:?}={}, got b{}={}",
                    self.pos, d.kind, d.val, b, out
                )));
            }
        } else {
            let fz = self.pos < self.frozen.len();
            let fp = a.bool_fp(b);
            if fz && self.frozen[self.pos] != (out as u32, fp) {
                return Err(Stop::Diverged(format!("frozen decision {}", self.pos)));
            }
            self.stack.push(Dec {
                kind: Kind::Cond(b),
                val: out as u32,
                fp,
                limit: 2,
                base: 0,
                n: 2,
                flipped: fz,
            });
        }
        self.pos += 1;
        let l = if out { b } else { a.not(b) };
        self.learn(a, l);
        Ok(out)
    }
    pub fn choose(&mut self, kind: Kind, n: u32, base: u32) -> Result<u32, Stop> {
        if n <= 1 {
            return Ok(0);
        }
        let v;
        if self.pos < self.stack.len() {
            let d = &self.stack[self.pos];
            if d.kind != kind || d.n != n {
                return Err(Stop::Diverged(format!("choice {}", self.pos)));
            }
            v = (d.val + d.base) % n;
        } else {
            let fz = self.pos < self.frozen.len();
            let fp = 1000 + n as u64 + if kind == Kind::Tie { 1 << 20 } else { 0 };
            if fz && self.frozen[self.pos].1 != fp {
                return Err(Stop::Diverged(format!("frozen choice {}", self.pos)));
            }
            let val = if fz { self.frozen[self.pos].0 } else { 0 };
            let limit = if fz || (kind == Kind::Tie && !self.tie_flips) { val + 1 } else { n };
            // a frozen tie outcome is stored absolutely
            let base = if fz { 0 } else { base };
            self.stack.push(Dec { kind, val, fp, limit, base, n, flipped: fz });
            v = (val + base) % n;
        }
        self.pos += 1;
        Ok(v)
    }
}

/// branch on a condition
pub fn decide(b: B) -> bool {
    if b == B_TRUE || b == B_FALSE {
        return b == B_TRUE;
    }
    let r = ar(|a| path(|p| p.decide(a, b)));
    match r {
        Ok(x) => x,
        Err(s) => stop(s),
    }
}
pub fn choose(kind: Kind, n: u32, base: u32) -> u32 {
    match path(|p| p.choose(kind, n, base)) {
        Ok(x) => x,
        Err(s) => stop(s),
    }
}
pub fn tick() {
    let over = path(|p| {
        p.ops += 1;
        p.active && p.ops > p.op_budget
    });
    if over {
        path(|p| p.ops = 0);
        stop(Stop::Budget)
    }
}
