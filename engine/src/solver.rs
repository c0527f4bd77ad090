//! One SMT solver process (z3, SMT-LIB2 over a pipe, incremental) and the translation of terms to QF_BV.
//!
//! Every term has a statically computed range, and is emitted as a two's complement bit vector wide enough
//! to hold every value of the range, so bit-vector arithmetic never wraps and agrees with the integers.

use crate::term::*;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct SolverStats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time_s: f64,
    pub max_ms: u64,
    pub restarts: u64,
}

pub struct Solver {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    buf: String,
    width: Vec<u32>, // 0 = not emitted
    bemit: Vec<bool>,
    vemit: Vec<bool>,
    monos: std::collections::HashMap<Vec<T>, (String, u32, i128)>,
    use_poly: bool,
    levels: Vec<B>,
    since_restart: u64,
    timeout_ms: u64,
    pub stats: SolverStats,
}

fn spawn() -> (Child, ChildStdin, BufReader<ChildStdout>) {
    let cmd = std::env::var("LSV_SOLVER").unwrap_or_else(|_| "z3-new".into());
    let mut child = Command::new(&cmd)
        .args(["-in", "-smt2"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| {
            eprintln!("cannot start solver {cmd}: {e}");
            std::process::exit(3)
        });
    let inp = child.stdin.take().unwrap();
    let out = BufReader::with_capacity(1 << 16, child.stdout.take().unwrap());
    (child, inp, out)
}

fn bits(lo: i128, hi: i128) -> u32 {
    // two's complement width for [lo,hi]
    let a = if hi >= 0 { 128 - hi.leading_zeros() } else { 0 };
    let b = if lo < 0 { 128 - (!lo).leading_zeros() } else { 0 };
    a.max(b) + 1
}

fn bvconst(v: i128, w: u32) -> String {
    let m: u128 = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
    format!("(_ bv{} {})", (v as u128) & m, w)
}

fn ext(name: &str, from: u32, to: u32) -> String {
    if from == to {
        name.into()
    } else {
        format!("((_ sign_extend {}) {})", to - from, name)
    }
}

impl Solver {
    pub fn new(timeout_ms: u64) -> Self {
        let (child, inp, out) = spawn();
        let mut s = Solver {
            child,
            inp,
            out,
            buf: String::new(),
            width: vec![],
            bemit: vec![],
            vemit: vec![],
            monos: Default::default(),
            use_poly: std::env::var("LSV_POLY").map_or(false, |v| v != "0"),
            levels: vec![],
            since_restart: 0,
            timeout_ms,
            stats: Default::default(),
        };
        s.prelude();
        s
    }
    fn prelude(&mut self) {
        self.buf.push_str(&format!(
            "(set-option :print-success false)(set-option :produce-models true)(set-option :global-declarations true)(set-option :timeout {})(set-logic {})\n",
            self.timeout_ms,
            std::env::var("LSV_LOGIC").unwrap_or_else(|_| "QF_UFBV".into())
        ));
    }
    /// forget everything (new harness, or the process grew old)
    pub fn reset(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let (child, inp, out) = spawn();
        self.child = child;
        self.inp = inp;
        self.out = out;
        self.buf.clear();
        self.width.clear();
        self.bemit.clear();
        self.vemit.clear();
        self.monos.clear();
        self.levels.clear();
        self.since_restart = 0;
        self.stats.restarts += 1;
        self.prelude();
    }
    fn tname(&mut self, a: &Arena, t: T) -> String {
        match a.t[t as usize].node {
            Node::Const(c) => bvconst(c, self.twidth(a, t)),
            _ => format!("t{t}"),
        }
    }
    fn twidth(&self, a: &Arena, t: T) -> u32 {
        if let Some(&w) = self.width.get(t as usize) {
            if w > 0 {
                return w;
            }
        }
        let i = &a.t[t as usize];
        bits(i.lo, i.hi)
    }
    fn operand(&mut self, a: &Arena, t: T, w: u32) -> String {
        if let Node::Const(c) = a.t[t as usize].node {
            return bvconst(c, w);
        }
        let n = self.tname(a, t);
        let tw = self.twidth(a, t);
        ext(&n, tw, w)
    }
    fn emit_t(&mut self, a: &mut Arena, root: T) {
        let mut stack = vec![(root, false)];
        while let Some((t, ready)) = stack.pop() {
            if self.width.len() <= t as usize {
                self.width.resize(a.t.len().max(t as usize + 1), 0);
            }
            if self.width[t as usize] > 0 {
                continue;
            }
            let node = a.t[t as usize].node;
            if let Node::Const(_) = node {
                continue;
            }
            if !ready {
                stack.push((t, true));
                match node {
                    Node::Add(x, y) | Node::Sub(x, y) | Node::Mul(x, y) => {
                        stack.push((x, false));
                        stack.push((y, false));
                    }
                    Node::Neg(x) | Node::AbsNz(x) => stack.push((x, false)),
                    Node::Ite(c, x, y) => {
                        self.emit_b(a, c);
                        stack.push((x, false));
                        stack.push((y, false));
                    }
                    _ => {}
                }
                continue;
            }
            let i = &a.t[t as usize];
            let mut w = bits(i.lo, i.hi);
            // operands must fit in the width used
            let need = |s: &Self, x: T| s.twidth(a, x);
            let def = match node {
                Node::Var(v) => {
                    let vi = &a.vars[v as usize];
                    let cnt = (vi.hi - vi.lo) as u64;
                    let rb = (64 - cnt.leading_zeros()).max(1);
                    self.buf.push_str(&format!("(declare-const v{v} (_ BitVec {rb}))\n"));
                    if self.vemit.len() <= v as usize {
                        self.vemit.resize(v as usize + 1, false);
                    }
                    self.vemit[v as usize] = true;
                    let w2 = w.max(rb + 1);
                    w = w2;
                    // raw values beyond the range are mapped to the last value (total, no side condition)
                    let raw = if cnt + 1 == 1u64 << rb {
                        format!("v{v}")
                    } else {
                        let c = bvconst(cnt as i128, rb);
                        format!("(ite (bvult {c} v{v}) {c} v{v})")
                    };
                    format!(
                        "(bvadd {} ((_ zero_extend {}) {raw}))",
                        bvconst(vi.lo as i128, w2),
                        w2 - rb
                    )
                }
                Node::Add(x, y) | Node::Sub(x, y) | Node::Mul(x, y) => {
                    w = w.max(need(self, x)).max(need(self, y));
                    let (p, q) = (self.operand(a, x, w), self.operand(a, y, w));
                    let op = match node {
                        Node::Add(..) => "bvadd",
                        Node::Sub(..) => "bvsub",
                        _ => "bvmul",
                    };
                    format!("({op} {p} {q})")
                }
                Node::Neg(x) => {
                    w = w.max(need(self, x));
                    let p = self.operand(a, x, w);
                    format!("(bvneg {p})")
                }
                Node::AbsNz(x) => {
                    w = w.max(need(self, x)).max(bits(-a.t[x as usize].hi, -a.t[x as usize].lo)).max(2);
                    let p = self.operand(a, x, w);
                    let z = bvconst(0, w);
                    format!(
                        "(ite (= {p} {z}) {} (ite (bvslt {p} {z}) (bvneg {p}) {p}))",
                        bvconst(1, w)
                    )
                }
                Node::Ite(c, x, y) => {
                    w = w.max(need(self, x)).max(need(self, y));
                    let (p, q) = (self.operand(a, x, w), self.operand(a, y, w));
                    let cn = self.bname(a, c);
                    format!("(ite {cn} {p} {q})")
                }
                Node::Const(_) => unreachable!(),
            };
            self.width[t as usize] = w;
            self.buf.push_str(&format!("(define-fun t{t} () (_ BitVec {w}) {def})\n"));
        }
    }
    /// the sign test of a term as p ? q over the expanded polynomial: monomials are shared by all terms
    fn emit_poly(&mut self, a: &mut Arena, t: T) -> Option<(String, String)> {
        let p = a.poly(t)?;
        let deg = p.keys().map(|k| k.len()).max().unwrap_or(0);
        if deg < 2 {
            return None;
        }
        let mut g: i128 = 0;
        for c in p.values() {
            let (mut x, mut y) = (g, c.abs());
            while y != 0 {
                (x, y) = (y, x % y);
            }
            g = x;
        }
        if g == 0 {
            return None;
        }
        let (mut pos, mut neg) = ((0i128, vec![]), (0i128, vec![]));
        for (k, c) in p.iter() {
            let c = c / g;
            let side = if c > 0 { &mut pos } else { &mut neg };
            if k.is_empty() {
                side.1.push((String::new(), 0, c.abs()));
                side.0 += c.abs();
                continue;
            }
            let (n, w, hi) = self.emit_mono(a, k);
            side.0 = side.0.checked_add(hi.checked_mul(c.abs())?)?;
            side.1.push((n, w, c.abs()));
        }
        let w = bits(-pos.0.max(neg.0) - 1, pos.0.max(neg.0) + 1);
        if w > 120 {
            return None;
        }
        let sum = |v: &Vec<(String, u32, i128)>| -> String {
            let mut acc: Option<String> = None;
            for (n, nw, c) in v {
                let x = if n.is_empty() {
                    bvconst(*c, w)
                } else {
                    let e = ext(n, *nw, w);
                    if *c == 1 { e } else { format!("(bvmul {} {e})", bvconst(*c, w)) }
                };
                acc = Some(match acc {
                    None => x,
                    Some(y) => format!("(bvadd {y} {x})"),
                });
            }
            acc.unwrap_or_else(|| bvconst(0, w))
        };
        Some((sum(&pos.1), sum(&neg.1)))
    }
    /// name, width and largest absolute value of a product of atoms
    fn emit_mono(&mut self, a: &mut Arena, k: &[T]) -> (String, u32, i128) {
        if k.len() == 1 {
            self.emit_t(a, k[0]);
            return (self.tname(a, k[0]), self.twidth(a, k[0]), a.maxabs(k[0]));
        }
        if let Some(m) = self.monos.get(k) {
            return m.clone();
        }
        let (n1, w1, h1) = self.emit_mono(a, &k[..k.len() - 1]);
        let (n2, w2, h2) = self.emit_mono(a, &k[k.len() - 1..]);
        let h = h1.saturating_mul(h2);
        let w = bits(-h, h).max(w1).max(w2);
        let id = self.monos.len();
        self.buf.push_str(&format!(
            "(define-fun m{id} () (_ BitVec {w}) (bvmul {} {}))\n",
            ext(&n1, w1, w),
            ext(&n2, w2, w)
        ));
        let r = (format!("m{id}"), w, h);
        self.monos.insert(k.to_vec(), r.clone());
        r
    }
    fn bname(&mut self, a: &Arena, b: B) -> String {
        match a.b[b as usize] {
            BNode::False => "false".into(),
            BNode::True => "true".into(),
            _ => format!("b{b}"),
        }
    }
    fn emit_b(&mut self, a: &mut Arena, b: B) {
        if self.bemit.len() <= b as usize {
            self.bemit.resize(a.b.len().max(b as usize + 1), false);
        }
        if self.bemit[b as usize] {
            return;
        }
        let def = match a.b[b as usize] {
            BNode::False | BNode::True => return,
            BNode::Sgn(t, m) => {
                let node = a.t[t as usize].node;
                let pn = if self.use_poly { self.emit_poly(a, t) } else { None };
                let (p, q) = if let Some(pq) = pn {
                    pq
                } else if let Node::Sub(x, y) = node {
                    self.emit_t(a, x);
                    self.emit_t(a, y);
                    let w = self.twidth(a, x).max(self.twidth(a, y));
                    (self.operand(a, x, w), self.operand(a, y, w))
                } else {
                    self.emit_t(a, t);
                    let w = self.twidth(a, t);
                    (self.operand(a, t, w), bvconst(0, w))
                };
                match m {
                    1 => format!("(bvslt {p} {q})"),
                    2 => format!("(= {p} {q})"),
                    4 => format!("(bvslt {q} {p})"),
                    3 => format!("(bvsle {p} {q})"),
                    6 => format!("(bvsle {q} {p})"),
                    5 => format!("(not (= {p} {q}))"),
                    _ => unreachable!(),
                }
            }
            BNode::And(x, y) | BNode::Or(x, y) => {
                self.emit_b(a, x);
                self.emit_b(a, y);
                let (p, q) = (self.bname(a, x), self.bname(a, y));
                let op = if let BNode::And(..) = a.b[b as usize] { "and" } else { "or" };
                format!("({op} {p} {q})")
            }
        };
        self.bemit[b as usize] = true;
        self.buf.push_str(&format!("(define-fun b{b} () Bool {def})\n"));
    }
    fn sync(&mut self, a: &mut Arena, conds: &[B]) {
        if self.since_restart > 40_000 {
            self.reset();
        }
        let common = self
            .levels
            .iter()
            .zip(conds.iter())
            .take_while(|(x, y)| x == y)
            .count();
        let pops = self.levels.len() - common;
        if pops > 0 {
            self.buf.push_str(&format!("(pop {pops})\n"));
            self.levels.truncate(common);
        }
        for &c in &conds[common..] {
            self.emit_b(a, c);
            let n = self.bname(a, c);
            self.buf.push_str(&format!("(push 1)(assert {n})\n"));
            self.levels.push(c);
        }
    }
    fn line(&mut self) -> String {
        let mut s = String::new();
        match self.out.read_line(&mut s) {
            Ok(n) if n > 0 => s.trim().to_string(),
            _ => "eof".into(),
        }
    }
    /// satisfiability of conds ∧ extra; on Sat the model of every declared variable
    pub fn check(&mut self, a: &mut Arena, conds: &[B], extra: B) -> (Sat, Option<Vec<i64>>) {
        let t0 = Instant::now();
        self.since_restart += 1;
        self.sync(a, conds);
        self.emit_b(a, extra);
        let n = self.bname(a, extra);
        self.buf.push_str(&format!("(push 1)(assert {n})(check-sat)\n"));
        let text = std::mem::take(&mut self.buf);
        if let Ok(p) = std::env::var("LSV_DUMP") {
            let mut f = std::fs::OpenOptions::new().create(true).append(true).open(p).unwrap();
            let _ = f.write_all(text.as_bytes());
        }
        let _ = self.inp.write_all(text.as_bytes());
        let _ = self.inp.flush();
        let r = self.line();
        let res = match r.as_str() {
            "sat" => Sat::Sat,
            "unsat" => Sat::Unsat,
            _ => Sat::Unknown,
        };
        let mut model = None;
        if res == Sat::Sat {
            let vs: Vec<usize> = (0..a.vars.len())
                .filter(|&v| self.vemit.get(v).copied().unwrap_or(false))
                .collect();
            let mut m: Vec<i64> = a.vars.iter().map(|v| v.lo + (v.hi - v.lo) / 2).collect();
            // variables that no assertion mentions keep their current value
            for (i, x) in a.model.iter().enumerate() {
                if i < m.len() {
                    m[i] = *x;
                }
            }
            if !vs.is_empty() {
                let names: Vec<String> = vs.iter().map(|v| format!("v{v}")).collect();
                let _ = self.inp.write_all(format!("(get-value ({}))\n", names.join(" ")).as_bytes());
                let _ = self.inp.flush();
                let mut txt = String::new();
                let mut depth = 0i32;
                loop {
                    let l = self.line();
                    if l == "eof" || l.starts_with("(error") {
                        eprintln!("solver: {l}");
                        self.reset();
                        self.stats.unknown += 1;
                        return (Sat::Unknown, None);
                    }
                    for c in l.chars() {
                        match c {
                            '(' => depth += 1,
                            ')' => depth -= 1,
                            _ => {}
                        }
                    }
                    txt.push_str(&l);
                    txt.push(' ');
                    if depth <= 0 {
                        break;
                    }
                }
                for part in txt.split("(v").skip(1) {
                    let mut it = part.split_whitespace();
                    let v: usize = it.next().unwrap().parse().unwrap();
                    let raw = it.next().unwrap().trim_end_matches(')');
                    let x = if let Some(h) = raw.strip_prefix("#x") {
                        u64::from_str_radix(h, 16).unwrap()
                    } else if let Some(h) = raw.strip_prefix("#b") {
                        u64::from_str_radix(h, 2).unwrap()
                    } else {
                        panic!("model value {raw}")
                    };
                    m[v] = (a.vars[v].lo + x as i64).min(a.vars[v].hi);
                }
            }
            model = Some(m);
        }
        if res == Sat::Unknown && r != "unknown" && r != "timeout" {
            eprintln!("solver: {r}");
            self.reset();
        } else {
            self.buf.push_str("(pop 1)\n");
        }
        let dt = t0.elapsed();
        if let Ok(ms) = std::env::var("LSV_SLOW") {
            if dt.as_millis() as u64 > ms.parse::<u64>().unwrap() {
                eprintln!("SLOW {:?} {}ms conds {}", res, dt.as_millis(), conds.len());
                for &c in conds {
                    eprintln!("   {}", a.show_b(c));
                }
                eprintln!("  ? {}", a.show_b(extra));
            }
        }
        self.stats.queries += 1;
        self.stats.time_s += dt.as_secs_f64();
        self.stats.max_ms = self.stats.max_ms.max(dt.as_millis() as u64);
        match res {
            Sat::Sat => self.stats.sat += 1,
            Sat::Unsat => self.stats.unsat += 1,
            Sat::Unknown => self.stats.unknown += 1,
        }
        (res, model)
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
