//! Exhaustive path exploration of a harness with the solver (concolic depth-first search), in parallel.

use crate::dom::*;
use crate::path::*;
use crate::solver::*;
use crate::sym::reset_vals;
use crate::term::*;
use std::collections::{BTreeMap, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

type SymFn = Box<dyn Fn(&mut SymDom) + Send + Sync>;
type NatFn = Box<dyn Fn(&mut NatDom) + Send + Sync>;

pub struct Harness {
    pub name: String,
    pub desc: String,
    pub sym: SymFn,
    pub nat: NatFn,
    pub op_budget: u64,
    pub tie_flips: bool,
    pub merge: bool,
    /// labels that must be reached (vacuity witnesses)
    pub must_cover: Vec<&'static str>,
    /// a panic of the code under test ends the path quietly (never used to hide a violation)
    pub time_s: f64,
    /// compare outputs of the symbolic run bit for bit with the native run
    pub strict: bool,
}

#[derive(Clone, Debug, Default)]
pub struct HStats {
    pub paths: u64,
    pub decisions: u64,
    pub new_decisions: u64,
    pub choices: u64,
    pub asserts: u64,
    pub obligations: u64,
    pub trivial: u64,
    pub discarded: u64,
    pub unsupported: BTreeMap<String, u64>,
    pub ties: u64,
    pub tie_paths: u64,
    pub imprecise: u64,
    pub mismatch_paths: u64,
    pub validated: u64,
    pub bitexact: u64,
    pub solver_unknown: u64,
    pub unconfirmed: u64,
    pub hard: u64,
    pub unconfirmed_notes: Vec<String>,
    pub truncated: u64,
    pub diverged: u64,
    pub covers: BTreeMap<String, u64>,
    pub solver: SolverStats,
    pub ops: u64,
    pub max_depth: u64,
    pub samples: Vec<String>,
    pub wall_s: f64,
}
impl HStats {
    fn merge(&mut self, o: HStats) {
        self.paths += o.paths;
        self.decisions += o.decisions;
        self.new_decisions += o.new_decisions;
        self.choices += o.choices;
        self.asserts += o.asserts;
        self.obligations += o.obligations;
        self.trivial += o.trivial;
        self.discarded += o.discarded;
        for (k, v) in o.unsupported {
            *self.unsupported.entry(k).or_default() += v;
        }
        self.ties += o.ties;
        self.tie_paths += o.tie_paths;
        self.imprecise += o.imprecise;
        self.mismatch_paths += o.mismatch_paths;
        self.validated += o.validated;
        self.bitexact += o.bitexact;
        self.solver_unknown += o.solver_unknown;
        self.unconfirmed += o.unconfirmed;
        self.hard += o.hard;
        self.unconfirmed_notes.extend(o.unconfirmed_notes);
        self.unconfirmed_notes.truncate(8);
        self.truncated += o.truncated;
        self.diverged += o.diverged;
        for (k, v) in o.covers {
            *self.covers.entry(k).or_default() += v;
        }
        self.solver.queries += o.solver.queries;
        self.solver.sat += o.solver.sat;
        self.solver.unsat += o.solver.unsat;
        self.solver.unknown += o.solver.unknown;
        self.solver.time_s += o.solver.time_s;
        self.solver.max_ms = self.solver.max_ms.max(o.solver.max_ms);
        self.ops += o.ops;
        self.max_depth = self.max_depth.max(o.max_depth);
        self.samples.extend(o.samples);
        self.samples.truncate(4);
        self.wall_s = self.wall_s.max(o.wall_s);
    }
}

pub type Record = Vec<(bool, String, i64)>;

#[derive(Clone, Debug)]
pub struct Candidate {
    pub harness: usize,
    pub record: Record,
    pub why: String,
}

struct Item {
    harness: usize,
    model: Vec<(String, i64, i64, i64)>,
    frozen: Vec<(u32, u64)>,
}

struct Shared {
    q: Mutex<(VecDeque<Item>, usize)>, // queue, busy workers
    cv: Condvar,
    waiting: AtomicUsize,
    qlen: AtomicUsize,
    stop: AtomicBool,
    stats: Mutex<Vec<HStats>>,
    violations: Mutex<Vec<Candidate>>,
    hstart: Vec<AtomicU64>, // ms since start when the harness was first worked on (0 = not yet)
    start: Instant,
    deadline: Duration,
    replay: Box<dyn Fn(&Candidate) -> Option<String> + Send + Sync>,
}

// ------------------------------------------------------------------ crash log (memory mapped)
pub const LOG_SIZE: usize = 1 << 16;
thread_local! {
    static LOG: std::cell::Cell<(*mut u8, usize)> = const { std::cell::Cell::new((std::ptr::null_mut(), 0)) };
}
fn map_log(path: &std::path::Path) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap();
    f.set_len(LOG_SIZE as u64).unwrap();
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            LOG_SIZE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        );
        assert!(p != libc::MAP_FAILED);
        LOG.with(|l| l.set((p as *mut u8, 0)));
    }
}
fn log_bytes(b: &[u8]) {
    LOG.with(|l| {
        let (p, off) = l.get();
        if p.is_null() || off + b.len() + 1 >= LOG_SIZE {
            return;
        }
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(off), b.len());
            *p.add(off + b.len()) = 0;
        }
        l.set((p, off + b.len()));
    })
}
pub fn crash_log(choice: bool, name: &str, v: i64) {
    log_bytes(format!("{} {} {}\n", if choice { "c" } else { "i" }, name, v).as_bytes());
}
fn crash_begin(h: &str) {
    LOG.with(|l| {
        let (p, _) = l.get();
        l.set((p, 0));
    });
    log_bytes(format!("h {h}\n").as_bytes());
}
fn crash_end() {
    LOG.with(|l| {
        let (p, _) = l.get();
        if !p.is_null() {
            unsafe { *p = 0 }
        }
        l.set((p, 0));
    });
}

pub fn parse_record(txt: &str) -> Option<(String, Record)> {
    let mut h = None;
    let mut r = vec![];
    for l in txt.lines() {
        let mut it = l.split(' ');
        match it.next() {
            Some("h") => h = Some(it.collect::<Vec<_>>().join(" ")),
            Some(k @ ("i" | "c")) => {
                let name = it.next()?.to_string();
                let v = it.next()?.parse().ok()?;
                r.push((k == "c", name, v));
            }
            _ => {}
        }
    }
    Some((h?, r))
}
pub fn format_record(h: &str, r: &Record) -> String {
    let mut s = format!("h {h}\n");
    for (c, n, v) in r {
        s.push_str(&format!("{} {} {}\n", if *c { "c" } else { "i" }, n, v));
    }
    s
}

// ------------------------------------------------------------------ native runs
pub enum NatResult {
    Held(Vec<f64>),
    Discarded,
    Violated(String),
    Diverged(String),
}
pub fn run_native(h: &Harness, record: &Record) -> NatResult {
    let mut d = NatDom::new(record.clone());
    let r = catch_unwind(AssertUnwindSafe(|| (h.nat)(&mut d)));
    lsv_hooks::set_hook(None);
    if d.discarded {
        return NatResult::Discarded;
    }
    if let Err(e) = r {
        if let Some(m) = d.diverged {
            return NatResult::Diverged(m);
        }
        return NatResult::Violated(format!("panic: {}", payload(&*e)));
    }
    if !d.failures.is_empty() {
        return NatResult::Violated(d.failures.join("; "));
    }
    if let Some(m) = d.diverged {
        return NatResult::Diverged(m);
    }
    NatResult::Held(d.observed)
}
pub fn payload(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

// ------------------------------------------------------------------ worker
struct Worker<'a> {
    sh: &'a Shared,
    hs: &'a [Harness],
    solver: Solver,
    cur: usize,
    st: HStats,
}

fn conds_of(stack: &[Dec], upto: usize) -> Vec<B> {
    let mut v = vec![];
    for d in &stack[..upto] {
        if let Kind::Cond(b) = d.kind {
            v.push(if d.val == 1 { b } else { ar(|a| a.not(b)) });
        }
    }
    v
}

impl<'a> Worker<'a> {
    fn switch(&mut self, h: usize) {
        if self.cur != h {
            self.flush();
            ARENA.with(|a| *a.borrow_mut() = Arena::new());
            self.solver.reset();
            self.cur = h;
        }
    }
    fn flush(&mut self) {
        if self.cur != usize::MAX {
            let mut st = std::mem::take(&mut self.st);
            st.solver = std::mem::take(&mut self.solver.stats);
            st.wall_s = (self.sh.start.elapsed().as_millis() as u64
                - self.sh.hstart[self.cur].load(Ordering::Relaxed)) as f64
                / 1000.0;
            self.sh.stats.lock().unwrap()[self.cur].merge(st);
        }
    }
    fn query(&mut self, conds: &[B], extra: B) -> (Sat, Option<Vec<i64>>) {
        if extra == B_FALSE {
            return (Sat::Unsat, None);
        }
        ARENA.with(|a| self.solver.check(&mut a.borrow_mut(), conds, extra))
    }
    fn named_model(m: &[i64]) -> Vec<(String, i64, i64, i64)> {
        ar(|a| {
            a.vars
                .iter()
                .zip(m.iter())
                .map(|(v, x)| (v.name.clone(), v.lo, v.hi, *x))
                .collect()
        })
    }
    /// a counterexample candidate: replay natively, in another process
    fn candidate(&mut self, record: Record, why: String, exact: bool) -> bool {
        let c = Candidate { harness: self.cur, record, why };
        match (self.sh.replay)(&c) {
            Some(msg) => {
                let mut v = self.sh.violations.lock().unwrap();
                v.push(Candidate { why: format!("{} [native: {}]", c.why, msg), ..c });
                self.sh.stop.store(true, Ordering::SeqCst);
                true
            }
            None => {
                let _ = exact;
                false
            }
        }
    }
    fn record_for(&self, template: &Record, m: &[i64]) -> Record {
        // same program order, values of the model
        ar(|a| {
            template
                .iter()
                .map(|(c, n, v)| {
                    if *c {
                        return (*c, n.clone(), *v);
                    }
                    let x = a
                        .vars
                        .iter()
                        .position(|vi| &vi.name == n)
                        .and_then(|i| m.get(i).copied())
                        .unwrap_or(*v);
                    (false, n.clone(), x)
                })
                .collect()
        })
    }
    fn run_item(&mut self, item: Item) {
        let h = &self.hs[item.harness];
        self.switch(item.harness);
        let _ = self.sh.hstart[item.harness].compare_exchange(
            0,
            (self.sh.start.elapsed().as_millis() as u64).max(1),
            Ordering::Relaxed,
            Ordering::Relaxed,
        );
        // declare the variables of the model
        let mut m = vec![];
        for (n, lo, hi, v) in &item.model {
            let (id, _) = ar(|a| a.var(n, *lo, *hi));
            while m.len() <= id as usize {
                m.push(0);
            }
            m[id as usize] = *v;
        }
        // defaults of variables declared earlier on this thread but absent from the item's model
        ar(|a| {
            for i in 0..a.vars.len() {
                let known = item.model.iter().any(|x| x.0 == a.vars[i].name && x.1 == a.vars[i].lo && x.2 == a.vars[i].hi);
                if !known {
                    let d = a.vars[i].lo + (a.vars[i].hi - a.vars[i].lo) / 2;
                    if i < m.len() {
                        m[i] = d
                    } else {
                        m.push(d)
                    }
                }
            }
            a.set_model(m)
        });
        path(|p| {
            p.stack.clear();
            p.frozen = item.frozen.clone();
            p.op_budget = h.op_budget;
            p.tie_flips = h.tie_flips;
            p.merge_minmax = h.merge;
        });
        let frozen = item.frozen.len();
        loop {
            if self.sh.stop.load(Ordering::Relaxed) {
                self.st.truncated += 1;
                return;
            }
            let now = self.sh.start.elapsed();
            let hs = self.sh.hstart[item.harness].load(Ordering::Relaxed) as f64 / 1000.0;
            if now > self.sh.deadline || now.as_secs_f64() - hs > h.time_s {
                self.st.truncated += 1;
                return;
            }
            reset_vals();
            reset_exs();
            path(|p| p.begin());
            crash_begin(&h.name);
            let before = path(|p| p.stack.len());
            let r = catch_unwind(AssertUnwindSafe(|| (h.sym)(&mut SymDom)));
            path(|p| p.active = false);
            lsv_hooks::set_hook(None);
            crash_end();
            let (record, goals, ties, mism, impr) = path(|p| {
                (p.record.clone(), std::mem::take(&mut p.goals), p.ties, p.shadow_mismatch, p.imprecise)
            });
            path(|p| {
                self.st.paths += 1;
                self.st.decisions += p.pos as u64;
                self.st.new_decisions += (p.stack.len() - before.min(p.stack.len())) as u64;
                self.st.asserts += p.asserts;
                self.st.ops += p.ops;
                self.st.ties += p.ties;
                self.st.imprecise += p.imprecise;
                self.st.max_depth = self.st.max_depth.max(p.stack.len() as u64);
                if p.ties > 0 {
                    self.st.tie_paths += 1
                }
                if p.shadow_mismatch > 0 {
                    self.st.mismatch_paths += 1
                }
                // a run that stopped early leaves stale deeper decisions: none, the stack only grows in order
                p.stack.truncate(p.pos);
            });
            let conds = path(|p| conds_of(&p.stack, p.stack.len()));
            match r {
                Ok(()) => {
                    for c in path(|p| std::mem::take(&mut p.covers)) {
                        *self.st.covers.entry(c).or_default() += 1;
                    }
                    let all = ar(|a| {
                        let mut g = B_TRUE;
                        for x in &goals {
                            g = a.and(g, x.cond);
                        }
                        g
                    });
                    let mut bad = false;
                    if all == B_TRUE {
                        self.st.trivial += 1;
                    } else {
                        let holds = ar(|a| a.beval(all));
                        let label = |g: &[Goal]| {
                            ar(|a| {
                                g.iter()
                                    .filter(|x| !a.beval(x.cond))
                                    .map(|x| x.label.clone())
                                    .collect::<Vec<_>>()
                                    .join("; ")
                            })
                        };
                        let mut tried = 0;
                        let mut cands: Vec<Record> = vec![];
                        let mut why = String::new();
                        if !holds {
                            why = label(&goals);
                            cands.push(record.clone());
                        }
                        let neg = ar(|a| a.not(all));
                        let mut extra = neg;
                        let keep = ar(|a| a.model.clone());
                        loop {
                            if let Some(c) = cands.pop() {
                                tried += 1;
                                if self.candidate(c.clone(), why.clone(), ties == 0 && impr == 0) {
                                    return;
                                }
                                if tried == 1 {
                                    self.st.hard += (ties == 0 && impr == 0 && mism == 0) as u64;
                                    self.st.unconfirmed_notes.push(format!(
                                        "{}: {} (ties={}, mismatches={}) {}",
                                        h.name,
                                        why,
                                        ties,
                                        mism,
                                        format_record(&h.name, &c).replace('\n', " ")
                                    ));
                                }
                                bad = true;
                                if tried >= 6 {
                                    break;
                                }
                                // ask for a model that differs in one chosen variable
                                let vars: Vec<(String, i64)> = c.iter().filter(|x| !x.0).map(|x| (x.1.clone(), x.2)).collect();
                                if vars.is_empty() {
                                    break;
                                }
                                let pick = vars[(self.st.paths as usize + tried * 7) % vars.len()].clone();
                                extra = ar(|a| {
                                    let t = a.vars.iter().find(|v| v.name == pick.0).map(|v| v.term);
                                    match t {
                                        Some(t) => {
                                            let k = a.cst(pick.1 as i128);
                                            let df = a.sub(t, k);
                                            let ne = a.sgn(df, NEG | POS);
                                            a.and(extra, ne)
                                        }
                                        None => B_FALSE,
                                    }
                                });
                            }
                            self.st.obligations += (tried == 0) as u64;
                            let (s, m) = self.query(&conds, extra);
                            match s {
                                Sat::Unsat => break,
                                Sat::Unknown => {
                                    self.st.solver_unknown += 1;
                                    break;
                                }
                                Sat::Sat => {
                                    let m = m.unwrap();
                                    let rec = self.record_for(&record, &m);
                                    ar(|a| a.set_model(m));
                                    why = label(&goals);
                                    ar(|a| a.set_model(keep.clone()));
                                    cands.push(rec);
                                }
                            }
                        }
                        if bad {
                            self.st.unconfirmed += 1;
                        }
                    }
                    // validate the path's representative on the real f64 code
                    if !bad {
                        match run_native(h, &record) {
                            NatResult::Held(obs) => {
                                self.st.validated += 1;
                                let ob = path(|p| std::mem::take(&mut p.observed));
                                if obs.len() == ob.len()
                                    && obs.iter().zip(&ob).all(|(x, y)| x == y || (x.is_nan() && y.is_nan()))
                                {
                                    self.st.bitexact += 1;
                                } else if h.strict && mism == 0 {
                                    self.st.unconfirmed += 1;
                                    self.st.unconfirmed_notes.push(format!(
                                        "{}: symbolic and native outputs differ {:?} {:?}: {}",
                                        h.name, ob, obs, format_record(&h.name, &record).replace('\n', " ")
                                    ));
                                }
                            }
                            NatResult::Discarded => {}
                            NatResult::Violated(w) => {
                                if self.candidate(record.clone(), format!("native run of an explored path: {w}"), true) {
                                    return;
                                }
                            }
                            NatResult::Diverged(_) => {
                                self.st.diverged += 1;
                            }
                        }
                    }
                    if self.st.samples.len() < 3 {
                        self.st.samples.push(format!(
                            "{}: {} decisions, {} goals; {}",
                            h.name,
                            path(|p| p.pos),
                            goals.len(),
                            format_record(&h.name, &record).replace('\n', " ")
                        ));
                    }
                }
                Err(e) => {
                    if let Some(s) = e.downcast_ref::<Stop>() {
                        match s {
                            Stop::Discard => {
                                self.st.discarded += 1;
                                self.st.paths -= 1;
                            }
                            Stop::Budget => {
                                if self.candidate(record.clone(), "no result within the operation budget".into(), true) {
                                    return;
                                }
                                *self.st.unsupported.entry("operation budget".into()).or_default() += 1;
                            }
                            Stop::Unsupported(w) => {
                                *self.st.unsupported.entry(w.clone()).or_default() += 1;
                                self.native_probe(h, &record);
                                if self.sh.stop.load(Ordering::Relaxed) {
                                    return;
                                }
                            }
                            Stop::Diverged(w) => {
                                self.st.diverged += 1;
                                if self.st.unconfirmed_notes.len() < 4 {
                                    self.st.unconfirmed_notes.push(format!("diverged: {w}"));
                                }
                                if self.st.diverged > 50 {
                                    self.st.truncated += 1;
                                    return;
                                }
                            }
                        }
                    } else if let Some(s) = e.downcast_ref::<EngineError>() {
                        *self.st.unsupported.entry(s.0.clone()).or_default() += 1;
                        self.native_probe(h, &record);
                        if self.sh.stop.load(Ordering::Relaxed) {
                            return;
                        }
                    } else {
                        let w = format!("panic: {}", payload(&*e));
                        if w.contains("symbolic value used outside its path") {
                            *self.st.unsupported.entry("other thread".into()).or_default() += 1;
                        } else {
                            if self.candidate(record.clone(), w.clone(), ties == 0) {
                                return;
                            }
                            self.st.unconfirmed += 1;
                            self.st.unconfirmed_notes.push(format!(
                                "{}: {w} (ties={ties}) {}",
                                h.name,
                                format_record(&h.name, &record).replace('\n', " ")
                            ));
                        }
                    }
                }
            }
            // give work away
            while self.sh.waiting.load(Ordering::Relaxed) > self.sh.qlen.load(Ordering::Relaxed) && self.donate(frozen) {}
            // next path
            if !self.backtrack(frozen) {
                return;
            }
        }
    }
    /// a path outside the encoding: at least its representative is checked natively
    fn native_probe(&mut self, h: &Harness, record: &Record) {
        if let NatResult::Violated(w) = run_native(h, record) {
            let _ = self.candidate(record.clone(), format!("native run of a path outside the encoding: {w}"), true);
        }
    }
    fn backtrack(&mut self, frozen: usize) -> bool {
        loop {
            let top = path(|p| p.stack.last().cloned());
            let Some(d) = top else { return false };
            let n = path(|p| p.stack.len());
            if n <= frozen {
                return false;
            }
            match d.kind {
                Kind::Cond(b) => {
                    if d.flipped {
                        path(|p| p.stack.pop());
                        continue;
                    }
                    let conds = path(|p| conds_of(&p.stack, n - 1));
                    let other = if d.val == 1 { ar(|a| a.not(b)) } else { b };
                    let (s, m) = self.query(&conds, other);
                    match s {
                        Sat::Sat => {
                            ar(|a| a.set_model(m.unwrap()));
                            path(|p| {
                                let t = p.stack.last_mut().unwrap();
                                t.val = 1 - t.val;
                                t.flipped = true;
                            });
                            return true;
                        }
                        Sat::Unsat => {
                            path(|p| p.stack.pop());
                        }
                        Sat::Unknown => {
                            self.st.solver_unknown += 1;
                            path(|p| p.stack.pop());
                        }
                    }
                }
                _ => {
                    if d.val + 1 < d.limit {
                        path(|p| p.stack.last_mut().unwrap().val += 1);
                        self.st.choices += 1;
                        return true;
                    }
                    path(|p| p.stack.pop());
                }
            }
        }
    }
    fn donate(&mut self, frozen: usize) -> bool {
        let stack = path(|p| p.stack.clone());
        for (i, d) in stack.iter().enumerate().skip(frozen) {
            let mut fz: Vec<(u32, u64)> = vec![];
            let abs = |d: &Dec| match d.kind {
                Kind::Cond(_) => (d.val, d.fp),
                _ => ((d.val + d.base) % d.n, d.fp),
            };
            match d.kind {
                Kind::Cond(b) if !d.flipped => {
                    let conds = conds_of(&stack, i);
                    let other = if d.val == 1 { ar(|a| a.not(b)) } else { b };
                    let (s, m) = self.query(&conds, other);
                    path(|p| p.stack[i].flipped = true);
                    match s {
                        Sat::Unsat => continue,
                        Sat::Unknown => {
                            self.st.solver_unknown += 1;
                            continue;
                        }
                        Sat::Sat => {}
                    }
                    fz.extend(stack[..i].iter().map(abs));
                    fz.push((1 - d.val, d.fp));
                    let item = Item { harness: self.cur, model: Self::named_model(&m.unwrap()), frozen: fz };
                    self.push(item);
                    return true;
                }
                Kind::Choice | Kind::Tie if d.val + 1 < d.limit => {
                    let v = d.limit - 1;
                    path(|p| p.stack[i].limit -= 1);
                    fz.extend(stack[..i].iter().map(abs));
                    fz.push(((v + d.base) % d.n, d.fp));
                    let m = ar(|a| a.model.clone());
                    // the current model satisfies the prefix
                    let item = Item { harness: self.cur, model: Self::named_model(&m), frozen: fz };
                    self.push(item);
                    return true;
                }
                _ => {}
            }
        }
        false
    }
    fn push(&self, item: Item) {
        let mut q = self.sh.q.lock().unwrap();
        q.0.push_back(item);
        self.sh.qlen.store(q.0.len(), Ordering::Relaxed);
        self.sh.cv.notify_one();
    }
    fn main(&mut self) {
        loop {
            let item = {
                let mut q = self.sh.q.lock().unwrap();
                loop {
                    let pos = q.0.iter().position(|i| i.harness == self.cur);
                    if let Some(i) = pos.or(if q.0.is_empty() { None } else { Some(0) }) {
                        q.1 += 1;
                        let it = q.0.remove(i);
                        self.sh.qlen.store(q.0.len(), Ordering::Relaxed);
                        break it;
                    }
                    if q.1 == 0 || self.sh.stop.load(Ordering::Relaxed) {
                        self.sh.cv.notify_all();
                        break None;
                    }
                    self.sh.waiting.fetch_add(1, Ordering::Relaxed);
                    let (g, _) = self.sh.cv.wait_timeout(q, Duration::from_millis(20)).unwrap();
                    q = g;
                    self.sh.waiting.fetch_sub(1, Ordering::Relaxed);
                }
            };
            let Some(item) = item else { break };
            self.run_item(item);
            let mut q = self.sh.q.lock().unwrap();
            q.1 -= 1;
            if q.1 == 0 && q.0.is_empty() {
                self.sh.cv.notify_all();
            }
        }
        self.flush();
    }
}

pub struct Outcome {
    pub stats: Vec<HStats>,
    pub violations: Vec<Candidate>,
    pub wall_s: f64,
}

pub fn explore(
    hs: &[Harness],
    threads: usize,
    deadline: Duration,
    solver_ms: u64,
    run_dir: &std::path::Path,
    replay: Box<dyn Fn(&Candidate) -> Option<String> + Send + Sync>,
) -> Outcome {
    let start = Instant::now();
    let mut q = VecDeque::new();
    for i in 0..hs.len() {
        q.push_back(Item { harness: i, model: vec![], frozen: vec![] });
    }
    let sh = Arc::new(Shared {
        q: Mutex::new((q, 0)),
        cv: Condvar::new(),
        waiting: AtomicUsize::new(0),
        qlen: AtomicUsize::new(hs.len()),
        stop: AtomicBool::new(false),
        stats: Mutex::new(vec![HStats::default(); hs.len()]),
        violations: Mutex::new(vec![]),
        hstart: (0..hs.len()).map(|_| AtomicU64::new(0)).collect(),
        start,
        deadline,
        replay,
    });
    std::thread::scope(|s| {
        for w in 0..threads {
            let sh = sh.clone();
            let log = run_dir.join(format!("worker-{w}.log"));
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(s, move || {
                    map_log(&log);
                    let mut wk = Worker { sh: &sh, hs, solver: Solver::new(solver_ms), cur: usize::MAX, st: HStats::default() };
                    wk.main();
                })
                .unwrap();
        }
    });
    let stats = sh.stats.lock().unwrap().clone();
    let violations = sh.violations.lock().unwrap().clone();
    Outcome { stats, violations, wall_s: start.elapsed().as_secs_f64() }
}
