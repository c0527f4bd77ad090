//! Solver-based checking of the `linestring` crate: see ../DESIGN.md.
mod dom;
mod explore;
mod path;
mod props;
mod solver;
mod sym;
mod term;

use explore::*;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub functions: &'static [&'static str],
    pub bounds: String,
    pub assumptions: Vec<String>,
    pub harnesses: Vec<Harness>,
}

fn verif_dir() -> PathBuf {
    std::env::var("LSV_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","))
}

fn limit_as(bytes: u64) {
    unsafe {
        let r = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
}

/// run one record natively in a child process; Some(reason) if the property fails there
fn replay_child(prop: &str, tier: &str, file: &Path, secs: u64) -> Option<String> {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe)
        .args(["native", prop, tier, file.to_str().unwrap()])
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .ok()?;
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(st)) => {
                let mut out = String::new();
                use std::io::Read;
                let _ = c.stdout.take().unwrap().read_to_string(&mut out);
                return match st.code() {
                    Some(0) | Some(4) => None,
                    Some(3) => {
                        println!("internal error: a record could not be replayed");
                        None
                    }
                    Some(1) => Some(out.trim().to_string()),
                    _ => Some(format!("the real code crashed ({st})")),
                };
            }
            Ok(None) => {
                if t0.elapsed() > Duration::from_secs(secs) {
                    let _ = c.kill();
                    let _ = c.wait();
                    return Some(format!("the real code did not finish within {secs} s"));
                }
                std::thread::sleep(Duration::from_millis(5));
            }
            Err(_) => return None,
        }
    }
}

fn find_harness<'a>(p: &'a Prop, name: &str) -> Option<&'a Harness> {
    p.harnesses.iter().find(|h| h.name == name)
}

fn native_cmd(prop: &str, tier: &str, file: &str) -> i32 {
    limit_as(6 << 30);
    std::panic::set_hook(Box::new(|_| {}));
    let txt = std::fs::read_to_string(file).unwrap();
    let Some((h, rec)) = parse_record(&txt) else { return 3 };
    let mut p = props::property(prop, tier).unwrap();
    if find_harness(&p, &h).is_none() {
        p = props::property(prop, if tier == "quick" { "thorough" } else { "quick" }).unwrap();
    }
    let Some(hh) = find_harness(&p, &h) else { return 3 };
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, || match run_native(hh, &rec) {
                NatResult::Held(_) => (0, "held".to_string()),
                NatResult::Discarded => (4, "input outside the precondition".into()),
                NatResult::Diverged(m) => (4, m),
                NatResult::Violated(m) => (1, m),
            })
            .unwrap()
            .join()
            .unwrap_or((1, "panic".into()))
    });
    println!("{}", r.1);
    r.0
}

fn write_replay(prop: &str, tier: &str, c_h: &str, rec: &Record, why: &str) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let body = format_record(c_h, rec);
    let mut h = 0xcbf29ce484222325u64;
    for b in body.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let p = dir.join(format!("{prop}-{:08x}.txt", h as u32));
    let txt = format!(
        "# property {prop}: {}\n# replay: bash /verif/check.sh replay {prop} {}\n# tier {tier}\n{body}",
        why.replace('\n', " "),
        p.display()
    );
    let _ = std::fs::write(&p, txt);
    p
}

struct Known {
    property: String,
    harness: String,
    record: Record,
    what: String,
}
/// known_findings.txt: blocks "known <property> | <what>", then the record lines; "fixed: ..." lines are ignored
fn known_findings() -> Vec<Known> {
    let txt = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    let mut v: Vec<Known> = vec![];
    for l in txt.lines() {
        if let Some(r) = l.strip_prefix("known: property=") {
            let (p, w) = r.split_once(' ').unwrap_or((r, ""));
            v.push(Known { property: p.into(), harness: String::new(), record: vec![], what: w.into() });
        } else if let Some(k) = v.last_mut() {
            let l = l.trim();
            if let Some(h) = l.strip_prefix("h ") {
                k.harness = h.into();
            } else if l.starts_with("i ") || l.starts_with("c ") {
                let f: Vec<&str> = l.split(' ').collect();
                k.record.push((f[0] == "c", f[1].into(), f[2].parse().unwrap()));
            }
        }
    }
    v
}

fn work_cmd(id: &str, tier: &str, run_dir: &Path) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let t0 = Instant::now();
    let Some(mut p) = props::property(id, tier) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    // witnesses of known findings are replayed, not explored
    let hs: Vec<Harness> = std::mem::take(&mut p.harnesses).into_iter().filter(|h| !h.name.starts_with("kf:"))
        .filter(|h| std::env::var("LSV_ONLY").map_or(true, |o| h.name == o))
        .collect();
    let threads = std::env::var("LSV_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    let limit = std::env::var("LSV_LIMIT_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == "quick" { 240 } else { 3600 });
    if std::env::var("LSV_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let (id2, tier2, rd) = (id.to_string(), tier.to_string(), run_dir.to_path_buf());
    let names: Vec<String> = hs.iter().map(|h| h.name.clone()).collect();
    let ctr = std::sync::atomic::AtomicU64::new(0);
    let out = explore(
        &hs,
        threads,
        Duration::from_secs(limit),
        if tier == "quick" { 20_000 } else { 120_000 },
        run_dir,
        Box::new(move |c| {
            let n = ctr.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let f = rd.join(format!("cand-{n}.txt"));
            std::fs::write(&f, format_record(&names[c.harness], &c.record)).ok()?;
            let r = replay_child(&id2, &tier2, &f, 20);
            let _ = std::fs::remove_file(&f);
            r
        }),
    );
    let mut code = 0;
    let mut tot = HStatsSum::default();
    let mut notes: Vec<String> = vec![];
    let mut per: Vec<String> = vec![];
    let mut missing: Vec<String> = vec![];
    for (h, s) in hs.iter().zip(&out.stats) {
        tot.add(s);
        let complete = s.truncated == 0 && s.solver_unknown == 0 && s.diverged == 0 && s.unsupported.is_empty();
        per.push(format!(
            "{{\"harness\":{},\"bound\":{},\"paths\":{},\"decisions\":{},\"queries\":{},\"unsat\":{},\"sat\":{},\"unknown\":{},\"solver_s\":{:.2},\"max_query_ms\":{},\"obligations\":{},\"asserts\":{},\"validated_natively\":{},\"bit_exact_outputs\":{},\"ties\":{},\"tie_paths\":{},\"unconfirmed\":{},\"outside_precondition\":{},\"unsupported\":{},\"complete\":{},\"wall_s\":{:.1},\"reached\":{}}}",
            esc(&h.name), esc(&h.desc), s.paths, s.decisions, s.solver.queries, s.solver.unsat, s.solver.sat, s.solver.unknown,
            s.solver.time_s, s.solver.max_ms, s.obligations, s.asserts, s.validated, s.bitexact, s.ties, s.tie_paths, s.unconfirmed,
            s.discarded, arr(&s.unsupported.iter().map(|(k, v)| format!("{k} x{v}")).collect::<Vec<_>>()), complete, s.wall_s,
            arr(&s.covers.iter().map(|(k, v)| format!("{k} x{v}")).collect::<Vec<_>>())
        ));
        println!(
            "{:<34} paths {:>7} dec {:>8} q {:>7} unsat {:>7} solver {:>6.1}s obl {:>6} val {:>6} bit {:>6} ties {:>5} unconf {:>3}/{} disc {:>4} unk {} {}{}{} [{:.1}s]",
            h.name, s.paths, s.new_decisions, s.solver.queries, s.solver.unsat, s.solver.time_s, s.obligations, s.validated, s.bitexact,
            s.ties, s.unconfirmed, s.hard, s.discarded, s.solver_unknown,
            if complete { "complete" } else { "PARTIAL" },
            if s.truncated > 0 { " (time)" } else { "" },
            s.unsupported.iter().map(|(k, v)| format!(" !{k} x{v}")).collect::<String>(),
            s.wall_s
        );
        if std::env::var("LSV_V").is_ok() {
            println!("    covers {:?} depth {} trivial {} mism {} imprecise {} diverged {}", s.covers, s.max_depth, s.trivial, s.mismatch_paths, s.imprecise, s.diverged);
        }
        for n in &s.unconfirmed_notes {
            notes.push(n.clone());
        }
        for m in &h.must_cover {
            if !s.covers.contains_key(*m) && s.truncated == 0 {
                missing.push(format!("{}:{m}", h.name));
            }
        }
        if s.paths == 0 && out.violations.is_empty() {
            missing.push(format!("{}:no path", h.name));
        }
    }
    for n in notes.iter().take(8) {
        println!("note: {n}");
    }
    let complete = out.stats.iter().all(|s| s.truncated == 0 && s.solver_unknown == 0 && s.diverged == 0 && s.unsupported.is_empty());
    // known findings
    let mut known = vec![];
    for k in known_findings().iter().filter(|k| k.property == id) {
        let f = run_dir.join("known.txt");
        let _ = std::fs::write(&f, format_record(&k.harness, &k.record));
        if let Some(m) = replay_child(id, tier, &f, 20) {
            println!("KNOWN-FINDING: property={id} {}", k.what);
            known.push(format!("{} [{}]", k.what, m));
        }
    }
    for v in &out.violations {
        let f = write_replay(id, tier, &hs[v.harness].name, &v.record, &v.why);
        println!("counterexample: {} {}", hs[v.harness].name, v.why);
        println!("  input: {}", format_record(&hs[v.harness].name, &v.record).replace('\n', " "));
        println!("VIOLATION property={id} replay={}", f.display());
        code = 1;
    }
    let ev = format!(
        "{{\n\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\n\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhaustive\":{},\n\"explanation\":{},\n\"functions_encoded\":{},\n\"bounds\":{},\n\"queries\":{},\"queries_unsat\":{},\"queries_sat\":{},\"queries_unknown\":{},\"solver_time_s\":{:.2},\"obligations_sent_to_solver\":{},\"assertions_on_paths\":{},\"assertions_closed_by_path_facts\":{},\"bit_exact_outputs\":{},\"unconfirmed_tie_counterexamples\":{},\"paths_outside_encoding\":{},\n\"solver\":{},\n\"harnesses\":[{}],\n\"known_findings\":{},\n\"notes\":{},\n\"samples\":{}}},\n\"assumptions\":{},\n\"violations\":{},\"wall_s\":{:.2}\n}}\n",
        esc(id), esc(tier), seed, tot.paths, tot.new_dec.max(tot.dec.min(1)), tot.validated, complete && code == 0,
        esc("states = execution paths of the real generic code over symbolic coordinates, each covering every input of its path condition; transitions = branch decisions taken or refuted by the solver; a path's obligation is the negated property under its path condition (unsat required); every path's representative input was also run on the real f64 code."),
        arr(&p.functions.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
        esc(&p.bounds), tot.queries, tot.unsat, tot.sat, tot.unknown, tot.solver_s, tot.obl, tot.asserts, tot.asserts - tot.obl.min(tot.asserts), tot.bit, tot.unconf, tot.unsup,
        esc(&solver_version()), per.join(",\n"), arr(&known), arr(&notes),
        arr(&out.stats.iter().flat_map(|s| s.samples.iter().take(2).cloned()).take(12).collect::<Vec<_>>()),
        arr(&p.assumptions), out.violations.len(), t0.elapsed().as_secs_f64()
    );
    let evd = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    std::fs::write(evd.join(format!("{id}.json")), ev).unwrap();
    if code == 0 && !missing.is_empty() {
        println!("VACUOUS: not reached: {}", missing.join(", "));
        return 2;
    }
    if code == 0 && tot.validated == 0 {
        println!("VACUOUS: no path was validated");
        return 2;
    }
    println!(
        "{id} {tier}: {} paths, {} queries ({} unsat), solver {:.1}s, wall {:.1}s, {}",
        tot.paths, tot.queries, tot.unsat, tot.solver_s, t0.elapsed().as_secs_f64(),
        if code == 1 { "VIOLATED" } else if complete { "held on everything within the bounds" } else { "held on everything explored (not exhaustive)" }
    );
    code
}

#[derive(Default)]
struct HStatsSum {
    paths: u64,
    dec: u64,
    new_dec: u64,
    queries: u64,
    unsat: u64,
    sat: u64,
    unknown: u64,
    solver_s: f64,
    obl: u64,
    asserts: u64,
    validated: u64,
    bit: u64,
    unconf: u64,
    unsup: u64,
}
impl HStatsSum {
    fn add(&mut self, s: &HStats) {
        self.paths += s.paths;
        self.dec += s.decisions;
        self.new_dec += s.new_decisions;
        self.queries += s.solver.queries;
        self.unsat += s.solver.unsat;
        self.sat += s.solver.sat;
        self.unknown += s.solver.unknown;
        self.solver_s += s.solver.time_s;
        self.obl += s.obligations;
        self.asserts += s.asserts;
        self.validated += s.validated;
        self.bit += s.bitexact;
        self.unconf += s.unconfirmed;
        self.unsup += s.unsupported.values().sum::<u64>();
    }
}
fn solver_version() -> String {
    let cmd = std::env::var("LSV_SOLVER").unwrap_or_else(|_| "z3-new".into());
    let o = Command::new(&cmd).arg("--version").output();
    format!("{} (QF_UFBV logic, bit-vector encodings, incremental)", o.map(|o| String::from_utf8_lossy(&o.stdout).trim().to_string()).unwrap_or(cmd))
}

fn check_cmd(id: &str, tier: &str) -> i32 {
    let run_dir = verif_dir().join("target").join(format!("run-{id}-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&run_dir);
    let exe = std::env::current_exe().unwrap();
    let mut child = Command::new(exe)
        .args(["work", id, tier, run_dir.to_str().unwrap()])
        .spawn()
        .expect("worker");
    // a watchdog on the workers' logs: a path that makes no progress is replayed natively
    let limit: u64 = if tier == "quick" { 600 } else { 5400 };
    let t0 = Instant::now();
    let mut last: std::collections::HashMap<PathBuf, (Vec<u8>, Instant)> = Default::default();
    let mut next = Instant::now() + Duration::from_secs(5);
    let mut code = None;
    loop {
        match child.try_wait() {
            Ok(Some(st)) => {
                code = Some(st);
                break;
            }
            _ => std::thread::sleep(Duration::from_millis(20)),
        }
        if Instant::now() > next {
            next = Instant::now() + Duration::from_secs(5);
            let mut stuck = false;
            for e in std::fs::read_dir(&run_dir).into_iter().flatten().flatten() {
                if !e.file_name().to_string_lossy().starts_with("worker-") {
                    continue;
                }
                let b = std::fs::read(e.path()).unwrap_or_default();
                let en = last.entry(e.path()).or_insert_with(|| (b.clone(), Instant::now()));
                if en.0 != b {
                    *en = (b, Instant::now());
                } else if b.first().copied().unwrap_or(0) != 0 && en.1.elapsed() > Duration::from_secs(40) {
                    stuck = true;
                }
            }
            if stuck || t0.elapsed().as_secs() > limit {
                let _ = child.kill();
                let _ = child.wait();
                break;
            }
        }
    }
    let rc = match code.and_then(|c| c.code()) {
        Some(c @ (0 | 1 | 2 | 3)) => c,
        _ => {
            // crashed or hung: replay the inputs in progress on the real code
            println!("the exploration stopped abnormally; replaying the inputs in progress");
            let mut rc = 2;
            for e in std::fs::read_dir(&run_dir).into_iter().flatten().flatten() {
                if !e.file_name().to_string_lossy().starts_with("worker-") {
                    continue;
                }
                let b = std::fs::read(e.path()).unwrap_or_default();
                let end = b.iter().position(|c| *c == 0).unwrap_or(b.len());
                let txt = String::from_utf8_lossy(&b[..end]).to_string();
                let Some((h, rec)) = parse_record(&txt) else { continue };
                let f = run_dir.join("crash.txt");
                let _ = std::fs::write(&f, &txt);
                if let Some(m) = replay_child(id, tier, &f, 20) {
                    let p = write_replay(id, tier, &h, &rec, &m);
                    println!("counterexample: {h} {m}");
                    println!("VIOLATION property={id} replay={}", p.display());
                    rc = 1;
                    let evd = verif_dir().join("evidence");
                    let _ = std::fs::create_dir_all(&evd);
                    let _ = std::fs::write(
                        evd.join(format!("{id}.json")),
                        format!(
                            "{{\"property\":{},\"tier\":{},\"seed\":1,\"level\":\"other\",\"coverage\":{{\"explanation\":{}}},\"violations\":1,\"wall_s\":{:.1}}}\n",
                            esc(id), esc(tier), esc(&format!("the exploration stopped on an input on which the real code crashes or hangs: {m}")), t0.elapsed().as_secs_f64()
                        ),
                    );
                    break;
                }
            }
            rc
        }
    };
    let _ = std::fs::remove_dir_all(&run_dir);
    let _ = std::io::stdout().flush();
    rc
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let rc = match a[1..] {
        ["check", id, tier] => check_cmd(id, tier),
        ["work", id, tier, dir] => {
            limit_as(26 << 30);
            work_cmd(id, tier, Path::new(dir))
        }
        ["native", id, tier, file] => native_cmd(id, tier, file),
        ["replay", id, file] => match replay_child(id, "quick", Path::new(file), 20) {
            Some(m) => {
                println!("VIOLATED: {m}");
                1
            }
            None => {
                println!("held");
                0
            }
        },
        ["list"] => {
            for p in props::IDS {
                println!("{p}");
            }
            0
        }
        _ => {
            eprintln!("usage: lsverify check|replay|list ...");
            2
        }
    };
    std::process::exit(rc);
}
