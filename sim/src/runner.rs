//! Seeded search: a parent process supervises single-threaded workers, so aborts and hangs of the
//! code under test are observed, minimised and replayed like any other violation.

use crate::case::*;
use crate::props::{self, Prop};
use crate::rng::{mix, mix_str};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fs;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        if crate::listener::EXPECT_PANIC.with(|e| e.get()) {
            return;
        }
        let mut loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if loc.contains("/b2_common.rs:") {
            // An engine assertion: name the line that asserted.
            let bt = std::backtrace::Backtrace::force_capture().to_string();
            if let Some(l) = bt.lines().map(|l| l.trim()).filter(|l| l.starts_with("at ") && l.contains("/repo/src/") && !l.contains("/b2_common.rs:")).next() {
                let l = l.trim_start_matches("at ");
                loc = l.rsplit_once(':').map(|x| x.0.to_string()).unwrap_or(l.to_string());
            }
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{m} at {loc}"));
    }));
}

pub fn run_seed(base: u64, id: &str, i: u64) -> u64 {
    mix(mix_str(base, id).wrapping_add(mix(i))) >> 11
}

/// Give the engine's process-wide switch and counters the same values at the start of every run.
fn reset_globals(case: &Case) {
    use box2d_rs::{b2_contact::*, b2_distance::*, b2_time_of_impact::*};
    use std::sync::atomic::Ordering::SeqCst;
    G_BLOCK_SOLVE.store(!case.on("no_block"), SeqCst);
    for c in [&B2_GJK_CALLS, &B2_GJK_ITERS, &B2_GJK_MAX_ITERS, &B2_TOI_CALLS, &B2_TOI_ITERS, &B2_TOI_MAX_ITERS, &B2_TOI_ROOT_ITERS, &B2_TOI_MAX_ROOT_ITERS] {
        c.store(0, SeqCst);
    }
}

/// Run one case in this process.
pub fn run_case(p: &Prop, case: &Case) -> (Option<Violation>, Ctx) {
    crate::clock::install();
    crate::clock::reset(100 + case.seed % 1000);
    crate::user::reset_live();
    reset_globals(case);
    let mut ctx = Ctx::new();
    let r = catch_unwind(AssertUnwindSafe(|| (p.run)(case, &mut ctx)));
    ctx.st.runs = 1;
    let v = match r {
        Ok(Ok(())) => None,
        Ok(Err(v)) => Some(v),
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            let loc = m.rsplit(" at ").next().unwrap_or("").to_string();
            Some(Violation { kind: format!("panic@{loc}"), detail: m, at: 0 })
        }
    };
    if ctx.reached {
        ctx.st.nontrivial = 1;
        let s = ctx.sig.0;
        ctx.st.sigs.insert(s);
    }
    (v, ctx)
}

#[derive(Serialize, Deserialize)]
struct WorkerOut {
    stats: Stats,
    violation: Option<(u64, Violation)>,
    digests: BTreeMap<u64, u64>,
    samples: Vec<String>,
}

/// Worker: run the indices start, start+n, … below total.
pub fn worker(args: &[String]) -> i32 {
    let id = &args[0];
    let base: u64 = args[1].parse().unwrap();
    let (start, n, total): (u64, u64, u64) = (args[2].parse().unwrap(), args[3].parse().unwrap(), args[4].parse().unwrap());
    let thorough = args[5] == "thorough";
    let out = PathBuf::from(&args[6]);
    let deadline = Instant::now() + Duration::from_secs(args[7].parse().unwrap());
    let p = props::find(id).expect("property");
    let prog = fs::OpenOptions::new().create(true).write(true).open(out.with_extension("prog")).unwrap();
    let mut w = WorkerOut { stats: Stats::default(), violation: None, digests: BTreeMap::new(), samples: vec![] };
    let mut i = start;
    while i < total {
        if Instant::now() > deadline {
            break;
        }
        prog.write_at(&(i + 1).to_le_bytes(), 0).unwrap();
        let case = (p.gen)(run_seed(base, id, i), thorough);
        let (v, ctx) = run_case(p, &case);
        if i < 24 {
            w.digests.insert(i, ctx.digest.0);
        }
        if w.samples.len() < 2 && ctx.reached {
            w.samples.push(format!("run {i}: seed {} ops {} signature {:016x}", case.seed, case.ops.len(), ctx.sig.0));
        }
        w.stats.merge(ctx.st);
        if let Some(v) = v {
            w.violation = Some((i, v));
            break;
        }
        i += n;
    }
    prog.write_at(&0u64.to_le_bytes(), 0).unwrap();
    let tmp = out.with_extension("tmp");
    fs::write(&tmp, serde_json::to_vec(&w).unwrap()).unwrap();
    fs::rename(&tmp, &out).unwrap();
    0
}

#[derive(Serialize, Deserialize, Clone)]
pub struct ExecOut {
    pub violation: Option<Violation>,
    pub digest: u64,
}

/// `exec`: read a case on stdin, run it, write the outcome on stdout.
pub fn exec_stdin() -> i32 {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let case: Case = serde_json::from_str(&s).unwrap();
    let p = props::find(&case.prop).expect("property");
    let (v, ctx) = run_case(p, &case);
    println!("{}", serde_json::to_string(&ExecOut { violation: v, digest: ctx.digest.0 }).unwrap());
    0
}

/// Run a case in a fresh process.
pub fn exec_child(case: &Case, timeout: Duration) -> ExecOut {
    let mut c = Command::new(std::env::current_exe().unwrap())
        .arg("exec")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let body = serde_json::to_vec(case).unwrap();
    let mut stdin = c.stdin.take().unwrap();
    let t = std::thread::spawn(move || {
        let _ = stdin.write_all(&body);
    });
    let mut so = c.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        s
    });
    let end = Instant::now() + timeout;
    let status = loop {
        match c.try_wait().unwrap() {
            Some(s) => break Some(s),
            None if Instant::now() > end => {
                let _ = c.kill();
                let _ = c.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_micros(300)),
        }
    };
    let _ = t.join();
    let s = rd.join().unwrap_or_default();
    match status {
        None => ExecOut {
            violation: Some(Violation { kind: "hang".into(), detail: "the run does not end".into(), at: 0 }),
            digest: 0,
        },
        Some(st) if st.success() => serde_json::from_str(&s).unwrap_or(ExecOut { violation: None, digest: 0 }),
        Some(st) => ExecOut {
            violation: Some(Violation { kind: "abort".into(), detail: format!("the process died: {st}"), at: 0 }),
            digest: 0,
        },
    }
}

fn same(a: &Option<Violation>, kind: &str) -> bool {
    a.as_ref().map_or(false, |v| v.kind == kind)
}

/// Delta-debug the schedule, then the knobs, keeping the same kind of violation.
pub fn minimise(case: &Case, kind: &str, budget: Duration) -> Case {
    let end = Instant::now() + budget;
    let to = Duration::from_secs(if kind == "hang" { 8 } else { 20 });
    let mut best = case.clone();
    let fails = |c: &Case| same(&exec_child(c, to).violation, kind);
    // Cut the tail after the failing operation first.
    if let Some(v) = exec_child(&best, to).violation {
        if v.kind == kind && v.at + 1 < best.ops.len() && v.at > 0 {
            let mut c = best.clone();
            c.ops.truncate(v.at + 1);
            if fails(&c) {
                best = c;
            }
        }
    }
    let mut chunk = (best.ops.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut progress = false;
        while i < best.ops.len() && Instant::now() < end {
            let mut c = best.clone();
            let hi = (i + chunk).min(c.ops.len());
            c.ops.drain(i..hi);
            if fails(&c) {
                best = c;
                progress = true;
            } else {
                i += chunk;
            }
        }
        if Instant::now() >= end {
            break;
        }
        if chunk == 1 {
            if !progress {
                break;
            }
        } else {
            chunk = (chunk / 2).max(1);
        }
    }
    for k in case.cfg.keys() {
        if Instant::now() >= end {
            break;
        }
        let mut c = best.clone();
        c.cfg.remove(k);
        if fails(&c) {
            best = c;
        }
    }
    // Thin out fixtures of the bodies that are left.
    for i in 0..best.ops.len() {
        let n = match &best.ops[i] {
            Op::Body(b) => b.fix.len(),
            _ => 0,
        };
        for f in (0..n).rev() {
            if Instant::now() >= end {
                break;
            }
            let mut c = best.clone();
            if let Op::Body(b) = &mut c.ops[i] {
                b.fix.remove(f);
            }
            if fails(&c) {
                best = c;
            }
        }
    }
    best
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub verif_seed: u64,
    pub run_index: u64,
    pub run_seed: u64,
    pub original_ops: usize,
    pub violation: Violation,
    pub digest: u64,
    pub fault_trace: Vec<String>,
    pub case: Case,
}

pub fn replay(path: &str) -> i32 {
    let r: Replay = match fs::read_to_string(path).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(r) => r,
        None => {
            println!("cannot read {path}");
            return 2;
        }
    };
    let o = exec_child(&r.case, Duration::from_secs(120));
    match o.violation {
        Some(v) => {
            let exact = v == r.violation && (o.digest == r.digest);
            println!("reproduced kind={} at op {}: {} (exact match with the recorded run: {exact})", v.kind, v.at, v.detail);
            println!("VIOLATION property={} replay={}", r.property, path);
            1
        }
        None => {
            println!("the recorded violation does not occur on this tree");
            0
        }
    }
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn env_u(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}

fn spawn_worker(id: &str, base: u64, start: u64, n: u64, total: u64, tier: &str, out: &Path, cap: u64) -> Child {
    Command::new(std::env::current_exe().unwrap())
        .args(["worker", id, &base.to_string(), &start.to_string(), &n.to_string(), &total.to_string(), tier])
        .arg(out)
        .arg(cap.to_string())
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn worker")
}

pub struct SearchOut {
    pub stats: Stats,
    pub violation: Option<(u64, Violation)>,
    pub digests: BTreeMap<u64, u64>,
    pub samples: Vec<String>,
    pub done: bool,
}

/// Run all indices 0..total over `n` workers.
pub fn search(id: &str, base: u64, n: u64, total: u64, tier: &str, cap: u64) -> Result<SearchOut, String> {
    let dir = std::env::temp_dir().join(format!("sim-{}-{}-{}", id, std::process::id(), n));
    fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    struct W {
        child: Child,
        out: PathBuf,
        last: (u64, Instant),
        done: bool,
    }
    let t0 = Instant::now();
    let mut ws: Vec<W> = (0..n)
        .map(|k| {
            let out = dir.join(format!("w{k}.json"));
            W { child: spawn_worker(id, base, k, n, total, tier, &out, cap), out, last: (0, Instant::now()), done: false }
        })
        .collect();
    let mut crash: Option<(u64, Violation)> = None;
    let hang_s = 60;
    let mut found = false;
    loop {
        let mut live = false;
        for w in ws.iter_mut() {
            if w.done {
                continue;
            }
            let prog = fs::read(w.out.with_extension("prog"))
                .ok()
                .and_then(|b| b.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap())))
                .unwrap_or(0);
            match w.child.try_wait().map_err(|e| e.to_string())? {
                Some(st) => {
                    w.done = true;
                    if !w.out.exists() {
                        if prog == 0 {
                            let _ = fs::remove_dir_all(&dir);
                            return Err(format!("worker died before its first run: {st}"));
                        }
                        let v = Violation { kind: "abort".into(), detail: format!("the process died: {st}"), at: 0 };
                        if crash.as_ref().map_or(true, |c| prog - 1 < c.0) {
                            crash = Some((prog - 1, v));
                        }
                        found = true;
                    } else if fs::read_to_string(&w.out).ok().and_then(|s| serde_json::from_str::<WorkerOut>(&s).ok()).map_or(false, |o| o.violation.is_some()) {
                        found = true;
                    }
                }
                None => {
                    live = true;
                    if prog != w.last.0 {
                        w.last = (prog, Instant::now());
                    } else if prog > 0 && w.last.1.elapsed() > Duration::from_secs(hang_s) {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        w.done = true;
                        found = true;
                        let v = Violation { kind: "hang".into(), detail: "the run does not end".into(), at: 0 };
                        if crash.as_ref().map_or(true, |c| prog - 1 < c.0) {
                            crash = Some((prog - 1, v));
                        }
                    }
                }
            }
        }
        if found || !live {
            break;
        }
        if t0.elapsed() > Duration::from_secs(cap + 180) {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    // Give the others a moment, then stop them.
    if found {
        std::thread::sleep(Duration::from_millis(300));
    }
    let mut o = SearchOut { stats: Stats::default(), violation: crash, digests: BTreeMap::new(), samples: vec![], done: true };
    for w in ws.iter_mut() {
        if !w.done {
            let _ = w.child.kill();
            let _ = w.child.wait();
        }
        if let Some(r) = fs::read_to_string(&w.out).ok().and_then(|s| serde_json::from_str::<WorkerOut>(&s).ok()) {
            o.stats.merge(r.stats);
            o.digests.extend(r.digests);
            o.samples.extend(r.samples);
            if let Some(v) = r.violation {
                if o.violation.as_ref().map_or(true, |c| v.0 < c.0) {
                    o.violation = Some(v);
                }
            }
        }
    }
    let _ = fs::remove_dir_all(&dir);
    o.done = o.stats.runs >= total;
    Ok(o)
}

pub fn check(id: &str, tier: &str) -> i32 {
    let p = match props::find(id) {
        Some(p) => p,
        None => {
            println!("unknown property {id}");
            return 2;
        }
    };
    let seed = env_u("VERIF_SEED", 1);
    let thorough = tier == "thorough";
    let total = env_u("SIM_RUNS", if thorough { p.thorough } else { p.quick });
    let n = env_u("SIM_WORKERS", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).min(8));
    let cap = env_u("SIM_CAP", if thorough { 5400 } else { 240 });
    println!("property={id} VERIF_SEED={seed} tier={tier} runs={total} workers={n}");
    let t0 = Instant::now();
    let o = match search(id, seed, n, total, tier, cap) {
        Ok(o) => o,
        Err(e) => {
            println!("error: {e}");
            return 2;
        }
    };
    let wall_search = t0.elapsed().as_secs_f64();

    // Same seed, fresh process: the execution must be the same one.
    let mut same_runs = 0;
    let mut diff_runs = vec![];
    if o.violation.is_none() {
        for (i, d) in o.digests.iter().take(12) {
            let case = (p.gen)(run_seed(seed, id, *i), thorough);
            if exec_child(&case, Duration::from_secs(60)).digest == *d {
                same_runs += 1;
            } else {
                diff_runs.push(*i);
            }
        }
    }

    let mut known_lines = vec![];
    if let Some(k) = p.known {
        let listed = fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
        let r = catch_unwind(AssertUnwindSafe(|| {
            crate::clock::install();
            k()
        }))
        .unwrap_or_default();
        for (sig, what) in r {
            let on_list = listed.lines().any(|l| l.starts_with("known:") && l.contains(&format!("property={id} ")) && l.contains(&sig));
            if on_list {
                known_lines.push(format!("KNOWN-FINDING: property={id} {what}"));
            }
        }
    }

    let mut rc = 0;
    let mut violations = 0;
    if let Some((idx, v)) = &o.violation {
        violations = 1;
        rc = 1;
        let rs = run_seed(seed, id, *idx);
        let case = (p.gen)(rs, thorough);
        println!("run {idx} (seed {rs}) violates: kind={} at op {}: {}", v.kind, v.at, v.detail);
        let budget = env_u("SIM_MIN_S", if thorough { 180 } else { 60 });
        let min = minimise(&case, &v.kind, Duration::from_secs(budget));
        let mut fin = exec_child(&min, Duration::from_secs(60));
        let mut used = min;
        if !same(&fin.violation, &v.kind) {
            used = case.clone();
            fin = exec_child(&used, Duration::from_secs(60));
        }
        let viol = fin.violation.clone().unwrap_or_else(|| v.clone());
        let again = exec_child(&used, Duration::from_secs(60));
        let exact = again.violation == fin.violation && again.digest == fin.digest;
        let trace: Vec<String> = used.ops.iter().enumerate().map(|(i, o)| format!("{i}: {}", serde_json::to_string(o).unwrap_or_default())).collect();
        let rp = Replay {
            property: id.to_string(),
            verif_seed: seed,
            run_index: *idx,
            run_seed: rs,
            original_ops: case.ops.len(),
            violation: viol.clone(),
            digest: fin.digest,
            fault_trace: trace,
            case: used,
        };
        let dir = root().join("replays");
        let _ = fs::create_dir_all(&dir);
        let path = dir.join(format!("{id}-{rs}.json"));
        let _ = fs::write(&path, serde_json::to_string_pretty(&rp).unwrap());
        println!(
            "minimised from {} to {} operations; kind={} at op {}: {}; replays exactly in a fresh process: {exact}",
            rp.original_ops,
            rp.case.ops.len(),
            viol.kind,
            viol.at,
            viol.detail
        );
        println!("VIOLATION property={id} replay={}", path.display());
    }

    let wall = t0.elapsed().as_secs_f64();
    let st = &o.stats;
    let distinct = st.sigs.len();
    let per_hour = st.runs as f64 / wall_search.max(1e-3) * 3600.0;
    let ev = json!({
        "property": id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.evals,
            "distinct_nontrivial": distinct,
            "rule": p.rule,
            "samples": o.samples.iter().take(5).collect::<Vec<_>>(),
            "simulated_runs": st.runs,
            "runs_planned": total,
            "runs_that_reached_the_property": st.nontrivial,
            "seeds_per_hour": per_hour.round(),
            "operations": st.ops,
            "world_steps": st.steps,
            "simulated_seconds": (st.sim_s * 1000.0).round() / 1000.0,
            "faults_injected": st.faults,
            "operations_by_kind": st.op_kinds,
            "reach_probes": st.probes,
            "largest_observed": st.maxima,
            "measure_of_distinctness": "64-bit hash of the sequence of operation kinds actually carried out and callback kinds actually received, per run",
            "replayed_in_fresh_process_identical": same_runs,
            "replayed_in_fresh_process_different": diff_runs,
            "workers": n,
            "complete": o.done,
            "real_components": p.real,
            "stubbed_components": p.stub,
        },
        "assumptions": p.assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations,
    });
    let dir = root().join("evidence");
    if fs::create_dir_all(&dir).is_err() || fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).is_err() {
        println!("error: cannot write the evidence file");
        return if rc == 1 { 1 } else { 2 };
    }
    for l in known_lines {
        println!("{l}");
    }
    println!(
        "runs={} reached={} distinct={} evaluations={} steps={} simulated={:.1}s wall={:.1}s faults={}",
        st.runs,
        st.nontrivial,
        distinct,
        st.evals,
        st.steps,
        st.sim_s,
        wall,
        st.faults.values().sum::<u64>()
    );
    if rc == 0 && st.nontrivial == 0 {
        println!("error: no run reached what the property is about");
        return 2;
    }
    rc
}

/// Development aid: digests of the first `count` runs, for comparing processes and worker counts.
pub fn digests(id: &str, base: u64, from: u64, count: u64, thorough: bool) -> i32 {
    let p = props::find(id).expect("property");
    for i in from..from + count {
        let case = (p.gen)(run_seed(base, id, i), thorough);
        let (v, ctx) = run_case(p, &case);
        println!("{i} {:016x} {}", ctx.digest.0, v.map(|v| format!("{} at {} {}", v.kind, v.at, v.detail)).unwrap_or_default());
    }
    0
}
