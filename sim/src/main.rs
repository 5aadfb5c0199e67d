//! simcat: deterministic simulation of cddl-cat with fault injection.
//!
//!   simcat check --property Cnn --tier quick|thorough [--out DIR] [--runs N]
//!   simcat replay FILE
//!   simcat log Cnn RUNS WORKERS     (one line per run; for comparing repeats)

mod arena;
mod corpus;
mod doc;
mod exec;
mod gen;
mod kernels;
mod known;
mod model;
mod os;
mod props;
mod rng;
mod runner;
mod sched;
mod shrink;
mod work;

use model::*;
use rng::{fnv, mix, Rng};
use runner::{run, End, Refs};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::c_void;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
struct Found {
    index: u64,
    seed: u64,
    kind: String,
    detail: String,
    scn: Scenario,
    original_size: usize,
    tried: u64,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
struct Report {
    runs: u64,
    solo_runs: u64,
    steps: u64,
    sim_ns: u64,
    switches: u64,
    seeds: u64,
    nontrivial: Vec<u64>,
    traces: Vec<u64>,
    counters: Vec<u64>,
    cov: Vec<u32>,
    guards: u32,
    tally: BTreeMap<String, u64>,
    modes: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    found: Option<Found>,
    harness: Vec<String>,
    capped: bool,
}

/// Memory all workers share.
#[repr(C)]
struct Board {
    /// 1 + lowest index of a run that found a violation.
    lowest: std::sync::atomic::AtomicU64,
}

struct Job {
    prop: String,
    seed: u64,
    runs: u64,
    wall_s: u64,
    workers: usize,
    /// Keep the outcome of every run (self test).
    log: bool,
}

fn merge_tally(into: &mut BTreeMap<String, u64>, from: &BTreeMap<String, u64>) {
    for (k, v) in from {
        let e = into.entry(k.clone()).or_default();
        *e = if k.starts_with("max:") { (*e).max(*v) } else { *e + *v };
    }
}

fn worker(job: &Job, w: usize, board: &Board) -> Report {
    use std::sync::atomic::Ordering::SeqCst;
    let mut rep = Report { counters: vec![0; sched::COUNTERS], ..Report::default() };
    let sh = sched::shared();
    let t0 = os::real_ns();
    let mut nontrivial = BTreeSet::new();
    let mut traces = BTreeSet::new();
    let mut i = w as u64;
    while i < job.runs {
        if board.lowest.load(SeqCst).wrapping_sub(1) < i {
            break;
        }
        if os::real_ns() - t0 > job.wall_s * 1_000_000_000 {
            rep.capped = true;
            break;
        }
        let seed = props::run_seed(job.seed, &job.prop, i);
        let mut refs = Refs::default();
        let base = props::generate(&job.prop, seed, &mut refs);
        *rep.modes.entry(base.mode.clone()).or_default() += 1;
        rep.seeds += 1;
        let mut r = Rng::new(seed ^ 0x7363_6864);
        let mut scn = base;
        let mut plain: Option<(Scenario, runner::Run)> = None;
        let mut schedules = 1 + r.us(4);
        let mut k = 0;
        while k <= schedules {
            if k == 1 && plain.as_ref().is_some_and(|(_, d)| d.hot.iter().any(|h| *h > d.setup)) {
                // Something static is used: look closer.
                schedules += 12;
            }
            if k > 0 {
                let (b, d) = plain.as_ref().unwrap();
                match props::perturb(&mut r, b, d) {
                    Some(s) => scn = s,
                    None => break,
                }
            }
            if job.log {
                // Every scenario comes back unchanged from a replay file.
                let a = serde_json::to_string(&scn).unwrap_or_default();
                let b = from_json::<Scenario>(a.as_bytes()).map(|b| serde_json::to_string(&b).unwrap_or_default());
                if b.as_ref().ok() != Some(&a) && rep.harness.len() < 5 {
                    rep.harness.push(format!("run {i}: {:?} comes back changed", b.err().map(|e| e.to_string())));
                }
            }
            let res = run(&scn);
            rep.runs += 1;
            rep.steps += res.steps;
            rep.sim_ns += res.sim_ns;
            rep.switches += res.switches;
            for (c, n) in rep.counters.iter_mut().zip(res.counters) {
                *c += n;
            }
            traces.insert(res.trace);
            if let End::Harness(h) = &res.end {
                if rep.harness.len() < 5 {
                    rep.harness.push(format!("run {i} seed {seed}: {h}"));
                }
                break;
            }
            let j = props::judge(&scn, &res, &mut refs);
            merge_tally(&mut rep.tally, &j.tally);
            let mut digest = res.trace;
            if let End::Done(d) = &res.end {
                for o in &d.ops {
                    digest = mix(digest ^ fnv(o.out.kind.as_bytes()) ^ fnv(o.out.text.as_bytes()) ^ o.names ^ o.steps ^ o.allocs);
                }
                for l in &d.live {
                    digest = mix(digest ^ *l as u64);
                }
            }
            digest = mix(digest ^ fnv(format!("{:?} {:?}", scn.schemas, scn.docs).as_bytes()));
            if j.nontrivial {
                nontrivial.insert(digest);
            }
            if job.log {
                println!("{i} {k} {digest:016x} {} {} {:?}", res.steps, scn.mode, j.violation.as_ref().map(|v| &v.kind));
            }
            if rep.samples.len() < 2 && (j.nontrivial || i > 200) && (k > 0 || i % 3 == 0) {
                rep.samples.push(props::describe(&scn, &res));
            }
            if let Some(v) = j.violation {
                let mut v = v;
                if let Some(big) = props::confirm(&scn) {
                    match shrink::fails(&big) {
                        Some(v2) => {
                            scn = big;
                            v = v2;
                        }
                        None => {
                            *rep.tally.entry("growth that stopped".into()).or_default() += 1;
                            break;
                        }
                    }
                }
                if rep.found.is_none() {
                    board.lowest.fetch_min(i + 1, SeqCst);
                    rep.found = Some(Found { index: i, seed, kind: v.kind, detail: v.detail, scn: scn.clone(), original_size: 0, tried: 0 });
                }
                break;
            }
            if k == 0 {
                plain = Some((scn.clone(), res));
            }
            k += 1;
        }
        rep.solo_runs += refs.runs;
        if rep.found.is_some() || rep.harness.len() >= 5 {
            break;
        }
        i += job.workers as u64;
    }
    rep.nontrivial = nontrivial.into_iter().collect();
    rep.traces = traces.into_iter().collect();
    rep.guards = sched::guards();
    rep.cov = (0..sched::COV_MAX).filter(|g| sh.cov[*g] != 0).map(|g| g as u32).collect();
    rep
}

extern "C" {
    fn sched_setaffinity(pid: i32, n: usize, mask: *const u64) -> i32;
    fn sched_getaffinity(pid: i32, n: usize, mask: *mut u64) -> i32;
}

fn cpus() -> Vec<usize> {
    let mut m = [0u64; 16];
    unsafe { sched_getaffinity(0, 128, m.as_mut_ptr()) };
    let v: Vec<usize> = (0..1024).filter(|c| m[c / 64] >> (c % 64) & 1 != 0).collect();
    if v.is_empty() {
        vec![0]
    } else {
        v
    }
}

fn pin(cpu: usize) {
    let mut m = [0u64; 16];
    m[cpu / 64] |= 1 << (cpu % 64);
    unsafe { sched_setaffinity(0, 128, m.as_ptr()) };
}

fn quiet() {
    unsafe {
        let n = os::open(c"/dev/null".as_ptr(), 1);
        os::dup2(n, 2);
    }
}

/// Run `f` in a forked process and get what it returns.
fn forked<T: Serialize + for<'a> Deserialize<'a>>(f: impl FnOnce() -> T) -> (i32, i32) {
    let mut fds = [0i32; 2];
    unsafe {
        os::pipe(fds.as_mut_ptr());
        let pid = os::fork();
        if pid == 0 {
            os::close(fds[0]);
            let t = serde_json::to_vec(&f()).unwrap();
            let mut p = &t[..];
            while !p.is_empty() {
                let n = os::write(fds[1], p.as_ptr() as *const c_void, p.len());
                if n <= 0 {
                    os::_exit(89);
                }
                p = &p[n as usize..];
            }
            os::_exit(0);
        }
        os::close(fds[1]);
        (pid, fds[0])
    }
}

fn collect<T: for<'a> Deserialize<'a>>((pid, fd): (i32, i32)) -> Result<T, String> {
    let mut all = Vec::new();
    let mut buf = vec![0u8; 1 << 16];
    loop {
        let n = unsafe { os::read(fd, buf.as_mut_ptr() as *mut c_void, buf.len()) };
        if n <= 0 {
            break;
        }
        all.extend_from_slice(&buf[..n as usize]);
    }
    let mut st = 0;
    unsafe {
        os::close(fd);
        os::waitpid(pid, &mut st, 0);
    }
    from_json(&all).map_err(|e| format!("worker ended with status {st}: {e}"))
}

fn run_workers(job: &Job) -> Result<Vec<Report>, String> {
    let board = unsafe {
        let p = os::mmap(std::ptr::null_mut(), 4096, os::PROT_RW, os::MAP_SHARED | os::MAP_ANON, -1, 0) as *mut Board;
        (*p).lowest.store(u64::MAX, std::sync::atomic::Ordering::SeqCst);
        &*p
    };
    let cpus = cpus();
    let hs: Vec<_> = (0..job.workers)
        .map(|w| {
            forked(|| {
                quiet();
                pin(cpus[w % cpus.len()]);
                runner::map_shared();
                worker(job, w, board)
            })
        })
        .collect();
    hs.into_iter().map(collect).collect()
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    kind: String,
    detail: String,
    verif_seed: u64,
    run: u64,
    scenario: Scenario,
}

#[derive(Serialize, Deserialize)]
struct Verdict {
    violation: Option<(String, String)>,
    trace: u64,
    steps: u64,
    text: serde_json::Value,
}

/// Judge a scenario in a process of its own.
fn verdict_of(scn: &Scenario) -> Result<Verdict, String> {
    let cpus = cpus();
    collect(forked(|| {
        quiet();
        pin(cpus[0]);
        runner::map_shared();
        let r = run(scn);
        let j = props::judge(scn, &r, &mut Refs::default());
        Verdict { violation: j.violation.map(|v| (v.kind, v.detail)), trace: r.trace, steps: r.steps, text: props::describe(scn, &r) }
    }))
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).map_or(1, |x| x as u64)
}

fn check(args: &[String]) -> i32 {
    let t0 = os::real_ns();
    let prop = arg(args, "--property").unwrap_or_default();
    if !props::CLAIMED.contains(&prop.as_str()) {
        eprintln!("unknown property {prop}");
        return 2;
    }
    let tier = arg(args, "--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let thorough = tier == "thorough";
    let out = arg(args, "--out").unwrap_or_else(|| ".".into());
    let seed = env_seed();
    let (q, t) = props::plan(&prop);
    let runs = arg(args, "--runs").and_then(|x| x.parse().ok()).unwrap_or(if thorough { t } else { q });
    let job = Job {
        prop: prop.clone(),
        seed,
        runs,
        wall_s: arg(args, "--wall").and_then(|x| x.parse().ok()).unwrap_or(if thorough { 3 * 3600 } else { 240 }),
        workers: cpus().len().clamp(1, 16),
        log: false,
    };
    let reps = match run_workers(&job) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("harness error: {e}");
            return 3;
        }
    };
    let mut all = Report { counters: vec![0; sched::COUNTERS], ..Report::default() };
    let (mut nt, mut tr, mut cov) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
    for r in reps {
        all.runs += r.runs;
        all.seeds += r.seeds;
        all.solo_runs += r.solo_runs;
        all.steps += r.steps;
        all.sim_ns += r.sim_ns;
        all.switches += r.switches;
        all.capped |= r.capped;
        all.guards = all.guards.max(r.guards);
        for (a, b) in all.counters.iter_mut().zip(r.counters) {
            *a += b;
        }
        nt.extend(r.nontrivial);
        tr.extend(r.traces);
        cov.extend(r.cov);
        merge_tally(&mut all.tally, &r.tally);
        merge_tally(&mut all.modes, &r.modes);
        all.samples.extend(r.samples.into_iter().take(1));
        all.harness.extend(r.harness);
        if let Some(f) = r.found {
            if all.found.as_ref().is_none_or(|g| f.index < g.index) {
                all.found = Some(f);
            }
        }
    }
    let mut violations = 0;
    let mut exit = 0;
    let mut known = Vec::new();
    if prop == "C09" {
        let found: Result<known::Outcome, String> = collect(forked(|| {
            quiet();
            pin(cpus()[0]);
            runner::map_shared();
            known::c09(&out)
        }));
        match found {
            Ok((lines, bad)) => {
                for l in &lines {
                    println!("{l}");
                }
                known = lines;
                if let Some((detail, scn)) = bad {
                    if all.found.is_none() {
                        all.found = Some(Found { kind: if detail.ends_with("(Hang)") { "hang" } else { "crash" }.into(), detail, scn, ..Found::default() });
                    }
                }
            }
            Err(e) => {
                eprintln!("harness error: {e}");
                return 3;
            }
        }
    }
    if !all.harness.is_empty() {
        for h in &all.harness {
            eprintln!("harness error: {h}");
        }
        if all.found.is_none() {
            return 3;
        }
    }
    if let Some(f) = all.found.take() {
        violations = 1;
        exit = 1;
        let kind = f.kind.clone();
        let (small, tried): (Scenario, u64) = collect(forked(|| {
            quiet();
            pin(cpus()[0]);
            runner::map_shared();
            shrink::shrink(f.scn.clone(), &kind, if thorough { 120 } else { 45 })
        }))
        .unwrap_or((f.scn.clone(), 0));
        // A fresh process has to see the same violation.
        let (scn, detail) = match (verdict_of(&small), verdict_of(&small)) {
            (Ok(Verdict { violation: Some((k, d)), trace: t1, .. }), Ok(Verdict { violation: Some((k2, _)), trace: t2, .. })) if k == f.kind && k2 == k && t1 == t2 => (small, d),
            _ => (f.scn.clone(), f.detail.clone()),
        };
        let dir = format!("{out}/replays");
        let path = format!("{dir}/{prop}-{seed}-{}.json", f.index);
        let rep = Replay { property: prop.clone(), kind: f.kind.clone(), detail: detail.clone(), verif_seed: seed, run: f.index, scenario: scn };
        let _ = std::fs::create_dir_all(&dir);
        if std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).is_err() {
            eprintln!("cannot write {path}");
        }
        println!("{}: {}", f.kind, detail);
        println!("(seed {seed}, run {}, minimised in {tried} steps; replay with: simcat replay {path})", f.index);
        println!("VIOLATION property={prop} replay={path}");
    }
    let wall = (os::real_ns() - t0) as f64 / 1e9;
    let per_h = |n: u64| (n as f64 / wall * 3600.0) as u64;
    let faults: BTreeMap<&str, u64> = sched::COUNTER_NAMES.iter().copied().zip(all.counters.iter().copied()).collect();
    let ev = serde_json::json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed as i64,
        "level": "exploration",
        "wall_s": wall,
        "violations": violations,
        "coverage": {
            "evaluations": all.runs,
            "distinct_nontrivial": nt.len(),
            "rule": format!("{} {}", "One evaluation is one simulated process executing one scenario under one schedule, both drawn from VERIF_SEED; cases are distinct if schemas, documents, event trace or outcomes differ.", rule(&prop)),
            "samples": all.samples,
            "seeds": all.seeds,
            "seeds_per_hour": per_h(all.seeds),
            "simulated_runs_per_hour": per_h(all.runs + all.solo_runs),
            "reference_runs": all.solo_runs,
            "simulated_seconds": all.sim_ns as f64 / 1e9,
            "scheduler_steps": all.steps,
            "context_switches": all.switches,
            "distinct_event_traces": tr.len(),
            "distinct_event_traces_measure": "hash over every switch (who, whom, at which step of the thread), lookup, lock operation and request boundary",
            "library_edges_covered": cov.len(),
            "library_edges_total": all.guards,
            "injected_and_fired": faults,
            "outcomes_and_conditions": all.tally,
            "runs_per_mode": all.modes,
            "stopped_by_wall_clock": all.capped,
            "known_findings_demonstrated": known,
            "real_components": ["cddl-cat (all of /repo/src, built from the working tree)", "nom", "regex", "ciborium", "serde_json", "rust std (locks, HashMap, panics)"],
            "simulated_components": ["thread scheduler", "allocator", "clocks", "getrandom", "environment variables", "files, directory, processors, users and terminal as asked for by the library", "futexes, sleeping, yielding", "thread stacks", "callers", "lookup contexts (LookupContext)", "transport and storage of documents and schema texts (damage)"],
        },
        "assumptions": [
            "Interleavings are explored at the granularity of the library's basic blocks and memory accesses, allocations, lock operations and lookups, sequentially consistent (no weak-memory reordering).",
            "Sampling: a clean run is evidence, not proof."
        ],
    });
    let dir = format!("{out}/evidence");
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(format!("{dir}/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap()).is_err() {
        eprintln!("cannot write evidence");
        return 3;
    }
    println!(
        "{prop} {tier}: {} runs ({} seeds, {} reference runs), {} distinct and non-trivial, {} of {} library edges, {:.1} s{}",
        all.runs,
        all.seeds,
        all.solo_runs,
        nt.len(),
        cov.len(),
        all.guards,
        wall,
        if all.capped { " (stopped by the wall clock)" } else { "" }
    );
    exit
}

fn rule(p: &str) -> &'static str {
    match p {
        "C01" => "Non-trivial: at least one thread was preempted while another ran.",
        "C02" => "Non-trivial: at least one lookup error or panic was delivered before the clean requests.",
        "C03" | "C04" => "Non-trivial: the context answered at least one lookup with an error.",
        "C05" => "Non-trivial: at least one name was looked up.",
        "C06" => "Non-trivial: the recursion limit was reached, or an empty repetition was tried.",
        "C07" => "Non-trivial: every run, as each has an environment of its own.",
        "C08" => "Non-trivial: the lookup panicked or the allocation was refused.",
        "C09" => "Non-trivial: at least one damaged input was delivered.",
        "C10" => "Non-trivial: the pattern accepted one of the documents and rejected another.",
        _ => "Non-trivial: more than 12 requests in identical waves.",
    }
}

fn replay(path: &str) -> i32 {
    let Ok(text) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let rep: Replay = match from_json(text.as_bytes()) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    match verdict_of(&rep.scenario) {
        Ok(v) => {
            println!("{}", serde_json::to_string_pretty(&v.text).unwrap());
            println!("trace {:016x}, {} steps", v.trace, v.steps);
            match v.violation {
                Some((k, d)) => {
                    println!("{k}: {d}");
                    println!("VIOLATION property={} replay={path}", rep.property);
                    1
                }
                None => {
                    println!("no violation of {}", rep.property);
                    0
                }
            }
        }
        Err(e) => {
            eprintln!("harness error: {e}");
            3
        }
    }
}

/// One line per run: the lines do not depend on the number of workers.
fn log_runs(prop: &str, runs: u64, workers: usize) -> i32 {
    let job = Job { prop: prop.into(), seed: env_seed(), runs, wall_s: 3600, workers, log: true };
    match run_workers(&job) {
        Ok(r) => {
            for x in r {
                for h in x.harness {
                    println!("HARNESS {h}");
                }
            }
            0
        }
        Err(e) => {
            println!("HARNESS {e}");
            3
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::env::set_var("RUST_BACKTRACE", "0");
    unsafe {
        // Same addresses every time.
        const NO_RANDOMIZE: u64 = 0x0040000;
        if std::env::var_os("SIMCAT_REEXEC").is_none() {
            let p = os::personality(0xffff_ffff);
            if p >= 0 {
                os::personality(p as u64 | NO_RANDOMIZE);
            }
            std::env::set_var("SIMCAT_REEXEC", "1");
            let mut c: Vec<std::ffi::CString> = args.iter().map(|a| std::ffi::CString::new(a.as_str()).unwrap()).collect();
            // Room for the simulated arguments.
            while c.len() < os::ARGS {
                c.push(c"".into());
            }
            let mut v: Vec<*const std::ffi::c_char> = c.iter().map(|c| c.as_ptr()).collect();
            v.push(std::ptr::null());
            os::execv(c"/proc/self/exe".as_ptr(), v.as_ptr());
        }
    }
    std::panic::set_hook(Box::new(|_| ()));
    let code = match args.get(1).map(String::as_str) {
        Some("check") => check(&args),
        Some("replay") if args.len() > 2 => replay(&args[2]),
        Some("log") if args.len() > 4 => log_runs(&args[2], args[3].parse().unwrap_or(100), args[4].parse().unwrap_or(8)),
        _ => {
            eprintln!("usage: simcat check --property Cnn [--tier quick|thorough] | replay FILE | log Cnn RUNS WORKERS");
            2
        }
    };
    std::process::exit(code);
}
