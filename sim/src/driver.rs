//! Batches of executions: workers, statistics, evidence, reports.
use crate::gen::gen;
use crate::oracle::Viol;
use crate::rt::*;
use crate::runner::{self, execute, Env, Outcome, Run};
use crate::shrink::Shrinker;
use crate::spec::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::ffi::CString;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub fn prop_hash(p: &str) -> u64 { hash_bytes(p.as_bytes()) }
pub fn spec_at(prop: &str, seed: u64, i: u64, thorough: bool) -> Spec {
    let p = prop_hash(prop);
    // A concurrent scenario is tried under several schedules.
    let per = if matches!(prop, "C09" | "C10" | "C11" | "C14") { 1 } else { 4 };
    gen(prop, hash64(&[seed, p, 77, i / per]), hash64(&[seed, p, 11, i]), thorough)
}

pub fn make_env(verif: &str) -> Env {
    let cli = std::env::var("DST_CLI").unwrap_or_else(|_| format!("{verif}/target/cli/debug/lsystem"));
    let lib = std::env::var("DST_RT").unwrap_or_else(|_| format!("{verif}/target/rt/libsimrt.so"));
    Env { cli: CString::new(cli).unwrap(), preload: CString::new(lib).unwrap(), shm_path: runner::make_shm() }
}

/// (runs, seconds) of a tier
fn budget(prop: &str, thorough: bool) -> (u64, f64) {
    let quick: u64 = match prop {
        "C01" => 64_000, "C02" => 64_000, "C03" => 80_000, "C04" => 80_000, "C05" => 20_000, "C06" => 100_000, "C07" => 100_000, "C08" => 80_000,
        "C09" => 120_000, "C10" => 80_000, "C11" => 60_000, "C12" => 24_000, "C13" => 120_000, "C14" => 100_000, "C15" => 80_000, _ => 1000,
    };
    let secs = |k: &str, d: f64| std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d);
    if thorough { (u64::MAX, secs("DST_THOROUGH_SECS", 420.0)) } else { (quick, secs("DST_QUICK_SECS", 60.0)) }
}

#[derive(Serialize, Deserialize, Default)]
struct Tally {
    runs: u64, switch_runs: u64, preempt_runs: u64, fault_runs: u64, nontrivial: u64,
    steps: u64, max_steps: u64, bound_used: f64, switches: u64, forced: u64, preempt: u64, vtime: u64, max_vtime: u64, io_calls: u64, rng: u64, entropy: u64, spawned: u64,
    faults: BTreeMap<String, u64>, probes: BTreeMap<String, u64>,
    keys: Vec<u64>, ils: Vec<u64>, pairs: Vec<u32>, samples: Vec<serde_json::Value>,
    viol: Option<(u64, Viol)>, harness: Vec<(u64, String)>, wall: f64, slowest: f64,
}

fn summarize(spec: &Spec, i: u64, r: &Run) -> serde_json::Value {
    let what = match &spec.kind {
        Kind::Ops(o) => {
            let mut s = format!("names {:?}; setup {:?}; threads {:?}; finale {:?}", o.names, o.setup, o.threads, o.finale);
            if !o.plants.is_empty() { s.push_str(&format!("; plants {:?}", o.plants)) }
            s
        }
        k => serde_json::to_string(k).unwrap(),
    };
    let sched = match &spec.sched { Sched::Explicit { sw } => format!("Explicit({} switches)", sw.len()), s => format!("{s:?}") };
    serde_json::json!({
        "run": i, "seed": spec.seed, "schedule": sched, "io_fault_plan": spec.io.iter().map(|f| format!("call {} {} arg {}", f.idx, fault_name(f.kind as usize), f.arg)).collect::<Vec<_>>(),
        "scenario": what.chars().take(1500).collect::<String>(), "scheduling_points": r.stats.steps, "switches": r.stats.switches, "preemptions_inside_operations": r.stats.preempt,
        "faults_fired": r.stats.faults.iter().enumerate().filter(|(_, n)| **n > 0).map(|(k, n)| format!("{} x{n}", fault_name(k))).collect::<Vec<_>>(),
        "log_hash": format!("{:016x}", r.stats.loghash), "outcome": match &r.outcome { Outcome::Ok => "held".into(), o => format!("{o:?}").chars().take(300).collect::<String>() },
    })
}

fn worker(k: u64, n: u64, prop: &str, seed: u64, thorough: bool, max: u64, until: Instant, min: &AtomicU64, verif: &str) -> Tally {
    let env = make_env(verif);
    let t0 = Instant::now();
    let mut t = Tally::default();
    let (mut keys, mut ils) = (HashSet::new(), HashSet::new());
    let slow = std::env::var("DST_SLOW").ok().and_then(|v| v.parse().ok()).unwrap_or(f64::INFINITY);
    let mut i = k;
    while i < max && i < min.load(Ordering::SeqCst) && Instant::now() < until {
        let spec = spec_at(prop, seed, i, thorough);
        let began = Instant::now();
        let r = runner::confirm(&spec, &env, execute(&spec, &env));
        t.slowest = t.slowest.max(began.elapsed().as_secs_f64());
        if began.elapsed().as_secs_f64() > slow { eprintln!("slow: run {i} took {:.1} s", began.elapsed().as_secs_f64()) }
        let s = &r.stats;
        t.runs += 1;
        t.steps += s.steps; t.max_steps = t.max_steps.max(s.steps); t.bound_used = t.bound_used.max(s.steps as f64 / spec.knobs.step_limit as f64); t.switches += s.switches; t.forced += s.forced; t.preempt += s.preempt;
        t.vtime += s.vtime.saturating_sub(1_000_000_000); t.max_vtime = t.max_vtime.max(s.vtime.saturating_sub(1_000_000_000));
        t.io_calls += s.io_calls; t.rng += s.rng; t.entropy += s.entropy; t.spawned += s.spawned;
        let mut fired = 0u64;
        for (f, c) in s.faults.iter().enumerate() { if *c > 0 { *t.faults.entry(fault_name(f).into()).or_insert(0) += *c as u64; fired += *c as u64; } }
        for (p, c) in &r.report.probes { *t.probes.entry(p.clone()).or_insert(0) += c; }
        if s.switches > 0 { t.switch_runs += 1 }
        if s.preempt > 0 { t.preempt_runs += 1 }
        if fired > 0 { t.fault_runs += 1 }
        // Kinds that are not concurrent by nature: damaged bytes are the fault.
        let damaged = match &spec.kind { Kind::File(f) => !f.edits.is_empty() || f.missing > 0, Kind::Cli(c) => !c.edits.is_empty() || c.missing > 0 || c.out_is_dir, _ => false };
        if damaged && matches!(&spec.kind, Kind::File(f) if !f.edits.is_empty()) { *t.faults.entry(fault_name(FK_CORRUPT as usize).into()).or_insert(0) += 1; }
        if s.preempt > 0 || fired > 0 || damaged {
            t.nontrivial += 1;
            let kind = hash_bytes(serde_json::to_string(&(&spec.kind, &spec.io)).unwrap().as_bytes());
            keys.insert(hash64(&[s.loghash, s.iohash, kind]));
        }
        if s.switches > 0 { ils.insert(s.ilhash); }
        if t.samples.len() < 1 && (s.preempt > 2 || fired > 0 || damaged) { t.samples.push(summarize(&spec, i, &r)) }
        match &r.outcome {
            Outcome::Ok => {}
            Outcome::Harness(h) => { t.harness.push((i, h.clone())); if t.harness.len() > 3 { break } }
            Outcome::Viol(v) => { min.fetch_min(i, Ordering::SeqCst); t.viol = Some((i, v.clone())); break }
        }
        i += n;
    }
    t.wall = t0.elapsed().as_secs_f64();
    t.keys = keys.into_iter().collect();
    t.ils = ils.into_iter().collect();
    t.pairs = shm().sitepair.iter().enumerate().filter(|(_, c)| **c > 0).map(|(i, _)| i as u32).collect();
    t
}

#[derive(Serialize, Deserialize)]
pub struct Replay { pub property: String, pub class: String, pub message: String, pub verif_seed: u64, pub run_index: u64, pub original: Option<Box<Spec>>, pub spec: Spec, pub how: String }

pub fn check(prop: &str, thorough: bool, seed: u64, verif: &str, workers: u64) -> i32 {
    let t0 = Instant::now();
    println!("seed {seed}, property {prop}, {} tier", if thorough { "thorough" } else { "quick" });
    let (max, secs) = budget(prop, thorough);
    let until = t0 + Duration::from_secs_f64(secs);
    let dir = format!("{verif}/target/work/{prop}-{}", std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let min: &AtomicU64 = unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        (*(p as *const AtomicU64)).store(u64::MAX, Ordering::SeqCst);
        &*(p as *const AtomicU64)
    };
    let mut pids = vec![];
    for k in 0..workers {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); }
            let t = worker(k, workers, prop, seed, thorough, max, until, min, verif);
            let ok = std::fs::write(format!("{dir}/{k}.json"), serde_json::to_vec(&t).unwrap()).is_ok();
            unsafe { libc::_exit(if ok { 0 } else { 1 }) }
        }
        assert!(pid > 0, "fork failed");
        pids.push(pid);
    }
    let mut broken = vec![];
    for (k, pid) in pids.iter().enumerate() {
        let mut st = 0;
        while unsafe { libc::waitpid(*pid, &mut st, 0) } != *pid {}
        if st != 0 { broken.push(format!("worker {k} ended with status {st:#x}")) }
    }
    let search_wall = t0.elapsed().as_secs_f64();
    let mut all = Tally::default();
    let (mut keys, mut ils, mut pairs) = (HashSet::new(), HashSet::new(), HashSet::new());
    for k in 0..workers {
        let Ok(b) = std::fs::read(format!("{dir}/{k}.json")) else { continue };
        let t: Tally = serde_json::from_slice(&b).unwrap();
        all.runs += t.runs; all.switch_runs += t.switch_runs; all.preempt_runs += t.preempt_runs; all.fault_runs += t.fault_runs; all.nontrivial += t.nontrivial;
        all.steps += t.steps; all.max_steps = all.max_steps.max(t.max_steps); all.bound_used = all.bound_used.max(t.bound_used); all.switches += t.switches; all.forced += t.forced; all.preempt += t.preempt;
        all.vtime += t.vtime; all.max_vtime = all.max_vtime.max(t.max_vtime); all.io_calls += t.io_calls; all.rng += t.rng; all.entropy += t.entropy; all.spawned += t.spawned;
        for (f, c) in t.faults { *all.faults.entry(f).or_insert(0) += c }
        for (f, c) in t.probes { *all.probes.entry(f).or_insert(0) += c }
        keys.extend(t.keys); ils.extend(t.ils); pairs.extend(t.pairs);
        if all.samples.len() < 4 { all.samples.extend(t.samples) }
        if let Some((i, v)) = t.viol { if all.viol.as_ref().map_or(true, |(j, _)| i < *j) { all.viol = Some((i, v)) } }
        all.harness.extend(t.harness);
    }
    let _ = std::fs::remove_dir_all(&dir);

    let mut code = 0;
    let mut violation = serde_json::Value::Null;
    if let Some((i, v)) = &all.viol {
        let env = make_env(verif);
        let orig = spec_at(prop, seed, *i, thorough);
        println!("run {i}: {}: {}", v.class, v.msg.chars().take(4000).collect::<String>());
        let mut sh = Shrinker { env: &env, class: v.class.clone(), until: Instant::now() + Duration::from_secs(std::env::var("DST_SHRINK_SECS").ok().and_then(|v| v.parse().ok()).unwrap_or(if thorough { 60 } else { 20 })), tries: 0 };
        let small = sh.run(&orig);
        let path = format!("{verif}/replays/{prop}-{seed}-{i}.json");
        let _ = std::fs::create_dir_all(format!("{verif}/replays"));
        let save = |spec: &Spec| {
            let msg = match execute(spec, &env).outcome { Outcome::Viol(w) => w.msg, _ => v.msg.clone() };
            let r = Replay { property: prop.into(), class: v.class.clone(), message: msg, verif_seed: seed, run_index: *i, original: Some(Box::new(orig.clone())), spec: spec.clone(), how: format!("/verif/run.sh replay {path}") };
            std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()).unwrap();
        };
        let fresh = || std::process::Command::new(std::env::current_exe().unwrap()).args(["replay", &path]).stdout(std::process::Stdio::null()).status().ok().and_then(|s| s.code()) == Some(1);
        save(&small);
        let mut confirmed = fresh();
        if !confirmed { save(&orig); confirmed = fresh(); }
        violation = serde_json::json!({ "run": i, "class": v.class, "replay": path, "replayed_in_fresh_process": confirmed, "shrink_executions": sh.tries });
        if confirmed {
            println!("VIOLATION property={prop} replay={path}");
            code = 1;
        } else {
            println!("HARNESS ERROR: the violation does not replay: {path}");
            code = 2;
        }
    } else if !all.harness.is_empty() || !broken.is_empty() || all.runs == 0 {
        for (i, h) in all.harness.iter().take(5) { println!("HARNESS ERROR: run {i}: {h}") }
        for b in &broken { println!("HARNESS ERROR: {b}") }
        code = 2;
    }
    let secs = search_wall.max(0.001);
    let is_cli = prop == "C11";
    let evidence = serde_json::json!({
        "property": prop, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": all.runs,
            "distinct_nontrivial": keys.len(),
            "rule": "One evaluation is one simulated execution: a generated scenario (a new one every run, every fourth run for concurrent ones), a fault plan and a schedule, all derived from VERIF_SEED, the property and the run number. It is non-trivial if a thread was preempted inside an operation, or a fault fired, or stored bytes were damaged; two are the same if the complete log of scheduling points, the log of system calls, and the scenario are the same.",
            "samples": all.samples,
            "simulated_runs": all.runs, "seeds_per_hour": (all.runs as f64 / secs * 3600.0) as u64, "search_seconds": secs, "worker_processes": workers,
            "simulated_seconds": all.vtime as f64 / 1e9, "longest_run_simulated_seconds": all.max_vtime as f64 / 1e9,
            "scheduling_points": all.steps, "most_scheduling_points_in_a_run": all.max_steps, "largest_share_of_a_step_bound_used": all.bound_used, "context_switches": all.switches, "forced_switches": all.forced, "preemptions_inside_operations": all.preempt,
            "runs_with_switches": all.switch_runs, "runs_preempted_inside_an_operation": all.preempt_runs, "runs_with_a_fault": all.fault_runs, "nontrivial_runs": all.nontrivial,
            "distinct_interleavings": ils.len(), "distinct_interleavings_measure": "hash of the sequence of (code site left, thread switched to)",
            "distinct_pairs_of_consecutive_switch_sites": pairs.len(),
            "threads_spawned": all.spawned, "simulated_system_calls": all.io_calls, "random_draws_decided": all.rng, "entropy_bytes_decided": all.entropy,
            "faults_injected": all.faults, "probes": all.probes,
            "real_components": if is_cli { "the lsystem program as built from /repo with its own dependencies (clap, rand, ...), the Rust standard library, libc's user-space parts" } else { "the whole rusty-systems library as built from /repo, the Rust standard library's locks, once cells, threads and file layer, the library's dependencies except rand's generator" },
            "stub_components": if is_cli { "kernel file system (in-memory, with fault injection), entropy, clock" } else { "kernel: thread scheduler, futexes, clock, entropy, file system (in-memory, with fault injection); rand::ThreadRng's generator (seeded by the simulator)" },
            "violation": violation,
        },
        "assumptions": [
            "Threads switch only at atomic operations, lock and thread operations, system calls and yields; memory is sequentially consistent (weak-memory reorderings are not simulated).",
            "The search samples schedules and faults; a clean batch is evidence, not proof."
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": if code == 1 { 1 } else { 0 },
    });
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    let tmp = format!("{verif}/evidence/.{prop}.tmp");
    std::fs::write(&tmp, serde_json::to_vec_pretty(&evidence).unwrap()).unwrap();
    std::fs::rename(&tmp, format!("{verif}/evidence/{prop}.json")).unwrap();
    println!("{prop}: {} runs in {:.1} s, {} distinct non-trivial, {} interleavings, {} harness errors, longest run {} points, {:.0} % of a bound used", all.runs, secs, keys.len(), ils.len(), all.harness.len(), all.max_steps, 100.0 * all.bound_used);
    code
}

pub fn replay(path: &str, verif: &str) -> i32 {
    let r: Replay = match std::fs::read(path).map_err(|e| e.to_string()).and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string())) { Ok(r) => r, Err(e) => { println!("HARNESS ERROR: cannot read {path}: {e}"); return 2 } };
    let env = make_env(verif);
    let x = execute(&r.spec, &env);
    println!("log hash {:016x}, {} scheduling points, {} switches", x.stats.loghash, x.stats.steps, x.stats.switches);
    match x.outcome {
        Outcome::Viol(v) => {
            println!("{}: {}", v.class, v.msg);
            if v.class != r.class { println!("(the file expects {})", r.class); return 3 }
            println!("VIOLATION property={} replay={path}", r.property);
            1
        }
        Outcome::Ok => { println!("the property held in this execution"); 0 }
        Outcome::Harness(h) => { println!("HARNESS ERROR: {h}"); 2 }
    }
}

/// Prints the logs' hashes of a range of runs, for comparison between processes.
pub fn hashes(prop: &str, seed: u64, from: u64, to: u64, stride: u64, thorough: bool, verif: &str) -> i32 {
    let env = make_env(verif);
    // With DST_SPECS, the specifications go to that file as text if it does not exist, and come from it if it does.
    let file = std::env::var("DST_SPECS").ok();
    if let Some(f) = file.as_ref().filter(|f| !std::path::Path::new(f).exists()) {
        std::fs::write(f, (from..to).map(|i| serde_json::to_string(&spec_at(prop, seed, i, thorough)).unwrap() + "\n").collect::<String>()).unwrap();
        return 0
    }
    let given: Option<Vec<Spec>> = file.map(|f| std::fs::read_to_string(f).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect());
    for start in 0..stride {
        let mut i = from + start;
        while i < to {
            let spec = given.as_ref().map_or_else(|| spec_at(prop, seed, i, thorough), |g| g[(i - from) as usize].clone());
            let r = execute(&spec, &env);
            let out = match &r.outcome { Outcome::Ok => "ok".to_string(), Outcome::Viol(v) => format!("V:{}", v.class), Outcome::Harness(h) => format!("H:{h}") };
            let probes = hash_bytes(format!("{:?} {:?} {:?}", r.report.probes, r.report.out, r.stats.faults).as_bytes());
            println!("{i} {:016x} {:016x} {:016x} {} {probes:016x} {out}", r.stats.loghash, r.stats.ilhash, r.stats.iohash, r.stats.steps);
            i += stride;
        }
    }
    0
}

pub fn one(prop: &str, seed: u64, i: u64, thorough: bool, verif: &str) -> i32 {
    let env = make_env(verif);
    let mut spec = spec_at(prop, seed, i, thorough);
    if let Ok(s) = std::env::var("DST_SCHED") { spec.sched = serde_json::from_str(&s).expect("a schedule") }
    let r = execute(&spec, &env);
    println!("{}", serde_json::to_string_pretty(&spec).unwrap());
    println!("{}", serde_json::to_string_pretty(&summarize(&spec, i, &r)).unwrap());
    match r.outcome { Outcome::Ok => 0, Outcome::Viol(v) => { println!("{}: {}", v.class, v.msg); 1 } Outcome::Harness(h) => { println!("HARNESS ERROR: {h}"); 2 } }
}
