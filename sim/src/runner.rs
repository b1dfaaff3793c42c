//! One simulated execution: everything between a `Spec` and its verdict. The code under test runs in a forked child
//! (or, for the lsystem program, in an exec'd one), so that every execution starts from the same fresh process state.
use crate::exec::{self, LAST_PANIC};
use crate::oracle::{self, Report, Viol};
use crate::rt::{self, *};
use crate::spec::*;
use crate::{files, many, stoch};
use std::ffi::CString;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Where the lsystem program was built, and the run-time library to load into it.
pub struct Env { pub cli: CString, pub preload: CString, pub shm_path: CString }

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub steps: u64, pub switches: u64, pub forced: u64, pub preempt: u64, pub loghash: u64, pub ilhash: u64, pub vtime: u64,
    pub io_calls: u64, pub rng: u64, pub entropy: u64, pub spawned: u64, pub faults: Vec<u32>, pub iohash: u64, pub trace: Vec<(u32, u32)>,
}
#[derive(Clone, Debug)]
pub enum Outcome { Ok, Viol(Viol), Harness(String) }
pub struct Run { pub outcome: Outcome, pub report: Report, pub stats: Stats }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let what = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "(not text)".into());
        let _ = LAST_PANIC.try_with(|p| if let Ok(mut p) = p.try_borrow_mut() { *p = format!("{at}: {what}") });
    }));
}

pub fn make_shm() -> CString {
    unsafe {
        let fd = libc::syscall(libc::SYS_memfd_create, c"dst".as_ptr(), 0) as i32;
        assert!(fd >= 0, "memfd_create failed");
        let path = CString::new(format!("/proc/self/fd/{fd}")).unwrap();
        assert!(libc::ftruncate(fd, std::mem::size_of::<Shm>() as i64) == 0);
        assert!(!rt::rt_shm_open(path.as_ptr(), 0).is_null(), "cannot map the shared memory");
        path
    }
}

fn configure(spec: &Spec, keep: bool) {
    let s = shm();
    let k = &spec.knobs;
    s.seed = spec.seed;
    (s.p_switch, s.pct_d, s.pct_len, s.site_mod, s.site_key, s.n_explicit) = (0, 0, 0, 1, 0, 0);
    match &spec.sched {
        Sched::Random { p } => { s.strategy = STRAT_RANDOM; s.p_switch = *p }
        Sched::Pct { d, len } => { s.strategy = STRAT_PCT; s.pct_d = *d; s.pct_len = *len }
        Sched::Site { p, modulo, key } => { s.strategy = STRAT_SITE; s.p_switch = *p; s.site_mod = *modulo; s.site_key = *key }
        Sched::Solo => s.strategy = STRAT_SOLO,
        Sched::Explicit { sw } => {
            s.strategy = STRAT_EXPLICIT;
            s.n_explicit = sw.len().min(MAX_EXPLICIT) as u32;
            for (i, (step, tid)) in sw.iter().take(MAX_EXPLICIT).enumerate() { s.explicit_[i] = Swtch { step: *step, tid: *tid } }
        }
    }
    (s.p_spurious, s.p_wakeorder, s.p_rng_extreme, s.rng_mode) = (k.p_spurious, k.p_wakeorder, k.p_rng_extreme, k.rng_mode);
    (s.starve_tid1, s.starve_steps, s.step_limit, s.disk_free) = (k.starve_tid1, k.starve_steps, k.step_limit, k.disk_free);
    (s.p_stall, s.stall_len) = (k.p_stall, k.stall_len);
    (s.tick, s.p_jump) = (if k.tick == 0 { 1000 } else { k.tick }, k.p_jump);
    s.n_iofaults = spec.io.len().min(MAX_IOFAULTS) as u32;
    for (i, f) in spec.io.iter().take(MAX_IOFAULTS).enumerate() { s.iof[i] = IoFaultC { idx: f.idx, kind: f.kind, pad: 0, arg: f.arg } }
    s.io_enabled = 1;
    s.fault_fired = [0; N_FAULT_KINDS];
    s.verdict_len = 0;
    s.real_passthrough = 0;
    s.pad1 = 0;
    s.status = 0;
    s.steps = 0;
    s.crash_io = 0;
    s.entropy_bytes = 0;
    s.rng_draws = 0;
    unsafe { if keep { rt_fs_reboot() } else { rt_fs_reset() } }
}

/// How often the usual time a run may take (see `confirm`).
pub static PATIENCE: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(1);

/// A run that did not come to its end gets far more time before it counts as one that never would.
pub fn confirm(spec: &Spec, env: &Env, r: Run) -> Run {
    if !matches!(&r.outcome, Outcome::Viol(v) if v.class == "no-progress" || v.class == "hang") { return r }
    let longer = Spec { knobs: Knobs { step_limit: 150_000_000, ..spec.knobs.clone() }, ..spec.clone() };
    PATIENCE.store(4, std::sync::atomic::Ordering::SeqCst);
    let again = execute(&longer, env);
    PATIENCE.store(1, std::sync::atomic::Ordering::SeqCst);
    if matches!(&again.outcome, Outcome::Viol(v) if v.class == "no-progress" || v.class == "hang") { r } else { again }
}

fn limits(bytes: u64) {
    let patience = PATIENCE.load(std::sync::atomic::Ordering::SeqCst);
    unsafe {
        let set = |r, v| { let l = libc::rlimit { rlim_cur: v, rlim_max: v + 5 }; libc::setrlimit(r, &l); };
        set(libc::RLIMIT_CPU as _, 20 * patience as u64);
        set(libc::RLIMIT_AS as _, bytes);
        set(libc::RLIMIT_CORE as _, 0);
        libc::alarm(100 * patience);
    }
}
fn silence() {
    unsafe {
        let fd = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
        if fd >= 0 { libc::dup2(fd, 0); libc::dup2(fd, 1); libc::dup2(fd, 2); }
    }
}
fn write_report(rep: &Report) {
    let mut j = serde_json::to_vec(rep).unwrap();
    if j.len() > VERDICT_CAP {
        let mut r = rep.clone();
        if let Some(v) = &mut r.viol { v.msg = v.msg.chars().take(20000).collect() }
        r.note.clear();
        j = serde_json::to_vec(&r).unwrap();
        if j.len() > VERDICT_CAP { r.out.clear(); r.harness.get_or_insert("report too long".into()); j = serde_json::to_vec(&r).unwrap(); }
    }
    let s = shm();
    s.verdict[..j.len()].copy_from_slice(&j);
    s.verdict_len = j.len() as u32;
}

/// Runs the oracle; a panic raised inside the library counts against the library.
fn judged(rep: &mut Report, f: impl FnOnce(&mut Report) -> Result<(), Viol>) {
    let mut inner = Report::default();
    std::mem::swap(rep, &mut inner);
    match catch_unwind(AssertUnwindSafe(|| { let r = f(&mut inner); (r, inner) })) {
        Ok((r, i)) => { *rep = i; if let Err(v) = r { rep.viol = Some(v) } }
        Err(_) => {
            let p = LAST_PANIC.with(|p| p.borrow().clone());
            if p.starts_with("/repo/") { rep.viol = Some(Viol { class: "panic".into(), msg: format!("the library panicked while its state was examined: {p}") }) }
            // On a library that behaves, the oracle meets nothing it cannot handle.
            else { rep.viol = Some(Viol { class: "unexpected".into(), msg: format!("the library's state is not one that can be examined: {p}") }) }
        }
    }
}

/// In the child: never returns.
fn child(spec: &Spec) -> ! {
    limits(3 << 30);
    // One arena: those of many threads would take up the address space, and only one thread runs at a time.
    unsafe { libc::mallopt(libc::M_ARENA_MAX, 1); }
    silence();
    let before = match &spec.kind { Kind::File(f) => { files::setup(f); files::snapshot() } Kind::Many(m) => { many::setup(m); files::snapshot() } _ => Default::default() };
    let mut rep = Report::default();
    enum Done { Ops(exec::Finished), Stoch(stoch::Draws), File(files::FileOut), Many(Vec<Vec<many::Event>>) }
    unsafe { rt_begin() };
    // A thread of its own, so that nothing the process did before is visible to the run through thread-local state.
    let kind = spec.kind.clone();
    let done = std::thread::spawn(move || match &kind {
        Kind::Ops(o) => Done::Ops(exec::run_ops(o)),
        Kind::Stoch(s) => Done::Stoch(stoch::run(s)),
        Kind::File(f) => Done::File(files::run(f)),
        Kind::Many(m) => Done::Many(many::run(m)),
        Kind::Cli(_) => unreachable!(),
    }).join();
    unsafe { rt_end() };
    shm().pad1 = 1; // the oracle's turn
    match done {
        // Preparation goes through the library too, and nothing in it may be refused.
        Err(_) => rep.viol = Some(Viol { class: "setup".into(), msg: "the library refused a valid request while the scenario was prepared".into() }),
        Ok(d) => judged(&mut rep, |rep| match (&d, &spec.kind) {
            (Done::Ops(fin), _) => oracle::judge(&spec.prop, fin, rep),
            (Done::Stoch(d), Kind::Stoch(s)) => stoch::judge(s, d, rep),
            (Done::Many(d), Kind::Many(m)) => many::judge(m, d, &before, rep),
            (Done::File(o), Kind::File(f)) => files::judge(f, o, &before, rep),
            _ => unreachable!(),
        }),
    }
    write_report(&rep);
    shm().status = RS_OK;
    unsafe { libc::_exit(0) }
}

fn child_cli(c: &CliSc, env: &Env) -> ! {
    unsafe {
        limits(2 << 30);
        silence();
        let args: Vec<CString> = files::cli_args(c).into_iter().map(|a| CString::new(a).unwrap()).collect();
        let mut argv: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
        argv.push(std::ptr::null());
        let e: Vec<CString> = vec![
            CString::new([b"LD_PRELOAD=", env.preload.as_bytes()].concat()).unwrap(),
            CString::new([b"SIMRT_SHM=", env.shm_path.as_bytes()].concat()).unwrap(),
            CString::new("PATH=/usr/bin:/bin").unwrap(), CString::new("HOME=/nonexistent").unwrap(),
        ];
        let mut envp: Vec<*const libc::c_char> = e.iter().map(|a| a.as_ptr()).collect();
        envp.push(std::ptr::null());
        libc::execve(env.cli.as_ptr(), argv.as_ptr(), envp.as_ptr());
        libc::_exit(125)
    }
}

/// `keep`: in the file system that the execution before has left.
fn one(spec: &Spec, env: &Env, keep: bool) -> Run {
    configure(spec, keep);
    if let Kind::Cli(c) = &spec.kind { if files::cli_oversized(c) {
        let mut rep = Report::default();
        rep.probe("not_judged", 1);
        return Run { outcome: Outcome::Ok, report: rep, stats: Stats { faults: vec![0; N_FAULT_KINDS], ..Default::default() } }
    } }
    let before = match &spec.kind { Kind::Cli(c) => { if !keep { files::cli_setup(c) } files::snapshot() } _ => Default::default() };
    let st = unsafe {
        let pid = libc::fork();
        if pid == 0 { match &spec.kind { Kind::Cli(c) => child_cli(c, env), _ => child(spec) } }
        assert!(pid > 0, "fork failed");
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) != pid {}
        st
    };
    let s = shm();
    let mut rep = Report::default();
    let stats = Stats {
        steps: s.steps, switches: s.switches, forced: s.forced, preempt: s.preempt_in_op, loghash: s.loghash, ilhash: s.ilhash, vtime: s.vtime,
        io_calls: s.io_calls as u64, rng: s.rng_draws, entropy: s.entropy_bytes, spawned: s.spawned as u64, faults: s.fault_fired.to_vec(),
        iohash: hash_bytes(&s.iolog[..(s.iolog_len as usize).min(IOLOG_CAP)]),
        trace: s.trace[..(s.n_trace as usize).min(MAX_TRACE)].iter().map(|t| (t.step, t.tid)).collect(),
    };
    let v = |class: &str, msg: String| Outcome::Viol(Viol { class: class.into(), msg });
    let end = |what: &str| format!("{what} after {} scheduling points, {} switches", s.steps, s.switches);
    let mut outcome = if s.status == RS_DEADLOCK {
        v("deadlock", end("every thread waits for another"))
    } else if s.status == RS_LIVELOCK {
        v("no-progress", end("the threads keep running without finishing"))
    } else if s.status == RS_HARNESS {
        Outcome::Harness("the run-time reported an error".into())
    } else if libc::WIFSIGNALED(st) {
        match libc::WTERMSIG(st) {
            libc::SIGALRM => Outcome::Harness("a run took too much wall-clock time".into()),
            libc::SIGKILL if s.steps == 0 => Outcome::Harness("a run was killed".into()),
            _ if s.pad1 == 1 => Outcome::Harness(format!("the oracle died of signal {}", libc::WTERMSIG(st))),
            _ if matches!(spec.kind, Kind::Cli(_)) && files::delivered_oversized() => { rep.probe("not_judged", 1); Outcome::Ok }
            libc::SIGXCPU | libc::SIGKILL => v("hang", end("still computing")),
            g => v("killed", end(&format!("the process died of signal {g}"))),
        }
    } else { Outcome::Ok };
    if let (Outcome::Ok, false) = (&outcome, libc::WIFSIGNALED(st)) {
        let code = libc::WEXITSTATUS(st);
        match &spec.kind {
            Kind::Cli(c) => {
                if code == 125 && s.status == 0 { outcome = Outcome::Harness("cannot start lsystem".into()) }
                else if s.status != RS_OK && s.status != RS_CRASHPOINT { outcome = Outcome::Harness(format!("lsystem left the simulation: status {} exit {code}", s.status)) }
                else {
                    let exit = if s.status == RS_CRASHPOINT { None } else { Some(code) };
                    judged(&mut rep, |rep| files::cli_judge(c, exit, &before, rep));
                }
            }
            _ => {
                if s.status == RS_CRASHPOINT { /* the planned end of the process */ }
                else if s.status != RS_OK { outcome = v("exit", format!("the process ended by itself with status {code}")) }
                else {
                    match serde_json::from_slice(&s.verdict[..s.verdict_len as usize]) { Ok(r) => rep = r, Err(e) => outcome = Outcome::Harness(format!("unreadable verdict: {e}")) }
                }
            }
        }
    }
    if let Outcome::Ok = outcome {
        if let Some(h) = &rep.harness { outcome = Outcome::Harness(h.clone()) }
        else if let Some(x) = &rep.viol { outcome = Outcome::Viol(x.clone()) }
    }
    Run { outcome, report: rep, stats }
}

/// The same renderings in a process without concurrency, other activity or history, with other hash seeds.
fn twin_of(spec: &Spec) -> Option<Spec> {
    let Kind::Ops(o) = &spec.kind else { return None };
    if !o.twin { return None }
    let mut renders: Vec<Op> = o.threads.iter().flatten().filter(|x| matches!(x, Op::Render { .. })).cloned().collect();
    renders.reverse();
    if renders.is_empty() { return None }
    let t = Ops { names: o.names.clone(), systems: o.systems, plants: o.plants.clone(), fams: o.fams, setup: vec![], threads: vec![renders], finale: vec![], base: o.base.clone(), twin: false };
    Some(Spec { kind: Kind::Ops(t), seed: hash64(&[spec.seed, 0x7177]), sched: Sched::Solo, knobs: Knobs { step_limit: spec.knobs.step_limit, disk_free: -1, ..Default::default() }, ..spec.clone() })
}

/// Executes a spec (twice where the property compares two executions).
pub fn execute(spec: &Spec, env: &Env) -> Run {
    let mut r = one(spec, env, false);
    if let Outcome::Harness(_) = r.outcome { r = one(spec, env, false); }
    if let (Outcome::Ok, Kind::Cli(c)) = (&r.outcome, &spec.kind) { if c.again {
        // The program is started again after the failure, the crash or the success, and nothing goes wrong this time.
        let q = Spec { io: vec![], knobs: Knobs { disk_free: -1, ..spec.knobs.clone() }, seed: hash64(&[spec.seed, 0xa9a1]), ..spec.clone() };
        let b = one(&q, env, true);
        let (x, y) = (&mut r.stats, &b.stats);
        (x.steps, x.io_calls, x.vtime) = (x.steps + y.steps, x.io_calls + y.io_calls, x.vtime + y.vtime.saturating_sub(1_000_000_000));
        (x.loghash, x.iohash) = (hash64(&[x.loghash, y.loghash]), hash64(&[x.iohash, y.iohash]));
        for (k, n) in b.report.probes { r.report.probe(&format!("second_run_{k}"), n) }
        r.outcome = match b.outcome { Outcome::Viol(v) => Outcome::Viol(Viol { class: v.class, msg: format!("in the second run, after the first had ended: {}", v.msg) }), o => o };
    } }
    if let (Outcome::Ok, Some(t)) = (&r.outcome, twin_of(spec)) {
        let q = one(&t, env, false);
        match q.outcome {
            Outcome::Ok => {
                let mut n = 0;
                for (k, a) in &r.report.out {
                    if let Some(b) = q.report.out.get(k) {
                        n += 1;
                        if a != b { r.outcome = Outcome::Viol(Viol { class: "not-reproducible".into(), msg: format!("plant and size {k}: hash of the SVG text {a} here, {b} in another execution; plants {:?}", match &spec.kind { Kind::Ops(o) => o.plants.clone(), _ => vec![] }) }); break }
                    }
                }
                r.report.probe("compared_with_another_execution", n);
            }
            o => r.outcome = o,
        }
    }
    r
}
