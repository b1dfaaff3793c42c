//! Deterministic simulation of rusty-systems. See /verif/DESIGN.md.
mod driver;
mod exec;
mod files;
mod gen;
mod lin;
mod many;
mod model;
mod oracle;
mod rt;
mod runner;
mod shrink;
mod spec;
mod stoch;

fn main() {
    rt::check_layout();
    runner::install_hook();
    // What the standard library finds out once and remembers (whether the kernel has statx), so that every run, also
    // the replay of one, starts out from the same memory.
    let _ = (std::fs::metadata("/"), std::fs::metadata("/nonexistent"), std::fs::read("/dev/null"), std::fs::write("/dev/null", b"x"));
    let verif = std::env::var("DST_VERIF").unwrap_or_else(|_| "/verif".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("DST_TIER").map_or(false, |t| t == "thorough");
    let workers: u64 = std::env::var("DST_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| a.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    let code = match (a.get(1).map(String::as_str), a.get(2)) {
        (Some("check"), Some(p)) => driver::check(p, thorough, seed, &verif, workers),
        (Some("replay"), Some(p)) => driver::replay(p, &verif),
        (Some("hashes"), Some(p)) => driver::hashes(p, seed, num(3), num(4), num(5).max(1), thorough, &verif),
        (Some("one"), Some(p)) => driver::one(p, seed, num(3), thorough, &verif),
        _ => { eprintln!("usage: dst check PROP | replay FILE | hashes PROP FROM TO STRIDE | one PROP RUN"); 64 }
    };
    std::process::exit(code)
}
