//! Random choice of bodies: execution and judgement.
use crate::exec::LAST_PANIC;
use crate::oracle::{viol, Report, Viol};
use crate::rt::{self, *};
use crate::spec::Stoch;
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody, ProductionHead};
use rusty_systems::symbols::SymbolStore;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

/// per thread, per call: per occurrence of the symbol, the bodies picked in successive iterations
pub type Draws = Vec<Vec<Result<Vec<Vec<usize>>, String>>>;

fn sym(n: &str) -> Symbol { n.parse().unwrap() }

pub fn run(st: &Stoch) -> Draws {
    let sys = Arc::new(System::new());
    let unit = st.unit() as f64;
    let iters = if matches!(st.api, 1 | 2) { st.iters.max(1) } else { 1 };
    let width = if iters > 2 { st.width.min(10) } else { st.width };
    let chain = iters > 1 && !st.stay;
    let mut last: Option<Production> = None;
    for (i, c) in st.chances.iter().enumerate() {
        let erased = st.erase == Some(i) && !st.stay;
        let mut b = if erased { ProductionString::empty() } else if st.stay && i == 0 { ProductionString::from(sym("S")) } else { ProductionString::from(sym(&format!("B{i}"))) };
        if chain { b.push_symbol(sym("S")) }
        let body = match c { None => ProductionBody::new(b), Some(c) => ProductionBody::try_with_chance((*c as f64 / unit) as f32, b).unwrap() };
        let added = if i % 2 == 0 {
            sys.add_production(Production::new(ProductionHead::build(None, sym("S"), None).unwrap(), body))
        } else {
            let ch = c.map(|c| format!("{} ", c as f64 / unit)).unwrap_or_default();
            sys.add_production(format!("S -> {ch}{}{}", if erased { String::new() } else if st.stay && i == 0 { "S".to_string() } else { format!("B{i}") }, if chain { " S" } else { "" }))
        };
        last = Some(added.unwrap());
        if st.warm {
            let s = ProductionString::from(sym("S"));
            let _ = if i % 2 == 0 { sys.derive_once(s) } else { sys.derive(s, RunSettings::for_max_iterations(1)) };
        }
    }
    if st.over.is_some() {
        sys.add_production("O -> 0.7 O").unwrap();
        sys.add_production("O -> 0.7 Q").unwrap();
    }
    let last = last.unwrap();
    let mut list = vec![last.clone()];
    if st.over.is_some() {
        let mut o: Production = "O -> 0.7 O".parse().unwrap();
        o.merge("O -> 0.7 Q".parse().unwrap());
        list.push(o);
    }
    let codes: Vec<u32> = (0..st.chances.len()).map(|i| sym(&format!("B{i}")).code()).collect();
    let s_code = sym("S").code();
    let mut axiom = ProductionString::from((0..width).map(|_| sym("S")).collect::<Vec<_>>());
    if st.over == Some(true) { axiom.push_symbol(sym("O")) }
    let mut handles = vec![];
    for _ in 0..st.threads {
        let (sys, last, list, axiom, codes, st) = (sys.clone(), last.clone(), list.clone(), axiom.clone(), codes.clone(), st.clone());
        handles.push(std::thread::spawn(move || {
            unsafe { rt_gate_wait() };
            let mut out = vec![];
            for _ in 0..st.calls {
                rt::in_op(true);
                let r = catch_unwind(AssertUnwindSafe(|| -> Result<Vec<Vec<usize>>, String> {
                    let string = match st.api {
                        3 => {
                            let mut v = vec![];
                            for _ in 0..width {
                                let b = last.body().map_err(|e| e.to_string())?;
                                if b.is_empty() && st.erase.is_some() { v.push(vec![st.erase.unwrap()]); continue }
                                v.push(vec![codes.iter().position(|c| *c == b.string()[0].code()).ok_or("unknown body")?]);
                            }
                            return Ok(v)
                        }
                        0 => sys.derive_once(axiom.clone()),
                        1 => sys.derive(axiom.clone(), RunSettings::for_max_iterations(iters)),
                        _ => rusty_systems::system::derive(axiom.clone(), &list, RunSettings::for_max_iterations(iters)),
                    }.map_err(|e| e.to_string())?;
                    let mut v = vec![];
                    let mut cur = vec![];
                    for s in string.iter() {
                        if st.stay && s.code() == s_code { v.push(vec![0]); continue }
                        if s.code() == s_code { v.push(std::mem::take(&mut cur)); continue }
                        match codes.iter().position(|c| *c == s.code()) {
                            Some(i) if chain => cur.push(i),
                            Some(i) => v.push(vec![i]),
                            None if st.over.is_some() => {}
                            None => return Err("malformed".into()),
                        }
                    }
                    if let (Some(e), true) = (st.erase, v.is_empty()) { v.push(vec![e]) }
                    if v.len() != width || v.iter().any(|x| x.len() != if chain { iters } else { 1 }) { return Err("malformed".into()) }
                    Ok(v)
                }));
                rt::in_op(false);
                rt::yield_now();
                out.push(match r { Ok(x) => x, Err(_) => Err(format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone()))) });
            }
            out
        }));
    }
    let mut noise = vec![];
    for t in 0..st.noise {
        let sys = sys.clone();
        let calls = st.calls;
        noise.push(std::thread::spawn(move || {
            unsafe { rt_gate_wait() };
            for i in 0..calls.min(40) {
                let _ = sys.add_production(format!("noise{t}_{i} -> noise{t}_{} S", i + 1));
                let _ = sys.add_symbol(format!("other{i}"));
            }
        }));
    }
    while unsafe { rt_gate_count() } < (st.threads + st.noise) as i32 { rt::yield_now() }
    unsafe { rt_gate_open() };
    let out = handles.into_iter().map(|h| h.join().unwrap_or_default()).collect();
    for h in noise { let _ = h.join(); }
    out
}

const Z: f64 = 7.0;
struct Stat<'a> { rep: &'a mut Report, what: String }
impl Stat<'_> {
    /// `hits` of `n` independent trials of probability `p`
    fn test(&mut self, n: u64, hits: u64, p: f64, what: &str) -> Result<(), Viol> {
        if p <= 0.0 || p >= 1.0 {
            if (p <= 0.0 && hits > 0) || (p >= 1.0 && hits < n) { return viol("frequency", format!("{what}: {hits} of {n}, probability {p}; {}", self.what)) }
            return Ok(())
        }
        let var = n as f64 * p * (1.0 - p);
        if var < 40.0 { return Ok(()) }
        self.rep.probe("statistical_tests", 1);
        let z = (hits as f64 - n as f64 * p) / var.sqrt();
        if z.abs() > Z { return viol("frequency", format!("{what}: {hits} of {n}, expected {:.1} (z = {z:.1}); {}", n as f64 * p, self.what)) }
        Ok(())
    }
}

pub fn judge(st: &Stoch, draws: &Draws, rep: &mut Report) -> Result<(), Viol> {
    let k = st.chances.len();
    let total: u32 = st.chances.iter().flatten().sum();
    let unset = st.chances.iter().filter(|c| c.is_none()).count();
    let refuse = (k > 1 && total > st.unit()) || (st.over == Some(true) && st.api != 3);
    let share: Vec<f64> = if k == 1 { vec![1.0] } else if refuse { vec![] } else {
        st.chances.iter().enumerate().map(|(i, c)| match c {
            None => (st.unit() - total) as f64 / st.unit() as f64 / unset as f64,
            Some(c) => *c as f64 / st.unit() as f64 + if unset == 0 && i == k - 1 { (st.unit() - total) as f64 / st.unit() as f64 } else { 0.0 },
        }).collect()
    };
    let never: Vec<bool> = share.iter().map(|s| *s <= 1e-9).collect();
    // What has become of one occurrence after all the iterations.
    let share: Vec<f64> = if st.stay && k > 1 && !refuse {
        let n = st.iters.max(1) as i32;
        let geo: f64 = (0..n).map(|j| share[0].powi(j)).sum();
        share.iter().enumerate().map(|(i, s)| if i == 0 { s.powi(n) } else { s * geo }).collect()
    } else { share };
    let what = format!("{}{}{}chances {:?}/{}, api {}, width {}, calls {}, iterations {}, threads {}", if st.stay { "body 0 repeats the symbol, " } else { "" }, st.erase.map_or(String::new(), |e| format!("body {e} is empty, ")), if st.warm { "used while bodies are added, " } else { "" }, st.chances, st.unit(), st.api, st.width, st.calls, st.iters, st.threads);
    for t in draws {
        for c in t {
            match c {
                Err(e) if e.starts_with("panicked") => return viol("panic", format!("{e}; {what}")),
                Err(e) if e == "malformed" || e == "unknown body" => return viol("derivation", format!("the result is not made of the rule's bodies; {what}")),
                Err(e) if !refuse => return viol("refused", format!("refused ({e}) although the applied chances do not exceed one; {what}")),
                Ok(_) if refuse => return viol("not-refused", format!("not refused although an applied production's chances exceed one; over: {:?}, {what}", st.over)),
                _ => {}
            }
        }
        if t.len() != st.calls { return viol("outcome", format!("a drawing thread ended early; {what}")) }
    }
    if refuse { rep.probe("refusals", draws.iter().map(|t| t.len() as u64).sum()); return Ok(()) }
    let flat: Vec<Vec<usize>> = draws.iter().map(|t| t.iter().flatten().flatten().flatten().copied().collect()).collect();
    rep.probe("draws", flat.iter().map(|v| v.len() as u64).sum());
    let all: Vec<usize> = flat.iter().flatten().copied().collect();
    if let Some(b) = all.iter().find(|b| never[**b]) { return viol("zero-share", format!("body {b} has no share of the choice but was picked; {what}")) }
    if !st.stats { return Ok(()) }
    let mut s = Stat { rep, what };
    let count = |v: &mut dyn Iterator<Item = usize>, b: usize| { let (mut n, mut h) = (0, 0); for x in v { n += 1; h += (x == b) as u64 } (n, h) };
    for b in 0..k {
        let (n, h) = count(&mut all.iter().copied(), b);
        s.test(n, h, share[b], &format!("body {b} overall"))?;
        let (n, h) = count(&mut draws.iter().flatten().flatten().map(|c| c[0][0]), b);
        s.test(n, h, share[b], &format!("body {b} as the first of a call"))?;
        let (n, h) = count(&mut draws.iter().flatten().flatten().map(|c| *c.last().unwrap().last().unwrap()), b);
        s.test(n, h, share[b], &format!("body {b} as the last of a call"))?;
        for (t, v) in flat.iter().enumerate() {
            let (n, h) = count(&mut v.iter().copied(), b);
            s.test(n, h, share[b], &format!("body {b} in thread {t}"))?;
        }
        // what follows body b
        for c in 0..k {
            let mut n = 0; let mut h = 0;
            for v in &flat { for w in v.windows(2) { if w[0] == b { n += 1; h += (w[1] == c) as u64 } } }
            s.test(n, h, share[c], &format!("body {c} after body {b}"))?;
        }
    }
    let same: f64 = share.iter().map(|p| p * p).sum();
    let pairs = |v: &mut dyn Iterator<Item = (usize, usize)>| { let (mut n, mut h) = (0, 0); for (a, b) in v { n += 1; h += (a == b) as u64 } (n, h) };
    // Pairs that do not overlap, so that the trials are independent.
    for off in 0..2 {
        let (n, h) = pairs(&mut flat.iter().flat_map(|v| v[off.min(v.len())..].chunks_exact(2).map(|c| (c[0], c[1]))));
        s.test(n, h, same, "neighbouring draws agree")?;
        let (n, h) = pairs(&mut draws.iter().flat_map(|t| { let c: Vec<usize> = t.iter().flatten().map(|c| c[0][0]).collect(); let o = off.min(c.len()); c[o..].chunks_exact(2).map(|c| (c[0], c[1])).collect::<Vec<_>>() }));
        s.test(n, h, same, "successive calls agree")?;
    }
    for lag in [2usize, 3, 4, 8] {
        let (n, h) = pairs(&mut flat.iter().flat_map(|v| v.chunks_exact(2 * lag).flat_map(|c| (0..lag).map(|i| (c[i], c[i + lag])).collect::<Vec<_>>())));
        s.test(n, h, same, &format!("draws {lag} apart agree"))?;
    }
    // the same occurrence in successive iterations and different occurrences in the same iteration
    let (n, h) = pairs(&mut draws.iter().flatten().flatten().flat_map(|c| c.chunks_exact(2).flat_map(|p| p[0].iter().copied().zip(p[1].iter().copied()).collect::<Vec<_>>())));
    s.test(n, h, same, "occurrences of one string agree")?;
    // A long run of draws that occurs twice, in one thread or in two: by chance in less than one of 10^13 executions.
    let most = share.iter().copied().fold(0.0, f64::max);
    const CAP: usize = 24_000;
    let windows: f64 = flat.iter().map(|v| v.len().min(CAP) as f64).sum();
    let len = ((1e13 * windows * windows).ln() / -most.ln()).ceil();
    if most < 1.0 && len <= 300.0 {
        let len = len as usize;
        let mut seen: std::collections::HashMap<u64, (usize, usize)> = Default::default();
        s.rep.probe("repetition_tests", 1);
        for (t, v) in flat.iter().enumerate() {
            let v = &v[..v.len().min(CAP)];
            if v.len() < len { continue }
            const B: u64 = 0x9E37_79B9_7F4A_7C15;
            let top = (0..len).fold(1u64, |a, _| a.wrapping_mul(B));
            let mut h = 0u64;
            for (i, x) in v.iter().enumerate() {
                h = h.wrapping_mul(B).wrapping_add(*x as u64 + 1);
                if i >= len { h = h.wrapping_sub(top.wrapping_mul(v[i - len] as u64 + 1)) }
                if i + 1 < len { continue }
                let at = i + 1 - len;
                if let Some((t0, a0)) = seen.insert(h, (t, at)) {
                    if flat[t0][a0..a0 + len] == v[at..at + len] { return viol("repeats", format!("{len} successive picks of thread {t0} (from its {a0}th) and of thread {t} (from its {at}th) are the same; {}", s.what)) }
                }
            }
        }
    }
    if flat.len() >= 2 {
        let (n, h) = pairs(&mut flat[0].iter().copied().zip(flat[1].iter().copied()));
        s.test(n, h, same, "two threads agree")?;
    }
    Ok(())
}
