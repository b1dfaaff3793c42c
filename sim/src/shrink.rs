//! Makes a failing execution small while it keeps failing in the same way.
use crate::rt::*;
use crate::runner::{execute, Env, Outcome};
use crate::spec::*;
use std::time::Instant;

pub struct Shrinker<'a> { pub env: &'a Env, pub class: String, pub until: Instant, pub tries: u64 }

impl Shrinker<'_> {
    fn over(&self) -> bool { Instant::now() >= self.until }
    fn fails(&mut self, s: &Spec) -> bool {
        self.tries += 1;
        matches!(execute(s, self.env).outcome, Outcome::Viol(v) if v.class == self.class)
    }
    /// Does the scenario still fail under this schedule, or under some other one?
    fn search(&mut self, s: &Spec, more: usize) -> Option<Spec> {
        if self.fails(s) { return Some(s.clone()) }
        let mut r = Rng::new(hash64(&[s.seed, 0x5ea]));
        for _ in 0..more {
            if self.over() { return None }
            let mut q = s.clone();
            q.seed = r.next();
            q.sched = gen_sched(&mut r, 200);
            if self.fails(&q) { return Some(q) }
        }
        None
    }

    pub fn run(&mut self, start: &Spec) -> Spec {
        let mut best = start.clone();
        let threads = match &best.kind { Kind::Ops(o) => o.threads.len(), Kind::Stoch(s) => s.threads + s.noise, Kind::Many(m) => m.threads.len(), _ => 1 };
        let more = if threads > 1 { 30 } else { 0 };
        for round in 0..6 {
            let mut changed = false;
            for c in 0.. {
                if self.over() { break }
                // Candidates are recomputed from the current best, so that an accepted one is built upon.
                let list = candidates(&best);
                let Some(s) = list.get(c) else { break };
                let mut cur = s.clone();
                let mut c2 = c;
                while let Some(f) = self.search(&cur, if round < 2 { more } else { 5.min(more) }) {
                    best = f;
                    changed = true;
                    if self.over() { break }
                    // the same position again
                    match candidates(&best).get(c2) { Some(n) => cur = n.clone(), None => break }
                    c2 = c;
                }
            }
            if !changed || self.over() { break }
        }
        self.schedule(best)
    }

    /// Replaces the random schedule by the list of its switches, and drops those that do not matter.
    fn schedule(&mut self, best: Spec) -> Spec {
        let r = execute(&best, self.env);
        if !matches!(&r.outcome, Outcome::Viol(v) if v.class == self.class) { return best }
        let mut sw = r.stats.trace;
        if sw.len() >= MAX_TRACE { return best }
        let mut e = Spec { sched: Sched::Explicit { sw: sw.clone() }, ..best.clone() };
        // the planned starvation is part of the recorded schedule now
        e.knobs.starve_tid1 = 0;
        e.knobs.starve_steps = 0;
        e.knobs.p_stall = 0;
        if !self.fails(&e) { return best }
        let mut n = 2usize;
        while sw.len() >= 1 && n <= sw.len().max(1) * 2 {
            if self.over() { break }
            let size = sw.len().div_ceil(n);
            let mut cut = false;
            let mut i = 0;
            while i < sw.len() {
                if self.over() { break }
                let mut t = sw.clone();
                t.drain(i..(i + size).min(sw.len()));
                let q = Spec { sched: Sched::Explicit { sw: t.clone() }, ..e.clone() };
                if self.fails(&q) { sw = t; e = q; cut = true } else { i += size }
            }
            if size == 1 && !cut { break }
            n = if cut { 2.max(n - 1) } else { n * 2 };
        }
        e
    }
}

fn with(s: &Spec, f: impl FnOnce(&mut Spec)) -> Spec { let mut q = s.clone(); f(&mut q); q }

fn candidates(s: &Spec) -> Vec<Spec> {
    let mut v = vec![];
    if !s.io.is_empty() {
        if s.io.len() > 2 { v.push(with(s, |q| { let k = q.io.len() / 2; q.io.truncate(k) })); v.push(with(s, |q| { let k = q.io.len() / 2; q.io.drain(..k); })); }
        for i in 0..s.io.len() { v.push(with(s, |q| { q.io.remove(i); })) }
    }
    let k = &s.knobs;
    if k.p_spurious > 0 { v.push(with(s, |q| q.knobs.p_spurious = 0)) }
    if k.p_wakeorder > 0 { v.push(with(s, |q| q.knobs.p_wakeorder = 0)) }
    if k.p_rng_extreme > 0 { v.push(with(s, |q| { q.knobs.p_rng_extreme = 0; q.knobs.rng_mode = 0 })) }
    if k.p_stall > 0 { v.push(with(s, |q| q.knobs.p_stall = 0)) }
    if k.starve_tid1 > 0 { v.push(with(s, |q| { q.knobs.starve_tid1 = 0; q.knobs.starve_steps = 0 })) }
    if k.p_jump > 0 { v.push(with(s, |q| q.knobs.p_jump = 0)) }
    if k.tick > 0 { v.push(with(s, |q| q.knobs.tick = 0)) }
    if k.disk_free >= 0 { v.push(with(s, |q| q.knobs.disk_free = -1)) }
    match &s.kind {
        Kind::Ops(o) => {
            let ops = |f: &dyn Fn(&mut Ops)| with(s, |q| if let Kind::Ops(o) = &mut q.kind { f(o) });
            for t in 0..o.threads.len() { if o.threads.len() > 1 { v.push(ops(&|o| { o.threads.remove(t); })) } }
            if o.setup.len() > 1 { v.push(ops(&|o| o.setup.clear())) }
            for t in 0..o.threads.len() {
                let n = o.threads[t].len();
                if n > 3 { v.push(ops(&|o| { o.threads[t].truncate(n / 2) })); v.push(ops(&|o| { o.threads[t].drain(..n / 2); })); }
            }
            for t in 0..o.threads.len() { for i in 0..o.threads[t].len() { v.push(ops(&|o| { o.threads[t].remove(i); })) } }
            for i in 0..o.setup.len() { v.push(ops(&|o| { o.setup.remove(i); })) }
            for i in 0..o.finale.len() { v.push(ops(&|o| { o.finale.remove(i); })) }
            for t in 0..o.threads.len() { for i in 0..o.threads[t].len() { for x in smaller(&o.threads[t][i]) { v.push(ops(&|o| o.threads[t][i] = x.clone())) } } }
            for i in 0..o.setup.len() { for x in smaller(&o.setup[i]) { v.push(ops(&|o| o.setup[i] = x.clone())) } }
            for p in 0..o.plants.len() {
                let lines: Vec<&str> = o.plants[p].split('\n').collect();
                for i in 0..lines.len() { if lines.len() > 1 { let mut l = lines.clone(); l.remove(i); let t = l.join("\n"); v.push(ops(&|o| o.plants[p] = t.clone())) } }
            }
        }
        Kind::Stoch(st) => {
            let stq = |f: &dyn Fn(&mut Stoch)| with(s, |q| if let Kind::Stoch(o) = &mut q.kind { f(o) });
            if st.warm { v.push(stq(&|o| o.warm = false)) }
            if st.erase.is_some() { v.push(stq(&|o| o.erase = None)) }
            if st.noise > 0 { v.push(stq(&|o| o.noise = 0)) }
            if st.threads > 1 { v.push(stq(&|o| o.threads = 1)) }
            if st.over.is_some() { v.push(stq(&|o| o.over = None)) }
            if st.iters > 1 { v.push(stq(&|o| o.iters = 1)) }
            if st.width > 1 { v.push(stq(&|o| o.width = 1)) }
            if st.calls > 1 { v.push(stq(&|o| o.calls /= 2)) }
            for i in 0..st.chances.len() { if st.chances.len() > 1 { v.push(stq(&|o| { o.chances.remove(i); })) } }
        }
        Kind::File(f) => {
            let fq = |g: &dyn Fn(&mut FileSc)| with(s, |q| if let Kind::File(o) = &mut q.kind { g(o) });
            for i in 0..f.edits.len() { v.push(fq(&|o| { o.edits.remove(i); })) }
            if f.repeat > 1 { v.push(fq(&|o| o.repeat = 1)) }
            if f.old.is_some() { v.push(fq(&|o| o.old = None)) }
            if f.path > 0 { v.push(fq(&|o| o.path = 0)) }
            if f.eol != "\n" { v.push(fq(&|o| o.eol = "\n".into())) }
            for i in 0..f.lines.len() { v.push(fq(&|o| { o.lines.remove(i); })) }
            for i in 0..f.lines.len() { if f.lines[i].len() > 200 { v.push(fq(&|o| { let k: String = o.lines[i].chars().take(100).collect(); o.lines[i] = k })) } }
        }
        Kind::Many(m) => {
            let fq = |g: &dyn Fn(&mut ManySc)| with(s, |q| if let Kind::Many(o) = &mut q.kind { g(o) });
            for t in 0..m.threads.len() { if m.threads[t].is_empty() && t + 1 < m.threads.len() { continue }
                if m.threads.len() > 1 && t + 1 == m.threads.len() { v.push(fq(&|o| { o.threads.remove(t); })) } else { v.push(fq(&|o| o.threads[t].clear())) } }
            for t in 0..m.threads.len() { for i in 0..m.threads[t].len() { v.push(fq(&|o| { o.threads[t].remove(i); })) } }
            for t in 0..m.threads.len() { for i in 0..m.threads[t].len() { if let FOp::Put { edits, .. } = &m.threads[t][i] { if !edits.is_empty() { v.push(fq(&|o| if let FOp::Put { edits, .. } = &mut o.threads[t][i] { edits.clear() })) } } } }
            for p in 0..m.plants.len() { for i in 0..m.plants[p].len() { v.push(fq(&|o| { o.plants[p].remove(i); })) } }
        }
        Kind::Cli(f) => {
            let fq = |g: &dyn Fn(&mut CliSc)| with(s, |q| if let Kind::Cli(o) = &mut q.kind { g(o) });
            for i in 0..f.edits.len() { v.push(fq(&|o| { o.edits.remove(i); })) }
            if f.old.is_some() { v.push(fq(&|o| o.old = None)) }
            if f.old.as_ref().map_or(false, |o| o.len() > 4) { v.push(fq(&|o| o.old = Some("old".into()))) }
            if f.again { v.push(fq(&|o| o.again = false)) }
            if f.bystander { v.push(fq(&|o| o.bystander = false)) }
            if f.verbose > 0 { v.push(fq(&|o| o.verbose = 0)) }
            if f.w.is_some() || f.h.is_some() { v.push(fq(&|o| { o.w = None; o.h = None })) }
            if f.output.is_some() { v.push(fq(&|o| o.output = None)) }
            if f.plant != "p" { v.push(fq(&|o| o.plant = "p".into())) }
            if f.eol != "\n" { v.push(fq(&|o| o.eol = "\n".into())) }
            for i in 0..f.lines.len() { v.push(fq(&|o| { o.lines.remove(i); })) }
        }
    }
    v
}
fn smaller(op: &Op) -> Vec<Op> {
    let mut v = vec![];
    let conv = |c: &Conv| -> Vec<Conv> {
        match c {
            Conv::Reenter(o) | Conv::ReenterErr(o) | Conv::ReenterPanic(o) => {
                let wrap = |x: Vec<Op>| match c { Conv::Reenter(_) => Conv::Reenter(x), Conv::ReenterErr(_) => Conv::ReenterErr(x), _ => Conv::ReenterPanic(x) };
                (0..o.len()).map(|i| { let mut x = o.clone(); x.remove(i); wrap(x) }).collect()
            }
            _ => vec![],
        }
    };
    let shorter = |p: &PSpec| -> Vec<PSpec> {
        let mut v = vec![];
        if p.pre.is_some() { v.push(PSpec { pre: None, ..p.clone() }) }
        if p.post.is_some() { v.push(PSpec { post: None, ..p.clone() }) }
        if p.body.len() > 1 { v.push(PSpec { body: p.body[..p.body.len() / 2].to_vec(), ..p.clone() }) }
        if !p.more.is_empty() { v.push(PSpec { more: vec![], ..p.clone() }); v.push(PSpec { more: p.more[1..].to_vec(), ..p.clone() }) }
        if p.chance.is_some() { v.push(PSpec { chance: None, ..p.clone() }) }
        v
    };
    match op {
        Op::Bulk { base, from, count } if *count > 1 => { v.push(Op::Bulk { base: *base, from: *from, count: count / 2 }); v.push(Op::Bulk { base: *base, from: *from, count: count - 1 }) }
        Op::AddProd { sys, p, conv: c } => { for q in conv(c) { v.push(Op::AddProd { sys: *sys, p: p.clone(), conv: q }) } for q in shorter(p) { v.push(Op::AddProd { sys: *sys, p: q, conv: c.clone() }) } }
        Op::AddSym { sys, n, conv: c } => for q in conv(c) { v.push(Op::AddSym { sys: *sys, n: *n, conv: q }) },
        Op::LAddProd { p, conv: c } => { for q in conv(c) { v.push(Op::LAddProd { p: p.clone(), conv: q }) } for q in shorter(p) { v.push(Op::LAddProd { p: q, conv: c.clone() }) } }
        Op::Derive { sys, axiom, iters, once } => {
            if axiom.len() > 1 { v.push(Op::Derive { sys: *sys, axiom: axiom[..axiom.len() / 2].to_vec(), iters: *iters, once: *once }); v.push(Op::Derive { sys: *sys, axiom: axiom[axiom.len() / 2..].to_vec(), iters: *iters, once: *once }) }
            if *iters > 1 { v.push(Op::Derive { sys: *sys, axiom: axiom.clone(), iters: iters - 1, once: *once }) }
        }
        Op::Free { rules, axiom, iters, once } => {
            for i in 0..rules.len() { let mut r = rules.clone(); r.remove(i); v.push(Op::Free { rules: r, axiom: axiom.clone(), iters: *iters, once: *once }) }
            if axiom.len() > 1 { v.push(Op::Free { rules: rules.clone(), axiom: axiom[..axiom.len() / 2].to_vec(), iters: *iters, once: *once }) }
            if *iters > 1 { v.push(Op::Free { rules: rules.clone(), axiom: axiom.clone(), iters: iters - 1, once: *once }) }
        }
        Op::Print { slot, names, api } if names.len() > 1 => v.push(Op::Print { slot: *slot, names: names[..names.len() / 2].to_vec(), api: *api }),
        _ => {}
    }
    v
}
