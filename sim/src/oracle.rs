//! What an `Ops` history must satisfy, per property.
use crate::exec::*;
use crate::lin::{self, Item, Model, Verdict};
use crate::model::{self, Body, Head, Rules};
use crate::spec::*;
use rusty_systems::prelude::Symbol;
use rusty_systems::symbols::{get_code, get_name};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Viol { pub class: String, pub msg: String }
pub fn viol<T>(class: &str, msg: impl Into<String>) -> Result<T, Viol> { Err(Viol { class: class.into(), msg: msg.into() }) }

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Report {
    pub viol: Option<Viol>,
    pub harness: Option<String>,
    /// values that must be the same in a twin run
    pub out: BTreeMap<String, String>,
    pub probes: BTreeMap<String, u64>,
    pub note: String,
}
impl Report { pub fn probe(&mut self, k: &str, n: u64) { *self.probes.entry(k.into()).or_insert(0) += n; } }

fn show(rec: &Rec) -> String {
    let mut o = format!("{:?}", rec.out);
    if o.len() > 300 { o = format!("{}...", o.chars().take(300).collect::<String>()); }
    format!("[t{} {}..{}{}] {:?} => {}", rec.tid, rec.inv, rec.ret, if rec.depth > 0 { " nested" } else { "" }, rec.op, o)
}
fn dump<'a>(recs: impl Iterator<Item = &'a Rec>) -> String { recs.map(show).collect::<Vec<_>>().join("\n") }

// ------------------------------------------------------------------ systems
#[derive(Clone, PartialEq, Eq, Hash)]
struct Sys { rules: Rules<u32>, syms: BTreeSet<u32> }
enum SysAct {
    Syms(Vec<u32>),
    Push { syms: Vec<u32>, head: Head<u32>, add: Vec<Body<u32>>, expect: Vec<Body<u32>> },
    Get(u32, bool),
    PLen(usize),
    SLen(usize),
    Derive { axiom: Vec<u32>, iters: usize, result: Option<Vec<u32>> },
}
impl Model for Sys {
    type Act = SysAct;
    fn apply(&self, a: &SysAct) -> Option<Sys> {
        match a {
            SysAct::Syms(v) => { let mut s = self.clone(); s.syms.extend(v); Some(s) }
            SysAct::Push { syms, head, add, expect } => {
                let at = self.rules.0.iter().position(|(h, _)| h == head);
                let have: &[Body<u32>] = at.map_or(&[], |i| &self.rules.0[i].1);
                if expect.len() != have.len() + add.len() || expect[..have.len()] != *have || expect[have.len()..] != add[..] { return None }
                let mut s = self.clone();
                s.syms.extend(syms);
                for b in add { s.rules.add(head.clone(), b.clone()); }
                Some(s)
            }
            SysAct::Get(c, yes) => (self.syms.contains(c) == *yes).then(|| self.clone()),
            SysAct::PLen(n) => (self.rules.0.len() == *n).then(|| self.clone()),
            SysAct::SLen(n) => (self.syms.len() == *n).then(|| self.clone()),
            SysAct::Derive { axiom, iters, result } => match self.rules.results(axiom, *iters, 256, 1_000_000) {
                None => Some(self.clone()), // too many possible results to tell
                Some(all) => all.contains(result).then(|| self.clone()),
            },
        }
    }
}

fn chance_bits(c: Option<u32>) -> Option<u32> { c.map(|c| ((c as f64 / 1000.0) as f32).to_bits()) }
fn expect_prod(p: &PSpec, codes: &[u32]) -> (Head<u32>, Vec<Body<u32>>) {
    let l = |v: &Vec<usize>| v.iter().map(|i| codes[*i]).collect::<Vec<u32>>();
    (Head { pre: p.pre.as_ref().map(l), target: codes[p.target], post: p.post.as_ref().map(l) }, std::iter::once(Body { syms: l(&p.body), chance: chance_bits(p.chance) }).chain(p.more.iter().map(|b| Body { syms: l(b), chance: None })).collect())
}
fn bodies(o: &ProdOut) -> Vec<Body<u32>> { o.bodies.iter().map(|(s, c)| Body { syms: s.clone(), chance: *c }).collect() }
fn same_head(o: &ProdOut, h: &Head<u32>) -> bool { o.pre == h.pre && o.target == h.target && o.post == h.post }

/// 0: must succeed, 1: must fail with an error, 2: must panic as planned
fn conv_fate(c: &Conv) -> u8 {
    match c { Conv::CallerErr | Conv::ReenterErr(_) | Conv::Bad => 1, Conv::CallerPanic | Conv::ReenterPanic(_) | Conv::CallerErrIntoPanic => 2, _ => 0 }
}
/// Ok(true): the call succeeded, Ok(false): it failed as it must.
fn fate(rec: &Rec, conv: &Conv, some: Option<bool>) -> Result<bool, Viol> {
    let got = match (&rec.out, some) {
        (Out::Panic(p), _) if p == "planned" => 2,
        (Out::Panic(p), _) => return viol("panic", format!("a call panicked ({p}): {}", show(rec))),
        (_, Some(true)) => 0,
        _ => 1,
    };
    let want = conv_fate(conv);
    if got != want { return viol("outcome", format!("the call {}: {}", ["succeeded, but the caller's conversion failed", "failed for no reason, or with an error where the conversion panicked", "panicked"][got as usize], show(rec))) }
    Ok(got == 0)
}

pub fn final_codes(sc: &Ops) -> Result<Vec<u32>, Viol> {
    sc.names.iter().map(|n| get_code(n).map_err(|e| Viol { class: "registry".into(), msg: format!("looking up {n:?} after the run fails: {e}") })).collect()
}

/// Checks the history of system `sys`. Ok(false): could not be decided within the budget.
fn check_system(fin: &Finished, codes: &[u32], sys: usize) -> Result<bool, Viol> {
    let mut items: Vec<Item<SysAct>> = vec![];
    let recs: Vec<&Rec> = fin.recs.iter().filter(|r| match &r.op {
        Op::AddProd { sys: s, .. } | Op::AddSym { sys: s, .. } | Op::GetSym { sys: s, .. } | Op::ProdLen { sys: s } | Op::SymLen { sys: s } | Op::Derive { sys: s, .. } => *s == sys,
        _ => false,
    }).collect();
    let observers: Vec<(u64, u64)> = recs.iter().filter(|r| matches!(r.op, Op::GetSym { .. } | Op::SymLen { .. })).map(|r| (r.inv, r.ret)).collect();
    for r in &recs {
        let it = |act| Item { inv: r.inv, ret: r.ret, deps: vec![], act };
        if let Out::Panic(p) = &r.out { if p != "planned" { return viol("panic", format!("a call panicked ({p}): {}", show(r))) } }
        match (&r.op, &r.out) {
            (Op::AddProd { p, conv, .. }, out) => {
                let got = if let Out::Prod(Some(o)) = out { Some(o) } else { None };
                if !fate(r, conv, Some(got.is_some()))? { continue }
                let (head, add) = expect_prod(p, codes);
                let o = got.unwrap();
                if !same_head(o, &head) { return viol("returned", format!("returned production has another head: {}", show(r))) }
                let mut syms = model::head_syms(&head);
                for b in &add { syms.extend(&b.syms); }
                syms.sort();
                syms.dedup();
                let seen = observers.iter().any(|(i, e)| *i < r.ret && r.inv < *e);
                let expect = bodies(o);
                if seen {
                    let first = items.len();
                    for s in &syms { items.push(it(SysAct::Syms(vec![*s]))) }
                    let deps = (first..items.len()).collect();
                    items.push(Item { inv: r.inv, ret: r.ret, deps, act: SysAct::Push { syms: vec![], head, add, expect } });
                } else {
                    items.push(it(SysAct::Push { syms, head, add, expect }));
                }
            }
            (Op::AddSym { n, conv, .. }, out) => {
                let got = if let Out::Sym(Some(c)) = out { Some(*c) } else { None };
                if !fate(r, conv, Some(got.is_some()))? { continue }
                if got != Some(codes[*n]) { return viol("returned", format!("returned another symbol: {}", show(r))) }
                items.push(it(SysAct::Syms(vec![codes[*n]])));
            }
            (Op::GetSym { n, .. }, Out::Sym(x)) => {
                if let Some(c) = x { if *c != codes[*n] { return viol("returned", format!("returned another symbol: {}", show(r))) } }
                items.push(it(SysAct::Get(codes[*n], x.is_some())));
            }
            (Op::ProdLen { .. }, Out::Len(n)) => items.push(it(SysAct::PLen(*n))),
            (Op::SymLen { .. }, Out::Len(n)) => items.push(it(SysAct::SLen(*n))),
            (Op::Derive { axiom, iters, once, .. }, Out::Str(s)) => items.push(it(SysAct::Derive {
                axiom: axiom.iter().map(|i| codes[*i]).collect(), iters: if *once { 1 } else { *iters }, result: s.clone() })),
            _ => return viol("outcome", format!("the call failed for no reason: {}", show(r))),
        }
    }
    let mut init = Sys { rules: Rules(vec![]), syms: BTreeSet::new() };
    if fin.ctx.sc.base.get(sys) == Some(&1) { init.syms = model::FAMILY.iter().filter_map(|n| get_code(n).ok()).collect(); }
    match lin::check(init, &items, 400_000) {
        Verdict::Ok => Ok(true),
        Verdict::Unknown => Ok(false),
        Verdict::Bad(k) => viol("history", format!("the calls on system {sys} answered in a way that no one-at-a-time order explains (the best order explains {k} of {} steps):\n{}", items.len(), dump(recs.into_iter()))),
    }
}

// ------------------------------------------------------------------ thread-local stores
fn check_local(fin: &Finished, codes: &[u32]) -> Result<(), Viol> {
    for tid in 0..fin.ctx.sc.threads.len() {
        let mut prods: Vec<(Head<u32>, Vec<Body<u32>>)> = vec![];
        let mut syms: BTreeSet<u32> = BTreeSet::new();
        let mut recs: Vec<&Rec> = fin.recs.iter().filter(|r| r.tid == tid).collect();
        recs.sort_by_key(|r| r.ret);
        for r in recs {
            match (&r.op, &r.out) {
                (Op::LAddProd { p, conv }, out) => {
                    let got = if let Out::Prod(Some(o)) = out { Some(o) } else { None };
                    if !fate(r, conv, Some(got.is_some()))? { continue }
                    let (h, b) = expect_prod(p, codes);
                    let o = got.unwrap();
                    if !same_head(o, &h) || bodies(o) != b { return viol("returned", format!("the store returned another production: {}", show(r))) }
                    prods.push((h, b));
                }
                (Op::LAddSym { n, conv }, out) => {
                    let got = if let Out::Sym(Some(c)) = out { Some(*c) } else { None };
                    if !fate(r, conv, Some(got.is_some()))? { continue }
                    if got != Some(codes[*n]) { return viol("returned", format!("the store returned another symbol: {}", show(r))) }
                    syms.insert(codes[*n]);
                }
                (Op::LGetSym { n }, out) => {
                    let want = syms.contains(&codes[*n]).then_some(codes[*n]);
                    match out { Out::Sym(x) if *x == want => {} _ => return viol("local-history", format!("expected {want:?} from the thread's own store: {}", show(r))) }
                }
                _ => {}
            }
        }
        if let Some((p, s)) = fin.locals.get(tid) {
            let want: Vec<u32> = syms.iter().copied().collect();
            if *s != want { return viol("local-history", format!("thread {tid}'s symbol store holds {s:?}, expected {want:?}")) }
            let ok = p.len() == prods.len() && p.iter().zip(&prods).all(|(o, (h, b))| same_head(o, h) && bodies(o) == *b);
            if !ok { return viol("local-history", format!("thread {tid}'s production store holds {p:?}, expected {prods:?}")) }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ registry
fn unplanned(fin: &Finished) -> Result<(), Viol> {
    for r in &fin.recs { if let Out::Panic(p) = &r.out { if p != "planned" { return viol("panic", format!("a call panicked ({p}): {}", show(r))) } } }
    Ok(())
}
fn learn(map: &mut HashMap<String, u32>, rev: &mut HashMap<u32, String>, name: &str, code: u32, r: &dyn Fn() -> String) -> Result<(), Viol> {
    if let Some(c) = map.get(name) { if *c != code { return viol("two-codes", format!("{name:?} has code {c} and code {code}: {}", r())) } }
    map.insert(name.into(), code);
    if let Some(n) = rev.get(&code) { if n != name { return viol("shared-code", format!("{name:?} and {n:?} share code {code}: {}", r())) } }
    rev.insert(code, name.into());
    Ok(())
}
fn check_c01(fin: &Finished) -> Result<(), Viol> {
    unplanned(fin)?;
    let sc = &fin.ctx.sc;
    let (mut map, mut rev) = (HashMap::new(), HashMap::new());
    for r in &fin.recs {
        let s = || show(r);
        match (&r.op, &r.out) {
            (Op::Code { n, .. }, Out::Code(Some(c))) | (Op::Name { n, .. }, Out::Name { code: Some(c), .. }) => learn(&mut map, &mut rev, sc.names[*n].trim(), *c, &s)?,
            (Op::Blank { .. }, Out::Code(None)) => {}
            (Op::Blank { .. }, _) => return viol("blank", format!("a blank name got a code: {}", show(r))),
            (Op::Code { .. }, _) | (Op::Name { .. }, _) => return viol("refused", format!("a name was refused: {}", show(r))),
            (Op::Bulk { base, from, .. }, Out::Str(Some(v))) => for (k, c) in v.iter().enumerate() { learn(&mut map, &mut rev, &bulk_name(*base, from + k as u32), *c, &s)? },
            (Op::Bulk { .. }, _) => return viol("refused", format!("a name was refused: {}", show(r))),
            (Op::Print { names, .. }, Out::Names { codes: Some(v), .. }) => for (n, c) in names.iter().zip(v) { learn(&mut map, &mut rev, &sc.names[*n], *c, &s)? },
            _ => {}
        }
    }
    let mut all: Vec<(String, u32)> = map.iter().map(|(a, b)| (a.clone(), *b)).collect();
    all.sort();
    for (n, c) in all {
        match get_code(&n) {
            Ok(x) if x == c => {}
            x => return viol("two-codes", format!("{n:?} had code {c} during the run and {x:?} afterwards")),
        }
    }
    Ok(())
}
fn check_c02(fin: &Finished) -> Result<(), Viol> {
    unplanned(fin)?;
    let sc = &fin.ctx.sc;
    let mut top = 0;
    for r in &fin.recs {
        match (&r.op, &r.out) {
            (Op::Code { .. }, Out::Code(Some(c))) => top = top.max(*c),
            (Op::Bulk { base, from, .. }, Out::Str(Some(v))) => for (k, c) in v.iter().enumerate() {
                top = top.max(*c);
                let n = bulk_name(*base, from + k as u32);
                if get_name(*c).as_deref() != Some(&n) { return viol("name", format!("code {c} was given for {n:?} but is named {:?}", get_name(*c))) }
            },
            (Op::Name { n, .. }, Out::Name { code, name, shown, back }) => {
                let want = sc.names[*n].trim();
                top = top.max(code.unwrap_or(0));
                if code.is_none() || name.as_deref() != Some(want) || shown != want || !*back {
                    return viol("name", format!("a symbol held for {want:?} does not answer with that name everywhere: {}", show(r)))
                }
            }
            (Op::Phantom { .. }, Out::Phantom { code, ok, shown, name }) => {
                if let Some(n) = name { if get_code(n).ok() != Some(*code) { return viol("phantom", format!("code {code} was never handed out but is named {n:?}")) } }
                if *shown != format!("code:{code}") && name.as_ref() != Some(shown) { return viol("phantom", format!("code {code} prints as {shown:?} but is named {name:?}")) }
                if *ok && name.is_none() { return viol("phantom", format!("code {code} has no name but was made into a symbol")) }
            }
            (Op::Print { names, .. }, Out::Names { text, .. }) => {
                let want = names.iter().map(|i| sc.names[*i].as_str()).collect::<Vec<_>>().join(" ");
                if *text != want { return viol("print", format!("printed {text:?}, expected {want:?}: {}", show(r))) }
            }
            (Op::Parse { .. }, Out::Names { want, codes, text }) => {
                let exp: Vec<u32> = want.iter().filter_map(|i| get_code(&sc.names[*i]).ok()).collect();
                if codes.as_ref() != Some(&exp) { return viol("reparse", format!("{text:?} parsed again gives {codes:?}, expected {exp:?}: {}", show(r))) }
            }
            _ => {}
        }
    }
    for c in (0..200).chain(top.saturating_sub(3000)..top.saturating_add(64)).chain(u32::MAX - 2..=u32::MAX) {
        if get_name(c).is_some() != Symbol::try_from(c).is_ok() { return viol("phantom", format!("code {c} is named {:?} but as a symbol it is {:?}", get_name(c), Symbol::try_from(c).map(|s| s.to_string()))) }
        if let Some(n) = get_name(c) { if get_code(&n).ok() != Some(c) { return viol("phantom", format!("code {c} is named {n:?}, whose code is {:?}", get_code(&n).ok())) } }
    }
    Ok(())
}

// ------------------------------------------------------------------ families
#[derive(Clone, PartialEq, Eq, Hash)]
struct Fam(Option<(usize, usize)>); // address, content (+ ALIAS: under a name of its own)
const ALIAS: usize = 100 * N_CONTENTS;
enum FamAct {
    New(usize, usize),
    Refused,
    Ptr(usize, usize),
    Absent,
    Present,
    System(usize, Vec<bool>),
    /// ran with the name not registered, registered nothing
    Failed,
    Any,
}
fn fam_syms(c: usize) -> Vec<String> { let (t, p) = content(c); t.into_iter().chain(p).collect::<BTreeSet<_>>().into_iter().collect() }
fn probe_all(c: usize) -> Vec<bool> { let s = fam_syms(c); PROBES.iter().map(|p| s.iter().any(|x| x == p)).collect() }
impl Model for Fam {
    type Act = FamAct;
    fn apply(&self, a: &FamAct) -> Option<Fam> {
        let keep = |b: bool| b.then(|| self.clone());
        match a {
            FamAct::New(p, c) => if self.0.is_none() { Some(Fam(Some((*p, *c)))) } else { None },
            FamAct::Refused | FamAct::Present => keep(self.0.is_some()),
            FamAct::Absent | FamAct::Failed => keep(self.0.is_none()),
            FamAct::Ptr(p, c) => keep(matches!(self.0, Some((q, d)) if q == *p && d == *c)),
            FamAct::System(n, has) => keep(match self.0 {
                None => false,
                Some((_, c)) => fam_syms(c).len() == *n && probe_all(c) == *has,
            }),
            FamAct::Any => keep(true),
        }
    }
}
fn check_c06(fin: &Finished) -> Result<bool, Viol> {
    let sc = &fin.ctx.sc;
    // From the first panicking initialiser on, calls may report the poisoned lock.
    let poison = fin.recs.iter().filter(|r| matches!((&r.op, &r.out), (Op::FamInit { .. }, Out::Panic(p)) if p == "planned")).map(|r| r.inv).min().unwrap_or(u64::MAX);
    let mut decided = true;
    // Which content a family that was looked up has.
    let sizes: Vec<usize> = (0..N_CONTENTS).map(|c| { let (t, p) = content(c); t.len() + p.len() + 1 }).collect();
    let known = |fam: usize, syms: &Vec<String>| (0..N_CONTENTS).filter(|c| sizes[*c] == syms.len()).find_map(|c| if *syms == fam_want(&fam_name(fam), c) { Some(c) } else if *syms == fam_want(&alias_name(fam, sc.fams), c) { Some(c + ALIAS) } else { None });
    let unknown = |r: &Rec| Viol { class: "content".into(), msg: format!("a family nobody described was returned: {}", show(r)) };
    for r in &fin.recs { if let (Op::FamValue { c, .. }, o) = (&r.op, &r.out) {
        match o { Out::FamSys { len, has, .. } if *len == fam_syms(*c).len() && *has == probe_all(*c) => {}, _ => return viol("system", format!("a system made from a family has not that family's symbols: {}", show(r))) }
    } }
    for fam in 0..sc.fams {
        let recs: Vec<&Rec> = fin.recs.iter().filter(|r| match &r.op {
            Op::FamRegister { f, .. } | Op::FamInit { f, .. } | Op::FamGet { f } | Op::FamExists { f } | Op::FamSystem { f, .. } => *f == fam,
            _ => false,
        }).collect();
        let mut items = vec![];
        for r in &recs {
            let locked = r.ret > poison;
            let act = match (&r.op, &r.out) {
                (Op::FamRegister { c, .. }, Out::Fam { ptr: Some(p), syms, .. }) => {
                    if *syms != fam_want(&fam_name(fam), *c) { return viol("content", format!("a registration returned another family: {}", show(r))) }
                    FamAct::New(*p, *c % N_CONTENTS)
                }
                (Op::FamRegister { .. }, Out::Fam { ptr: None, .. }) => if locked { FamAct::Any } else { FamAct::Refused },
                (Op::FamInit { c, alias, .. }, Out::Fam { ptr: Some(p), ran, syms, .. }) => if *ran {
                    if *syms != fam_want(&if *alias { alias_name(fam, sc.fams) } else { fam_name(fam) }, *c) { return viol("content", format!("an initialiser ran but its result was not returned: {}", show(r))) }
                    FamAct::New(*p, *c % N_CONTENTS + if *alias { ALIAS } else { 0 })
                } else { FamAct::Ptr(*p, known(fam, syms).ok_or_else(|| unknown(r))?) },
                (Op::FamInit { .. }, Out::Panic(p)) if p == "planned" => FamAct::Failed,
                (Op::FamGet { .. }, Out::Fam { ptr: Some(p), syms, .. }) => FamAct::Ptr(*p, known(fam, syms).ok_or_else(|| unknown(r))?),
                (Op::FamGet { .. }, Out::Fam { ptr: None, .. }) => if locked { FamAct::Any } else { FamAct::Absent },
                (Op::FamExists { .. }, Out::Exists(true)) => FamAct::Present,
                (Op::FamExists { .. }, Out::Exists(false)) => if locked { FamAct::Any } else { FamAct::Absent },
                (Op::FamSystem { .. }, Out::FamSys { made: true, len, has, .. }) => FamAct::System(*len, has.clone()),
                (Op::FamSystem { .. }, Out::FamSys { .. }) => if locked { FamAct::Any } else { FamAct::Absent },
                (_, Out::Panic(p)) => if locked && p.to_lowercase().contains("poison") { FamAct::Any } else { return viol("panic", format!("a call panicked ({p}): {}", show(r))) },
                _ => return viol("outcome", show(r)),
            };
            items.push(Item { inv: r.inv, ret: r.ret, deps: vec![], act });
        }
        match lin::check(Fam(None), &items, 200_000) {
            Verdict::Ok => {}
            Verdict::Unknown => decided = false,
            Verdict::Bad(k) => return viol("history", format!("the calls on family {:?} answered in a way that no one-at-a-time order explains (best: {k} of {}):\n{}", fam_name(fam), items.len(), dump(recs.into_iter()))),
        }
    }
    for r in &fin.recs { if let (Op::FamBlank { .. }, Out::Exists(true)) = (&r.op, &r.out) { return viol("blank", format!("a family with a blank name was accepted: {}", show(r))) } }
    Ok(decided)
}

// ------------------------------------------------------------------ stores that fail
fn check_c13(fin: &Finished, rep: &mut Report) -> Result<(), Viol> {
    unplanned(fin)?;
    for r in &fin.recs {
        let (Op::Store { text, transform, .. }, Out::Store { calls, result, injected, gave }) = (&r.op, &r.out) else { continue };
        let Some((h, b)) = model::parse_production(text) else {
            if !calls.is_empty() { return viol("touched", format!("a text that does not parse reached the stores: {}", show(r))) }
            if result.is_ok() { return viol("accepted", format!("a text that does not parse was accepted: {}", show(r))) }
            rep.probe("texts_refused", 1);
            continue
        };
        let code = |n: &String| get_code(n).unwrap_or(u32::MAX);
        let l = |v: &Vec<String>| v.iter().map(code).collect::<Vec<u32>>();
        let (head, body) = (Head { pre: h.pre.as_ref().map(l), target: code(&h.target), post: h.post.as_ref().map(l) }, Body { syms: l(&b.syms), chance: b.chance });
        let mut want: BTreeSet<u32> = model::head_syms(&head).into_iter().collect();
        want.extend(&body.syms);
        let failed = calls.iter().find_map(|c| match c { StoreCall::Sym(_, false) => Some("symbol"), StoreCall::Prod(_, false) => Some("production"), _ => None });
        let at = calls.iter().position(|c| matches!(c, StoreCall::Prod(..)));
        let given: BTreeSet<u32> = calls[..at.unwrap_or(calls.len())].iter().filter_map(|c| if let StoreCall::Sym(s, _) = c { Some(*s) } else { None }).collect();
        if !given.is_subset(&want) { return viol("symbols", format!("a symbol that is not in the production was given to the symbol store: {}", show(r))) }
        if let Some(k) = at {
            if given != want { return viol("order", format!("the production reached its store before all of its symbols reached theirs: {}", show(r))) }
            if calls.iter().filter(|c| matches!(c, StoreCall::Prod(..))).count() != 1 { return viol("twice", format!("the production was stored more than once: {}", show(r))) }
            let StoreCall::Prod(p, _) = &calls[k] else { unreachable!() };
            if !same_head(p, &head) || bodies(p) != vec![body.clone()] { return viol("another", format!("another production was stored: {}", show(r))) }
            if calls[..k].iter().any(|c| matches!(c, StoreCall::Sym(_, false))) { return viol("after-failure", format!("the production was stored although a symbol was refused: {}", show(r))) }
        }
        match failed {
            Some(what) => {
                rep.probe(&format!("{what}_store_failures"), 1);
                match result { Err(e) if Some(e) == injected.as_ref() => {} _ => return viol("unreported", format!("the {what} store's failure was not returned unchanged: {}", show(r))) }
            }
            None => match result {
                Ok(p) if at.is_some() && Some(p) == gave.as_ref() => { rep.probe("stored", 1); if *transform { rep.probe("stored_changed_by_store", 1) } }
                _ => return viol("returned", format!("nothing failed, but the stored production was not returned: {}", show(r))),
            },
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ renderings
pub fn expected_svg(plant: &str) -> Result<Vec<model::Poly>, String> {
    let p = model::parse_plant(plant.as_bytes()).ok_or("refused")?;
    let s = p.rules.derive(&p.initial, p.n, 200_000).ok_or("not determined")?;
    model::turtle(&s, p.delta).ok_or("unbalanced".into())
}
fn check_c12(fin: &Finished, rep: &mut Report) -> Result<(), Viol> {
    let sc = &fin.ctx.sc;
    for r in &fin.recs {
        let Op::Render { p, w, h } = &r.op else { continue };
        let key = format!("{p}:{w}x{h}");
        match (&r.out, expected_svg(&sc.plants[*p])) {
            (Out::Panic(e), _) => return viol("panic", format!("rendering panicked: {e}")),
            (Out::Svg(Ok(text)), Ok(paths)) => {
                let pic = model::picture(&paths, *w, *h);
                if let Err(e) = model::compare_svg(text, &pic, *w, *h) { return viol("picture", format!("plant {p} at {w}x{h}: {e}; SVG: {}", text.chars().take(1500).collect::<String>())) }
                let hash = format!("{:x}/{}", crate::rt::hash_bytes(text.as_bytes()), text.len());
                rep.probe("renderings", 1);
                if let Some(o) = rep.out.get(&key) { if *o != hash { return viol("differs", format!("two renderings of plant {p} at {w}x{h} in one process differ")) } }
                rep.out.insert(key, hash);
            }
            (Out::Svg(Err(_)), Err(e)) if e != "not determined" => {
                rep.out.insert(key, "error".into());
            }
            (Out::Svg(_), Err(e)) if e == "not determined" => {}
            (Out::Svg(Ok(_)), Err(e)) => return viol("accepted", format!("plant {p} was rendered although it is {e}")),
            (o, _) => return viol("refused", format!("plant {p} was not rendered: {o:?}")),
        }
    }
    Ok(())
}

pub fn judge(prop: &str, fin: &Finished, rep: &mut Report) -> Result<(), Viol> {
    let sc = &fin.ctx.sc;
    rep.probe("calls", fin.recs.len() as u64);
    match prop {
        "C01" => check_c01(fin),
        "C02" => check_c02(fin),
        "C03" | "C04" | "C07" | "C15" => {
            unplanned(fin)?;
            let codes = final_codes(sc)?;
            for s in 0..sc.systems { match check_system(fin, &codes, s)? { true => rep.probe("histories_explained", 1), false => rep.probe("histories_undecided", 1) } }
            check_local(fin, &codes)?;
            for r in &fin.recs {
                match (&r.op, &r.out) {
                    (Op::Free { rules, axiom, iters, once }, Out::Str(s)) => {
                        let mut m = Rules(vec![]);
                        for p in rules { let (h, v) = expect_prod(p, &codes); for b in v { m.add(h.clone(), b); } }
                        let ax: Vec<u32> = axiom.iter().map(|i| codes[*i]).collect();
                        if let Some(all) = m.results(&ax, if *once { 1 } else { *iters }, 256, 300_000) {
                            if !all.contains(s) { return viol("derivation", format!("the result is none of the {} possible ones: {}", all.len(), show(r))) }
                        }
                    }
                    (Op::Fresh { family, rules, axiom, iters, turn, .. }, Out::Fresh(v)) => {
                        let ax: Vec<u32> = axiom.iter().map(|i| codes[*i]).collect();
                        let fam: BTreeSet<u32> = if *family { model::FAMILY.iter().filter_map(|n| get_code(n).ok()).collect() } else { BTreeSet::new() };
                        for (k, [before, after]) in v.iter().enumerate() {
                            let mut m = Rules(vec![]);
                            let mut syms = fam.clone();
                            let has = |s: &BTreeSet<u32>| codes.iter().map(|c| s.contains(c)).collect::<Vec<bool>>();
                            if *before != (Look { prods: 0, syms: syms.len(), has: has(&syms), string: Some(ax.clone()) }) { return viol("not-new", format!("a new system is not as a new one should be (round {k}): {before:?}; {}", show(r))) }
                            for p in fresh_rules(rules, k, *turn) { let (h, b) = expect_prod(p, &codes); syms.extend(model::head_syms(&h)); for b in b { syms.extend(&b.syms); m.add(h.clone(), b); } }
                            if after.prods != m.0.len() || after.syms != syms.len() || after.has != has(&syms) { return viol("not-new", format!("a new system does not hold what was added to it, and that alone (round {k}): {after:?}; {}", show(r))) }
                            if let Some(all) = m.results(&ax, *iters, 256, 300_000) {
                                if !all.contains(&after.string) { return viol("derivation", format!("the result in round {k} is none of the {} possible ones: {}", all.len(), show(r))) }
                            }
                        }
                    }
                    (Op::Fresh { .. }, _) => return viol("outcome", show(r)),
                    (Op::Code { n, .. }, Out::Code(c)) => if *c != Some(codes[*n]) { return viol("names", format!("the same name gave another symbol: {}", show(r))) },
                    (Op::FamSystem { .. }, Out::FamSys { made: true, len, .. }) => if *len != 7 { return viol("family", format!("a system made from the family has {len} symbols, not 7: {}", show(r))) },
                    _ => {}
                }
            }
            Ok(())
        }
        "C06" => { if !check_c06(fin)? { rep.probe("histories_undecided", 1) } Ok(()) }
        "C08" => Ok(()),
        "C12" => check_c12(fin, rep),
        "C13" => check_c13(fin, rep),
        p => { rep.harness = Some(format!("no oracle for {p}")); Ok(()) }
    }
}
