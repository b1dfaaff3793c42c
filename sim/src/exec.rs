//! Runs an `Ops` scenario against the real library inside the simulation and records the history.
use crate::rt::{self, *};
use crate::spec::*;
use rusty_systems::error::Error;
use rusty_systems::interpretation::abop::parser as plant_parser;
use rusty_systems::interpretation::svg::{SvgElement, SvgPathInterpretation};
use rusty_systems::interpretation::Interpretation;
use rusty_systems::parser::{parse_and_add_production};
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody, ProductionHead, ProductionStore};
use rusty_systems::symbols::{get_code, get_name, SymbolStore};
use rusty_systems::system::family::{self, SystemFamily};
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A production as returned by the library, in codes.
#[derive(Clone, Debug, PartialEq)]
pub struct ProdOut { pub pre: Option<Vec<u32>>, pub target: u32, pub post: Option<Vec<u32>>, pub bodies: Vec<(Vec<u32>, Option<u32>)> }

pub fn prod_out(p: &Production) -> ProdOut {
    let codes = |s: &ProductionString| s.symbols().iter().map(|x| x.code()).collect::<Vec<u32>>();
    ProdOut {
        pre: p.head().pre_context().map(codes),
        target: p.head().target().code(),
        post: p.head().post_context().map(codes),
        bodies: p.all_bodies().iter()
            .map(|b| (codes(b.string()), if b.chance().is_user_set() { Some(b.chance().unwrap_or(-1.0).to_bits()) } else { None })).collect(),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum StoreCall { Sym(u32, bool), Prod(ProdOut, bool) }

#[derive(Clone, Debug, PartialEq)]
pub struct Look { pub prods: usize, pub syms: usize, pub has: Vec<bool>, pub string: Option<Vec<u32>> }

#[derive(Clone, Debug)]
pub enum Out {
    Unit,
    Code(Option<u32>),
    /// (code used, name(), display, code -> symbol conversion gave the symbol)
    Name { code: Option<u32>, name: Option<String>, shown: String, back: bool },
    Names { want: Vec<usize>, codes: Option<Vec<u32>>, text: String },
    /// code -> symbol conversion worked, what it prints as, its name: asked in this order
    Phantom { code: u32, ok: bool, shown: String, name: Option<String> },
    /// per round: counts, look-ups and derivation, before and after the rules were added
    Fresh(Vec<[Look; 2]>),
    Prod(Option<ProdOut>),
    Sym(Option<u32>),
    Len(usize),
    Str(Option<Vec<u32>>),
    /// pointer of the family (None: refused), content number of the initialiser that ran to completion
    Fam { ptr: Option<usize>, content: Option<usize>, ran: bool, syms: Vec<String> },
    Exists(bool),
    /// made?, number of symbols, which of the probed names are in it
    FamSys { made: bool, len: usize, has: Vec<bool>, refused: bool },
    Store { calls: Vec<StoreCall>, result: Result<ProdOut, String>, injected: Option<String>, gave: Option<ProdOut> },
    Svg(Result<String, String>),
    Panic(String),
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub tid: usize,
    /// nesting depth: 0 for the thread's own operations
    pub depth: u8,
    pub inv: u64,
    pub ret: u64,
    pub op: Op,
    pub out: Out,
}

pub struct Ctx {
    pub sc: Ops,
    pub systems: Vec<System>,
    board: Vec<UnsafeCell<Option<u32>>>,
    texts: Vec<UnsafeCell<Option<(String, Vec<usize>)>>>,
    pub recs: Vec<UnsafeCell<Vec<Rec>>>,
    pub main_tid: usize,
}
unsafe impl Sync for Ctx {}
unsafe impl Send for Ctx {}

struct Local { tid: usize, depth: Cell<u8>, prods: RefCell<Vec<Production>>, syms: RefCell<HashSet<u32>> }

thread_local! {
    static CUR: Cell<(*const Ctx, *const Local)> = const { Cell::new((std::ptr::null(), std::ptr::null())) };
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub const N_CONTENTS: usize = 11;
/// The symbols of family content `c` (terminals, productions).
pub fn content(c: usize) -> (Vec<String>, Vec<String>) {
    let v = |x: &[&str]| x.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    match c % N_CONTENTS {
        0 => (v(&["t0"]), v(&["p0"])),
        1 => (v(&["t1", "+"]), v(&["p1", "Forward", "q1"])),
        2 => (v(&[]), v(&["p2"])),
        3 => (v(&["[", "]", "t3", "+", "-"]), v(&["p3"])),
        4 => (v(&["t4"]), v(&["p4", "q4", "A"])),
        5 => (vec![], vec![]),
        6 => ((0..24).map(|i| format!("g{i}")).collect(), (0..29).map(|i| format!("h{i}")).collect()),
        9 => ((0..70).map(|i| format!("G{i}")).collect(), (0..130).map(|i| format!("H{i}")).collect()),
        10 => ((0..700).map(|i| format!("U{i}")).collect(), (0..900).map(|i| format!("V{i}")).collect()),
        8 => (v(&["t8", "both", "+"]), v(&["both", "p8", "+"])),
        _ => (v(&["t7", "T7"]), v(&["Two words", "\u{e9}", "p0"])),
    }
}
/// Everything the smaller contents mention, some of what the big one does, and what none does.
pub const PROBES: [&str; 42] = ["t0", "p0", "t1", "+", "p1", "Forward", "q1", "p2", "[", "]", "t3", "-", "p3", "t4", "p4", "q4", "A", "nobody",
    "g0", "g11", "g23", "h0", "h17", "h28", "t7", "T7", "Two words", "\u{e9}", "t8", "both", "p8", "G0", "G69", "H0", "H64", "H129", "U0", "U255", "U699", "V0", "V512", "V899"];
fn describe(s: &str) -> Option<String> { if s.len() % 2 == 0 { Some(format!("about {s}")) } else { None } }

fn builder(c: usize) -> rusty_systems::system::family::Builder {
    let mut b = SystemFamily::define();
    let (t, p) = content(c);
    for x in t { let d = describe(&x); b = b.with_terminal(x, d); }
    for x in p { let d = describe(&x); b = b.with_production(x, d); }
    b
}
fn build_family(name: &str, c: usize) -> SystemFamily { builder(c).build(name).unwrap() }
/// The third and fourth differ from the second, if only in spaces or case.
pub fn fam_name(f: usize) -> String { match f { 0 => "ABOP".into(), 1 => "Family 1".into(), 2 => " Family 1".into(), 3 => "family 1".into(), 4 => "Family 1 ".into(),
    // Long names that differ only at their ends.
    _ if f % 64 == 0 => format!("{}{f}", "long name ".repeat(150)), _ if f % 8 == 0 => format!("{}{f}", "long name ".repeat(if f % 16 == 0 { 7 } else { 30 })), _ if f % 8 == 3 => format!("{}{f}", "\u{540d}".repeat(25)),
    _ => format!("Family {f}") } }
/// The name that an `alias` initialiser gives its family.
pub fn alias_name(f: usize, fams: usize) -> String { fam_name(if fams > 1 { (f + 1) % fams } else { f + 1 }) }
pub fn fam_text(name: &str, t: &mut dyn Iterator<Item = (String, Option<String>)>, p: &mut dyn Iterator<Item = (String, Option<String>)>) -> Vec<String> {
    let mut v: Vec<String> = t.map(|x| format!("terminal {x:?}")).chain(p.map(|x| format!("production {x:?}"))).collect();
    v.sort();
    v.insert(0, format!("name {name:?}"));
    v
}
/// What a family with content `c` must look like.
pub fn fam_want(name: &str, c: usize) -> Vec<String> {
    let (t, p) = content(c);
    fam_text(name, &mut t.into_iter().map(|s| { let d = describe(&s); (s, d) }), &mut p.into_iter().map(|s| { let d = describe(&s); (s, d) }))
}
fn fam_content(fam: &SystemFamily) -> Vec<String> {
    let v = fam_text(fam.name(), &mut fam.terminals().map(|s| (s.name.clone(), s.description.clone())), &mut fam.productions().map(|s| (s.name.clone(), s.description.clone())));
    // The three listings must agree.
    let mut all: Vec<&String> = fam.symbols().map(|s| &s.name).collect();
    let mut parts: Vec<&String> = fam.terminals().chain(fam.productions()).map(|s| &s.name).collect();
    all.sort();
    parts.sort();
    if all != parts { return vec![format!("symbols() lists {all:?}, terminals() and productions() list {parts:?}")] }
    v
}

/// Names in large numbers: numbered, short, or without any pattern.
pub fn bulk_name(base: u8, k: u32) -> String {
    match base {
        6 => format!("{:x}", hash64(&[6, k as u64])),
        5 => { let (mut s, mut k) = (String::from("b"), k); loop { s.push((b'a' + (k % 26) as u8) as char); k /= 26; if k == 0 { break s } } }
        _ => format!("bulk{base}_{k}"),
    }
}
const WS: [(&str, &str); 6] = [("", ""), (" ", ""), ("", "\t"), ("\n ", "  "), ("\u{3000}", ""), ("", "\u{2003}\r")];
fn spaced(n: &str, ws: u8) -> String { let (a, b) = WS[ws as usize % WS.len()]; format!("{a}{n}{b}") }
pub const BLANKS: [&str; 5] = ["", " ", "\t \n", "\u{3000}", "  \u{2003}"];

pub fn prod_text(sc: &Ops, p: &PSpec) -> String {
    let list = |v: &[usize]| v.iter().map(|i| sc.names[*i].as_str()).collect::<Vec<_>>().join(" ");
    let mut s = String::new();
    if let Some(pre) = &p.pre { s.push_str(&list(pre)); s.push_str(" < "); }
    s.push_str(&sc.names[p.target]);
    if let Some(post) = &p.post { s.push_str(" > "); s.push_str(&list(post)); }
    s.push_str(" -> ");
    if let Some(c) = p.chance { s.push_str(&format!("{} ", c as f64 / 1000.0)); }
    s.push_str(&list(&p.body));
    s
}
fn prod_value(sc: &Ops, p: &PSpec) -> Production {
    let sym = |i: &usize| Symbol::build(&sc.names[*i]).unwrap();
    let list = |v: &Vec<usize>| ProductionString::from(v.iter().map(sym).collect::<Vec<_>>());
    let head = ProductionHead::build(p.pre.as_ref().map(list), sym(&p.target), p.post.as_ref().map(list)).unwrap();
    let body = match p.chance {
        None => ProductionBody::new(list(&p.body)),
        Some(c) => ProductionBody::try_with_chance((c as f64 / 1000.0) as f32, list(&p.body)).unwrap(),
    };
    let mut prod = Production::new(head, body);
    for (i, b) in p.more.iter().enumerate() {
        let body = ProductionBody::new(list(b));
        if i % 2 == 0 { prod.add_body(body) } else { prod.merge(Production::new(prod.head().clone(), body)) }
    }
    prod
}

/// Thrown by caller code on purpose.
struct Planned;

struct CallerError { panics: bool }
impl From<CallerError> for Error {
    fn from(e: CallerError) -> Error {
        rt::yield_now();
        if e.panics { rt::fault(FK_CALLER_PANIC); std::panic::panic_any(Planned) }
        Error::general("planned failure of caller code")
    }
}
/// Caller code that is converted by the library while it adds something.
struct Caller<'a, T> { conv: &'a Conv, make: Box<dyn FnOnce() -> T + 'a> }
impl<'a, T> Caller<'a, T> {
    fn go(self) -> Result<T, CallerError> {
        rt::yield_now();
        match self.conv {
            Conv::CallerOk(n) => { for _ in 0..*n { rt::yield_now() } Ok((self.make)()) }
            Conv::CallerErr => { rt::fault(FK_CALLER_ERROR); Err(CallerError { panics: false }) }
            Conv::CallerErrIntoPanic => { rt::fault(FK_CALLER_ERROR); Err(CallerError { panics: true }) }
            Conv::CallerPanic => { rt::fault(FK_CALLER_PANIC); std::panic::panic_any(Planned) }
            Conv::Reenter(ops) => { nested(ops); Ok((self.make)()) }
            Conv::ReenterErr(ops) => { nested(ops); rt::fault(FK_CALLER_ERROR); Err(CallerError { panics: false }) }
            Conv::ReenterPanic(ops) => { nested(ops); rt::fault(FK_CALLER_PANIC); std::panic::panic_any(Planned) }
            _ => Ok((self.make)()),
        }
    }
}
impl TryFrom<Caller<'_, Production>> for Production { type Error = CallerError; fn try_from(c: Caller<'_, Production>) -> Result<Self, CallerError> { c.go() } }
impl TryFrom<Caller<'_, Symbol>> for Symbol { type Error = CallerError; fn try_from(c: Caller<'_, Symbol>) -> Result<Self, CallerError> { c.go() } }

fn nested(ops: &[Op]) {
    rt::fault(FK_CALLER_REENTER);
    let (ctx, loc) = CUR.with(|c| c.get());
    let (ctx, loc) = unsafe { (&*ctx, &*loc) };
    loc.depth.set(loc.depth.get() + 1);
    for op in ops { run_op(ctx, loc, op) }
    loc.depth.set(loc.depth.get() - 1);
}

fn add_prod<P: ProductionStore>(ctx: &Ctx, st: &P, p: &PSpec, conv: &Conv) -> Option<ProdOut> {
    let sc = &ctx.sc;
    match conv {
        Conv::Str | Conv::Text | Conv::ParseAdd if !p.more.is_empty() => st.add_production(prod_value(sc, p)),
        Conv::Str => st.add_production(prod_text(sc, p).as_str()),
        Conv::Text | Conv::ParseAdd => st.add_production(prod_text(sc, p)),
        Conv::Value => st.add_production(prod_value(sc, p)),
        Conv::Bad => st.add_production(["A B -> C", "no arrow", " -> x", "X -> 1.5 A"][p.target % 4]),
        _ => st.add_production(Caller { conv, make: Box::new(move || if p.body.len() % 2 == 0 || !p.more.is_empty() { prod_value(sc, p) } else { prod_text(sc, p).parse().unwrap() }) }),
    }.ok().map(|p| prod_out(&p))
}
fn add_sym<T: SymbolStore>(ctx: &Ctx, st: &T, n: usize, conv: &Conv) -> Option<u32> {
    let name = &ctx.sc.names[n];
    match conv {
        Conv::Str => st.add_symbol(name.as_str()),
        Conv::Text | Conv::ParseAdd => st.add_symbol(format!(" {name} ")),
        Conv::Value => Symbol::build(name).and_then(|s| if n % 2 == 0 { st.add_symbol(s) } else { st.add_symbol(s.code()) }),
        Conv::Bad => if n % 2 == 0 { st.add_symbol(BLANKS[n % BLANKS.len()]) } else { st.add_symbol([7u32, 99, 0, u32::MAX][n / 2 % 4]) },
        _ => st.add_symbol(Caller { conv, make: Box::new(move || Symbol::build(name).unwrap()) }),
    }.ok().map(|s| s.code())
}

/// A store that records what it is given, and fails on request.
struct LogStore<'a> { log: &'a RefCell<Vec<StoreCall>>, fail_at: Option<u32>, seen: Cell<u32>, fail_msg: &'a str, real: Option<&'a System>, transform: bool, gave: RefCell<Option<ProdOut>> }
impl SymbolStore for LogStore<'_> {
    fn add_symbol<S>(&self, symbol: S) -> rusty_systems::Result<Symbol> where S: TryInto<Symbol>, S::Error: Into<Error> {
        let s = symbol.try_into().map_err(Into::into)?;
        rt::yield_now();
        let k = self.seen.get();
        self.seen.set(k + 1);
        let fail = self.fail_at == Some(k);
        self.log.borrow_mut().push(StoreCall::Sym(s.code(), !fail));
        if fail { rt::fault(FK_STORE_FAIL); return Err(Error::execution(self.fail_msg)) }
        match self.real { Some(r) => r.add_symbol(s), None => Ok(s) }
    }
    fn get_symbol(&self, name: &str) -> Option<Symbol> { Symbol::build(name).ok() }
}
impl ProductionStore for LogStore<'_> {
    fn add_production<P>(&self, production: P) -> rusty_systems::Result<Production> where P: TryInto<Production>, P::Error: Into<Error> {
        let p = production.try_into().map_err(Into::into)?;
        rt::yield_now();
        let fail = self.fail_at.is_some();
        self.log.borrow_mut().push(StoreCall::Prod(prod_out(&p), !fail));
        if fail { rt::fault(FK_STORE_FAIL); return Err(Error::execution(self.fail_msg)) }
        let mut q = match self.real { Some(r) => r.add_production(p)?, None => p };
        if self.transform {
            q.add_body(ProductionBody::empty());
            // A store may answer with what it holds, which need not have the head it was given.
            if self.log.borrow().len() % 2 == 0 {
                q = Production::new(ProductionHead::build(None, Symbol::build("what the store holds")?, None)?, ProductionBody::empty());
            }
        }
        *self.gave.borrow_mut() = Some(prod_out(&q));
        Ok(q)
    }
}

pub fn render(text: &str, w: usize, h: usize) -> Result<String, String> {
    let (interp, system, initial) = plant_parser::parse(text).map_err(|e| e.to_string())?;
    let interp = SvgPathInterpretation::new_with(w, h, interp);
    let string = system.derive(initial, interp.run_settings()).map_err(|e| e.to_string())?;
    let svg = interp.interpret(&system, &string).map_err(|e| e.to_string())?;
    Ok(svg.to_svg())
}

/// The number of iterations, said in one of the ways there are.
fn settings(iters: usize) -> RunSettings {
    match iters { 10 => RunSettings::default(), n if n % 2 == 1 => n.into(), n => RunSettings::for_max_iterations(n) }
}

fn exec(ctx: &Ctx, loc: &Local, op: &Op) -> Out {
    let sc = &ctx.sc;
    let board = |n: usize| unsafe { &mut *ctx.board[n].get() };
    match op {
        Op::Yield => { rt::yield_now(); Out::Unit }
        Op::Code { n, ws, api } => {
            let name = spaced(&sc.names[*n], *ws);
            let r = match api % 6 {
                0 => get_code(&name),
                1 => Symbol::build(&name).map(|s| s.code()),
                2 => name.parse::<Symbol>().map(|s| s.code()),
                3 => Symbol::try_from(name.clone()).map(|s| s.code()),
                4 => Symbol::try_from(name.as_str()).map(|s| s.code()),
                _ => Symbol::build(name).map(|s| s.code()),
            };
            if let Ok(c) = r { *board(*n) = Some(c); }
            Out::Code(r.ok())
        }
        Op::Blank { v } => {
            let b = BLANKS[*v as usize % BLANKS.len()];
            Out::Code(match v / 8 % 3 { 0 => get_code(b), 1 => Symbol::build(b).map(|s| s.code()), _ => b.parse::<Symbol>().map(|s| s.code()) }.ok())
        }
        Op::Name { n, api } => {
            let code = match (api / 4 % 2, *board(*n)) {
                (0, Some(c)) => Some(c),
                _ => get_code(&sc.names[*n]).ok(),
            };
            match code {
                None => Out::Name { code, name: None, shown: String::new(), back: false },
                Some(c) => {
                    *board(*n) = Some(c);
                    let s = Symbol::from_code(c);
                    // Each look-up on its own, so that every one of them is tried first in some run.
                    let (mut name, mut shown, mut back) = (None, String::new(), false);
                    for k in 0..3 {
                        match (k + api) % 3 {
                            0 => name = if api / 8 % 2 == 0 { s.name() } else { get_name(c) },
                            1 => shown = s.to_string(),
                            _ => back = Symbol::try_from(c).map(|x| x == s).unwrap_or(false),
                        }
                    }
                    Out::Name { code, name, shown, back }
                }
            }
        }
        Op::Phantom { off } => {
            // Judged when the run is over: was this code ever handed out?
            let base = (0..sc.names.len()).filter_map(|i| *board(i)).max().unwrap_or(100);
            let c = if *off >= 1000 { off.wrapping_mul(7919) } else { base.wrapping_add(*off) };
            let c = match off % 11 { 3 => c % 100, 7 => u32::MAX - c % 3, _ => c };
            let ok = Symbol::try_from(c).is_ok();
            let s = Symbol::from_code(c);
            let shown = s.to_string();
            Out::Phantom { code: c, ok, shown, name: if off % 2 == 0 { get_name(c) } else { s.name() } }
        }
        Op::Print { slot, names, api } => {
            let s = if api % 2 == 0 {
                ProductionString::from(names.iter().map(|i| Symbol::build(&sc.names[*i]).unwrap()).collect::<Vec<_>>())
            } else {
                let mut s = ProductionString::new();
                for i in names { s.push_symbol(sc.names[*i].parse().unwrap()) }
                s
            };
            let text = s.to_string();
            unsafe { *ctx.texts[*slot].get() = Some((text.clone(), names.clone())) };
            Out::Names { want: names.clone(), codes: Some(s.symbols().iter().map(|s| s.code()).collect()), text }
        }
        Op::Parse { slot, api } => {
            let t = unsafe { (*ctx.texts[*slot].get()).clone() };
            match t {
                None => Out::Unit,
                Some((text, want)) => {
                    let r = match api % 3 { 0 => text.parse::<ProductionString>(), 1 => rusty_systems::parser::parse_prod_string(&text),
                                            _ => rusty_systems::parser::parse_prod_string(&format!("  {}\n", text.replace(' ', " \t "))) };
                    Out::Names { want, codes: r.ok().map(|s| s.symbols().iter().map(|s| s.code()).collect()), text }
                }
            }
        }
        Op::Bulk { base, from, count } => Out::Str((*from..*from + *count).map(|k| get_code(&bulk_name(*base, k)).ok()).collect()),
        Op::Free { rules, axiom, iters, once } => {
            let mut list: Vec<Production> = vec![];
            for r in rules {
                let p = prod_value(sc, r);
                match list.iter_mut().find(|q| **q == p) { Some(q) => q.merge(p), None => list.push(p) }
            }
            let ax = ProductionString::from(axiom.iter().map(|i| Symbol::build(&sc.names[*i]).unwrap()).collect::<Vec<_>>());
            let r = if *once { rusty_systems::system::derive_once(ax, &list) } else { rusty_systems::system::derive(ax, &list, settings(*iters)) };
            Out::Str(r.ok().map(|s| s.symbols().iter().map(|s| s.code()).collect()))
        }
        Op::Fresh { family, rules, axiom, iters, rounds, turn } => {
            let ax = ProductionString::from(axiom.iter().map(|i| Symbol::build(&sc.names[*i]).unwrap()).collect::<Vec<_>>());
            // Without deriving, a look says what a derivation would have to.
            let look = |s: &System, derive: bool| Look {
                prods: s.production_len(), syms: s.symbol_len(), has: sc.names.iter().map(|n| s.get_symbol(n).is_some()).collect(),
                string: (if derive { s.derive(ax.clone(), settings(*iters)).ok() } else { Some(ax.clone()) }).map(|s| s.symbols().iter().map(|s| s.code()).collect()),
            };
            Out::Fresh((0..*rounds as usize).map(|k| {
                let s = if *family { System::of_family(rusty_systems::interpretation::abop::abop_family()).unwrap() } else if k % 2 == 0 { System::new() } else { System::default() };
                let (boxed, plain);
                let s = if k % 3 == 2 || (*turn && rules.len() % 2 == 0) { boxed = Box::new(s); &*boxed } else { plain = s; &plain };
                let before = look(s, !*turn || iters % 2 == 1);
                for p in fresh_rules(rules, k, *turn) { s.add_production(prod_value(sc, p)).unwrap(); }
                [before, look(s, true)]
            }).collect())
        }
        Op::AddProd { sys, p, conv } => {
            let s = &ctx.systems[*sys];
            if matches!(conv, Conv::ParseAdd) && p.more.is_empty() { return Out::Prod(parse_and_add_production(s, s, &prod_text(sc, p)).ok().map(|p| prod_out(&p))) }
            Out::Prod(add_prod(ctx, s, p, conv))
        }
        Op::AddSym { sys, n, conv } => Out::Sym(add_sym(ctx, &ctx.systems[*sys], *n, conv)),
        Op::GetSym { sys, n, ws } => Out::Sym(ctx.systems[*sys].get_symbol(&spaced(&sc.names[*n], *ws)).map(|s| s.code())),
        Op::ProdLen { sys } => Out::Len(ctx.systems[*sys].production_len()),
        Op::SymLen { sys } => Out::Len(ctx.systems[*sys].symbol_len()),
        Op::Derive { sys, axiom, iters, once } => {
            let ax = ProductionString::from(axiom.iter().map(|i| Symbol::build(&sc.names[*i]).unwrap()).collect::<Vec<_>>());
            let r = if *once { ctx.systems[*sys].derive_once(ax) } else { ctx.systems[*sys].derive(ax, settings(*iters)) };
            Out::Str(r.ok().map(|s| s.symbols().iter().map(|s| s.code()).collect()))
        }
        Op::FamRegister { f, c, builder: b } => {
            let r = if *b { builder(*c).register(fam_name(*f)) } else { family::register(build_family(&fam_name(*f), *c)) };
            match r {
                Ok(a) => Out::Fam { ptr: Some(std::sync::Arc::as_ptr(&a) as usize), content: Some(*c), ran: true, syms: fam_content(&a) },
                Err(_) => Out::Fam { ptr: None, content: None, ran: false, syms: vec![] },
            }
        }
        Op::FamInit { f, c, panic, yields, alias } => {
            let ran = Cell::new(false);
            let a = family::get_or_init_family(fam_name(*f), || {
                for _ in 0..*yields { rt::yield_now() }
                if *panic { rt::fault(FK_CALLER_PANIC); std::panic::panic_any(Planned) }
                let fam = build_family(&if *alias { alias_name(*f, sc.fams) } else { fam_name(*f) }, *c);
                ran.set(true);
                fam
            });
            Out::Fam { ptr: Some(std::sync::Arc::as_ptr(&a) as usize), content: ran.get().then_some(*c), ran: ran.get(), syms: fam_content(&a) }
        }
        Op::FamGet { f } => match family::get_family(fam_name(*f)) {
            Some(a) => Out::Fam { ptr: Some(std::sync::Arc::as_ptr(&a) as usize), content: None, ran: false, syms: fam_content(&a) },
            None => Out::Fam { ptr: None, content: None, ran: false, syms: vec![] },
        },
        Op::FamExists { f } => Out::Exists(family::family_exists(fam_name(*f))),
        Op::FamSystem { f, api } => {
            let name = fam_name(*f);
            let r = match api % 3 {
                0 => System::of_family(name.as_str()),
                1 => System::of_family(name),
                _ => match family::get_family(&name) { None => return Out::FamSys { made: false, len: 0, has: vec![], refused: true }, Some(a) => System::of_family(a) },
            };
            match r {
                Err(_) => Out::FamSys { made: false, len: 0, has: vec![], refused: true },
                Ok(s) => Out::FamSys { made: true, len: s.symbol_len(), has: PROBES.iter().map(|p| s.get_symbol(p).is_some()).collect(), refused: false },
            }
        }
        Op::FamValue { f, c } => {
            let s = System::of_family(build_family(&fam_name(*f), *c)).unwrap();
            Out::FamSys { made: true, len: s.symbol_len(), has: PROBES.iter().map(|p| s.get_symbol(p).is_some()).collect(), refused: false }
        }
        Op::FamBlank { v } => {
            let b = BLANKS[*v as usize % BLANKS.len()];
            let r = if v / 8 % 2 == 0 { builder(0).register(b).is_ok() } else { builder(1).build(b).is_ok() };
            Out::Exists(r)
        }
        Op::LAddProd { p, conv } => Out::Prod(add_prod(ctx, &loc.prods, p, conv)),
        Op::LAddSym { n, conv } => Out::Sym(add_sym(ctx, &loc.syms, *n, conv)),
        Op::LGetSym { n } => Out::Sym(loc.syms.get_symbol(&sc.names[*n]).map(|s| s.code())),
        Op::Store { text, sym_fail, prod_fail, real_sym, transform } => {
            let log = RefCell::new(vec![]);
            let real = if *real_sym && !ctx.systems.is_empty() { Some(&ctx.systems[0]) } else { None };
            let msg = format!("planned store failure {} {}", loc.tid, seq());
            let st = LogStore { log: &log, fail_at: *sym_fail, seen: Cell::new(0), fail_msg: &msg, real, transform: false, gave: RefCell::new(None) };
            let pr = LogStore { log: &log, fail_at: prod_fail.then_some(0), seen: Cell::new(0), fail_msg: &msg, real, transform: *transform, gave: RefCell::new(None) };
            let r = parse_and_add_production(&st, &pr, text);
            let gave = pr.gave.borrow().clone();
            let result = r.map(|p| prod_out(&p)).map_err(|e| format!("{e:?}"));
            Out::Store { calls: log.into_inner(), result, injected: Some(format!("{:?}", Error::execution(&msg))), gave }
        }
        Op::Render { p, w, h } => Out::Svg(render(&sc.plants[*p], *w, *h)),
    }
}

fn run_op(ctx: &Ctx, loc: &Local, op: &Op) {
    let inv = seq();
    rt::in_op(true);
    let r = catch_unwind(AssertUnwindSafe(|| exec(ctx, loc, op)));
    if loc.depth.get() == 0 { rt::in_op(false); }
    let ret = seq();
    let out = match r {
        Ok(o) => o,
        Err(e) => {
            if e.is::<Planned>() { Out::Panic("planned".into()) }
            else { Out::Panic(format!("unplanned: {}", LAST_PANIC.with(|p| p.borrow().clone()))) }
        }
    };
    unsafe { (*ctx.recs[loc.tid].get()).push(Rec { tid: loc.tid, depth: loc.depth.get(), inv, ret, op: op.clone(), out }) }
}
fn run_list(ctx: &Ctx, tid: usize, ops: &[Op]) -> Local {
    let loc = Local { tid, depth: Cell::new(0), prods: RefCell::new(vec![]), syms: RefCell::new(HashSet::new()) };
    CUR.with(|c| c.set((ctx, &loc)));
    for op in ops { run_op(ctx, &loc, op) }
    CUR.with(|c| c.set((std::ptr::null(), std::ptr::null())));
    loc
}

pub struct Finished {
    pub ctx: &'static Ctx,
    pub recs: Vec<Rec>,
    /// per thread: final content of its RefCell stores
    pub locals: Vec<(Vec<ProdOut>, Vec<u32>)>,
}

/// Runs the scenario; must be called between rt_begin and rt_end on simulated thread 0.
pub fn run_ops(sc: &Ops) -> Finished {
    let n = sc.threads.len();
    let slots = 8;
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx {
        systems: (0..sc.systems).map(|i| match sc.base.get(i) {
            Some(1) => System::of_family(rusty_systems::interpretation::abop::abop_family()).unwrap(),
            _ => System::new(),
        }).collect(),
        board: sc.names.iter().map(|_| UnsafeCell::new(None)).collect(),
        texts: (0..slots).map(|_| UnsafeCell::new(None)).collect(),
        recs: (0..=n).map(|_| UnsafeCell::new(Vec::with_capacity(64))).collect(),
        sc: sc.clone(),
        main_tid: n,
    }));
    let mut locals = vec![];
    run_list(ctx, n, &ctx.sc.setup);
    let mut handles = vec![];
    for t in 0..n {
        handles.push(std::thread::spawn(move || {
            unsafe { rt_gate_wait() };
            let l = run_list(ctx, t, &ctx.sc.threads[t]);
            let prods: Vec<ProdOut> = l.prods.borrow().iter().map(prod_out).collect();
            let mut syms: Vec<u32> = l.syms.borrow().iter().copied().collect();
            syms.sort();
            (prods, syms)
        }));
    }
    while unsafe { rt_gate_count() } < n as i32 { rt::yield_now() }
    unsafe { rt_gate_open() };
    for h in handles { locals.push(h.join().unwrap_or_default()) }
    run_list(ctx, n, &ctx.sc.finale);
    let mut recs: Vec<Rec> = ctx.recs.iter().flat_map(|r| unsafe { (*r.get()).clone() }).collect();
    recs.sort_by_key(|r| r.inv);
    Finished { ctx, recs, locals }
}
