//! Scenarios around files: the library's reader and writer, and the lsystem program, over the simulated file system.
use crate::exec::LAST_PANIC;
use crate::gen::bound_len;
use crate::model;
use crate::oracle::{viol, Report, Viol};
use crate::rt::*;
use crate::spec::*;
use rusty_systems::interpretation::abop::parser as plant_parser;
use rusty_systems::interpretation::svg::{SvgElement, SvgPathInterpretation};
use rusty_systems::interpretation::Interpretation;
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody, ProductionHead};
use rusty_systems::symbols::SymbolStore;
use std::collections::BTreeMap;
use std::ffi::{CString, OsStr};
use std::os::unix::ffi::OsStrExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;

/// Names (Latin-1) of the file that is read, or saved to.
const PLANTS: [&str; 10] = ["/sim/plant.txt", "/sim/plant", "/sim/a plant.txt ", "/sim/pl\u{ff}nt.txt", "/sim/plant.lsys", "/sim/d.d/plant", "/sim/.txt", "/sim/plant.txt.svg", "/sim/ plant", "/sim/PLANT.TXT"];
const OUTS: [&str; 12] = ["/sim/out.svg", "/sim/out", "/sim/out.svg ", "/sim/o\u{ff}t.svg", "/sim/out.txt", "/sim/d.d/out", "/sim/.svg", "/sim/out.svg.bak", "/sim/ out.svg", "/sim/OUT.SVG", "/sim/out.tmp", "/sim/out.svg~"];
pub const N_PATHS: usize = 12;
fn plant_of(f: &FileSc) -> Vec<u8> { latin1(PLANTS[if matches!(f.mode, FileMode::Save) { 0 } else { f.path as usize % PLANTS.len() }]) }
fn out_name(f: &FileSc) -> &'static str { OUTS[f.path as usize % OUTS.len()] }
fn out_of(f: &FileSc) -> Vec<u8> { latin1(out_name(f)) }
fn as_path(b: &[u8]) -> &Path { Path::new(OsStr::from_bytes(b)) }
pub const OTHER: &str = "/sim/bystander";

/// Bytes of a name given as Latin-1.
pub fn latin1(s: &str) -> Vec<u8> { s.chars().map(|c| if (c as u32) < 256 { c as u32 as u8 } else { b'?' }).collect() }
pub fn put(path: &[u8], data: &[u8]) { let c = CString::new(path).unwrap(); unsafe { rt_file_put(c.as_ptr(), data.as_ptr(), data.len()); } }
pub fn file_index(path: &[u8]) -> Option<usize> { let c = CString::new(path).unwrap(); let i = unsafe { rt_file_find(c.as_ptr()) }; if i < 0 { None } else { Some(i as usize) } }
pub fn get(path: &[u8]) -> Option<Vec<u8>> { file_index(path).map(|i| { let f = &shm().files[i]; f.data[..f.len as usize].to_vec() }) }
/// File names in reports: one character per byte.
pub fn from_latin1(b: &[u8]) -> String { b.iter().map(|c| *c as char).collect() }
fn names() -> Vec<String> {
    let mut v: Vec<String> = shm().files.iter().filter(|f| f.used != 0).map(|f| { let n = f.name.iter().position(|b| *b == 0).unwrap_or(NAME_CAP); from_latin1(&f.name[..n]) }).collect();
    v.sort();
    v
}
pub fn content(lines: &[String], eol: &str, edits: &[Edit]) -> Vec<u8> {
    let mut b = apply_edits(lines.join(eol).into_bytes(), edits);
    b.truncate(FILE_CAP - 1);
    b
}
pub fn delivered() -> Vec<u8> { let s = shm(); s.deliv[..s.deliv_len as usize].to_vec() }
pub fn fired(kinds: &[u16]) -> u32 { kinds.iter().map(|k| shm().fault_fired[*k as usize]).sum() }
const HARD_READ: [u16; 7] = [FK_EIO, FK_EACCES, FK_EMFILE, FK_ENOENT, FK_EISDIR, FK_ESTALE, FK_ERRNO];
pub const HARD: [u16; 12] = [FK_EIO, FK_ENOSPC, FK_EDQUOT, FK_EACCES, FK_EMFILE, FK_ENOENT, FK_EISDIR, FK_WRITE0, FK_EROFS, FK_DISKFULL, FK_ESTALE, FK_ERRNO];

#[derive(Debug)]
pub enum FileOut {
    ParseErr { io_cause: bool, text: String },
    Parsed(Box<Parsed>),
    Saved { results: Vec<(bool, String)>, skipped: bool },
    Damaged { svg: Option<String>, err: Option<String>, derived: bool },
    Panic(String),
}
#[derive(Debug)]
pub struct Parsed {
    n: usize, delta: f32, initial: Vec<String>, prods: usize, syms: usize, missing: Vec<String>, extra: Vec<String>,
    rules: Vec<Vec<(Vec<String>, Option<u32>)>>, derived: Option<Result<Vec<String>, String>>,
}

pub fn setup(f: &FileSc) {
    let (plant, out, save) = (plant_of(f), out_of(f), matches!(f.mode, FileMode::Save));
    if f.missing == 0 || save { put(&plant, &content(&f.lines, &f.eol, &f.edits)); }
    if f.missing == 2 { let path = if save { &out } else { &plant }; put(path, b""); let i = file_index(path).unwrap(); shm().files[i].is_dir = 1; }
    if f.missing == 3 { put(&plant, b"n=1"); let i = file_index(&plant).unwrap(); shm().files[i].no_access = 1; }
    if save {
        if let Some(o) = &f.old { if f.missing != 2 { put(&out, o.as_bytes()) } }
    }
    put(OTHER.as_bytes(), b"leave me alone");
}

fn names_of(s: &ProductionString) -> Vec<String> { s.symbols().iter().map(|s| s.name().unwrap_or_else(|| format!("?{}", s.code()))).collect() }

/// What can be seen of a parsed plant.
fn observe(interp: &impl HasN, system: &System, initial: &ProductionString, plant: &model::Plant) -> Parsed {
    let missing = plant.symbols.iter().filter(|n| system.get_symbol(n).is_none()).cloned().collect();
    let extra = ["Nothing", "initial", "n", "delta", "#", "->", "0.5", "1"].iter().filter(|n| !plant.symbols.contains(**n) && system.get_symbol(n).is_some()).map(|s| s.to_string()).collect();
    let (prods, syms) = (system.production_len(), system.symbol_len());
    let derived = (bound_len(&plant.rules, &plant.initial, plant.n, 3000.0).is_some() && plant.n < 500)
        .then(|| system.derive(initial.clone(), RunSettings::for_max_iterations(interp.count())).map(|s| names_of(&s)).map_err(|e| e.to_string()));
    let string = |v: &Vec<String>| ProductionString::from(v.iter().map(|n| Symbol::build(n).unwrap()).collect::<Vec<_>>());
    let rules = plant.rules.0.iter().map(|(h, _)| {
        let head = ProductionHead::build(h.pre.as_ref().map(string), Symbol::build(&h.target).unwrap(), h.post.as_ref().map(string)).unwrap();
        match system.add_production(Production::new(head, ProductionBody::empty())) {
            Ok(p) => p.all_bodies().iter().map(|b| (names_of(b.string()), if b.chance().is_user_set() { Some(b.chance().unwrap_or(-1.0).to_bits()) } else { None })).collect(),
            Err(_) => vec![],
        }
    }).collect();
    Parsed { n: interp.count(), delta: interp.angle(), initial: names_of(initial), prods, syms, missing, extra, rules, derived }
}
trait HasN { fn count(&self) -> usize; fn angle(&self) -> f32; }
impl HasN for rusty_systems::interpretation::abop::AbopTurtleInterpretation { fn count(&self) -> usize { self.n() } fn angle(&self) -> f32 { self.delta() } }

pub fn read_plant(path: impl AsRef<Path>, delivered: impl Fn() -> Vec<u8>) -> FileOut {
    in_op(true);
    let r = plant_parser::parse_file(path);
    in_op(false);
    match r {
        Err(e) => FileOut::ParseErr { io_cause: std::error::Error::source(&e).map_or(false, |s| s.is::<std::io::Error>()), text: e.to_string() },
        Ok((i, s, init)) => match model::parse_plant(&delivered()) {
            Some(p) => FileOut::Parsed(Box::new(observe(&i, &s, &init, &p))),
            None => FileOut::Parsed(Box::new(Parsed { n: i.n(), delta: i.delta(), initial: names_of(&init), prods: s.production_len(), syms: 0, missing: vec![], extra: vec![], rules: vec![], derived: None })),
        },
    }
}
pub fn run(f: &FileSc) -> FileOut {
    let r = catch_unwind(AssertUnwindSafe(|| match f.mode {
        FileMode::Parse => read_plant(as_path(&plant_of(f)), delivered),
        FileMode::Save => {
            let draw = |k: usize| -> Result<_, String> {
                let text = f.lines.join("\n");
                let (interp, system, initial) = plant_parser::parse(&text).map_err(|e| e.to_string())?;
                let interp = SvgPathInterpretation::new_with(f.w + 13 * k, f.h, interp);
                let s = system.derive(initial, interp.run_settings()).map_err(|e| e.to_string())?;
                interp.interpret(&system, &s).map_err(|e| e.to_string())
            };
            let mut results = vec![];
            let mut skipped = false;
            for k in (0..f.repeat).rev() {
                match draw(k) {
                    Err(_) => skipped = true,
                    Ok(svg) => {
                        // An older file that is almost what is to be written.
                        if let (Some(how), true, true) = (f.old.as_ref().and_then(|o| o.strip_prefix('@')), results.is_empty(), f.missing != 2) { put(&out_of(f), &similar(&svg.to_svg(), how)) }
                        let out = out_of(f);
                        in_op(true);
                        let r = svg.save_file(as_path(&out));
                        in_op(false);
                        results.push((r.is_ok(), svg.to_svg()));
                    }
                }
            }
            FileOut::Saved { results, skipped }
        }
        FileMode::Damaged => {
            in_op(true);
            let out = match plant_parser::parse_file(as_path(&plant_of(f))) {
                Err(e) => FileOut::Damaged { svg: None, err: Some(e.to_string()), derived: false },
                Ok((i, s, init)) => {
                    let small = model::parse_plant(&delivered()).map_or(false, |p| !too_big(&p, at_most(&p, 4000.0))) && (i.n() <= 2000 || init.is_empty());
                    let interp = SvgPathInterpretation::new_with(f.w, f.h, i);
                    if !small {
                        // Too big, or not known to be small: the starting string alone is drawn.
                        let r = interp.interpret(&s, &init);
                        FileOut::Damaged { svg: r.as_ref().ok().map(|s| s.to_svg()), err: r.err().map(|e| e.to_string()), derived: false }
                    } else {
                        match s.derive(init, interp.run_settings()).and_then(|d| interp.interpret(&s, &d)) {
                            Err(e) => FileOut::Damaged { svg: None, err: Some(e.to_string()), derived: true },
                            Ok(svg) => FileOut::Damaged { svg: Some(svg.to_svg()), err: None, derived: true },
                        }
                    }
                }
            };
            in_op(false);
            out
        }
    }));
    match r { Ok(o) => o, Err(_) => FileOut::Panic(LAST_PANIC.with(|p| p.borrow().clone())) }
}

fn similar(text: &str, how: &str) -> Vec<u8> {
    let mut b = text.as_bytes().to_vec();
    match how {
        "more" => b.extend_from_slice(b"<!-- left over -->"),
        "less" => b.truncate(b.len() * 2 / 3),
        "other" => { let at = b.len() - 12; b[at] = b[at].wrapping_add(1) }
        "swapped" => b.reverse(),
        "twice" => b.extend_from_within(..),
        _ => {}
    }
    b
}
pub fn others_untouched(allowed: &[&str], before: &BTreeMap<String, Vec<u8>>) -> Result<(), Viol> {
    for n in names() {
        if allowed.contains(&n.as_str()) { continue }
        match before.get(&n) {
            None => return viol("other-file", format!("the file {n:?} was created")),
            Some(b) => if get(&latin1(&n)).as_ref() != Some(b) { return viol("other-file", format!("the file {n:?} was changed")) },
        }
    }
    for n in before.keys() { if !allowed.contains(&n.as_str()) && file_index(&latin1(&n)).is_none() { return viol("other-file", format!("the file {n:?} was removed")) } }
    Ok(())
}
pub fn snapshot() -> BTreeMap<String, Vec<u8>> { names().into_iter().map(|n| { let b = get(&latin1(&n)).unwrap_or_default(); (n, b) }).collect() }

/// What happened to the file while it was read, and what it holds now.
pub struct Reading {
    /// calls failed, on this file (`own`) or on one that others read at the same time
    pub hard: bool, pub own: bool, pub stat: bool, pub ext: bool,
    pub delivered: Vec<u8>, pub now: Option<Vec<u8>>,
}
pub fn judge_reading(out: &FileOut, how: &Reading, iolog: &str, rep: &mut Report) -> Result<(), Viol> {
    match out {
        FileOut::ParseErr { io_cause, text } => {
            rep.probe("refused", 1);
            if how.hard {
                rep.probe("io_failures_reported", 1);
                if how.own && !io_cause { return viol("no-cause", format!("an I/O failure was reported without its cause ({text}); calls: {iolog}")) }
                return Ok(())
            }
            if how.stat { return Ok(()) }
            // A reader that gave up half-way is judged by the file, unless that changed meanwhile.
            let d = if how.ext { how.delivered.clone() } else { how.now.clone().unwrap_or_default() };
            if model::parse_plant(&d).is_some() { return viol("refused", format!("a valid plant was refused ({text}); calls: {iolog}; delivered {:?}", String::from_utf8_lossy(&d))) }
        }
        FileOut::Parsed(p) => {
            rep.probe("parsed", 1);
            if how.own && how.hard { return viol("swallowed", format!("an I/O failure was not reported; calls: {iolog}")) }
            // What several readers of one file got cannot be told apart.
            let d = if how.own { how.delivered.clone() } else { how.now.clone().unwrap_or_default() };
            if !how.ext { if let Some(b) = &how.now { if *b != d { return viol("partial", format!("parsed without reading the whole file ({} of {} bytes); calls: {iolog}", d.len(), b.len())) } } }
            let txt = String::from_utf8_lossy(&d).chars().take(1500).collect::<String>();
            let Some(m) = model::parse_plant(&d) else { return viol("accepted", format!("invalid text was accepted as {p:?}; calls: {iolog}; delivered {txt:?}")) };
            let want_rules: Vec<Vec<(Vec<String>, Option<u32>)>> = m.rules.0.iter().map(|(_, b)| b.iter().map(|b| (b.syms.clone(), b.chance)).chain([(vec![], None)]).collect()).collect();
            let bad = |what: &str, got: String, want: String| viol::<()>("inexact", format!("{what}: {got}, the delivered text says {want}; calls: {iolog}; delivered {txt:?}"));
            if p.n != m.n { return bad("iterations", p.n.to_string(), m.n.to_string()) }
            if p.delta.to_bits() != m.delta.to_bits() { return bad("angle", p.delta.to_string(), m.delta.to_string()) }
            if p.initial != m.initial { return bad("starting string", format!("{:?}", p.initial), format!("{:?}", m.initial)) }
            if p.prods != m.rules.0.len() { return bad("number of rules", p.prods.to_string(), m.rules.0.len().to_string()) }
            if p.rules != want_rules { return bad("rules", format!("{:?}", p.rules), format!("{want_rules:?}")) }
            if p.syms != m.symbols.len() || !p.missing.is_empty() || !p.extra.is_empty() { return bad("symbols", format!("{} (missing {:?}, extra {:?})", p.syms, p.missing, p.extra), format!("{:?}", m.symbols)) }
            if let Some(d) = &p.derived {
                let all = m.rules.results(&m.initial, m.n, 64, 4000);
                let over = m.rules.0.iter().any(|(_, b)| b.len() > 1 && model::Rules::total(b) > 1.0);
                match (d, all) {
                    (Err(e), Some(all)) => if !all.contains(&None) { return bad("derivation", e.clone(), "no error".into()) },
                    (Err(e), None) => if !over { return bad("derivation", e.clone(), "no error".into()) },
                    (Ok(s), Some(all)) => if !all.contains(&Some(s.clone())) { return bad("derivation", format!("{s:?}"), format!("{:?}", all.iter().next())) },
                    (Ok(_), None) => {}
                }
            }
        }
        _ => {}
    }
    Ok(())
}

pub fn judge(f: &FileSc, out: &FileOut, before: &BTreeMap<String, Vec<u8>>, rep: &mut Report) -> Result<(), Viol> {
    let iolog = { let s = shm(); String::from_utf8_lossy(&s.iolog[..(s.iolog_len as usize).min(600)]).into_owned() };
    if let FileOut::Panic(p) = out { return viol("panic", format!("panicked: {p}; calls: {iolog}")) }
    let ext = fired(&[FK_EXT_TRUNC, FK_EXT_APPEND, FK_EXT_FLIP]) > 0;
    match out {
        FileOut::ParseErr { .. } | FileOut::Parsed(_) => {
            let how = Reading { hard: fired(&HARD_READ) > 0 || f.missing > 0, own: true, stat: fired(&[FK_STATFAIL, FK_SIZELIE]) > 0, ext, delivered: delivered(), now: get(&plant_of(f)) };
            judge_reading(out, &how, &iolog, rep)?
        }
        FileOut::Saved { results, skipped } => {
            let mut rest = before.clone();
            rest.remove(out_name(f));
            others_untouched(&[out_name(f)], &rest)?;
            if *skipped { rep.probe("not_drawn", 1) }
            let hard = fired(&HARD) > 0 || f.missing == 2;
            for (ok, _) in results {
                if !ok && !hard { return viol("refused", format!("saving failed for no reason; calls: {iolog}")) }
                rep.probe(if *ok { "saved" } else { "save_failures" }, 1);
            }
            if let Some((true, text)) = results.last() {
                match get(&out_of(f)) {
                    None => return viol("lost", format!("saving succeeded but there is no file; calls: {iolog}")),
                    Some(b) => if b != text.as_bytes() {
                        let at = b.iter().zip(text.as_bytes()).position(|(x, y)| x != y).unwrap_or(b.len().min(text.len()));
                        return viol("incomplete", format!("saving succeeded but the file differs from the drawing ({} bytes, expected {}, first difference at {at}); calls: {iolog}", b.len(), text.len()))
                    },
                }
            }
        }
        FileOut::Damaged { svg, err, derived } => {
            rep.probe(match (svg, err, derived) { (Some(_), _, true) => "drawn", (Some(_), _, false) => "drawn_start_only", (_, _, true) => "refused_late", _ => "refused_reading" }, 1);
            if let Some(s) = svg {
                if let Err(e) = model::read_svg(s) { return viol("not-finite", format!("the drawing is broken: {e}; SVG: {}", s.chars().take(600).collect::<String>())) }
            }
            if svg.is_none() && err.is_none() { return viol("outcome", "neither a drawing nor an error") }
        }
        FileOut::Panic(_) => unreachable!(),
    }
    Ok(())
}

// ------------------------------------------------------------------ the lsystem program
fn abs(p: &[u8]) -> String {
    let mut parts: Vec<&[u8]> = if p.starts_with(b"/") { vec![] } else { vec![b"cwd"] };
    for q in p.split(|b| *b == b'/') {
        match q { b"" | b"." => {} b".." => { parts.pop(); } _ => parts.push(q) }
    }
    parts.iter().map(|q| format!("/{}", from_latin1(q))).collect::<String>() + if parts.is_empty() { "/" } else { "" }
}
pub fn cli_output(c: &CliSc) -> Vec<u8> {
    let o = latin1(c.output.as_deref().unwrap_or("out.svg"));
    let p = Path::new(OsStr::from_bytes(&o));
    let ext = p.extension().unwrap_or_default().to_ascii_lowercase();
    if ext != "svg" { p.with_extension("svg").as_os_str().as_bytes().to_vec() } else { o }
}
/// Whether a directory is named as the output.
fn to_dir(c: &CliSc) -> bool { c.out_is_dir || matches!(abs(&cli_output(c)).as_str(), "/" | "/cwd") }
pub fn cli_setup(c: &CliSc) {
    let plant = latin1(&c.plant);
    if c.missing != 1 { put(&plant, &content(&c.lines, &c.eol, &c.edits)); }
    let mark = |p: &[u8], dir: bool| { let i = file_index(p).unwrap(); if dir { shm().files[i].is_dir = 1 } else { shm().files[i].no_access = 1 } };
    if c.missing == 2 { mark(&plant, true) }
    if c.missing == 3 { mark(&plant, false) }
    let out = cli_output(c);
    if let (Some(o), false) = (&c.old, to_dir(c)) { put(&out, o.as_bytes()); }
    if c.out_is_dir { put(&out, b""); mark(&out, true) }
    if c.bystander {
        put(OTHER.as_bytes(), b"leave me alone");
        // the name the output would have without the extension rule
        let raw = latin1(c.output.as_deref().unwrap_or("out.svg"));
        if raw != out && !raw.is_empty() { put(&raw, b"not this one") }
    }
}
pub fn cli_args(c: &CliSc) -> Vec<Vec<u8>> {
    let mut a: Vec<Vec<u8>> = vec![b"lsystem".to_vec()];
    if c.verbose == 1 { a.push(b"-v".to_vec()) }
    a.push(b"interpret".to_vec());
    if c.bad_args == 1 { return a }
    if c.verbose == 2 { a.push(b"--verbose".to_vec()) }
    if let Some(w) = c.w { a.push(b"--width".to_vec()); a.push(if c.bad_args == 2 { b"wide".to_vec() } else { w.to_string().into_bytes() }) }
    else if c.bad_args == 2 { a.push(b"--width=-3".to_vec()) }
    a.push(latin1(&c.plant));
    if let Some(h) = c.h { a.push(format!("--height={h}").into_bytes()) }
    if let Some(o) = &c.output { let mut x = if c.verbose == 3 { b"--output=".to_vec() } else { a.push(b"-o".to_vec()); vec![] }; x.extend(latin1(o)); a.push(x) }
    if c.bad_args == 3 { a.push(b"--nonsense".to_vec()) }
    if c.bad_args == 4 { a.push(b"surplus".to_vec()) }
    a
}

/// Whether what the bytes describe takes too much work to be simulated.
fn too_big(p: &model::Plant, max: f64) -> bool { !p.initial.is_empty() && (p.n > 2000 || bound_len(&p.rules, &p.initial, p.n, max).is_none()) }
/// Rules with contexts take the library time in proportion to the square of the length.
fn at_most(p: &model::Plant, with_contexts: f64) -> f64 { if p.rules.0.iter().any(|(h, _)| h.pre.is_some() || h.post.is_some()) { with_contexts } else { 100_000.0 } }
fn oversized(bytes: &[u8]) -> bool { model::parse_plant(bytes).map_or(false, |p| too_big(&p, at_most(&p, 8000.0))) }
pub fn cli_oversized(c: &CliSc) -> bool { oversized(&content(&c.lines, &c.eol, &c.edits)) }
/// The same of what was delivered, which another process may have changed.
pub fn delivered_oversized() -> bool { oversized(&delivered()) }

/// `exit`: Some(code) if the program ended by itself, None if it was killed by a planned crash.
pub fn cli_judge(c: &CliSc, exit: Option<i32>, before: &BTreeMap<String, Vec<u8>>, rep: &mut Report) -> Result<(), Viol> {
    let s = shm();
    let iolog = String::from_utf8_lossy(&s.iolog[..(s.iolog_len as usize).min(800)]).into_owned();
    let stderr = String::from_utf8_lossy(&s.err[..s.err_len as usize]).into_owned();
    let out = cli_output(c);
    let out_name = abs(&out);
    let plant_name = abs(&latin1(&c.plant));
    let ctx = format!("args {:?}; exit {exit:?}; calls: {iolog}; stderr: {:?}", cli_args(c).iter().map(|a| String::from_utf8_lossy(a).into_owned()).collect::<Vec<_>>(), stderr.chars().take(300).collect::<String>());
    if s.real_passthrough > 0 { rep.harness = Some(format!("the program opened real files; {ctx}")) }
    // No other file is touched, however the program ended (changes made by "another process" apart).
    let mut rest = before.clone();
    rest.remove(&out_name);
    let ext = fired(&[FK_EXT_TRUNC, FK_EXT_APPEND, FK_EXT_FLIP]) > 0;
    let allowed: Vec<&str> = if ext { vec![&out_name, &plant_name] } else { vec![&out_name] };
    if ext { rest.remove(&plant_name); }
    if let Err(mut v) = others_untouched(&allowed, &rest) { v.msg = format!("{}; {ctx}", v.msg); return Err(v) }
    let Some(code) = exit else { rep.probe("killed", 1); return Ok(()) };
    let (w, h) = (c.w.unwrap_or(500), c.h.unwrap_or(500));
    // What the file's bytes define; where another process changed the file meanwhile, the bytes that were delivered.
    let d = if ext { delivered() } else { before.get(&plant_name).cloned().unwrap_or_default() };
    let want: Result<Vec<model::Poly>, &str> = if c.bad_args > 0 { Err("bad arguments") } else if c.missing > 0 || fired(&HARD_READ_ONLY) > 0 && s.io_writes == 0 && file_opened_for_writing(&out) == 0 { Err("plant unreadable") } else {
        match model::parse_plant(&d) {
            None => Err("plant invalid"),
            Some(p) => if too_big(&p, at_most(&p, 8000.0)) { rep.probe("not_judged", 1); return Ok(()) } else {
                match p.rules.derive_or_refuse(&p.initial, p.n, if at_most(&p, 0.0) > 0.0 { 100_000 } else { 5000 }) {
                    None => { rep.probe("not_judged", 1); return Ok(()) }
                    Some(None) => Err("a rule with too much chance is applied"),
                    Some(Some(s)) => model::turtle(&s, p.delta).ok_or("unbalanced branch"),
                }
            }
        }
    };
    if code == 0 {
        rep.probe("succeeded", 1);
        let paths = match want { Err(e) => return viol("false-success", format!("exited successfully although: {e}; {ctx}")), Ok(p) => p };
        match get(&out) {
            None => return viol("lost", format!("exited successfully but there is no {out_name:?}; {ctx}")),
            Some(b) => {
                let Ok(t) = String::from_utf8(b) else { return viol("incomplete", format!("the output is not text; {ctx}")) };
                if let Err(e) = model::compare_svg(&t, &model::picture(&paths, w, h), w, h) { return viol("incomplete", format!("exited successfully but the output is wrong: {e}; {ctx}; output: {}", t.chars().take(800).collect::<String>())) }
            }
        }
        return Ok(())
    }
    rep.probe("failed", 1);
    let std_failed = fired(&[FK_STDFAIL]) > 0;
    if stderr.trim().is_empty() && !std_failed { return viol("silent", format!("failed without an error message; {ctx}")) }
    match want {
        Err(_) => {
            rep.probe("failed_before_saving", 1);
            if get(&out) != before.get(&out_name).cloned() && !(ext && out_name == plant_name) { return viol("clobbered", format!("failed before saving, but the output file was changed; {ctx}")) }
        }
        Ok(_) => {
            rep.probe("failed_saving", 1);
            if fired(&HARD) == 0 && !std_failed && !to_dir(c) && fired(&[FK_STATFAIL, FK_SIZELIE]) == 0 { return viol("refused", format!("failed for no reason; {ctx}")) }
        }
    }
    Ok(())
}
const HARD_READ_ONLY: [u16; 7] = HARD_READ;
fn file_opened_for_writing(p: &[u8]) -> u32 { file_index(p).map_or(0, |i| shm().files[i].opened_w) }
