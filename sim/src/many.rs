//! Several threads that read plant files and save drawings at the same time, each its own.
use crate::exec::LAST_PANIC;
use crate::files::{self, *};
use crate::oracle::{viol, Report, Viol};
use crate::rt::*;
use crate::spec::*;
use rusty_systems::interpretation::abop::parser as plant_parser;
use rusty_systems::interpretation::svg::{SvgElement, SvgPathInterpretation};
use rusty_systems::interpretation::Interpretation;
use std::collections::BTreeMap;
use std::ffi::CString;
use std::panic::{catch_unwind, AssertUnwindSafe};

const SHARED: &str = "/sim/plant.txt";
fn plant_path(t: usize, file: u8) -> String { match file { 0 => format!("/sim/t{t}/plant.txt"), 1 => format!("/sim/t{t}/other.txt"), _ => SHARED.into() } }
fn out_path(t: usize, out: u8) -> String { format!("/sim/t{t}/{}.svg", if out == 0 { "out" } else { "more" }) }
fn text(m: &ManySc, p: usize) -> Vec<String> { m.plants.get(p).cloned().unwrap_or_default() }

#[derive(Debug)]
pub enum Event {
    Read { file: u8, out: FileOut, hard: bool, stat: bool, ext: bool, delivered: Vec<u8>, now: Option<Vec<u8>> },
    Saved { ok: bool, err: String, want: String, holds: Option<Vec<u8>>, hard: bool },
    Panic(String),
}

pub fn setup(m: &ManySc) {
    put(SHARED.as_bytes(), &content(&text(m, 0), "\n", &[]));
    put(OTHER.as_bytes(), b"leave me alone");
}

fn counts(path: &str) -> (u32, u32, u32) { file_index(path.as_bytes()).map_or((0, 0, 0), |i| { let f = &shm().files[i]; (f.n_hard, f.n_stat, f.n_ext) }) }
fn got(path: &str) -> Vec<u8> { file_index(path.as_bytes()).map_or(vec![], |i| { let f = &shm().files[i]; f.fdeliv[..f.fdeliv_len as usize].to_vec() }) }

fn step(m: &ManySc, t: usize, op: &FOp) -> Option<Event> {
    match op {
        FOp::Put { file, plant, edits } => { put(plant_path(t, file % 2).as_bytes(), &content(&text(m, *plant), "\n", edits)); None }
        FOp::Remove { file } => { let c = CString::new(plant_path(t, file % 2)).unwrap(); unsafe { rt_file_remove(c.as_ptr()); } None }
        FOp::Spoil { out, how } => {
            let path = out_path(t, *out);
            if let Some(mut b) = get(path.as_bytes()) {
                let n = b.len();
                match how { 0 => b.clear(), 1 => b.truncate(n / 2), 2 => b.extend(b"more"), 3 => { let c = CString::new(path).unwrap(); unsafe { rt_file_remove(c.as_ptr()); } return None } _ => if n > 0 { b[n / 2] ^= 1 } }
                put(path.as_bytes(), &b)
            }
            None
        }
        FOp::Parse { file } => {
            let path = plant_path(t, *file);
            let (before, all) = (counts(&path), fired(&HARD));
            let exists = get(path.as_bytes()).is_some();
            let out = read_plant(&path, || if *file == 2 { get(path.as_bytes()).unwrap_or_default() } else { got(&path) });
            let after = counts(&path);
            let hard = if *file == 2 { fired(&HARD) > all } else { after.0 > before.0 };
            Some(Event::Read { file: *file, out, hard: hard || !exists, stat: after.1 > before.1, ext: after.2 > before.2, delivered: got(&path), now: get(path.as_bytes()) })
        }
        FOp::Save { plant, w, h, out } => {
            let (interp, system, initial) = plant_parser::parse(&text(m, *plant).join("\n")).ok()?;
            let interp = SvgPathInterpretation::new_with(*w, *h, interp);
            let s = system.derive(initial, interp.run_settings()).ok()?;
            let svg = interp.interpret(&system, &s).ok()?;
            let all = fired(&HARD);
            in_op(true);
            let r = svg.save_file(out_path(t, *out));
            in_op(false);
            let holds = get(out_path(t, *out).as_bytes());
            Some(Event::Saved { ok: r.is_ok(), err: r.err().map(|e| e.to_string()).unwrap_or_default(), want: svg.to_svg(), holds, hard: fired(&HARD) > all })
        }
    }
}

pub fn run(m: &ManySc) -> Vec<Vec<Event>> {
    let n = m.threads.len();
    let m: &'static ManySc = Box::leak(Box::new(m.clone()));
    let handles: Vec<_> = (0..n).map(|t| std::thread::spawn(move || {
        unsafe { rt_gate_wait() };
        let mut v = vec![];
        for op in &m.threads[t] {
            match catch_unwind(AssertUnwindSafe(|| step(m, t, op))) {
                Ok(e) => v.extend(e),
                Err(_) => { in_op(false); v.push(Event::Panic(LAST_PANIC.with(|p| p.borrow().clone()))) }
            }
            yield_now();
        }
        v
    })).collect();
    while unsafe { rt_gate_count() } < n as i32 { yield_now() }
    unsafe { rt_gate_open() };
    handles.into_iter().map(|h| h.join().unwrap_or_default()).collect()
}

pub fn judge(m: &ManySc, done: &[Vec<Event>], before: &BTreeMap<String, Vec<u8>>, rep: &mut Report) -> Result<(), Viol> {
    let iolog = { let s = shm(); String::from_utf8_lossy(&s.iolog[..(s.iolog_len as usize).min(900)]).into_owned() };
    for (t, events) in done.iter().enumerate() {
        for (k, e) in events.iter().enumerate() {
            let at = format!("thread {t}, event {k}");
            let r = match e {
                Event::Panic(p) => viol("panic", format!("panicked: {p}; calls: {iolog}")),
                Event::Read { file, out, hard, stat, ext, delivered, now } => {
                    let big = delivered.len() >= FDELIV_CAP - 4096;
                    if big { rep.probe("not_judged", 1); continue }
                    let how = Reading { hard: *hard, own: *file != 2, stat: *stat, ext: *ext && *file != 2, delivered: delivered.clone(), now: now.clone() };
                    // Other processes' changes to the shared file: only the owner of a file knows what was delivered.
                    if *file == 2 && shm().files.iter().any(|f| f.used != 0 && f.n_ext > 0 && f.name.starts_with(SHARED.as_bytes())) { rep.probe("not_judged", 1); continue }
                    files::judge_reading(out, &how, &iolog, rep)
                }
                Event::Saved { ok, err, want, holds, hard } => {
                    rep.probe(if *ok { "saved" } else { "save_failures" }, 1);
                    if !ok && !hard { viol("refused", format!("saving failed for no reason ({err}); calls: {iolog}")) }
                    else if *ok && holds.as_deref() != Some(want.as_bytes()) { viol("incomplete", format!("saving succeeded but the file differs from the drawing (holds {:?}, expected {want:?}); calls: {iolog}", holds.as_ref().map(|b| String::from_utf8_lossy(b).chars().take(600).collect::<String>()))) }
                    else { Ok(()) }
                }
            };
            if let Err(v) = r { return viol(&v.class.clone(), format!("{at}: {}", v.msg)) }
        }
    }
    // Files of their own apart, nothing was created, changed or removed.
    let mut mine: Vec<String> = vec![];
    for t in 0..m.threads.len() { mine.extend([plant_path(t, 0), plant_path(t, 1), out_path(t, 0), out_path(t, 1)]) }
    if fired(&[FK_EXT_TRUNC, FK_EXT_APPEND, FK_EXT_FLIP]) > 0 { mine.push(SHARED.into()) }
    let mut rest = before.clone();
    for x in &mine { rest.remove(x); }
    others_untouched(&mine.iter().map(String::as_str).collect::<Vec<_>>(), &rest)
}
