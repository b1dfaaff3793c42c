//! Seeded generation of scenarios and fault plans, per property.
use crate::model;
use crate::rt::*;
use crate::spec::*;

const WORDS: [&str; 40] = ["A", "B", "C", "F", "G", "X", "Y", "S", "Forward", "Move", "[", "]", "+", "-", "a", "b", "Leaf", "apex", "A1", "A2", "F0", "é", "e\u{301}",
    "∂", "名前", "ABOP", "code:100", "code:101", "100", "101", "x_1", "x-1", "(", ")", "++", "--", "name", "Forwards", "FORWARD", "🌱"];
const ODD: [&str; 16] = ["two words", "a\u{a0}b", "a\u{3000}b", "line\nbreak", "tab\there", "\u{200b}", "->", "<", ">", ";", "nul\0byte", "A ", " A B", "#", "=", "a  b"];

fn trimmed_distinct(v: &mut Vec<String>) {
    let mut seen = std::collections::BTreeSet::new();
    v.retain(|n| seen.insert(n.trim().to_string()));
}
fn word(r: &mut Rng) -> String {
    if r.below(400) == 0 { return "very long".repeat(*r.pick(&[60, 120, 500, 8_000])).replace(' ', "") + &r.below(4).to_string() }
    match r.weighted(&[80, 10, 6, 4]) {
        0 => r.pick(&WORDS).to_string(),
        1 => format!("N{}", r.below(1000)),
        2 => format!("{}{}", r.pick(&WORDS[14..24]), r.below(50)),
        _ => "long".repeat(r.range(10, 120)) + &r.below(10).to_string(),
    }
}
/// A different name that careless code may take for the same.
fn variant(r: &mut Rng, of: &str) -> String {
    let of = of.trim();
    match r.below(15) {
        0 => of.to_lowercase(),
        1 => of.to_uppercase(),
        2 => { let mut c = of.chars(); c.next().map_or(String::new(), |f| f.to_uppercase().collect::<String>() + c.as_str()) }
        3 => format!("{of}{}", r.pick(&["\u{301}", "\u{308}", "\u{20d7}", "\u{fe0f}"])),
        4 => format!("{of}{}", r.pick(&["\0", "\0x", "\u{1}", "\u{7f}", "\u{8}"])),
        5 => format!("{of}{}", r.pick(&["\u{200b}", "\u{feff}", "\u{200d}", "\u{2060}", "\u{ad}"])),
        6 => format!("{}{of}", r.pick(&["\u{feff}", "\u{200b}", "_", "'", "0", "\u{202e}"])),
        7 => format!("{of}{}", r.pick(&["'", "_", ".", "0", "\"", "/", "\\", "!", ",", ":"])),
        8 => { let mut c: Vec<char> = of.chars().collect(); c.pop(); c.into_iter().collect() }
        9 => of.chars().rev().collect(),
        10 => format!("{of}{of}"),
        11 => of.replace('é', "e\u{301}").replace('o', "0").replace('A', "\u{410}").replace('F', "\u{ff26}").replace('a', "\u{e4}").replace("ss", "ß"),
        12 => { let k: usize = if r.pct(8) { *r.pick(&[511, 512, 1023, 1024, 4096, 65535, 65536, 70_000]) } else { *r.pick(&[7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256]) }; format!("{of}{}{}", "x".repeat(k.saturating_sub(of.chars().count())), r.below(3)) }
        13 => format!("{of}{}", r.below(4)),
        _ => of.to_lowercase().chars().enumerate().map(|(i, c)| if i % 2 == 1 { c.to_ascii_uppercase() } else { c }).collect(),
    }
}
/// Names for registry calls: anything goes.
fn any_names(r: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    while v.len() < n {
        v.push(if !v.is_empty() && r.pct(35) { let of = r.pick(&v).clone(); variant(r, &of) } else if r.pct(25) { r.pick(&ODD).to_string() } else { word(r) });
        v.retain(|n| !n.trim().is_empty());
        trimmed_distinct(&mut v);
    }
    v
}
/// Names a production text may mention: one word, not an arrow or a context mark, not a number.
fn prod_names(r: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    while v.len() < n {
        let w = if r.pct(6) { r.pick(&["a\u{a0}b", "p=q", "h#h", "a;b", "<<", "x>y", "F(1)", "initial:"]).to_string() } else if !v.is_empty() && r.pct(12) { let of = r.pick(&v).clone(); variant(r, &of) } else { word(r) };
        if w.is_empty() || w.split_ascii_whitespace().next() != Some(w.as_str()) || w.trim() != w { continue }
        if w.parse::<f32>().is_err() && !w.contains("->") && w != "<" && w != ">" { v.push(w); }
        trimmed_distinct(&mut v);
    }
    v
}
/// Names that the string syntax takes as one symbol.
fn token_names(r: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    while v.len() < n {
        let w = if r.pct(20) { r.pick(&["<<", ">>", "<-", "-<", "+-", "((", ")", "><", "<>", "--", "-+>", "a", "[", "]"]).to_string() } else if !v.is_empty() && r.pct(15) { let of: &String = r.pick(&v); let of = of.clone(); variant(r, &of) } else { word(r) };
        if model::is_single_token(&w) { v.push(w) }
        trimmed_distinct(&mut v);
    }
    v
}

fn gen_knobs(r: &mut Rng, threads: usize) -> Knobs {
    let mut k = Knobs { step_limit: 3_000_000, disk_free: -1, ..Default::default() };
    k.p_spurious = *r.pick(&[0, 0, 1500, 8000, 20000]);
    k.p_wakeorder = *r.pick(&[0, 0, 15000, 40000]);
    if threads > 1 && r.pct(20) {
        k.starve_tid1 = 3 + r.below(threads) as u32;
        k.starve_steps = *r.pick(&[150, 400, 1200, 4000]);
    }
    if threads > 1 && r.pct(25) {
        k.p_stall = *r.pick(&[1500, 6000, 20000]);
        k.stall_len = *r.pick(&[200, 1000, 5000]);
    }
    k
}
/// Many threads, now and then.
fn crowd(r: &mut Rng, lo: usize, hi: usize) -> Option<usize> { if r.below(250) == 0 { Some(*r.pick(&[20, 33, 65, 130])) } else if r.pct(2) { Some(r.range(lo, hi)) } else { None } }
fn split(r: &mut Rng, threads: usize, lo: usize, hi: usize, mut f: impl FnMut(&mut Rng, usize) -> Op) -> Vec<Vec<Op>> {
    (0..threads).map(|t| (0..r.range(lo, hi)).map(|_| f(r, t)).collect()).collect()
}

// ------------------------------------------------------------------ registry
fn gen_c01(r: &mut Rng, thorough: bool) -> Ops {
    let big = r.pct(8);
    let names = { let n = r.range(1, 6); any_names(r, n) };
    let n = names.len();
    let t = crowd(r, 7, 16).unwrap_or_else(|| r.range(2, 6));
    let setup = if r.pct(40) { vec![Op::Code { n: r.below(n), ws: 0, api: 0 }] } else { vec![] };
    let huge = if r.below(if thorough { 100 } else { 220 }) == 0 { Some(*r.pick(&[5_000u32, 17_000, 66_000])) } else { None };
    let bases = r.range(1, 3);
    let w = swarm(r, [70, 10, 6, if big { 14 } else { 2 }]);
    let mut threads = split(r, t, 2, 9, |r, _| match r.weighted(&w) {
        0 => Op::Code { n: r.below(n), ws: r.below(6) as u8, api: r.below(6) as u8 },
        1 => Op::Name { n: r.below(n), api: r.below(16) as u8 },
        2 => Op::Blank { v: r.below(24) as u8 },
        _ => Op::Bulk { base: r.below(bases) as u8, from: r.below(3) as u32 * 10, count: *r.pick(&[5, 20, 40, 300]) },
    });
    let hb = *r.pick(&[5, 6, 7]);
    if let Some(h) = huge { threads[0] = vec![Op::Bulk { base: hb, from: 0, count: h }]; }
    let mut finale: Vec<Op> = (0..n).map(|i| Op::Code { n: i, ws: 0, api: r.below(6) as u8 }).collect();
    if huge.is_some() || big { finale.push(Op::Bulk { base: 0, from: 0, count: 320 }); finale.push(Op::Bulk { base: hb, from: 0, count: 50 }); }
    Ops { names, setup, threads, finale, ..ops() }
}
fn ops() -> Ops { Ops { names: vec![], systems: 0, fams: 0, plants: vec![], setup: vec![], threads: vec![], finale: vec![], base: vec![], twin: false } }
fn gen_c02(r: &mut Rng, thorough: bool) -> Ops {
    let huge = if r.below(if thorough { 100 } else { 220 }) == 0 { Some(*r.pick(&[2_000u32, 5_000, 17_000, 66_000])) } else { None };
    let tokens = r.pct(65);
    let n = r.range(1, 6);
    let names = if tokens { token_names(r, n) } else { any_names(r, n) };
    let t = crowd(r, 6, 12).unwrap_or_else(|| r.range(2, 5));
    let setup = if r.pct(30) { vec![Op::Code { n: r.below(n), ws: 0, api: 0 }] } else { vec![] };
    let mut slot = 0;
    let w = swarm(r, [35, 35, 12, 1, if tokens { 17 } else { 0 }, if tokens { 17 } else { 0 }]);
    let mut threads = split(r, t, 2, 8, |r, t| match r.weighted(&w) {
        0 => Op::Code { n: r.below(n), ws: r.below(6) as u8, api: r.below(6) as u8 },
        1 => Op::Name { n: r.below(n), api: r.below(16) as u8 },
        2 => Op::Phantom { off: if r.pct(30) { 1000 + r.below(100000) as u32 } else { r.below(12) as u32 } },
        3 => Op::Bulk { base: r.below(2) as u8, from: 0, count: *r.pick(&[10, 60, 400]) },
        4 => { slot = (slot + 1) % 8; Op::Print { slot: if r.pct(50) { slot } else { t % 8 }, names: { let most = if r.pct(3) { *r.pick(&[40, 130, 300, 1100, 5000]) } else { 9 }; (0..r.range(0, most)).map(|_| r.below(n)).collect() }, api: r.below(2) as u8 } }
        _ => Op::Parse { slot: r.below(8), api: r.below(3) as u8 },
    });
    if let Some(h) = huge { threads[0].push(Op::Bulk { base: *r.pick(&[5, 6, 7]), from: 0, count: h }); }
    let finale = (0..n).map(|i| Op::Name { n: i, api: r.below(16) as u8 }).chain(if tokens { (0..8).map(|s| Op::Parse { slot: s, api: s as u8 }).collect() } else { vec![] }).collect();
    Ops { names, setup, threads, finale, ..ops() }
}

// ------------------------------------------------------------------ systems
struct Heads(Vec<(Option<Vec<usize>>, usize, Option<Vec<usize>>)>, Mix);
/// How often each kind of call is made: different in every scenario, so that some have hardly anything but one kind.
struct Mix { simple: [u32; 6], conv: [u32; 8] }
fn swarm<const N: usize>(r: &mut Rng, w: [u32; N]) -> [u32; N] {
    if r.pct(50) { return w }
    let v = w.map(|x| x * *r.pick(&[0, 1, 1, 4, 12]));
    if v.iter().all(|x| *x == 0) { w } else { v }
}
fn gen_heads(r: &mut Rng, n: usize, k: usize, ctx_pct: u32) -> Heads {
    let mut v = vec![];
    for _ in 0..k {
        let c = |r: &mut Rng| if r.pct(ctx_pct) { Some((0..r.weighted(&[20, 100, 50, 20, 6, 5, 4, 3, 2])).map(|_| r.below(n)).collect::<Vec<_>>()) } else { None };
        let t = if v.is_empty() || r.pct(60) { r.below(n) } else { let p: &(Option<Vec<usize>>, usize, Option<Vec<usize>>) = r.pick(&v); p.1 };
        v.push((c(r), t, c(r)));
    }
    Heads(v, Mix { simple: swarm(r, [35, 15, 12, 8, 8, 22]), conv: swarm(r, [12, 14, 14, 20, 16, 14, 14, 10]) })
}
fn gen_pspec(r: &mut Rng, h: &Heads, n: usize, maxbody: usize) -> PSpec {
    let (pre, target, post) = r.pick(&h.0).clone();
    let len = r.range(0, maxbody);
    PSpec { pre, target, post, body: (0..len).map(|_| r.below(n)).collect(), chance: if r.pct(15) { Some(*r.pick(&[100, 100, 250, 500, 1000, 1000])) } else { None },
        more: if r.pct(6) { (0..r.range(1, 3)).map(|_| { let len = r.range(0, maxbody.min(2)); (0..len).map(|_| r.below(n)).collect() }).collect() } else { vec![] } }
}
fn gen_axiom(r: &mut Rng, n: usize, h: &Heads, max: usize) -> Vec<usize> {
    let lo = if r.pct(5) { 0 } else { 1 };
    let len = r.range(lo, max);
    let mut v: Vec<usize> = vec![];
    while v.len() < len {
        // Often lay out a whole head, so that contexts match.
        if r.pct(35) {
            let (pre, t, post) = r.pick(&h.0);
            let from = v.len();
            if let Some(p) = pre { v.extend(p) }
            v.push(*t);
            if let Some(p) = post { v.extend(p) }
            // ... or almost match.
            if v.len() > from + 2 && r.pct(40) { let at = from + r.below(v.len() - from); v[at] = r.below(n) }
        } else { v.push(r.below(n)) }
    }
    v.truncate(max.max(1));
    if len == 0 { v.clear() }
    v
}
fn plain_conv(r: &mut Rng) -> Conv {
    match r.weighted(&[20, 20, 25, 15, 20]) { 0 => Conv::Str, 1 => Conv::Text, 2 => Conv::Value, 3 => Conv::ParseAdd, _ => Conv::CallerOk(r.below(3) as u8) }
}
fn plain_sym_conv(r: &mut Rng) -> Conv { match r.below(4) { 0 => Conv::Str, 1 => Conv::Text, 2 => Conv::Value, _ => Conv::CallerOk(r.below(3) as u8) } }
fn gen_iters(r: &mut Rng, maxbody: usize) -> usize { if maxbody <= 1 { if r.pct(3) { return *r.pick(&[63, 64, 65, 127, 128, 255, 256, 257, 300, 1000, 1025, 2049, 4100]) } *r.pick(&[0, 1, 2, 3, 5, 10, 11, 40]) } else { *r.pick(&[0, 1, 1, 2, 2, 3, 3, 4]) } }

/// The last calls of a run: everything observable about the systems.
fn probe_systems(r: &mut Rng, systems: usize, names: usize, heads: &Heads) -> Vec<Op> {
    let mut v = vec![];
    for s in 0..systems {
        v.push(Op::ProdLen { sys: s });
        v.push(Op::SymLen { sys: s });
        for n in 0..names { v.push(Op::GetSym { sys: s, n, ws: 0 }) }
        let ax = gen_axiom(r, names, heads, 6);
        v.push(Op::Derive { sys: s, axiom: ax, iters: 1, once: r.pct(50) });
        // adding another body returns all the bodies stored so far
        for (pre, t, post) in &heads.0 { v.push(Op::AddProd { sys: s, p: PSpec { pre: pre.clone(), target: *t, post: post.clone(), body: vec![], chance: None, more: vec![] }, conv: Conv::Value }) }
        v.push(Op::ProdLen { sys: s });
    }
    v
}
/// Many rules, many bodies, many symbols.
fn gen_c03_big(r: &mut Rng) -> Ops {
    let n = r.range(10, 150);
    let names: Vec<String> = (0..n).map(|i| format!("w{i}")).collect();
    let vast = r.below(9) == 0; // a thousand of something
    let k = if vast { *r.pick(&[1, 2, 600, 1100, 1100]) } else { *r.pick(&[1, 3, 20, 70, 130, 260]) };
    let heads = gen_heads(r, n, k, if vast { 75 } else { 25 });
    let long = r.pct(20);
    let adds = if vast { 1100 } else { (k * r.range(1, 3)).max(*r.pick(&[0, 20, 70, 140])).min(300) };
    let one = |r: &mut Rng, i: usize| {
        let (pre, target, post) = heads.0[i % k].clone();
        PSpec { pre, target, post, body: (0..if long && r.below(adds / 8 + 1) == 0 { *r.pick(&[100, 300, 1100, 5000, 11_000]) } else { r.weighted(&[10, 60, 20, 10]) }).map(|_| r.below(n)).collect(), chance: None, more: vec![] }
    };
    let setup = (0..adds).map(|i| Op::AddProd { sys: 0, p: one(r, i), conv: Conv::Value }).collect();
    let t = r.range(1, 3);
    let threads = split(r, t, 1, 4, |r, _| match r.weighted(&[60, 12, 12, 8, 8]) {
        0 => { let i = r.below(k); Op::AddProd { sys: 0, p: one(r, i), conv: plain_conv(r) } }
        1 => Op::AddSym { sys: 0, n: r.below(n), conv: plain_sym_conv(r) },
        2 => Op::GetSym { sys: 0, n: r.below(n), ws: 0 },
        3 => Op::ProdLen { sys: 0 },
        _ => Op::SymLen { sys: 0 },
    });
    let mut finale = vec![Op::ProdLen { sys: 0 }, Op::SymLen { sys: 0 }];
    for _ in 0..4 { finale.push(Op::GetSym { sys: 0, n: r.below(n), ws: 0 }); let i = r.below(k); finale.push(Op::AddProd { sys: 0, p: one(r, i), conv: Conv::Value }); }
    let ax = gen_axiom(r, n, &heads, 12);
    finale.push(Op::Derive { sys: 0, axiom: ax, iters: 1, once: true });
    finale.push(Op::ProdLen { sys: 0 });
    Ops { names, systems: 1, setup, threads, finale, base: vec![0], ..ops() }
}
fn gen_c03(r: &mut Rng, _th: bool) -> Ops {
    if r.pct(1) { return gen_c03_big(r) }
    let n = r.range(2, 6);
    let names = prod_names(r, n);
    let k = r.range(1, 4);
    let heads = gen_heads(r, n, k, 30);
    let systems = r.weighted(&[0, 85, 15]);
    let t = r.range(2, 4);
    let maxbody = r.range(1, 3);
    let setup = (0..r.below(3)).map(|_| Op::AddProd { sys: 0, p: gen_pspec(r, &heads, n, maxbody), conv: plain_conv(r) }).collect();
    let w = *r.pick(&[[50u32, 14, 12, 7, 7, 10], [80, 5, 5, 5, 5, 0], [30, 30, 20, 5, 10, 5], [35, 5, 10, 20, 20, 10]]);
    let threads = split(r, t, 1, 6, |r, _| {
        let sys = r.below(systems);
        match r.weighted(&w) {
            0 => Op::AddProd { sys, p: gen_pspec(r, &heads, n, maxbody), conv: plain_conv(r) },
            1 => Op::AddSym { sys, n: r.below(n), conv: plain_sym_conv(r) },
            2 => Op::GetSym { sys, n: r.below(n), ws: r.below(6) as u8 },
            3 => Op::ProdLen { sys },
            4 => Op::SymLen { sys },
            _ => Op::Derive { sys, axiom: gen_axiom(r, n, &heads, 5), iters: gen_iters(r, maxbody), once: r.pct(40) },
        }
    });
    let finale = probe_systems(r, systems, n, &heads);
    let base = (0..systems).map(|_| r.pct(25) as u8).collect();
    Ops { names, systems, setup, threads, finale, base, ..ops() }
}
/// Long strings, long contexts, long rule lists: sizes the other scenarios do not reach.
fn gen_c04_big(r: &mut Rng) -> Ops {
    let wide = r.pct(40);
    let n = if wide { r.range(20, 90) } else { r.range(2, 4) };
    let names: Vec<String> = if wide { (0..n).map(|i| format!("w{i}")).collect() } else { prod_names(r, n) };
    let n = names.len();
    let k = if wide { r.range(20, 120) } else { r.range(1, 4) };
    let mut heads = gen_heads(r, n, k, if wide { 30 } else { 70 });
    if r.pct(15) { for h in &mut heads.0 { // contexts as long as the string has room for
        let k = *r.pick(&[10, 17, 20, 33, 40]);
        if r.pct(60) { h.0 = Some((0..k).map(|_| r.below(n)).collect()) }
        if r.pct(60) { h.2 = Some((0..k).map(|_| r.below(n)).collect()) }
    } }
    // one body per head, of one symbol mostly, so that the result is determined and does not grow
    let mut seen = vec![];
    heads.0.retain(|h| { let new = !seen.contains(h); seen.push(h.clone()); new });
    let setup: Vec<Op> = heads.0.iter().map(|(pre, target, post)| { let len = r.weighted(&[10, 85, 5]); Op::AddProd { sys: 0, p: PSpec { pre: pre.clone(), target: *target, post: post.clone(), body: (0..len).map(|_| r.below(n)).collect(), chance: None, more: vec![] }, conv: if r.pct(50) { Conv::Value } else { plain_conv(r) } } }).collect();
    let len = *r.pick(&[60, 130, 260, 520, 1030, 1500, 2100, 4100]);
    let t = r.range(1, 3);
    let threads = (0..t).map(|i| (0..r.range(1, 2)).map(|_| {
        let axiom = gen_axiom(r, n, &heads, len);
        if i > 0 && r.pct(30) { Op::AddProd { sys: 0, p: PSpec { pre: None, target: r.below(n), post: None, body: vec![r.below(n)], chance: None, more: vec![] }, conv: plain_conv(r) } }
        else if r.pct(25) { let rules = setup.iter().filter_map(|o| if let Op::AddProd { p, .. } = o { Some(p.clone()) } else { None }).collect(); Op::Free { rules, axiom, iters: *r.pick(&[1, 2, 5]), once: r.pct(50) } }
        else { Op::Derive { sys: 0, axiom, iters: *r.pick(&[1, 1, 2, 3, 7]), once: r.pct(30) } }
    }).collect()).collect();
    Ops { names, systems: 1, setup, threads, base: vec![0], ..ops() }
}
/// Rules whose result tells how many iterations used them: one that grows by a symbol each time, and a wheel of
/// rules that turns by one place each time. They are added while others derive with many iterations.
fn gen_c04_count(r: &mut Rng) -> Ops {
    let k = r.range(2, 6);
    let names: Vec<String> = (0..k + 3).map(|i| ["X", "Y", "Z", "a", "b", "c", "d", "e", "f"][i].to_string()).collect();
    let (x, y) = (k, k + 1);
    let rule = |r: &mut Rng, pre: Option<Vec<usize>>, target: usize, body: Vec<usize>| Op::AddProd { sys: 0, p: PSpec { pre, target, post: None, body, chance: None, more: vec![] }, conv: plain_conv(r) };
    let mut adds: Vec<Op> = vec![];
    for i in 0..k { adds.push(rule(r, None, i, vec![(i + 1) % k])) }
    adds.push(if r.pct(50) { rule(r, None, x, vec![x, y]) } else { rule(r, Some(vec![k + 2]), x, vec![y, k + 2, x]) });
    if r.pct(30) { adds.push(rule(r, Some(vec![x]), y, vec![y, y])) } // doubles the first only
    for i in (1..adds.len()).rev() { let j = r.below(i + 1); adds.swap(i, j); }
    let at = r.below(adds.len() + 1);
    let (setup, later) = adds.split_at(at);
    let t = r.range(1, 3);
    let grows = r.pct(70);
    let mut threads: Vec<Vec<Op>> = (0..t).map(|_| (0..r.range(1, 3)).map(|_| {
        let mut axiom: Vec<usize> = (0..r.range(1, 4)).map(|_| r.below(k)).collect();
        if grows { let p = r.below(axiom.len() + 1); axiom.insert(p, x); if r.pct(60) { axiom.insert(p, k + 2) } }
        let iters = if !grows && r.pct(2) { *r.pick(&[33_000, 66_001, 70_003]) } else if grows { *r.pick(&[1, 2, 3, 4, 7, 10, 17, 20, 33, 65, 129, 257]) } else { *r.pick(&[3, 9, 17, 33, 65, 130, 257, 513, 1030, 2050, 4100, 9000]) };
        Op::Derive { sys: 0, axiom, iters, once: false }
    }).collect()).collect();
    threads.push(later.to_vec());
    Ops { names, systems: 1, setup: setup.to_vec(), threads, base: vec![0], ..ops() }
}
/// Rules without contexts under which the string gets very long.
fn gen_c04_grow(r: &mut Rng) -> Ops {
    let n = r.range(2, 5);
    let names = prod_names(r, n);
    let want = if r.pct(10) { 420_000 } else { *r.pick(&[7_000, 17_000, 34_000, 66_000, 132_000]) };
    let (bodies, axiom, iters) = loop {
        let bodies: Vec<Vec<usize>> = (0..n).map(|i| if i > 0 && r.pct(30) { vec![i] } else { let k = r.range(1, 4); (0..k).map(|j| if j == 0 && r.pct(60) { i } else { r.below(n) }).collect() }).collect();
        let axiom: Vec<usize> = (0..r.range(1, 4)).map(|_| r.below(n)).collect();
        let mut count = vec![0usize; n];
        for a in &axiom { count[*a] += 1 }
        let mut iters = 0;
        while count.iter().sum::<usize>() < want && iters < 40 {
            let mut next = vec![0; n];
            for (i, b) in bodies.iter().enumerate() { for s in b { next[*s] += count[i] } }
            count = next;
            iters += 1;
        }
        let len = count.iter().sum::<usize>();
        if len >= want && len < 2 * want { break (bodies, axiom, iters) }
    };
    let rule = |r: &mut Rng, target: usize, body: &Vec<usize>| Op::AddProd { sys: 0, p: PSpec { pre: None, target, post: None, body: body.clone(), chance: None, more: vec![] }, conv: plain_conv(r) };
    let setup = bodies.iter().enumerate().map(|(i, b)| rule(r, i, b)).collect();
    let rules = bodies.iter().enumerate().map(|(i, b)| PSpec { pre: None, target: i, post: None, body: b.clone(), chance: None, more: vec![] }).collect();
    let mut threads = vec![vec![if r.pct(25) { Op::Free { rules, axiom, iters, once: false } } else { Op::Derive { sys: 0, axiom, iters, once: false } }]];
    if r.pct(40) { let i = r.below(n); threads.push(vec![rule(r, i, &bodies[i]), Op::ProdLen { sys: 0 }, Op::SymLen { sys: 0 }]) }
    Ops { names, systems: 1, setup, threads, base: vec![0], ..ops() }
}
fn gen_c04(r: &mut Rng, _th: bool) -> Ops {
    if r.below(250) == 0 { return gen_c04_grow(r) }
    if r.pct(4) { return gen_c04_big(r) }
    if r.pct(5) { return gen_c04_count(r) }
    let n = r.range(2, 5);
    let names = prod_names(r, n);
    let k = r.range(1, 4);
    let heads = gen_heads(r, n, k, 45);
    let t = r.range(2, 4);
    let maxbody = r.range(1, 3);
    let det = r.pct(60); // no head gets two bodies in the setup
    let mut setup: Vec<Op> = vec![];
    for (i, (pre, target, post)) in heads.0.iter().enumerate() {
        if r.pct(70) {
            let body = (0..r.range(0, maxbody)).map(|_| r.below(n)).collect();
            if det && heads.0[..i].iter().any(|h| *h == heads.0[i]) { continue }
            setup.push(Op::AddProd { sys: 0, p: PSpec { pre: pre.clone(), target: *target, post: post.clone(), body, chance: None, more: vec![] }, conv: plain_conv(r) });
        }
    }
    let derivers = r.range(1, t - 1);
    let mut threads = vec![];
    for i in 0..t {
        let mut v = vec![];
        for _ in 0..r.range(1, if i < derivers { 4 } else { 4 }) {
            if i < derivers || r.pct(10) {
                if r.pct(18) {
                    let rules = (0..r.range(1, 5)).map(|_| gen_pspec(r, &heads, n, maxbody)).collect();
                    v.push(Op::Free { rules, axiom: gen_axiom(r, n, &heads, 8), iters: gen_iters(r, maxbody), once: r.pct(40) });
                } else {
                    let m = *r.pick(&[3, 6, 9]);
                    v.push(Op::Derive { sys: 0, axiom: gen_axiom(r, n, &heads, m), iters: gen_iters(r, maxbody), once: r.pct(30) });
                }
            } else {
                v.push(Op::AddProd { sys: 0, p: gen_pspec(r, &heads, n, maxbody), conv: plain_conv(r) });
            }
        }
        threads.push(v);
    }
    let ax = gen_axiom(r, n, &heads, 8);
    let finale = vec![Op::Derive { sys: 0, axiom: ax.clone(), iters: 1, once: true }, Op::Derive { sys: 0, axiom: ax, iters: gen_iters(r, maxbody), once: false }];
    Ops { names, systems: 1, setup, threads, finale, base: vec![r.pct(15) as u8], ..ops() }
}

fn fail_conv(r: &mut Rng, sys: usize, n: usize, h: &Heads, maxbody: usize, local: bool) -> Conv { fail_conv_at(r, sys, n, h, maxbody, local, 0) }
fn fail_conv_at(r: &mut Rng, sys: usize, n: usize, h: &Heads, maxbody: usize, local: bool, depth: usize) -> Conv {
    let nest = |r: &mut Rng| (0..r.range(1, 2)).map(|_| if depth < 4 && r.pct(12) {
        // code that calls back, called back by code that calls back
        let conv = fail_conv_at(r, sys, n, h, maxbody, local, depth + 1);
        if r.pct(60) { Op::AddProd { sys, p: gen_pspec(r, h, n, maxbody), conv } } else { Op::AddSym { sys, n: r.below(n), conv } }
    } else { simple_op(r, sys, n, h, maxbody, local) }).collect::<Vec<_>>();
    match r.weighted(&h.1.conv) {
        0 => Conv::CallerOk(r.below(3) as u8), 1 => Conv::CallerErr, 2 => Conv::CallerPanic, 3 => Conv::Reenter(nest(r)),
        4 => Conv::ReenterErr(nest(r)), 5 => Conv::ReenterPanic(nest(r)), 6 => Conv::CallerErrIntoPanic, _ => Conv::Bad,
    }
}
fn simple_op(r: &mut Rng, sys: usize, n: usize, h: &Heads, maxbody: usize, local: bool) -> Op {
    if local && r.pct(35) {
        return match r.below(3) {
            0 => Op::LAddProd { p: gen_pspec(r, h, n, maxbody), conv: if r.pct(20) { Conv::CallerErr } else { Conv::Value } },
            1 => Op::LAddSym { n: r.below(n), conv: if r.pct(20) { Conv::CallerPanic } else { Conv::Str } },
            _ => Op::LGetSym { n: r.below(n) },
        }
    }
    match r.weighted(&h.1.simple) {
        0 => Op::AddProd { sys, p: gen_pspec(r, h, n, maxbody), conv: match r.below(8) { 0 => Conv::CallerPanic, 1 => Conv::CallerErr, 2 => Conv::ParseAdd, _ => plain_conv(r) } },
        1 => Op::AddSym { sys, n: r.below(n), conv: match r.below(8) { 0 => Conv::CallerPanic, 1 => Conv::CallerErr, _ => plain_sym_conv(r) } },
        2 => Op::GetSym { sys, n: r.below(n), ws: 0 },
        3 => Op::ProdLen { sys },
        4 => Op::SymLen { sys },
        _ => Op::Derive { sys, axiom: gen_axiom(r, n, h, 4), iters: gen_iters(r, maxbody), once: r.pct(40) },
    }
}
fn gen_c07(r: &mut Rng, _th: bool) -> Ops {
    let n = r.range(2, 5);
    let names = prod_names(r, n);
    let k = r.range(1, 3);
    let heads = gen_heads(r, n, k, 25);
    let t = r.range(1, 4);
    let maxbody = r.range(1, 3);
    let w = swarm(r, [40, 22, 14, 8, 16]);
    let threads = split(r, t, 1, 5, |r, _| match r.weighted(&w) {
        0 => Op::AddProd { sys: 0, p: gen_pspec(r, &heads, n, maxbody), conv: fail_conv(r, 0, n, &heads, maxbody, true) },
        1 => Op::AddSym { sys: 0, n: r.below(n), conv: fail_conv(r, 0, n, &heads, maxbody, true) },
        2 => Op::LAddProd { p: gen_pspec(r, &heads, n, maxbody), conv: fail_conv(r, 0, n, &heads, maxbody, true) },
        3 => Op::LAddSym { n: r.below(n), conv: fail_conv(r, 0, n, &heads, maxbody, true) },
        _ => simple_op(r, 0, n, &heads, maxbody, true),
    });
    let setup = if r.pct(40) { vec![Op::AddProd { sys: 0, p: gen_pspec(r, &heads, n, maxbody), conv: Conv::Value }] } else { vec![] };
    let finale = probe_systems(r, 1, n, &heads);
    Ops { names, systems: 1, setup, threads, finale, base: vec![r.pct(15) as u8], ..ops() }
}
fn gen_c15(r: &mut Rng, _th: bool) -> Ops {
    let n = r.range(2, 6);
    let mut names = prod_names(r, n);
    if r.pct(50) { names[0] = "Forward".into(); trimmed_distinct(&mut names); }
    let n = names.len();
    let k = r.range(1, 4);
    let heads = gen_heads(r, n, k, 30);
    let t = crowd(r, 5, 9).unwrap_or_else(|| r.range(1, 4));
    let per = if t == 1 { 2 } else { r.weighted(&[0, 70, 30]) };
    let maxbody = r.range(1, 3);
    let w = swarm(r, [70, 10, 8, 6, 6, 10]);
    let threads = split(r, t, 2, 7, |r, t| {
        let sys = t * per + r.below(per);
        match r.weighted(&w) {
            5 => { let rules = (0..r.range(0, 4)).map(|_| gen_pspec(r, &heads, n, maxbody)).collect();
                Op::Fresh { family: r.pct(30), rules, axiom: gen_axiom(r, n, &heads, 5), iters: *r.pick(&[0, 1, 2, 3]), rounds: if r.pct(1) { *r.pick(&[20, 70, 150, 300, 1100]) } else { r.range(1, 4) as u32 }, turn: r.pct(50) } }
            0 => match simple_op(r, sys, n, &heads, maxbody, false) {
                Op::AddProd { sys, p, .. } => Op::AddProd { sys, p, conv: plain_conv(r) },
                Op::AddSym { sys, n, .. } => Op::AddSym { sys, n, conv: plain_sym_conv(r) },
                o => o,
            },
            1 => Op::LAddProd { p: gen_pspec(r, &heads, n, maxbody), conv: plain_conv(r) },
            2 => match r.below(2) { 0 => Op::LAddSym { n: r.below(n), conv: plain_sym_conv(r) }, _ => Op::LGetSym { n: r.below(n) } },
            3 => Op::Code { n: r.below(n), ws: 0, api: r.below(6) as u8 },
            _ => Op::FamSystem { f: 0, api: r.below(3) as u8 },
        }
    });
    let finale = probe_systems(r, t * per, n, &heads);
    let base = (0..t * per).map(|_| r.pct(40) as u8).collect();
    Ops { names, systems: t * per, threads, finale, base, ..ops() }
}

// ------------------------------------------------------------------ families
fn gen_c06(r: &mut Rng, _th: bool) -> Ops {
    let many = r.pct(1);
    let fams = if many { if r.pct(25) { *r.pick(&[130, 300, 700]) } else { r.range(12, 70) } } else { r.weighted(&[0, 60, 25, 5, 5, 5]) };
    let t = crowd(r, 6, 14).unwrap_or_else(|| r.range(2, 5));
    let few = r.pct(70); // contents that several threads agree on now and then
    let panics = r.pct(40);
    let f_of = |r: &mut Rng| r.below(fams);
    let c_of = |r: &mut Rng, t: usize| if few { (t + r.below(3)) % 5 } else { fam_c(r) };
    let w = swarm(r, [28, 26, 14, 10, 16, 3, 4]);
    let threads = split(r, t, 1, 6, |r, t| match r.weighted(&w) {
        6 => Op::FamValue { f: f_of(r), c: fam_c(r) },
        0 => Op::FamRegister { f: f_of(r), c: c_of(r, t), builder: r.pct(50) },
        1 => Op::FamInit { f: f_of(r), c: c_of(r, t), panic: panics && r.pct(35), yields: r.below(4) as u8, alias: r.pct(20) },
        2 => Op::FamGet { f: f_of(r) },
        3 => Op::FamExists { f: f_of(r) },
        4 => Op::FamSystem { f: f_of(r), api: r.below(3) as u8 },
        _ => Op::FamBlank { v: r.below(16) as u8 },
    });
    let finale = (0..fams).flat_map(|f| [Op::FamGet { f }, Op::FamExists { f }, Op::FamInit { f, c: 4, panic: false, yields: 0, alias: false }, Op::FamSystem { f, api: 1 }, Op::FamRegister { f, c: 0, builder: true }]).collect();
    let setup = if many { (5..fams).filter_map(|f| r.pct(85).then(|| Op::FamRegister { f, c: fam_c(r), builder: r.pct(50) })).collect() } else { vec![] };
    Ops { fams, setup, threads, finale, ..ops() }
}

// ------------------------------------------------------------------ mixed load
fn mixed_op(r: &mut Rng, n: usize, systems: usize, fams: usize, plants: usize, h: &Heads, maxbody: usize, panics: bool, w: &[u32]) -> Op {
    match r.weighted(w) {
        0 => { let sys = r.below(systems); match r.below(4) {
            0 => Op::AddProd { sys, p: gen_pspec(r, h, n, maxbody), conv: fail_conv(r, sys, n, h, maxbody, true) },
            1 => Op::AddSym { sys, n: r.below(n), conv: fail_conv(r, sys, n, h, maxbody, true) },
            _ => simple_op(r, sys, n, h, maxbody, true) } }
        1 => Op::Code { n: r.below(n), ws: 0, api: r.below(6) as u8 },
        2 => Op::Name { n: r.below(n), api: r.below(16) as u8 },
        3 => Op::Print { slot: r.below(8), names: (0..r.range(0, 4)).map(|_| r.below(n)).collect(), api: r.below(2) as u8 },
        4 => Op::Parse { slot: r.below(8), api: r.below(3) as u8 },
        5 => { let f = r.below(fams); match r.below(5) {
            0 => Op::FamRegister { f, c: r.below(5), builder: r.pct(50) },
            1 => Op::FamInit { f, c: fam_c(r), panic: panics && r.pct(30), yields: r.below(3) as u8, alias: r.pct(10) },
            2 => Op::FamGet { f },
            3 => Op::FamExists { f },
            _ => Op::FamSystem { f, api: r.below(3) as u8 } } }
        6 => Op::Store { text: store_text(r), sym_fail: if r.pct(30) { Some(r.below(4) as u32) } else { None }, prod_fail: r.pct(20), real_sym: r.pct(60), transform: false },
        _ => Op::Render { p: r.below(plants), w: 100, h: 100 },
    }
}
fn gen_c08(r: &mut Rng, _th: bool) -> Ops {
    let n = r.range(2, 5);
    let names = prod_names(r, n);
    let k = r.range(1, 3);
    let heads = gen_heads(r, n, k, 25);
    let (systems, fams) = (r.range(1, 2), r.range(1, 2));
    let t = crowd(r, 7, 18).unwrap_or_else(|| r.range(2, 6));
    let maxbody = r.range(1, 3);
    let panics = r.pct(25);
    let plants = if r.pct(30) { vec![gen_plant(r, 40, PlantKind::Plain).join("\n")] } else { vec![] };
    let np = plants.len();
    let w = swarm(r, [30, 15, 6, 6, 4, 12, 4, if np > 0 { 3 } else { 0 }]);
    let w = if w.iter().enumerate().all(|(i, x)| i == 7 || *x == 0) { [30, 15, 6, 6, 4, 12, 4, 0] } else { w };
    let most = if r.pct(10) { 14 } else { 6 };
    let threads = split(r, t, 1, most, |r, _| mixed_op(r, n, systems, fams, np, &heads, maxbody, panics, &w));
    // now and then a rule that cannot be applied, so that derivations fail
    let mut setup = vec![];
    if r.pct(15) { for _ in 0..2 { setup.push(Op::AddProd { sys: 0, p: PSpec { pre: None, target: 0, post: None, body: vec![r.below(n)], chance: Some(700), more: vec![] }, conv: Conv::Value }) } }
    Ops { names, systems, fams, plants, setup, threads, ..ops() }
}

// ------------------------------------------------------------------ stores that fail
fn store_text(r: &mut Rng) -> String {
    let w = |r: &mut Rng| r.pick(&["A", "B", "C", "F", "+", "[", "]", "X1", "leaf", "é", "q;q"]).to_string();
    if r.pct(14) {
        return r.pick(&["", "  ", "A", "A B -> C", "-> A", "A -> 0 B", "A -> 1.5 B", "A -> -0.5 B", "A -> NaN B", "A > B < C -> D", "A < -> B", "< > -> A", "A - > B", "A -> 2", "A < B < C -> D", "\u{3000} -> A"]).to_string()
    }
    let sep = |r: &mut Rng| r.pick(&[" ", " ", " ", "  ", "\t", " \t "]).to_string();
    let mut s = String::new();
    if r.pct(10) { s.push_str("  ") }
    let ctx = if r.pct(4) { 12 } else { 2 };
    if r.pct(35) { for _ in 0..r.range(0, ctx) { s += &w(r); s += &sep(r); } s += "<"; s += &sep(r); }
    s += &w(r);
    if r.pct(35) { s += &sep(r); s += ">"; for _ in 0..r.range(0, ctx) { s += &sep(r); s += &w(r); } }
    s += &if r.pct(80) { sep(r) } else { String::new() };
    s += "->";
    s += &if r.pct(80) { sep(r) } else { String::new() };
    if r.pct(25) { s += r.pick(&["0.5", "1", ".25", "1e-3", "0.999999", "+0.5", "1.0"]); s += " "; }
    let most = if r.pct(3) { *r.pick(&[20, 70, 300, 1100]) } else { 5 };
    for _ in 0..r.range(0, most) { s += &w(r); s += &sep(r); }
    s
}
fn gen_c13(r: &mut Rng, _th: bool) -> Ops {
    let t = r.weighted(&[0, 40, 40, 20]);
    let threads = split(r, t, 2, 7, |r, _| Op::Store {
        text: store_text(r), sym_fail: if r.pct(40) { Some(if r.pct(5) { r.below(60) } else { r.below(7) } as u32) } else { None }, prod_fail: r.pct(25), real_sym: r.pct(40), transform: r.pct(30) });
    Ops { systems: 1, threads, ..ops() }
}

// ------------------------------------------------------------------ plants
#[derive(Clone, Copy, PartialEq)]
pub enum PlantKind {
    /// deterministic and well-formed
    Plain,
    /// may have several bodies per head, mistakes, odd spacing
    Any,
}
const CLASSIC: [&[&str]; 5] = [
    &["n=3", "delta = 25.7", "initial: Forward", "Forward -> Forward [ + Forward ] Forward [ - Forward ] Forward"],
    &["n = 3", "d = 22.5", "Forward -> Forward Forward - [ - Forward + Forward + Forward ] + [ + Forward - Forward - Forward ]", "initial: Forward"],
    &["# comment", "", "n = 4", "delta = 20", "", "initial: X", "X -> Forward [ + X ] Forward [ - X ] + X", "Forward -> Forward Forward"],
    &["N=4", "∂ = 90", "initial: Forward - Forward - Forward - Forward", "Forward -> Forward - Forward + Forward"],
    &["n=6", "d=60", "L -> Forward - R - Forward", "R -> Forward + L + Forward", "initial: L Move L"],
];
pub fn gen_plant(r: &mut Rng, max_len: usize, kind: PlantKind) -> Vec<String> {
    if r.pct(12) {
        let mut v: Vec<String> = r.pick(&CLASSIC).iter().map(|s| s.to_string()).collect();
        fit_iterations(&mut v, max_len);
        return v
    }
    let turtle = ["Forward", "Move", "+", "-", "X", "Forward", "+", "-"];
    let own: Vec<String> = (0..r.range(0, 3)).map(|_| r.pick(&["A", "B", "L", "R", "Y", "leaf", "é", "F1", "名", "A", "B", "p//q", "a;b", "(", "F'", "n", "x:y", "\"", "%", "/*", "forward", "move"]).to_string()).collect();
    let sym = |r: &mut Rng| if !own.is_empty() && r.pct(25) { r.pick(&own).clone() } else { r.pick(&turtle).to_string() };
    fn body(r: &mut Rng, sym: &dyn Fn(&mut Rng) -> String, n: usize, depth: usize, unbalanced: bool) -> Vec<String> {
        let mut v = vec![];
        for _ in 0..n {
            if depth < 3 && r.pct(18) {
                v.push("[".to_string());
                let k = r.range(0, 3);
                v.extend(body(r, sym, k, depth + 1, unbalanced));
                v.push("]".to_string());
            } else if unbalanced && r.pct(6) { v.push(r.pick(&["]", "["]).to_string()) }
            else { v.push(sym(r)) }
        }
        v
    }
    let any = kind == PlantKind::Any;
    let unbalanced = any && r.pct(10);
    let mut lines: Vec<String> = vec![];
    let eq = |r: &mut Rng| r.pick(&["=", " = ", "= ", " =", "  =  "]).to_string();
    let n = if r.pct(4) { *r.pick(&[12, 20, 40, 70, 130, 260, 600]) } else { *r.pick(&[0, 1, 2, 3, 4, 5, 7]) };
    let mut has_n = false;
    if r.pct(90) { lines.push(format!("{}{}{}", r.pick(&["n", "N"]), eq(r), n)); has_n = true; }
    if r.pct(85) {
        let v = match r.below(6) { 0 => "90".to_string(), 1 => "60".into(), 2 => "25.7".into(), 3 => "-22.5".into(), 4 => "0".into(), _ => format!("{}.{}", r.below(360), r.below(1000)) };
        let mut v = v;
        if any && r.pct(8) { v = r.pick(&["1e3", "45e-1", "inf", "NaN", "abc", "", "1e39", "3,5", "0x10", "3.4028235e38", "-3.4e38", "1e-45", "16777217", "-0", "+7.5", ".5", "1_0", "infinity"]).to_string(); }
        if r.pct(4) {
            // Right next to the middle of two neighbouring values, so that rounding twice shows.
            let x = f32::from_bits((r.range(1, 179) as f32 + r.below(1000) as f32 / 1000.0).to_bits() & !1);
            let mid = (x as f64 + f32::from_bits(x.to_bits() + 1) as f64) / 2.0;
            v = format!("{mid:.40}{}", r.pick(&["0001", "", "9"]));
            if r.pct(30) { let y = (x as f64 + f32::from_bits(x.to_bits() - 1) as f64) / 2.0; v = format!("{y:.30}{:0<30}1", ""); }
        }
        lines.push(format!("{}{}{}", r.pick(&["d", "D", "delta", "∂"]), eq(r), v));
    }
    let len = *r.pick(&[0, 1, 1, 1, 2, 3, 5, 8]);
    let mut init = body(r, &sym, len, 0, unbalanced);
    if any && r.pct(4) { init.push(r.pick(&["; tail", "->", "<", ">", ";"]).to_string()) }
    let gap = |r: &mut Rng| r.pick(&[" ", " ", " ", "  ", "\t"]).to_string();
    let mut initial = format!("initial:{}{}", gap(r), init.join(&gap(r)));
    if r.pct(10) { initial = format!("initial:{}", init.join(" ")); }
    lines.push(initial);
    let mut heads: Vec<String> = vec![];
    let lo = if any && r.pct(4) { 0 } else { 1 };
    for _ in 0..r.range(lo, 4) {
        let t = sym(r);
        let mut h = String::new();
        if r.pct(20) { h += &(0..r.range(1, 2)).map(|_| sym(r)).collect::<Vec<_>>().join(" "); h += " < "; }
        h += &t;
        if r.pct(20) { h += " > "; h += &(0..r.range(1, 2)).map(|_| sym(r)).collect::<Vec<_>>().join(" "); }
        if heads.contains(&h) && !any { continue }
        heads.push(h.clone());
        let bl = r.range(0, 6);
        let b = body(r, &sym, bl, 0, unbalanced);
        let mut chance = String::new();
        if r.pct(8) { chance = r.pick(&["0.5 ", "1 ", "0.25 ", "1.0 "]).to_string() }
        if any && r.pct(4) { chance = r.pick(&["0 ", "1.1 ", "-1 ", "nan ", "1.0000001 ", "1.00000001 ", "1.0000002 ", "-0 ", "1e-46 ", "1e-40 ", "inf ", "-inf ", "1e39 ", "2 ", "0.0 ", "+1 ", "1. ", ".5 ", "1e0 ", "0.99999999 "]).to_string() }
        let arrow = if r.pct(90) { " -> " } else { "->" };
        lines.push(format!("{h}{arrow}{chance}{}", b.join(&gap(r))));
        if any && r.pct(12) { let b2 = body(r, &sym, 2, 0, false); lines.push(format!("{h} -> {}", b2.join(" "))); }
    }
    if heads.is_empty() && !any { lines.push("Forward -> Forward".into()) }
    // order, comments, blank lines
    if r.pct(50) { for i in (1..lines.len()).rev() { let j = r.below(i + 1); lines.swap(i, j); } }
    let mut out = vec![];
    for l in lines {
        if r.pct(10) { out.push(r.pick(&["", "   ", "# a comment", "\t# n = 9", "#", "  # X -> Y"]).to_string()) }
        let mut l = l;
        if r.pct(10) { l += r.pick(&[" # remark", "#x -> y", "  ", "\t", "# = ", " #initial: Q"]) }
        if r.pct(8) { l = format!("{}{l}", r.pick(&["  ", "\t", " "])) }
        out.push(l);
    }
    if any && r.pct(6) {
        let bad = r.pick(&["A B -> C", "nonsense", "q = 3", "n = -1", "n = 1.5", "n =", "n = 99999999999999999999", "-> x", "initial", "initial : X", "Initial: X", "= 3", "delta: 5", "x -> y = z", "n=2=3", "N = 3 # ok", "d = 1 2", "Delta = 9", "DELTA=4", "nn = 3", "D elta = 3", "n : 3", "n 3", "initial; X", "init: X", "INITIAL: X", "initial= X", "\"n\" = 3", "n = 3;", "d = 5°", "// X", "; X", "axiom: X", "n = 3 4", "n = 0x3", "n = 3f", "n = 1_0", "n = 1e1", "n = ３", "n = 2.0", "n = 4u", "n = 3u32", "d = 22_5", "d = 1,5", "d = 0x1p3", "d = 22.5f", "d = ９０", "n = 0b1", "n = 0o7", "n = ++2", "n = - 1", "n = 1 0", "d = 1__0", "d = 5f32", "d = 1e", "n = +", "x => y", "X → Y", "X ->", "X - > Y"]).to_string();
        let at = r.below(out.len() + 1);
        out.insert(at, bad);
    }
    let _ = has_n;
    fit_iterations(&mut out, max_len);
    out
}
/// Lowers the iteration count until the derived string is at most `max_len` symbols long.
pub fn fit_iterations(lines: &mut Vec<String>, max_len: usize) {
    loop {
        let Some(p) = model::parse_plant(lines.join("\n").as_bytes()) else { return };
        if bound_len(&p.rules, &p.initial, p.n, max_len as f64).is_some() { return }
        if p.n == 0 { lines.retain(|l| !l.trim_start().starts_with("initial:")); lines.push("initial: X".into()); if p.initial.len() <= 1 { return } continue }
        lines.retain(|l| { let t = l.trim_start(); !(t.contains('=') && (t.starts_with('n') || t.starts_with('N'))) });
        lines.push(format!("n = {}", if p.n > 60 { p.n - p.n / 6 } else { p.n - 1 }));
    }
}
/// An upper bound of the length of what `iters` iterations give, if it is at most `max`.
pub fn bound_len(rules: &model::Rules<String>, initial: &[String], iters: usize, max: f64) -> Option<f64> {
    use std::collections::BTreeMap;
    let mut alts: BTreeMap<&str, Vec<&[String]>> = BTreeMap::new();
    let mut plain: BTreeMap<&str, bool> = BTreeMap::new();
    for (h, bs) in &rules.0 {
        for b in bs { alts.entry(&h.target).or_default().push(&b.syms) }
        if h.pre.is_none() && h.post.is_none() { plain.insert(&h.target, true); }
    }
    let mut count: BTreeMap<&str, f64> = BTreeMap::new();
    for s in initial { *count.entry(s).or_insert(0.0) += 1.0 }
    let mut total = initial.len() as f64;
    if total > max { return None }
    for i in 0..iters {
        let mut next: BTreeMap<&str, f64> = BTreeMap::new();
        for (s, k) in &count {
            let mut most: BTreeMap<&str, f64> = BTreeMap::new();
            if !plain.contains_key(s) { most.insert(s, 1.0); }
            for a in alts.get(s).into_iter().flatten() {
                let mut c: BTreeMap<&str, f64> = BTreeMap::new();
                for x in a.iter() { *c.entry(x).or_insert(0.0) += 1.0 }
                for (x, v) in c { let e = most.entry(x).or_insert(0.0); if v > *e { *e = v } }
            }
            for (x, v) in most { *next.entry(x).or_insert(0.0) += v * k }
        }
        total = next.values().sum();
        if total > max { return None }
        if next == count { break }
        count = next;
        if i > 5000 { return None }
    }
    Some(total)
}
/// Adds many rules, or a long starting string, or a long rule, which the others do not have.
fn long_plant(r: &mut Rng, lines: &mut Vec<String>, max_len: usize) {
    let word = |r: &mut Rng| r.pick(&["Forward", "+", "-", "Move", "X", "Forward"]).to_string();
    let what = r.below(8);
    if what >= 4 {
        let k = if r.pct(30) { max_len } else { *r.pick(&[130, 300, 600, 1100, 2100, 4200]).min(&max_len) };
        let v: Vec<&str> = match what {
            4 => (0..k).map(|_| if r.pct(70) { "Forward" } else { *r.pick(&["+", "-"]) }).collect(), // one long line
            5 => (0..k / 2).flat_map(|_| if r.pct(85) { ["Forward", "Move"] } else { ["Forward", "+"] }).collect(), // many short ones
            6 => { // branches within branches, each with something to draw before and after
                let d = if r.pct(40) { k / 5 } else { *r.pick(&[9, 17, 33, 65, 130, 260, 520]).min(&(k / 5)) };
                let mut v = vec![];
                for _ in 0..d { v.extend(["Forward", "[", *r.pick(&["+", "-"])]) }
                for _ in 0..d { v.extend(["]", "Forward"]) }
                v
            }
            _ => (0..k / 4).flat_map(|_| ["[", *r.pick(&["+", "-"]), "Forward", "]"]).collect(), // many branches from one place
        };
        lines.retain(|l| !l.trim_start().starts_with("initial:"));
        lines.push(format!("initial: {}", v.join(" ")));
        if r.pct(60) { lines.retain(|l| !l.trim_start().starts_with(['n', 'N'])); lines.push("n = 0".into()); }
    }
    if what == 0 || what == 3 {
        let m = *r.pick(&[17, 40, 70, 130, 300]);
        for i in 0..m { let at = r.below(lines.len() + 1); lines.insert(at, format!("R{i} -> R{} {}", (i + 1) % m, if i % 7 == 0 { word(r) } else { String::new() })); }
        if let Some(l) = lines.iter_mut().find(|l| l.starts_with("initial:") && !l.contains('#')) { *l = format!("{l} R0 R{}", m - 1) }
    }
    if what == 1 || what == 3 {
        let k = *r.pick(&[130, 260, 520, 1030, 2100, 4100]).min(&max_len);
        lines.retain(|l| !l.trim_start().starts_with("initial:"));
        let mut open = 0;
        let mut v: Vec<String> = vec![];
        for _ in 0..k { if r.pct(4) { open += 1; v.push("[".into()) } else if open > 0 && r.pct(5) { open -= 1; v.push("]".into()) } else { v.push(word(r)) } }
        lines.push(format!("initial: {}", v.join(" ")));
    }
    if what == 2 {
        let k = *r.pick(&[33, 70, 130, 300, 1100]).min(&max_len);
        let b: Vec<String> = (0..k).map(|_| word(r).replace('X', "Y")).collect();
        lines.push(format!("Long -> {}", b.join(" ")));
        if let Some(l) = lines.iter_mut().find(|l| l.starts_with("initial:") && !l.contains('#')) { *l = format!("{l} Long") }
    }
    fit_iterations(lines, max_len);
}
/// Rules without contexts under which the string gets about as long as it may.
fn grow_plant(r: &mut Rng, max_len: usize) -> Vec<String> {
    let rules: &[&str] = r.pick(&[&["Forward -> Forward + Forward - Forward"] as &[&str], &["Forward -> Forward Forward"], &["X -> Forward [ + X ] X", "Forward -> Forward Forward"],
        &["L -> L Forward R", "R -> - L Forward", "Forward -> Forward"], &["Forward -> Forward - [ Forward ] + Move", "Move -> Move Forward"], &["X -> X + Forward X", "Forward -> Forward"], &["Forward -> Forward Move Forward", "Move -> Move"], &["X -> X [ Forward ] X"], &["Forward -> Move Forward Forward Move"]]);
    let mut v: Vec<String> = rules.iter().map(|s| s.to_string()).collect();
    v.push(format!("delta = {}", r.pick(&["90", "60", "25.7", "1", "3.25"])));
    v.push(format!("initial: {}", rules[0].split(' ').next().unwrap()));
    v.push("n = 40".into());
    fit_iterations(&mut v, max_len);
    v
}
/// A plant that differs from the given one in one respect only.
fn near_plant(r: &mut Rng, of: &str, max_len: usize) -> Option<String> {
    let mut lines: Vec<String> = of.lines().map(|l| l.to_string()).collect();
    let drop = |lines: &mut Vec<String>, what: &[&str]| lines.retain(|l| !what.iter().any(|w| l.trim_start().starts_with(w)));
    let p = model::parse_plant(of.as_bytes())?;
    match r.below(5) {
        0 | 1 => { drop(&mut lines, &["d", "D", "∂"]); let d = if r.pct(50) { p.delta + *r.pick(&[1.0, -1.0, 0.25, 90.0]) } else { -p.delta }; lines.insert(0, format!("delta = {d}")) }
        2 => { drop(&mut lines, &["n", "N"]); lines.insert(0, format!("n = {}", if p.n > 0 && r.pct(60) { p.n - 1 } else { p.n + 1 })) }
        3 => { let l = lines.iter_mut().find(|l| l.trim_start().starts_with("initial:") && !l.contains('#'))?; *l = format!("{l} {}", r.pick(&["Forward", "+", "- Forward", "X", "Move"])) }
        _ => { let l = lines.iter_mut().find(|l| l.contains("->") && !l.contains('#'))?; *l = format!("{l} {}", r.pick(&["Forward", "+", "- Forward", "X", "Move"])) }
    }
    fit_iterations(&mut lines, max_len);
    let q = model::parse_plant(lines.join("\n").as_bytes())?;
    if q.rules.0.iter().any(|(_, b)| b.iter().any(|x| x.syms != b[0].syms)) { return None }
    Some(lines.join("\n"))
}
fn gen_c12(r: &mut Rng, _th: bool) -> Ops {
    let big = r.pct(3);
    let np = if big { 1 } else { r.range(1, 2) };
    let len = if big { *r.pick(&[400, 1500, 4500, 12_000]) } else { *r.pick(&[20, 60, 150]) };
    let plants: Vec<String> = (0..np).map(|_| loop {
        if big && r.pct(8) { let most = *r.pick(&[20_000, 40_000, 70_000, 140_000]); break grow_plant(r, most).join("\n") }
        let mut lines = gen_plant(r, len, PlantKind::Plain);
        if big && r.pct(70) { long_plant(r, &mut lines, len) }
        let v = lines.join(r.pick(&["\n", "\n", "\r\n"]));
        let Some(p) = model::parse_plant(v.as_bytes()) else { if r.pct(90) { continue } else { break v } };
        if p.rules.0.iter().any(|(_, b)| b.iter().any(|x| x.syms != b[0].syms) ) { continue }
        break v
    }).collect();
    let mut plants = plants;
    if np == 2 && r.pct(50) { if let Some(v) = near_plant(r, &plants[0], len) { plants[1] = v } }
    let n = 3;
    let mut names = prod_names(r, n);
    if r.pct(40) { names[0] = "-".into(); trimmed_distinct(&mut names); }
    let n = names.len();
    let heads = gen_heads(r, n, 2, 20);
    let t = r.range(1, 3);
    const CANVAS: [(usize, usize); 10] = [(500, 500), (500, 500), (100, 40), (1, 1), (40, 900), (0, 10), (1920, 1080), (3, 100000), (65536, 65537), (123456789, 7)];
    let one = r.pct(75);
    let size = *r.pick(&CANVAS);
    let mut threads = split(r, t, 1, 2, |r, _| { let (w, h) = if one { size } else { *r.pick(&CANVAS) }; Op::Render { p: r.below(np), w, h } });
    let noisy = r.below(3);
    for _ in 0..noisy {
        threads.push((0..r.range(2, 8)).map(|_| match r.weighted(&[30, 20, 20, 10, 10]) {
            0 => Op::Code { n: r.below(n), ws: 0, api: 0 },
            1 => Op::Bulk { base: 1, from: r.below(5) as u32, count: r.range(1, 30) as u32 },
            2 => Op::AddProd { sys: 0, p: gen_pspec(r, &heads, n, 3), conv: Conv::Value },
            3 => Op::FamInit { f: 1, c: fam_c(r), panic: false, yields: 2, alias: false },
            _ => Op::FamSystem { f: 0, api: 1 },
        }).collect());
    }
    let mut setup: Vec<Op> = vec![];
    if r.pct(30) { setup.push(Op::Bulk { base: 2, from: 0, count: r.range(1, 60) as u32 }) }
    else if r.below(330) == 0 { setup.push(Op::Bulk { base: 2, from: 0, count: r.range(1000, 9000) as u32 }) }
    if r.pct(30) { let at = r.below(setup.len() + 1); setup.insert(at, Op::Code { n: 0, ws: 0, api: 0 }) }
    Ops { names, systems: 1, fams: 2, plants, setup, threads, twin: true, ..ops() }
}

// ------------------------------------------------------------------ random choice
fn gen_c05(r: &mut Rng, _th: bool) -> Stoch {
    if r.below(250) == 0 { // chances so small that only very many draws show them
        let mut chances: Vec<Option<u32>> = (0..r.range(1, 2)).map(|_| Some(*r.pick(&[300, 500, 900, 1200, 3000]))).collect();
        if r.pct(50) { chances.push(None) } else { let left = 1_000_000 - chances.iter().flatten().sum::<u32>(); chances.push(Some(left)) }
        if r.pct(50) { chances.reverse() }
        return Stoch { chances, threads: r.range(1, 2), width: 500, calls: 400, iters: 1, api: r.below(4) as u8, stats: true, stay: false, erase: None, warm: r.pct(40), over: None, noise: 0, unit: 1_000_000 }
    }
    let plain = |r: &mut Rng, chances, unit| Stoch { chances, threads: r.weighted(&[0, 40, 35, 25]), width: *r.pick(&[1, 2, 5, 40]), calls: *r.pick(&[3, 10, 30]), iters: 1, api: r.below(4) as u8, stats: false, stay: false, erase: None, warm: false, over: None, noise: r.below(2), unit };
    if r.below(60) == 0 { // above one by a little
        let k = r.range(2, 6);
        let mut left = 1_000_000;
        let mut chances: Vec<Option<u32>> = (0..k).map(|i| { let c = if i + 1 == k { left } else { 1 + r.below((left as usize - k + i) / 2) as u32 }; left -= c; Some(c) }).collect();
        let i = r.below(k);
        chances[i] = chances[i].map(|c| c + *r.pick(&[20, 50, 100, 200, 500, 900]));
        if r.pct(30) { chances.insert(r.below(k), None) }
        return Stoch { warm: r.pct(20), ..plain(r, chances, 1_000_000) }
    }
    if r.below(60) == 0 { // exactly one, in very many parts
        let n = *r.pick(&[50usize, 100, 125, 200, 250, 500]);
        let mut chances: Vec<Option<u32>> = vec![Some(1_000_000 / n as u32); n];
        for _ in 0..if r.pct(50) { n } else { 0 } {
            let (i, j) = (r.below(n), r.below(n));
            let d = r.below(chances[i].unwrap() as usize) as u32;
            chances[i] = chances[i].map(|c| c - d);
            chances[j] = chances[j].map(|c| c + d);
        }
        if r.pct(60) { chances.insert(r.below(n + 1), None) }
        return plain(r, chances, 1_000_000)
    }
    let k = r.weighted(&[0, 10, 35, 30, 15, 6, 4]);
    let mut chances: Vec<Option<u32>> = vec![];
    match r.below(7) {
        0 => chances = vec![None; k],
        1 => { // exactly one, all set
            let mut left = 1000;
            for i in 0..k { let c = if i + 1 == k { left } else { 1 + r.below((left - (k - i) as u32) as usize) as u32 }; chances.push(Some(c)); left -= c; }
        }
        2 => { // exactly one, with bodies that have no share
            let kk = k.max(2);
            let set = r.range(1, kk - 1);
            let mut left = 1000;
            for i in 0..set { let c = if i + 1 == set { left } else { 1 + r.below((left - (set - i) as u32) as usize) as u32 }; chances.push(Some(c)); left -= c; }
            for _ in set..kk { chances.push(None) }
            for i in (1..chances.len()).rev() { let j = r.below(i + 1); chances.swap(i, j); }
        }
        3 => for _ in 0..k { chances.push(if r.pct(40) { None } else { Some(r.range(1, 900 / k) as u32) }) },
        4 => for _ in 0..k.max(2) { chances.push(Some(r.range(1, 1000) as u32)) },
        5 => for _ in 0..k.max(2) { chances.push(if r.pct(50) { None } else { Some(*r.pick(&[100, 200, 250, 300, 333, 334, 500, 600, 700, 900, 1000])) }) },
        _ if r.pct(40) => { // many bodies
            let n = *r.pick(&[9, 12, 16, 17, 24, 33]);
            for i in 0..n { chances.push(if i > 0 && r.pct(40) { Some(r.range(1, 1000 / n) as u32) } else { None }) }
            if r.pct(50) { chances.reverse() }
        }
        _ => { let n = *r.pick(&[3, 7, 10]); for _ in 0..n { chances.push(Some(1000 / n)) } if n == 10 && r.pct(50) { chances.push(None) } }
    }
    let stats = r.pct(75);
    if r.pct(12) && chances.len() > 1 {
        return Stoch { chances, threads: r.weighted(&[0, 40, 35, 25]), width: *r.pick(&[1, 1, 1, 2, 3]), calls: if stats { 400 } else { 20 }, iters: *r.pick(&[1, 2, 2, 3, 4, 5, 8]), api: r.range(1, 2) as u8, stats,
            stay: true, erase: None, warm: r.pct(40), over: None, noise: r.weighted(&[60, 25, 15]), unit: 0 }
    }
    let erase = if r.pct(12) { Some(r.below(chances.len())) } else { None };
    let st = Stoch {
        chances, threads: r.weighted(&[0, 40, 35, 25]), width: *r.pick(&[1, 1, 2, 5, 40, 120, 200]), calls: if stats { *r.pick(&[20, 60, 200, 400]) } else { *r.pick(&[3, 10, 30]) },
        iters: *r.pick(&[1, 1, 1, 2, 8, 30]), api: r.below(4) as u8, stats,
        stay: false, erase, warm: r.pct(40), over: match r.below(6) { 0 => Some(true), 1 | 2 => Some(false), _ => None }, noise: r.weighted(&[60, 25, 15]), unit: 0,
    };
    if erase.is_some() { Stoch { width: 1, iters: 1, calls: if stats { 400 } else { 30 }, ..st } } else { st }
}

// ------------------------------------------------------------------ files
fn io_faults(r: &mut Rng, kinds: &[u16], calls: usize, len: usize) -> Vec<IoF> {
    let mut v: Vec<IoF> = vec![];
    if kinds.is_empty() { return v }
    for _ in 0..r.weighted(&[10, 40, 25, 15, 10]) {
        v.push(IoF { idx: r.below(calls) as u32, kind: *r.pick(kinds), arg: match r.below(4) { 0 => r.below(4) as u32, 1 => r.below(len + 2) as u32, 2 => (r.below(8) as u32) << 8 | r.below(len + 1) as u32, _ => 1 } });
    }
    // A whole storm of interruptions or of tiny transfers.
    if r.pct(12) {
        let k = *r.pick(&[FK_EINTR, FK_SHORT]);
        let from = r.below(5); // opening takes all that come first
        if kinds.contains(&k) { for i in from..from + r.range(4, 40) { if v.len() < 60 { v.push(IoF { idx: i as u32, kind: k, arg: r.range(1, 9) as u32 }) } } }
    }
    v
}
const READ_HARD: [u16; 8] = [FK_EIO, FK_EACCES, FK_EMFILE, FK_ENOENT, FK_EISDIR, FK_ESTALE, FK_ERRNO, FK_ERRNO];
const READ_SOFT: [u16; 4] = [FK_EINTR, FK_SHORT, FK_SIZELIE, FK_STATFAIL];
const READ_EXT: [u16; 3] = [FK_EXT_TRUNC, FK_EXT_APPEND, FK_EXT_FLIP];
const WRITE_HARD: [u16; 11] = [FK_EIO, FK_ENOSPC, FK_EDQUOT, FK_EACCES, FK_EMFILE, FK_EISDIR, FK_WRITE0, FK_EROFS, FK_ESTALE, FK_ERRNO, FK_ERRNO];
const WRITE_SOFT: [u16; 2] = [FK_EINTR, FK_SHORT];

fn gen_edits(r: &mut Rng, n: usize) -> Vec<Edit> {
    (0..n).map(|_| {
        let at = r.below(1 << 16) as u32;
        let len = *r.pick(&[1, 1, 2, 4, 8, 16, 64, 512]);
        match r.below(9) {
            0 => Edit::Flip { at, bit: r.below(8) as u8 },
            1 => Edit::Set { at, val: *r.pick(&[0, b'\n', b'\r', b' ', b'[', b']', b'-', b'>', b'<', b';', b'=', b'#', b'9', 0xff, 0xc3, 0x80, b'e', b':']) },
            2 => Edit::Cut { at, len },
            3 => Edit::Zero { at, len },
            4 => Edit::Dup { at, len },
            5 => Edit::Swap { at, with: r.below(1 << 16) as u32, len },
            6 => Edit::Trunc { at },
            7 => Edit::Ins { at, bytes: r.pick(&["]", "[", "\n", " ", "->", " < ", " > ", ";", "=", "n=3\n", "∂=1\n", "initial: ]\n", "initial:\n", "1e38", "inf", "nan", "-", "\u{feff}", "\u{3000}", "\u{85}", "0.5 ", "0 ", "# ", "X -> ] X\n", "Move -> \n", "Forward -> Forward Forward\n"]).as_bytes().to_vec() },
            _ => Edit::Flip { at, bit: 5 },
        }
    }).collect()
}
/// Adds white space and separators that stay within the format.
fn pad(r: &mut Rng, lines: &mut Vec<String>) {
    if r.below(300) == 0 { let big = format!("# {}", "padding ".repeat(*r.pick(&[8_300, 40_000, 140_000]))); let at = r.below(lines.len() + 1); lines.insert(at, big); }
    if r.pct(8) { let big = format!("# {}", "padding ".repeat(*r.pick(&[20, 600, 3000]))); let at = r.below(lines.len() + 1); lines.insert(at, big); }
    if r.pct(5) { lines.insert(0, "\u{3000}".into()) }
    else if r.pct(2) { if let Some(l) = lines.first_mut() { l.insert(0, '\u{feff}') } }
    if r.pct(12) {
        // Characters of several bytes, at every alignment, up to and across the sizes of the usual buffers.
        let c = *r.pick(&["\u{e9}", "\u{540d}", "\u{1f331}", "\u{2202}x", "a\u{e9}\u{540d}\u{1f331}"]);
        let big = format!("#{}{}", "x".repeat(r.below(4)), c.repeat(*r.pick(&[3, 20, 200, 1500, 4000])));
        let at = r.below(lines.len() + 1);
        lines.insert(at, big);
    }
    if r.pct(10) { lines.push(String::new()) }
}
/// Iteration counts that are only read, never used.
fn odd_n(r: &mut Rng, lines: &mut Vec<String>) {
    let is_n = |l: &String| l.trim_start().strip_prefix(['n', 'N']).is_some_and(|t| t.trim_start().starts_with('='));
    let v = *r.pick(&["255", "256", "300", "1000", "32768", "65535", "65536", "70001", "2147483648", "4294967295", "4294967296", "9223372036854775808", "18446744073709551615", "18446744073709551616", "007", "+3", "+0", "-0", "00000000000000000000000000000000000000012", "10", "12"]);
    match lines.iter().position(is_n) {
        Some(i) => lines[i] = format!("{}{v}{}", r.pick(&["n =", "n=", "N = "]), r.pick(&["", " ", " # n"])),
        None => lines.push(format!("n = {v}")),
    }
}
fn gen_c09(r: &mut Rng, _th: bool) -> (FileSc, Vec<IoF>, i64) {
    let mut lines = gen_plant(r, 60, PlantKind::Any);
    if r.pct(4) { long_plant(r, &mut lines, 4200) }
    if r.pct(8) { odd_n(r, &mut lines) }
    pad(r, &mut lines);
    let len: usize = lines.iter().map(|l| l.len() + 1).sum();
    let edits = if r.pct(20) { let k = r.range(1, 3); gen_edits(r, k) } else { vec![] };
    let kinds: Vec<u16> = match r.below(6) {
        0 => vec![],
        1 | 2 => READ_SOFT.to_vec(),
        3 => READ_EXT.iter().chain(&READ_SOFT).copied().collect(),
        4 => READ_HARD.to_vec(),
        _ => READ_HARD.iter().chain(&READ_EXT).chain(&READ_SOFT).copied().collect(),
    };
    let at = *r.pick(&[4, 6, 10]);
    let io = io_faults(r, &kinds, at, len);
    (FileSc { mode: FileMode::Parse, lines, eol: r.pick(&["\n", "\n", "\n", "\r\n"]).to_string(), edits, w: 100, h: 100, old: None, repeat: 1, missing: if r.pct(6) { r.range(1, 3) as u8 } else { 0 }, path: path_of(r) }, io, -1)
}
/// Threads that read (C09) or save (C10) at the same time.
fn gen_many(r: &mut Rng, save: bool) -> (ManySc, Vec<IoF>, i64) {
    let np = r.range(1, 4);
    let mut plants: Vec<Vec<String>> = vec![];
    for _ in 0..np {
        let kind = if save || r.pct(60) { PlantKind::Plain } else { PlantKind::Any };
        let mut v = if !plants.is_empty() && r.pct(40) { near_plant(r, &plants[0].join("\n"), 60).map(|t| t.lines().map(String::from).collect()).unwrap_or_default() } else { vec![] };
        if v.is_empty() { v = gen_plant(r, if save { 200 } else { 60 }, kind) }
        // The same length, so that size alone does not tell them apart.
        if r.pct(30) { let (a, b) = (v.join("\n").len(), plants.first().map_or(0, |p| p.join("\n").len())); if a < b { v.push(format!("#{}", "x".repeat(b - a).chars().skip(2).collect::<String>())) } }
        plants.push(v);
    }
    let t = r.range(1, 3);
    let threads: Vec<Vec<FOp>> = (0..t).map(|_| {
        let mut v = vec![FOp::Put { file: 0, plant: r.below(np), edits: vec![] }];
        if r.pct(40) { v.push(FOp::Put { file: 1, plant: r.below(np), edits: vec![] }) }
        for _ in 0..r.range(1, 5) {
            let file = r.weighted(&[60, 20, 20]) as u8;
            match r.weighted(&if save { [10, 5, 0, 60, 20] } else { [25, 60, 4, 8, 1] }) {
                0 => { let edits = if r.pct(25) { gen_edits(r, 1) } else { vec![] }; v.push(FOp::Put { file: file % 2, plant: r.below(np), edits }) }
                1 => v.push(FOp::Parse { file }),
                2 => v.push(FOp::Remove { file: file % 2 }),
                3 => { let (w, h) = *r.pick(&[(500, 500), (100, 40), (640, 480)]); v.push(FOp::Save { plant: r.below(np), w, h, out: r.pct(25) as u8 }) }
                _ => v.push(FOp::Spoil { out: r.pct(20) as u8, how: r.below(5) as u8 })
            }
        }
        // The same again: saved, changed by another process, saved; or saved to two places.
        if save && r.pct(40) {
            let i = r.below(v.len());
            if let Some(FOp::Save { plant, w, h, out }) = v[i..].iter().find(|o| matches!(o, FOp::Save { .. })).cloned() {
                if r.pct(50) { v.push(FOp::Spoil { out, how: r.below(5) as u8 }) }
                v.push(FOp::Save { plant, w, h, out: if r.pct(70) { out } else { 1 - out } });
            }
        }
        v
    }).collect();
    let kinds: Vec<u16> = match (r.below(5), save) {
        (0 | 1, _) => vec![],
        (2, false) => READ_SOFT.to_vec(), (3, false) => READ_HARD.to_vec(), (_, false) => READ_HARD.iter().chain(&READ_EXT).chain(&READ_SOFT).copied().collect(),
        (2, true) => WRITE_SOFT.to_vec(), (_, true) => WRITE_HARD.iter().chain(&WRITE_SOFT).copied().collect(),
    };
    let at = *r.pick(&[6, 16, 40]);
    let io = io_faults(r, &kinds, at, 400);
    let free = if save && r.pct(10) { *r.pick(&[0, 500, 3000]) } else { -1 };
    (ManySc { plants, threads }, io, free)
}
fn path_of(r: &mut Rng) -> u8 { if r.pct(70) { 0 } else { r.below(crate::files::N_PATHS) as u8 } }
fn gen_c10(r: &mut Rng, _th: bool) -> (FileSc, Vec<IoF>, i64) {
    let lines = { let n = *r.pick(&[5, 60, 400, 2500]); let mut v = gen_plant(r, n, PlantKind::Plain); if r.pct(2) { long_plant(r, &mut v, 8000) } if r.below(350) == 0 { let most = if r.pct(15) { 300_000 } else { *r.pick(&[4_000, 10_000, 20_000, 40_000, 80_000]) }; v = grow_plant(r, most) } v };
    let kinds: Vec<u16> = match r.below(5) { 0 => vec![], 1 | 2 => WRITE_SOFT.to_vec(), 3 => WRITE_HARD.to_vec(), _ => WRITE_HARD.iter().chain(&WRITE_SOFT).copied().collect() };
    let at = *r.pick(&[3, 6, 12]);
    let io = io_faults(r, &kinds, at, 3000);
    let old = match r.below(6) { 5 => Some(r.pick(&["@same", "@more", "@less", "@other", "@swapped", "@twice"]).to_string()), 0 | 1 => None, 2 => Some(String::new()), 3 => Some("old ".repeat(r.range(1, 30))), _ => Some("<svg>an older and much longer picture</svg>".repeat(r.range(10, 4000))) };
    let free = if r.pct(15) { *r.pick(&[0, 1, 100, 1000, 5000, 60000]) } else { -1 };
    let (w, h) = *r.pick(&[(500, 500), (1, 1), (123, 4567)]);
    (FileSc { mode: FileMode::Save, lines, eol: "\n".into(), edits: vec![], w, h, old, repeat: r.weighted(&[0, 70, 20, 10]), missing: if r.pct(3) { 2 } else { 0 }, path: path_of(r) }, io, free)
}
/// Shapes that ordinary plants do not have: an empty starting string with any count, deep branches, long runs.
fn extreme_plant(r: &mut Rng, lines: &mut Vec<String>) {
    let drop = |lines: &mut Vec<String>, what: &[&str]| lines.retain(|l| !what.iter().any(|w| l.trim_start().starts_with(w)));
    match r.below(3) {
        0 => {
            drop(lines, &["initial:", "n", "N"]);
            lines.push(format!("n = {}", r.pick(&["18446744073709551615", "9223372036854775807", "9223372036854775808", "4294967296", "4294967295", "65536", "000000000000000000000003", "+12"])));
            lines.push(r.pick(&["initial:", "initial:   ", "initial: # nothing"]).to_string());
        }
        k => {
            drop(lines, &["initial:", "n", "N"]);
            let depth = if r.pct(4) { *r.pick(&[8_000, 35_000, 100_000]) } else { *r.pick(&[20, 64, 65, 128, 256, 300, 511, 900]) };
            let mut s = vec!["["; depth];
            if r.pct(80) { s.push("Forward"); s.push("+"); s.push("Forward"); }
            if k == 1 { s.extend(vec!["]"; depth + usize::from(r.pct(15))]) }
            lines.push(format!("initial: {}", s.join(" ")));
            lines.push("n = 0".into());
        }
    }
}
fn gen_c14(r: &mut Rng, _th: bool) -> (FileSc, Vec<IoF>, i64) {
    let mut lines = gen_plant(r, 400, PlantKind::Any);
    let mut grown = false; // large, and whole
    if r.pct(8) { extreme_plant(r, &mut lines) } else if r.pct(3) { long_plant(r, &mut lines, 5000) } else if r.below(150) == 0 { let most = *r.pick(&[10_000, 20_000, 50_000, 99_000, 99_000]); lines = grow_plant(r, most); grown = r.pct(60) }
    pad(r, &mut lines);
    if r.below(250) == 0 { // a great many lines
        let k = *r.pick(&[3_000, 20_000, 60_000]);
        let (at, with) = (r.below(lines.len() + 1), *r.pick(&["", "#", "# c", "  ", "n = 1", "delta = 3", "Forward -> Forward", "initial: Forward"]));
        let k = if with.contains("->") { k / 20 } else { k };
        lines.splice(at..at, vec![with.to_string(); k]);
    }
    let len: usize = lines.iter().map(|l| l.len() + 1).sum();
    let edits = { let k = if grown { 0 } else { r.weighted(&[4, 40, 25, 15, 10, 6]) }; gen_edits(r, k) };
    let io = if r.pct(15) { io_faults(r, &[FK_EXT_TRUNC, FK_EXT_APPEND, FK_EXT_FLIP, FK_SHORT, FK_EINTR, FK_SIZELIE], 8, len) } else { vec![] };
    let (w, h) = *r.pick(&[(500, 500), (1, 1), (0, 0), (0, 7), (1000000, 3)]);
    (FileSc { mode: FileMode::Damaged, lines, eol: r.pick(&["\n", "\n", "\r\n", "\r"]).to_string(), edits, w, h, old: None, repeat: 1, missing: 0, path: path_of(r) }, io, -1)
}
fn gen_c11(r: &mut Rng, _th: bool) -> (CliSc, Vec<IoF>, i64) {
    let lines = loop {
        let any = if r.pct(35) { PlantKind::Any } else { PlantKind::Plain };
        let n = *r.pick(&[10, 60, 400]);
        let mut v = gen_plant(r, n, any);
        if r.pct(3) { extreme_plant(r, &mut v) } else if r.pct(3) { long_plant(r, &mut v, 5000) } else if r.below(150) == 0 { let most = *r.pick(&[10_000, 20_000, 50_000, 99_000]); v = grow_plant(r, most) }
        pad(r, &mut v);
        if r.pct(2) { // a rule with too much chance, used at once or in a later iteration
            let head = *r.pick(&["Forward", "X", "+", "]"]);
            for c in [0.7, 0.6] { v.push(format!("{head} -> {c} {head} Move")) }
            if r.pct(60) { v.retain(|l| !l.trim_start().starts_with("initial:")); v.push(format!("initial: {} {head}", vec!["Forward"; *r.pick(&[1, 4, 9, 40])].join(" "))); }
        }
        // several different bodies: the picture is not determined
        if let Some(p) = model::parse_plant(v.join("\n").as_bytes()) { if p.rules.0.iter().any(|(_, b)| b.iter().any(|x| x.syms != b[0].syms) && model::Rules::<String>::total(b) <= 1.0) { continue } }
        break v
    };
    let len: usize = lines.iter().map(|l| l.len() + 1).sum();
    let edits = if r.pct(12) { let k = r.range(1, 2); gen_edits(r, k) } else { vec![] };
    let kinds: Vec<u16> = match r.below(9) {
        0 | 1 => vec![],
        2 => vec![FK_EINTR, FK_SHORT, FK_SIZELIE],
        3 => READ_HARD.to_vec(),
        4 => WRITE_HARD.to_vec(),
        5 => vec![FK_CRASH, FK_TORNCRASH, FK_EINTR, FK_SHORT],
        6 => READ_EXT.to_vec(),
        7 => vec![FK_STDFAIL, FK_STDFAIL, FK_EINTR, FK_EIO],
        _ => READ_HARD.iter().chain(&WRITE_HARD).chain(&[FK_CRASH, FK_TORNCRASH, FK_EINTR, FK_SHORT, FK_EXT_FLIP]).copied().collect(),
    };
    let at = *r.pick(&[8, 14, 24]);
    let io = io_faults(r, &kinds, at, len.max(400));
    let plant = r.pick(&["plant.txt", "plant.txt", "p", "dir/plant.lsys", "/abs/plant.txt", "pl ant.txt", "pl\u{e9}.txt", "plant.svg.txt"]).to_string();
    let output = match r.below(10) { 0 | 1 => None, _ => Some(r.pick(&["picture.svg", "picture", "picture.SVG", "picture.png", "a.b.c", "/abs/out.svg", "dir/out.tar.gz", "dir.d/out", ".svg", "sub.svg/x", "o\u{ff}.svg", "p.svg ", "out.svg.bak", "picture.Svg", "x.svgz", "-", "picture.PNG", "a.b.b", "x.", "a..svg", "svg", "picture.svg.svg", "x.Svg.PNG", "sub.svg/y.txt", ".", "..", "dir/..", "dir/../p.svg", "./p.q.svg", "dir//p.txt", "dir/./p", "dir/", "picture.extension", "p.jpeg5", "a.b c.de fg", "picture.\u{e9}\u{e8}", "v1.25", "p.svg5"]).to_string()) };
    let old = match r.below(3) { 0 => None, 1 => Some("the old picture".into()), _ => Some("<svg>old</svg>".repeat(r.range(1, 5000))) };
    let (w, h) = if r.pct(50) { (None, None) } else { (if r.pct(85) { Some(*r.pick(&[0, 1, 10, 640, 4000, 100_000, 4_294_967_297, 10_000_000_000])) } else { None }, if r.pct(70) { Some(*r.pick(&[0, 1, 33, 480, 500])) } else { None }) };
    let free = if r.pct(8) { *r.pick(&[0, 50, 400, 4000]) } else { -1 };
    let mut c = CliSc { lines, eol: r.pick(&["\n", "\n", "\r\n"]).to_string(), edits, plant, output, old, w, h, verbose: r.below(4) as u8, missing: if r.pct(5) { r.range(1, 3) as u8 } else { 0 }, bystander: r.pct(60), out_is_dir: r.pct(3), bad_args: if r.pct(4) { r.range(1, 4) as u8 } else { 0 }, again: r.pct(25) };
    if r.pct(2) && c.missing == 0 { // the picture takes the plant's place
        c.plant = "plant.svg".into();
        c.output = Some(r.pick(&["plant.svg", "plant", "plant.txt", "./plant.svg"]).to_string());
        (c.old, c.out_is_dir) = (None, false);
    }
    (c, io, free)
}

fn fam_c(r: &mut Rng) -> usize { if r.below(200) == 0 { 10 } else if r.pct(3) { 9 } else { r.below(9) } }
/// Symbols in use have codes far apart, because many others were registered between them.
fn spread(r: &mut Rng, o: &mut Ops) {
    let k = *r.pick(&[1, 7, 15, 31, 63, 64, 127, 255, 256, 511, 1023]);
    let mut v = vec![];
    let texts: Vec<String> = o.threads.iter().flatten().filter_map(|op| if let Op::Store { text, .. } = op { Some(text.clone()) } else { None }).collect();
    let mut more: Vec<String> = texts.iter().flat_map(|t| t.split_ascii_whitespace()).filter(|w| !w.contains("->") && *w != "<" && *w != ">").map(String::from).collect();
    if !o.plants.is_empty() { more.extend(["Forward", "Move", "[", "]", "+", "-", "X"].map(String::from)) }
    for i in (1..more.len()).rev() { more.swap(i, r.below(i + 1)) }
    for w in more { if o.names.len() < 16 && !o.names.contains(&w) { o.names.push(w) } }
    for n in 0..o.names.len() {
        v.push(Op::Code { n, ws: 0, api: 0 });
        v.push(Op::Bulk { base: 4, from: n as u32 * 2000, count: if r.pct(80) { k } else { r.range(1, 300) as u32 } });
    }
    v.extend(std::mem::take(&mut o.setup));
    o.setup = v;
}

pub fn gen(prop: &str, scenario_seed: u64, run_seed: u64, thorough: bool) -> Spec {
    let mut r = Rng::new(scenario_seed);
    let r = &mut r;
    let mut io = vec![];
    let mut free = -1;
    let mut kind = match prop {
        "C05" => Kind::Stoch(gen_c05(r, thorough)),
        "C09" | "C10" if r.pct(15) => { let (m, i, d) = gen_many(r, prop == "C10"); io = i; free = d; Kind::Many(m) }
        "C09" | "C10" | "C14" => {
            let (f, i, d) = match prop { "C09" => gen_c09(r, thorough), "C10" => gen_c10(r, thorough), _ => gen_c14(r, thorough) };
            io = i; free = d;
            Kind::File(f)
        }
        "C11" => { let (c, i, d) = gen_c11(r, thorough); io = i; free = d; Kind::Cli(c) }
        _ => Kind::Ops(match prop {
            "C01" => gen_c01(r, thorough), "C02" => gen_c02(r, thorough), "C03" => gen_c03(r, thorough), "C04" => gen_c04(r, thorough), "C06" => gen_c06(r, thorough),
            "C07" => gen_c07(r, thorough), "C08" => gen_c08(r, thorough), "C12" => gen_c12(r, thorough), "C13" => gen_c13(r, thorough), "C15" => gen_c15(r, thorough),
            p => panic!("no generator for {p}"),
        }),
    };
    if let Kind::Ops(o) = &mut kind { if matches!(prop, "C02" | "C03" | "C04" | "C07" | "C12" | "C13" | "C15") && r.pct(4) { spread(r, o) } }
    // The same calls many times over.
    if let Kind::Ops(o) = &mut kind { if matches!(prop, "C01" | "C02" | "C03" | "C04" | "C06" | "C07" | "C08" | "C13" | "C15") && o.threads.len() < 7 && r.below(400) == 0 {
        let times = r.range(20, 120);
        let few = r.pct(50);
        let heavy = |o: &Op| matches!(o, Op::Bulk { count, .. } if *count > 60) || matches!(o, Op::Fresh { rounds, .. } if *rounds > 10) || matches!(o, Op::Derive { iters, .. } if *iters > 50);
        if !o.threads.iter().flatten().any(heavy) { for (k, t) in o.threads.iter_mut().enumerate() { if k == 0 || !few { *t = t.iter().cycle().take((t.len() * times).min(600)).cloned().collect() } } }
    } }
    let mut q = Rng::new(run_seed);
    let (threads, hint) = match &kind {
        Kind::Ops(o) => (o.threads.len(), 60 * o.threads.iter().map(|t| t.len() as u32).sum::<u32>() + 100),
        Kind::Stoch(s) => (s.threads + s.noise, 60 * (s.calls * s.threads) as u32 + 100),
        Kind::Many(m) => (m.threads.len(), 80 * m.threads.iter().map(|t| t.len() as u32).sum::<u32>() + 100),
        _ => (1, 60),
    };
    let mut knobs = gen_knobs(&mut q, threads);
    knobs.disk_free = free;
    if let Kind::Ops(o) = &kind {
        let much = |o: &Op| matches!(o, Op::Bulk { count, .. } if *count > 500) || matches!(o, Op::Fresh { rounds, .. } if *rounds > 50) || matches!(o, Op::Derive { iters, .. } if *iters > 20);
        if o.threads.len() > 12 || o.fams > 100 || o.threads.iter().flatten().chain(&o.finale).chain(&o.setup).any(much) { knobs.step_limit = 40_000_000 }
    }
    if knobs.step_limit < 40_000_000 && serde_json::to_string(&kind).unwrap().len() > 12_000 { knobs.step_limit = 40_000_000 }
    if let Kind::Stoch(s) = &kind {
        knobs.step_limit = 20_000_000;
        if !s.stats { knobs.p_rng_extreme = *q.pick(&[3000, 20000, 50000]); knobs.rng_mode = *q.pick(&[0, 0, 1, 2]); }
    }
    if let Kind::Ops(_) = &kind { if matches!(prop, "C03" | "C04" | "C07" | "C08") && q.pct(10) { knobs.p_rng_extreme = 20000 } }
    let sched = if threads > 1 { gen_sched(&mut q, hint) } else { Sched::Random { p: 4000 } };
    let seed = q.next();
    let mut c = Rng::new(hash64(&[seed, 0xc10c]));
    knobs.tick = *c.pick(&[0, 0, 0, 20, 20, 100_000, 10_000_000, 10_000_000, 10_000_000_000]);
    knobs.p_jump = *c.pick(&[0, 0, 0, 500, 20_000]);
    Spec { prop: prop.into(), seed, sched, knobs, io, kind }
}
