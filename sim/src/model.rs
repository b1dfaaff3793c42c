//! Small independent reference models: rule sets and rewriting, the plant format, the string syntax,
//! the turtle and the picture, and a reader for the SVG text. Nothing here calls the code under test.
use std::collections::BTreeSet;

// ------------------------------------------------------------------ rules and rewriting
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Head<S> { pub pre: Option<Vec<S>>, pub target: S, pub post: Option<Vec<S>> }
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Body<S> { pub syms: Vec<S>, pub chance: Option<u32> } // bits of the f32
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Rules<S>(pub Vec<(Head<S>, Vec<Body<S>>)>);

impl<S: Clone + PartialEq + Ord> Rules<S> {
    pub fn add(&mut self, head: Head<S>, body: Body<S>) -> usize {
        match self.0.iter().position(|(h, _)| *h == head) {
            Some(i) => { self.0[i].1.push(body); i }
            None => { self.0.push((head, vec![body])); self.0.len() - 1 }
        }
    }
    pub fn find(&self, s: &[S], i: usize) -> Option<usize> {
        self.0.iter().position(|(h, _)| {
            if h.target != s[i] { return false }
            if let Some(pre) = &h.pre { if pre.len() > i || s[i - pre.len()..i] != pre[..] { return false } }
            if let Some(post) = &h.post { if s.len() - i - 1 < post.len() || s[i + 1..i + 1 + post.len()] != post[..] { return false } }
            true
        })
    }
    /// The bodies that may be chosen when rule `k` is applied. Err(true): the derivation must be refused;
    /// Err(false): the chances are too close to one to tell.
    fn choices(&self, k: usize) -> Result<Vec<&[S]>, bool> {
        let bodies = &self.0[k].1;
        if bodies.len() == 1 { return Ok(vec![&bodies[0].syms]) }
        let total = Self::total(bodies);
        if total > 1.0 + 1e-5 { return Err(true) }
        if total > 1.0 + 3e-7 { return Err(false) }
        Ok(bodies.iter().filter(|b| b.chance.is_some() || total < 1.0 - 3e-7).map(|b| &b.syms[..]).collect())
    }
    /// All that one iteration may give (None: it is refused), unless there are more than `limit`.
    fn step(&self, s: &[S], limit: usize, cap: usize) -> Option<BTreeSet<Option<Vec<S>>>> {
        let found: Vec<Option<usize>> = (0..s.len()).map(|i| self.find(s, i)).collect();
        let mut refused = false;
        for k in found.iter().flatten() { match self.choices(*k) { Ok(_) => {} Err(true) => refused = true, Err(false) => return None } }
        if refused { return Some(BTreeSet::from([None])) }
        let mut choices: std::collections::BTreeMap<usize, Vec<&[S]>> = Default::default();
        for k in found.iter().flatten() { if !choices.contains_key(k) { let mut c = self.choices(*k).ok()?; c.sort(); c.dedup(); choices.insert(*k, c); } }
        // One result so far, as long as there is one way to go on.
        let mut i = 0;
        let mut one: Vec<S> = vec![];
        while i < s.len() {
            match found[i] { Some(k) if choices[&k].len() == 1 => one.extend_from_slice(choices[&k][0]), Some(_) => break, None => one.push(s[i].clone()) }
            if one.len() > cap { return None }
            i += 1;
        }
        let mut out: BTreeSet<Vec<S>> = BTreeSet::from([one]);
        for i in i..s.len() {
            let alts: Vec<&[S]> = match found[i] {
                Some(k) => choices[&k].clone(),
                None => vec![&s[i..i + 1]],
            };
            if alts.len() == 1 {
                out = out.into_iter().map(|mut v| { v.extend_from_slice(alts[0]); v }).collect();
            } else {
                let mut next = BTreeSet::new();
                for v in &out { for a in &alts { let mut w = v.clone(); w.extend_from_slice(a); next.insert(w); } }
                out = next;
            }
            if out.len() > limit || out.iter().any(|v| v.len() > cap) || out.len() * out.iter().next().map_or(0, |v| v.len()) > 1_000_000 { return None }
        }
        Some(out.into_iter().map(Some).collect())
    }
    /// All possible results of `iters` iterations (a None among them: refused); None if there are too many or they are too long.
    pub fn results(&self, s: &[S], iters: usize, limit: usize, cap: usize) -> Option<BTreeSet<Option<Vec<S>>>> {
        let mut cur: BTreeSet<Option<Vec<S>>> = BTreeSet::from([Some(s.to_vec())]);
        // Sets of strings that come again come again forever (Brent's cycle search); work on the way is bounded.
        let (mut mark, mut since, mut power, mut left, mut work) = (cur.clone(), 0usize, 1usize, iters, 0usize);
        while left > 0 {
            let mut next = BTreeSet::new();
            for v in &cur { match v { None => { next.insert(None); } Some(v) => next.extend(self.step(v, limit, cap)?) } if next.len() > limit { return None } }
            cur = next;
            left -= 1;
            since += 1;
            work += cur.iter().flatten().map(|v| 1 + v.len()).sum::<usize>();
            if work > 20_000_000 { return None }
            if cur == mark { left %= since }
            else if since == power { mark = cur.clone(); power *= 2; since = 0 }
        }
        Some(cur)
    }
    /// The one possible result, if there is exactly one and it is not too long.
    pub fn derive(&self, s: &[S], iters: usize, cap: usize) -> Option<Vec<S>> {
        let mut cur = s.to_vec();
        for _ in 0..iters {
            let mut next = Vec::new();
            for i in 0..cur.len() {
                match self.find(&cur, i) {
                    Some(k) => {
                        let bs = &self.0[k].1;
                        if bs.iter().any(|b| b.syms != bs[0].syms) { return None }
                        next.extend_from_slice(&bs[0].syms);
                    }
                    None => next.push(cur[i].clone()),
                }
                if next.len() > cap { return None }
            }
            if next == cur { break }
            cur = next;
        }
        Some(cur)
    }
    /// The same, and Some(None) if a rule that is applied declares chances that clearly total more than one.
    pub fn derive_or_refuse(&self, s: &[S], iters: usize, cap: usize) -> Option<Option<Vec<S>>> {
        let mut cur = s.to_vec();
        for _ in 0..iters {
            let applied: BTreeSet<usize> = (0..cur.len()).filter_map(|i| self.find(&cur, i)).collect();
            let totals: Vec<f64> = applied.iter().filter(|k| self.0[**k].1.len() > 1).map(|k| Self::total(&self.0[*k].1)).collect();
            if totals.iter().any(|t| *t > 1.0001) { return Some(None) }
            if totals.iter().any(|t| *t > 1.0) { return None }
            let next = self.derive(&cur, 1, cap)?;
            if next == cur { break }
            cur = next;
        }
        Some(Some(cur))
    }
    /// True if some rule declares chances that total more than one (by `slack`).
    pub fn total(bodies: &[Body<S>]) -> f64 {
        bodies.iter().map(|b| b.chance.map_or(0.0, |c| f32::from_bits(c) as f64)).sum()
    }
}

// ------------------------------------------------------------------ string syntax
/// The symbols a text denotes in the string syntax, or None if it is refused.
pub fn parse_string(text: &str) -> Option<Vec<String>> {
    fn op(c: char) -> bool { matches!(c, '<' | '>' | '-' | '+' | '(' | ')' | ';') }
    let cs: Vec<char> = text.chars().collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < cs.len() {
        if cs[i].is_whitespace() { i += 1; continue }
        let st = i;
        let is_op = op(cs[i]);
        while i < cs.len() && !cs[i].is_whitespace() && op(cs[i]) == is_op { i += 1; }
        let w: String = cs[st..i].iter().collect();
        match w.as_str() {
            ";" => break,
            "->" | "<" | ">" => return None,
            _ => out.push(w),
        }
    }
    Some(out)
}
pub fn is_single_token(name: &str) -> bool { parse_string(name).map_or(false, |v| v.len() == 1 && v[0] == name) }

// ------------------------------------------------------------------ productions
fn sym(s: &str) -> Option<String> { let t = s.trim(); if t.is_empty() { None } else { Some(t.to_string()) } }
fn syms(v: &[&str]) -> Option<Vec<String>> { v.iter().map(|s| sym(s)).collect() }

pub fn parse_production(text: &str) -> Option<(Head<String>, Body<String>)> {
    let text = text.trim();
    let at = text.find("->")?;
    let (h, b) = (&text[..at], text[at + 2..].trim());
    let h = h.trim();
    if h.is_empty() { return None }
    let toks: Vec<&str> = h.split_ascii_whitespace().collect();
    let (pre, rest) = match toks.iter().position(|t| *t == "<") { Some(i) => (Some(&toks[..i]), &toks[i + 1..]), None => (None, &toks[..]) };
    let (mid, post) = match rest.iter().position(|t| *t == ">") { Some(i) => (&rest[..i], Some(&rest[i + 1..])), None => (rest, None) };
    if mid.len() != 1 { return None }
    let head = Head {
        target: sym(mid[0])?,
        pre: match pre { Some(p) => Some(syms(p)?), None => None },
        post: match post { Some(p) => Some(syms(p)?), None => None },
    };
    let mut toks: Vec<&str> = if b.is_empty() { vec![] } else { b.split_ascii_whitespace().collect() };
    let mut chance = None;
    if let Some(Ok(c)) = toks.first().map(|t| t.parse::<f32>()) {
        if !(c > 0.0 && c <= 1.0) { return None }
        chance = Some(c.to_bits());
        toks.remove(0);
    }
    Some((head, Body { syms: syms(&toks)?, chance }))
}

pub fn head_syms<S: Clone>(h: &Head<S>) -> Vec<S> {
    let mut v = h.pre.clone().unwrap_or_default();
    v.push(h.target.clone());
    v.extend(h.post.clone().unwrap_or_default());
    v
}

// ------------------------------------------------------------------ plants
#[derive(Clone, Debug)]
pub struct Plant {
    pub n: usize, pub delta: f32, pub rules: Rules<String>, pub initial: Vec<String>, pub symbols: BTreeSet<String>,
}
pub const FAMILY: [&str; 7] = ["[", "]", "+", "-", "Forward", "Move", "X"];

pub fn parse_plant(bytes: &[u8]) -> Option<Plant> {
    let text = std::str::from_utf8(bytes).ok()?;
    let (mut n, mut delta, mut initial) = (2usize, 5.0f32, None);
    let mut rules = Rules(vec![]);
    let mut symbols: BTreeSet<String> = FAMILY.iter().map(|s| s.to_string()).collect();
    let text = text.trim();
    if text.is_empty() { return None }
    for line in text.lines() {
        let line = match line.find('#') { Some(i) => &line[..i], None => line }.trim();
        if line.is_empty() { continue }
        if let Some(i) = line.find('=') {
            let (k, v) = (line[..i].trim(), line[i + 1..].trim());
            match k {
                "n" | "N" => n = v.parse().ok()?,
                "d" | "D" | "delta" | "∂" => { delta = v.parse().ok()?; if !delta.is_finite() { return None } }
                _ => return None,
            }
        } else if let Some(rest) = line.strip_prefix("initial:") {
            initial = Some(rest.trim());
        } else {
            let (h, b) = parse_production(line)?;
            symbols.extend(head_syms(&h));
            symbols.extend(b.syms.iter().cloned());
            rules.add(h, b);
        }
    }
    if rules.0.is_empty() { return None }
    Some(Plant { n, delta, rules, initial: parse_string(initial?)?, symbols })
}

// ------------------------------------------------------------------ turtle and picture
pub type Poly = Vec<(f64, f64)>;

/// None if a branch is closed that was never opened.
pub fn turtle(string: &[String], delta: f32) -> Option<Vec<Poly>> {
    let a = (delta as f64).to_radians();
    let (s, c) = (a.sin(), a.cos());
    let mut pos = (0.0f64, 0.0f64);
    let mut dir = (0.0f64, 5.0f64);
    let mut stack = vec![];
    let mut paths: Vec<Poly> = vec![];
    let mut path: Poly = vec![pos];
    for t in string {
        match t.as_str() {
            "Forward" => { pos = (pos.0 + dir.0, pos.1 + dir.1); path.push(pos); }
            "Move" | "]" => {
                if t == "Move" { pos = (pos.0 + dir.0, pos.1 + dir.1); } else { (pos, dir) = stack.pop()?; }
                let done = std::mem::replace(&mut path, vec![pos]);
                if done.len() > 1 { paths.push(done); }
            }
            "[" => stack.push((pos, dir)),
            "+" => dir = (c * dir.0 - s * dir.1, s * dir.0 + c * dir.1),
            "-" => dir = (c * dir.0 + s * dir.1, -s * dir.0 + c * dir.1),
            _ => {}
        }
    }
    paths.push(path);
    Some(paths)
}

/// The picture in canvas coordinates: the polylines with at least one segment.
pub fn picture(paths: &[Poly], w: usize, h: usize) -> Vec<Poly> {
    let (mut x0, mut x1, mut y0, mut y1) = (f64::INFINITY, f64::NEG_INFINITY, f64::INFINITY, f64::NEG_INFINITY);
    for (x, y) in paths.iter().flatten() { x0 = x0.min(*x); x1 = x1.max(*x); y0 = y0.min(*y); y1 = y1.max(*y); }
    let (w, h) = (w as f64, h as f64);
    let mut k = (w / (x1 - x0)).min(h / (y1 - y0));
    if !k.is_finite() { k = 1.0; }
    let (cx, cy) = ((x0 + x1) / 2.0, (y0 + y1) / 2.0);
    paths.iter().filter(|p| p.len() > 1).map(|p| p.iter().map(|(x, y)| (w / 2.0 + k * (x - cx), h / 2.0 - k * (y - cy))).collect()).collect()
}

// ------------------------------------------------------------------ reading SVG
#[derive(Debug)]
pub struct Picture { pub w: f64, pub h: f64, pub polys: Vec<Poly>, pub fill_none: bool, pub stroked: bool }

/// Reads the subset of SVG that matters here. Err says what is wrong with the text.
pub fn read_svg(text: &str) -> Result<Picture, String> {
    #[derive(Clone)]
    struct Env { m: [f64; 6], fill: String, stroke: String }
    let mut stack: Vec<(String, Env)> = vec![];
    let mut env = Env { m: [1.0, 0.0, 0.0, 1.0, 0.0, 0.0], fill: "black".into(), stroke: "none".into() };
    let mut pic = Picture { w: -1.0, h: -1.0, polys: vec![], fill_none: true, stroked: true };
    let b = text.as_bytes();
    let mut i = 0;
    let mut roots = 0;
    while i < b.len() {
        if b[i] != b'<' {
            if !b[i].is_ascii_whitespace() { return Err(format!("text outside elements at byte {i}")) }
            i += 1; continue
        }
        let end = i + text[i..].find('>').ok_or_else(|| format!("unterminated tag at byte {i}"))?;
        let tag = &text[i + 1..end];
        i = end + 1;
        if tag.starts_with('?') || tag.starts_with('!') { continue }
        if let Some(name) = tag.strip_prefix('/') {
            let (open, saved) = stack.pop().ok_or("closing tag without opening tag")?;
            if open != name.trim() { return Err(format!("</{name}> closes <{open}>")) }
            env = saved;
            continue
        }
        let selfclose = tag.ends_with('/');
        let tag = tag.trim_end_matches('/');
        let name: String = tag.split_whitespace().next().unwrap_or("").to_string();
        let mut attrs: Vec<(String, String)> = vec![];
        let mut rest = tag[name.len()..].trim_start();
        while !rest.is_empty() {
            let eq = rest.find('=').ok_or_else(|| format!("bad attributes in <{tag}>"))?;
            let k = rest[..eq].trim().to_string();
            let r = rest[eq + 1..].trim_start();
            if !r.starts_with('"') { return Err(format!("unquoted attribute in <{tag}>")) }
            let close = r[1..].find('"').ok_or_else(|| format!("unterminated attribute in <{tag}>"))?;
            if attrs.iter().any(|(a, _)| *a == k) { return Err(format!("attribute {k} given twice")) }
            attrs.push((k, r[1..1 + close].to_string()));
            rest = r[close + 2..].trim_start();
        }
        let get = |k: &str| attrs.iter().find(|(a, _)| a == k).map(|(_, v)| v.as_str());
        if stack.is_empty() { roots += 1; if name != "svg" { return Err(format!("root element <{name}>")) } }
        let saved = env.clone();
        if let Some(f) = get("fill") { env.fill = f.into(); }
        if let Some(f) = get("stroke") { env.stroke = f.into(); }
        if let Some(t) = get("transform") { env.m = mul(env.m, transform(t)?); }
        if name == "svg" {
            pic.w = num(get("width").ok_or("no width")?)?;
            pic.h = num(get("height").ok_or("no height")?)?;
            if get("xmlns") != Some("http://www.w3.org/2000/svg") { return Err("no SVG name space".into()) }
        }
        if name == "path" {
            let polys = path_data(get("d").unwrap_or(""))?;
            for p in polys {
                if p.len() < 2 { continue }
                if env.fill != "none" { pic.fill_none = false; }
                if env.stroke == "none" { pic.stroked = false; }
                pic.polys.push(p.iter().map(|(x, y)| app(&env.m, *x, *y)).collect());
            }
        }
        if selfclose { env = saved } else { stack.push((name, saved)) }
    }
    if !stack.is_empty() { return Err(format!("<{}> is never closed", stack.last().unwrap().0)) }
    if roots != 1 { return Err(format!("{roots} root elements")) }
    Ok(pic)
}
fn num(s: &str) -> Result<f64, String> {
    let v: f64 = s.trim().trim_end_matches("px").parse().map_err(|_| format!("bad number {s}"))?;
    if !v.is_finite() { return Err(format!("number {s} is not finite")) }
    Ok(v)
}
fn mul(a: [f64; 6], b: [f64; 6]) -> [f64; 6] {
    [a[0] * b[0] + a[2] * b[1], a[1] * b[0] + a[3] * b[1], a[0] * b[2] + a[2] * b[3], a[1] * b[2] + a[3] * b[3],
     a[0] * b[4] + a[2] * b[5] + a[4], a[1] * b[4] + a[3] * b[5] + a[5]]
}
fn app(m: &[f64; 6], x: f64, y: f64) -> (f64, f64) { (m[0] * x + m[2] * y + m[4], m[1] * x + m[3] * y + m[5]) }
fn nums(s: &str) -> Result<Vec<f64>, String> { s.split(|c: char| c == ',' || c.is_whitespace()).filter(|t| !t.is_empty()).map(num).collect() }
fn transform(t: &str) -> Result<[f64; 6], String> {
    let mut m = [1.0, 0.0, 0.0, 1.0, 0.0, 0.0];
    let mut rest = t.trim();
    while !rest.is_empty() {
        let o = rest.find('(').ok_or("bad transform")?;
        let c = rest.find(')').ok_or("bad transform")?;
        let v = nums(&rest[o + 1..c])?;
        let n = match (rest[..o].trim(), v.len()) {
            ("translate", 2) => [1.0, 0.0, 0.0, 1.0, v[0], v[1]],
            ("translate", 1) => [1.0, 0.0, 0.0, 1.0, v[0], 0.0],
            ("scale", 2) => [v[0], 0.0, 0.0, v[1], 0.0, 0.0],
            ("scale", 1) => [v[0], 0.0, 0.0, v[0], 0.0, 0.0],
            ("matrix", 6) => [v[0], v[1], v[2], v[3], v[4], v[5]],
            (x, _) => return Err(format!("transform {x}")),
        };
        m = mul(m, n);
        rest = rest[c + 1..].trim_start_matches([' ', ',', '\n', '\t']);
    }
    Ok(m)
}
fn path_data(d: &str) -> Result<Vec<Poly>, String> {
    let mut toks: Vec<String> = vec![];
    for c in d.split(|c: char| c == ',' || c.is_whitespace()) {
        let mut cur = c;
        while let Some(f) = cur.chars().next() {
            if matches!(f, 'M' | 'L') { toks.push(f.to_string()); cur = &cur[1..]; continue }
            let e = cur.find(['M', 'L']).unwrap_or(cur.len());
            toks.push(cur[..e].to_string());
            cur = &cur[e..];
        }
    }
    let mut out: Vec<Poly> = vec![];
    let mut cmd = ' ';
    let mut i = 0;
    while i < toks.len() {
        if toks[i] == "M" || toks[i] == "L" { cmd = toks[i].chars().next().unwrap(); i += 1; continue }
        if i + 1 >= toks.len() { return Err("odd number of coordinates".into()) }
        let p = (num(&toks[i])?, num(&toks[i + 1])?);
        i += 2;
        match cmd {
            'M' => { out.push(vec![p]); cmd = 'L'; }
            'L' => out.last_mut().ok_or("path does not start with M")?.push(p),
            _ => return Err("path does not start with M".into()),
        }
    }
    Ok(out)
}

/// Compares an SVG text with the expected polylines.
pub fn compare_svg(text: &str, want: &[Poly], w: usize, h: usize) -> Result<(), String> {
    let pic = read_svg(text)?;
    if pic.w != w as f64 || pic.h != h as f64 { return Err(format!("canvas is {}x{}, not {w}x{h}", pic.w, pic.h)) }
    if pic.polys.len() != want.len() { return Err(format!("{} polylines, expected {}", pic.polys.len(), want.len())) }
    if !pic.fill_none { return Err("polylines are filled".into()) }
    if !pic.stroked { return Err("polylines are not stroked".into()) }
    let tol = 1e-6 * (w.max(h) as f64).max(1.0);
    for (k, (a, b)) in pic.polys.iter().zip(want).enumerate() {
        if a.len() != b.len() { return Err(format!("polyline {k} has {} points, expected {}", a.len(), b.len())) }
        for (p, q) in a.iter().zip(b) {
            if !((p.0 - q.0).abs() <= tol && (p.1 - q.1).abs() <= tol) { return Err(format!("polyline {k}: point {p:?}, expected {q:?}")) }
        }
    }
    Ok(())
}
