//! Linearizability of a recorded history against a sequential model (Wing & Gong search with memoisation).
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hash, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u64(&mut self, v: u64) { self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95); }
    fn write_u32(&mut self, v: u32) { self.write_u64(v as u64) }
    fn write_u8(&mut self, v: u8) { self.write_u64(v as u64) }
    fn write_usize(&mut self, v: usize) { self.write_u64(v as u64) }
}
pub type FxBuild = BuildHasherDefault<Fx>;

pub struct Item<A> { pub inv: u64, pub ret: u64, pub deps: Vec<usize>, pub act: A }

pub trait Model: Clone + Hash + Eq {
    type Act;
    /// Applies the action if its recorded outcome is possible in this state.
    fn apply(&self, a: &Self::Act) -> Option<Self>;
}

pub enum Verdict { Ok, Bad(usize), Unknown }

const WINDOW: usize = 128;
/// What is done: the first `base` items in the order of invocation, and those of the next 128 that `mask` names.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Done { base: u32, mask: u128 }

/// Bad(k): the best search explained k of the items only.
pub fn check<M: Model>(init: M, items: &[Item<M::Act>], budget: usize) -> Verdict {
    let n = items.len();
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|i| (items[*i].inv, items[*i].ret));
    let mut pos = vec![0usize; n];
    for (p, i) in order.iter().enumerate() { pos[*i] = p }
    let has = |d: &Done, p: usize| p < d.base as usize || (p - (d.base as usize) < WINDOW && d.mask >> (p - d.base as usize) & 1 == 1);
    let mut seen: HashSet<(Done, M), FxBuild> = HashSet::default();
    let mut stack: Vec<(Done, M)> = vec![(Done { base: 0, mask: 0 }, init)];
    let mut best = 0;
    let mut nodes = 0;
    let mut beyond = false;
    let mut cand: Vec<usize> = vec![];
    while let Some((done, m)) = stack.pop() {
        let base = done.base as usize;
        if base == n { return Verdict::Ok }
        best = best.max(base + done.mask.count_ones() as usize);
        nodes += 1;
        if nodes > budget { return Verdict::Unknown }
        let end = (base + WINDOW).min(n);
        let min_ret = (base..end).filter(|p| !has(&done, *p)).map(|p| items[order[p]].ret).min().unwrap();
        if end < n && items[order[end]].inv <= min_ret { beyond = true }
        cand.clear();
        cand.extend((base..end).filter(|p| !has(&done, *p) && items[order[*p]].inv <= min_ret && items[order[*p]].deps.iter().all(|d| has(&done, pos[*d]))));
        // Explore earliest-returning candidates first (pushed last). A step that leaves the state as it is can be
        // taken at once without losing any explanation: it constrains nothing that follows.
        cand.sort_by_key(|p| std::cmp::Reverse(items[order[*p]].ret));
        let mark = stack.len();
        let forced = cand.len() == 1 && mark == 0; // nothing else to come back to: not worth remembering
        for &p in cand.iter().rev() {
            let i = order[p];
            if let Some(next) = m.apply(&items[i].act) {
                let mut d = Done { base: done.base, mask: done.mask | 1 << (p - base) };
                let k = d.mask.trailing_ones();
                d.base += k;
                d.mask = if k >= 128 { 0 } else { d.mask >> k };
                if forced { stack.push((d, next)); break }
                let same = next == m;
                if same { stack.truncate(mark); }
                let key = (d, next);
                if !seen.contains(&key) { seen.insert(key.clone()); stack.push(key); }
                if same { break }
            }
        }
        // as pushed in the order of return, the earliest is on top
        stack[mark..].reverse();
    }
    if beyond { Verdict::Unknown } else { Verdict::Bad(best) }
}
