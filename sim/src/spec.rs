//! What one simulated execution is: a scenario, a fault plan, a schedule. A `Spec` plus the code under test
//! determines the execution completely.
use crate::rt::Rng;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Sched {
    Random { p: u32 },
    Pct { d: u32, len: u32 },
    Site { p: u32, modulo: u32, key: u32 },
    Solo,
    Explicit { sw: Vec<(u32, u32)> },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct IoF { pub idx: u32, pub kind: u16, pub arg: u32 }

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Knobs {
    #[serde(default)] pub p_spurious: u32,
    #[serde(default)] pub p_wakeorder: u32,
    #[serde(default)] pub p_rng_extreme: u32,
    #[serde(default)] pub rng_mode: u32,
    #[serde(default)] pub starve_tid1: u32,
    #[serde(default)] pub starve_steps: u32,
    /// chance that a preempted thread is held back where it is, and for how many steps at most
    #[serde(default)] pub p_stall: u32,
    #[serde(default)] pub stall_len: u32,
    /// virtual nanoseconds per scheduling point (0: a microsecond), and the chance of a clock jump at one, in 2^-20
    #[serde(default)] pub tick: u64,
    #[serde(default)] pub p_jump: u32,
    pub step_limit: u64,
    #[serde(default)] pub disk_free: i64,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Spec {
    pub prop: String,
    pub seed: u64,
    pub sched: Sched,
    pub knobs: Knobs,
    #[serde(default)] pub io: Vec<IoF>,
    pub kind: Kind,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Kind {
    Ops(Ops),
    Stoch(Stoch),
    File(FileSc),
    Cli(CliSc),
    Many(ManySc),
}

// ------------------------------------------------------------------ operations on shared state
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub struct PSpec {
    pub pre: Option<Vec<usize>>,
    pub target: usize,
    pub post: Option<Vec<usize>>,
    pub body: Vec<usize>,
    /// thousandths
    pub chance: Option<u32>,
    /// further bodies, without a chance: such a production is added as a value, as no text has several bodies
    #[serde(default)]
    pub more: Vec<Vec<usize>>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Conv {
    Str, Text, Value,
    /// through parser::parse_and_add_production (productions only)
    ParseAdd,
    /// a caller type whose conversion yields to other threads `n` times
    CallerOk(u8),
    CallerErr,
    /// the caller's conversion fails and turning its error into the library's error panics
    CallerErrIntoPanic,
    CallerPanic,
    /// conversion first performs these operations, then succeeds
    Reenter(Vec<Op>),
    ReenterErr(Vec<Op>),
    ReenterPanic(Vec<Op>),
    /// text that does not parse / a blank name
    Bad,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    Yield,
    // symbols
    Code { n: usize, ws: u8, api: u8 },
    Blank { v: u8 },
    Name { n: usize, api: u8 },
    Phantom { off: u32 },
    /// registers `count` names "<base>_<k>" starting at k = `from`
    Bulk { base: u8, from: u32, count: u32 },
    Print { slot: usize, names: Vec<usize>, api: u8 },
    Parse { slot: usize, api: u8 },
    // systems
    AddProd { sys: usize, p: PSpec, conv: Conv },
    AddSym { sys: usize, n: usize, conv: Conv },
    GetSym { sys: usize, n: usize, ws: u8 },
    ProdLen { sys: usize },
    SymLen { sys: usize },
    Derive { sys: usize, axiom: Vec<usize>, iters: usize, once: bool },
    /// derivation from an explicit list of productions, no shared system involved
    Free { rules: Vec<PSpec>, axiom: Vec<usize>, iters: usize, once: bool },
    /// a new system is made, looked at, used and dropped, `rounds` times
    Fresh { family: bool, rules: Vec<PSpec>, axiom: Vec<usize>, iters: usize, rounds: u32,
        /// each round has as many rules as the one before, but other ones
        #[serde(default)] turn: bool },
    // families: `f` names the family, `c` is the content
    FamRegister { f: usize, c: usize, builder: bool },
    /// `alias`: the initialiser returns a family that calls itself by another name than the one asked for
    FamInit { f: usize, c: usize, panic: bool, yields: u8, #[serde(default)] alias: bool },
    FamGet { f: usize },
    FamExists { f: usize },
    FamSystem { f: usize, api: u8 },
    /// a system made from a family value that is not registered
    FamValue { f: usize, c: usize },
    FamBlank { v: u8 },
    // thread-local stores (RefCell)
    LAddProd { p: PSpec, conv: Conv },
    LAddSym { n: usize, conv: Conv },
    LGetSym { n: usize },
    // parse_and_add_production into failing stores
    Store { text: String, sym_fail: Option<u32>, prod_fail: bool, real_sym: bool, transform: bool },
    // whole pipeline on plant `p`
    Render { p: usize, w: usize, h: usize },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Ops {
    pub names: Vec<String>,
    pub systems: usize,
    #[serde(default)] pub fams: usize,
    #[serde(default)] pub plants: Vec<String>,
    #[serde(default)] pub setup: Vec<Op>,
    pub threads: Vec<Vec<Op>>,
    /// run by the main thread when the others have finished
    #[serde(default)] pub finale: Vec<Op>,
    /// what each system starts from: 0 nothing, 1 the ABOP family
    #[serde(default)] pub base: Vec<u8>,
    /// C12: a second execution of the same scenario with other seeds, without concurrency, is compared
    #[serde(default)] pub twin: bool,
}

// ------------------------------------------------------------------ stochastic choice
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Stoch {
    /// chance of each body in thousandths, or in parts of `unit` (None: not set)
    pub chances: Vec<Option<u32>>,
    /// how many bodies each addition carries (always 1 per addition; order of addition is the order of bodies)
    pub threads: usize,
    /// occurrences of the symbol in the axiom
    pub width: usize,
    /// derive_once calls per thread
    pub calls: usize,
    /// iterations (>1: bodies contain the symbol again)
    pub iters: usize,
    /// 0: derive_once; 1: derive; 2: free function system::derive; 3: Production::body
    pub api: u8,
    /// statistics are checked (no extreme draws injected)
    pub stats: bool,
    /// body 0 is the symbol itself, the others are final
    #[serde(default)] pub stay: bool,
    /// this body is empty (one occurrence and one iteration only)
    #[serde(default)] pub erase: Option<usize>,
    /// the rule is used between the additions of its bodies
    #[serde(default)] pub warm: bool,
    /// another production, declared above one in total, that is (true) or is not applied
    pub over: Option<bool>,
    /// number of threads that keep adding unrelated rules and symbols meanwhile
    pub noise: usize,
    #[serde(default)] pub unit: u32,
}
impl Stoch { pub fn unit(&self) -> u32 { if self.unit == 0 { 1000 } else { self.unit } } }

// ------------------------------------------------------------------ files
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum FileMode {
    /// parse_file and compare with the delivered bytes
    Parse,
    /// render the plant, then save under faults
    Save,
    /// whole pipeline on damaged bytes
    Damaged,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct FileSc {
    pub mode: FileMode,
    /// the plant file's content: undamaged lines
    pub lines: Vec<String>,
    pub eol: String,
    /// raw edits applied to the joined bytes, in order
    pub edits: Vec<Edit>,
    pub w: usize,
    pub h: usize,
    /// Save: what the output holds before (None: does not exist)
    pub old: Option<String>,
    /// Save: number of saves in a row to the same file (earlier ones of other drawings)
    pub repeat: usize,
    /// Parse: the file does not exist / is a directory
    pub missing: u8,
    /// which name the file has
    #[serde(default)] pub path: u8,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Edit {
    Flip { at: u32, bit: u8 },
    Set { at: u32, val: u8 },
    Cut { at: u32, len: u32 },
    Zero { at: u32, len: u32 },
    Dup { at: u32, len: u32 },
    Swap { at: u32, with: u32, len: u32 },
    Trunc { at: u32 },
    Ins { at: u32, bytes: Vec<u8> },
}

pub fn apply_edits(mut b: Vec<u8>, edits: &[Edit]) -> Vec<u8> {
    for e in edits {
        let n = b.len();
        if n == 0 { if let Edit::Ins { bytes, .. } = e { b = bytes.clone(); } continue }
        match e {
            Edit::Flip { at, bit } => b[*at as usize % n] ^= 1 << (bit & 7),
            Edit::Set { at, val } => b[*at as usize % n] = *val,
            Edit::Cut { at, len } => { let a = *at as usize % n; let e = (a + *len as usize).min(n); b.drain(a..e); }
            Edit::Zero { at, len } => { let a = *at as usize % n; let e = (a + *len as usize).min(n); b[a..e].fill(0); }
            Edit::Dup { at, len } => { let a = *at as usize % n; let e = (a + *len as usize).min(n); let c = b[a..e].to_vec(); b.splice(e..e, c); }
            Edit::Swap { at, with, len } => {
                let (a, w, l) = (*at as usize % n, *with as usize % n, *len as usize);
                for i in 0..l { if a + i < n && w + i < n { b.swap(a + i, w + i); } }
            }
            Edit::Trunc { at } => b.truncate(*at as usize % n),
            Edit::Ins { at, bytes } => { let a = *at as usize % (n + 1); b.splice(a..a, bytes.iter().copied()); }
        }
    }
    b
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct CliSc {
    pub lines: Vec<String>,
    pub eol: String,
    pub edits: Vec<Edit>,
    /// name of the plant file; bytes as Latin-1 so that non-UTF-8 names can be given
    pub plant: String,
    pub output: Option<String>,
    pub old: Option<String>,
    pub w: Option<usize>,
    pub h: Option<usize>,
    pub verbose: u8,
    pub missing: u8,
    /// extra file that must stay as it is
    pub bystander: bool,
    /// the output path (after the extension rule) is a directory
    pub out_is_dir: bool,
    /// arguments that clap must refuse
    #[serde(default)] pub bad_args: u8,
    /// the program is run again, without faults, in the file system the first run left
    #[serde(default)] pub again: bool,
}

/// Several threads, each reading and writing files of its own (and reading one they share).
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ManySc {
    pub plants: Vec<Vec<String>>,
    pub threads: Vec<Vec<FOp>>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum FOp {
    /// the thread's file `file` (0, 1) gets the text of a plant, with edits; another process did it
    Put { file: u8, plant: usize, edits: Vec<Edit> },
    /// it disappears
    Remove { file: u8 },
    /// it is read; 2 is the file all threads share, which holds plant 0
    Parse { file: u8 },
    /// the plant is drawn and saved to one of the thread's two outputs
    Save { plant: usize, w: usize, h: usize, #[serde(default)] out: u8 },
    /// another process changes an output of the thread: 0 empties it, 1 cuts it, 2 adds to it, 3 removes it, 4 flips a byte of it
    Spoil { out: u8, how: u8 },
}

pub fn gen_sched(r: &mut Rng, hint: u32) -> Sched {
    match r.weighted(&[45, 30, 20, 5]) {
        0 => Sched::Random { p: *r.pick(&[400, 1500, 4000, 9000, 20000, 32768, 50000]) },
        1 => Sched::Pct { d: r.range(1, 6) as u32, len: (hint as u64 * r.range(30, 120) as u64 / 60).max(20) as u32 },
        2 => { let modulo = r.range(2, 9) as u32; Sched::Site { p: *r.pick(&[20000, 40000, 60000]), modulo, key: r.below(modulo as usize) as u32 } }
        _ => Sched::Solo,
    }
}

/// The rules a new system of round `k` is given.
pub fn fresh_rules(rules: &[PSpec], k: usize, turn: bool) -> Vec<&PSpec> {
    if !turn { return rules.iter().skip(k).collect() }
    rules.iter().cycle().skip(k % rules.len().max(1)).take(rules.len().div_ceil(2)).collect()
}
