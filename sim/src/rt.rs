//! The Rust view of the simulator run-time (sim/rt/simrt.c); `Shm` mirrors `struct shm` in simrt.h.
use std::os::raw::{c_char, c_int};

pub const MAX_THREADS: usize = 144;
pub const MAX_EXPLICIT: usize = 400_000;
pub const MAX_TRACE: usize = 400_000;
pub const MAX_IOFAULTS: usize = 64;
pub const N_FAULT_KINDS: usize = 40;
pub const MAX_FILES: usize = 20;
pub const FDELIV_CAP: usize = 1 << 16;
pub const NAME_CAP: usize = 320;
pub const FILE_CAP: usize = 1 << 24;
pub const VERDICT_CAP: usize = 1 << 18;
pub const SITE_MAP: usize = 1 << 16;
pub const DELIV_CAP: usize = 1 << 22;
pub const IOLOG_CAP: usize = 1 << 15;

pub const STRAT_RANDOM: u32 = 0;
pub const STRAT_PCT: u32 = 1;
pub const STRAT_SITE: u32 = 2;
pub const STRAT_EXPLICIT: u32 = 3;
pub const STRAT_SOLO: u32 = 4;

pub const RS_OK: u32 = 1;
pub const RS_VIOLATION: u32 = 2;
pub const RS_DEADLOCK: u32 = 3;
pub const RS_LIVELOCK: u32 = 4;
pub const RS_CRASHPOINT: u32 = 5;
pub const RS_HARNESS: u32 = 6;

pub const FK_EINTR: u16 = 1;
pub const FK_SHORT: u16 = 2;
pub const FK_EIO: u16 = 3;
pub const FK_ENOSPC: u16 = 4;
pub const FK_EDQUOT: u16 = 5;
pub const FK_EACCES: u16 = 6;
pub const FK_EMFILE: u16 = 7;
pub const FK_ENOENT: u16 = 8;
pub const FK_EISDIR: u16 = 9;
pub const FK_WRITE0: u16 = 10;
pub const FK_CRASH: u16 = 11;
pub const FK_TORNCRASH: u16 = 12;
pub const FK_SIZELIE: u16 = 13;
pub const FK_EXT_TRUNC: u16 = 14;
pub const FK_EXT_APPEND: u16 = 15;
pub const FK_EXT_FLIP: u16 = 16;
pub const FK_STATFAIL: u16 = 17;
pub const FK_EROFS: u16 = 18;
pub const FK_DISKFULL: u16 = 19;
pub const FK_ESTALE: u16 = 20;
pub const FK_ERRNO: u16 = 21;
pub const FK_STDFAIL: u16 = 22;
pub const FK_SPURIOUS: u16 = 24;
pub const FK_WAKEORDER: u16 = 25;
pub const FK_RNG_EXTREME: u16 = 26;
pub const FK_CALLER_PANIC: u16 = 27;
pub const FK_CALLER_ERROR: u16 = 28;
pub const FK_CALLER_REENTER: u16 = 29;
pub const FK_STORE_FAIL: u16 = 30;
pub const FK_CORRUPT: u16 = 31;
pub const FK_HASHSEED: u16 = 32;
pub const FK_STARVE: u16 = 33;
pub const FK_SLOWCLOCK: u16 = 34;
pub const FK_CLOCKJUMP: u16 = 35;

pub fn fault_name(k: usize) -> &'static str {
    match k as u16 {
        FK_EINTR => "interrupted_call", FK_SHORT => "short_read_or_write", FK_EIO => "io_error", FK_ENOSPC => "no_space",
        FK_EDQUOT => "quota_exceeded", FK_EACCES => "access_denied", FK_EMFILE => "too_many_open_files", FK_ENOENT => "file_vanished",
        FK_EISDIR => "is_a_directory", FK_WRITE0 => "write_returned_zero", FK_CRASH => "process_crash", FK_TORNCRASH => "crash_mid_write",
        FK_SIZELIE => "misleading_file_size", FK_EXT_TRUNC => "file_truncated_by_other", FK_EXT_APPEND => "file_appended_by_other",
        FK_EXT_FLIP => "file_byte_changed_by_other", FK_STATFAIL => "stat_failed", FK_EROFS => "read_only_file_system",
        FK_DISKFULL => "disk_filled_up", FK_ESTALE => "stale_handle", FK_ERRNO => "other_error_code", FK_STDFAIL => "standard_output_failed", FK_SPURIOUS => "spurious_wakeup", FK_WAKEORDER => "unfair_wake_order",
        FK_RNG_EXTREME => "extreme_random_draw", FK_CALLER_PANIC => "caller_code_panicked", FK_CALLER_ERROR => "caller_code_failed",
        FK_CALLER_REENTER => "caller_code_reentered", FK_STORE_FAIL => "caller_store_failed", FK_CORRUPT => "stored_bytes_corrupted",
        FK_HASHSEED => "hash_seed_changed", FK_STARVE => "thread_starved", FK_SLOWCLOCK => "clock_read_while_slow", FK_CLOCKJUMP => "clock_jumped",
        _ => "other",
    }
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct IoFaultC { pub idx: u32, pub kind: u16, pub pad: u16, pub arg: u32 }
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Swtch { pub step: u32, pub tid: u32 }

#[repr(C)]
pub struct SimFile {
    pub used: u32, pub is_dir: u32, pub no_access: u32,
    pub len: u32,
    pub opened_w: u32, pub read_bytes: u32, pub created: u32, pub removed: u32,
    pub n_hard: u32, pub n_ext: u32, pub n_stat: u32, pub version: u32, pub fdeliv_len: u32, pub pad: u32,
    pub fdeliv: [u8; FDELIV_CAP],
    pub name: [u8; NAME_CAP],
    pub data: [u8; FILE_CAP],
}

#[repr(C)]
pub struct Shm {
    pub seed: u64,
    pub strategy: u32, pub p_switch: u32, pub pct_d: u32, pub pct_len: u32, pub site_mod: u32, pub site_key: u32,
    pub p_spurious: u32, pub p_wakeorder: u32, pub p_rng_extreme: u32, pub rng_mode: u32, pub starve_tid1: u32, pub starve_steps: u32, pub p_stall: u32, pub stall_len: u32,
    pub p_jump: u32, pub pad2: u32, pub tick: u64,
    pub step_limit: u64,
    pub disk_free: i64,
    pub n_iofaults: u32, pub n_explicit: u32, pub io_enabled: u32, pub pad0: u32,
    pub iof: [IoFaultC; MAX_IOFAULTS],
    pub status: u32, pub n_trace: u32, pub verdict_len: u32, pub crash_io: u32,
    pub steps: u64, pub switches: u64, pub forced: u64, pub preempt_in_op: u64, pub loghash: u64, pub ilhash: u64, pub vtime: u64, pub now_seq: u64,
    pub io_calls: u32, pub io_reads: u32, pub io_writes: u32, pub io_opens: u32,
    pub rng_draws: u64, pub entropy_bytes: u64,
    pub max_threads: u32, pub spawned: u32,
    pub fault_fired: [u32; N_FAULT_KINDS],
    pub deliv_len: u32, pub out_len: u32, pub err_len: u32, pub iolog_len: u32,
    pub real_passthrough: u32, pub pad1: u32,
    pub deliv: [u8; DELIV_CAP],
    pub out: [u8; 65536],
    pub err: [u8; 65536],
    pub iolog: [u8; IOLOG_CAP],
    pub verdict: [u8; VERDICT_CAP],
    pub sitepair: [u8; SITE_MAP],
    pub explicit_: [Swtch; MAX_EXPLICIT],
    pub trace: [Swtch; MAX_TRACE],
    pub files: [SimFile; MAX_FILES],
}

extern "C" {
    pub fn rt_shm() -> *mut Shm;
    pub fn rt_shm_size() -> usize;
    pub fn rt_shm_open(path: *const c_char, create: c_int) -> *mut Shm;
    pub fn rt_begin();
    pub fn rt_end();
    pub fn rt_seq() -> u64;
    pub fn rt_self() -> c_int;
    pub fn rt_op(inside: c_int);
    pub fn rt_gate_wait();
    pub fn rt_gate_open();
    pub fn rt_gate_count() -> c_int;
    pub fn rt_yield();
    pub fn rt_fault(kind: c_int);
    pub fn rt_logmix(v: u64);
    pub fn rt_file_put(path: *const c_char, d: *const u8, n: usize) -> c_int;
    pub fn rt_file_find(path: *const c_char) -> c_int;
    pub fn rt_file_remove(path: *const c_char) -> c_int;
    pub fn rt_fs_reset();
    pub fn rt_fs_reboot();
}

pub fn shm() -> &'static mut Shm { unsafe { &mut *rt_shm() } }
pub fn seq() -> u64 { unsafe { rt_seq() } }
pub fn yield_now() { unsafe { rt_yield() } }
pub fn fault(k: u16) { unsafe { rt_fault(k as c_int) } }
pub fn in_op(b: bool) { unsafe { rt_op(b as c_int) } }

pub fn check_layout() {
    let n = unsafe { rt_shm_size() };
    assert_eq!(n, std::mem::size_of::<Shm>(), "struct shm: C and Rust layouts differ");
}

/// splitmix64 based generator for everything the harness decides.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { let mut r = Rng(seed); r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { ((self.next() >> 32) as usize) % n } }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    /// true with probability `pct` per cent
    pub fn pct(&mut self, pct: u32) -> bool { (self.next() >> 32) % 100 < pct as u64 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut x = self.below(total as usize) as u32;
        for (i, k) in w.iter().enumerate() { if x < *k { return i } x -= *k; }
        w.len() - 1
    }
}

pub fn hash64(parts: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for p in parts { let mut r = Rng(h ^ p.wrapping_mul(0x9E3779B97F4A7C15)); h = r.next() ^ h.rotate_left(17); }
    h
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b { h = (h ^ *x as u64).wrapping_mul(0x100000001b3); }
    h ^ (h >> 31)
}
