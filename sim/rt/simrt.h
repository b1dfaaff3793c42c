// Shared between simrt.c and (mirrored by) src/rt.rs. One instance per run, in memory shared with the parent.
#pragma once
#include <stdint.h>

#define MAX_THREADS 144
#define MAX_EXPLICIT 400000
#define MAX_TRACE 400000
#define MAX_IOFAULTS 64
#define N_FAULT_KINDS 40
#define MAX_FILES 20
#define FDELIV_CAP (1u << 16)
#define NAME_CAP 320
#define FILE_CAP (1u << 24)
#define VERDICT_CAP (1u << 18)
#define SITE_MAP (1u << 16)
#define DELIV_CAP (1u << 22)
#define IOLOG_CAP (1u << 15)

enum strategy { STRAT_RANDOM = 0, STRAT_PCT = 1, STRAT_SITE = 2, STRAT_EXPLICIT = 3, STRAT_SOLO = 4 };

enum run_status { RS_RUNNING = 0, RS_OK = 1, RS_VIOLATION = 2, RS_DEADLOCK = 3, RS_LIVELOCK = 4, RS_CRASHPOINT = 5,
                  RS_HARNESS = 6 };

// Fault kinds: index into fault_fired. Kinds below FK_IO_END can appear in an I/O fault plan.
enum fault_kind {
    FK_NONE = 0,
    FK_EINTR = 1,       // open/read/write interrupted before anything happened
    FK_SHORT = 2,       // read/write transfers only arg bytes (at least 1)
    FK_EIO = 3,         // open/read/write/fsync/truncate/rename fails with EIO
    FK_ENOSPC = 4,      // write/creating open fails, disk full
    FK_EDQUOT = 5,
    FK_EACCES = 6,      // open fails
    FK_EMFILE = 7,      // open fails
    FK_ENOENT = 8,      // open fails
    FK_EISDIR = 9,      // read fails (it was a directory) / open for writing fails
    FK_WRITE0 = 10,     // write returns 0
    FK_CRASH = 11,      // process dies before this call
    FK_TORNCRASH = 12,  // write transfers arg bytes, then the process dies
    FK_SIZELIE = 13,    // stat reports size arg
    FK_EXT_TRUNC = 14,  // another process truncates the file to arg bytes before this call
    FK_EXT_APPEND = 15, // another process appends arg bytes (copied from the start of the file)
    FK_EXT_FLIP = 16,   // another process flips a byte at offset arg
    FK_STATFAIL = 17,   // stat fails with EIO
    FK_EROFS = 18,      // creating/writing open fails
    FK_DISKFULL = 19,   // fired when the free-space budget runs out (not planned by index)
    FK_ESTALE = 20,     // read/write fails with ESTALE
    FK_ERRNO = 21,      // open/read/write/fsync/truncate fails with one of a list of other error codes, chosen by arg
    FK_STDFAIL = 22,    // writing to standard output fails
    FK_IO_END = 23,
    FK_SPURIOUS = 24,   // futex wait returns early
    FK_WAKEORDER = 25,  // futex wake picked someone other than the longest waiter
    FK_RNG_EXTREME = 26,
    FK_CALLER_PANIC = 27,   // counted by the harness
    FK_CALLER_ERROR = 28,
    FK_CALLER_REENTER = 29,
    FK_STORE_FAIL = 30,
    FK_CORRUPT = 31,
    FK_HASHSEED = 32,
    FK_STARVE = 33,     // a thread was held back for a long stretch
    FK_SLOWCLOCK = 34,  // the clock was read in a run whose steps take long
    FK_CLOCKJUMP = 35,  // the clock jumped (forwards; the wall clock both ways)
};

struct iofault { uint32_t idx; uint16_t kind; uint16_t pad; uint32_t arg; };
struct swtch { uint32_t step; uint32_t tid; };

struct simfile {
    uint32_t used, is_dir, no_access;
    uint32_t len;
    uint32_t opened_w, read_bytes, created, removed;
    uint32_t n_hard, n_ext, n_stat, version, fdeliv_len, pad; // faults that hit this file; content version; bytes delivered since it was last opened for reading
    uint8_t fdeliv[FDELIV_CAP];
    char name[NAME_CAP];
    uint8_t data[FILE_CAP];
};

struct shm {
    // ---- configuration
    uint64_t seed;
    uint32_t strategy, p_switch, pct_d, pct_len, site_mod, site_key;
    uint32_t p_spurious, p_wakeorder, p_rng_extreme, rng_mode, starve_tid1, starve_steps, p_stall, stall_len;
    uint32_t p_jump, pad2; // chance of a clock jump at a scheduling point, in 2^-20
    uint64_t tick; // virtual nanoseconds per scheduling point
    uint64_t step_limit;
    int64_t disk_free;
    uint32_t n_iofaults, n_explicit, io_enabled, pad0;
    struct iofault iof[MAX_IOFAULTS];
    // ---- results
    uint32_t status, n_trace, verdict_len, crash_io;
    uint64_t steps, switches, forced, preempt_in_op, loghash, ilhash, vtime, now_seq;
    uint32_t io_calls, io_reads, io_writes, io_opens;
    uint64_t rng_draws, entropy_bytes;
    uint32_t max_threads, spawned;
    uint32_t fault_fired[N_FAULT_KINDS];
    uint32_t deliv_len, out_len, err_len, iolog_len;
    uint32_t real_passthrough, pad1;
    // ---- bulk
    uint8_t deliv[DELIV_CAP];   // bytes delivered by read() since the last open for reading
    char out[65536];
    char err[65536];
    char iolog[IOLOG_CAP];
    char verdict[VERDICT_CAP];
    uint8_t sitepair[SITE_MAP]; // accumulated over runs
    struct swtch explicit_[MAX_EXPLICIT];
    struct swtch trace[MAX_TRACE];
    struct simfile files[MAX_FILES];
};
