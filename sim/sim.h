// Deterministic simulator used by every check in /verif.
// One run = one forked child process that executes scenario() under full control of:
//   W stream  workload choices      S stream  schedule choices     F stream  fault choices
// A run is completely determined by the three recorded choice sequences.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <cstdarg>

namespace sim {

enum Stream { W = 0, S = 1, F = 2, NSTREAM = 3 };

// ---------------------------------------------------------------- choices
uint32_t draw(Stream s, uint32_t n);                  // uniform in [0,n); 0 is the "simplest" value
uint32_t drawv(Stream s, uint32_t n, uint32_t gen);   // like draw, generation-time value supplied by caller
bool     chance(Stream s, uint32_t num, uint32_t den);// true with probability num/den (0/false simplest)
uint64_t rnd(Stream s);                               // raw PRNG value (not recorded; generation only)
double   real(double lo, double hi);                  // workload real, 1/4096 grid incl. "nice" values
inline uint32_t w(uint32_t n) { return draw(W, n); }
inline int wi(int lo, int hi) { return lo + (int)draw(W, (uint32_t)(hi - lo + 1)); }
bool replaying();
bool thorough();

// ---------------------------------------------------------------- observations
void site(const char* fmt, ...);                      // current operation (names the culprit of a crash)
const char* current_site();
void hash(uint64_t v);
void hash_bytes(const void* p, size_t n);
void trace(const char* fmt, ...);                     // human readable event log (also hashed)
void count(const char* name, uint64_t n = 1);         // coverage counters ("fault:..." are fault kinds)
void state(uint64_t h);                               // a distinct state / case reached
void nontrivial();                                    // marks this run as non-trivial
[[noreturn]] void fail(const char* kind, const char* fmt, ...);
// true if (kind, site) is listed as a known finding: counts it and lets the run go on
bool known(const char* kind, const char* where);
// report: known finding -> counted, continue; otherwise fail()
void violation(const char* kind, const char* where, const char* fmt, ...);
[[noreturn]] void finish();                           // end this run successfully now
void progress_mark();                                 // resets the no-progress watchdog

// ---------------------------------------------------------------- threads (tsan-instrumented builds)
struct ThreadCfg {
    uint64_t max_steps = 400000;
    bool mem_preempt = true;       // preempt at plain memory accesses
    bool spurious = true;          // spurious condition wakeups
    bool races = true;             // run the happens-before race detector
    uint32_t unfair_cap = 3000;
};
void threads_begin(const ThreadCfg& c);
void threads_end();
bool threads_active();
int  self();
uint64_t now_ns();                 // simulated monotonic time
uint64_t steps();
void yield_point(const char* what);
void advance_ns(uint64_t ns);
int  live_threads();
void race_ignore_begin();
void race_ignore_end();
extern int g_fail_thread_create_at;   // k>0: k-th pthread_create from now fails with EAGAIN
extern uint64_t g_threads_created;

// event log (not instrumented, total order = execution order)
struct Ev { int32_t kind, tid; int64_t a, b; uint64_t t; };
uint32_t ev(int kind, int64_t a = 0, int64_t b = 0);
uint32_t ev_count();
const Ev& ev_get(uint32_t i);

// ---------------------------------------------------------------- clock / entropy
void clock_reset();
void wall_jump(int64_t ns);
void set_read_tick(uint64_t ns);   // time that passes per clock read
extern uint64_t g_clock_reads_wall, g_clock_reads_mono;
void entropy_seed(uint64_t s);
void entropy_broken(bool on);      // the entropy source fails for the calling thread
extern uint64_t g_entropy_draws;

// ---------------------------------------------------------------- memory
struct AllocStats { uint64_t allocs, frees, live_blocks, live_bytes, failed, peak_bytes, huge, max_request; };
AllocStats alloc_stats();
void alloc_peak_reset();                               // restart peak_bytes (from the live bytes now) and max_request
void alloc_fail_at(uint64_t k, uint64_t count = 1);    // k-th allocation from now fails (k>=1); count consecutive
void alloc_fail_off();
void alloc_limit(size_t max_single);                   // larger single requests fail with bad_alloc
void alloc_fill(uint8_t pattern);                      // content of fresh heap memory
uint64_t alloc_mark();                                 // sequence number for leak scoping
uint64_t alloc_live_since(uint64_t mark);              // blocks allocated after mark and still live
void alloc_track(bool on);
void paint_stack(uint8_t pattern);

} // namespace sim

// supplied by the check
extern const char* const SIM_CHECK_ID;
void scenario();
// optional (weak): warm-up executed once in the zygote before forking
void sim_warmup();

// ---------------------------------------------------------------- simulated disk (sim/disk.cpp)
// While armed, every file opened by the process lives in memory: nothing reaches the real disk.
namespace sim {
struct DiskPlan {
    int open_fail_at = 0, open_errno = 0;          // k-th open fails
    int64_t capacity = -1;                         // bytes that can still be written before the disk is full
    int write_fail_at = 0, write_errno = 0, write_fail_count = 1 << 30;   // k-th write call fails (count: how many in a row)
    int close_fail_at = 0, close_errno = 0;        // k-th close reports a deferred error
    int read_fail_at = 0, read_errno = 0, read_fail_count = 1 << 30;      // k-th read call fails
    bool short_io = false;                         // reads and writes transfer fewer bytes than asked
    bool interrupt = false;                        // EINTR before a transfer
    int64_t crash_at_byte = -1;                    // power cut: nothing after this many written bytes reaches the disk
};
void disk_arm(bool on);                            // forgets handles and counters, keeps files
void disk_plan(const DiskPlan& p);                 // resets the operation counters
void disk_no_faults();
void disk_put(const char* name, const void* data, size_t n);
bool disk_get(const char* name, std::string& out);
bool disk_exists(const char* name);
void disk_remove(const char* name);
int disk_handles();                                // currently open handles
struct DiskStats { uint64_t opens, reads, writes, closes, bytes_written, open_failed, write_failed, close_failed, read_failed, short_reads, short_writes, interrupts; };
DiskStats disk_stats();
int disk_file_count(); const char* disk_file_name(int i);
}

// ---------------------------------------------------------------- simulated processes and file names (sim/proc.cpp)
// While armed: paths below /simproj and relative paths name a simulated tree (folders, symbolic links, the files of the simulated disk); fork really forks, but the
// child ends at its exec (recorded) and the parent sees a simulated program whose end the plan decides.
namespace sim {
struct ProcPlan {
    int fork_errno = 0;                 // fork/vfork/posix_spawn fails
    int exec_errno = 0;                 // exec fails
    int exit_code = 0, sig = 0;         // how the program ends
    int eintr = 0;                      // blocking waits interrupted this many times before the child is reaped
    bool echild = false;                // status is lost (SIGCHLD ignored, reaped by someone else)
    uint64_t run_ns = 0;                // how long the program runs
    int child_alloc_fail = 0;           // in the forked copy every allocation from the k-th on fails
    int fs_fail_at = 0, fs_errno = 0, fs_fail_count = 1;   // k-th stat/lstat/realpath/mkdir on a simulated path fails
};
struct Launch { bool execed, escaped, shell, reaped; int exec_tries, exit_called; int argc; char path[600]; char arg[12][600]; char ld[900]; };
void proc_arm(bool on);
void proc_plan(const ProcPlan& p);      // clears the launches too
int proc_forks(); int proc_fork_failed(); int proc_kills(); int proc_eintrs(); int proc_fs_failed();
const Launch& proc_launch(int i);
bool proc_in_child();                   // true in the forked copy: control came back to the scenario
[[noreturn]] void proc_child_escaped();
void vfs_reset();
void vfs_dir(const char* p);
void vfs_link(const char* p, const char* target);
bool vfs_is_dir(const char* p);
int vfs_resolve(const char* p, bool follow_last, bool must_exist, std::string& out);   // 0 or errno; out: real path without links
int vfs_dir_count(); const char* vfs_dir_name(int i);
}
