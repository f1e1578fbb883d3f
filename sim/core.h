// Deterministic simulation core: public interface for workloads.
//
// Everything in the simulated process that could differ between two
// executions (which thread runs, what time it is, what the disk does, whether
// an allocation fails) is decided here from one seed, or from a replay file.
#ifndef SIM_CORE_H
#define SIM_CORE_H

#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <functional>

namespace sim {

//---------------------------------------------------------------------------
// Random numbers (splitmix64 / xorshift): every stream derives from the seed.
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); } // inclusive
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
  Rng fork() { return Rng(next()); }
};
uint64_t mix(uint64_t a, uint64_t b);

//---------------------------------------------------------------------------
// Fault kinds the simulator can inject.
enum Fault {
  F_NONE = 0,
  F_READ_EIO,      // read()/pread() fails with EIO
  F_READ_SHORT,    // read() returns fewer bytes than asked (legal)
  F_READ_EOF,      // read() returns 0 although data remains
  F_EINTR,         // read()/write() interrupted before any transfer (legal)
  F_WRITE_EIO,     // write()/pwrite() fails with EIO
  F_WRITE_SHORT,   // write() transfers fewer bytes (legal)
  F_ENOSPC,        // disk becomes full (sticky until the disk is freed)
  F_OPEN_FAIL,     // open fails with EMFILE/EACCES/EIO
  F_CLOSE_EIO,     // close() reports EIO
  F_ALLOC,         // operator new throws bad_alloc
  F_DELAY,         // I/O call takes long: other threads run meanwhile
  F_STALL,         // a thread is descheduled for a long time
  F_SPURIOUS,      // spurious condition wake-up
  F_TRUNCATE,      // stored file cut short (by the workload)
  F_FLIP,          // stored bytes damaged (by the workload)
  F_CRASH,         // crash image taken / process killed (by the workload)
  F_TORN,          // crash in the middle of one write (by the workload)
  F_CLOCKJUMP,     // simulated clock jumps forward
  F_H5_READ,       // an HDF5 open/read call returns failure
  F_H5_WRITE,      // an HDF5 create/write call returns failure
  F_THREAD,        // a thread cannot be created (EAGAIN)
  F_COUNT
};
extern const char *fault_names[F_COUNT];

// Per-run fault policy; probabilities per eligible operation.
struct FaultPolicy {
  double p[F_COUNT];
  int    max_hard;        // at most this many hard faults per window (-1: no limit)
  uint64_t disk_capacity; // bytes before ENOSPC (0: unlimited)
  int    exact_kind;      // inject exactly one fault of this kind...
  int    exact_at;        // ...at the n-th eligible operation (-1: off)
  size_t alloc_min;       // only allocations of at least this size may fail
  FaultPolicy();
};
FaultPolicy &faults();
// Hard faults (EIO, ENOSPC, open/close failures, failing allocations) are only
// injected while a window is open; benign ones (short transfers, EINTR, delay)
// whenever their probability is positive.
void open_fault_window();
void close_fault_window();
bool fault_window_open();
// Number of eligible operations seen (for exact placement) for a kind.
uint64_t eligible_count(int kind);
uint64_t fault_count(int kind);     // fired in this run
uint64_t hard_faults_fired();       // hard faults fired in this run
void count_fault(int kind, uint64_t n = 1); // workload-made faults

//---------------------------------------------------------------------------
// Run services
Rng &wl_rng();                        // workload stream
bool op_enabled(int i);               // op i not removed by the minimiser
void describe(const char *fmt, ...);  // human readable case description (appends)
void hash_obs(uint64_t v);            // mix an observation into the run hash
void probe(const char *name);         // "this rare condition was hit"
void set_nontrivial(bool v);
void note(const char *fmt, ...);      // verbose log (replay -v only)
extern bool g_verbose;

// Report a violation and end the run. cls identifies the kind of violation.
void violation(const char *cls, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
// The run is not a valid test of anything (harness precondition failed)
void harness_error(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));

// Allocations of this thread, and of threads it creates, may fail while alive
// (inside an open fault window). Only around calls into the library.
struct AllocFaults { AllocFaults(); ~AllocFaults(); };

// Oracle code inside threads: no preemption while alive.
struct Quiet { Quiet(); ~Quiet(); };

//---------------------------------------------------------------------------
// Threads
struct Thread {
  void *impl;
  Thread() : impl(0) {}
};
Thread spawn(std::function<void()> fn);
void join(Thread &t);
void yield_point();             // explicit scheduling point
int  self();                    // simulated thread id
uint64_t now_ns();
uint64_t steps();
void set_step_limit(uint64_t n);
// report accesses that nothing orders (call it before threads are started)
void race_checks(bool on);
// A scheduling decision belongs to this many "weighted" events on average.
struct SchedPolicy {
  int mode;            // 0 random, 1 priority (PCT), 2 no preemption at accesses, 3 round robin
  double p_sync;       // switch probability at synchronisation points
  double mean_access;  // mean weighted accesses between preemptions
  int pct_depth;       // number of priority change points
  uint64_t pct_len;    // assumed length in weighted events
  bool delays;         // simulated I/O latency
  double p_hold;       // a preempted thread stays off the processor for a while
};
SchedPolicy &sched_policy();
void default_policies(Rng &r);  // draws SchedPolicy (swarm style)
uint64_t switches();            // context switches so far

//---------------------------------------------------------------------------
// Memory
uint64_t live_allocs_of_size(size_t sz);  // live operator-new blocks of that size
uint64_t live_bytes();
uint64_t total_allocs();
void check_range(const void *p, size_t n, bool write, const char *what);
bool is_freed(const void *p);             // points into a freed operator-new block

//---------------------------------------------------------------------------
// HDF5 entry tracking
void h5_enter(const char *fn);
void h5_leave();
bool h5_fail(bool write);                 // should this HDF5 call fail?
extern bool g_h5_check;
uint64_t h5_entries();

} // namespace sim

//---------------------------------------------------------------------------
// Virtual disk
namespace vfs {

typedef std::vector<unsigned char> Bytes;
bool  exists(const std::string &path);
Bytes get(const std::string &path);                   // content (empty if none)
void  put(const std::string &path, const Bytes &b);   // creates a new inode
void  remove(const std::string &path);
int   open_fds();                                     // open virtual descriptors
uint64_t io_ops();                                    // virtual I/O calls so far
void  free_disk();                                    // ends a disk-full condition
// Log of the mutations of one path since start_log(), for crash images.
void     start_log(const std::string &path);
size_t   log_size();                 // number of entries (writes, truncations)
size_t   log_len(size_t i);          // bytes written by entry i (0: truncation)
void     stop_log();
// Disk image after `n` complete entries plus `torn` bytes of entry n.
Bytes    image(size_t n, size_t torn);

} // namespace vfs

//---------------------------------------------------------------------------
// Workload registry
struct Workload {
  const char *name;
  const char *property;
  void (*fn)();
  double weight;
};
struct RegisterWorkload { RegisterWorkload(const char *name, const char *prop, void (*fn)(), double weight = 1.0); };
#define WORKLOAD(prop, name) \
  static void wl_##name(); \
  static RegisterWorkload reg_##name(#name, #prop, wl_##name); \
  static void wl_##name()
#define WORKLOAD_W(prop, name, w) \
  static void wl_##name(); \
  static RegisterWorkload reg_##name(#name, #prop, wl_##name, w); \
  static void wl_##name()

#endif
