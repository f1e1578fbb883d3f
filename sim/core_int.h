// Internals shared by core.cpp, vfs.cpp and runner.cpp
#ifndef SIM_CORE_INT_H
#define SIM_CORE_INT_H
#include "core.h"
#include <sys/types.h>

namespace sim {

enum { MAXSW = 300000, MAXFL = 20000, MAXPROBE = 96, MAXTHREADS = 256 };
enum { ST_OK = 0, ST_VIOLATION = 1, ST_HARNESS = 2, ST_RUNNING = 3 };

struct SwRec { uint64_t key; int32_t tid; int32_t forced; };
struct FlRec { uint64_t idx; int32_t kind; int32_t pad; uint64_t param; };

struct Result {
  int status;
  char cls[64];
  char msg[6000];
  char desc[3000];
  uint64_t hash, trace_hash, steps, clk, nswitch, preempt, simtime, io, h5;
  int nthreads, nontrivial, max_op, sw_overflow;
  uint64_t faults[F_COUNT];
  int nprobes;
  char probes[MAXPROBE][48];
  uint64_t probe_hits[MAXPROBE];
  uint32_t nsw, nfl;
  SwRec sw[MAXSW];
  FlRec fl[MAXFL];
};

struct ReplaySpec {
  bool explicit_mode = false;      // schedule and faults from the lists below
  std::vector<int> skip;           // removed workload operations (sorted)
  std::vector<SwRec> sw;
  std::vector<FlRec> fl;
};

extern bool g_race_default;
extern Result *R;
extern bool g_use_malloc;   // allocations of the driver itself

// Runs one simulated run in the calling process (a forked child); never returns.
void run_child(void (*fn)(), uint64_t seed, const ReplaySpec &spec) __attribute__((noreturn));

// fault decision for one I/O or allocation event; returns kind or F_NONE
int fault_decide(const int *kinds, int n, uint64_t *param);
// scheduling point around an I/O call
void io_point();
bool active();
void finish_ok() __attribute__((noreturn));
void hash_ev(uint64_t v);

} // namespace sim

namespace vfs { void reset(); extern uint64_t g_io; }
#endif
