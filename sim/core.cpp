// Deterministic simulation core: scheduler, threads and synchronisation,
// clock, memory-access scheduling points (own runtime behind the compiler's
// -fsanitize=thread instrumentation), checked heap, fault decisions.
//
// Not instrumented itself.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "core_int.h"
#include <pthread.h>
#include <sched.h>
#include <dlfcn.h>
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <limits.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <execinfo.h>
#include <cxxabi.h>
#include <new>
#include <exception>
#include <typeinfo>
#include <algorithm>

extern "C" { extern char __data_start; extern char _end; }

namespace sim {

const char *fault_names[F_COUNT] = {
  "none","read_eio","read_short","read_eof","eintr","write_eio","write_short",
  "enospc","open_fail","close_eio","alloc_fail","io_delay","thread_stall","spurious_wakeup",
  "truncated_file","flipped_bytes","crash","torn_write","clock_jump","hdf5_read_fail","hdf5_write_fail","thread_create_fail"};

Result *R = 0;
bool g_race_default = false;
bool g_verbose = false;
bool g_h5_check = true;

uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a ^ (b + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2));
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

//---------------------------------------------------------------------------
// Address space: heap arena and thread stacks at fixed addresses, shadow.

static const uintptr_t HEAP_BASE = 0x200000000000ULL;
static const uintptr_t HEAP_SIZE = 768ULL << 20;
static const uintptr_t RUN_OFF   = 64ULL << 20;     // run allocations start here
static const uintptr_t STK_BASE  = HEAP_BASE + HEAP_SIZE;
static const size_t    STK_SLOT  = 1ULL << 20;
static const uintptr_t REG_SIZE  = HEAP_SIZE + (uintptr_t)MAXTHREADS * STK_SLOT;

struct Shadow { uint8_t state, tid; };  // per 8 bytes; state bits: 0..1 kind, 7 shared
enum { SH_BAD = 0, SH_LIVE = 1, SH_FREED = 2, SH_KIND = 3, SH_SHARED = 0x80 };

static Shadow *g_shadow = 0;
static Shadow *g_gshadow = 0;         // globals
static uintptr_t g_glo = 0, g_gsz = 0;
static uintptr_t g_bump = 0;          // next free offset in heap
static bool g_arena_ok = false;
static uint64_t g_live_bytes = 0, g_allocs = 0;

static const uint64_t NEVER = ~0ULL;

// --- hot state -------------------------------------------------------------
struct Hot {
  bool on;                // inside a simulated run
  int cur;                // running thread
  int noresched;          // >0: no preemption
  int nrun;               // other runnable (or sleeping-expired) threads hint
  uint64_t steps, clk, next;
} ;
static Hot g = { false, 0, 0, 0, 0, 0, NEVER };
static uint64_t g_step_limit = 400000000ULL, g_next_step = NEVER;

static void access_slow();
static void step_slow();
static void bad_access(uintptr_t a, size_t n, bool w, int st, const char *what) __attribute__((noreturn));


//---------------------------------------------------------------------------
// Unordered accesses (opt-in per workload): every thread has a vector clock,
// carried along by mutexes, atomics, thread start and end, one-time guards.
// Two accesses of different threads to the same bytes, at least one a write,
// that no such edge orders are a data race, whether or not this run's
// schedule made it show.
struct RCell { uint32_t ep, pc; uint8_t tid, mask, fl, pad; };   // fl: 1 write, 2 atomic
enum { RCELLS = 4, RT = 64 };
static RCell *g_rcell = 0, *g_grcell = 0;
static bool g_race = false;
struct VC { uint32_t c[RT]; };
static VC g_vc[RT];
struct SyncVar { const void *addr; VC vc; };
enum { SVTAB = 1 << 18 };
static SyncVar *g_sv = 0;
static VC &sync_vc(const void *a) {
  uint64_t h = ((uintptr_t)a >> 2) * 0x9E3779B97F4A7C15ULL >> 40;
  for (int i = 0; i < SVTAB; i++) { SyncVar &v = g_sv[(h + i) & (SVTAB - 1)]; if (v.addr == a) return v.vc; if (!v.addr) { v.addr = a; return v.vc; } }
  fprintf(stderr, "sim: table of synchronisation objects full\n"); _exit(3);
}
static int g_nthreads = 0;
static void vjoin(VC &d, const VC &s) { for (int i = 0; i < g_nthreads; i++) if (s.c[i] > d.c[i]) d.c[i] = s.c[i]; }
static void hb_acquire(const void *a);
static void hb_release(const void *a);
static void race_access(uintptr_t a, size_t n, bool w, bool at, uintptr_t pc);

static void arena_init() {
  if (g_arena_ok) return;
  void *p = mmap((void *)HEAP_BASE, REG_SIZE, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)HEAP_BASE) { fprintf(stderr, "sim: cannot map arena\n"); _exit(3); }
  g_shadow = (Shadow *)mmap(0, (REG_SIZE >> 3) * sizeof(Shadow), PROT_READ | PROT_WRITE,
                            MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_glo = (uintptr_t)&__data_start & ~7ULL;
  g_gsz = ((uintptr_t)&_end - g_glo + 7) & ~7ULL;
  g_gshadow = (Shadow *)mmap(0, (g_gsz >> 3) * sizeof(Shadow) + 4096, PROT_READ | PROT_WRITE,
                             MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (g_shadow == MAP_FAILED || g_gshadow == MAP_FAILED) { fprintf(stderr, "sim: cannot map shadow\n"); _exit(3); }
  g_arena_ok = true;
}

//---------------------------------------------------------------------------
// Threads

enum TState { T_FREE = 0, T_RUN, T_BLOCKED, T_SLEEP, T_DONE };
enum Why { W_NONE, W_MUTEX, W_COND, W_JOIN, W_ONCE, W_GUARD, W_RW, W_DELAY, W_SEM };
static const char *why_names[] = { "", "mutex", "condition", "join", "once", "static-init guard", "rwlock", "delay", "semaphore" };

struct SimThread {
  int state; int why; const void *obj; uint64_t wake_at; bool timed; bool timedout;
  int fut; uint64_t prio; bool detached; bool joined; bool finished;
  pthread_t real; void *(*start)(void *); void *arg; void *ret;
  int slot; int dtor_iter; uint64_t ran; int noresched;
  std::function<void()> *fn;
  int h5_depth;
  int alloc_ok;   // allocation faults may hit this thread
};
static SimThread T[MAXTHREADS];
static bool g_slot_used[MAXTHREADS];
static __thread int t_self = -1;

static SchedPolicy g_pol = { 0, 0.3, 400, 3, 20000, false, 0 };
static FaultPolicy g_fp;
static Rng g_rwl(1), g_rsched(2), g_rfault(3), g_rpol(4);
static uint64_t g_now = 0;
static bool g_window = false;
static uint64_t g_hard = 0, g_elig[F_COUNT], g_fidx = 0, g_hard_in_window = 0;
static const ReplaySpec *g_spec = 0;
static size_t g_spec_sw = 0;
static std::vector<uint64_t> *g_pct = 0; static size_t g_pct_i = 0;
static uint64_t g_prio_low = 1000;
static bool g_fair = false;
static uint64_t g_sincesw = 0;
static uint64_t g_hash = 0, g_thash = 0;

FaultPolicy::FaultPolicy() : max_hard(1), disk_capacity(0), exact_kind(F_NONE), exact_at(-1), alloc_min(0)
{ for (int i = 0; i < F_COUNT; i++) p[i] = 0; }

FaultPolicy &faults() { return g_fp; }
SchedPolicy &sched_policy() { return g_pol; }
bool active() { return g.on; }
uint64_t now_ns() { return g_now; }
uint64_t steps() { return g.steps; }
int self() { return g.cur; }
void hash_ev(uint64_t v) { g_hash = mix(g_hash, v); }
void hash_obs(uint64_t v) { g_hash = mix(g_hash, v ^ 0x5bd1e995); }
Rng &wl_rng() { return g_rwl; }
uint64_t switches() { return R ? R->nswitch : 0; }

bool op_enabled(int i) {
  if (R && i > R->max_op) R->max_op = i;
  if (!g_spec) return true;
  return !std::binary_search(g_spec->skip.begin(), g_spec->skip.end(), i);
}
void describe(const char *fmt, ...) {
  size_t l = strlen(R->desc);
  if (l + 8 >= sizeof(R->desc)) return;
  va_list ap; va_start(ap, fmt); vsnprintf(R->desc + l, sizeof(R->desc) - l, fmt, ap); va_end(ap);
}
void note(const char *fmt, ...) {
  if (!g_verbose) return;
  char buf[1024]; va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf - 1, fmt, ap); va_end(ap);
  if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
  buf[n++] = '\n';
  char pre[64]; int m = snprintf(pre, sizeof pre, "[t%d clk=%llu] ", g.cur, (unsigned long long)g.clk);
  if (syscall(SYS_write, 2, pre, m) < 0 || syscall(SYS_write, 2, buf, n) < 0) return;
}
void set_nontrivial(bool v) { if (v) R->nontrivial = 1; }
void probe(const char *name) {
  int i;
  for (i = 0; i < R->nprobes; i++) if (!strncmp(R->probes[i], name, 47)) { R->probe_hits[i]++; return; }
  if (i == MAXPROBE) return;
  strncpy(R->probes[i], name, 47); R->probe_hits[i] = 1; R->nprobes++;
}

static void finalize() {
  R->hash = mix(mix(g_hash, g.clk), R->nswitch); R->trace_hash = g_thash;
  R->steps = g.steps; R->clk = g.clk; R->simtime = g_now; R->nthreads = g_nthreads;
  R->io = vfs::g_io;
}
static void die(int status, const char *cls, const char *fmt, va_list ap) __attribute__((noreturn));
static volatile int g_dying = 0;
static void die(int status, const char *cls, const char *fmt, va_list ap) {
  if (g_dying++) _exit(0);
  g.on = false;
  R->status = status;
  snprintf(R->cls, sizeof R->cls, "%s", cls);
  vsnprintf(R->msg, sizeof R->msg, fmt, ap);
  finalize();
  if (g_verbose) dprintf(2, "%s: %s: %s\n", status == ST_VIOLATION ? "VIOLATION" : "HARNESS", R->cls, R->msg);
  _exit(0);
}
void violation(const char *cls, const char *fmt, ...) { va_list ap; va_start(ap, fmt); die(ST_VIOLATION, cls, fmt, ap); }
void harness_error(const char *fmt, ...) { va_list ap; va_start(ap, fmt); die(ST_HARNESS, "harness", fmt, ap); }
void finish_ok() {
  g.on = false;
  R->status = ST_OK; finalize();
  _exit(0);
}

AllocFaults::AllocFaults() { T[g.cur].alloc_ok++; }
AllocFaults::~AllocFaults() { T[g.cur].alloc_ok--; }
Quiet::Quiet() { g.noresched++; }
Quiet::~Quiet() { g.noresched--; }

//--- futex baton -----------------------------------------------------------
static void baton_wait(int tid) {
  int *f = &T[tid].fut;
  while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0)
    syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(f, 0, __ATOMIC_RELEASE);
}
static void baton_give(int tid) {
  __atomic_store_n(&T[tid].fut, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, &T[tid].fut, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

//--- scheduling decisions ----------------------------------------------------
static void set_next() {
  // next weighted-access preemption
  if (g_spec && g_spec->explicit_mode) {
    g.next = g_spec_sw < g_spec->sw.size() ? g_spec->sw[g_spec_sw].key : NEVER;
    return;
  }
  if (g_fair) { g.next = g.clk + 400; return; }
  switch (g_pol.mode) {
    case 0: {
      double u = g_rsched.unit(); if (u < 1e-12) u = 1e-12;
      double d = -g_pol.mean_access * __builtin_log(u);
      g.next = g.clk + 1 + (uint64_t)d; break; }
    case 1:
      g.next = (g_pct && g_pct_i < g_pct->size()) ? std::max((*g_pct)[g_pct_i], g.clk + 1) : g.clk + 200000;
      break;
    case 3: g.next = g.clk + 1 + (uint64_t)g_pol.mean_access; break;
    default: g.next = NEVER;
  }
}

static void wake_sleepers() {
  for (int i = 0; i < g_nthreads; i++)
    if (T[i].state == T_SLEEP && T[i].wake_at <= g_now) { T[i].state = T_RUN; T[i].timedout = true; }
    else if (T[i].state == T_BLOCKED && T[i].timed && T[i].wake_at <= g_now) { T[i].state = T_RUN; T[i].timedout = true; T[i].timed = false; }
}
static int runnable(int *list, bool include_cur) {
  int n = 0;
  for (int i = 0; i < g_nthreads; i++)
    if (T[i].state == T_RUN && (include_cur || i != g.cur)) list[n++] = i;
  return n;
}
static void do_switch(int to, bool forced) {
  int from = g.cur;
  if (R->nsw < MAXSW) { SwRec &s = R->sw[R->nsw++]; s.key = g.clk; s.tid = to; s.forced = forced; }
  else R->sw_overflow = 1;
  if (to == from) return;
  R->nswitch++;
  if (!forced) R->preempt++;
  g_thash = mix(g_thash, g.clk * 64 + to);
  hash_ev(g.clk * 256 + to);
  g_sincesw = g.steps;
  T[from].noresched = g.noresched;
  int e = errno;
  g.cur = to;
  baton_give(to);
  if (T[from].finished) return;            // caller exits
  baton_wait(from);
  errno = e;
  g.noresched = T[from].noresched;
}
static void deadlock() {
  char buf[3000]; int n = 0; buf[0] = 0;
  for (int i = 0; i < g_nthreads; i++) {
    if (T[i].state == T_DONE || T[i].state == T_FREE) continue;
    n += snprintf(buf + n, sizeof buf - n, " thread %d waits for %s%s;", i, why_names[T[i].why], T[i].why == W_JOIN ? "" : "");
    if (n > 2800) break;
  }
  violation("deadlock", "no thread can make progress:%s", buf);
}
// index of a record for this point in explicit mode, or -1
static int explicit_target() {
  int to = -1;
  while (g_spec_sw < g_spec->sw.size() && g_spec->sw[g_spec_sw].key <= g.clk) {
    to = g_spec->sw[g_spec_sw].tid; g_spec_sw++;
  }
  set_next();
  return to;
}
static bool can_run(int t) {
  if (t < 0 || t >= g_nthreads) return false;
  return T[t].state == T_RUN || T[t].state == T_SLEEP || (T[t].state == T_BLOCKED && T[t].timed);
}
static void make_run(int t) {
  if (T[t].state == T_RUN) return;
  if (T[t].wake_at > g_now) g_now = T[t].wake_at;
  T[t].state = T_RUN; T[t].timedout = true; T[t].timed = false;
}
static int best_prio(int *l, int n) {
  int b = l[0];
  for (int i = 1; i < n; i++) if (T[l[i]].prio > T[b].prio) b = l[i];
  return b;
}
static int rr_next(int *l, int n) {
  for (int i = 0; i < n; i++) if (l[i] > g.cur) return l[i];
  return l[0];
}
static int pick_forced() {
  // the current thread cannot continue: somebody else must run
  int l[MAXTHREADS]; int n;
  wake_sleepers();
  n = runnable(l, true);      // the current one too, if its timer just expired
  if (g_spec && g_spec->explicit_mode) {
    int to = explicit_target();
    if (to >= 0 && can_run(to)) { make_run(to); return to; }
  }
  if (n == 0) {
    // jump the clock to the earliest timer
    uint64_t best = NEVER;
    for (int i = 0; i < g_nthreads; i++)
      if ((T[i].state == T_SLEEP || (T[i].state == T_BLOCKED && T[i].timed)) && T[i].wake_at < best) best = T[i].wake_at;
    if (best == NEVER) deadlock();
    g_now = best;
    wake_sleepers();
    n = runnable(l, true);   // may be the current one
  }
  if (g_spec && g_spec->explicit_mode) return l[0];
  if (g_fair) return rr_next(l, n);
  if (g_pol.mode == 1) return best_prio(l, n);
  return l[g_rsched.below(n)];
}
static void tick() { g.clk++; g_now += 200; }

static void check_fair() {
  if (!g_fair && g.steps > g_step_limit / 2 && !(g_spec && g_spec->explicit_mode)) { g_fair = true; set_next(); }
}

// voluntary scheduling point; sync: at a synchronisation operation
static void sched_point(bool sync) {
  if (!g.on) return;
  if (g.noresched > 0) { if (!sync) set_next(); return; }
  if (sync) tick();
  if (g_spec && g_spec->explicit_mode) {
    if (g.clk >= g.next) {
      int to = explicit_target();
      if (to >= 0 && to != g.cur && can_run(to)) { make_run(to); do_switch(to, false); }
    }
    return;
  }
  check_fair();
  wake_sleepers();
  int l[MAXTHREADS]; int n = runnable(l, false);
  if (n == 0) { if (!sync) set_next(); return; }
  int to = -1;
  if (g_fair) { if (!sync) to = rr_next(l, n); }
  else if (g_pol.mode == 1) {
    if (!sync) {
      if (g_pct && g_pct_i < g_pct->size() && g.clk >= (*g_pct)[g_pct_i]) { g_pct_i++; T[g.cur].prio = --g_prio_low; }
      else if (g.steps - g_sincesw > 40000) T[g.cur].prio = --g_prio_low;
    }
    int b = best_prio(l, n);
    if (T[b].prio > T[g.cur].prio) to = b;
  } else if (g_pol.mode == 3) {
    if (!sync || g_rsched.chance(g_pol.p_sync)) to = rr_next(l, n);
  } else {
    if (!sync || g_rsched.chance(g_pol.p_sync)) to = l[g_rsched.below(n)];
    if (sync && g_fp.p[F_STALL] > 0 && to >= 0 && g_rsched.chance(g_fp.p[F_STALL])) {
      // descheduled for a long (simulated) time
      R->faults[F_STALL]++;
      T[g.cur].state = T_SLEEP; T[g.cur].why = W_DELAY;
      T[g.cur].wake_at = g_now + 1000 * (1 + g_rsched.below(200000));
    }
  }
  if (!sync) set_next();
  if (to >= 0 && !sync && !g_fair && g_pol.p_hold > 0 && g_rsched.chance(g_pol.p_hold)) {
    // preempted in the middle of something and kept off the processor
    R->faults[F_STALL]++;
    T[g.cur].state = T_SLEEP; T[g.cur].why = W_DELAY;
    T[g.cur].wake_at = g_now + (1000ULL << g_rsched.below(9));
  }
  if (to >= 0) do_switch(to, false);
  T[g.cur].why = W_NONE;
}
void yield_point() { sched_point(true); }

static void access_slow() {
  sched_point(false);
  if (g.clk >= g.next) set_next();
}
static void step_slow() {
  if (g.steps >= g_step_limit) {
    uint64_t lim = g_step_limit; (void)lim;
    violation("hang", "no end after %llu simulated steps (fair scheduling since step %llu, thread %d running)",
              (unsigned long long)g.steps, (unsigned long long)g_step_limit / 2, g.cur);
  }
  check_fair();
  g_next_step = g.steps < g_step_limit / 2 ? g_step_limit / 2 : g_step_limit;
  if (g_fair && g.steps >= g_step_limit / 2) g_next_step = g_step_limit;
}
void set_step_limit(uint64_t n) { g_step_limit = n; g_next_step = n / 2; }

// block the current thread; returns when made runnable again
static void block(int why, const void *obj, bool timed = false, uint64_t wake_at = 0) {
  SimThread &t = T[g.cur];
  t.state = T_BLOCKED; t.why = why; t.obj = obj; t.timed = timed; t.wake_at = wake_at; t.timedout = false;
  int save = g.noresched; g.noresched = 0;
  tick();
  int to = pick_forced();
  if (to != g.cur) do_switch(to, true);
  else do_switch(to, true);
  g.noresched = save;
  T[g.cur].why = W_NONE; T[g.cur].timed = false;
}
static void sleep_for(uint64_t ns, int why) {
  SimThread &t = T[g.cur];
  if (g.noresched > 0) { g_now += ns; return; }
  t.state = T_SLEEP; t.why = why; t.wake_at = g_now + ns; t.timedout = false;
  tick();
  int to = pick_forced();
  do_switch(to, true);
  T[g.cur].why = W_NONE;
}
static void wake_all(int why, const void *obj) {
  for (int i = 0; i < g_nthreads; i++)
    if (T[i].state == T_BLOCKED && T[i].why == why && T[i].obj == obj) { T[i].state = T_RUN; }
}
static void wake_one(int why, const void *obj) {
  int l[MAXTHREADS], n = 0;
  for (int i = 0; i < g_nthreads; i++)
    if (T[i].state == T_BLOCKED && T[i].why == why && T[i].obj == obj) l[n++] = i;
  if (n) T[l[mix(g.clk, 77) % (uint64_t)n]].state = T_RUN;
}

void io_point() {
  if (!g.on) return;
  if (g_pol.delays && g.noresched == 0 && !(g_spec && g_spec->explicit_mode)) {
    bool others = false;
    for (int i = 0; i < g_nthreads; i++) if (i != g.cur && (T[i].state == T_RUN || T[i].state == T_SLEEP)) others = true;
    if (others && g_rsched.chance(0.3)) {
      R->faults[F_DELAY]++;
      sleep_for(g_rsched.chance(0.1) ? 1000 * g_rsched.below(20000) : 1000 * g_rsched.below(50), W_DELAY);
      return;
    }
  }
  sched_point(true);
}

//--- faults ----------------------------------------------------------------
static bool is_hard(int k) {
  return k == F_READ_EIO || k == F_READ_EOF || k == F_WRITE_EIO || k == F_ENOSPC || k == F_OPEN_FAIL || k == F_CLOSE_EIO || k == F_ALLOC || k == F_H5_READ || k == F_H5_WRITE || k == F_THREAD;
}
void open_fault_window() { g_window = true; g_hard_in_window = 0; }
void close_fault_window() { g_window = false; }
bool fault_window_open() { return g_window; }
uint64_t eligible_count(int k) { return g_elig[k]; }
uint64_t fault_count(int k) { return R->faults[k]; }
uint64_t hard_faults_fired() { return g_hard; }
void count_fault(int k, uint64_t n) { R->faults[k] += n; if (is_hard(k)) g_hard += n; }

static void record_fault(uint64_t idx, int k, uint64_t param) {
  R->faults[k]++;
  if (is_hard(k)) { g_hard++; g_hard_in_window++; }
  if (R->nfl < MAXFL) { FlRec &f = R->fl[R->nfl++]; f.idx = idx; f.kind = k; f.param = param; f.pad = 0; }
  g_thash = mix(g_thash, 0xF000 + k + idx * 64);
  hash_ev(0xF000 + k + idx * 64);
  if (g_verbose) note("FAULT %s idx=%llu", fault_names[k], (unsigned long long)idx);
}
int fault_decide(const int *kinds, int n, uint64_t *param) {
  if (!g.on) return F_NONE;
  uint64_t idx = g_fidx++;
  if (g_spec && g_spec->explicit_mode) {
    for (size_t i = 0; i < g_spec->fl.size(); i++)
      if (g_spec->fl[i].idx == idx) {
        int k = g_spec->fl[i].kind;
        bool ok = false;
        for (int j = 0; j < n; j++) if (kinds[j] == k) ok = true;
        if (!ok) return F_NONE;
        *param = g_spec->fl[i].param;
        record_fault(idx, k, *param);
        return k;
      }
    for (int j = 0; j < n; j++) if (!is_hard(kinds[j]) || g_window) g_elig[kinds[j]]++;
    return F_NONE;
  }
  int got = F_NONE;
  for (int j = 0; j < n; j++) {
    int k = kinds[j];
    if (is_hard(k) && !g_window) continue;
    uint64_t e = g_elig[k]++;
    if (got != F_NONE) continue;
    if (is_hard(k) && g_fp.max_hard >= 0 && g_hard_in_window >= (uint64_t)g_fp.max_hard) continue;
    if (g_fp.exact_kind == k && g_fp.exact_at >= 0 && e == (uint64_t)g_fp.exact_at) got = k;
    else if (g_fp.p[k] > 0 && g_rfault.chance(g_fp.p[k])) got = k;
  }
  if (got == F_NONE) return F_NONE;
  *param = g_rfault.next();
  record_fault(idx, got, *param);
  return got;
}

void default_policies(Rng &r) {
  SchedPolicy &p = g_pol;
  double u = r.unit();
  if (u < 0.55) p.mode = 0; else if (u < 0.80) p.mode = 1; else if (u < 0.92) p.mode = 2; else p.mode = 3;
  static const double ps[] = { 0.05, 0.15, 0.3, 0.5, 0.9 };
  p.p_sync = ps[r.below(5)];
  static const double ma[] = { 60, 200, 600, 2000, 8000, 30000, 200000 };
  p.mean_access = ma[r.below(7)];
  p.pct_depth = r.range(1, 6);
  p.pct_len = 1ULL << r.range(8, 20);
  p.delays = r.chance(0.4);
  static const double ph[] = { 0, 0, 0.1, 0.4, 0.8 };
  p.p_hold = ph[r.below(5)];
  if (r.chance(0.25)) {
    // preemption every few accesses to shared data, and the victim stays out
    static const double tm[] = { 24, 48, 96, 160, 300 };
    p.mode = 0; p.p_sync = r.chance(0.5) ? 0.1 : 0.3;
    p.mean_access = tm[r.below(5)]; p.p_hold = r.chance(0.5) ? 0.3 : 0.6;
  }
  g_fp.p[F_STALL] = r.chance(0.3) ? 0.02 : 0;
}

//--- memory ----------------------------------------------------------------
struct AllocHdr { uint64_t magic; uint64_t size; };
static const uint64_t MAGIC_LIVE = 0x51A11FEDC0FFEE01ULL, MAGIC_DEAD = 0xDEADDEADDEADDEADULL;
struct SizeCount { size_t sz; uint64_t live; };
enum { SZTAB = 4096 };
static SizeCount g_sz[SZTAB];
static SizeCount &szc(size_t s) {
  size_t h = (s * 0x9E3779B97F4A7C15ULL) >> 52;
  for (int i = 0; i < SZTAB; i++) { SizeCount &c = g_sz[(h + i) % SZTAB]; if (c.sz == s || c.sz == 0) { c.sz = s; return c; } }
  return g_sz[h];
}
uint64_t live_allocs_of_size(size_t s) { return szc(s).live; }
uint64_t live_bytes() { return g_live_bytes; }
uint64_t total_allocs() { return g_allocs; }

bool g_use_malloc = false;
static void *sim_alloc(size_t n, size_t align) {
  if (g_use_malloc) return malloc(n ? n : 1);
  arena_init();
  if (align < 16) align = 16;
  if (n > (256u << 20)) return 0;
  if (g.on && R) {
    static const int kinds[] = { F_ALLOC };
    if (g_window && T[g.cur].alloc_ok > 0 && !g.noresched && n >= g_fp.alloc_min) {
      uint64_t param = 0;
      if (fault_decide(kinds, 1, &param) == F_ALLOC) return 0;
    }
  }
  uintptr_t off = g_bump + sizeof(AllocHdr);
  off = (off + align - 1) & ~(align - 1);
  uintptr_t end = off + ((n + 7) & ~7ULL) + 16;
  if (end > (g.on || g_bump >= RUN_OFF ? HEAP_SIZE : RUN_OFF)) return 0;
  g_bump = (end + 15) & ~15ULL;
  AllocHdr *h = (AllocHdr *)(HEAP_BASE + off - sizeof(AllocHdr));
  h->magic = MAGIC_LIVE; h->size = n;
  Shadow *s = g_shadow + (off >> 3);
  size_t gr = (n + 7) >> 3;
  uint8_t tid = g.on ? (uint8_t)g.cur : 0xff;
  for (size_t i = 0; i < gr; i++) { s[i].state = SH_LIVE; s[i].tid = tid; }
  void *p = (void *)(HEAP_BASE + off);
  if (g.on) memset(p, 0xC1 + (off >> 4) % 43, n);   // never twice the same, so that what depends on it shows
  szc(n).live++; g_live_bytes += n; g_allocs++;
  return p;
}
static void sim_free(void *p) {
  if (!p) return;
  uintptr_t off = (uintptr_t)p - HEAP_BASE;
  if (off >= HEAP_SIZE) { if (!g.on && g_use_malloc) free(p); if (g.on) violation("bad-free", "delete of a pointer that was not allocated"); return; }
  AllocHdr *h = (AllocHdr *)((char *)p - sizeof(AllocHdr));
  if (h->magic != MAGIC_LIVE) {
    if (!g.on) return;
    violation(h->magic == MAGIC_DEAD ? "double-free" : "bad-free",
              h->magic == MAGIC_DEAD ? "an object of %llu bytes was deleted twice" : "delete of a wild pointer (%llu)",
              (unsigned long long)h->size);
  }
  h->magic = MAGIC_DEAD;
  size_t n = h->size;
  if (g_race && g.on) race_access((uintptr_t)p, n, true, false, (uintptr_t)__builtin_return_address(0));
  Shadow *s = g_shadow + (off >> 3);
  size_t gr = (n + 7) >> 3;
  for (size_t i = 0; i < gr; i++) s[i].state = SH_FREED;
  if (g.on) memset(p, 0xDD, n);
  szc(n).live--; g_live_bytes -= n;
}
bool is_freed(const void *p) {
  uintptr_t off = (uintptr_t)p - HEAP_BASE;
  return off < HEAP_SIZE && (g_shadow[off >> 3].state & SH_KIND) == SH_FREED;
}
static void bad_access(uintptr_t a, size_t n, bool w, int st, const char *what) {
  // symbolic hint of where
  char where[1500]; where[0] = 0;
  g.on = false;
  void *bt[24]; int k = backtrace(bt, 24); int wn = 0;
  for (int i = 2; i < k && wn < 1300; i++) {
    Dl_info di; if (!dladdr(bt[i], &di) || !di.dli_sname) continue;
    int stt; char *d = abi::__cxa_demangle(di.dli_sname, 0, 0, &stt);
    wn += snprintf(where + wn, sizeof where - wn, " <- %.160s", d ? d : di.dli_sname);
  }
  violation(st == SH_FREED ? (w ? "use-after-free-write" : "use-after-free") : (w ? "heap-overflow-write" : "heap-overflow"),
            "%s of %zu bytes %s %s%s", w ? "write" : "read", n,
            st == SH_FREED ? "in memory already freed" : "outside any live allocation", what ? what : "", where);
  (void)a;
}

static void hb_acquire(const void *a) { if (g_race) vjoin(g_vc[g.cur], sync_vc(a)); }
static void hb_release(const void *a) { if (g_race) { vjoin(sync_vc(a), g_vc[g.cur]); g_vc[g.cur].c[g.cur]++; } }
static void hb_acq_rel(const void *a) { if (g_race) { hb_acquire(a); hb_release(a); } }
static void hb_start(int tid) { if (g_race) { if (tid >= RT) { g_race = false; return; } g_vc[tid] = g_vc[g.cur]; g_vc[tid].c[tid] = 1; g_vc[g.cur].c[g.cur]++; } }
static void hb_join(int tid) { if (g_race) vjoin(g_vc[g.cur], g_vc[tid]); }
void race_checks(bool on) {
  if (on && !g_race_default && !g_rpol.chance(0.4)) on = false;   // it costs time: in some of the runs
  if (on && g_nthreads > RT) return;
  if (on && !g_rcell) {
    g_rcell = (RCell *)mmap(0, (REG_SIZE >> 3) * RCELLS * sizeof(RCell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_grcell = (RCell *)mmap(0, ((g_gsz >> 3) + 8) * RCELLS * sizeof(RCell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_sv = (SyncVar *)mmap(0, SVTAB * sizeof(SyncVar), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g_rcell == MAP_FAILED || g_grcell == MAP_FAILED || g_sv == MAP_FAILED) { fprintf(stderr, "sim: cannot map\n"); _exit(3); }
  }
  for (int i = 0; i < g_nthreads; i++) for (int j = 0; j < g_nthreads; j++) if (g_vc[i].c[j] == 0) g_vc[i].c[j] = 1;
  g_race = on;
  if (on) probe("accesses checked for order");
}
static void fn_name(char *out, size_t n, const void *pc) {
  Dl_info di; out[0] = 0;
  if (!dladdr(pc, &di) || !di.dli_sname) { snprintf(out, n, "%p", pc); return; }
  int st; char *d = abi::__cxa_demangle(di.dli_sname, 0, 0, &st);
  snprintf(out, n, "%.200s", d ? d : di.dli_sname);
}
static void race_found(const RCell &c, size_t n, bool w, uintptr_t pc) {
  g.on = false;
  char was[256], where[1500]; where[0] = 0; int wn = 0;
  fn_name(was, sizeof was, (void *)(uintptr_t)c.pc);
  void *bt[24]; int k = backtrace(bt, 24);
  for (int i = 2; i < k && wn < 1300; i++) {
    Dl_info di; if (!dladdr(bt[i], &di) || !di.dli_sname) continue;
    if (!strncmp(di.dli_sname, "__tsan", 6) || !strncmp(di.dli_sname, "_ZN3sim", 7)) continue;
    int stt; char *d = abi::__cxa_demangle(di.dli_sname, 0, 0, &stt);
    wn += snprintf(where + wn, sizeof where - wn, " <- %.160s", d ? d : di.dli_sname);
  }
  violation("data-race", "thread %d %s what thread %d %s in %s, and nothing orders the two%s", g.cur, w ? "writes" : "reads", c.tid, (c.fl & 1) ? "wrote" : "read", was, where);
}
static inline void race_granule(RCell *c, uint8_t mask, bool w, bool at, uintptr_t pc, size_t n) {
  int me = g.cur; VC &v = g_vc[me];
  int put = -1;
  for (int i = 0; i < RCELLS; i++) {
    RCell &x = c[i];
    if (!x.mask) { if (put < 0) put = i; continue; }
    if (!(x.mask & mask)) continue;
    if (x.tid == me) {
      // covered by this one: same bytes, and at least as strong
      if ((x.mask & ~mask) == 0 && (w || !(x.fl & 1)) && (!at || (x.fl & 2))) put = i;
      continue;
    }
    if (x.ep <= v.c[x.tid]) { if ((x.mask & ~mask) == 0 && w) { if (put < 0) put = i; else x.mask = 0; } continue; }
    if (!(w || (x.fl & 1)) || (at && (x.fl & 2))) continue;
    race_found(x, n, w, pc);
  }
  if (put < 0) { put = (int)((g.steps + (pc >> 2)) % RCELLS); }
  RCell &x = c[put];
  x.ep = v.c[me]; x.tid = me; x.mask = mask; x.fl = (w ? 1 : 0) | (at ? 2 : 0); x.pc = (uint32_t)pc;
}
static void race_access(uintptr_t a, size_t n, bool w, bool at, uintptr_t pc) {
  if (g.noresched > 0) return;
  uintptr_t off = a - HEAP_BASE; RCell *base;
  if (off < REG_SIZE) base = g_rcell; else { off = a - g_glo; if (off >= g_gsz) return; base = g_grcell; }
  uintptr_t end = off + n;
  while (off < end) {
    uintptr_t gr = off >> 3, ge = (gr + 1) << 3; if (ge > end) ge = end;
    uint8_t mask = (uint8_t)(((1u << (ge - off)) - 1) << (off & 7));
    race_granule(base + gr * RCELLS, mask, w, at, pc, n);
    off = ge;
  }
}

static inline __attribute__((always_inline)) void acc_raw(uintptr_t a, size_t n, bool w) {
  if (__builtin_expect(!g.on, 0)) return;
  if (__builtin_expect(++g.steps >= g_next_step, 0)) step_slow();
  uintptr_t off = a - HEAP_BASE;
  if (off < REG_SIZE) {
    Shadow &s = g_shadow[off >> 3];
    if (off < HEAP_SIZE) {
      if (__builtin_expect((s.state & SH_KIND) != SH_LIVE, 0)) { if (g.noresched == 0 || true) bad_access(a, n, w, s.state & SH_KIND, 0); }
      if (s.tid != (uint8_t)g.cur) { if (s.tid != 0xff) s.state |= SH_SHARED; s.tid = (uint8_t)g.cur; }
      g.clk += (s.state & SH_SHARED) ? 16 : 2;
    } else {
      if (s.tid != (uint8_t)g.cur) { if (s.state & SH_LIVE) s.state |= SH_SHARED; s.state |= SH_LIVE; s.tid = (uint8_t)g.cur; }
      if (s.state & SH_SHARED) g.clk += 16; else return;
    }
  } else {
    uintptr_t go = a - g_glo;
    if (go >= g_gsz) {
      if (__builtin_expect(a < 65536, 0)) {
        bad_access(a, n, w, 0, "(null pointer)");
      }
      return;
    }
    Shadow &s = g_gshadow[go >> 3];
    if (s.tid != (uint8_t)g.cur) { if (s.state & SH_LIVE) s.state |= SH_SHARED; s.state |= SH_LIVE; s.tid = (uint8_t)g.cur; }
    g.clk += (s.state & SH_SHARED) ? 16 : 4;
  }
  if (__builtin_expect(g.clk >= g.next, 0)) access_slow();
}
static inline __attribute__((always_inline)) void acc(uintptr_t a, size_t n, bool w, bool at = false) {
  if (__builtin_expect(!g.on, 0)) return;
  if (__builtin_expect(g_race, 0)) race_access(a, n, w, at, (uintptr_t)__builtin_return_address(0));
  acc_raw(a, n, w);
}
void check_range(const void *p, size_t n, bool w, const char *what) {
  if (!g.on || !n) return;
  uintptr_t off = (uintptr_t)p - HEAP_BASE;
  g.steps += n >> 6;
  if (off < HEAP_SIZE) {
    for (size_t i = off >> 3; i <= (off + n - 1) >> 3; i++)
      if ((g_shadow[i].state & SH_KIND) != SH_LIVE) bad_access((uintptr_t)p, n, w, g_shadow[i].state & SH_KIND, what);
  }
  if (g_race) race_access((uintptr_t)p, n, w, false, (uintptr_t)__builtin_return_address(0));
  acc_raw((uintptr_t)p, 1, w);
}

//--- HDF5 entry tracking ---------------------------------------------------
static int g_h5_owner = -1; static int g_h5_depth = 0; static const char *g_h5_fn = 0;
uint64_t h5_entries() { return R->h5; }
void h5_enter(const char *fn) {
  if (!g.on) return;
  if (g_h5_depth > 0 && g_h5_owner != g.cur && g_h5_check)
    violation("hdf5-overlap", "thread %d enters HDF5 (%s) while thread %d is inside %s", g.cur, fn, g_h5_owner, g_h5_fn);
  if (g_h5_depth++ == 0) { g_h5_owner = g.cur; g_h5_fn = fn; }
  R->h5++;
  if (g_h5_depth == 1) sched_point(true);
}
bool h5_fail(bool w) {
  if (!g.on || !g_window || g_h5_depth != 1) return false;
  int kinds[1] = { w ? F_H5_WRITE : F_H5_READ }; uint64_t param;
  return fault_decide(kinds, 1, &param) != F_NONE;
}
void h5_leave() {
  if (!g.on) return;
  if (g_h5_depth == 1) sched_point(true);
  if (g_h5_depth > 0) g_h5_depth--;
}

//--- real functions --------------------------------------------------------
template <class F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
typedef int (*create_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
typedef int (*join_t)(pthread_t, void **);

static pthread_key_t g_exit_key;

static void thread_finished() {
  // runs with the baton, last thing of a thread
  SimThread &t = T[t_self];
  t.state = T_DONE; t.finished = true;
  wake_all(W_JOIN, &T[t_self]);
  tick();
  g.noresched = 0;
  int to = pick_forced();
  // record and hand over without waiting
  do_switch(to, true);
}
static void exit_key_dtor(void *) {
  SimThread &t = T[t_self];
  if (++t.dtor_iter < 4) { pthread_setspecific(g_exit_key, (void *)1); return; }
  thread_finished();
}
static void install_sigstack() {
  static const size_t SZ = 65536;
  char *alt = (char *)mmap(0, SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  stack_t ss; ss.ss_sp = alt; ss.ss_size = SZ; ss.ss_flags = 0;
  sigaltstack(&ss, 0);
}
static void *trampoline(void *a) {
  int tid = (int)(intptr_t)a;
  t_self = tid;
  install_sigstack();
  baton_wait(tid);
  g.noresched = 0;
  pthread_setspecific(g_exit_key, (void *)1);
  SimThread &t = T[tid];
  t.ret = t.start(t.arg);
  return t.ret;
}
static int new_thread(void *(*start)(void *), void *arg, bool detached) {
  if (g_nthreads >= MAXTHREADS) harness_error("too many simulated threads");
  int tid = g_nthreads;
  int slot = -1;
  for (int i = 0; i < MAXTHREADS; i++) if (!g_slot_used[i]) { slot = i; break; }
  if (slot < 0) harness_error("out of stacks");
  g_slot_used[slot] = true;
  SimThread &t = T[tid];
  memset((void *)&t, 0, sizeof t);
  t.slot = slot; t.start = start; t.arg = arg; t.detached = detached;
  t.alloc_ok = tid > 0 ? T[g.cur].alloc_ok : 0;
  t.prio = 1000000 + g_rsched.below(1000000);
  uintptr_t lo = STK_BASE + slot * STK_SLOT;
  mprotect((void *)lo, 4096, PROT_NONE);
  pthread_attr_t at; pthread_attr_init(&at);
  pthread_attr_setstack(&at, (void *)(lo + 4096), STK_SLOT - 4096);
  static create_t rc = real<create_t>("pthread_create");
  t.state = T_RUN;
  g_nthreads++;
  if (tid > 0) hb_start(tid);
  if (g_race) madvise((void *)(((uintptr_t)(g_rcell + ((lo - HEAP_BASE) >> 3) * RCELLS) + 4095) & ~4095ULL), (STK_SLOT >> 3) * RCELLS * sizeof(RCell) - 4096, MADV_DONTNEED);
  int e = rc(&t.real, &at, trampoline, (void *)(intptr_t)tid);
  pthread_attr_destroy(&at);
  if (e) harness_error("pthread_create failed: %d", e);
  set_next();
  return tid;
}
static int find_thread(pthread_t p) {
  for (int i = g_nthreads - 1; i >= 0; i--) if (T[i].real == p && !T[i].joined) return i;
  return -1;
}
static void join_tid(int i, void **ret) {
  while (T[i].state != T_DONE) block(W_JOIN, &T[i]);
  static join_t rj = real<join_t>("pthread_join");
  rj(T[i].real, 0);
  hb_join(i);
  if (ret) *ret = T[i].ret;
  T[i].joined = true;
  g_slot_used[T[i].slot] = false;
}
static void *fn_start(void *a) {
  std::function<void()> *f = (std::function<void()> *)a;
  (*f)();
  delete f;
  return 0;
}
Thread spawn(std::function<void()> fn) {
  std::function<void()> *f = new std::function<void()>(fn);
  int tid = new_thread(fn_start, f, false);
  Thread t; t.impl = (void *)(intptr_t)(tid + 1);
  sched_point(true);
  return t;
}
void join(Thread &t) {
  int tid = (int)(intptr_t)t.impl - 1;
  if (tid < 0) return;
  join_tid(tid, 0);
  t.impl = 0;
}

//--- mutex and friends -------------------------------------------------------
struct SimMutex { const void *addr; int owner; int count; int type; int readers; };
enum { MTAB = 1 << 15 };
static SimMutex *g_mtab = 0;
static SimMutex &mtx(const void *a) {
  if (!g_mtab) g_mtab = (SimMutex *)mmap(0, sizeof(SimMutex) * MTAB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  uint64_t h = ((uintptr_t)a >> 3) * 0x9E3779B97F4A7C15ULL >> 40;
  for (int i = 0; i < MTAB; i++) {
    SimMutex &m = g_mtab[(h + i) & (MTAB - 1)];
    if (m.addr == a) return m;
    if (!m.addr) { m.addr = a; m.owner = -1; m.count = 0; m.type = 0; m.readers = 0; return m; }
  }
  fprintf(stderr, "sim: mutex table full\n"); _exit(3);
}
static void m_check_alive(const void *a, const char *what) {
  if (g.on && is_freed(a)) bad_access((uintptr_t)a, 8, true, SH_FREED, what);
}
static int m_lock(const void *a, bool tryonly, bool timed = false, uint64_t until = 0) {
  m_check_alive(a, "(mutex lock)");
  if (!g.on) { SimMutex &m0 = mtx(a); if (m0.owner >= 0 && tryonly && m0.type != 1) return EBUSY; m0.owner = 0; m0.count++; return 0; }
  sched_point(true);
  for (;;) {
    SimMutex &m = mtx(a);
    if (m.owner < 0) { m.owner = g.cur; m.count = 1; hash_ev(0x100 + g.cur); hb_acquire(a); break; }
    if (m.owner == g.cur && m.type == PTHREAD_MUTEX_RECURSIVE) { m.count++; break; }
    if (m.owner == g.cur && m.type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    if (tryonly) return EBUSY;
    probe("lock contention");
    block(W_MUTEX, a, timed, until);
    if (timed && T[g.cur].timedout) return ETIMEDOUT;
    m_check_alive(a, "(mutex lock)");
  }
  return 0;
}
static int m_unlock(const void *a, bool point = true) {
  m_check_alive(a, "(mutex unlock)");
  SimMutex &m = mtx(a);
  if (!g.on) { if (m.count > 0) m.count--; if (!m.count) m.owner = -1; return 0; }
  if (m.owner != g.cur) violation("bad-unlock", "thread %d unlocks a mutex %s", g.cur, m.owner < 0 ? "nobody holds" : "another thread holds");
  if (--m.count == 0) { hb_release(a); m.owner = -1; wake_all(W_MUTEX, a); if (point) sched_point(true); }
  return 0;
}
static int c_wait(const void *c, const void *m, bool timed, uint64_t until) {
  if (!g.on) return 0;
  static const int kinds[] = { F_SPURIOUS };
  uint64_t param;
  bool spurious = g_fp.p[F_SPURIOUS] > 0 && fault_decide(kinds, 1, &param) == F_SPURIOUS;
  int cnt = mtx(m).count;
  mtx(m).count = 1;
  m_unlock(m, false);
  bool to = false;
  if (spurious) sched_point(true);
  else { block(W_COND, c, timed, until); to = timed && T[g.cur].timedout; }
  m_lock(m, false);
  mtx(m).count = cnt;
  return to ? ETIMEDOUT : 0;
}
static const uint64_t EPOCH_S = 1600000000ULL;
static uint64_t abs_to_sim(const struct timespec *ts) {
  int64_t ns = ((int64_t)ts->tv_sec - (int64_t)EPOCH_S) * 1000000000LL + ts->tv_nsec;
  return ns < 0 ? 0 : (uint64_t)ns;
}

//--- run -------------------------------------------------------------------
static void (*g_wl)() = 0;
static void *main_thread(void *) {
  try {
    if (g_race_default) race_checks(true);
    g_wl();
  } catch (std::exception &e) {
    int st; char *n = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st);
    violation("uncaught-exception", "exception %s escaped the workload: %s", n ? n : "?", e.what());
  } catch (...) {
    std::type_info *ti = abi::__cxa_current_exception_type();
    int st; char *n = ti ? abi::__cxa_demangle(ti->name(), 0, 0, &st) : 0;
    violation("uncaught-exception", "exception %s escaped the workload", n ? n : "?");
  }
  finish_ok();
}
static void on_signal(int s, siginfo_t *si, void *) {
  char where[1800]; where[0] = 0; int wn = 0;
  bool dying = g_dying;
  if (dying) _exit(0);
  g.on = false;
  void *bt[40]; int k = backtrace(bt, 40);
  for (int i = 2; i < k && wn < 1600; i++) {
    Dl_info di; if (!dladdr(bt[i], &di) || !di.dli_sname) continue;
    if (strstr(di.dli_sname, "terminate") || !strcmp(di.dli_sname, "abort")) continue;
    int st; char *d = abi::__cxa_demangle(di.dli_sname, 0, 0, &st);
    wn += snprintf(where + wn, sizeof where - wn, " <- %.160s", d ? d : di.dli_sname);
  }
  const char *cls = s == SIGABRT ? "abort" : s == SIGPROF ? "hang" : "crash";
  if (s == SIGALRM) harness_error("no end within 240 s of real time%s", where);
  if (s == SIGPROF) snprintf(where + wn, sizeof where - wn, " (40 s of processor time used)");
  violation(cls, "signal %d (%s)%s", s, strsignal(s), where);
  (void)si;
}
static void on_terminate() {
  std::type_info *ti = abi::__cxa_current_exception_type();
  int st; char *n = ti ? abi::__cxa_demangle(ti->name(), 0, 0, &st) : 0;
  char buf[512]; buf[0] = 0;
  try { if (ti) throw; } catch (std::exception &e) { snprintf(buf, sizeof buf, ": %s", e.what()); } catch (...) {}
  violation("terminate", "std::terminate: the process would be aborted by an exception nobody can catch (%s%s)", n ? n : "no exception", buf);
}

void run_child(void (*fn)(), uint64_t seed, const ReplaySpec &spec) {
  arena_init();
  g_use_malloc = false;
  signal(SIGPIPE, SIG_IGN);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGFPE, &sa, 0);
  sigaction(SIGILL, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGALRM, &sa, 0); sigaction(SIGPROF, &sa, 0);
  struct itimerval iv; memset(&iv, 0, sizeof iv); iv.it_value.tv_sec = 40; setitimer(ITIMER_PROF, &iv, 0);
  alarm(240);
  std::set_terminate(on_terminate);
  R->status = ST_RUNNING;
  g_rwl = Rng(mix(seed, 1)); g_rsched = Rng(mix(seed, 2)); g_rfault = Rng(mix(seed, 3)); g_rpol = Rng(mix(seed, 4));
  g_fp = FaultPolicy(); g_hash = g_thash = mix(seed, 99);
  default_policies(g_rpol);
  g_spec = &spec; g_spec_sw = 0;
  if (!spec.explicit_mode && g_pol.mode == 1) {
    g_pct = new std::vector<uint64_t>;
    for (int i = 0; i < g_pol.pct_depth; i++) g_pct->push_back(g_rsched.below(g_pol.pct_len));
    std::sort(g_pct->begin(), g_pct->end());
  }
  // warm up what must not happen lazily inside the run
  void *bt[4]; backtrace(bt, 4);
  pthread_key_create(&g_exit_key, exit_key_dtor);
  (void)real<create_t>("pthread_create"); (void)real<join_t>("pthread_join");
  g_bump = RUN_OFF;
  memset(g_sz, 0, sizeof g_sz);
  g_live_bytes = 0; g_allocs = 0;
  vfs::reset();
  g_wl = fn;
  set_step_limit(g_step_limit);
  g.steps = g.clk = 0; g_now = 1000000; g.cur = 0; g.noresched = 0;
  int tid = new_thread(main_thread, 0, false);
  set_next();
  g.on = true;
  g.cur = tid;
  baton_give(tid);
  for (;;) pause();
}

} // namespace sim

using namespace sim;

//===========================================================================
// Interposed C library entry points
extern "C" {

int pthread_create(pthread_t *th, const pthread_attr_t *at, void *(*start)(void *), void *arg) {
  if (!g.on) { static create_t rc = real<create_t>("pthread_create"); return rc(th, at, start, arg); }
  if (g_window && (g_fp.p[F_THREAD] > 0 || g_fp.exact_kind == F_THREAD)) {
    static const int kinds[] = { F_THREAD };
    uint64_t param = 0;
    if (fault_decide(kinds, 1, &param) == F_THREAD) return EAGAIN;
  }
  int ds = PTHREAD_CREATE_JOINABLE; if (at) pthread_attr_getdetachstate(at, &ds);
  int tid = new_thread(start, arg, ds == PTHREAD_CREATE_DETACHED);
  *th = T[tid].real;
  sched_point(true);
  return 0;
}
int pthread_join(pthread_t th, void **ret) {
  int i = g.on ? find_thread(th) : -1;
  if (i < 0) { static join_t rj = real<join_t>("pthread_join"); return rj(th, ret); }
  join_tid(i, ret);
  return 0;
}
int pthread_detach(pthread_t th) {
  int i = g.on ? find_thread(th) : -1;
  if (i >= 0) { T[i].detached = true; return 0; }
  return 0;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  int type = 0; if (a) pthread_mutexattr_gettype(a, &type);
  memset((void *)m, 0, sizeof *m);
  SimMutex &s = mtx(m); s.owner = -1; s.count = 0; s.type = type; s.readers = 0;
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
  SimMutex &s = mtx(m);
  if (g.on && s.owner >= 0) violation("mutex-destroyed-locked", "a locked mutex is destroyed (held by thread %d)", s.owner);
  s.owner = -1; s.count = 0; return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) {
  SimMutex &s = mtx(m); if (s.type == 0) { int k = m->__data.__kind & 3; if (k) s.type = k; }
  return m_lock(m, false);
}
int pthread_mutex_trylock(pthread_mutex_t *m) { return m_lock(m, true); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { return m_lock(m, false, true, abs_to_sim(ts)); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *ts) { return m_lock(m, false, true, abs_to_sim(ts)); }
int pthread_mutex_unlock(pthread_mutex_t *m) { return m_unlock(m); }

int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset((void *)c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return c_wait(c, m, false, 0); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { return c_wait(c, m, true, abs_to_sim(ts)); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts) { return c_wait(c, m, true, abs_to_sim(ts)); }
int pthread_cond_signal(pthread_cond_t *c) { if (g.on) { wake_one(W_COND, c); sched_point(true); } return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { if (g.on) { wake_all(W_COND, c); sched_point(true); } return 0; }

int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { memset((void *)l, 0, sizeof *l); SimMutex &s = mtx(l); s.owner = -1; s.readers = 0; return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
static int rw_rd(const void *l, bool tr) {
  if (!g.on) return 0;
  sched_point(true);
  for (;;) { SimMutex &s = mtx(l); if (s.owner < 0) { s.readers++; hb_acquire(l); return 0; } if (tr) return EBUSY; block(W_RW, l); }
}
static int rw_wr(const void *l, bool tr) {
  if (!g.on) return 0;
  sched_point(true);
  for (;;) { SimMutex &s = mtx(l); if (s.owner < 0 && s.readers == 0) { s.owner = g.cur; hb_acquire(l); return 0; } if (tr) return EBUSY; block(W_RW, l); }
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { return rw_rd(l, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return rw_rd(l, true); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { return rw_wr(l, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return rw_wr(l, true); }
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  if (!g.on) return 0;
  hb_release(l);
  SimMutex &s = mtx(l);
  if (s.owner == g.cur) s.owner = -1; else if (s.readers > 0) s.readers--; else violation("bad-unlock", "unlock of a free rwlock");
  wake_all(W_RW, l); sched_point(true); return 0;
}
int pthread_spin_init(pthread_spinlock_t *l, int) { SimMutex &s = mtx((const void *)l); s.owner = -1; s.count = 0; *l = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t *) { return 0; }
int pthread_spin_lock(pthread_spinlock_t *l) { return m_lock((const void *)l, false); }
int pthread_spin_trylock(pthread_spinlock_t *l) { return m_lock((const void *)l, true); }
int pthread_spin_unlock(pthread_spinlock_t *l) { return m_unlock((const void *)l); }

int pthread_once(pthread_once_t *o, void (*fn)(void)) {
  // 0 new, 1 running, 2 done
  volatile int *st = (volatile int *)o;
  for (;;) {
    if (*st == 2) { hb_acquire((const void *)o); return 0; }
    if (*st == 0) {
      *st = 1;
      try { sched_point(true); fn(); } catch (...) { *st = 0; wake_all(W_ONCE, (const void *)o); throw; }
      hb_release((const void *)o); *st = 2; if (g.on) wake_all(W_ONCE, (const void *)o); return 0;
    }
    if (!g.on) return 0;
    block(W_ONCE, (const void *)o);
  }
}

// function-local statics
int __cxa_guard_acquire(long long *gd) {
  volatile uint8_t *b = (volatile uint8_t *)gd;
  if (b[0] == 1) { hb_acquire(gd); return 0; }
  if (g.on) sched_point(true);
  for (;;) {
    if (b[0] == 1) { hb_acquire(gd); return 0; }
    if (b[1] == 0) { b[1] = 1; return 1; }
    if (!g.on) return 0;
    block(W_GUARD, gd);
  }
}
void __cxa_guard_release(long long *gd) {
  hb_release(gd);
  volatile uint8_t *b = (volatile uint8_t *)gd; b[0] = 1; b[1] = 0;
  if (g.on) wake_all(W_GUARD, gd);
}
void __cxa_guard_abort(long long *gd) {
  volatile uint8_t *b = (volatile uint8_t *)gd; b[1] = 0;
  if (g.on) wake_all(W_GUARD, gd);
}

// time
static void fill_ts(struct timespec *ts) { ts->tv_sec = EPOCH_S + g_now / 1000000000ULL; ts->tv_nsec = g_now % 1000000000ULL; }
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!g.on) return syscall(SYS_clock_gettime, c, ts);
  g_now += 50; fill_ts(ts); return 0;
}
int gettimeofday(struct timeval *tv, void *) {
  if (!g.on) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
  struct timespec ts; g_now += 50; fill_ts(&ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t *t) {
  struct timespec ts; if (g.on) fill_ts(&ts); else syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
  if (t) { *t = ts.tv_sec; }
  return ts.tv_sec;
}
static uint64_t ts_ns(const struct timespec *ts) { return (uint64_t)ts->tv_sec * 1000000000ULL + ts->tv_nsec; }
int nanosleep(const struct timespec *req, struct timespec *) {
  if (!g.on) return syscall(SYS_nanosleep, req, 0);
  probe("sleep"); sleep_for(ts_ns(req) + 1, W_DELAY); return 0;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec *req, struct timespec *) {
  if (!g.on) return syscall(SYS_nanosleep, req, 0);
  uint64_t d = ts_ns(req);
  if (flags & TIMER_ABSTIME) { uint64_t a = abs_to_sim(req); d = a > g_now ? a - g_now : 0; }
  probe("sleep"); sleep_for(d + 1, W_DELAY); return 0;
}
int usleep(useconds_t us) {
  struct timespec ts; ts.tv_sec = us / 1000000; ts.tv_nsec = (us % 1000000) * 1000; return nanosleep(&ts, 0);
}
unsigned sleep(unsigned s) { struct timespec ts; ts.tv_sec = s; ts.tv_nsec = 0; nanosleep(&ts, 0); return 0; }
int sched_yield(void) {
  if (!g.on) return 0;
  // give way: a short simulated sleep, so that spinning threads let others run
  sleep_for(100, W_DELAY); return 0;
}

void __assert_fail(const char *expr, const char *file, unsigned line, const char *fn) {
  const char *b = strrchr(file, '/');
  if (g.on) violation("assert", "assertion '%s' failed (%s:%u, %s): the process would abort", expr, b ? b + 1 : file, line, fn ? fn : "");
  fprintf(stderr, "assert %s %s:%u\n", expr, file, line); _exit(3);
}

// --- runtime behind the compiler's memory-access instrumentation ------------
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RD(n) void __tsan_read##n(void *a) { acc((uintptr_t)a, n, false); } \
  void __tsan_unaligned_read##n(void *a) { acc((uintptr_t)a, n, false); acc((uintptr_t)a + n - 1, 1, false); } \
  void __tsan_volatile_read##n(void *a) { acc((uintptr_t)a, n, false); }
#define WR(n) void __tsan_write##n(void *a) { acc((uintptr_t)a, n, true); } \
  void __tsan_unaligned_write##n(void *a) { acc((uintptr_t)a, n, true); acc((uintptr_t)a + n - 1, 1, true); } \
  void __tsan_volatile_write##n(void *a) { acc((uintptr_t)a, n, true); }
RD(1) RD(2) RD(4) RD(8) RD(16) WR(1) WR(2) WR(4) WR(8) WR(16)
void __tsan_read_range(void *a, size_t n) { check_range(a, n, false, ""); }
void __tsan_write_range(void *a, size_t n) { check_range(a, n, true, ""); }
void __tsan_vptr_update(void **a, void *) { acc((uintptr_t)a, 8, true); }
void __tsan_vptr_read(void **a) { acc((uintptr_t)a, 8, false); }

#define AT(bits, T_) \
  T_ __tsan_atomic##bits##_load(const volatile T_ *a, int) { acc((uintptr_t)a, sizeof(T_), false, true); sched_point(true); hb_acquire((const void *)a); return *a; } \
  void __tsan_atomic##bits##_store(volatile T_ *a, T_ v, int) { acc((uintptr_t)a, sizeof(T_), true, true); sched_point(true); hb_acq_rel((const void *)a); *a = v; } \
  T_ __tsan_atomic##bits##_exchange(volatile T_ *a, T_ v, int) { acc((uintptr_t)a, sizeof(T_), true, true); sched_point(true); hb_acq_rel((const void *)a); T_ o = *a; *a = v; return o; } \
  T_ __tsan_atomic##bits##_fetch_add(volatile T_ *a, T_ v, int) { acc((uintptr_t)a, sizeof(T_), true, true); sched_point(true); hb_acq_rel((const void *)a); T_ o = *a; *a = o + v; return o; } \
  T_ __tsan_atomic##bits##_fetch_sub(volatile T_ *a, T_ v, int) { acc((uintptr_t)a, sizeof(T_), true, true); sched_point(true); hb_acq_rel((const void *)a); T_ o = *a; *a = o - v; return o; } \
  T_ __tsan_atomic##bits##_fetch_and(volatile T_ *a, T_ v, int) { acc((uintptr_t)a, sizeof(T_), true, true); sched_point(true); hb_acq_rel((const void *)a); T_ o = *a; *a = o & v; return o; } \
  T_ __tsan_atomic##bits##_fetch_or(volatile T_ *a, T_ v, int) { acc((uintptr_t)a, sizeof(T_), true, true); sched_point(true); hb_acq_rel((const void *)a); T_ o = *a; *a = o | v; return o; } \
  T_ __tsan_atomic##bits##_fetch_xor(volatile T_ *a, T_ v, int) { acc((uintptr_t)a, sizeof(T_), true, true); sched_point(true); hb_acq_rel((const void *)a); T_ o = *a; *a = o ^ v; return o; } \
  T_ __tsan_atomic##bits##_fetch_nand(volatile T_ *a, T_ v, int) { acc((uintptr_t)a, sizeof(T_), true, true); sched_point(true); hb_acq_rel((const void *)a); T_ o = *a; *a = ~(o & v); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T_ *a, T_ *e, T_ v, int, int) { \
    acc((uintptr_t)a, sizeof(T_), true, true); sched_point(true); hb_acq_rel((const void *)a); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T_ *a, T_ *e, T_ v, int, int) { \
    acc((uintptr_t)a, sizeof(T_), true, true); sched_point(true); hb_acq_rel((const void *)a); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  T_ __tsan_atomic##bits##_compare_exchange_val(volatile T_ *a, T_ e, T_ v, int, int) { \
    acc((uintptr_t)a, sizeof(T_), true, true); sched_point(true); hb_acq_rel((const void *)a); T_ o = *a; if (o == e) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { sched_point(true); }
void __tsan_atomic_signal_fence(int) {}

// memory functions called by instrumented code (objcopy-renamed)
void *sim_memcpy(void *d, const void *s, size_t n) { check_range(s, n, false, "(memcpy)"); check_range(d, n, true, "(memcpy)"); return memcpy(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { check_range(s, n, false, "(memmove)"); check_range(d, n, true, "(memmove)"); return memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { check_range(d, n, true, "(memset)"); return memset(d, c, n); }
int sim_memcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }

} // extern "C"

//--- operator new / delete --------------------------------------------------
static void *new_or_throw(size_t n, size_t al) { void *p = sim_alloc(n, al); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n) { return new_or_throw(n, 16); }
void *operator new[](size_t n) { return new_or_throw(n, 16); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim_alloc(n, 16); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim_alloc(n, 16); }
void operator delete(void *p) noexcept { sim_free(p); }
void operator delete[](void *p) noexcept { sim_free(p); }
void operator delete(void *p, size_t) noexcept { sim_free(p); }
void operator delete[](void *p, size_t) noexcept { sim_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim_free(p); }
