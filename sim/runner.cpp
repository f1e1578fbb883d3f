// Driver: batches of simulated runs, replay, minimisation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "core_int.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <algorithm>

using namespace sim;

static Workload g_wl[64]; static int g_nwl = 0;
RegisterWorkload::RegisterWorkload(const char *name, const char *prop, void (*fn)(), double w) {
  Workload &x = g_wl[g_nwl++]; x.name = name; x.property = prop; x.fn = fn; x.weight = w;
}
static double wall() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static int g_out = 1;
static void out(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#include <stdarg.h>
static void out(const char *fmt, ...) {
  static char buf[32768]; va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
  int o = 0; while (o < n) { ssize_t k = syscall(SYS_write, g_out, buf + o, n - o); if (k <= 0) _exit(4); o += k; }
}
static const Workload *find_wl(const char *n) { for (int i = 0; i < g_nwl; i++) if (!strcmp(g_wl[i].name, n)) return &g_wl[i]; return 0; }

static void clean_env() {
  if (getenv("SIM_RACE")) g_race_default = true;
  static const char *keep[] = { "PATH=/usr/bin:/bin", "LC_ALL=C", 0 };
  environ = (char **)keep;
}
// one run in a forked child; the result is in *R
static void run_once(const Workload *w, uint64_t seed, const ReplaySpec &spec) {
  memset((void *)R, 0, offsetof(Result, sw));
  R->status = ST_RUNNING;
  pid_t p = fork();
  if (p < 0) { R->status = ST_HARNESS; snprintf(R->msg, sizeof R->msg, "fork: %s", strerror(errno)); return; }
  if (p == 0) { run_child(w->fn, seed, spec); }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (R->status == ST_RUNNING) {
    if (WIFSIGNALED(st)) {
      if (WTERMSIG(st) == SIGKILL) { R->status = ST_HARNESS; snprintf(R->msg, sizeof R->msg, "child killed"); }
      else { R->status = ST_VIOLATION; snprintf(R->cls, sizeof R->cls, "crash"); snprintf(R->msg, sizeof R->msg, "process ended by signal %d", WTERMSIG(st)); }
    } else if (WEXITSTATUS(st) == 3) { R->status = ST_HARNESS; snprintf(R->msg, sizeof R->msg, "simulator error (exit 3)"); }
    else { R->status = ST_VIOLATION; snprintf(R->cls, sizeof R->cls, "process-exit"); snprintf(R->msg, sizeof R->msg, "process called exit(%d)", WEXITSTATUS(st)); }
  }
}
static char *oneline(const char *s, char *buf, size_t n) {
  size_t j = 0; for (size_t i = 0; s[i] && j + 2 < n; i++) buf[j++] = (s[i] == '\n' || s[i] == '\t' || s[i] == '\r') ? ' ' : s[i];
  buf[j] = 0; return buf;
}
struct Replay { std::string prop, wl, cls; uint64_t seed = 0, hash = 0; ReplaySpec spec; };

static void spec_from_result(ReplaySpec &s) {
  s.explicit_mode = true;
  s.sw.assign(R->sw, R->sw + R->nsw); s.fl.assign(R->fl, R->fl + R->nfl);
}
static bool save(const char *path, const Replay &r, const char *msg, const char *desc) {
  FILE *f = fopen(path, "w"); if (!f) return false;
  char buf[8000];
  fprintf(f, "field3d-sim-replay 1\nproperty %s\nworkload %s\nseed %llu\nclass %s\nhash %llu\n", r.prop.c_str(), r.wl.c_str(), (unsigned long long)r.seed, r.cls.c_str(), (unsigned long long)r.hash);
  fprintf(f, "message %s\n", oneline(msg, buf, sizeof buf)); fprintf(f, "case %s\n", oneline(desc, buf, sizeof buf));
  fprintf(f, "explicit %d\n", (int)r.spec.explicit_mode);
  for (int k : r.spec.skip) fprintf(f, "skip %d\n", k);
  for (const FlRec &x : r.spec.fl) fprintf(f, "fault %llu %d %llu # %s\n", (unsigned long long)x.idx, x.kind, (unsigned long long)x.param, fault_names[x.kind]);
  for (const SwRec &x : r.spec.sw) fprintf(f, "switch %llu %d %d\n", (unsigned long long)x.key, x.tid, x.forced);
  fclose(f); return true;
}
static bool load(const char *path, Replay &r) {
  FILE *f = fopen(path, "r"); if (!f) return false;
  static char line[16384], a[256];
  while (fgets(line, sizeof line, f)) {
    unsigned long long x, y; int k, t, q;
    if (sscanf(line, "property %200s", a) == 1) r.prop = a;
    else if (sscanf(line, "workload %200s", a) == 1) r.wl = a;
    else if (sscanf(line, "seed %llu", &x) == 1) r.seed = x;
    else if (sscanf(line, "class %200s", a) == 1) r.cls = a;
    else if (sscanf(line, "hash %llu", &x) == 1) r.hash = x;
    else if (sscanf(line, "explicit %d", &k) == 1) r.spec.explicit_mode = k;
    else if (sscanf(line, "skip %d", &k) == 1) r.spec.skip.push_back(k);
    else if (sscanf(line, "fault %llu %d %llu", &x, &k, &y) == 3) { FlRec fl; memset(&fl, 0, sizeof fl); fl.idx = x; fl.kind = k; fl.param = y; r.spec.fl.push_back(fl); }
    else if (sscanf(line, "switch %llu %d %d", &x, &t, &q) == 3) { SwRec s; s.key = x; s.tid = t; s.forced = q; r.spec.sw.push_back(s); }
  }
  fclose(f); std::sort(r.spec.skip.begin(), r.spec.skip.end());
  return !r.wl.empty();
}
static void print_result(const char *tag) {
  static char a[8000], b[8000];
  static const char *sn[] = { "ok", "violation", "harness-error", "running" };
  out("%s status=%s class=%s hash=%llu trace=%llu steps=%llu clk=%llu switches=%llu preempt=%llu threads=%d io=%llu h5=%llu faults=%u nontrivial=%d simtime_ns=%llu\n", tag, sn[R->status], R->cls[0] ? R->cls : "-",
      (unsigned long long)R->hash, (unsigned long long)R->trace_hash, (unsigned long long)R->steps, (unsigned long long)R->clk, (unsigned long long)R->nswitch, (unsigned long long)R->preempt, R->nthreads, (unsigned long long)R->io, (unsigned long long)R->h5, R->nfl, R->nontrivial, (unsigned long long)R->simtime);
  out("case: %s\n", oneline(R->desc, b, sizeof b));
  if (R->msg[0]) out("message: %s\n", oneline(R->msg, a, sizeof a));
}

static const Workload *pick_wl(const char *prop, uint64_t seed) {
  double tot = 0; for (int i = 0; i < g_nwl; i++) if (!strcmp(g_wl[i].property, prop)) tot += g_wl[i].weight;
  double u = Rng(mix(seed, 1234567)).unit() * tot;
  const Workload *last = 0;
  for (int i = 0; i < g_nwl; i++) if (!strcmp(g_wl[i].property, prop)) { last = &g_wl[i]; u -= g_wl[i].weight; if (u < 0) return last; }
  return last;
}
static uint64_t run_seed(const char *prop, uint64_t base, uint64_t i) {
  uint64_t h = 1469598103934665603ULL; for (const char *c = prop; *c; c++) h = (h ^ (unsigned char)*c) * 1099511628211ULL;
  return mix(mix(h, base), i) >> 1;
}

static int cmd_batch(int argc, char **argv) {
  // batch PROP BASESEED START STRIDE MAXRUNS SECONDS RECHECK_EVERY MAXVIOL [WORKLOAD]
  const char *prop = argv[2]; uint64_t base = strtoull(argv[3], 0, 10), start = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10);
  uint64_t maxr = strtoull(argv[6], 0, 10); double secs = atof(argv[7]); uint64_t recheck = strtoull(argv[8], 0, 10); int maxv = atoi(argv[9]);
  const Workload *only = argc > 10 ? find_wl(argv[10]) : 0;
  double t0 = wall(); ReplaySpec empty; int nv = 0; uint64_t n = 0, rechecked = 0;
  static uint64_t faults_total[F_COUNT]; static struct { char n[48]; uint64_t c; } pr[512]; int npr = 0;
  static char a[8000], b[8000];
  static Result copy_hdr __attribute__((unused));
  for (uint64_t i = start; n < maxr && wall() - t0 < secs; i += stride, n++) {
    uint64_t seed = run_seed(prop, base, i);
    const Workload *w = only ? only : pick_wl(prop, seed);
    if (!w) { out("E no workload for %s\n", prop); return 3; }
    run_once(w, seed, empty);
    int status = R->status;
    uint64_t h = R->hash, th = R->trace_hash;
    for (int k = 0; k < F_COUNT; k++) faults_total[k] += R->faults[k];
    for (int k = 0; k < R->nprobes; k++) {
      int j; for (j = 0; j < npr; j++) if (!strcmp(pr[j].n, R->probes[k])) break;
      if (j == npr && npr < 512) { strcpy(pr[npr++].n, R->probes[k]); }
      if (j < 512) pr[j].c += R->probe_hits[k];
    }
    out("R %llu %d %llx %llx %d %llu %llu %llu %llu %llu %llu %llu %d %s\n", (unsigned long long)i, status, (unsigned long long)h, (unsigned long long)th, R->nontrivial,
        (unsigned long long)R->steps, (unsigned long long)R->nswitch, (unsigned long long)R->preempt, (unsigned long long)R->simtime, (unsigned long long)R->io, (unsigned long long)R->h5, (unsigned long long)seed, R->nthreads, w->name);
    if (n < 3 && status == ST_OK) out("S %s | seed %llu | %llu switches, %u faults | %s\n", w->name, (unsigned long long)seed, (unsigned long long)R->nswitch, R->nfl, oneline(R->desc, b, sizeof b));
    if (status == ST_VIOLATION) {
      out("V\t%llu\t%llu\t%s\t%s\t%s\t%s\n", (unsigned long long)i, (unsigned long long)seed, w->name, R->cls, oneline(R->msg, a, sizeof a), oneline(R->desc, b, sizeof b));
      if (++nv >= maxv) { n++; break; }
    } else if (status == ST_HARNESS) {
      out("H\t%llu\t%llu\t%s\t%s\t%s\n", (unsigned long long)i, (unsigned long long)seed, w->name, oneline(R->msg, a, sizeof a), oneline(R->desc, b, sizeof b));
    } else if (recheck && n % recheck == recheck / 2) {
      rechecked++;
      run_once(w, seed, empty);
      if (R->hash != h || R->trace_hash != th || R->status != status)
        out("D\t%llu\t%llu\t%s\tnot deterministic: hash %llx then %llx\n", (unsigned long long)i, (unsigned long long)seed, w->name, (unsigned long long)h, (unsigned long long)R->hash);
    }
  }
  for (int k = 1; k < F_COUNT; k++) out("F %s %llu\n", fault_names[k], (unsigned long long)faults_total[k]);
  for (int k = 0; k < npr; k++) out("P %llu %s\n", (unsigned long long)pr[k].c, pr[k].n);
  out("Z %llu %llu %.3f\n", (unsigned long long)n, (unsigned long long)rechecked, wall() - t0);
  return 0;
}

static Result *g_save = 0;
// does this spec still fail the same way?
static bool fails(const Workload *w, const Replay &r, const ReplaySpec &s) {
  run_once(w, r.seed, s);
  return R->status == ST_VIOLATION && r.cls == R->cls;
}
template <class V> static V without(const V &v, size_t a, size_t n) { V o(v.begin(), v.begin() + a); o.insert(o.end(), v.begin() + std::min(v.size(), a + n), v.end()); return o; }

static int cmd_minimize(int argc, char **argv) {
  Replay r; if (!load(argv[2], r)) { out("cannot read %s\n", argv[2]); return 2; }
  double end = wall() + atof(argv[4]);
  const Workload *w = find_wl(r.wl.c_str()); if (!w) return 2;
  (void)argc;
  // 1. operations, with the schedule redrawn from the seed each time
  if (!r.spec.explicit_mode) {
    if (!fails(w, r, r.spec)) { out("does not reproduce from its seed (status %d class %s)\n", R->status, R->cls); return 2; }
    int nop = R->max_op + 1;
    for (int chunk = nop / 2 > 0 ? nop / 2 : 1; chunk >= 1 && wall() < end; chunk /= 2) {
      for (int a = 0; a < nop && wall() < end; a += chunk) {
        ReplaySpec s = r.spec; bool changed = false;
        for (int k = a; k < a + chunk && k < nop; k++) if (!std::binary_search(r.spec.skip.begin(), r.spec.skip.end(), k)) { s.skip.push_back(k); changed = true; }
        if (!changed) continue;
        std::sort(s.skip.begin(), s.skip.end());
        if (fails(w, r, s)) r.spec = s;
      }
    }
    if (!fails(w, r, r.spec)) return 2;
    ReplaySpec s = r.spec; spec_from_result(s); s.skip = r.spec.skip;
    if (R->sw_overflow) { r.hash = R->hash; save(argv[3], r, R->msg, R->desc); out("schedule too long to record: replay is by seed\n"); return 0; }
    if (!fails(w, r, s)) { out("explicit replay differs: status %d class %s\n", R->status, R->cls); return 2; }
    r.spec = s;
  } else if (!fails(w, r, r.spec)) { out("does not reproduce\n"); return 2; }
  // 2. operations, faults and switches under the explicit schedule
  for (int round = 0; round < 3 && wall() < end; round++) {
    bool any = false;
    for (size_t chunk = std::max<size_t>(1, r.spec.fl.size() / 2); r.spec.fl.size() && wall() < end; chunk /= 2) {
      for (size_t a = 0; a < r.spec.fl.size() && wall() < end;) {
        ReplaySpec s = r.spec; s.fl = without(s.fl, a, chunk);
        if (fails(w, r, s)) { r.spec = s; any = true; } else a += chunk;
      }
      if (chunk <= 1) break;
    }
    for (size_t chunk = std::max<size_t>(1, r.spec.sw.size() / 2); r.spec.sw.size() && wall() < end; chunk /= 2) {
      for (size_t a = 0; a < r.spec.sw.size() && wall() < end;) {
        ReplaySpec s = r.spec; s.sw = without(s.sw, a, chunk);
        if (fails(w, r, s)) { r.spec = s; any = true; } else a += chunk;
      }
      if (chunk <= 1) break;
    }
    if (!any) break;
  }
  if (!fails(w, r, r.spec)) return 2;
  r.hash = R->hash;
  uint64_t h = R->hash;
  save(argv[3], r, R->msg, R->desc);
  if (!fails(w, r, r.spec) || R->hash != h) { out("minimised replay is not deterministic\n"); return 2; }
  out("minimised: %zu operations removed, %zu switches, %zu faults\n", r.spec.skip.size(), r.spec.sw.size(), r.spec.fl.size());
  print_result("R");
  return 0;
}

int main(int argc, char **argv) {
  // fixed addresses everywhere (best effort: nothing the simulator decides depends on it)
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
    setenv("SIM_REEXEC", "1", 1);
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  g_use_malloc = true;
  clean_env();
  struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
  R = (Result *)mmap(0, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (R == MAP_FAILED) return 3;
  if (argc < 2) { fprintf(stderr, "usage: runner list|batch|one|replay|minimize ...\n"); return 2; }
  std::string cmd = argv[1];
  bool verbose = !strcmp(argv[argc - 1], "-v"); if (verbose) { argc--; g_verbose = true; }
  g_out = syscall(SYS_fcntl, 1, F_DUPFD, 200);
  if (!verbose) {
    int n = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0);
    dup2(n, 0); dup2(n, 1); if (cmd != "minimize" || true) dup2(n, 2); if (n > 2) syscall(SYS_close, n);
  }
  if (cmd == "list") { for (int i = 0; i < g_nwl; i++) out("%s %s %g\n", g_wl[i].property, g_wl[i].name, g_wl[i].weight); return 0; }
  if (cmd == "batch" && argc >= 10) return cmd_batch(argc, argv);
  if (cmd == "one" && argc >= 4) {   // one WORKLOAD SEED [DUMP [skips]]
    const Workload *w = find_wl(argv[2]); if (!w) { out("no such workload\n"); return 2; }
    Replay r; r.seed = strtoull(argv[3], 0, 10);
    run_once(w, r.seed, r.spec);
    print_result("R");
    for (int k = 0; k < R->nprobes; k++) out("probe %s = %llu\n", R->probes[k], (unsigned long long)R->probe_hits[k]);
    if (argc > 4) {
      // seed-form replay file (made explicit by minimize)
      r.prop = w->property; r.wl = w->name; r.cls = R->cls[0] ? R->cls : "none"; r.hash = R->hash;
      save(argv[4], r, R->msg, R->desc);
    }
    return R->status == ST_OK ? 0 : R->status == ST_VIOLATION ? 1 : 2;
  }
  if (cmd == "minimize" && argc >= 5) return cmd_minimize(argc, argv);
  if (cmd == "replay" && argc >= 3) {
    Replay r; if (!load(argv[2], r)) { out("cannot read %s\n", argv[2]); return 2; }
    const Workload *w = find_wl(r.wl.c_str()); if (!w) { out("no workload %s\n", r.wl.c_str()); return 2; }
    run_once(w, r.seed, r.spec);
    print_result("R");
    bool same = R->status == ST_VIOLATION && r.cls == R->cls;
    out("replay: %s%s\n", same ? "reproduced" : "NOT reproduced", same && r.hash == R->hash ? " exactly (same event hash)" : "");
    return same ? 1 : R->status == ST_OK ? 0 : 2;
  }
  fprintf(stderr, "bad arguments\n");
  return 2;
}
