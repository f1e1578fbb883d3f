// S01-S04: sparse fields loaded block by block under a memory limit.
//
// One engine, four mixes.  Threads run small random programs of lookups,
// iterations, interpolations, copies, opens, drops and flushes over shared
// dynamically loaded fields; every value that comes back is compared with the
// spec the file was written from.  Residency is observed through memSize().
#include <set>
#include "wl_util.h"
using namespace wl;
using namespace sim;

namespace {

enum OpKind { OP_VALUE, OP_ITER, OP_ITERCOPY, OP_SAMPLE, OP_COPY, OP_OPEN, OP_DROP, OP_FLUSH, OP_STATS, OP_HOLD, OP_COUNT };
struct Cfg {
  double w[OP_COUNT];
  bool faults, bound, counts, many;
  int maxThreads;
  Cfg() : faults(false), bound(true), counts(false), many(false), maxThreads(4) { for (int i = 0; i < OP_COUNT; i++) w[i] = 1; }
};

double comp(const F::half &v, int) { return (double)(float)v; }
double comp(float v, int) { return v; }
double comp(double v, int) { return v; }
template <class S> double comp(const FIELD3D_VEC3_T<S> &v, int c) { return (double)(float)v[c]; }
template <class T> int ncomp() { return (int)F::FieldTraits<T>::dataDims(); }

// the library's interpolators do not compile for V3h and V3f with this Imath
template <class T> struct Sampler {
  enum { ok = 1 };
  static T lin(const F::SparseField<T> &f, const F::V3d &p) { typename F::SparseField<T>::LinearInterp li; return li.sample(f, p); }
  static T gen(const F::SparseField<T> &f, const F::V3d &p) { F::LinearFieldInterp<T> li; return li.sample(f, p); }
};
template <class T> struct NoSampler { enum { ok = 0 }; static T lin(const F::SparseField<T> &, const F::V3d &) { return T(); } static T gen(const F::SparseField<T> &, const F::V3d &) { return T(); } };
template <> struct Sampler<F::V3h> : NoSampler<F::V3h> {};
template <> struct Sampler<F::V3f> : NoSampler<F::V3f> {};

// Fields of a second voxel type in the same cache: the manager keeps the types
// apart (the ids of each type count from 0), the limit covers them together
struct Peer {
  Peer *owner, *peer; int64_t blk; int liveIters;
  Peer() : owner(0), peer(0), blk(0), liveIters(0) {}
  virtual ~Peer() {}
  virtual long long resident() = 0;
  virtual bool isH5() = 0;
  virtual void op(int kind, Rng q) = 0;
  virtual void bound() = 0;
  virtual void make(const char *path, int bo) = 0;
  virtual void openAll() = 0;
  virtual void checkAll(const char *when) = 0;
  virtual void drop() = 0;
};

template <class T> struct Dyn : Peer {
  typedef F::SparseField<T> SF;
  typedef typename SF::Ptr Ptr;
  const Cfg &c;
  Rng r;
  std::string path; bool h5;
  std::vector<LayerSpec> specs;
  std::vector<Ptr> shared;                 // one per spec
  std::vector<std::pair<SF *, long long> > tracked; // field, memSize with nothing loaded
  int64_t limit; int nthreads; int running; int maxOver; bool anyFault;
  uint64_t okReads, failedReads;

  Dyn(const Cfg &cc, Rng rr) : c(cc), r(rr), h5(false), limit(0), nthreads(1), running(0), maxOver(0), anyFault(false), okReads(0), failedReads(0) {}

  static F::SparseFileManager &mgr() { return F::SparseFileManager::singleton(); }

  // --- files -------------------------------------------------------------
  void makeFile(const char *file = "/sim/dyn.f3d", int wantBo = -1) {
    GenOpt o; o.sparse_only = true; o.fixed_type = TypeOf<T>::v; o.max_blocks = 12; o.mappings = o.meta = false; o.max_bo = 2;
    if (r.chance(0.15)) o.max_bo = 3;
    int n = r.range(1, 3), bo = r.range(o.min_bo, o.max_bo);
    if (wantBo >= 0) bo = wantBo;
    h5 = r.chance(0.2);
    if (owner && c.faults) h5 = owner->isH5();   // the kinds of fault depend on the format
    for (int i = 0; i < n; i++) {
      LayerSpec s = genLayer(r, o, i);
      if (i == 0 && s.fill < 0.5) s.fill = 0.9;
      // the same block size everywhere, so that the limit counts blocks
      int d = bo - s.bo; s.bo = bo;
      if (d < 0) for (int a = 0; a < 3; a++) s.dw.max[a] = s.dw.min[a] + std::max(0, ((s.dw.max[a] - s.dw.min[a] + 1) >> -d) - 1);
      else for (int a = 0; a < 3; a++) { int sz = std::min((s.dw.max[a] - s.dw.min[a] + 1) << d, 24); s.dw.max[a] = s.dw.min[a] + sz - 1; }
      // reading everything voxel by voxel may load a block per voxel
      for (int maxVox = bo == 3 ? 1200 : 3000; s.dres().x * s.dres().y * s.dres().z > maxVox; ) {
        int a = s.dres().x >= s.dres().y ? (s.dres().x >= s.dres().z ? 0 : 2) : (s.dres().y >= s.dres().z ? 1 : 2);
        s.dw.max[a] = s.dw.min[a] + (s.dw.max[a] - s.dw.min[a]) / 2;
      }
      s.ext = s.dw;
      specs.push_back(s);
      describe("[%s] ", s.str().c_str());
    }
    blk = (int64_t)sizeof(T) << (3 * bo);
    path = altPath = file;
    useHdf5(h5);
    if (!writeFile(path, specs, 0, 1)) violation("write-failed", "writing the input reported failure");
    useHdf5(false);
  }
  Ptr openField(int i) {
    F::Field3DInputFile f;
    if (!f.open(path)) return Ptr();
    std::vector<F::FieldBase::Ptr> v = read(f, TypeOf<T>::v, specs[i].part, specs[i].attr);
    if (v.size() != 1) return Ptr();
    return Ptr(dynamic_cast<SF *>(v[0].get()));
  }
  void track(SF *f) { Quiet q; tracked.push_back(std::make_pair(f, (long long)f->memSize())); }
  void untrack(SF *f) { Quiet q; for (size_t i = 0; i < tracked.size(); i++) if (tracked[i].first == f) { tracked.erase(tracked.begin() + i); return; } }
  long long resident() { Quiet q; long long n = 0; for (size_t i = 0; i < tracked.size(); i++) n += tracked[i].first->memSize() - tracked[i].second; return n; }
  struct Track { Dyn &d; SF *f; Track(Dyn &x, SF *y) : d(x), f(y) { d.track(f); } ~Track() { d.untrack(f); } };
  // books: what the cache reports against what is there; nothing in flight
  void quiescent(const char *when) {
    long long res = resident(), rep = mgr().numLoadedBlocks();
    if (peer) {
      long long pr = peer->resident();
      if (res % blk || pr % peer->blk || rep != res / blk + pr / peer->blk) violation("books", "%s: the cache reports %lld loaded blocks, resident voxel data is %lld bytes (%g blocks) of one type and %lld bytes (%g blocks) of another", when, rep, res, (double)res / blk, pr, (double)pr / peer->blk);
      return;
    }
    if (rep * blk != res) violation("books", "%s: the cache reports %lld loaded blocks, resident voxel data is %lld bytes (%g blocks)", when, rep, res, (double)res / blk);
  }
  void bound() {
    if (!c.bound) return;
    if (owner) { owner->bound(); return; }
    Quiet q;
    long long res = resident(), big = blk; int liveIters = this->liveIters;
    if (peer) { res += peer->resident(); big = std::max(blk, peer->blk); liveIters += peer->liveIters; }
    long long lim = limit + 2 * big * (nthreads + liveIters);
    if (res > lim) violation("over-limit", "resident voxel data is %lld bytes (%g blocks): limit %lld, %d threads, %d live iterators, block %lld", res, (double)res / blk, (long long)limit, nthreads, liveIters, (long long)blk);
  }

  // --- checks of single values --------------------------------------------
  void checkVal(const T &v, int i, int j, int k, const LayerSpec &s, const char *how) {
    T e = expected<T>(s, i, j, k);
    if (!same(v, e)) { Quiet q; violation("wrong-value", "%s of voxel (%d,%d,%d) of layer %s gives %s, stored %s", how, i, j, k, s.attr.c_str(), show(v).c_str(), show(e).c_str()); }
    okReads++;
  }
  F::V3i point(Rng &q, const LayerSpec &s) { return F::V3i(q.range(s.dw.min.x, s.dw.max.x), q.range(s.dw.min.y, s.dw.max.y), q.range(s.dw.min.z, s.dw.max.z)); }
  F::Box3i box(Rng &q, const LayerSpec &s, int maxVox) {
    F::Box3i b = s.dw;
    for (int t = 0; t < 30; t++) {
      F::V3i a = point(q, s), d = point(q, s);
      b = F::Box3i(F::V3i(std::min(a.x, d.x), std::min(a.y, d.y), std::min(a.z, d.z)), F::V3i(std::max(a.x, d.x), std::max(a.y, d.y), std::max(a.z, d.z)));
      F::V3i z = b.size() + F::V3i(1);
      if (z.x * z.y * z.z <= maxVox) break;
      b = F::Box3i(a, a);
    }
    return b;
  }
  struct Live { Dyn &d; Live(Dyn &x) : d(x) { Quiet q; d.liveIters++; } ~Live() { Quiet q; d.liveIters--; } };

  void iterate(Rng &q, Ptr f, const LayerSpec &s, bool copies) {
    bool whole = q.chance(0.2) && (s.dres().x * s.dres().y * s.dres().z < 600);
    F::Box3i b = whole ? s.dw : box(q, s, 200);
    Live l1(*this), l2(*this);
    typename SF::const_iterator it = whole ? f->cbegin() : f->cbegin(b);
    int n = 0, every = q.range(1, 3);
    F::V3i p = b.min;
    size_t want = (size_t)(b.size().x + 1) * (b.size().y + 1) * (b.size().z + 1), seen = 0;
    for (; whole ? it != f->cend() : it != f->cend(b); ++it, ++n) {
      if (it.x != p.x || it.y != p.y || it.z != p.z) violation("wrong-value", "iterator is at (%d,%d,%d), expected (%d,%d,%d)", it.x, it.y, it.z, p.x, p.y, p.z);
      if (n % every == 0) { T v = q.chance(0.5) ? *it : *it.operator->(); checkVal(v, it.x, it.y, it.z, s, "iteration"); }
      if (copies && q.chance(0.08)) {
        Live l3(*this);
        typename SF::const_iterator c2(it);
        T v = *c2; checkVal(v, c2.x, c2.y, c2.z, s, "copied iterator");
        if (q.chance(0.4)) { T w = *it; checkVal(w, it.x, it.y, it.z, s, "iterator after a copy of it"); }
        int steps = q.range(0, 5);
        for (int z = 0; z < steps; z++) {
          ++c2; if (whole ? c2 == f->cend() : c2 == f->cend(b)) break;
          v = *c2; checkVal(v, c2.x, c2.y, c2.z, s, "copied iterator");
        }
        if (q.chance(0.3)) { Live l4(*this); typename SF::const_iterator c3(it); c3 = c2; }
      }
      if (q.chance(0.05)) { F::V3i z = point(q, s); T v = f->value(z.x, z.y, z.z); checkVal(v, z.x, z.y, z.z, s, "lookup"); }
      if (q.chance(0.02)) bound();
      seen++;
      if (++p.x > b.max.x) { p.x = b.min.x; if (++p.y > b.max.y) { p.y = b.min.y; ++p.z; } }
    }
    if (seen != want) violation("wrong-value", "iteration visited %zu voxels of %zu", seen, want);
  }
  void sample(Rng &q, Ptr f, const LayerSpec &s) {
    F::V3i a = point(q, s);
    static const double fr[] = { 0, 0.25, 0.5 };
    F::V3d p(a.x + 0.5 + fr[q.below(3)], a.y + 0.5 + fr[q.below(3)], a.z + 0.5 + fr[q.below(3)]);
    T v;
    if (!Sampler<T>::ok) { lookups(q, f, s, 2, "lookup"); return; }
    v = q.chance(0.7) ? Sampler<T>::lin(*f, p) : Sampler<T>::gen(*f, p);
    for (int cc = 0; cc < ncomp<T>(); cc++) {
      double e = 0;
      for (int n = 0; n < 8; n++) {
        F::V3i b(std::min(a.x + (n & 1), s.dw.max.x), std::min(a.y + (n >> 1 & 1), s.dw.max.y), std::min(a.z + (n >> 2), s.dw.max.z));
        double wx = p.x - 0.5 - a.x, wy = p.y - 0.5 - a.y, wz = p.z - 0.5 - a.z;
        double w = (n & 1 ? wx : 1 - wx) * (n & 2 ? wy : 1 - wy) * (n & 4 ? wz : 1 - wz);
        T x = expected<T>(s, b.x, b.y, b.z); e += w * comp(x, cc);
      }
      double got = comp(v, cc);
      if (!(got - e < 30 && e - got < 30)) violation("wrong-value", "interpolation of layer %s at (%g,%g,%g) gives %g, stored voxels give %g", s.attr.c_str(), p.x, p.y, p.z, got, e);
    }
    okReads++;
  }
  void lookups(Rng &q, Ptr f, const LayerSpec &s, int n, const char *how) {
    for (int t = 0; t < n; t++) { F::V3i p = point(q, s); T v = f->value(p.x, p.y, p.z); checkVal(v, p.x, p.y, p.z, s, how); }
  }
  void op(int kind, Rng q) {
    int i = (int)q.below(specs.size());
    Ptr f = shared[i]; const LayerSpec &s = specs[i];
    switch (kind) {
      case OP_VALUE: lookups(q, f, s, q.range(1, 12), "lookup"); break;
      case OP_ITER: iterate(q, f, s, false); break;
      case OP_ITERCOPY: iterate(q, f, s, true); break;
      case OP_SAMPLE: for (int t = q.range(1, 6); t > 0; t--) sample(q, f, s); break;
      case OP_COPY: {
        Ptr g(new SF(*f));
        { Track t(*this, g.get()); lookups(q, g, s, q.range(0, 6), "lookup in a copy"); bound(); }
        if (q.chance(0.3)) {
          int j = (int)q.below(specs.size());
          *g = *shared[j];
          Track t(*this, g.get());
          lookups(q, g, specs[j], q.range(0, 6), "lookup in an assigned copy"); bound();
        }
        if (q.chance(0.3)) { Ptr h(new SF(*g)); g = 0; }   // untracked, dropped at once
        break; }
      case OP_OPEN: {
        std::string was = path;
        Ptr g;
        { F::Field3DInputFile in; if (!in.open(altPath)) break;
          std::vector<F::FieldBase::Ptr> v = read(in, TypeOf<T>::v, specs[i].part, specs[i].attr);
          if (v.size() != 1) { if (!anyFault) violation("layer-missing", "%zu fields read, expected 1", v.size()); break; }
          g = Ptr(dynamic_cast<SF *>(v[0].get())); }
        lookups(q, g, s, q.range(0, 5), "lookup in a newly opened field");
        break; }
      case OP_DROP: { // drop the shared pointer of a private copy while others go on
        Ptr g(new SF(*f)); lookups(q, g, s, 2, "lookup in a copy"); g = 0; break; }
      case OP_FLUSH: mgr().flushCache(); break;
      case OP_STATS: { long long a = mgr().numLoadedBlocks(), b = mgr().totalLoads(), d = mgr().totalLoadedBlocks(); (void)d;
        if (a < 0 || b < 0) violation("books", "negative statistics"); mgr().cacheFractionLoaded(); mgr().memSize(); break; }
      case OP_HOLD: { // a live iterator while other blocks are read
        F::V3i p = point(q, s);
        Live l(*this);
        typename SF::const_iterator it = f->cbegin(F::Box3i(p, p));
        T v = *it; checkVal(v, p.x, p.y, p.z, s, "iteration");
        lookups(q, f, s, q.range(1, 6), "lookup under a live iterator");
        v = *it; checkVal(v, p.x, p.y, p.z, s, "iteration after other reads");
        break; }
    }
    bound();
  }
  std::string altPath;
  bool isH5() { return h5; }
  void make(const char *file, int bo) { makeFile(file, bo); }
  void openAll() {
    for (size_t i = 0; i < specs.size(); i++) {
      Ptr f = openField((int)i);
      if (!f) violation("layer-missing", "cannot open layer %s", specs[i].attr.c_str());
      if (!f->isDynamicLoad() && specs[i].numAlloc() > 0) violation("not-dynamic", "field is not loaded dynamically");
      shared.push_back(f); track(f.get());
    }
  }
  void checkAll(const char *when) {
    for (size_t i = 0; i < specs.size(); i++) {
      std::string d = diff(shared[i], specs[i], true);
      if (!d.empty()) violation("wrong-value", "%s: layer %s: %s", when, specs[i].attr.c_str(), d.c_str());
    }
  }
  void drop() { tracked.clear(); shared.clear(); }

  void body(int t, std::vector<std::pair<int, uint64_t> > prog, int base) {
    for (size_t n = 0; n < prog.size(); n++) {
      if (!op_enabled(base + (int)n)) continue;
      Peer *on = prog[n].first >= 100 ? peer : this;
      if (!c.faults) { on->op(prog[n].first % 100, Rng(prog[n].second)); continue; }
      uint64_t before = hard_faults_fired();
      // allocations fail within block loads, not within copies and assignments
      int k = prog[n].first % 100; bool af = k == OP_VALUE || k == OP_ITER || k == OP_ITERCOPY || k == OP_SAMPLE || k == OP_HOLD;
      try { if (af) { AllocFaults a; on->op(k, Rng(prog[n].second)); } else on->op(k, Rng(prog[n].second)); }
      catch (std::exception &) { failedReads++; if (hard_faults_fired() == 0) throw; }
      (void)before;
    }
    (void)t;
  }
  void run() {
    init(1);
    makeFile();
    if (peer) { describe(", with "); peer->make("/sim/peer.f3d", r.range(1, 2)); }
    if (c.w[OP_OPEN] > 0 && r.chance(0.5)) { altPath = "/sim/dyn2.f3d"; vfs::put(altPath, vfs::get(path)); }
    int total = 0; for (size_t i = 0; i < specs.size(); i++) total += specs[i].numAlloc();
    int lb = r.chance(0.25) ? r.range(0, 1) : r.range(1, std::max(1, std::min(total, 6)));
    if (r.chance(0.1)) lb = total + 5;
    limit = lb * blk;
    describe("limit %d blocks of %lld bytes, %s", lb, (long long)blk, h5 ? "HDF5" : "Ogawa");
    mgr().setLimitMemUse(true);
    mgr().setMaxMemUse((float)limit / (1024.0f * 1024.0f));
    long long base0 = mgr().numLoadedBlocks();
    if (base0 != 0) violation("books", "blocks loaded before anything was opened: %lld", base0);
    bool peerFirst = peer && r.chance(0.5);
    if (peerFirst) peer->openAll();
    openAll();
    if (peer && !peerFirst) peer->openAll();
    if (c.many && r.chance(0.12)) {
      // a long session: the cache never forgets the files it has seen
      static const int at[] = { 60, 188, 306, 311, 315 };
      int n = at[r.below(5)] + r.range(-2, 3); describe(", after %d other fields", n);
      for (int i = 0; i < n; i++) { Quiet z; Ptr g(new SF(*shared[0])); }
    }
    int nt = r.range(2, c.maxThreads);
    nthreads = nt;
    set_nontrivial(total > 0);
    std::vector<std::vector<std::pair<int, uint64_t> > > progs;
    double tot = 0; for (int k = 0; k < OP_COUNT; k++) tot += c.w[k];
    for (int t = 0; t < nt; t++) {
      std::vector<std::pair<int, uint64_t> > p; int n = r.range(2, 6);
      for (int i = 0; i < n; i++) {
        double u = r.unit() * tot; int k = 0; while (k < OP_COUNT - 1 && u >= c.w[k]) { u -= c.w[k]; k++; }
        p.push_back(std::make_pair(k + (peer && r.chance(0.4) ? 100 : 0), r.next()));
      }
      progs.push_back(p);
    }
    if (c.faults) setFaults();
    describe(", %d threads", nt);
    if (c.faults) open_fault_window();
    std::vector<Thread> th;
    for (int t = 1; t < nt; t++) { std::vector<std::pair<int, uint64_t> > p = progs[t]; th.push_back(spawn([this, t, p]() { body(t, p, t * 10); })); }
    body(0, progs[0], 0);
    for (size_t t = 0; t < th.size(); t++) join(th[t]);
    if (c.faults) { close_fault_window(); vfs::free_disk(); }
    liveIters = 0; if (peer) peer->liveIters = 0;
    after();
  }
  void setFaults() {
    FaultPolicy &p = faults();
    double u = r.unit();
    static const double rate[] = { 0.003, 0.02, 0.1 };
    double q = rate[r.below(3)];
    p.max_hard = r.chance(0.5) ? 1 : r.range(2, 8);
    if (u < 0.3) p.p[F_READ_EIO] = q;
    else if (u < 0.5) p.p[F_READ_EOF] = q;
    else if (u < 0.7) { p.p[F_ALLOC] = q / 4; }
    else if (u < 0.85) p.p[F_OPEN_FAIL] = q * 2;
    else { p.p[F_READ_EIO] = q; p.p[F_ALLOC] = q / 4; p.p[F_OPEN_FAIL] = q; p.p[F_READ_EOF] = q; }
    // HDF5 itself takes a read at end of file for zeros, and keeps half-read
    // object headers after a read error: there, whole calls fail instead
    if (h5) { p.p[F_H5_READ] = p.p[F_READ_EIO] > 0 ? p.p[F_READ_EIO] : p.p[F_READ_EOF]; p.p[F_READ_EOF] = p.p[F_READ_EIO] = 0; }
    if (r.chance(0.3)) { p.p[F_READ_SHORT] = 0.1; p.p[F_EINTR] = 0.05; }
    anyFault = true;
    describe(", read/open/allocation faults");
  }
  int allocatedBlocks() { int n = 0; for (size_t i = 0; i < specs.size(); i++) n += specs[i].numAlloc(); return n; }
  void after() {
    // nothing runs any more
    set_step_limit(steps() + 400000000);   // one thread left, long but bounded
    quiescent("after all readers finished");
    int tot = allocatedBlocks();
    if (peer) {
      set_step_limit(steps() + 400000000);
      if (r.chance(0.5)) checkAll("after all readers finished");
      peer->checkAll("after all readers finished");
      quiescent("after reading the fields of the other type");
      if (r.chance(0.3)) { mgr().flushCache(); quiescent("after a flush with two types");
        if (mgr().numLoadedBlocks() != 0) violation("books", "after an idle flush %lld blocks are reported loaded", (long long)mgr().numLoadedBlocks());
        checkAll("after a flush with two types"); }
      peer->drop(); quiescent("after the fields of the other type are gone");
      peer = 0;
    }
    // every voxel reads back
    for (size_t i = 0; i < specs.size(); i++) {
      std::string d = diff(shared[i], specs[i], true);
      if (!d.empty()) violation("wrong-value", "after all readers finished: layer %s: %s", specs[i].attr.c_str(), d.c_str());
    }
    quiescent("after reading everything");
    bound();
    // everything is evictable now; the whole limit must be in use (no more, no less)
    { long long res = resident(), want = std::min((long long)tot, std::max(1LL, (long long)(limit / blk))) * blk;
      if (limit >= blk || res > blk) {
        if (limit >= blk && res < want && anyLoads()) violation("limit-lost", "after reading %d blocks under a limit of %lld only %lld bytes are resident, %lld would fit", tot, (long long)limit, res, want);
        if (limit >= blk && res > limit && res < tot * blk) violation("over-limit", "idle, %lld bytes are resident, the limit is %lld", res, (long long)limit);
      } }
    mgr().flushCache();
    quiescent("after a flush");
    if (resident() != 0 || mgr().numLoadedBlocks() != 0) violation("books", "after an idle flush %lld bytes are resident, %lld blocks reported", resident(), (long long)mgr().numLoadedBlocks());
    for (size_t i = 0; i < specs.size(); i++) {
      Rng q(r.next()); lookups(q, shared[i], specs[i], 3, "lookup after a flush");
    }
    // another limit: read everything again under it
    long long vox = 0; for (size_t i = 0; i < specs.size(); i++) vox += specs[i].dres().x * specs[i].dres().y * specs[i].dres().z;
    if (r.chance(0.4) && vox < 1800) {
      int lb = r.range(1, std::max(1, std::min(tot, 5)));
      limit = lb * blk;
      mgr().setMaxMemUse((float)limit / (1024.0f * 1024.0f));
      describe(", then limit %d blocks", lb);
      for (size_t i = 0; i < specs.size(); i++) { std::string d = diff(shared[i], specs[i], true); if (!d.empty()) violation("wrong-value", "under a new limit: layer %s: %s", specs[i].attr.c_str(), d.c_str()); }
      long long res = resident(), want = std::min((long long)tot, (long long)(limit / blk)) * blk;
      if (res < want) violation("limit-lost", "limit changed to %lld: after reading %d blocks only %lld bytes are resident, %lld would fit", (long long)limit, tot, res, want);
      if (res > limit && res < tot * blk) violation("over-limit", "limit changed to %lld: idle, %lld bytes are resident", (long long)limit, res);
      quiescent("under a new limit");
    }
    // no further files are to be cached: what is cached already stays in the books
    bool off = r.chance(0.3);
    if (off) { mgr().setLimitMemUse(false); describe(", limit switched off and on around destruction"); }
    // destroying the fields takes their blocks out of the books
    tracked.clear();
    uint64_t lb0 = live_bytes(); (void)lb0;
    shared.clear();
    if (mgr().numLoadedBlocks() != 0) violation("books", "all dynamic fields are destroyed, %lld blocks reported loaded", (long long)mgr().numLoadedBlocks());
    if (off) {
      Ptr g = openField(0);
      if (!g) violation("layer-missing", "cannot open the file again");
      if (g->isDynamicLoad()) violation("not-dynamic", "with the memory limit switched off a file is still loaded dynamically");
      std::string d = diff(g, specs[0], true);
      if (!d.empty()) violation("wrong-value", "field read with the memory limit off: %s", d.c_str());
      g = 0;
      mgr().setLimitMemUse(true);
    }
    // and the whole limit is available to the next field
    Ptr f = openField(0);
    if (!f) violation("layer-missing", "cannot open the file again");
    track(f.get());
    std::string d = diff(f, specs[0], true);
    if (!d.empty()) violation("wrong-value", "field opened afterwards: %s", d.c_str());
    long long res = resident();
    long long want = std::min((long long)specs[0].numAlloc(), (long long)(limit / blk)) * blk;
    if (res < want) violation("limit-lost", "a new field may use %lld bytes, only %lld stay resident after reading all of it", want, res);
    if (limit >= blk && res > limit) violation("over-limit", "a single reader leaves %lld bytes resident, the limit is %lld", res, (long long)limit);
    quiescent("new field");
    tracked.clear();
    f = 0;
    if (mgr().numLoadedBlocks() != 0) violation("books", "all dynamic fields are destroyed, %lld blocks reported loaded", (long long)mgr().numLoadedBlocks());
    hash_obs(okReads);
    if (failedReads) probe("block load failed and was reported");
  }
  bool anyLoads() { return true; }

  // --- S05: loads and statistics --------------------------------------------
  typedef std::set<std::pair<int, int> > Blocks;
  void touched(Blocks &b, int i, int x, int y, int z) {
    const LayerSpec &s = specs[i]; F::V3i br = s.blockRes();
    int n = ((x - s.dw.min.x) >> s.bo) + br.x * (((y - s.dw.min.y) >> s.bo) + br.y * ((z - s.dw.min.z) >> s.bo));
    if (s.blockAlloc(n)) b.insert(std::make_pair(i, n));
  }
  // one reader; returns the blocks with voxel data it looked into
  Blocks visit(Rng q, bool watch) {
    Blocks b; long long loads = 0, seen = 0; Live l(*this);
    for (int n = q.range(1, 5); n > 0; n--) {
      int i = (int)q.below(specs.size()); const LayerSpec &s = specs[i]; Ptr f = shared[i];
      if (q.chance(0.7)) {
        for (int t = q.range(1, 14); t > 0; t--) {
          F::V3i p = point(q, s); T v = f->value(p.x, p.y, p.z); checkVal(v, p.x, p.y, p.z, s, "lookup");
          Quiet z; touched(b, i, p.x, p.y, p.z);
        }
      } else {
        F::Box3i w = box(q, s, 150);
        for (typename SF::const_iterator it = f->cbegin(w), e = f->cend(w); it != e; ++it) {
          T v = *it; checkVal(v, it.x, it.y, it.z, s, "iteration");
          Quiet z; touched(b, i, it.x, it.y, it.z);
        }
      }
      if (watch && q.chance(0.5)) {
        long long a = mgr().totalLoads(), d = mgr().totalLoadedBlocks(), now = mgr().totalLoads();
        if (a < loads || d < seen || now < a) violation("wrong-statistics", "%lld, then %lld and %lld loads and %lld, then %lld blocks loaded so far are reported, nothing was reset", loads, a, now, seen, d);
        loads = now; seen = d;
      }
    }
    return b;
  }
  // several readers at once; adds what they looked into
  void readers(Blocks &all, int base, bool watch) {
    int nt = r.range(1, c.maxThreads);
    nthreads = nt;
    std::vector<Blocks> got(nt); std::vector<Rng> rs;
    for (int t = 0; t < nt; t++) rs.push_back(Rng(r.next()));
    if (r.chance(0.4)) for (int t = 1; t < nt; t++) rs[t] = rs[0];      // all after the same blocks
    std::vector<Thread> th;
    for (int t = 1; t < nt; t++) if (op_enabled(base + t)) th.push_back(spawn([this, t, &got, &rs, watch]() { got[t] = visit(rs[t], watch); }));
    if (op_enabled(base)) got[0] = visit(rs[0], watch);
    for (size_t t = 0; t < th.size(); t++) join(th[t]);
    for (int t = 0; t < nt; t++) all.insert(got[t].begin(), got[t].end());
  }
  void expectCounts(const char *when, long long loads, long long total, long long now) {
    long long a = mgr().totalLoads(), b = mgr().totalLoadedBlocks(), d = mgr().numLoadedBlocks();
    if (loads >= 0 && a != loads) violation("wrong-statistics", "%s: %lld block loads are reported, there were %lld", when, a, loads);
    if (b != total) violation("wrong-statistics", "%s: %lld different blocks are reported loaded so far, there were %lld", when, b, total);
    if (now >= 0 && d != now) violation("wrong-statistics", "%s: %lld blocks are reported in memory, there are %lld", when, d, now);
    if ((loads < 0 && a < b) || d > b) violation("wrong-statistics", "%s: %lld loads, %lld blocks loaded so far, %lld in memory", when, a, b, d);
    float fr = mgr().cacheFractionLoaded(), lp = mgr().cacheLoadsPerBlock(), ef = mgr().cacheEfficiency();
    if (fr != (float)((double)d / std::max(1.0, (double)b)) || lp != (float)((double)a / std::max(1.0, (double)b)) || ef != (float)((double)b / std::max(1.0, (double)a)))
      violation("wrong-statistics", "%s: fraction loaded %g, loads per block %g, efficiency %g do not fit %lld loads, %lld blocks, %lld in memory", when, fr, lp, ef, a, b, d);
  }
  void runCounts() {
    init(1);
    makeFile();
    int tot = allocatedBlocks();
    bool tight = r.chance(0.35);
    int lb = tight ? r.range(1, std::max(1, tot - 1)) : tot + 1;
    limit = lb * blk;
    describe("limit %d of %d blocks, %s", lb, tot, h5 ? "HDF5" : "Ogawa");
    mgr().setLimitMemUse(true);
    mgr().setMaxMemUse((float)(limit + (tight ? 0 : blk)) / (1024.0f * 1024.0f));
    openAll();
    set_nontrivial(tot > 0);
    // loaded since the last reset, in memory, number of loads (the last two only without evictions)
    Blocks ever, now; long long base = 0;
    auto uni = [](Blocks a, const Blocks &b) { a.insert(b.begin(), b.end()); return (long long)a.size(); };
    expectCounts("before anything is read", 0, 0, 0);
    for (int phase = 0, np = r.range(1, 4); phase < np; phase++) {
      Blocks b; long long before = mgr().totalLoads();
      readers(b, phase * 10, r.chance(0.5));
      for (auto &x : b) { if (!now.count(x)) { base++; ever.insert(x); } now.insert(x); }
      if (tight) {
        expectCounts("after the readers finished, with evictions", -1, uni(ever, b), -1); ever.insert(b.begin(), b.end());
        if (mgr().totalLoads() < before) violation("wrong-statistics", "the number of loads fell");
        quiescent("after the readers finished, with evictions");
      } else expectCounts("after the readers finished", base, uni(ever, now), now.size());   // each block that was not there was read once
      if (!op_enabled(100 + phase)) continue;
      double u = r.unit();
      if (u < 0.35) {
        mgr().flushCache(); describe(", flush"); now.clear();
        expectCounts("after a flush", tight ? -1 : base, ever.size(), 0);
      } else if (u < 0.6) {
        // what is in memory was loaded, even when the count starts again
        if (tight) { mgr().flushCache(); now.clear(); }
        mgr().resetCacheStatistics(); describe(", reset"); base = 0; ever.clear();
        expectCounts("after a reset of the statistics", 0, now.size(), now.size());
      }
    }
    for (int k = 0; k < (int)specs.size(); k++) {
      std::string d = diff(shared[k], specs[k], true);
      if (!d.empty()) violation("wrong-value", "after all readers finished: layer %s: %s", specs[k].attr.c_str(), d.c_str());
    }
    tracked.clear(); shared.clear();
    expectCounts("after all fields are gone", 0, 0, 0);
  }
};

template <class T> void withPeer(const Cfg &c, Rng q, int t) {
  Dyn<T> d(c, q);
  std::unique_ptr<Peer> p;
  if (!c.counts && wl_rng().chance(0.35)) {
    Rng z = wl_rng().fork();
    switch ((t + 1 + (int)z.below(5)) % 6) {
      case HALF: p.reset(new Dyn<F::half>(c, z)); break;
      case FLOAT: p.reset(new Dyn<float>(c, z)); break;
      case DOUBLE: p.reset(new Dyn<double>(c, z)); break;
      case VHALF: p.reset(new Dyn<F::V3h>(c, z)); break;
      case VFLOAT: p.reset(new Dyn<F::V3f>(c, z)); break;
      default: p.reset(new Dyn<F::V3d>(c, z)); break;
    }
    d.peer = p.get(); p->owner = &d;
  }
  if (c.counts) d.runCounts(); else d.run();
}

void dyn(const Cfg &c) {
  Rng &r = wl_rng();
  static const int ty[] = { FLOAT, FLOAT, FLOAT, VFLOAT, DOUBLE, HALF, VHALF, VDOUBLE };
  int t = ty[r.below(8)];
  Rng q = r.fork();
  switch (t) {
    case HALF: withPeer<F::half>(c, q, t); break;
    case FLOAT: withPeer<float>(c, q, t); break;
    case DOUBLE: withPeer<double>(c, q, t); break;
    case VHALF: withPeer<F::V3h>(c, q, t); break;
    case VFLOAT: withPeer<F::V3f>(c, q, t); break;
    default: withPeer<F::V3d>(c, q, t); break;
  }
}
} // namespace

WORKLOAD(S01, dyn_read) {
  Cfg c; c.bound = false; c.many = true;
  c.w[OP_VALUE] = 3; c.w[OP_ITER] = 2; c.w[OP_ITERCOPY] = 1; c.w[OP_SAMPLE] = 2; c.w[OP_COPY] = 1; c.w[OP_OPEN] = 1; c.w[OP_DROP] = 1; c.w[OP_FLUSH] = 0.7; c.w[OP_STATS] = 0.3; c.w[OP_HOLD] = 1;
  dyn(c);
}
WORKLOAD(S02, dyn_books) {
  Cfg c;
  c.w[OP_VALUE] = 4; c.w[OP_ITER] = 2; c.w[OP_ITERCOPY] = 1; c.w[OP_SAMPLE] = 2; c.w[OP_COPY] = 1; c.w[OP_OPEN] = 0; c.w[OP_DROP] = 1; c.w[OP_FLUSH] = 0.3; c.w[OP_STATS] = 0.5; c.w[OP_HOLD] = 1;
  dyn(c);
}
WORKLOAD(S03, dyn_progress) {
  Cfg c; c.bound = false; c.many = true; c.maxThreads = 5;
  c.w[OP_VALUE] = 2; c.w[OP_ITER] = 1; c.w[OP_ITERCOPY] = 0.5; c.w[OP_SAMPLE] = 2; c.w[OP_COPY] = 1; c.w[OP_OPEN] = 2; c.w[OP_DROP] = 2; c.w[OP_FLUSH] = 1; c.w[OP_STATS] = 0.5; c.w[OP_HOLD] = 3;
  dyn(c);
}
WORKLOAD(S04, dyn_faults) {
  Cfg c; c.faults = true;
  c.w[OP_VALUE] = 4; c.w[OP_ITER] = 2; c.w[OP_ITERCOPY] = 0.5; c.w[OP_SAMPLE] = 2; c.w[OP_COPY] = 0.5; c.w[OP_OPEN] = 0; c.w[OP_DROP] = 0.5; c.w[OP_FLUSH] = 0.3; c.w[OP_STATS] = 0; c.w[OP_HOLD] = 1;
  dyn(c);
}
WORKLOAD(S05, dyn_counts) {
  Cfg c; c.counts = true; c.maxThreads = 5;
  dyn(c);
}
