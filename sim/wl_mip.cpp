// M01: levels of MIP fields load on first use.  M02: building MIP levels with threads.
#include "wl_files.h"
#include <Field3D/MinMaxUtil.h>
#include <Field3D/MIPInterp.h>
#include <Field3D/Resample.h>
#include <memory>

namespace {
F::SparseFileManager &mgr() { return F::SparseFileManager::singleton(); }

// a MIP field, whatever its type
struct AnyMip {
  virtual ~AnyMip() {}
  virtual F::FieldRes::Ptr ptr() = 0;
  virtual int levels() = 0;
  virtual bool loaded(int l) = 0;
  virtual F::FieldRes::Ptr level(int l, int how) = 0;     // through mipLevel or concreteMipLevel
  virtual const void *raw(int l) = 0;
  virtual double at(int l, F::V3i p, int how) = 0;        // first component
  virtual double interp(F::V3d p, float spot) = 0;
  virtual double size() = 0;
  virtual F::V3i res(int l) = 0;
  virtual AnyMip *clone(int how) = 0;
};
inline double num1(F::half v) { return v; } inline double num1(float v) { return v; } inline double num1(double v) { return v; }
template <class S> double num1(const FIELD3D_VEC3_T<S> &v) { return (double)v.x * 3 + (double)v.y * 5 + (double)v.z; }
template <class G> struct Mip : AnyMip {
  typedef F::MIPField<G> M;
  typename M::Ptr m;
  Mip(typename M::Ptr p) : m(p) {}
  F::FieldRes::Ptr ptr() { return m; }
  int levels() { return m->numLevels(); }
  bool loaded(int l) { return m->levelLoaded(l); }
  F::FieldRes::Ptr level(int l, int how) { if (how) return m->concreteMipLevel(l); return m->mipLevel(l); }
  const void *raw(int l) { return static_cast<const F::FieldRes *>(m->rawMipLevel(l)); }
  double at(int l, F::V3i p, int how) { return num1(how ? m->fastMipValue(l, p.x, p.y, p.z) : m->mipValue(l, p.x, p.y, p.z)); }
  // (linear interpolation of a sparse field only compiles for these types)
  template <class V> double interpT(const M &, F::V3d, float, V *) { return 0; }
  template <class X> static double interpY(const X &x, F::V3d p, float spot) { typename X::LinearInterp i(x); return num1(i.sample(p, spot)); }
  double interpT(const M &x, F::V3d p, float spot, float *) { return interpY(x, p, spot); }
  double interpT(const M &x, F::V3d p, float spot, double *) { return interpY(x, p, spot); }
  double interpT(const M &x, F::V3d p, float spot, F::V3d *) { return interpY(x, p, spot); }
  double interp(F::V3d p, float spot) { return interpT(*m, p, spot, (typename G::value_type *)0); }
  double size() { return (double)m->memSize() + (double)m->voxelCount(); }
  F::V3i res(int l) { return m->mipResolution(l); }
  AnyMip *clone(int how) {
    if (how == 0) { F::FieldBase::Ptr c = m->clone(); typename M::Ptr t = F::field_dynamic_cast<M>(c); if (!t) violation("cast-failed", "the clone of a MIP field is something else"); return new Mip<G>(t); }
    typename M::Ptr n(new M);
    *n = *m;
    return new Mip<G>(n);
  }
};
template <class T> AnyMip *anyMipT(F::FieldBase::Ptr f, int kind) {
  if (kind == MIPDENSE) { typename F::MIPField<F::DenseField<T> >::Ptr m = F::field_dynamic_cast<F::MIPField<F::DenseField<T> > >(f); return m ? new Mip<F::DenseField<T> >(m) : 0; }
  typename F::MIPField<F::SparseField<T> >::Ptr m = F::field_dynamic_cast<F::MIPField<F::SparseField<T> > >(f); return m ? new Mip<F::SparseField<T> >(m) : 0;
}
AnyMip *anyMip(F::FieldBase::Ptr f, const LayerSpec &s) {
  switch (s.type) {
    case HALF: return anyMipT<F::half>(f, s.kind);
    case FLOAT: return anyMipT<float>(f, s.kind);
    case DOUBLE: return anyMipT<double>(f, s.kind);
    case VHALF: return anyMipT<F::V3h>(f, s.kind);
    case VFLOAT: return anyMipT<F::V3f>(f, s.kind);
    default: return anyMipT<F::V3d>(f, s.kind);
  }
}
template <class T> double expNum(const LayerSpec &l, F::V3i p) { return num1(expected<T>(l, p.x, p.y, p.z)); }
double expect1(const LayerSpec &s, int l, F::V3i p) {
  LayerSpec x = mipLevelSpec(s, l);
  switch (s.type) { case HALF: return expNum<F::half>(x, p); case FLOAT: return expNum<float>(x, p); case DOUBLE: return expNum<double>(x, p); case VHALF: return expNum<F::V3h>(x, p); case VFLOAT: return expNum<F::V3f>(x, p); default: return expNum<F::V3d>(x, p); }
}
Meta metaOf(const F::FieldMetadata &m) {
  Meta y;
  for (auto &p : m.strMetadata()) y.s[p.first] = p.second;
  for (auto &p : m.intMetadata()) y.i[p.first] = p.second;
  for (auto &p : m.floatMetadata()) y.f[p.first] = p.second;
  for (auto &p : m.vecIntMetadata()) y.vi[p.first] = p.second;
  for (auto &p : m.vecFloatMetadata()) y.vf[p.first] = p.second;
  return y;
}
// what a level must be called and where it must be, as seen through a field that one thread reads
struct LevelInfo { std::string name, attr; Meta meta; std::string cls; F::V3d at[3]; };
LevelInfo infoOf(F::FieldRes::Ptr f) {
  LevelInfo i; i.name = f->name; i.attr = f->attribute; i.meta = metaOf(f->metadata());
  F::FieldMapping::Ptr m = f->mapping();
  i.cls = m ? m->className() : "none";
  static const float times[] = { 0.0f, 0.4f, 1.0f };
  if (m) for (int t = 0; t < 3; t++) m->voxelToWorld(F::V3d(0.5, 1.25, 2.0), i.at[t], times[t]);
  return i;
}
std::string diffInfo(const LevelInfo &a, const LevelInfo &b) {
  if (a.name != b.name) return "is called '" + a.name + "', not '" + b.name + "'";
  if (a.attr != b.attr) return "has the attribute '" + a.attr + "', not '" + b.attr + "'";
  if (a.cls != b.cls) return "has the mapping " + a.cls + ", not " + b.cls;
  for (int t = 0; t < 3; t++) if (!((a.at[t] - b.at[t]).length() <= 1e-9 * (1 + b.at[t].length()))) return "has another mapping";
  if (!(a.meta == b.meta)) return "has other metadata";
  return "";
}
}

WORKLOAD(M01, lazy_levels) {
  Rng &r = wl_rng();
  if (r.chance(0.2)) legalFaults(r);
  init(1);
  GenOpt g; g.max_blocks = 4; g.max_bo = 2;
  LayerSpec s;
  do s = genLayer(r, g, 0); while (s.kind == MAC);
  s.kind = r.chance(0.5) ? MIPDENSE : MIPSPARSE; s.ext = s.dw;
  for (int a = 0; a < 3; a++) if (s.kind == MIPDENSE && s.dw.max[a] - s.dw.min[a] > 5) s.dw.max[a] = s.dw.min[a] + 5;
  s.ext = s.dw;
  { F::V3i d = s.dres(); int big = std::max(d.x, std::max(d.y, d.z)), most = 1; while (((big + (1 << most) - 1) >> most) < ((big + (1 << (most - 1)) - 1) >> (most - 1))) most++; s.mipLevels = std::min(r.range(1, 3), most); }
  FileSpec f; f.h5 = r.chance(0.35); f.layers.push_back(s);
  describe("%s file: [%s] %d levels, ", f.h5 ? "HDF5" : "Ogawa", s.str().c_str(), s.mipLevels);
  { F::Field3DOutputFile o; if (!writeSpec(o, "/sim/m.f3d", f)) violation("write-failed", "writing reported failure"); }
  vfs::put("/sim/ref.f3d", vfs::get("/sim/m.f3d"));
  // the names and mappings of the levels, seen by a single thread
  std::vector<LevelInfo> ref;
  { F::Field3DInputFile in; if (!in.open("/sim/ref.f3d")) violation("file-rejected", "an intact file is rejected");
    std::vector<F::FieldBase::Ptr> v = readByAttr(in, s.type, s.attr);
    std::unique_ptr<AnyMip> m(v.size() == 1 ? anyMip(v[0], s) : 0);
    if (!m) violation("layer-missing", "the MIP layer does not come back");
    for (int l = 0; l < s.mipLevels; l++) { F::FieldRes::Ptr x = m->level(l, 0); std::string d = diffLevel(x, s, l); if (!d.empty()) violation("wrong-data", "level %d: %s", l, d.c_str()); ref.push_back(infoOf(x));
      if (ref[l].name != s.part || ref[l].attr != s.attr) violation("wrong-level", "level %d is called '%s' '%s'", l, ref[l].name.c_str(), ref[l].attr.c_str());
      for (auto &p : s.meta.s) if (ref[l].meta.s[p.first] != p.second) violation("wrong-level", "level %d lacks the field's metadata", l); }
    for (auto &x : m->ptr()->metadata().intMetadata()) (void)x;
  }
  bool dyn = s.kind == MIPSPARSE && r.chance(0.4);
  if (dyn) { mgr().setLimitMemUse(true); mgr().setMaxMemUse(r.chance(0.5) ? 0.0003f : 1.0f); describe("dynamic loading, "); }
  F::Field3DInputFile in; if (!in.open("/sim/m.f3d")) violation("file-rejected", "an intact file is rejected");
  std::unique_ptr<AnyMip> shared;
  { std::vector<F::FieldBase::Ptr> v = readByAttr(in, s.type, s.attr); if (v.size() == 1) shared.reset(anyMip(v[0], s)); }
  if (!shared) violation("layer-missing", "the MIP layer does not come back");
  if (r.chance(0.5)) in.close();
  for (int l = 0; l < s.mipLevels; l++) if (shared->loaded(l)) violation("loaded-early", "level %d is loaded although nobody used it", l);
  bool faulty = r.chance(0.35);
  if (faulty) {
    FaultPolicy &p = faults(); p.max_hard = r.chance(0.5) ? 1 : -1;
    if (f.h5) p.p[F_H5_READ] = r.chance(0.5) ? 0.01 : 0.1; else p.p[F_READ_EIO] = r.chance(0.5) ? 0.01 : 0.1;
    if (r.chance(0.5)) p.p[F_OPEN_FAIL] = 0.2;
    if (r.chance(0.3)) p.p[F_ALLOC] = 0.01;
    describe("transient faults, ");
  }
  int nt = r.range(2, 4);
  std::vector<Rng> seeds; for (int t = 0; t < nt; t++) seeds.push_back(r.fork());
  std::vector<const void *> raws(s.mipLevels, (const void *)0);
  std::vector<int> touched(s.mipLevels, 0);
  struct Sample { F::V3d p; float spot; double v; }; std::vector<std::vector<Sample> > samples(nt);
  describe("%d threads", nt);
  set_nontrivial(true);
  auto check = [&](int t, AnyMip &m, int l, F::FieldRes::Ptr x, const char *how) {
    std::string d = diffInfo(infoOf(x), ref[l]);
    if (!d.empty()) violation("wrong-level", "thread %d: level %d got through %s %s", t, l, how, d.c_str());
    d = diffLevel(x, s, l);
    if (!d.empty()) violation("wrong-data", "thread %d: level %d got through %s: %s", t, l, how, d.c_str());
    if (!m.loaded(l)) violation("wrong-level", "level %d is said not to be loaded although it was just handed out", l);
  };
  auto point = [&](Rng &z, int l) { LayerSpec q = mipLevelSpec(s, l); return F::V3i(z.range(q.dw.min.x, q.dw.max.x), z.range(q.dw.min.y, q.dw.max.y), z.range(q.dw.min.z, q.dw.max.z)); };
  auto body = [&](int t) {
    Rng q = seeds[t];
    int n = q.range(1, 5);
    for (int k = 0; k < n; k++) {
      Rng z = q.fork();
      if (!op_enabled(100 + t * 20 + k)) continue;
      int l = z.below(s.mipLevels), op = z.below(9);
      try {
        std::unique_ptr<AllocFaults> af; if (faulty && z.chance(0.5)) af.reset(new AllocFaults);
        switch (op) {
          case 0: case 1: { F::FieldRes::Ptr x = shared->level(l, op); af.reset(); touched[l] = 1; check(t, *shared, l, x, op ? "concreteMipLevel()" : "mipLevel()"); break; }
          case 2: case 3: {
            F::V3i p = point(z, l); double v = shared->at(l, p, op == 2); af.reset(); touched[l] = 1;
            double e = expect1(s, l, p); if (!(v == e)) violation("wrong-data", "thread %d: voxel (%d,%d,%d) of level %d is %g, stored %g", t, p.x, p.y, p.z, l, v, e); break; }
          case 4: {
            const void *x = shared->raw(l); af.reset(); touched[l] = 1; Quiet quiet;
            if (!x) violation("wrong-level", "rawMipLevel(%d) gives nothing", l);
            if (raws[l] && raws[l] != x) violation("loaded-twice", "level %d was loaded again", l);
            raws[l] = x; break; }
          case 5: { af.reset(); std::vector<bool> was; for (int i = 0; i < s.mipLevels; i++) was.push_back(shared->loaded(i)); double sz = shared->size(); if (sz <= 0) violation("wrong-size", "size %g", sz); for (int i = 0; i < s.mipLevels; i++) if (was[i] && !shared->loaded(i)) violation("wrong-level", "level %d is not loaded any more", i); break; }
          case 6: {
            if (s.map.kind > 1 || (s.type != FLOAT && s.type != DOUBLE && s.type != VDOUBLE)) break;
            LayerSpec b = mipLevelSpec(s, 0); Sample y; y.p = F::V3d(b.dw.min.x + z.unit() * b.dres().x, b.dw.min.y + z.unit() * b.dres().y, b.dw.min.z + z.unit() * b.dres().z);
            if (s.dw.min != F::V3i(0)) break;
            y.spot = z.chance(0.3) ? 0 : z.unit() * 20;
            for (auto &x : touched) x = 1;
            y.v = shared->interp(y.p, y.spot); af.reset(); samples[t].push_back(y); break; }
          case 7: {
            // a copy is a field of its own, and whole
            std::unique_ptr<AnyMip> c(shared->clone(z.below(2)));
            af.reset();
            F::FieldRes::Ptr x = c->level(l, 0);
            if (c->levels() != s.mipLevels) violation("wrong-level", "a copy has %d levels, the field %d", c->levels(), s.mipLevels);
            std::string d = diffLevel(x, s, l); if (!d.empty()) violation("wrong-data", "thread %d: level %d of a copy: %s", t, l, d.c_str());
            break; }
          case 8: if (shared->res(l) != mipLevelSpec(s, l).dres()) violation("wrong-level", "wrong resolution of level %d", l); break;
        }
      } catch (std::exception &e) { if (!faulty || !hard_faults_fired()) violation("load-failed", "thread %d: using level %d fails without any fault: %s", t, l, e.what()); probe("a level could not be loaded"); touched[l] = touched[l] ? 1 : 2; }
    }
  };
  open_fault_window();
  std::vector<Thread> th;
  for (int t = 0; t < nt; t++) th.push_back(spawn([&, t] { body(t); }));
  for (auto &t : th) join(t);
  close_fault_window();
  bool all = false; for (auto &v : samples) if (v.size()) all = true;
  for (int l = 0; l < s.mipLevels; l++) {
    if (!touched[l] && !all && shared->loaded(l)) violation("loaded-early", "level %d is loaded although nobody used it", l);
    F::FieldRes::Ptr x = shared->level(l, 0);
    check(9, *shared, l, x, "mipLevel()");
    if (raws[l] && raws[l] != shared->raw(l)) violation("loaded-twice", "level %d was loaded again", l);
  }
  for (auto &v : samples) for (auto &y : v) { double w = shared->interp(y.p, y.spot); if (!(w == y.v)) violation("wrong-data", "interpolation at (%g,%g,%g) spot %g gave %g, now %g", y.p.x, y.p.y, y.p.z, y.spot, y.v, w); }
}

//---------------------------------------------------------------------------
namespace {
template <class G> std::string sameGrid(typename G::Ptr a, typename G::Ptr b) {
  if (!a || !b) return a || b ? "one is missing" : "";
  if (a->extents().min != b->extents().min || a->extents().max != b->extents().max || a->dataWindow().min != b->dataWindow().min || a->dataWindow().max != b->dataWindow().max) return "other extents";
  if (a->name != b->name || a->attribute != b->attribute) return "other names";
  F::Box3i w = a->dataWindow(); char t[120];
  for (int k = w.min.z; k <= w.max.z; k++) for (int j = w.min.y; j <= w.max.y; j++) for (int i = w.min.x; i <= w.max.x; i++) {
    typename G::value_type x = a->fastValue(i, j, k), y = b->fastValue(i, j, k);
    if (memcmp(&x, &y, sizeof x)) { snprintf(t, sizeof t, "voxel (%d,%d,%d) is %g, with one thread %g", i, j, k, num1(x), num1(y)); return t; }
  }
  std::string d = diffInfo(infoOf(a), infoOf(b));
  return d.empty() ? d : "the level " + d;
}
// what a MIP field takes over from its base
template <class M> void takesOver(const M &m, const typename M::NestedType::Ptr &base, F::V3i off) {
  if (m.name != base->name || m.attribute != base->attribute) violation("wrong-data", "the MIP field is called '%s' '%s', its base '%s' '%s'", m.name.c_str(), m.attribute.c_str(), base->name.c_str(), base->attribute.c_str());
  Meta a = metaOf(const_cast<M &>(m).metadata()), b = metaOf(base->metadata());
  a.vi.erase("mipoffset"); b.vi.erase("mipoffset");
  if (!(a == b)) violation("wrong-data", "the metadata of the MIP field are not those of its base");
  if (m.mipOffset() != off) violation("wrong-data", "the MIP offset is (%d,%d,%d)", m.mipOffset().x, m.mipOffset().y, m.mipOffset().z);
  LevelInfo l = infoOf(m.concreteMipLevel(0)), g = infoOf(base);
  l.meta = g.meta;
  std::string d = diffInfo(l, g);
  if (d.size()) violation("wrong-data", "level 0 %s of the base", d.c_str());
}
// the levels do not depend on how the voxels of the base are stored
template <class M, class Filter> void compareDense(typename M::Ptr one, const typename M::NestedType &base, const LayerSpec &s, int minSize, F::V3i off) {
  typedef typename M::NestedType G; typedef typename G::value_type T; typedef F::DenseField<T> D; typedef F::MIPField<D> MD;
  D dense; dense.setSize(base.extents(), base.dataWindow());
  F::Box3i w = base.dataWindow();
  for (int k = w.min.z; k <= w.max.z; k++) for (int j = w.min.y; j <= w.max.y; j++) for (int i = w.min.x; i <= w.max.x; i++) dense.fastLValue(i, j, k) = base.fastValue(i, j, k);
  typename MD::Ptr m = F::makeMIP<MD, Filter>(dense, minSize, off, 1);
  if (!m || m->numLevels() != one->numLevels()) violation("wrong-levels", "another number of levels than of a dense field with the same voxels");
  for (size_t l = 0; l < m->numLevels(); l++) {
    typename D::Ptr a = m->concreteMipLevel(l); typename G::Ptr b = one->concreteMipLevel(l);
    F::Box3i v = b->dataWindow();
    if (a->dataWindow().min != v.min || a->dataWindow().max != v.max) violation("wrong-levels", "level %d has another size than that of a dense field with the same voxels", (int)l);
    for (int k = v.min.z; k <= v.max.z; k++) for (int j = v.min.y; j <= v.max.y; j++) for (int i = v.min.x; i <= v.max.x; i++) {
      T x = b->fastValue(i, j, k), y = a->fastValue(i, j, k);
      if (!(x == y)) violation("wrong-data", "level %d: voxel (%d,%d,%d) is %g, built from a dense field with the same voxels %g", (int)l, i, j, k, num1(x), num1(y));
    }
  }
}
template <class T> void zeroEmpty(F::DenseField<T> &, const LayerSpec &) {}
template <class T> void zeroEmpty(F::SparseField<T> &f, const LayerSpec &) {
  F::V3i n = f.blockRes();
  for (int z = 0; z < n.z; z++) for (int y = 0; y < n.y; y++) for (int x = 0; x < n.x; x++) if (!f.blockIsAllocated(x, y, z)) f.setBlockEmptyValue(x, y, z, T(0));
}
template <class G, class Filter> void makeAndCompare(Rng &r, const LayerSpec &s, const char *fn) {
  typedef F::MIPField<G> M;
  typename G::Ptr base = F::field_dynamic_cast<G>(build(s));
  bool zero = s.kind == SPARSE && r.chance(0.5);
  if (zero) zeroEmpty(*base, s);
  typename G::Ptr orig(new G(*base));
  int minSize = r.range(1, 4), nt = r.range(2, 5);
  F::V3i off(0); if (r.chance(0.5)) off = F::V3i(r.range(-3, 3), r.range(-3, 3), r.range(-3, 3));
  bool plain = r.chance(0.3);
  describe("%s %s, down to %d, offset (%d,%d,%d), %d threads", zero ? " zeros elsewhere," : "", fn, minSize, off.x, off.y, off.z, nt);
  if (plain) off = F::V3i(0);
  auto mk = [&](int n) { return plain ? F::makeMIP<M, Filter>(*base, minSize, n) : F::makeMIP<M, Filter>(*base, minSize, off, n); };
  // with some offsets the smallest levels cannot be told apart by size; then this is said, with any number of threads
  typename M::Ptr one; std::string err;
  try { one = mk(1); } catch (F::Exc::Exception &e) { err = e.what(); }
  if (!one && err.empty()) violation("no-result", "makeMIP gives nothing");
  if (one) takesOver(*one, base, off);
  int rounds = r.range(1, 2);
  for (int k = 0; k < rounds; k++) {
    typename M::Ptr m;
    try { m = mk(nt); } catch (F::Exc::Exception &e) { if (err != e.what()) violation("no-result", "with %d threads: %s, with one: %s", nt, e.what(), err.empty() ? "no error" : err.c_str()); continue; }
    if (err.size()) violation("no-result", "with one thread: %s, with %d no error", err.c_str(), nt);
    if (!m) violation("no-result", "makeMIP gives nothing with %d threads", nt);
    if (m->numLevels() != one->numLevels()) violation("wrong-levels", "%d levels with %d threads, %d with one", (int)m->numLevels(), nt, (int)one->numLevels());
    for (size_t l = 0; l < m->numLevels(); l++) { std::string d = sameGrid<G>(m->concreteMipLevel(l), one->concreteMipLevel(l)); if (!d.empty()) violation("wrong-data", "level %d: %s", (int)l, d.c_str()); }
    if (m->numLevels() > 1) probe("levels were built");
  }
  if (s.kind == SPARSE && one) compareDense<M, Filter>(one, *base, s, minSize, off);
  std::string d = zero ? sameGrid<G>(base, orig) : diff(base, s); if (!d.empty()) violation("base-changed", "the base field has changed: %s", d.c_str());
}
// the same with failing allocations, threads that cannot be started, and a base whose blocks are still in a file
template <class G, class Filter> void makeWithFaults(Rng &r, const LayerSpec &s, const char *fn) {
  typedef F::MIPField<G> M;
  typename G::Ptr mem = F::field_dynamic_cast<G>(build(s)), base = mem;
  int minSize = r.range(1, 3), nt = r.range(1, 4);
  F::V3i off(0); if (r.chance(0.3)) off = F::V3i(r.range(-3, 3), r.range(-3, 3), r.range(-3, 3));
  typename M::Ptr one; std::string err;
  try { one = F::makeMIP<M, Filter>(*mem, minSize, off, 1); } catch (F::Exc::Exception &e) { err = e.what(); }
  bool dyn = s.kind == SPARSE && r.chance(0.5);
  race_checks(!dyn);   // loading blocks on demand looks at flags before it locks
  F::Field3DInputFile in;
  if (dyn) {
    { F::Field3DOutputFile out; bool ok = out.create("/sim/base.f3d") && write(out, s, mem) && out.close(); if (!ok) violation("write-failed", "writing the base reported failure"); }
    mgr().setLimitMemUse(true); mgr().setMaxMemUse(r.chance(0.5) ? 0.0f : 1.0f);
    if (!in.open("/sim/base.f3d")) violation("open-failed", "the file cannot be opened");
    std::vector<F::FieldBase::Ptr> v = readByAttr(in, s.type, s.attr);
    if (v.size() != 1 || !(base = F::field_dynamic_cast<G>(v[0]))) violation("layer-missing", "the base is not in the file");
  }
  FaultPolicy &p = faults();
  p.max_hard = r.chance(0.6) ? 1 : -1;
  if (r.chance(0.6)) p.p[F_ALLOC] = r.chance(0.5) ? 0.02 : 0.002;
  if (r.chance(0.4)) p.p[F_THREAD] = 0.1;
  if (dyn) p.p[F_READ_EIO] = r.chance(0.5) ? 0.05 : 0;
  describe(" %s, down to %d, offset (%d,%d,%d), %d threads%s, with faults", fn, minSize, off.x, off.y, off.z, nt, dyn ? ", base in a file" : "");
  int rounds = r.range(1, 3);
  for (int k = 0; k <= rounds; k++) {
    bool faulty = k < rounds;
    typename M::Ptr m; uint64_t before = hard_faults_fired();
    try {
      if (faulty) open_fault_window();
      AllocFaults af;
      m = F::makeMIP<M, Filter>(*base, minSize, off, nt);
      close_fault_window();
    } catch (std::exception &e) {
      close_fault_window();
      if (err != e.what() && hard_faults_fired() == before) violation("no-result", "%s although nothing went wrong", e.what());
      if (hard_faults_fired() != before) probe("a failure reached the caller");
      continue;
    }
    if (err.size()) violation("no-result", "with one thread: %s, with %d no error", err.c_str(), nt);
    if (!m) violation("no-result", "makeMIP gives nothing with %d threads", nt);
    if (m->numLevels() != one->numLevels()) violation("wrong-levels", "%d levels with %d threads, %d with one", (int)m->numLevels(), nt, (int)one->numLevels());
    if (hard_faults_fired() != before) probe("a failure was made up for");
    for (size_t l = 0; l < m->numLevels(); l++) { std::string d = sameGrid<G>(m->concreteMipLevel(l), one->concreteMipLevel(l)); if (!d.empty()) violation("wrong-data", "level %d%s: %s", (int)l, faulty ? " after a failure" : "", d.c_str()); }
  }
  std::string d = sameGrid<G>(base, mem); if (!d.empty()) violation("base-changed", "the base field has changed: %s", d.c_str());
}
// the least and the greatest values
template <class G> void minMaxAndCompare(Rng &r, const LayerSpec &s) {
  typedef F::MIPField<G> M; typedef typename G::value_type T; typedef std::pair<typename M::Ptr, typename M::Ptr> P;
  typename G::Ptr base = F::field_dynamic_cast<G>(build(s));
  if (s.kind == SPARSE && r.chance(0.3)) zeroEmpty(*base, s);
  typename G::Ptr orig(new G(*base));
  static const float mults[] = { 1.0f, 0.5f, 0.3f, 2.0f };
  float mult = mults[r.below(4)]; int nt = r.range(2, 5);
  describe(" least and greatest at %g, %d threads", mult, nt);
  P one = F::makeMinMax<M>(*base, mult, 1);
  P many = F::makeMinMax<M>(*base, mult, nt);
  if (!one.first || !one.second) {
    // a field without volume
    if (many.first || many.second) violation("no-result", "makeMinMax gives nothing with one thread, something with %d", nt);
    F::V3i d = s.dres();
    if (d.x > 1 && d.y > 1 && d.z > 1) violation("no-result", "makeMinMax gives nothing");
    return;
  }
  T lo = base->fastValue(0, 0, 0), hi = lo;
  F::Box3i w = base->dataWindow();
  for (int k = 0; k <= w.max.z; k++) for (int j = 0; j <= w.max.y; j++) for (int i = 0; i <= w.max.x; i++) { T v = base->fastValue(i, j, k); if (v < lo) lo = v; if (hi < v) hi = v; }
  for (int side = 0; side < 2; side++) {
    typename M::Ptr a = side ? one.second : one.first, b = side ? many.second : many.first;
    if (!b || a->numLevels() != b->numLevels()) violation("wrong-levels", "another number of levels with %d threads", nt);
    for (size_t l = 0; l < a->numLevels(); l++) { std::string d = sameGrid<G>(b->concreteMipLevel(l), a->concreteMipLevel(l)); if (!d.empty()) violation("wrong-data", "%s, level %d: %s", side ? "greatest" : "least", (int)l, d.c_str()); }
    if (a->name != base->name || a->attribute != base->attribute) violation("wrong-data", "the result is called '%s' '%s'", a->name.c_str(), a->attribute.c_str());
  }
  if (one.first->numLevels() != one.second->numLevels()) violation("wrong-levels", "the least values have %d levels, the greatest %d", (int)one.first->numLevels(), (int)one.second->numLevels());
  for (size_t l = 0; l < one.first->numLevels(); l++) {
    typename G::Ptr a = many.first->concreteMipLevel(l), b = many.second->concreteMipLevel(l);
    F::Box3i v = a->dataWindow();
    for (int k = v.min.z; k <= v.max.z; k++) for (int j = v.min.y; j <= v.max.y; j++) for (int i = v.min.x; i <= v.max.x; i++) {
      T x = a->fastValue(i, j, k), y = b->fastValue(i, j, k);
      if (y < x || x < lo || hi < y) violation("wrong-data", "level %d: voxel (%d,%d,%d) ranges from %g to %g, the base from %g to %g", (int)l, i, j, k, num1(x), num1(y), num1(lo), num1(hi));
      if (l == 0 && mult >= 1 && (base->fastValue(i, j, k) < x || y < base->fastValue(i, j, k))) violation("wrong-data", "voxel (%d,%d,%d) of the base is %g, the result ranges from %g to %g", i, j, k, num1(base->fastValue(i, j, k)), num1(x), num1(y));
    }
  }
  std::string d = sameGrid<G>(base, orig); if (!d.empty()) violation("base-changed", "the base field has changed: %s", d.c_str());
}
template <class G> void pickFilter(Rng &r, const LayerSpec &s) {
  switch (r.below(3)) {
    case 0: makeAndCompare<G, F::BoxFilter>(r, s, "box filter"); break;
    case 1: makeAndCompare<G, F::TriangleFilter>(r, s, "triangle filter"); break;
    default: makeAndCompare<G, F::GaussianFilter>(r, s, "Gaussian filter"); break;
  }
}
template <class G> void pickScalar(Rng &r, const LayerSpec &s) {
  switch (r.below(4)) { case 0: makeAndCompare<G, F::MinFilter>(r, s, "minimum"); break; case 1: makeAndCompare<G, F::MaxFilter>(r, s, "maximum"); break; default: pickFilter<G>(r, s); }
}
}

WORKLOAD(M02, make_mip) {
  Rng &r = wl_rng();
  race_checks(true);
  init(1);
  GenOpt g; g.max_blocks = 12; g.min_bo = 1; g.max_bo = 2; g.windows = false; g.meta = r.chance(0.3);
  LayerSpec s = genLayer(r, g, 0);
  s.kind = r.chance(0.35) ? DENSE : SPARSE;
  F::V3i res(r.range(3, 8), r.range(3, 6), r.range(3, 6));
  if (s.kind == SPARSE && r.chance(0.2)) s.bo = r.range(0, 4);
  if (s.kind == SPARSE && r.chance(0.25)) { int d = r.below(3); res = F::V3i(r.range(3, 4), r.range(3, 4), r.range(3, 4)); res[d] = r.range(30, 60); if (s.bo < 2) s.bo = r.range(1, 3); }   // with more than one block in the levels
  if (s.kind == DENSE && r.chance(0.3)) res = F::V3i(r.range(17, 20), 3, 3);   // dense fields are split into blocks of 16
  s.dw = s.ext = F::Box3i(F::V3i(0), res - F::V3i(1));
  int ty = r.below(5);
  s.type = ty == 0 ? HALF : ty == 1 ? DOUBLE : ty == 2 ? VFLOAT : FLOAT;
  describe("[%s]", s.str().c_str());
  set_nontrivial(true);
  if (s.kind == DENSE) switch (ty) {
    case 0: pickFilter<F::DenseField<F::half> >(r, s); break;
    case 1: pickFilter<F::DenseField<double> >(r, s); break;
    case 2: pickFilter<F::DenseField<F::V3f> >(r, s); break;
    default: pickScalar<F::DenseField<float> >(r, s); break;
  } else switch (ty) {
    case 0: pickFilter<F::SparseField<F::half> >(r, s); break;
    case 1: pickFilter<F::SparseField<double> >(r, s); break;
    case 2: pickFilter<F::SparseField<F::V3f> >(r, s); break;
    default: pickScalar<F::SparseField<float> >(r, s); break;
  }
}

WORKLOAD_W(M02, make_min_max, 0.15) {
  Rng &r = wl_rng();
  race_checks(true);
  init(1);
  GenOpt g; g.max_blocks = 12; g.min_bo = 1; g.max_bo = 2; g.windows = false; g.meta = r.chance(0.3);
  LayerSpec s = genLayer(r, g, 0);
  s.kind = r.chance(0.35) ? DENSE : SPARSE;
  F::V3i res(r.range(3, 8), r.range(3, 6), r.range(3, 6));
  if (r.chance(0.25)) { res = F::V3i(3); res[r.below(3)] = r.range(17, 24); }
  if (r.chance(0.05)) res[r.below(3)] = 1;
  s.dw = s.ext = F::Box3i(F::V3i(0), res - F::V3i(1));
  s.type = r.chance(0.3) ? DOUBLE : FLOAT;
  describe("[%s]", s.str().c_str());
  set_nontrivial(true);
  if (s.kind == DENSE) { if (s.type == FLOAT) minMaxAndCompare<F::DenseField<float> >(r, s); else minMaxAndCompare<F::DenseField<double> >(r, s); }
  else { if (s.type == FLOAT) minMaxAndCompare<F::SparseField<float> >(r, s); else minMaxAndCompare<F::SparseField<double> >(r, s); }
}

WORKLOAD(M02, make_mip_faults) {
  Rng &r = wl_rng();
  init(1);
  GenOpt g; g.max_blocks = 12; g.min_bo = 1; g.max_bo = 2; g.windows = false; g.meta = r.chance(0.3);
  LayerSpec s = genLayer(r, g, 0);
  s.kind = r.chance(0.25) ? DENSE : SPARSE;
  F::V3i res(r.range(3, 8), r.range(3, 6), r.range(3, 6));
  if (r.chance(0.3)) { int d = r.below(3); res = F::V3i(3); res[d] = r.range(33, 40); if (s.bo < 2) s.bo = r.range(1, 3); }
  s.dw = s.ext = F::Box3i(F::V3i(0), res - F::V3i(1));
  s.type = r.chance(0.5) ? FLOAT : VFLOAT;
  describe("[%s]", s.str().c_str());
  set_nontrivial(true);
  bool tri = r.chance(0.5); set_step_limit(400000000);
  if (s.kind == DENSE) {
    if (s.type == FLOAT) { if (tri) makeWithFaults<F::DenseField<float>, F::TriangleFilter>(r, s, "triangle filter"); else makeWithFaults<F::DenseField<float>, F::MinFilter>(r, s, "minimum"); }
    else makeWithFaults<F::DenseField<F::V3f>, F::BoxFilter>(r, s, "box filter");
  } else {
    if (s.type == FLOAT) { if (tri) makeWithFaults<F::SparseField<float>, F::TriangleFilter>(r, s, "triangle filter"); else makeWithFaults<F::SparseField<float>, F::GaussianFilter>(r, s, "Gaussian filter"); }
    else makeWithFaults<F::SparseField<F::V3f>, F::BoxFilter>(r, s, "box filter");
  }
}
