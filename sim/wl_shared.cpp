// Q01: threads share in-memory fields nobody modifies.
#include "wl_files.h"
#include <Field3D/MIPInterp.h>
#include <Field3D/Resample.h>
#include <Field3D/FieldGroup.h>
#include <Field3D/ProceduralField.h>
#include <Field3D/EmptyField.h>
#include <memory>

namespace {
struct Fold {      // order sensitive, bitwise
  uint64_t h; Fold() : h(0x9e37) {}
  void raw(uint64_t v) { h = mix(h, v); }
  void d(double v) { uint64_t u; memcpy(&u, &v, 8); if (v == 0) u = 0; raw(u); }
  void i(long long v) { raw((uint64_t)v); }
  void s(const std::string &x) { raw(x.size()); for (size_t k = 0; k < x.size(); k++) raw((unsigned char)x[k]); }
  void v(F::half x) { d((float)x); } void v(float x) { d(x); } void v(double x) { d(x); }
  template <class S> void v(const FIELD3D_VEC3_T<S> &x) { d((double)x.x); d((double)x.y); d((double)x.z); }
  void box(const F::Box3i &b) { v(F::V3d(b.min)); v(F::V3d(b.max)); }
};

// a field whose values are computed where they are needed
template <class T> struct Formula : F::ProceduralField<T> {
  typedef boost::intrusive_ptr<Formula> Ptr; typedef Formula class_type; typedef F::ProceduralField<T> base;
  void place(const LayerSpec &s) { this->m_extents = s.ext; this->m_dataWindow = s.dw; if (this->mapping()) this->mapping()->setExtents(s.ext); }
  DEFINE_FIELD_RTTI_CONCRETE_CLASS
  static const char *staticClassName() { return "Formula"; }
  static const char *staticClassType() { return "Formula"; }
  std::string className() const { return "Formula"; } std::string classType() const { return "Formula"; }
  uint64_t seed;
  T value(int i, int j, int k) const { return Mk<T>::at(seed, i, j, k); }
  T lsSample(const F::V3d &p) const { return this->typedFloatMetadata("gain", T(1)) + Mk<T>::at(seed, (int)(p.x * 10), (int)(p.y * 10), (int)(p.z * 10)); }
  F::FieldBase::Ptr clone() const { return new Formula(*this); }
};

struct Item { LayerSpec s; bool formula, made; F::FieldBase::Ptr f; Item() : formula(false), made(false) {} };
template <class T> F::FieldBase::Ptr makeItemT(const Item &it) {
  if (!it.formula) {
    F::FieldBase::Ptr b = build(it.s);
    if (it.made && it.s.kind == DENSE) { typename F::MIPField<F::DenseField<T> >::Ptr m = F::makeMIP<F::MIPField<F::DenseField<T> >, F::TriangleFilter>(*static_cast<F::DenseField<T> *>(b.get()), 2, it.s.ext.min, 1); m->name = it.s.part; m->attribute = it.s.attr; return m; }
    return b;
  }
  Formula<T> *x = new Formula<T>; F::FieldBase::Ptr p(x); x->seed = it.s.seed; x->place(it.s); x->name = it.s.part; x->attribute = it.s.attr; x->setMapping(makeMapping(it.s.map)); applyMeta(x->metadata(), it.s.meta); x->metadata().setFloatMetadata("gain", 2.5f); x->metadata().setVecFloatMetadata("gain", F::V3f(2.5f)); return p;
}
#define Q_BYTYPE(t, X) switch (t) { case HALF: { typedef F::half T; X; break; } case FLOAT: { typedef float T; X; break; } case DOUBLE: { typedef double T; X; break; } case VHALF: { typedef F::V3h T; X; break; } case VFLOAT: { typedef F::V3f T; X; break; } default: { typedef F::V3d T; X; } }
F::FieldBase::Ptr makeItem(const Item &it) { Q_BYTYPE(it.s.type, return makeItemT<T>(it)) }

struct Groups { std::unique_ptr<F::ScalarFieldGroup> sc; std::unique_ptr<F::VectorFieldGroup> ve; };

F::V3i pick(Rng &q, const F::Box3i &b) { return F::V3i(q.range(b.min.x, b.max.x), q.range(b.min.y, b.max.y), q.range(b.min.z, b.max.z)); }
F::V3d pickd(Rng &q, const F::Box3i &b, double out) { F::V3d p; for (int a = 0; a < 3; a++) p[a] = b.min[a] - out + q.unit() * (b.max[a] - b.min[a] + 1 + 2 * out); return p; }
F::Box3i sub(Rng &q, const F::Box3i &b) { F::V3i x = pick(q, b), y = pick(q, b); return F::Box3i(F::V3i(std::min(x.x, y.x), std::min(x.y, y.y), std::min(x.z, y.z)), F::V3i(std::max(x.x, y.x), std::max(x.y, y.y), std::max(x.z, y.z))); }

template <class T> void sparseInterp(Fold &, const F::SparseField<T> &, F::V3d, T *) {}
void sparseInterp(Fold &h, const F::SparseField<float> &f, F::V3d p, float *) { F::SparseField<float>::LinearInterp i; h.v(i.sample(f, p)); }
void sparseInterp(Fold &h, const F::SparseField<double> &f, F::V3d p, double *) { F::SparseField<double>::LinearInterp i; h.v(i.sample(f, p)); }
void sparseInterp(Fold &h, const F::SparseField<F::V3d> &f, F::V3d p, F::V3d *) { F::SparseField<F::V3d>::LinearInterp i; h.v(i.sample(f, p)); }
template <class T> void mipInterp(Fold &, const F::MIPField<F::SparseField<T> > &, F::V3d, float, T *) {}
template <class X> void mipI(Fold &h, const X &f, F::V3d p, float s) { typename X::LinearInterp i(f); h.v(i.sample(p, s)); }
void mipInterp(Fold &h, const F::MIPField<F::SparseField<float> > &f, F::V3d p, float s, float *) { mipI(h, f, p, s); }
template <class T> void macOps(Fold &, Rng &, F::Field<T> *) {}
template <class S> void macT(Fold &h, Rng &q, F::Field<FIELD3D_VEC3_T<S> > *f) {
  typedef F::MACField<FIELD3D_VEC3_T<S> > M;
  M *m = dynamic_cast<M *>(f);
  if (!m) return;
  F::V3d p = pickd(q, m->dataWindow(), 0.3);
  switch (q.below(4)) {
    case 0: { F::LinearMACFieldInterp<FIELD3D_VEC3_T<S> > i; h.v(i.sample(*m, p)); break; }
    case 1: { F::CubicMACFieldInterp<FIELD3D_VEC3_T<S> > i; h.v(i.sample(*m, p)); break; }
    case 2: { F::MACComponent c = (F::MACComponent)q.below(3); typename M::const_mac_comp_iterator i = m->cbegin_comp(c), e = m->cend_comp(c); for (; i != e; ++i) h.d((double)*i); break; }
    default: { F::V3i v = pick(q, m->dataWindow()); h.d(m->u(v.x, v.y, v.z)); h.d(m->v(v.x, v.y, v.z)); h.d(m->w(v.x, v.y, v.z)); h.v(m->value(v.x, v.y, v.z)); }
  }
}
void macOps(Fold &h, Rng &q, F::Field<F::V3h> *f) { macT(h, q, f); }
void macOps(Fold &h, Rng &q, F::Field<F::V3f> *f) { macT(h, q, f); }
void macOps(Fold &h, Rng &q, F::Field<F::V3d> *f) { macT(h, q, f); }

void mappingOps(Fold &h, Rng &q, const F::FieldMapping *m, const F::Box3i &dw) {
  for (int n = q.range(1, 4); n > 0; n--) {
    F::V3d p = pickd(q, dw, 1.0), o(0), o2(0); float t = q.chance(0.2) ? 0.0f : (float)q.unit();
    bool timed = q.chance(0.6);
    if (timed) m->voxelToWorld(p, o, t); else m->voxelToWorld(p, o);
    h.v(o);
    if (timed) m->worldToVoxel(o, o2, t); else m->worldToVoxel(o, o2);
    h.v(o2);
    if (timed) m->worldToLocal(o, o2, t); else m->worldToLocal(o, o2);
    h.v(o2);
    if (timed) m->localToWorld(o2, o, t); else m->localToWorld(o2, o);
    h.v(o);
    F::V3i v = pick(q, dw);
    if (q.chance(0.3)) { m->voxelToLocal(p, o); h.v(o); m->localToVoxel(o, o2); h.v(o2); }
    if (q.chance(0.3)) h.v(m->wsVoxelSize(v.x, v.y, v.z));
  }
  h.s(m->className());
  if (q.chance(0.3)) { F::FieldMapping::Ptr c = m->clone(); F::V3d p = pickd(q, dw, 0), o; c->voxelToWorld(p, o, 0.3f); h.v(o); h.i(c->isIdentical(const_cast<F::FieldMapping *>(m))); h.i(const_cast<F::FieldMapping *>(m)->isIdentical(c)); }
}

template <class T> void denseOps(Fold &h, Rng &q, const F::DenseField<T> &f, const F::Box3i &dw) {
  switch (q.below(4)) {
    case 0: for (int n = 0; n < 6; n++) { F::V3i p = pick(q, dw); h.v(f.fastValue(p.x, p.y, p.z)); } break;
    case 1: { typename F::DenseField<T>::LinearInterp i; for (int n = 0; n < 3; n++) h.v(i.sample(f, pickd(q, dw, 0.5))); break; }
    case 2: { typename F::DenseField<T>::CubicInterp i; for (int n = 0; n < 2; n++) h.v(i.sample(f, pickd(q, dw, 0.5))); break; }
    default: { F::Box3i b = sub(q, dw); typename F::DenseField<T>::const_iterator i = f.cbegin(b), e = f.cend(b); for (; i != e; ++i) h.v(*i); h.i(f.memSize() > 0); }
  }
}
template <class T> void sparseOps(Fold &h, Rng &q, const F::SparseField<T> &f, const F::Box3i &dw) {
  switch (q.below(5)) {
    case 0: for (int n = 0; n < 6; n++) { F::V3i p = pick(q, dw); h.v(f.fastValue(p.x, p.y, p.z)); h.i(f.voxelIsInAllocatedBlock(p.x, p.y, p.z)); } break;
    case 1: for (int n = 0; n < 3; n++) sparseInterp(h, f, pickd(q, dw, 0.5), (T *)0); break;
    case 2: { F::V3i br = f.blockRes(); h.v(F::V3d(br)); F::V3i b = pick(q, F::Box3i(F::V3i(0), br - F::V3i(1))); h.i(f.blockIsAllocated(b.x, b.y, b.z)); h.v(f.getBlockEmptyValue(b.x, b.y, b.z)); h.i(f.blockSize()); h.i(f.numGrains()); F::Box3i g; h.i(f.getGrainBounds(q.below(f.numGrains()), g)); h.box(g); break; }
    case 3: { typename F::SparseField<T>::block_iterator i = f.blockBegin(), e = f.blockEnd(); for (; i != e; ++i) { h.i(i.x); h.i(i.y); h.i(i.z); h.box(i.blockBoundingBox()); } h.i(f.voxelCount()); h.i(f.memSize()); break; }
    default: { F::Box3i b = sub(q, dw); typename F::SparseField<T>::const_iterator i = f.cbegin(b), e = f.cend(b); for (; i != e; ++i) h.v(*i); }
  }
}
template <class G> void mipOps(Fold &h, Rng &q, const F::MIPField<G> &m) {
  int l = (int)q.below(m.numLevels());
  h.i(m.numLevels()); h.v(F::V3d(m.mipResolution(l)));
  F::V3i r = m.mipResolution(l);
  F::FieldRes::Ptr lev = m.mipLevel(l); h.box(lev->dataWindow());
  F::V3i p = pick(q, lev->dataWindow());
  h.v(m.mipValue(l, p.x, p.y, p.z)); h.v(m.fastMipValue(l, p.x, p.y, p.z));
  if (q.chance(0.3)) { h.i(m.memSize() > 0); h.i(m.voxelCount()); }
}
std::string failTag(const char *what, int t) { return std::string(what) + " in thread " + std::to_string(t); }

template <class T> uint64_t evalT(const Item &it, const Groups &g, Rng q, int op, int tag) {
  Fold h;
  const LayerSpec &s = it.s;
  typename F::Field<T>::Ptr f(dynamic_cast<F::Field<T> *>(it.f.get()));
  if (!f) harness_error("wrong type");
  const F::Box3i dw = f->dataWindow();
  F::DenseField<T> *de = dynamic_cast<F::DenseField<T> *>(f.get());
  F::SparseField<T> *sp = dynamic_cast<F::SparseField<T> *>(f.get());
  F::MIPField<F::DenseField<T> > *md = dynamic_cast<F::MIPField<F::DenseField<T> > *>(f.get());
  F::MIPField<F::SparseField<T> > *ms = dynamic_cast<F::MIPField<F::SparseField<T> > *>(f.get());
  switch (op) {
    case 0:   // through the general interface
      for (int n = q.range(2, 8); n > 0; n--) { F::V3i p = pick(q, dw); T v = f->value(p.x, p.y, p.z); h.v(v); if ((de || sp) && s.kind != MAC && !same(v, expected<T>(s, p.x, p.y, p.z))) { Quiet z; violation("wrong-data", "voxel (%d,%d,%d) reads %s, it is %s", p.x, p.y, p.z, show(v).c_str(), show(expected<T>(s, p.x, p.y, p.z)).c_str()); } }
      break;
    case 1: { F::LinearFieldInterp<T> i; for (int n = q.range(1, 4); n > 0; n--) h.v(i.sample(*f, pickd(q, dw, 0.4)));
      if (de || sp) { F::V3i p = pick(q, dw); T v = i.sample(*f, F::V3d(p) + F::V3d(0.5)), e = expected<T>(s, p.x, p.y, p.z); if (!same(v, e)) { Quiet z; violation("wrong-data", "linear interpolation at the centre of voxel (%d,%d,%d) gives %s, the voxel is %s", p.x, p.y, p.z, show(v).c_str(), show(e).c_str()); } }
      break; }
    case 2: { F::CubicFieldInterp<T> i; for (int n = q.range(1, 2); n > 0; n--) h.v(i.sample(*f, pickd(q, dw, 0.4))); break; }
    case 3: { F::Box3i b = sub(q, dw); typename F::Field<T>::const_iterator i = f->cbegin(b), e = f->cend(b); for (; i != e; ++i) { h.v(*i); h.i(i.x + 7 * i.y + 49 * i.z); } break; }
    case 4: case 5: if (de) denseOps<T>(h, q, *de, dw); else if (sp) sparseOps<T>(h, q, *sp, dw); else if (md) { mipOps(h, q, *md); mipI(h, *md, pickd(q, md->dataWindow(), 0.2), (float)(0.5 + 3 * q.unit())); } else if (ms) { mipOps(h, q, *ms); mipInterp(h, *ms, pickd(q, ms->dataWindow(), 0.2), (float)(0.5 + 3 * q.unit()), (T *)0); } else macOps(h, q, f.get()); break;
    case 6: if (f->mapping()) mappingOps(h, q, f->mapping().get(), dw); else h.i(1); break;
    case 7: { // a copy is independent of the original
      F::FieldBase::Ptr c = f->clone();
      typename F::Field<T>::Ptr x = F::field_dynamic_cast<F::Field<T> >(c);
      if (!x && !it.formula && s.kind != MIPDENSE && s.kind != MIPSPARSE) { Quiet z; violation("cast-failed", "the clone is of another type"); }
      F::Field<T> *y = dynamic_cast<F::Field<T> *>(c.get());
      h.s(c->name); h.s(c->attribute);
      for (int n = 0; n < 4; n++) { F::V3i p = pick(q, dw); h.v(y->value(p.x, p.y, p.z)); }
      if (y->mapping()) mappingOps(h, q, y->mapping().get(), dw);
      F::WritableField<T> *w = dynamic_cast<F::WritableField<T> *>(c.get());
      if (w && q.chance(0.5)) { F::V3i p = pick(q, dw); w->lvalue(p.x, p.y, p.z) = T(77); w->name = "changed"; w->metadata().setIntMetadata("changed", 1); }
      break; }
    case 8: { // pointers
      std::vector<F::FieldBase::Ptr> v; for (int n = q.range(1, 5); n > 0; n--) v.push_back(it.f);
      F::FieldRes::Ptr r = F::field_dynamic_cast<F::FieldRes>(it.f); h.i(!!r);
      F::FieldMapping::Ptr m = f->mapping(); h.i(!!m);
      typename F::DenseField<T>::Ptr d = F::field_dynamic_cast<F::DenseField<T> >(it.f); h.i(!!d);
      typename F::SparseField<T>::Ptr z = F::field_dynamic_cast<F::SparseField<T> >(it.f); h.i(!!z);
      F::RefBase::WeakPtr w = f->weakPtr(); h.i(!w.expired());
      break; }
    case 9: { // what else a field tells about itself
      h.s(f->className()); h.s(f->classType()); h.s(f->name); h.s(f->attribute); h.box(f->extents()); h.box(f->dataWindow()); h.v(F::V3d(f->dataResolution())); h.v(F::V3d(f->extents().size())); h.i(f->isInBounds(dw.min.x, dw.max.y, dw.min.z));
      const F::FieldMetadata &m = f->metadata();
      for (auto &x : m.strMetadata()) h.s(x.first + x.second);
      h.i(m.intMetadata("nothing", 4)); for (auto &x : s.meta.i) h.i(m.intMetadata(x.first, 0)); for (auto &x : s.meta.f) h.d(m.floatMetadata(x.first, 0)); for (auto &x : s.meta.vf) h.v(m.vecFloatMetadata(x.first, F::V3f(0)));
      if (!md && !ms) { h.i(f->voxelCount()); }
      break; }
    case 10: { // sampled in world space with others
      float r[3] = { 0, 0, 0 }; F::V3d p = pickd(q, dw, 1.0), w = p;
      if (f->mapping()) f->mapping()->voxelToWorld(p, w);
      bool vec = is_vec(s.type);
      switch (q.below(5)) {
        // (sampling a group of vector fields does not compile)
        case 0: if (!vec) g.sc->sample(w, r, false); break;
        case 1: if (!vec) g.sc->sampleMIP(w, 0.1f, r, false); break;
        case 2: { F::Box3d b = vec ? g.ve->wsBounds() : g.sc->wsBounds(); h.v(b.min); h.v(b.max); break; }
        case 3: { F::Ray3d ray(w - F::V3d(20, 3, 5), w); IntervalVec iv; h.i(vec ? g.ve->getIntersections(ray, iv) : g.sc->getIntersections(ray, iv)); for (size_t i = 0; i < iv.size(); i++) { h.d(iv[i].t0); h.d(iv[i].t1); h.d(iv[i].stepLength); } break; }
        default: { F::Box3d b(w - F::V3d(1), w + F::V3d(1)); float mn[3] = { 0, 0, 0 }, mx[3] = { 0, 0, 0 }; if (vec) g.ve->getMinMax(b, mn, mx); else g.sc->getMinMax(b, mn, mx); for (int c = 0; c < (vec ? 3 : 1); c++) { h.d(mn[c]); h.d(mx[c]); } }
      }
      for (int c = 0; c < (vec ? 3 : 1); c++) h.d(r[c]);
      break; }
    case 11: { // resampled into a field of the caller's
      if (!de && !sp) { h.i(2); break; }
      F::V3i d = s.dres(), nr(std::max(1, (d.x + 1) / 2), std::max(1, (d.y + 1) / 2), std::max(1, (d.z + 1) / 2));
      if (de) { F::DenseField<T> t; h.i(F::resample(*de, t, nr, F::BoxFilter())); for (auto i = t.cbegin(); i != t.cend(); ++i) h.v(*i); }
      else { F::SparseField<T> t; h.i(F::resample(*sp, t, nr, F::BoxFilter())); for (auto i = t.cbegin(); i != t.cend(); ++i) h.v(*i); }
      break; }
    case 12: { // stored in a file of the caller's
      if (it.formula || (it.made && de == 0 && sp == 0)) { h.i(3); break; }
      if (s.kind == MAC) { h.i(4); break; }
      char path[64]; snprintf(path, sizeof path, "/sim/q%d.f3d", tag);
      F::Field3DOutputFile o;
      if (!o.create(path) || !write(o, s, it.f) || !o.close()) { Quiet z; violation("write-failed", "storing the shared field reported failure"); }
      F::Field3DInputFile in; if (!in.open(path)) { Quiet z; violation("file-rejected", "an intact file is rejected"); }
      std::vector<F::FieldBase::Ptr> v = read(in, s.type, s.part, s.attr);
      Quiet z;
      if (v.size() != 1) violation("layer-missing", "the stored field comes back %zu times", v.size());
      std::string d = diff(v[0], s, false); if (!d.empty()) violation("wrong-data", "the field stored from a thread comes back wrong: %s", d.c_str());
      break; }
  }
  return h.h;
}
uint64_t eval(const Item &it, const Groups &g, Rng q, int op, int tag) { Q_BYTYPE(it.s.type, return evalT<T>(it, g, q, op, tag)) }
const char *opName[] = { "value()", "LinearFieldInterp", "CubicFieldInterp", "iteration", "access by type", "access by type", "mapping", "clone()", "pointers", "attributes", "FieldGroup", "resample()", "storing" };

Groups makeGroups(const std::vector<Item> &v) {
  F::FieldRes::Vec a, b;
  for (size_t i = 0; i < v.size(); i++) if (!v[i].formula && v[i].s.kind != MAC) { F::FieldRes::Ptr r(dynamic_cast<F::FieldRes *>(v[i].f.get())); (is_vec(v[i].s.type) ? b : a).push_back(r); }
  Groups g; g.sc.reset(new F::ScalarFieldGroup(a)); g.ve.reset(new F::VectorFieldGroup(b));
  return g;
}
}

WORKLOAD(Q01, shared_fields) {
  Rng &r = wl_rng();
  race_checks(true);
  init(r.range(1, 2));
  int n = r.range(1, 3), nt = r.range(2, 4);
  std::vector<Item> mine(n), twin(n);
  for (int i = 0; i < n; i++) {
    GenOpt g; g.mac_ok = g.mip_ok = true; g.max_blocks = 5; g.max_bo = 2;
    Item it; it.s = genLayer(r, g, i);
    it.s.part = "part" + std::to_string(i);
    if (r.chance(0.12)) { it.formula = true; it.s.kind = DENSE; }
    describe("[%s%s] ", it.s.str().c_str(), it.formula ? " formula" : "");
    mine[i] = it; mine[i].f = makeItem(it);
    twin[i] = it; twin[i].f = makeItem(it);
  }
  Groups gm = makeGroups(mine), gt = makeGroups(twin);
  struct Op { int item, op; Rng q; uint64_t want; bool on; };
  std::vector<std::vector<Op> > ops(nt);
  bool focus = r.chance(0.5); int fop = r.range(0, 12), fitem = r.range(0, n - 1);
  describe("%d threads%s%s", nt, focus ? ", mostly " : "", focus ? opName[fop] : "");
  for (int t = 0; t < nt; t++) {
    int no = r.range(1, 6);
    for (int k = 0; k < no; k++) {
      Op o; o.item = focus && r.chance(0.7) ? fitem : r.range(0, n - 1); o.op = focus && r.chance(0.7) ? fop : r.range(0, 12);
      if (o.op == 12 && r.chance(0.6)) o.op = 0;
      o.q = r.fork(); o.on = op_enabled(t * 10 + k);
      ops[t].push_back(o);
    }
  }
  // what a single thread gets, from fields of its own
  for (int t = 0; t < nt; t++) for (auto &o : ops[t]) if (o.on) o.want = eval(twin[o.item], gt, o.q, o.op, 9);
  set_nontrivial(true);
  std::vector<Thread> th;
  for (int t = 0; t < nt; t++) th.push_back(spawn([&, t] {
    for (auto &o : ops[t]) if (o.on) {
      uint64_t got = eval(mine[o.item], gm, o.q, o.op, t);
      if (got != o.want) { Quiet z; violation("wrong-data", "%s of a shared field (%s) gives thread %d another result than a single thread gets", opName[o.op], mine[o.item].s.str().c_str(), t); }
    }
  }));
  for (int t = 0; t < nt; t++) join(th[t]);
  // nobody changed anything
  for (int i = 0; i < n; i++) if (!mine[i].formula) {
    std::string d = diff(mine[i].f, mine[i].s, false);
    if (!d.empty()) violation("wrong-data", "after everything, shared field %d: %s", i, d.c_str());
    if (mine[i].f->refcnt() != twin[i].f->refcnt()) violation("refcount", "field %d has %zu references, its twin %zu", i, (size_t)mine[i].f->refcnt(), (size_t)twin[i].f->refcnt());
    if (mine[i].f->name != mine[i].s.part) violation("wrong-data", "the name of shared field %d changed", i);
  }
}
