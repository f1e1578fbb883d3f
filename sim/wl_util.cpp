#include "wl_util.h"

namespace wl {
using namespace Field3D;

bool LayerSpec::blockAlloc(int b) const { return (sim::mix(seed ^ 0xA110C, b) >> 11) * (1.0 / 9007199254740992.0) < fill; }
const char *typeName(int t) { static const char *n[] = { "half", "float", "double", "vec_half", "vec_float", "vec_double" }; return n[t]; }
const char *kindName(int k) { static const char *n[] = { "DenseField", "SparseField", "MACField", "MIPDenseField", "MIPSparseField" }; return n[k]; }
size_t valueSize(int t) { static const size_t n[] = { 2, 4, 8, 6, 12, 24 }; return n[t]; }
std::string LayerSpec::str() const {
  char b[300]; snprintf(b, sizeof b, "%s<%s> %s:%s ext %d..%d,%d..%d,%d..%d dw %d..%d,%d..%d,%d..%d bo %d fill %.2f map %d meta %zu", kindName(kind), typeName(type), part.c_str(), attr.c_str(),
    ext.min.x, ext.max.x, ext.min.y, ext.max.y, ext.min.z, ext.max.z, dw.min.x, dw.max.x, dw.min.y, dw.max.y, dw.min.z, dw.max.z, bo, fill, map.kind, meta.s.size() + meta.i.size() + meta.f.size() + meta.vi.size() + meta.vf.size());
  return b;
}

Meta genMeta(Rng &r, int n) {
  Meta m;
  static const char *names[] = { "a", "density scale", "x_y", "LongerMetadataName", "0", "units" };
  for (int q = 0; q < n; q++) {
    std::string k = names[r.below(6)]; k += (char)('a' + q);
    switch (r.below(6)) {
      case 0: { std::string v; int len = r.chance(0.2) ? 0 : r.range(1, 12); for (int c = 0; c < len; c++) v += (char)r.range(32, 126); m.s[k] = v; break; }
      case 1: m.i[k] = (int)r.next(); break;
      case 2: m.f[k] = (float)(r.unit() * 1e6 - 5e5); break;
      case 3: m.vi[k] = V3i((int)r.next(), r.range(-5, 5), 0); break;
      case 4: m.vf[k] = V3f((float)r.unit(), -1.5f, (float)r.range(-100, 100)); break;
      default: m.s[k] = "value " + k; break;
    }
  }
  return m;
}
MapSpec genMap(Rng &r) {
  MapSpec m; double u = r.unit();
  m.kind = u < 0.15 ? 0 : u < 0.75 ? 1 : 2;
  int n = m.kind == 0 ? 0 : r.chance(0.3) ? r.range(2, 3) : 1;
  for (int q = 0; q < n; q++) {
    M44d t; t.setScale(V3d(r.range(1, 8), r.range(1, 8), r.range(1, 8)));
    M44d tr; tr.setTranslation(V3d(r.range(-20, 20), r.range(-20, 20), r.range(-20, 20) * 0.25));
    m.l2w.push_back(std::make_pair(n == 1 ? 0.0f : q * 0.5f, t * tr));
  }
  return m;
}
LayerSpec genLayer(Rng &r, const GenOpt &o, int idx) {
  LayerSpec s;
  s.seed = r.next();
  double u = r.unit();
  s.kind = o.sparse_only ? SPARSE : (u < 0.45 ? SPARSE : u < 0.75 && o.dense_ok ? DENSE : u < 0.85 && o.mac_ok ? MAC : o.mip_ok ? (r.chance(0.5) ? MIPDENSE : MIPSPARSE) : SPARSE);
  s.type = r.range(0, o.vec_ok ? 5 : 2);
  if (r.chance(0.4)) s.type = FLOAT;
  if (o.fixed_type >= 0) s.type = o.fixed_type;
  if (s.kind == MAC && !is_vec(s.type)) s.type = VFLOAT;
  s.bo = r.range(o.min_bo, o.max_bo);
  static const double fills[] = { 0, 0.3, 0.6, 0.9, 1 };
  s.fill = fills[r.below(20) == 0 ? 0 : 1 + r.below(4)];
  int b = 1 << s.bo;
  V3i n(1);
  for (int t = 0; t < 20; t++) {
    n = V3i(r.range(1, 4), r.range(1, 4), r.range(1, 3));
    if (n.x * n.y * n.z <= o.max_blocks) break;
    n = V3i(1);
  }
  V3i res;
  for (int a = 0; a < 3; a++) { res[a] = n[a] * b - (r.chance(0.4) ? r.range(0, b - 1) : 0); if (res[a] < 1) res[a] = 1; }
  if (s.kind == DENSE || s.kind == MAC || s.kind == MIPDENSE) for (int a = 0; a < 3; a++) if (res[a] > 8) res[a] = 8;
  V3i org(0);
  if (o.windows && r.chance(0.5)) org = V3i(r.range(-6, 6), r.range(-6, 6), r.range(-6, 6));
  s.dw = Box3i(org, org + res - V3i(1));
  s.ext = s.dw;
  if (o.windows && s.kind < MIPDENSE && r.chance(0.3)) { s.ext.min -= V3i(r.range(0, 2), 0, r.range(0, 1)); s.ext.max += V3i(0, r.range(0, 2), 1); }
  char nm[64];
  snprintf(nm, sizeof nm, "part%d", (int)r.below(3)); s.part = nm;
  snprintf(nm, sizeof nm, "attr%d", idx); s.attr = nm;
  if (o.mappings) s.map = genMap(r);
  if (o.meta) s.meta = genMeta(r, r.range(0, 3));
  s.mipLevels = r.range(2, 3);
  int big = std::max(res.x, std::max(res.y, res.z)), most = 1;   // every level must be smaller than the one before
  while (((big + (1 << most) - 1) >> most) < ((big + (1 << (most - 1)) - 1) >> (most - 1))) most++;
  s.mipLevels = std::min(s.mipLevels, most);
  return s;
}

FieldMapping::Ptr makeMapping(const MapSpec &m) {
  if (m.kind == 0) return FieldMapping::Ptr(new NullFieldMapping);
  if (m.kind == 1) {
    MatrixFieldMapping::Ptr p(new MatrixFieldMapping);
    for (size_t i = 0; i < m.l2w.size(); i++) {
      if (m.l2w.size() == 1) p->setLocalToWorld(m.l2w[i].second); else p->setLocalToWorld(m.l2w[i].first, m.l2w[i].second);
    }
    return p;
  }
  FrustumFieldMapping::Ptr p(new FrustumFieldMapping);
  M44d ss(2, 0, 0, 0, 0, 2, 0, 0, 0, 0, -1, -1, 0, 0, -3, -1), dummy;
  ss = M44d(1.5, 0, 0, 0, 0, 1.5, 0, 0, 0, 0, 0, -0.4995, 0, 0, -1, 0.5005);
  for (size_t i = 0; i < m.l2w.size(); i++) {
    M44d cs = m.l2w[i].second;
    if (m.l2w.size() == 1) p->setTransforms(ss * cs, cs); else p->setTransforms(m.l2w[i].first, ss * cs, cs);
  }
  p->setZDistribution(m.l2w.size() > 1 ? FrustumFieldMapping::UniformDistribution : FrustumFieldMapping::PerspectiveDistribution);
  return p;
}
void applyMeta(FieldMetadata &m, const Meta &x) {
  for (auto &p : x.s) m.setStrMetadata(p.first, p.second);
  for (auto &p : x.i) m.setIntMetadata(p.first, p.second);
  for (auto &p : x.f) m.setFloatMetadata(p.first, p.second);
  for (auto &p : x.vi) m.setVecIntMetadata(p.first, p.second);
  for (auto &p : x.vf) m.setVecFloatMetadata(p.first, p.second);
}

static void dress(FieldRes::Ptr f, const LayerSpec &s) {
  f->name = s.part; f->attribute = s.attr;
  f->setMapping(makeMapping(s.map));
  applyMeta(f->metadata(), s.meta);
}
template <class T> typename SparseField<T>::Ptr buildSparse(const LayerSpec &s) {
  typename SparseField<T>::Ptr f(new SparseField<T>);
  f->setBlockOrder(s.bo);
  f->setSize(s.ext, s.dw);
  V3i br = s.blockRes();
  for (int z = 0, b = 0; z < br.z; z++) for (int y = 0; y < br.y; y++) for (int x = 0; x < br.x; x++, b++) {
    f->setBlockEmptyValue(x, y, z, emptyVal<T>(s, b));
    if (!s.blockAlloc(b)) continue;
    int bs = 1 << s.bo;
    for (int k = z * bs; k < (z + 1) * bs; k++) for (int j = y * bs; j < (y + 1) * bs; j++) for (int i = x * bs; i < (x + 1) * bs; i++) {
      V3i p = s.dw.min + V3i(i, j, k);
      if (p.x > s.dw.max.x || p.y > s.dw.max.y || p.z > s.dw.max.z) continue;
      f->lvalue(p.x, p.y, p.z) = Mk<T>::at(s.seed, p.x, p.y, p.z);
    }
  }
  dress(f, s);
  return f;
}
template <class T> typename DenseField<T>::Ptr buildDense(const LayerSpec &s) {
  typename DenseField<T>::Ptr f(new DenseField<T>);
  f->setSize(s.ext, s.dw);
  for (int k = s.dw.min.z; k <= s.dw.max.z; k++) for (int j = s.dw.min.y; j <= s.dw.max.y; j++) for (int i = s.dw.min.x; i <= s.dw.max.x; i++)
    f->lvalue(i, j, k) = Mk<T>::at(s.seed, i, j, k);
  dress(f, s);
  return f;
}
// MAC components live on faces; component c at (i,j,k) is num(seed,i,j,k,c)
template <class S> typename MACField<FIELD3D_VEC3_T<S> >::Ptr buildMAC(const LayerSpec &s) {
  typedef FIELD3D_VEC3_T<S> V;
  typename MACField<V>::Ptr f(new MACField<V>);
  f->setSize(s.ext, s.dw);
  for (int c = 0; c < 3; c++) {
    V3i hi = s.dw.max; hi[c] += 1;
    for (int k = s.dw.min.z; k <= hi.z; k++) for (int j = s.dw.min.y; j <= hi.y; j++) for (int i = s.dw.min.x; i <= hi.x; i++) {
      S v = S((float)num(s.seed, i, j, k, c));
      if (c == 0) f->u(i, j, k) = v; else if (c == 1) f->v(i, j, k) = v; else f->w(i, j, k) = v;
    }
  }
  dress(f, s);
  return f;
}
LayerSpec mipLevelSpec(const LayerSpec &s, int level) {
  LayerSpec l = s; l.kind = s.kind == MIPDENSE ? DENSE : SPARSE;
  l.seed = s.seed + 1000 * level;
  V3i r = s.dres();
  for (int a = 0; a < 3; a++) r[a] = std::max(1, (r[a] + (1 << level) - 1) >> level);
  V3i org = s.dw.min; for (int a = 0; a < 3; a++) org[a] = org[a] >> level;
  l.dw = l.ext = Box3i(org, org + r - V3i(1));
  return l;
}
template <class T> FieldBase::Ptr buildMIP(const LayerSpec &s) {
  if (s.kind == MIPDENSE) {
    typename MIPDenseField<T>::Ptr m(new MIPDenseField<T>);
    std::vector<typename DenseField<T>::Ptr> v;
    for (int l = 0; l < s.mipLevels; l++) v.push_back(buildDense<T>(mipLevelSpec(s, l)));
    m->setup(v); dress(m, s); return m;
  }
  typename MIPSparseField<T>::Ptr m(new MIPSparseField<T>);
  std::vector<typename SparseField<T>::Ptr> v;
  for (int l = 0; l < s.mipLevels; l++) v.push_back(buildSparse<T>(mipLevelSpec(s, l)));
  m->setup(v); dress(m, s); return m;
}
template <class T> struct MacBuild { static FieldBase::Ptr go(const LayerSpec &) { throw std::runtime_error("bad spec"); } };
template <class S> struct MacBuild<FIELD3D_VEC3_T<S> > { static FieldBase::Ptr go(const LayerSpec &s) { return buildMAC<S>(s); } };
template <class T> static FieldBase::Ptr buildT(const LayerSpec &s) {
  switch (s.kind) {
    case DENSE: return buildDense<T>(s);
    case SPARSE: return buildSparse<T>(s);
    case MAC: return MacBuild<T>::go(s);
    default: return buildMIP<T>(s);
  }
}
#define BYTYPE(t, CALL) switch (t) { case HALF: { typedef half T; CALL; } case FLOAT: { typedef float T; CALL; } case DOUBLE: { typedef double T; CALL; } \
  case VHALF: { typedef V3h T; CALL; } case VFLOAT: { typedef V3f T; CALL; } default: { typedef V3d T; CALL; } }
FieldBase::Ptr build(const LayerSpec &s) { BYTYPE(s.type, return buildT<T>(s)) }

template <class T> struct IO {
  static bool write(Field3DOutputFile &f, const std::string &p, const std::string &a, typename Field<T>::Ptr x) { return f.writeScalarLayer<T>(p, a, x); }
  static bool write(Field3DOutputFile &f, const std::string &a, typename Field<T>::Ptr x) { return f.writeScalarLayer<T>(a, x); }
  static bool write(Field3DOutputFile &f, typename Field<T>::Ptr x) { return f.writeScalarLayer<T>(x); }
  static typename Field<T>::Vec read(Field3DInputFile &f, const std::string &p, const std::string &a) { return f.readScalarLayers<T>(p, a); }
  static typename Field<T>::Vec reada(Field3DInputFile &f, const std::string &a) { return f.readScalarLayers<T>(a); }
};
template <class S> struct IO<FIELD3D_VEC3_T<S> > {
  typedef FIELD3D_VEC3_T<S> T;
  static bool write(Field3DOutputFile &f, const std::string &p, const std::string &a, typename Field<T>::Ptr x) { return f.writeVectorLayer<S>(p, a, x); }
  static bool write(Field3DOutputFile &f, const std::string &a, typename Field<T>::Ptr x) { return f.writeVectorLayer<S>(a, x); }
  static bool write(Field3DOutputFile &f, typename Field<T>::Ptr x) { return f.writeVectorLayer<S>(x); }
  static typename Field<T>::Vec read(Field3DInputFile &f, const std::string &p, const std::string &a) { return f.readVectorLayers<S>(p, a); }
  static typename Field<T>::Vec reada(Field3DInputFile &f, const std::string &a) { return f.readVectorLayers<S>(a); }
};
template <class T> static bool writeT(Field3DOutputFile &f, const LayerSpec &s, FieldBase::Ptr b) {
  typename Field<T>::Ptr p(dynamic_cast<Field<T> *>(b.get()));
  if (!p) sim::harness_error("built field has the wrong type");
  // the several ways to say where it goes
  int how = (s.seed >> 24) % 4;
  if (how == 0 && s.part == "default") return IO<T>::write(f, s.attr, p);
  if (how <= 1 && p->name == s.part && p->attribute == s.attr) return IO<T>::write(f, p);
  return IO<T>::write(f, s.part, s.attr, p);
}
bool write(Field3DOutputFile &f, const LayerSpec &s, FieldBase::Ptr b) { BYTYPE(s.type, return writeT<T>(f, s, b)) }
template <class T> static std::vector<FieldBase::Ptr> readT(Field3DInputFile &f, const std::string *p, const std::string &a) {
  typename Field<T>::Vec v = p ? IO<T>::read(f, *p, a) : IO<T>::reada(f, a);
  return std::vector<FieldBase::Ptr>(v.begin(), v.end());
}
std::vector<FieldBase::Ptr> read(Field3DInputFile &f, int type, const std::string &p, const std::string &a) { BYTYPE(type, return readT<T>(f, &p, a)) }
std::vector<FieldBase::Ptr> readByAttr(Field3DInputFile &f, int type, const std::string &a) { BYTYPE(type, return readT<T>(f, 0, a)) }

static std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static std::string fmt(const char *f, ...) { char b[600]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static bool eq(const Box3i &a, const Box3i &b) { return a.min == b.min && a.max == b.max; }

template <class T> static std::string diffVoxels(const Field<T> &f, const LayerSpec &s) {
  for (int k = s.dw.min.z; k <= s.dw.max.z; k++) for (int j = s.dw.min.y; j <= s.dw.max.y; j++) for (int i = s.dw.min.x; i <= s.dw.max.x; i++) {
    T v = f.value(i, j, k), e = expected<T>(s, i, j, k);
    if (!same(v, e)) return fmt("voxel (%d,%d,%d) is %s, stored %s", i, j, k, show(v).c_str(), show(e).c_str());
  }
  return "";
}
template <class T> static std::string diffGrid(FieldBase::Ptr b, const LayerSpec &s, bool blocks) {
  Field<T> *f = dynamic_cast<Field<T> *>(b.get());
  if (!f) return "field has another data type";
  if (!eq(f->extents(), s.ext)) return fmt("extents differ (min %d %d %d max %d %d %d)", f->extents().min.x, f->extents().min.y, f->extents().min.z, f->extents().max.x, f->extents().max.y, f->extents().max.z);
  if (!eq(f->dataWindow(), s.dw)) return "data window differs";
  if (s.kind == SPARSE) {
    SparseField<T> *sf = dynamic_cast<SparseField<T> *>(b.get());
    if (!sf) return "not a SparseField: " + b->className();
    if (sf->blockOrder() != s.bo) return fmt("block order is %d, stored %d", sf->blockOrder(), s.bo);
    if (sf->blockRes() != s.blockRes()) return "block resolution differs";
    if (blocks) {
      V3i br = s.blockRes();
      for (int z = 0, n = 0; z < br.z; z++) for (int y = 0; y < br.y; y++) for (int x = 0; x < br.x; x++, n++) {
        if (sf->blockIsAllocated(x, y, z) != s.blockAlloc(n)) return fmt("block %d is %sallocated", n, s.blockAlloc(n) ? "not " : "");
        T v = sf->getBlockEmptyValue(x, y, z), e = emptyVal<T>(s, n);
        if (!s.blockAlloc(n) && !same(v, e)) return fmt("empty value of block %d is %s, stored %s", n, show(v).c_str(), show(e).c_str());
      }
    }
  } else if (!dynamic_cast<DenseField<T> *>(b.get())) return "not a DenseField: " + b->className();
  return diffVoxels<T>(*f, s);
}
template <class T> struct MacDiff { static std::string go(FieldBase::Ptr, const LayerSpec &) { return "bad spec"; } };
template <class S> struct MacDiff<FIELD3D_VEC3_T<S> > {
  static std::string go(FieldBase::Ptr b, const LayerSpec &s) {
    MACField<FIELD3D_VEC3_T<S> > *f = dynamic_cast<MACField<FIELD3D_VEC3_T<S> > *>(b.get());
    if (!f) return "not a MACField";
    if (!eq(f->extents(), s.ext) || !eq(f->dataWindow(), s.dw)) return "extents or data window differ";
    for (int c = 0; c < 3; c++) {
      V3i hi = s.dw.max; hi[c] += 1;
      for (int k = s.dw.min.z; k <= hi.z; k++) for (int j = s.dw.min.y; j <= hi.y; j++) for (int i = s.dw.min.x; i <= hi.x; i++) {
        S e = S((float)num(s.seed, i, j, k, c));
        S v = c == 0 ? f->u(i, j, k) : c == 1 ? f->v(i, j, k) : f->w(i, j, k);
        if (!(v == e)) return fmt("MAC component %d at (%d,%d,%d) is %g, stored %g", c, i, j, k, (double)v, (double)e);
      }
    }
    return "";
  }
};
template <class T> static std::string diffT(FieldBase::Ptr b, const LayerSpec &s, bool blocks) {
  switch (s.kind) {
    case MAC: return MacDiff<T>::go(b, s);
    case MIPDENSE: case MIPSPARSE: {
      MIPBase<T> *m = dynamic_cast<MIPBase<T> *>(b.get());
      if (!m) return "not a MIP field";
      if ((int)m->numLevels() != s.mipLevels) return fmt("%d MIP levels, stored %d", (int)m->numLevels(), s.mipLevels);
      for (int l = 0; l < s.mipLevels; l++) {
        typename Field<T>::Ptr lv = m->mipLevel(l);
        if (!lv) return fmt("MIP level %d missing", l);
        std::string d = diffGrid<T>(lv, mipLevelSpec(s, l), blocks);
        if (!d.empty()) return fmt("MIP level %d: ", l) + d;
      }
      return "";
    }
    default: return diffGrid<T>(b, s, blocks);
  }
}
std::string diffLevel(FieldBase::Ptr lv, const LayerSpec &s, int l) {
  if (!lv) return "no field";
  std::string d;
  BYTYPE(s.type, d = diffGrid<T>(lv, mipLevelSpec(s, l), true); break)
  return d;
}
std::string diffMeta(const FieldMetadata &m, const Meta &x) {
  Meta y;
  for (auto &p : m.strMetadata()) y.s[p.first] = p.second;
  for (auto &p : m.intMetadata()) y.i[p.first] = p.second;
  for (auto &p : m.floatMetadata()) y.f[p.first] = p.second;
  for (auto &p : m.vecIntMetadata()) y.vi[p.first] = p.second;
  for (auto &p : m.vecFloatMetadata()) y.vf[p.first] = p.second;
  if (x == y) {
    // one by one, too
    for (auto &p : x.s) if (m.strMetadata(p.first, "?") != p.second) return fmt("strMetadata('%s') gives '%.60s', stored '%.60s'", p.first.c_str(), m.strMetadata(p.first, "?").c_str(), p.second.c_str());
    for (auto &p : x.i) if (m.intMetadata(p.first, p.second + 1) != p.second) return fmt("intMetadata('%s') isn't %d", p.first.c_str(), p.second);
    for (auto &p : x.f) if (m.floatMetadata(p.first, p.second == 1 ? 2 : 1) != p.second) return fmt("floatMetadata('%s') isn't %g", p.first.c_str(), p.second);
    for (auto &p : x.vi) if (m.vecIntMetadata(p.first, p.second + V3i(1)) != p.second) return fmt("vecIntMetadata('%s') isn't (%d,%d,%d)", p.first.c_str(), p.second.x, p.second.y, p.second.z);
    for (auto &p : x.vf) if (m.vecFloatMetadata(p.first, p.second == V3f(1) ? V3f(2) : V3f(1)) != p.second) return fmt("vecFloatMetadata('%s') isn't (%g,%g,%g)", p.first.c_str(), p.second.x, p.second.y, p.second.z);
    if (m.strMetadata("\x01", "d") != "d" || m.intMetadata("\x01", 7) != 7 || m.floatMetadata("\x01", 7) != 7 || m.vecIntMetadata("\x01", V3i(7)) != V3i(7) || m.vecFloatMetadata("\x01", V3f(7)) != V3f(7))
      return "metadata that isn't there isn't the default";
    return "";
  }
  if (x.s != y.s) {
    for (auto &p : x.s) { if (!y.s.count(p.first)) return fmt("string metadata '%s' is missing", p.first.c_str()); if (y.s[p.first] != p.second) return fmt("string metadata '%s' is '%.60s', stored '%.60s'", p.first.c_str(), y.s[p.first].c_str(), p.second.c_str()); }
    return "extra string metadata";
  }
  for (auto &p : x.i) { if (!y.i.count(p.first)) return fmt("integer metadata '%s' is missing", p.first.c_str()); if (y.i[p.first] != p.second) return fmt("integer metadata '%s' is %d, stored %d", p.first.c_str(), y.i[p.first], p.second); }
  for (auto &p : x.f) { if (!y.f.count(p.first)) return fmt("float metadata '%s' is missing", p.first.c_str()); if (y.f[p.first] != p.second) return fmt("float metadata '%s' is %g, stored %g", p.first.c_str(), y.f[p.first], p.second); }
  if (x.i != y.i || x.f != y.f) return "extra number metadata";
  for (auto &p : x.vi) { if (!y.vi.count(p.first)) return fmt("integer vector metadata '%s' is missing", p.first.c_str()); V3i v = y.vi[p.first]; if (v != p.second) return fmt("integer vector metadata '%s' is (%d,%d,%d), stored (%d,%d,%d)", p.first.c_str(), v.x, v.y, v.z, p.second.x, p.second.y, p.second.z); }
  for (auto &p : x.vf) { if (!y.vf.count(p.first)) return fmt("float vector metadata '%s' is missing", p.first.c_str()); V3f v = y.vf[p.first]; if (v != p.second) return fmt("float vector metadata '%s' is (%g,%g,%g), stored (%g,%g,%g)", p.first.c_str(), v.x, v.y, v.z, p.second.x, p.second.y, p.second.z); }
  return "extra vector metadata";
}
std::string diffMapping(FieldMapping::Ptr m, const MapSpec &s, const Box3i &ext) {
  if (!m) return "no mapping";
  static const char *cn[] = { "NullFieldMapping", "MatrixFieldMapping", "FrustumFieldMapping" };
  if (m->className() != cn[s.kind]) return "mapping is a " + m->className() + ", stored a " + cn[s.kind];
  FieldMapping::Ptr ref = makeMapping(s);
  ref->setExtents(ext);
  static const float times[] = { 0.0f, 0.25f, 0.5f, 1.0f };
  for (int t = 0; t < (s.kind ? 4 : 1); t++) {
    V3d p(ext.min.x + 0.5, ext.min.y + 1.25, ext.max.z + 0.75), a, b;
    m->voxelToWorld(p, a, times[t]); ref->voxelToWorld(p, b, times[t]);
    if (!(a == b) && !((a - b).length() <= 1e-9 * (1 + b.length()))) return fmt("voxelToWorld at time %g gives (%g,%g,%g), stored mapping (%g,%g,%g)", times[t], a.x, a.y, a.z, b.x, b.y, b.z);
    V3d c, e;
    m->worldToVoxel(b, c, times[t]); ref->worldToVoxel(b, e, times[t]);
    if (!(c == e) && !((c - e).length() <= 1e-6 * (1 + e.length())) && e.length() < 1e6) return fmt("worldToVoxel at time %g gives (%g,%g,%g), stored mapping (%g,%g,%g)", times[t], c.x, c.y, c.z, e.x, e.y, e.z);
  }
  return "";
}
std::string diff(FieldBase::Ptr fld, const LayerSpec &s, bool blocks) {
  if (!fld) return "null field";
  if (fld->name != s.part) return "name is '" + fld->name + "', stored '" + s.part + "'";
  if (fld->attribute != s.attr) return "attribute is '" + fld->attribute + "', stored '" + s.attr + "'";
  FieldRes *fr = dynamic_cast<FieldRes *>(fld.get());
  if (!fr) return "not a FieldRes";
  std::string d;
  BYTYPE(s.type, d = diffT<T>(fld, s, blocks); break)
  if (!d.empty()) return d;
  d = diffMapping(fr->mapping(), s.map, fr->extents());
  if (!d.empty()) return d;
  if (s.kind == MIPDENSE || s.kind == MIPSPARSE) {   // MIP fields keep their offset among the metadata
    Meta m = s.meta;
    const FieldMetadata &c = fld->metadata();
    for (auto &p : c.vecIntMetadata()) if (p.first == "mipoffset" && !m.vi.count(p.first)) m.vi[p.first] = p.second;
    return diffMeta(c, m);
  }
  return diffMeta(fld->metadata(), s.meta);
}
template <class T> static uint64_t digestT(FieldBase::Ptr b) {
  Field<T> *f = dynamic_cast<Field<T> *>(b.get());
  if (!f) return 0;
  uint64_t h = 7; Box3i d = f->dataWindow();
  for (int k = d.min.z; k <= d.max.z; k++) for (int j = d.min.y; j <= d.max.y; j++) for (int i = d.min.x; i <= d.max.x; i++) {
    T v = f->value(i, j, k); uint64_t x[4] = { 0, 0, 0, 0 }; memcpy(x, &v, sizeof v); h = sim::mix(h, x[0]); h = sim::mix(h, x[1] ^ x[2]);
  }
  return h;
}
uint64_t digest(FieldBase::Ptr b) {
  for (int t = 0; t < 6; t++) { uint64_t h = 0; BYTYPE(t, h = digestT<T>(b); break) if (h) return h; }
  return 0;
}

void quietLog() { Msg::setVerbosity(0); }
void init(int ioThreads) { quietLog(); initIO(); setNumIOThreads(ioThreads); }

bool writeFileThrowing(const std::string &path, const std::vector<LayerSpec> &ls, const Meta *global) {
  Field3DOutputFile f;
  if (!f.create(path)) return false;
  bool ok = true;
  for (size_t i = 0; i < ls.size(); i++) ok = write(f, ls[i], build(ls[i])) && ok;
  if (global) { applyMeta(f.metadata(), *global); ok = f.writeGlobalMetadata() && ok; }
  ok = f.close() && ok;
  return ok;
}
bool writeFile(const std::string &path, const std::vector<LayerSpec> &ls, const Meta *global, int ioThreads) {
  setNumIOThreads(ioThreads);
  return writeFileThrowing(path, ls, global);
}
void readAndCheck(const std::string &path, const std::vector<LayerSpec> &ls, const Meta *global, const char *what) {
  Field3DInputFile f;
  if (!f.open(path)) sim::violation("file-rejected", "%s: open failed", what);
  for (size_t i = 0; i < ls.size(); i++) {
    std::vector<FieldBase::Ptr> v = read(f, ls[i].type, ls[i].part, ls[i].attr);
    if (v.size() != 1) sim::violation("layer-missing", "%s: layer %zu (%s): %zu fields read, expected 1", what, i, ls[i].str().c_str(), v.size());
    std::string d = diff(v[0], ls[i]);
    if (!d.empty()) sim::violation("wrong-data", "%s: layer %zu (%s): %s", what, i, ls[i].str().c_str(), d.c_str());
  }
  if (global) { std::string d = diffMeta(f.metadata(), *global); if (!d.empty()) sim::violation("wrong-data", "%s: file metadata: %s", what, d.c_str()); }
  f.close();
}

#define INST(T) template SparseField<T>::Ptr buildSparse<T>(const LayerSpec &); template DenseField<T>::Ptr buildDense<T>(const LayerSpec &);
INST(half) INST(float) INST(double) INST(V3h) INST(V3f) INST(V3d)
} // namespace wl
namespace wl { void useHdf5(bool on) { F::Field3DOutputFile::useOgawa(!on); } }
