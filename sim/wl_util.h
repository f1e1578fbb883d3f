// Shared by the workloads: a small reference model of fields and files.
//
// A LayerSpec is plain data; every voxel, block state, mapping sample and
// metadata entry it stands for is a pure function of it.  Fields are built
// from specs through the public API, and whatever comes back from the library
// is compared with the spec, never with another field.
#ifndef WL_UTIL_H
#define WL_UTIL_H

#include "core.h"
#include <stdexcept>
#include <map>
#include <set>
#include <Field3D/DenseField.h>
#include <Field3D/SparseField.h>
#include <Field3D/MACField.h>
#include <Field3D/MIPField.h>
#include <Field3D/MIPUtil.h>
#include <Field3D/FieldInterp.h>
#include <Field3D/FieldCache.h>
#include <Field3D/Field3DFile.h>
#include <Field3D/FieldMapping.h>
#include <Field3D/InitIO.h>
#include <Field3D/SparseFile.h>
#include <Field3D/ClassFactory.h>
#include <Field3D/Log.h>

namespace wl {

namespace F = Field3D;
using sim::Rng;

enum Kind { DENSE, SPARSE, MAC, MIPDENSE, MIPSPARSE };
enum Type { HALF, FLOAT, DOUBLE, VHALF, VFLOAT, VDOUBLE };
inline bool is_vec(int t) { return t >= VHALF; }

struct Meta {
  std::map<std::string, std::string> s; std::map<std::string, int> i; std::map<std::string, float> f;
  std::map<std::string, F::V3i> vi; std::map<std::string, F::V3f> vf;
  bool operator==(const Meta &o) const { return s == o.s && i == o.i && f == o.f && vi == o.vi && vf == o.vf; }
};
struct MapSpec {
  int kind;                                   // 0 null 1 matrix 2 frustum (perspective, uniform) 3 frustum default z
  std::vector<std::pair<float, F::M44d> > l2w; // matrix time samples (or camera transforms)
  MapSpec() : kind(0) {}
};
struct LayerSpec {
  int kind, type;
  F::Box3i ext, dw;
  int bo;            // block order
  uint64_t seed;
  double fill;       // fraction of allocated sparse blocks
  std::string part, attr;
  MapSpec map;
  Meta meta;
  int mipLevels;     // MIP kinds: stored levels
  LayerSpec() : kind(SPARSE), type(FLOAT), bo(2), seed(1), fill(0.7), part("part"), attr("attr"), mipLevels(2) {}
  F::V3i dres() const { return dw.size() + F::V3i(1); }
  F::V3i blockRes() const { int b = 1 << bo; F::V3i r = dres(); return F::V3i((r.x + b - 1) / b, (r.y + b - 1) / b, (r.z + b - 1) / b); }
  int numBlocks() const { F::V3i b = blockRes(); return b.x * b.y * b.z; }
  bool blockAlloc(int b) const;
  int numAlloc() const { int n = 0; for (int b = 0; b < numBlocks(); b++) n += blockAlloc(b); return n; }
  std::string str() const;
};

// scalar number behind voxel (component c): an integer exactly representable
// in every data type
inline int num(uint64_t seed, int i, int j, int k, int c) {
  uint64_t h = seed ^ ((uint64_t)(i + 512) | (uint64_t)(j + 512) << 12 | (uint64_t)(k + 512) << 24 | (uint64_t)c << 40);
  return (int)(sim::mix(h, 17) % 4001) - 2000;
}
template <class T> struct Mk {
  static T at(uint64_t s, int i, int j, int k) { return T((float)num(s, i, j, k, 0)); }
};
template <class S> struct Mk<FIELD3D_VEC3_T<S> > {
  static FIELD3D_VEC3_T<S> at(uint64_t s, int i, int j, int k) { return FIELD3D_VEC3_T<S>(S((float)num(s, i, j, k, 0)), S((float)num(s, i, j, k, 1)), S((float)num(s, i, j, k, 2))); }
};
template <class T> struct TypeOf;
template <> struct TypeOf<F::half> { enum { v = HALF }; };
template <> struct TypeOf<float> { enum { v = FLOAT }; };
template <> struct TypeOf<double> { enum { v = DOUBLE }; };
template <> struct TypeOf<F::V3h> { enum { v = VHALF }; };
template <> struct TypeOf<F::V3f> { enum { v = VFLOAT }; };
template <> struct TypeOf<F::V3d> { enum { v = VDOUBLE }; };

template <class T> bool same(const T &a, const T &b) { return a == b; }
template <class T> std::string show(const T &v) { char b[64]; snprintf(b, sizeof b, "%g", (double)v); return b; }
template <class S> std::string show(const FIELD3D_VEC3_T<S> &v) { char b[96]; snprintf(b, sizeof b, "(%g,%g,%g)", (double)v.x, (double)v.y, (double)v.z); return b; }

// value of sparse block b when it is empty
template <class T> T emptyVal(const LayerSpec &s, int b) { return Mk<T>::at(s.seed ^ 0xE, b, 500, 7); }
// expected value of a voxel of a dense or sparse layer
template <class T> T expected(const LayerSpec &s, int i, int j, int k) {
  if (s.kind == SPARSE || s.kind == MIPSPARSE) {
    int x = (i - s.dw.min.x) >> s.bo, y = (j - s.dw.min.y) >> s.bo, z = (k - s.dw.min.z) >> s.bo;
    F::V3i br = s.blockRes();
    int b = x + br.x * (y + br.y * z);
    if (!s.blockAlloc(b)) return emptyVal<T>(s, b);
  }
  return Mk<T>::at(s.seed, i, j, k);
}

// random layers -----------------------------------------------------------
struct GenOpt {
  bool sparse_only, dense_ok, mac_ok, mip_ok, vec_ok, windows, mappings, meta;
  int max_blocks, min_bo, max_bo; int fixed_type;
  GenOpt() : sparse_only(false), dense_ok(true), mac_ok(false), mip_ok(false), vec_ok(true), windows(true), mappings(true), meta(true), max_blocks(18), min_bo(1), max_bo(3), fixed_type(-1) {}
};
LayerSpec genLayer(Rng &r, const GenOpt &o, int idx);
Meta genMeta(Rng &r, int n);
MapSpec genMap(Rng &r);

// library objects from specs, and back -------------------------------------
F::FieldMapping::Ptr makeMapping(const MapSpec &m);
F::FieldBase::Ptr build(const LayerSpec &s);
template <class T> typename F::SparseField<T>::Ptr buildSparse(const LayerSpec &s);
template <class T> typename F::DenseField<T>::Ptr buildDense(const LayerSpec &s);
void applyMeta(F::FieldMetadata &m, const Meta &x);
bool write(F::Field3DOutputFile &f, const LayerSpec &s, F::FieldBase::Ptr fld);
// all layers of this type with this partition and attribute
std::vector<F::FieldBase::Ptr> read(F::Field3DInputFile &f, int type, const std::string &part, const std::string &attr);
std::vector<F::FieldBase::Ptr> readByAttr(F::Field3DInputFile &f, int type, const std::string &attr);

// "" if the field is exactly what the spec says, otherwise what differs
std::string diff(F::FieldBase::Ptr fld, const LayerSpec &s, bool blocks = true);
// one level of a MIP field of this spec
std::string diffLevel(F::FieldBase::Ptr level, const LayerSpec &s, int l);
LayerSpec mipLevelSpec(const LayerSpec &s, int level);
std::string diffMeta(const F::FieldMetadata &m, const Meta &x);
std::string diffMapping(F::FieldMapping::Ptr m, const MapSpec &s, const F::Box3i &ext);
// voxels only, for dynamically loaded or partly checked fields
uint64_t digest(F::FieldBase::Ptr fld);

void init(int ioThreads = 1);
void quietLog();
// file format of what is written next
void useHdf5(bool on);
size_t valueSize(int type);
const char *typeName(int t);
const char *kindName(int k);

// whole file in one go; returns whether every call reported success
bool writeFile(const std::string &path, const std::vector<LayerSpec> &ls, const Meta *global = 0, int ioThreads = 1);
// same; throws whatever the library throws
bool writeFileThrowing(const std::string &path, const std::vector<LayerSpec> &ls, const Meta *global = 0);
// opens and reads everything; violation if anything differs from ls
void readAndCheck(const std::string &path, const std::vector<LayerSpec> &ls, const Meta *global, const char *what);

} // namespace wl
#endif
