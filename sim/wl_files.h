// Random files as plain data, written and read back: shared by the workloads
// about files.
#ifndef WL_FILES_H
#define WL_FILES_H
#include "wl_util.h"
using namespace wl;
using namespace sim;

namespace {

struct FileSpec {
  std::vector<LayerSpec> layers;
  Meta global; bool hasGlobal, h5;
  FileSpec() : hasGlobal(false), h5(false) {}
};
struct FileOpt { double h5p = 0.3; int maxLayers; bool h5_ok, meta, dups; GenOpt g; FileOpt() : maxLayers(4), h5_ok(true), meta(true), dups(true) { g.mac_ok = g.mip_ok = true; g.max_blocks = 8; g.max_bo = 2; } };

FileSpec genFile(Rng &r, const FileOpt &o, int opBase = 0) {
  FileSpec f;
  f.h5 = o.h5_ok && r.chance(o.h5p);
  int n = r.range(1, o.maxLayers);
  MapSpec pool[2] = { genMap(r), genMap(r) };
  std::vector<LayerSpec> v;
  for (int i = 0; i < n; i++) {
    LayerSpec s = genLayer(r, o.g, i);
    if (o.g.mappings && r.chance(0.7)) s.map = pool[r.below(2)];
    if (!v.empty() && r.chance(0.3)) s.part = v[r.below(v.size())].part;
    if (o.dups && !v.empty() && r.chance(0.2)) { const LayerSpec &q = v[r.below(v.size())]; s.part = q.part; s.attr = q.attr; if (r.chance(0.5)) s.map = q.map; }
    else if (!v.empty() && r.chance(0.2)) s.attr = v[r.below(v.size())].attr;
    if (r.chance(0.1)) s.part = "";
    if (r.chance(0.05)) s.part = "a.b";
    if (r.chance(0.15)) { static const char *odd[] = { "a", "a.0", "a.b.0", "part10", "part1.0", "Part1", "p q", "" }; const char *n = odd[r.below(8)]; s.part = *n ? std::string(n) : std::string(r.range(60, 300), 'n'); }
    if (r.chance(0.1)) { static const char *odd[] = { "attr", "attr.0", "ATTR0", "a:b", "0", "a b", "attr10", "" }; const char *n = odd[r.below(8)]; s.attr = *n ? std::string(n) : std::string(r.range(60, 300), 'm'); }
    if (s.part == "") s.part = "default";
    if (s.kind == MAC && !f.h5) s.kind = DENSE;   // not stored by Ogawa files: see mac_store
    // HDF5 refuses (and says so) a second layer of the same name in a partition
    if (f.h5) for (size_t q = 0; q < v.size(); q++) if (v[q].part == s.part && v[q].attr == s.attr && v[q].map.kind == s.map.kind && (s.map.kind == 0 || v[q].map.l2w == s.map.l2w)) { s.attr = "other" + std::to_string(i); break; }
    v.push_back(s);
  }
  if (o.meta && r.chance(0.6)) { f.hasGlobal = true; f.global = genMeta(r, r.range(0, 4)); }
  for (int i = 0; i < n; i++) if (op_enabled(opBase + i)) f.layers.push_back(v[i]);
  describe("%s file:", f.h5 ? "HDF5" : "Ogawa");
  for (size_t i = 0; i < f.layers.size(); i++) describe(" [%s]", f.layers[i].str().c_str());
  if (f.hasGlobal) describe(" file metadata %zu ", f.global.s.size() + f.global.i.size() + f.global.f.size() + f.global.vi.size() + f.global.vf.size());
  return f;
}
// the format of new files is a process-wide setting: `own` says that nobody else creates files meanwhile
bool writeSpec(F::Field3DOutputFile &out, const std::string &path, const FileSpec &f, bool own = true, bool close = true) {
  if (own) useHdf5(f.h5);
  bool ok = out.create(path);
  if (own) useHdf5(false);
  if (!ok) return false;
  for (size_t i = 0; i < f.layers.size(); i++) ok = write(out, f.layers[i], build(f.layers[i])) && ok;
  if (f.hasGlobal) { applyMeta(out.metadata(), f.global); ok = out.writeGlobalMetadata() && ok; }
  if (close) ok = out.close() && ok;
  return ok;
}
std::set<std::string> toSet(const std::vector<std::string> &v) { return std::set<std::string>(v.begin(), v.end()); }
std::string join(const std::set<std::string> &v) { std::string s; for (auto &x : v) s += (s.empty() ? "" : ",") + x; return s; }

// does this field equal one of the layers (not yet matched)?
bool matchOne(F::FieldBase::Ptr fld, const std::vector<LayerSpec> &cand, std::vector<bool> &used, std::string &why) {
  for (size_t i = 0; i < cand.size(); i++) if (!used[i]) {
    std::string d = diff(fld, cand[i]);
    if (d.empty()) { used[i] = true; return true; }
    why += (why.empty() ? "" : " / ") + d;
  }
  return false;
}
// exactly these layers (as a multiset) must come back
void expectLayers(const std::vector<F::FieldBase::Ptr> &got, const std::vector<LayerSpec> &want, const char *what) {
  if (got.size() != want.size()) violation(got.size() < want.size() ? "layer-missing" : "layer-invented", "%s: %zu fields returned, %zu stored", what, got.size(), want.size());
  std::vector<bool> used(want.size(), false);
  for (size_t i = 0; i < got.size(); i++) { std::string why; if (!matchOne(got[i], want, used, why)) violation("wrong-data", "%s: field %zu: %s", what, i, why.c_str()); }
}
template <class V> std::vector<LayerSpec> sel(const FileSpec &f, V pred) { std::vector<LayerSpec> v; for (size_t i = 0; i < f.layers.size(); i++) if (pred(f.layers[i])) v.push_back(f.layers[i]); return v; }

template <class T> struct Proxy {
  static void check(F::Field3DInputFile &in, const FileSpec &f, const LayerSpec &s) {
    typename F::EmptyField<T>::Vec v = in.readProxyLayer<T>(s.part, s.attr, is_vec(s.type));
    std::vector<LayerSpec> want = sel(f, [&](const LayerSpec &x) { return x.part == s.part && x.attr == s.attr && is_vec(x.type) == is_vec(s.type); });
    size_t all = f.h5 ? want.size() : sel(f, [&](const LayerSpec &x) { return x.part == s.part && x.attr == s.attr; }).size();
    if (v.size() != all) violation("layer-missing", "proxy layers of %s:%s: %zu returned, %zu stored", s.part.c_str(), s.attr.c_str(), v.size(), all);
    for (size_t i = 0; i < want.size(); i++) {
      bool ok = false;
      for (size_t j = 0; j < v.size() && !ok; j++) {
        Meta m = want[i].meta;
        F::FieldMetadata &fm = v[j]->metadata();
        // the proxy adds an entry of its own
        m.i["mip_levels"] = want[i].kind >= MIPDENSE ? want[i].mipLevels : 0;
        if (want[i].kind >= MIPDENSE) for (auto &p : fm.vecIntMetadata()) if (p.first == "mipoffset") m.vi[p.first] = p.second;
        ok = v[j]->extents().min == want[i].ext.min && v[j]->extents().max == want[i].ext.max && v[j]->dataWindow().min == want[i].dw.min && v[j]->dataWindow().max == want[i].dw.max
          && v[j]->name == want[i].part && v[j]->attribute == want[i].attr && diffMeta(fm, m).empty() && diffMapping(v[j]->mapping(), want[i].map, want[i].ext).empty();
      }
      if (!ok) violation("wrong-data", "no proxy of %s:%s has the stored extents, names, metadata and mapping", s.part.c_str(), s.attr.c_str());
    }
  }
};

// all proxies of a name, or of any
void proxiesByName(F::Field3DInputFile &in, const FileSpec &f, const std::string &a) {
  F::EmptyField<float>::Vec sc = in.readProxyScalarLayers<float>(a), ve = in.readProxyVectorLayers<float>(a);
  size_t ws = 0, wv = 0;
  std::set<std::pair<std::string, std::string> > seen;
  for (auto &x : f.layers) if (a.empty() || x.attr == a) {
    // (Ogawa files list all layers in both)
    if (f.h5) is_vec(x.type) ? wv++ : ws++;
    else ws++, wv++;
  }
  // (a name that is in a partition more than once is looked up by name each time)
  for (auto &x : f.layers) if ((a.empty() || x.attr == a)) {
    bool s = false, v = false;
    for (auto &p : sc) if (p->name == x.part && p->attribute == x.attr && p->extents().min == x.ext.min && p->extents().max == x.ext.max) s = true;
    for (auto &p : ve) if (p->name == x.part && p->attribute == x.attr && p->extents().min == x.ext.min && p->extents().max == x.ext.max) v = true;
    if (is_vec(x.type) ? !v : !s) violation("layer-missing", "no proxy of %s:%s among the %s proxies of '%s'", x.part.c_str(), x.attr.c_str(), is_vec(x.type) ? "vector" : "scalar", a.c_str());
    if (f.h5 && sel(f, [&](const LayerSpec &y) { return y.part == x.part && y.attr == x.attr && is_vec(y.type) != is_vec(x.type); }).empty() && (is_vec(x.type) ? s : v)) violation("layer-invented", "%s:%s is among the proxies of the other kind", x.part.c_str(), x.attr.c_str());
  }
  if (ws != sc.size() || wv != ve.size()) {
    bool dup = false;
    for (auto &x : f.layers) if (!seen.insert(std::make_pair(x.part, x.attr)).second) dup = true;
    if (!dup) violation(sc.size() < ws || ve.size() < wv ? "layer-missing" : "layer-invented", "%zu scalar and %zu vector proxies of '%s' returned, expected %zu and %zu", sc.size(), ve.size(), a.c_str(), ws, wv);
  }
}

// one random read operation on an open file
void readOp(Rng q, F::Field3DInputFile &in, const FileSpec &f) {
  if (f.layers.empty()) return;
  const LayerSpec &s = f.layers[q.below(f.layers.size())];
  switch (q.below(11)) {
    case 9:
      proxiesByName(in, f, q.chance(0.5) ? s.attr : ""); break;
    case 10:
      if (in.encoding() != (f.h5 ? "HDF5" : "Ogawa")) violation("wrong-listing", "encoding() gives %s", in.encoding().c_str()); break;
    case 0: case 1: case 2:
      expectLayers(read(in, s.type, s.part, s.attr), sel(f, [&](const LayerSpec &x) { return x.type == s.type && x.part == s.part && x.attr == s.attr; }), "read by partition and layer"); break;
    case 3:
      expectLayers(readByAttr(in, s.type, s.attr), sel(f, [&](const LayerSpec &x) { return x.type == s.type && x.attr == s.attr; }), "read by layer name"); break;
    case 4: {
      int t = q.range(0, 5);
      expectLayers(readByAttr(in, t, ""), sel(f, [&](const LayerSpec &x) { return x.type == t; }), "read of all layers of a type"); break; }
    case 5: {
      expectLayers(read(in, s.type, s.part, "no such layer"), std::vector<LayerSpec>(), "read of a layer that is not there");
      expectLayers(read(in, s.type, "no such partition", s.attr), std::vector<LayerSpec>(), "read of a partition that is not there"); break; }
    case 6: {
      std::vector<std::string> n; in.getPartitionNames(n);
      std::set<std::string> want; for (auto &x : f.layers) want.insert(x.part);
      if (toSet(n) != want || n.size() != want.size()) violation("wrong-listing", "partitions listed: %s (%zu), stored: %s", join(toSet(n)).c_str(), n.size(), join(want).c_str());
      for (auto &p : want) {
        std::set<std::string> sc, ve, all;
        for (auto &x : f.layers) if (x.part == p) { (is_vec(x.type) ? ve : sc).insert(x.attr); all.insert(x.attr); }
        std::vector<std::string> a, b; in.getScalarLayerNames(a, p); in.getVectorLayerNames(b, p);
        std::set<std::string> A = toSet(a), B = toSet(b);
        // (Ogawa files list all layers in both)
        bool ok = a.size() == A.size() && b.size() == B.size();
        for (auto &x : sc) ok = ok && A.count(x); for (auto &x : ve) ok = ok && B.count(x);
        for (auto &x : A) ok = ok && all.count(x); for (auto &x : B) ok = ok && all.count(x);
        if (!ok) violation("wrong-listing", "layers of partition %s listed: scalar %s vector %s, stored: scalar %s vector %s", p.c_str(), join(A).c_str(), join(B).c_str(), join(sc).c_str(), join(ve).c_str());
      }
      break; }
    case 7: {
      Meta none;
      std::string d = diffMeta(in.metadata(), f.hasGlobal ? f.global : none);
      if (!d.empty()) violation("wrong-data", "file metadata: %s", d.c_str());
      break; }
    case 8:
      if (is_vec(s.type)) Proxy<float>::check(in, f, s); else Proxy<float>::check(in, f, s);
      break;
  }
}
void legalFaults(Rng &r) {
  FaultPolicy &p = faults();
  if (r.chance(0.6)) p.p[F_READ_SHORT] = r.chance(0.5) ? 0.2 : 0.05;
  if (r.chance(0.6)) p.p[F_WRITE_SHORT] = r.chance(0.5) ? 0.2 : 0.05;
  if (r.chance(0.5)) p.p[F_EINTR] = 0.15;
  if (r.chance(0.3)) p.p[F_DELAY] = 0.1;
}
} // namespace

#endif
