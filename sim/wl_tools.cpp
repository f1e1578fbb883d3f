// T01: the command-line tools that write files, run whole inside the simulator.
#include "wl_files.h"
#include <Field3D/MIPUtil.h>
#include <Field3D/MinMaxUtil.h>
#include <iostream>
#include <setjmp.h>

extern "C" int f3dmerge_main(int, char **);
extern "C" int f3dmakemip_main(int, char **);
namespace { jmp_buf g_exit; int g_status; }
// the process ends here: nothing is unwound
extern "C" void sim_tool_exit(int status) { g_status = status; longjmp(g_exit, 1); }

namespace {
struct NoBuf : std::streambuf { int overflow(int c) { return c == EOF ? 0 : c; } std::streamsize xsputn(const char *, std::streamsize n) { return n; } };
// exit status; an exception that leaves main() ends the process, too
int runTool(int (*tool)(int, char **), const std::vector<std::string> &args) {
  static std::vector<std::string> a; a = args;
  static std::vector<char *> v; v.clear();
  for (size_t i = 0; i < a.size(); i++) v.push_back(&a[i][0]);
  v.push_back(0);
  static NoBuf nb; std::streambuf *o = std::cout.rdbuf(&nb), *e = std::cerr.rdbuf(&nb);
  if (setjmp(g_exit) == 0) {
    try { g_status = tool((int)a.size(), &v[0]) & 255; }
    catch (std::exception &x) { note("exception: %s", x.what()); g_status = 134; }
  }
  std::cout.rdbuf(o); std::cerr.rdbuf(e);
  note("exit status %d", g_status);
  return g_status;
}
std::string num(double d) { char b[32]; snprintf(b, sizeof b, "%g", d); return b; }

// what f3dmakemip is to write for a layer: MIP fields by attribute; "": it cannot make all of them
typedef std::map<std::string, F::FieldBase::Ptr> Made;
template <class M> Made makeRef(const LayerSpec &s, int minRes, bool minMax, float mult) {
  typedef typename M::NestedType G;
  Made out;
  typename G::Ptr base = F::field_dynamic_cast<G>(build(s));
  try {
    typename M::Ptr m = F::makeMIP<M, F::TriangleFilter>(*base, minRes, F::computeOffset(*base), 1);
    if (!m) { out[""] = 0; return out; }
    out[s.attr] = m;
    if (minMax) {
      std::pair<typename M::Ptr, typename M::Ptr> p = F::makeMinMax<M>(*base, mult, 1);
      if (!p.first || !p.second) { out[""] = 0; return out; }
      p.first->attribute += F::k_minSuffix; p.second->attribute += F::k_maxSuffix;
      out[s.attr + "_min"] = p.first; out[s.attr + "_max"] = p.second;
    }
  } catch (F::Exc::Exception &) { out[""] = 0; }
  return out;
}
template <class T> Made makeRefOf(const LayerSpec &s, int minRes, bool minMax, float mult) {
  return s.kind == DENSE ? makeRef<F::MIPField<F::DenseField<T> > >(s, minRes, minMax, mult) : makeRef<F::MIPField<F::SparseField<T> > >(s, minRes, minMax, mult);
}
template <class M> void checkMip(F::FieldBase::Ptr got, F::FieldBase::Ptr made, const LayerSpec &s, bool base) {
  typedef typename M::NestedType G; typedef typename G::value_type T;
  typename M::Ptr m = F::field_dynamic_cast<M>(got), ref = F::field_dynamic_cast<M>(made);
  const char *at = made->attribute.c_str(), *part = s.part.c_str();
  if (!m) violation("wrong-data", "%s:%s is not the MIP field of its kind", part, at);
  if (m->name != s.part || m->attribute != at) violation("wrong-data", "the MIP field is called '%s' '%s'", m->name.c_str(), m->attribute.c_str());
  if (m->numLevels() != ref->numLevels()) violation("wrong-levels", "%s:%s has %d levels in the file, %d were made", part, at, (int)m->numLevels(), (int)ref->numLevels());
  if (m->mipOffset() != ref->mipOffset()) violation("wrong-data", "%s:%s has another MIP offset", part, at);
  for (size_t l = 0; l < m->numLevels(); l++) {
    typename G::Ptr a = m->concreteMipLevel(l), b = ref->concreteMipLevel(l);
    F::Box3i w = b->dataWindow();
    if (a->dataWindow().min != w.min || a->dataWindow().max != w.max) violation("wrong-data", "%s:%s level %d has another size", part, at, (int)l);
    for (int k = w.min.z; k <= w.max.z; k++) for (int j = w.min.y; j <= w.max.y; j++) for (int i = w.min.x; i <= w.max.x; i++) {
      T x = a->fastValue(i, j, k), y = b->fastValue(i, j, k);
      if (memcmp(&x, &y, sizeof x) || (base && l == 0 && !(x == expected<T>(s, i, j, k)))) violation("wrong-data", "%s:%s level %d voxel (%d,%d,%d) is %s in the file, %s was made", part, at, (int)l, i, j, k, show(x).c_str(), show(y).c_str());
    }
  }
}
template <class T> void checkMipOf(F::FieldBase::Ptr got, F::FieldBase::Ptr made, const LayerSpec &s, bool base) {
  if (s.kind == DENSE) checkMip<F::MIPField<F::DenseField<T> > >(got, made, s, base); else checkMip<F::MIPField<F::SparseField<T> > >(got, made, s, base);
}
#define BY_TYPE(fn, t, ...) (t == HALF ? fn<F::half>(__VA_ARGS__) : t == FLOAT ? fn<float>(__VA_ARGS__) : t == DOUBLE ? fn<double>(__VA_ARGS__) : t == VHALF ? fn<F::V3h>(__VA_ARGS__) : t == VFLOAT ? fn<F::V3f>(__VA_ARGS__) : fn<F::V3d>(__VA_ARGS__))

bool plain(const std::string &s) { for (char c : s) if (!isalnum((unsigned char)c)) return false; return !s.empty(); }

// one run of either tool; `mip`: f3dmakemip
void tool(bool mip) {
  Rng &r = wl_rng();
  init(1);
  set_step_limit(400000000);
  int n = r.range(1, 3);
  bool h5 = r.chance(0.3); int nt = r.range(1, 4), minRes = r.range(1, 5);
  std::vector<std::string> args; args.push_back(mip ? "f3dmakemip" : "f3dmerge");
  std::vector<LayerSpec> all; std::set<std::string> seen;
  bool refuse = false;      // something cannot be stored or made
  for (int i = 0; i < n; i++) {
    FileOpt o; o.maxLayers = mip ? 2 : 3; o.meta = false; o.dups = false; o.g.max_blocks = 6; if (mip) { o.g.mac_ok = false; o.g.mip_ok = false; o.g.windows = false; }
    FileSpec f = genFile(r, o, i * 10);
    for (size_t k = 0; k < f.layers.size(); k++) {
      LayerSpec &s = f.layers[k];
      // makeMIP() takes fields whose data window starts at zero and fills the extents
      if (mip) { s.map = MapSpec(); s.dw.max = s.dw.max - s.dw.min; s.dw.min = F::V3i(0); s.ext = s.dw; if (r.chance(0.03)) s.ext.max = s.ext.max + F::V3i(1); }
      // HDF5 and readers by name: one layer of a name in a partition
      while (!seen.insert(s.part + "\n" + s.attr).second) s.attr += "x";
      if (s.kind == MAC && !h5) refuse = true;
    }
    char p[64]; snprintf(p, sizeof p, "/sim/tool%d.f3d", i);
    F::Field3DOutputFile out; if (!writeSpec(out, p, f)) violation("write-failed", "writing an input reported failure");
    args.push_back(std::string("--input-file=") + p);
    all.insert(all.end(), f.layers.begin(), f.layers.end());
  }
  const std::string path = "/sim/tool_out.f3d";
  args.push_back("--output-file=" + path);
  args.push_back("--num-threads=" + num(nt));
  if (h5 || r.chance(0.3)) args.push_back(std::string("--ogawa=") + (h5 ? "0" : "1"));
  bool minMax = mip && r.chance(0.3); float mult = 0.5f;
  if (mip) args.push_back("--min-res=" + num(minRes));
  if (minMax) { args.push_back("--min-max=1"); if (r.chance(0.5)) { mult = r.chance(0.5) ? 1.0f : 0.25f; args.push_back("--min-max-res=" + num(mult)); } }
  FileSpec want; want.h5 = h5; want.layers = all;
  if (!all.empty() && r.chance(0.2)) {
    const LayerSpec &s = all[r.below(all.size())];
    std::string v = s.part; bool byName = r.chance(0.5) && plain(v);
    if (!byName) v = s.attr;
    if (plain(v)) {
      args.push_back(std::string(byName ? "--name=" : "--attribute=") + v);
      want.layers = sel(want, [&](const LayerSpec &x) { return (byName ? x.part : x.attr) == v; });
    }
  }
  refuse = false;
  for (auto &s : want.layers) if (s.kind == MAC && !h5) refuse = true;
  std::vector<Made> made;
  size_t per = minMax ? 3 : 1;           // layers written for each
  if (mip) for (auto &s : want.layers) {
    made.push_back(BY_TYPE(makeRefOf, s.type, s, minRes, minMax, mult));
    if (made.back().empty() || made.back().count("")) refuse = true;
  } else per = 1;
  bool missing = r.chance(0.05);
  if (missing) { args.push_back("--input-file=/sim/nothing.f3d"); refuse = true; }
  describe(" -> %s%s, %d threads", h5 ? "HDF5" : "Ogawa", missing ? ", one input missing" : "", nt);
  set_nontrivial(!want.layers.empty());
  // faults
  int how = r.range(0, 3);   // 0: none  1: write faults  2: killed  3: legal behaviour only
  FaultPolicy &p = faults();
  if (how == 1) {
    if (h5) { p.p[F_H5_WRITE] = r.chance(0.5) ? 0.003 : 0.02; if (r.chance(0.2)) p.p[F_OPEN_FAIL] = 0.2; }
    else switch (r.below(4)) {
      case 0: { size_t t = 0; for (auto &s : want.layers) t += 1200 + 150 * s.numBlocks(); p.disk_capacity = 1 + r.below(t + 200); describe(", disk of %llu bytes", (unsigned long long)p.disk_capacity); break; }
      case 1: p.p[F_WRITE_EIO] = r.chance(0.5) ? 0.002 : 0.02; describe(", write errors"); break;
      case 2: p.p[F_ENOSPC] = 0.005; describe(", disk full"); break;
      default: p.p[F_OPEN_FAIL] = 0.3; p.p[F_CLOSE_EIO] = 0.5; describe(", open and close errors"); break;
    }
    p.max_hard = r.chance(0.6) ? 1 : 3;
    if (p.disk_capacity) { uint64_t used = 0; for (int i = 0; i < n; i++) { char q[64]; snprintf(q, sizeof q, "/sim/tool%d.f3d", i); used += vfs::get(q).size(); } p.disk_capacity += used; }
    open_fault_window();
  }
  if (how == 3) legalFaults(r);
  if (how == 2 && !h5) { vfs::start_log(path); describe(", killed at some point"); }
  int rc = runTool(mip ? f3dmakemip_main : f3dmerge_main, args);
  if (how == 1) close_fault_window();
  if (how == 2 && !h5) vfs::stop_log();
  vfs::free_disk();
  F::setNumIOThreads(1); useHdf5(false);
  uint64_t fired = hard_faults_fired();
  if (rc) probe("the tool reported failure");
  if (rc && !fired && !refuse) violation("tool-failed", "exit status %d although nothing went wrong", rc);
  if (!rc && missing) violation("unreported", "exit status 0 although an input could not be opened");
  if (!rc && fault_count(F_WRITE_EIO) + fault_count(F_ENOSPC) + fault_count(F_CLOSE_EIO) + fault_count(F_H5_WRITE) > 0) violation("unreported", "a write or close failed, but the exit status is 0");
  bool strict = how == 2 && !rc;      // all or nothing
  auto check = [&](const std::string &q, const char *what, bool mayReject) {
    F::Field3DInputFile in; bool ok = false;
    try { ok = in.open(q); } catch (std::exception &) { }
    if (!ok) { if (!mayReject) violation("file-rejected", "%s: open failed", what); return; }
    std::vector<std::string> parts; in.getPartitionNames(parts);
    size_t got = 0;
    for (int t = 0; t < 6; t++) {
      std::vector<F::FieldBase::Ptr> v; 
      try { v = readByAttr(in, t, ""); } catch (std::exception &) { if (!mayReject) throw; }
      got += v.size();
      if (mayReject && v.empty()) continue;
      if (!mip) {
        std::vector<LayerSpec> w = sel(want, [&](const LayerSpec &x) { return x.type == t; });
        if (!mayReject || strict) { expectLayers(v, w, what); continue; }
        std::vector<bool> used(w.size(), false);
        for (auto &x : v) { std::string why; bool ok = false; try { ok = matchOne(x, w, used, why); } catch (std::exception &) { ok = true; } if (!ok) violation("wrong-data", "%s: %s", what, why.c_str()); }
      } else {
        size_t w = 0; for (auto &x : want.layers) w += x.type == t ? per : 0;
        if (v.size() > w) violation("layer-invented", "%s: %zu %s layers, %zu expected", what, v.size(), typeName(t), w);
        if (v.size() < w && (!mayReject || strict)) violation("layer-missing", "%s: %zu %s layers, %zu expected", what, v.size(), typeName(t), w);
        std::set<std::string> had;
        for (auto &x : v) {
          bool found = false;
          for (size_t i = 0; i < want.layers.size() && !found; i++) if (want.layers[i].type == t && want.layers[i].part == x->name && made[i].count(x->attribute)) {
            found = had.insert(x->name + "\n" + x->attribute).second;
            try { BY_TYPE(checkMipOf, t, x, made[i][x->attribute], want.layers[i], x->attribute == want.layers[i].attr); } catch (std::exception &) { if (!mayReject || strict) throw; }
          }
          if (!found) violation("layer-invented", "%s: %s:%s", what, x->name.c_str(), x->attribute.c_str());
        }
      }
    }
    if (strict && got && got != per * want.layers.size()) violation("partial", "%s: %zu layers of %zu", what, got, per * want.layers.size());
    if (strict && got == 0 && parts.size()) violation("partial", "%s: partitions without layers", what);
  };
  check(path, rc ? "the file left behind" : "the output", rc != 0);
  if (how == 2 && !h5 && !rc) {
    size_t m = vfs::log_size();
    for (int k = 0; k < 10; k++) {
      size_t e = r.chance(0.5) ? m - std::min<size_t>(m, r.below(8)) : r.below(m + 1);
      if (!op_enabled(100 + k)) continue;
      char q[64], what[64]; snprintf(q, sizeof q, "/sim/killed%d.f3d", k); snprintf(what, sizeof what, "killed after %zu of %zu writes", e, m);
      vfs::put(q, vfs::image(e, 0)); count_fault(F_CRASH);
      check(q, what, true);
    }
  }
}
}
WORKLOAD(T01, merge_tool) { tool(false); }
WORKLOAD_W(T01, mip_tool, 0.6) { tool(true); }
