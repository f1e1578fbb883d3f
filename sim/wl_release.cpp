// R02: nothing stays open once nothing refers to it.
#include "wl_files.h"
#include <hdf5.h>

namespace {
F::SparseFileManager &mgr() { return F::SparseFileManager::singleton(); }
// What the process has open. HDF5 hands out the numbers of property lists, data spaces and types
// in sequence, so those made since an earlier look and still valid can be told.
struct Open {
  int fds; long objs[5]; hid_t list, space, type;
  Open() {
    static const unsigned t[5] = { H5F_OBJ_FILE, H5F_OBJ_GROUP, H5F_OBJ_DATASET, H5F_OBJ_DATATYPE, H5F_OBJ_ATTR };
    fds = vfs::open_fds();
    for (int i = 0; i < 5; i++) objs[i] = (long)H5Fget_obj_count(H5F_OBJ_ALL, t[i]);
    list = H5Pcreate(H5P_DATASET_CREATE); space = H5Screate(H5S_SCALAR); type = H5Tcopy(H5T_NATIVE_INT);
    H5Pclose(list); H5Sclose(space); H5Tclose(type);
  }
  static long valid(hid_t from, hid_t to) { long n = 0; for (hid_t i = from + 1; i < to; i++) if (H5Iis_valid(i) > 0) n++; return n; }
};
const char *h5names[] = { "files", "groups", "data sets", "data types", "attributes" };
// reads everything, whatever comes of it; the fields may be kept
void lookAt(const std::string &path, const FileSpec &f, Rng q, bool looks, std::vector<F::FieldBase::Ptr> &held) {
  F::Field3DInputFile in;
  try { if (!in.open(path)) return; } catch (std::exception &) { return; }
  for (int t = 0; t < 6; t++) {
    try {
      std::vector<F::FieldBase::Ptr> v = readByAttr(in, t, "");
      for (auto &x : v) {
        // lazily loaded data
        if (looks) for (auto &s : f.layers) if (s.type == t && s.attr == x->attribute) { try { diff(x, s); } catch (std::exception &) { } break; }
        if (q.chance(0.3)) held.push_back(x);
      }
    } catch (std::exception &) { }
  }
  try { std::vector<std::string> n; in.getPartitionNames(n); for (auto &p : n) { std::vector<std::string> l; in.getScalarLayerNames(l, p); for (auto &a : l) in.readProxyLayer<float>(p, a, false); } } catch (std::exception &) { }
  if (q.chance(0.3)) in.close();
}
}

WORKLOAD(R02, release) {
  Rng &r = wl_rng();
  init(r.range(1, 3));
  FileOpt o; o.maxLayers = 3; o.g.max_blocks = 5; o.g.max_bo = 1;
  // first use opens things that stay
  { FileSpec w[2]; w[1].h5 = true; F::Field3DOutputFile a, b; writeSpec(a, "/sim/w0.f3d", w[0]); writeSpec(b, "/sim/w1.f3d", w[1]);
    LayerSpec s; s.kind = DENSE; s.attr = "w"; s.ext = s.dw = F::Box3i(F::V3i(0), F::V3i(1)); s.map.kind = 0; w[1].layers.push_back(s); F::Field3DOutputFile c; writeSpec(c, "/sim/w2.f3d", w[1]);
    F::Field3DInputFile in; if (in.open("/sim/w2.f3d")) readByAttr(in, FLOAT, ""); }
  Open before;
  int n = r.range(1, 5);
  bool dyn = r.chance(0.4), threads = r.chance(0.2);
  if (dyn) { mgr().setLimitMemUse(true); mgr().setMaxMemUse(r.chance(0.5) ? 0.0005f : 1.0f); describe("dynamic loading, "); }
  std::vector<F::FieldBase::Ptr> held;
  FaultPolicy &p = faults();
  p.max_hard = -1;
  for (int st = 0; st < n; st++) {
    Rng q = r.fork();
    if (!op_enabled(200 + st)) continue;
    FileSpec f = genFile(q, o, st * 10);
    char path[64]; snprintf(path, sizeof path, "/sim/r%d.f3d", st);
    bool wf = q.chance(0.35);
    p = FaultPolicy(); p.max_hard = q.chance(0.5) ? 1 : -1;
    if (wf) {
      describe(" (write faults) ");
      if (f.h5) p.p[F_H5_WRITE] = q.chance(0.5) ? 0.003 : 0.02; else { p.p[F_WRITE_EIO] = q.chance(0.5) ? 0.01 : 0.1; p.p[F_CLOSE_EIO] = 0.1; }
      p.p[F_OPEN_FAIL] = 0.05; p.p[F_THREAD] = 0.03;
      open_fault_window();
    }
    { F::Field3DOutputFile out; try { writeSpec(out, path, f); } catch (std::exception &) { } useHdf5(false); }
    close_fault_window();
    p = FaultPolicy(); p.max_hard = q.chance(0.5) ? 1 : -1;
    int rounds = q.range(1, 2);
    for (int k = 0; k < rounds; k++) {
      double u = q.unit();
      if (u < 0.35) {
        describe(" (read faults) ");
        if (f.h5) p.p[F_H5_READ] = q.chance(0.5) ? 0.003 : 0.02; else { p.p[F_READ_EIO] = q.chance(0.5) ? 0.003 : 0.03; p.p[F_READ_EOF] = 0.003; }
        p.p[F_OPEN_FAIL] = 0.05; p.p[F_THREAD] = 0.03;
      } else if (u < 0.5 && vfs::exists(path)) {
        vfs::Bytes b = vfs::get(path);
        if (!b.empty()) { size_t cut = q.below(b.size()); b.resize(cut); describe(" (cut to %zu) ", cut); count_fault(F_TRUNCATE); snprintf(path, sizeof path, "/sim/r%dc%d.f3d", st, k); vfs::put(path, b); }
      } else if (u < 0.55) { describe(" (no file) "); snprintf(path, sizeof path, "/sim/nofile%d", st); }
      Rng z = q.fork(); bool looks = q.chance(0.7);
      open_fault_window();
      if (threads) {
        std::vector<Rng> rs; std::vector<std::vector<F::FieldBase::Ptr> > hs(2); for (int t = 0; t < 2; t++) rs.push_back(q.fork());
        std::vector<Thread> th; for (int t = 0; t < 2; t++) th.push_back(spawn([&, t] { lookAt(path, f, rs[t], looks, hs[t]); }));
        for (auto &t : th) join(t);
      } else lookAt(path, f, z, looks, held);
      close_fault_window();
    }
    if (q.chance(0.3)) held.clear();
  }
  held.clear();
  p = FaultPolicy();
  set_nontrivial(true);
  if (hard_faults_fired()) probe("something failed before the check");
  Open after;
  if (after.fds != before.fds) violation("descriptor-leak", "%d file descriptors are still open after everything is gone", after.fds - before.fds);
  for (int i = 0; i < 5; i++) if (after.objs[i] > before.objs[i]) violation("hdf5-object-leak", "%ld HDF5 %s are still open after everything is gone", after.objs[i] - before.objs[i], h5names[i]);
  long nl = Open::valid(before.list, after.list), ns = Open::valid(before.space, after.space), nt = Open::valid(before.type, after.type);
  if (nl || ns || nt) violation("hdf5-handle-leak", "%ld HDF5 property lists, %ld data spaces and %ld data types are still held after everything is gone", nl, ns, nt);
}
