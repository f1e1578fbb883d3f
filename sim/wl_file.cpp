// D01: files as an exact store, under legal operating-system behaviour.
#include "wl_files.h"

WORKLOAD(D01, store) {
  Rng &r = wl_rng();
  legalFaults(r);
  init(r.range(1, 4));
  int files = r.range(1, 2);
  bool reuse = r.chance(0.4);
  describe(reuse ? "one file object, " : "");
  F::Field3DOutputFile *out = new F::Field3DOutputFile; F::Field3DInputFile *in = new F::Field3DInputFile;
  std::vector<FileSpec> fs;
  for (int i = 0; i < files; i++) {
    FileOpt o;
    fs.push_back(genFile(r, o, i * 10));
    if (reuse) fs.back().hasGlobal = fs.back().hasGlobal && i == 0;   // metadata of an output object stay with it
    if (!reuse && i) { delete out; out = new F::Field3DOutputFile; }
    char path[64]; snprintf(path, sizeof path, "/sim/store%d.f3d", i);
    // closed, or finished by what comes next: another file, or the end of the object
    if (!writeSpec(*out, path, fs[i], true, r.chance(0.8))) violation("write-failed", "writing file %d reported failure", i);
  }
  delete out;
  set_nontrivial(!fs[0].layers.empty());
  int passes = r.range(1, 2);
  std::vector<F::FieldBase::Ptr> held;
  for (int p = 0; p < passes; p++) {
    int i = (int)r.below(files);
    char path[64]; snprintf(path, sizeof path, "/sim/store%d.f3d", i);
    F::setNumIOThreads(r.range(1, 4));
    if (!reuse && p) { delete in; in = new F::Field3DInputFile; }
    if (!in->open(path)) violation("file-rejected", "open failed");
    if (in->encoding() != (fs[i].h5 ? "HDF5" : "Ogawa")) violation("wrong-data", "file %d is %s, encoding() says %s", i, fs[i].h5 ? "HDF5" : "Ogawa", in->encoding().c_str());
    int n = r.range(2, 5);
    for (int k = 0; k < n; k++) {
      Rng q = r.fork();
      if (op_enabled(100 + p * 10 + k)) readOp(q, *in, fs[i]);
      if (r.chance(0.2) && !fs[i].layers.empty()) { const LayerSpec &s = fs[i].layers[r.below(fs[i].layers.size())]; std::vector<F::FieldBase::Ptr> v = read(*in, s.type, s.part, s.attr); held.insert(held.end(), v.begin(), v.end()); }
      if (r.chance(0.2)) held.clear();
    }
    if (r.chance(0.7)) in->close();
  }
  delete in;
}

// MAC fields in the default format
WORKLOAD_W(D01, mac_store, 0.02) {
  Rng &r = wl_rng();
  init(1);
  LayerSpec s; do s = genLayer(r, FileOpt().g, 0); while (s.kind != MAC);
  describe("Ogawa file: [%s]", s.str().c_str());
  set_nontrivial(true);
  std::vector<LayerSpec> v(1, s);
  if (!writeFile("/sim/mac.f3d", v)) return;   // a reported failure is an answer
  readAndCheck("/sim/mac.f3d", v, 0, "MACField in an Ogawa file");
}

// A layer of more than 50 MB: HDF5 files are read in several passes.
namespace {
template <class T> void bigLayer(Rng &r) {
  typedef F::SparseField<T> G;
  // sparse blocks of order 5; more of them than one pass takes
  int want = (int)(50.0 * 1024 * 1024 / (32768.0 * sizeof(T))) + r.range(-1, 6);
  F::V3i nb(r.range(3, 5), r.range(3, 5), 0); nb.z = (want + nb.x * nb.y - 1) / (nb.x * nb.y) + r.range(0, 1);
  typename G::Ptr f(new G);
  f->name = "big"; f->attribute = "layer"; f->setBlockOrder(5); f->setSize(nb * 32);
  struct Vox { F::V3i p; T v; };
  std::vector<Vox> vox; int left = want;
  int total = nb.x * nb.y * nb.z;
  uint64_t s = r.next();
  for (int z = 0; z < nb.z; z++) for (int y = 0; y < nb.y; y++) for (int x = 0; x < nb.x; x++, total--) {
    if (left < total && r.chance(0.15)) { f->setBlockEmptyValue(x, y, z, Mk<T>::at(s, x, y, z)); Vox q; q.p = F::V3i(x * 32 + 5, y * 32 + 6, z * 32 + 7); q.v = Mk<T>::at(s, x, y, z); vox.push_back(q); continue; }
    for (int k = 0; k < 24; k++) {
      Vox q; q.p = F::V3i(x * 32 + r.range(0, 31), y * 32 + r.range(0, 31), z * 32 + r.range(0, 31));
      if (k < 2) q.p = F::V3i(x * 32 + 31 * k, y * 32 + 31 * k, z * 32 + 31 * k);
      q.v = Mk<T>::at(s, q.p.x, q.p.y, q.p.z);
      f->fastLValue(q.p.x, q.p.y, q.p.z) = q.v; vox.push_back(q);
    }
    left--;
  }
  bool h5 = r.chance(0.8); int nt = r.range(1, 4);
  describe("%s file, %d x %d x %d blocks, %d allocated, %d threads", h5 ? "HDF5" : "Ogawa", nb.x, nb.y, nb.z, want - left, nt);
  F::setNumIOThreads(nt);
  LayerSpec ls; ls.type = TypeOf<T>::v; ls.part = "big"; ls.attr = "layer";
  Quiet quiet;                                   // threads take turns only where they wait
  useHdf5(h5);
  { F::Field3DOutputFile out;
    bool ok = out.create("/sim/big.f3d"); useHdf5(false);
    ok = ok && write(out, ls, f) && out.close();
    if (!ok) violation("write-failed", "writing a large layer reported failure"); }
  F::Field3DInputFile in;
  if (!in.open("/sim/big.f3d")) violation("file-rejected", "the file is rejected");
  std::vector<F::FieldBase::Ptr> v = read(in, ls.type, ls.part, ls.attr);
  if (v.size() != 1) violation("layer-missing", "the large layer comes back %zu times", v.size());
  typename G::Ptr g = F::field_dynamic_cast<G>(v[0]);
  if (!g || g->blockRes() != f->blockRes() || g->dataWindow().max != f->dataWindow().max) violation("wrong-data", "the large layer comes back with another layout");
  for (int z = 0; z < nb.z; z++) for (int y = 0; y < nb.y; y++) for (int x = 0; x < nb.x; x++)
    if (g->blockIsAllocated(x, y, z) != f->blockIsAllocated(x, y, z) || g->getBlockEmptyValue(x, y, z) != f->getBlockEmptyValue(x, y, z)) violation("wrong-data", "block (%d,%d,%d) of the large layer: allocation or empty value", x, y, z);
  for (auto &q : vox) if (g->fastValue(q.p.x, q.p.y, q.p.z) != f->fastValue(q.p.x, q.p.y, q.p.z)) violation("wrong-data", "voxel (%d,%d,%d) of the large layer is %s, stored %s", q.p.x, q.p.y, q.p.z, show(g->fastValue(q.p.x, q.p.y, q.p.z)).c_str(), show(f->fastValue(q.p.x, q.p.y, q.p.z)).c_str());
}
}
WORKLOAD_W(D01, big_layer, 0.0015) {
  Rng &r = wl_rng();
  init(1);
  set_step_limit(2000000000ULL);
  set_nontrivial(true);
  if (r.chance(0.5)) bigLayer<F::V3d>(r); else bigLayer<double>(r);
}
