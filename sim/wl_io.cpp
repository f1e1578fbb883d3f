// W01, W02: parallel sparse writing and reading
#include "wl_util.h"
using namespace wl;
using namespace sim;

static std::vector<LayerSpec> genSparse(Rng &r, int n, int maxb) {
  GenOpt o; o.sparse_only = true; o.max_blocks = maxb; o.meta = false; o.mappings = false;
  std::vector<LayerSpec> v;
  for (int i = 0; i < n; i++) { LayerSpec s = genLayer(r, o, i); if (op_enabled(i)) { v.push_back(s); describe("[%s] ", s.str().c_str()); } }
  return v;
}
WORKLOAD(W01, sparse_write) {
  Rng &r = wl_rng();
  race_checks(true);
  std::vector<LayerSpec> ls = genSparse(r, r.range(1, 2), r.chance(0.3) ? 36 : 16);
  int nt = r.range(2, 5);
  describe("%d write threads", nt);
  init(1);
  std::vector<F::FieldBase::Ptr> keep;
  if (!writeFile("/sim/ref.f3d", ls, 0, 1)) violation("write-failed", "single-threaded write reported failure");
  set_nontrivial(ls.size() > 0);
  if (!writeFile("/sim/par.f3d", ls, 0, nt)) violation("write-failed", "write with %d threads reported failure", nt);
  vfs::Bytes a = vfs::get("/sim/ref.f3d"), b = vfs::get("/sim/par.f3d");
  F::setNumIOThreads(1);
  readAndCheck("/sim/par.f3d", ls, 0, "file written in parallel");
  if (a != b) {
    size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    violation("bytes-differ", "file written with %d threads differs from the one written with 1 at byte %zu (sizes %zu and %zu)", nt, i, b.size(), a.size());
  }
}
WORKLOAD(W02, sparse_read) {
  Rng &r = wl_rng();
  race_checks(true);
  std::vector<LayerSpec> ls = genSparse(r, r.range(1, 2), r.chance(0.3) ? 36 : 16);
  int nt = r.range(2, 5);
  describe("%d read threads", nt);
  init(1);
  if (!writeFile("/sim/a.f3d", ls, 0, 1)) violation("write-failed", "write reported failure");
  set_nontrivial(ls.size() > 0);
  F::setNumIOThreads(nt);
  readAndCheck("/sim/a.f3d", ls, 0, "parallel read");
}
