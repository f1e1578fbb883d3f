#include <memory>
// C01, F01, F02: crashes, read faults and write faults.
#include "wl_files.h"
#include <zlib.h>

namespace {

// everything a reader can see in the file
struct Seen {
  bool opened, threw;           // threw: an exception came out of some call
  std::vector<std::string> parts;
  std::vector<F::FieldBase::Ptr> byType[6];
  size_t n() const { size_t k = 0; for (int t = 0; t < 6; t++) k += byType[t].size(); return k; }
  Seen() : opened(false), threw(false) {}
};
// reads all layers of every type; exceptions and failures are answers
Seen look(const std::string &path, F::Field3DInputFile &in) {
  Seen s;
  try { s.opened = in.open(path); } catch (std::exception &) { s.threw = true; }
  if (!s.opened) return s;
  try { in.getPartitionNames(s.parts); } catch (std::exception &) { s.threw = true; }
  for (int t = 0; t < 6; t++) { try { s.byType[t] = readByAttr(in, t, ""); } catch (std::exception &) { s.threw = true; } }
  return s;
}
// nothing altered, nothing invented
void checkSubset(const Seen &s, const FileSpec &f, const char *what) {
  for (int t = 0; t < 6; t++) {
    std::vector<LayerSpec> want = sel(f, [&](const LayerSpec &x) { return x.type == t; });
    std::vector<bool> used(want.size(), false);
    for (size_t i = 0; i < s.byType[t].size(); i++) {
      std::string why; bool ok = false;
      try { ok = matchOne(s.byType[t][i], want, used, why); } catch (std::exception &) { ok = true; }   // a lazy level that reports failure
      if (!ok) violation(want.empty() ? "layer-invented" : "wrong-data", "%s: a %s layer %s:%s is returned that was not written like that: %s", what, typeName(t), s.byType[t][i]->name.c_str(), s.byType[t][i]->attribute.c_str(), why.c_str());
    }
  }
  for (auto &p : s.parts) { bool ok = false; for (auto &x : f.layers) ok = ok || x.part == p; if (!ok) violation("wrong-listing", "%s: partition '%s' is listed, which was not written", what, p.c_str()); }
}
void checkMetaSubset(F::FieldMetadata &m, const FileSpec &f, const char *what) {
  Meta none; const Meta &g = f.hasGlobal ? f.global : none;
  bool ok = true;
  for (auto &e : m.strMetadata()) ok = ok && g.s.count(e.first) && g.s.find(e.first)->second == e.second;
  for (auto &e : m.intMetadata()) ok = ok && g.i.count(e.first) && g.i.find(e.first)->second == e.second;
  for (auto &e : m.floatMetadata()) ok = ok && g.f.count(e.first) && g.f.find(e.first)->second == e.second;
  for (auto &e : m.vecIntMetadata()) ok = ok && g.vi.count(e.first) && g.vi.find(e.first)->second == e.second;
  for (auto &e : m.vecFloatMetadata()) ok = ok && g.vf.count(e.first) && g.vf.find(e.first)->second == e.second;
  if (!ok) violation("wrong-data", "%s: file metadata differs from what was written: %s", what, diffMeta(m, g).c_str());
}
// all layers, exactly
void checkAll(Seen &s, F::Field3DInputFile &in, const FileSpec &f, const char *what) {
  if (!s.opened) violation("file-rejected", "%s: open failed", what);
  if (s.threw) violation("layer-missing", "%s: a read threw", what);
  for (int t = 0; t < 6; t++) expectLayers(s.byType[t], sel(f, [&](const LayerSpec &x) { return x.type == t; }), what);
  std::string d = diffMeta(in.metadata(), f.hasGlobal ? f.global : Meta());
  if (!d.empty()) violation("wrong-data", "%s: file metadata: %s", what, d.c_str());
}
void checkAll(const std::string &path, const FileSpec &f, const char *what) {
  F::Field3DInputFile in; Seen s = look(path, in); checkAll(s, in, f, what);
}
size_t blockCount(const FileSpec &f) { size_t n = 0; for (auto &l : f.layers) n += l.numBlocks(); return n; }
} // namespace

// --- C01 -------------------------------------------------------------------
WORKLOAD(C01, crash) {
  Rng &r = wl_rng();
  init(1);
  FileOpt o; o.h5_ok = false; o.g.mac_ok = false; o.maxLayers = 3; o.g.max_blocks = 6;
  const std::string path = "/sim/crash.f3d";
  FileSpec old; bool over = r.chance(0.3);
  if (over) {
    describe("over an existing file: ");
    FileOpt oo = o; oo.maxLayers = 2;
    old = genFile(r, oo, 50);
    F::Field3DOutputFile out;
    if (!writeSpec(out, path, old)) violation("write-failed", "writing the first file reported failure");
    describe("; ");
  }
  FileSpec f = genFile(r, o);
  int nt = r.range(1, 4);
  F::setNumIOThreads(nt);
  describe(", %d write threads", nt);
  bool early = r.chance(0.1);                 // no close(), the object is destroyed
  vfs::start_log(path);
  {
    F::Field3DOutputFile out;
    useHdf5(false);
    if (!out.create(path)) violation("write-failed", "create failed");
    bool ok = true;
    for (size_t i = 0; i < f.layers.size(); i++) ok = write(out, f.layers[i], build(f.layers[i])) && ok;
    if (f.hasGlobal) { applyMeta(out.metadata(), f.global); ok = out.writeGlobalMetadata() && ok; }
    if (!early) ok = out.close() && ok;
    if (!ok) violation("write-failed", "writing reported failure");
  }
  vfs::stop_log();
  size_t n = vfs::log_size();
  set_nontrivial(n > 4 && !f.layers.empty());
  F::setNumIOThreads(r.range(1, 2));
  // the final file, then images: all of the last writes, others sampled
  if (vfs::image(n, 0) != vfs::get(path)) harness_error("write log does not reproduce the file");
  checkAll(path, f, "complete file");
  int k = 0, shown = 0, whole = 0;
  std::vector<std::pair<size_t, size_t> > pts;
  for (size_t i = n >= 12 ? n - 12 : 0; i <= n; i++) pts.push_back(std::make_pair(i, 0));
  for (int i = 0; i < 14; i++) {
    size_t e = r.below(n + 1), t = 0;
    // a large write may stop at a page of the file; smaller ones are atomic
    if (e < n && vfs::log_len(e) > 4096 && r.chance(0.7)) t = 4096 * (1 + r.below(vfs::log_len(e) / 4096));
    pts.push_back(std::make_pair(e, t));
  }
  std::vector<vfs::Bytes> done;
  for (size_t q = 0; q < pts.size(); q++) {
    if (!op_enabled(100 + (int)q)) continue;
    size_t e = pts[q].first, t = pts[q].second;
    char what[80]; snprintf(what, sizeof what, "image after %zu of %zu writes%s", e, n, t ? " and part of one" : "");
    char p[64]; snprintf(p, sizeof p, "/sim/image%d.f3d", k++);
    vfs::put(p, vfs::image(e, t));
    count_fault(t ? F_TORN : F_CRASH);
    F::Field3DInputFile in;
    Seen s = look(p, in);
    if (over && e == 0 && t == 0) { checkAll(s, in, old, "file before it was overwritten"); vfs::remove(p); continue; }
    if (!s.opened) { vfs::remove(p); continue; }
    if (s.n() == 0 && s.parts.empty() && !s.threw) { shown++; checkMetaSubset(in.metadata(), f, what); }
    else if (s.n() == 0 && s.parts.empty()) violation("partial", "%s: opens, but a read throws", what);
    else {
      whole++;
      size_t want = f.layers.size();
      if (s.n() != want || s.threw) violation("partial", "%s: %zu partitions and %zu layers are shown, %zu were to be written%s", what, s.parts.size(), s.n(), want, s.threw ? ", a read throws" : "");
      checkAll(s, in, f, what);
    }
    in.close(); vfs::remove(p);
  }
  if (shown) probe("image opened without layers");
  if (whole) probe("image complete");
}

// --- F01 -------------------------------------------------------------------
namespace {
// zlib streams in the file that inflate completely: [begin, end, inflated size)
struct Z { size_t b, e, n; };
std::vector<Z> findZ(const vfs::Bytes &v) {
  std::vector<Z> out;
  std::vector<unsigned char> buf(1 << 16);
  for (size_t i = 0; i + 8 < v.size(); i++) {
    if (v[i] != 0x78 || ((v[i] << 8) + v[i + 1]) % 31) continue;
    z_stream z; memset(&z, 0, sizeof z);
    if (inflateInit(&z) != Z_OK) continue;
    z.next_in = (Bytef *)&v[i]; z.avail_in = v.size() - i; z.next_out = &buf[0]; z.avail_out = buf.size();
    int rc = inflate(&z, Z_FINISH);
    if (rc == Z_STREAM_END && z.total_out >= 8) { Z q = { i, i + z.total_in, z.total_out }; out.push_back(q); i += z.total_in - 1; }
    inflateEnd(&z);
  }
  return out;
}
bool inflates(const vfs::Bytes &v, const Z &q) {
  std::vector<unsigned char> buf(q.n + 64);
  z_stream z; memset(&z, 0, sizeof z);
  if (inflateInit(&z) != Z_OK) return false;
  z.next_in = (Bytef *)&v[q.b]; z.avail_in = v.size() - q.b; z.next_out = &buf[0]; z.avail_out = buf.size();
  int rc = inflate(&z, Z_FINISH);
  inflateEnd(&z);
  return rc == Z_STREAM_END;
}
void readFaults(Rng &r, bool h5) {
  FaultPolicy &p = faults();
  static const double rate[] = { 0.002, 0.01, 0.05 };
  double q = rate[r.below(3)];
  p.max_hard = r.chance(0.6) ? 1 : r.range(2, 6);
  if (r.chance(0.6)) p.p[F_READ_EIO] = q;
  if (r.chance(0.4)) p.p[F_READ_EOF] = q;
  if (r.chance(0.3)) p.p[F_OPEN_FAIL] = q * 8;
  if (h5) { p.p[F_H5_READ] = q / 2; p.p[F_READ_EIO] = p.p[F_READ_EOF] = 0; }
  if (r.chance(0.2)) { p.p[F_THREAD] = 0.2; if (r.chance(0.3)) p.p[F_READ_EIO] = p.p[F_READ_EOF] = p.p[F_OPEN_FAIL] = p.p[F_H5_READ] = 0; }
  if (r.chance(0.25)) { p.p[F_READ_SHORT] = 0.1; p.p[F_EINTR] = 0.05; }
}
// F_ALLOC only counts in the scope of this
bool someAlloc(Rng &r) { if (!r.chance(0.2)) return false; faults().p[F_ALLOC] = r.chance(0.5) ? 0.003 : 0.0005; describe(", memory may run out"); return true; }
}
WORKLOAD(F01, read_faults) {
  Rng &r = wl_rng();
  init(1);
  FileOpt o; o.g.max_blocks = 12;
  FileSpec f = genFile(r, o);
  const std::string path = "/sim/in.f3d";
  { F::Field3DOutputFile out; if (!writeSpec(out, path, f)) violation("write-failed", "writing the input reported failure"); }
  set_nontrivial(!f.layers.empty());
  int nt = r.range(1, 4);
  F::setNumIOThreads(nt);
  describe(", %d read threads", nt);
  race_checks(nt > 1 && r.chance(0.25));
  readFaults(r, f.h5);
  bool mem = someAlloc(r);
  int rounds = r.range(1, 3);
  for (int k = 0; k < rounds; k++) {
    if (!op_enabled(100 + k)) continue;
    {
      F::Field3DInputFile in;
      open_fault_window();
      std::unique_ptr<AllocFaults> af; if (mem) af.reset(new AllocFaults);
      Seen s = look(path, in);
      af.reset();
      bool late = r.chance(0.5);            // lazy levels load with faults or without
      if (!late) close_fault_window();
      checkSubset(s, f, "with read faults");
      close_fault_window();
      if (s.opened) checkMetaSubset(in.metadata(), f, "with read faults");
      if (hard_faults_fired() == 0 && s.opened) checkAll(s, in, f, "without faults");
      // the same object once more
      if (r.chance(0.3)) { Seen z = look(path, in); checkAll(z, in, f, "opened again after the fault"); }
    }
    checkAll(path, f, "after the fault");
  }
  if (hard_faults_fired()) probe("a read fault fired");
}
WORKLOAD(F01, read_fault_each) {
  Rng &r = wl_rng();
  set_step_limit(400000000);
  init(1);
  FileOpt o; o.g.max_blocks = 5; o.maxLayers = 3;
  FileSpec f = genFile(r, o);
  const std::string path = "/sim/in.f3d";
  { F::Field3DOutputFile out; if (!writeSpec(out, path, f)) violation("write-failed", "writing the input reported failure"); }
  int nt = r.range(1, 3);
  F::setNumIOThreads(nt);
  describe(", %d read threads, one fault at a time", nt);
  static const int og[] = { F_READ_EIO, F_READ_EIO, F_READ_EOF, F_READ_EOF, F_OPEN_FAIL, F_ALLOC, F_THREAD };
  static const int h5[] = { F_H5_READ, F_H5_READ, F_H5_READ, F_H5_READ, F_ALLOC };
  int kind = f.h5 ? h5[r.below(5)] : og[r.below(7)];
  FaultPolicy &p = faults();
  p.exact_kind = kind; p.exact_at = -1; p.max_hard = 1;
  auto attempt = [&] {
    uint64_t fired0 = hard_faults_fired();
    F::Field3DInputFile in;
    open_fault_window();
    std::unique_ptr<AllocFaults> af; if (kind == F_ALLOC) af.reset(new AllocFaults);
    Seen s = look(path, in);
    af.reset();
    checkSubset(s, f, "with one read fault");
    close_fault_window();
    if (s.opened) checkMetaSubset(in.metadata(), f, "with one read fault");
    if (hard_faults_fired() == fired0) checkAll(s, in, f, "without faults");
    if (r.chance(0.3)) { Seen z = look(path, in); checkAll(z, in, f, "opened again after the fault"); }
  };
  uint64_t n0 = eligible_count(kind);
  attempt();
  uint64_t n = eligible_count(kind) - n0;
  set_nontrivial(n > 0);
  if (!n) return;
  int tries = (int)std::min<uint64_t>(n, 8);
  uint64_t start = r.below(n);
  for (int k = 0; k < tries; k++) {
    if (!op_enabled(100 + k)) continue;
    p.exact_at = (int64_t)(eligible_count(kind) + (start + k * n / tries) % n);
    attempt();
    p.exact_at = -1;
  }
  checkAll(path, f, "after the faults");
}
WORKLOAD(F01, truncated) {
  Rng &r = wl_rng();
  init(1);
  FileOpt o; o.g.max_blocks = 12;
  FileSpec f = genFile(r, o);
  const std::string path = "/sim/in.f3d";
  { F::Field3DOutputFile out; if (!writeSpec(out, path, f)) violation("write-failed", "writing the input reported failure"); }
  set_nontrivial(!f.layers.empty());
  int nt = r.range(1, 4);
  F::setNumIOThreads(nt);
  describe(", %d read threads", nt);
  vfs::Bytes all = vfs::get(path);
  int cuts = r.range(2, 10);
  for (int k = 0; k < cuts; k++) {
    size_t len = r.chance(0.2) ? all.size() - 1 - r.below(std::min<size_t>(all.size(), 64)) : r.chance(0.1) ? r.below(40) : r.below(all.size());
    if (!op_enabled(100 + k)) continue;
    char p[64]; snprintf(p, sizeof p, "/sim/cut%d.f3d", k);
    vfs::put(p, vfs::Bytes(all.begin(), all.begin() + len));
    count_fault(F_TRUNCATE);
    char what[64]; snprintf(what, sizeof what, "cut to %zu of %zu bytes", len, all.size());
    F::Field3DInputFile in;
    Seen s = look(p, in);
    checkSubset(s, f, what);
    if (s.opened) { checkMetaSubset(in.metadata(), f, what); probe("cut file opened"); }
    in.close(); vfs::remove(p);
  }
  checkAll(path, f, "the whole file");
}
WORKLOAD(F01, damaged_blocks) {
  Rng &r = wl_rng();
  init(1);
  FileOpt o; o.g.max_blocks = 14; o.maxLayers = 2; o.g.mac_ok = false; o.h5_ok = r.chance(0.6);
  FileSpec f = genFile(r, o);
  for (auto &l : f.layers) if (l.kind == DENSE) { l.kind = SPARSE; }
  const std::string path = "/sim/in.f3d";
  { F::Field3DOutputFile out; if (!writeSpec(out, path, f)) violation("write-failed", "writing the input reported failure"); }
  int nt = r.range(1, 4);
  F::setNumIOThreads(nt);
  describe(", %d read threads", nt);
  vfs::Bytes all = vfs::get(path);
  std::vector<Z> zs = findZ(all);
  set_nontrivial(!zs.empty());
  if (zs.empty()) return;
  int rounds = r.range(2, 8);
  for (int k = 0; k < rounds; k++) {
    vfs::Bytes b = all;
    int hits = r.chance(0.7) ? 1 : r.range(2, 4);
    for (int h = 0; h < hits; h++) {
      const Z &q = zs[r.below(zs.size())];
      vfs::Bytes c = b;
      int how = (int)r.below(f.h5 ? 3 : 4);
      size_t i = q.b + r.below(q.e - q.b);
      if (how == 3) {
        // an intact stream of too few bytes in its place
        std::vector<unsigned char> raw(q.n + 64), less(compressBound(q.n) + 64); uLongf n = q.n, m = less.size();
        z_stream z; memset(&z, 0, sizeof z);
        if (inflateInit(&z) != Z_OK) continue;
        z.next_in = (Bytef *)&b[q.b]; z.avail_in = q.e - q.b; z.next_out = &raw[0]; z.avail_out = raw.size();
        int rc = inflate(&z, Z_FINISH); inflateEnd(&z);
        if (rc != Z_STREAM_END) continue;
        n -= 1 + r.below(r.chance(0.5) ? std::min<size_t>(q.n / 2, 8) : q.n / 2);
        if (compress2(&less[0], &m, &raw[0], n, 9) != Z_OK || m > q.e - q.b) continue;
        std::copy(less.begin(), less.begin() + m, b.begin() + q.b); std::fill(b.begin() + q.b + m, b.begin() + q.e, 0);
        probe("a block decompresses to too few bytes");
        continue;
      }
      if (how == 0) c[i] ^= 1 << r.below(8);
      else if (how == 1) c[i] = (unsigned char)r.next();
      else for (size_t j = i; j < q.e && j < i + 1 + r.below(40); j++) c[j] = 0;
      if (!inflates(c, q)) b = c;           // damage the format can detect
    }
    if (!op_enabled(100 + k) || b == all) continue;
    char p[64]; snprintf(p, sizeof p, "/sim/bad%d.f3d", k);
    vfs::put(p, b);
    count_fault(F_FLIP);
    F::Field3DInputFile in;
    Seen s = look(p, in);
    checkSubset(s, f, "damaged block");
    if (s.opened && s.n() == f.layers.size() && !s.threw) {
      // somebody must have noticed, at the latest when a lazy level is loaded
      bool noticed = false;
      for (int t = 0; t < 6; t++) for (auto &x : s.byType[t]) { try { std::vector<bool> u(f.layers.size(), false); std::string why; if (!matchOne(x, f.layers, u, why)) noticed = true; } catch (std::exception &) { noticed = true; } }
      if (!noticed) probe("damage without effect");
    }
    in.close(); vfs::remove(p);
  }
  checkAll(path, f, "the undamaged file");
}

// --- F02 -------------------------------------------------------------------
namespace {
uint64_t lostWrites() { return fault_count(F_WRITE_EIO) + fault_count(F_ENOSPC) + fault_count(F_CLOSE_EIO) + fault_count(F_H5_WRITE); }
// Writes the file once with the faults that are set up, and looks at what was
// reported and what is there afterwards
void tryWrite(Rng &r, const std::string &path, const FileSpec &f, bool mem, bool over, const FileSpec &old) {
  uint64_t fired0 = hard_faults_fired(), lost0 = lostWrites();
  int nt = F::numIOThreads();
  bool freed = r.chance(0.3);               // somebody makes room before the file is closed
  bool useClose = r.chance(0.85);           // else the object is only destroyed
  bool reported = false, created = false, closed = false;
  std::vector<bool> okLayer(f.layers.size(), false); bool okMeta = false;
  {
    F::Field3DOutputFile out;
    open_fault_window();
    useHdf5(f.h5);
    std::unique_ptr<AllocFaults> af; if (mem) af.reset(new AllocFaults);
    auto pause = [&] { af.reset(); }; auto resume = [&] { if (mem) af.reset(new AllocFaults); };
    try { created = out.create(path); } catch (std::exception &e) { note("create: %s", e.what()); }
    useHdf5(false);
    if (!created) reported = true;
    else {
      for (size_t i = 0; i < f.layers.size(); i++) {
        pause(); F::FieldBase::Ptr fld; fld = build(f.layers[i]); resume();
        try { okLayer[i] = write(out, f.layers[i], fld); } catch (std::exception &e) { note("write: %s", e.what()); }
        if (!okLayer[i]) reported = true;
        if (reported && r.chance(0.4)) break;
      }
      if (f.hasGlobal) {
        pause(); applyMeta(out.metadata(), f.global); resume();
        try { okMeta = out.writeGlobalMetadata(); } catch (std::exception &e) { note("metadata: %s", e.what()); }
        if (!okMeta) reported = true;
      }
      if (freed) { close_fault_window(); vfs::free_disk(); }
      if (useClose) {
        try { closed = out.close(); } catch (std::exception &e) { note("close: %s", e.what()); }
        if (!closed) reported = true;
        if (r.chance(0.2)) { try { out.close(); } catch (std::exception &) { } }
      }
    }
    if (r.chance(0.5)) pause();   // else memory may run out in the destructor, too
  }
  close_fault_window(); vfs::free_disk();
  uint64_t fired = hard_faults_fired() - fired0;
  set_nontrivial(hard_faults_fired() > 0);
  if (reported) probe("failure reported");
  if (!fired && reported) violation("write-failed", "a call reported failure although nothing went wrong");
  // (also when what is left behind happens to be complete)
  if (useClose && !reported && lostWrites() > lost0)
    violation("unreported", "a write or close failed, but every call including close reported success");
  F::setNumIOThreads(1);
  { // (fields still in use stay cached under their path: drop them before writing the path again)
  F::Field3DInputFile in;
  Seen s = look(path, in);
  const FileSpec &have = !created && over && s.opened && s.n() == old.layers.size() ? old : f;   // never opened for writing: the old file
  checkSubset(s, have, "file left behind");
  if (s.opened) checkMetaSubset(in.metadata(), have, "file left behind");
  if (useClose && !reported) checkAll(s, in, f, "every call reported success");
  else if (closed) {
    // what was reported as written is there
    FileSpec g = f; g.layers.clear();
    for (size_t i = 0; i < f.layers.size(); i++) if (okLayer[i]) g.layers.push_back(f.layers[i]);
    if (!s.opened && !g.layers.empty()) violation("layer-missing", "close reported success, the file left behind is rejected");
    for (int t = 0; t < 6 && s.opened; t++) {
      std::vector<LayerSpec> want = sel(g, [&](const LayerSpec &x) { return x.type == t; });
      std::vector<bool> used(s.byType[t].size(), false);
      for (auto &w : want) {
        bool ok = false; std::string why;
        if (s.threw) {   // one that could not be written stands in the way of reading all at once, not of reading this one
          bool same = false;
          for (size_t i = 0; i < f.layers.size(); i++) same = same || (!okLayer[i] && f.layers[i].part == w.part && f.layers[i].attr == w.attr);
          if (same) continue;
          std::vector<F::FieldBase::Ptr> got = read(in, t, w.part, w.attr);
          for (auto &x : got) { std::string d = diff(x, w); if (d.empty()) ok = true; else why += d + " / "; }
        }
        for (size_t i = 0; i < used.size() && !ok; i++) if (!used[i]) { std::string d = diff(s.byType[t][i], w); if (d.empty()) ok = used[i] = true; else why += d + " / "; }
        if (!ok) violation("layer-missing", "layer %s:%s was reported as written and the file as closed, but it is not there: %s", w.part.c_str(), w.attr.c_str(), why.c_str());
      }
    }
  }
  in.close();
  }
  F::setNumIOThreads(nt);
}
}
WORKLOAD(F02, write_faults) {
  Rng &r = wl_rng();
  init(1);
  FileOpt o; o.g.max_blocks = 10;
  FileSpec f = genFile(r, o);
  int nt = r.range(1, 4);
  F::setNumIOThreads(nt);
  describe(", %d write threads", nt);
  race_checks(nt > 1 && r.chance(0.4));
  const std::string path = "/sim/out.f3d";
  bool over = r.chance(0.2);
  FaultPolicy &p = faults();
  if (f.h5) {
    static const double rate[] = { 0.0005, 0.003, 0.02 };
    p.p[F_H5_WRITE] = rate[r.below(3)];
    if (r.chance(0.3)) p.p[F_OPEN_FAIL] = 0.2;
    p.max_hard = r.chance(0.7) ? 1 : 3;
  } else {
    double u = r.unit();
    if (u < 0.35) {
      p.disk_capacity = 1 + r.below(20 + blockCount(f) * 150 + 1200 * f.layers.size());
      describe(", disk of %llu bytes", (unsigned long long)p.disk_capacity);
      over = false;
    } else if (u < 0.8) { static const double rate[] = { 0.002, 0.01, 0.05 }; p.p[F_WRITE_EIO] = rate[r.below(3)]; describe(", write errors"); }
    else if (u < 0.9) { p.p[F_ENOSPC] = 0.005; describe(", disk full"); }
    else { p.p[F_OPEN_FAIL] = 0.5; p.p[F_CLOSE_EIO] = 0.5; describe(", open and close errors"); }
    p.max_hard = r.chance(0.5) ? 1 : r.range(2, 8);
    if (r.chance(0.15)) { p.p[F_THREAD] = 0.2; describe(", threads may not start"); if (r.chance(0.5)) { p.p[F_WRITE_EIO] = p.p[F_ENOSPC] = p.p[F_OPEN_FAIL] = p.p[F_CLOSE_EIO] = 0; p.disk_capacity = 0; } }
  }
  bool mem = someAlloc(r);
  FileSpec old;
  if (over) {
    FileOpt oo = o; oo.maxLayers = 1; oo.h5_ok = false; describe(" over an existing file: "); old = genFile(r, oo, 50);
    F::Field3DOutputFile out; if (!writeSpec(out, path, old)) violation("write-failed", "writing the first file reported failure");
  }
  tryWrite(r, path, f, mem, over, old);
  F::setNumIOThreads(1);
  // the path can be written again
  { F::Field3DOutputFile out; if (!writeSpec(out, path, f)) violation("write-failed", "writing again after the fault reported failure"); }
  checkAll(path, f, "written again after the fault");
}

// One fault in each of several places, spread over all the places where that
// kind can happen: rare places get their turn as often as those in long loops.
WORKLOAD(F02, write_fault_each) {
  Rng &r = wl_rng();
  set_step_limit(400000000);
  init(1);
  FileOpt o; o.g.max_blocks = 4; o.maxLayers = 3; o.h5p = 0.5;
  FileSpec f = genFile(r, o);
  int nt = r.range(1, 3);
  F::setNumIOThreads(nt);
  static const int og[] = { F_WRITE_EIO, F_WRITE_EIO, F_WRITE_EIO, F_ENOSPC, F_ALLOC, F_THREAD };
  static const int h5[] = { F_H5_WRITE, F_H5_WRITE, F_H5_WRITE, F_H5_WRITE, F_ALLOC };
  int kind = f.h5 ? h5[r.below(5)] : og[r.below(6)];
  bool mem = kind == F_ALLOC;
  FaultPolicy &p = faults();
  p.exact_kind = kind; p.exact_at = -1; p.max_hard = 1;
  describe(", %d write threads, one fault at a time", nt);
  uint64_t n0 = eligible_count(kind);
  tryWrite(r, "/sim/dry.f3d", f, mem, false, f);
  uint64_t n = eligible_count(kind) - n0;
  set_nontrivial(n > 0);
  if (!n) return;
  int tries = (int)std::min<uint64_t>(n, kind == F_H5_WRITE ? 14 : 6);
  uint64_t start = r.below(n);
  for (int k = 0; k < tries; k++) {
    if (!op_enabled(100 + k)) continue;
    char path[64]; snprintf(path, sizeof path, "/sim/each%d.f3d", k);
    p.exact_at = (int64_t)(eligible_count(kind) + (start + k * n / tries) % n);
    tryWrite(r, path, f, mem, false, f);
    p.exact_at = -1;
    if (k == 0) {
      F::Field3DOutputFile out; if (!writeSpec(out, path, f)) violation("write-failed", "writing again after the fault reported failure");
      checkAll(path, f, "written again after the fault");
    }
    vfs::remove(path);
  }
}
