// D02: several threads, each with its own file objects.
#include "wl_files.h"
#include <pthread.h>

namespace {
F::SparseFileManager &mgr() { return F::SparseFileManager::singleton(); }
struct Lock { pthread_mutex_t &m; Lock(pthread_mutex_t &m) : m(m) { pthread_mutex_lock(&m); } ~Lock() { pthread_mutex_unlock(&m); } };
}

WORKLOAD(D02, parallel_files) {
  Rng &r = wl_rng();
  if (r.chance(0.5)) legalFaults(r);
  init(r.range(1, 3));
  int nt = r.range(2, 4), ns = r.range(0, 2);
  bool dyn = r.chance(0.3);
  if (dyn) { set_step_limit(2000000000ULL); mgr().setLimitMemUse(true); mgr().setMaxMemUse(r.chance(0.5) ? 0.0005f : 1.0f); describe("dynamic loading, "); }
  // one format for all that is written in parallel, or both with creation kept apart
  bool mixed = r.chance(0.4), h5 = r.chance(0.5);
  describe("%d threads, %s: ", nt, mixed ? "both formats" : h5 ? "HDF5 written" : "Ogawa written");
  FileOpt o; o.maxLayers = 3; o.g.max_blocks = 6;
  std::vector<FileSpec> shared, own;
  for (int i = 0; i < ns; i++) {
    FileOpt so = o;
    shared.push_back(genFile(r, so, i * 10));
    F::Field3DOutputFile out; char path[64]; snprintf(path, sizeof path, "/sim/shared%d.f3d", i);
    if (!writeSpec(out, path, shared[i])) violation("write-failed", "writing shared file %d reported failure", i);
  }
  std::vector<Rng> seeds; std::vector<int> acts;
  for (int t = 0; t < nt; t++) {
    FileOpt oo = o; oo.h5_ok = mixed;
    FileSpec f;
    if (!mixed && h5) { do { describe(" thread %d ", t); f = genFile(r, o, 50 + t * 10); } while (!f.h5); } else { describe(" thread %d ", t); f = genFile(r, oo, 50 + t * 10); }
    own.push_back(f); seeds.push_back(r.fork()); acts.push_back(ns ? r.range(0, 2) : 0);   // 0: write and read its own file; 1: only read; 2: both
  }
  if (!mixed) useHdf5(h5);
  set_nontrivial(true);
  { // loading blocks and levels on demand looks at flags before it locks
    bool lazy = dyn; for (auto &f : shared) for (auto &l : f.layers) if (l.kind >= MIPDENSE) lazy = true;
    race_checks(!lazy); }
  pthread_mutex_t creating = PTHREAD_MUTEX_INITIALIZER;
  auto body = [&](int t) {
    Rng q = seeds[t];
    int rounds = q.range(1, 2);
    char path[64]; snprintf(path, sizeof path, "/sim/own%d.f3d", t);
    for (int k = 0; k < rounds; k++) {
      if (acts[t] != 1) {
        F::Field3DOutputFile out;
        bool ok;
        if (mixed) { // creation sets the format; the rest runs in parallel
          { Lock l(creating); useHdf5(own[t].h5); ok = out.create(path); useHdf5(false); }
          if (!ok) violation("write-failed", "thread %d: create failed", t);
          for (size_t i = 0; i < own[t].layers.size(); i++) ok = write(out, own[t].layers[i], build(own[t].layers[i])) && ok;
          if (own[t].hasGlobal) { applyMeta(out.metadata(), own[t].global); ok = out.writeGlobalMetadata() && ok; }
          ok = out.close() && ok;
        } else ok = writeSpec(out, path, own[t], false);
        if (!ok) violation("write-failed", "thread %d: writing reported failure", t);
        F::Field3DInputFile in;
        if (!in.open(path)) violation("file-rejected", "thread %d: its own file is rejected", t);
        int n = q.range(1, 4);
        for (int i = 0; i < n; i++) { Rng z = q.fork(); if (op_enabled(100 + t * 20 + k * 5 + i)) readOp(z, in, own[t]); }
        if (q.chance(0.5)) in.close();
      }
      if (acts[t] != 0) {
        int i = (int)q.below(ns);
        char sp[64]; snprintf(sp, sizeof sp, "/sim/shared%d.f3d", i);
        F::Field3DInputFile in;
        if (!in.open(sp)) violation("file-rejected", "thread %d: shared file %d is rejected", t, i);
        int n = q.range(1, 4);
        for (int j = 0; j < n; j++) { Rng z = q.fork(); if (op_enabled(200 + t * 20 + k * 5 + j)) readOp(z, in, shared[i]); }
        if (q.chance(0.5)) in.close();
      }
    }
  };
  std::vector<Thread> th;
  for (int t = 0; t < nt; t++) th.push_back(spawn([&, t] { body(t); }));
  for (auto &t : th) join(t);
  useHdf5(false);
  // alone again: all is as written
  mgr().setLimitMemUse(false);
  for (int t = 0; t < nt; t++) if (acts[t] != 1 && op_enabled(300 + t)) {
    char path[64]; snprintf(path, sizeof path, "/sim/own%d.f3d", t);
    F::Field3DInputFile in;
    if (!in.open(path)) violation("file-rejected", "afterwards: file of thread %d is rejected", t);
    for (int ty = 0; ty < 6; ty++) expectLayers(readByAttr(in, ty, ""), sel(own[t], [&](const LayerSpec &x) { return x.type == ty; }), "afterwards: read of all layers");
  }
}

// Fields that load on demand are copied to other files by several threads
// while others look at their voxels.
WORKLOAD(D02, copy_shared) {
  Rng &r = wl_rng();
  if (r.chance(0.5)) legalFaults(r);
  init(r.range(1, 3));
  int nt = r.range(1, 3);
  bool dyn = r.chance(0.7);
  if (dyn) { set_step_limit(2000000000ULL); mgr().setLimitMemUse(true); mgr().setMaxMemUse(r.chance(0.5) ? 0.0005f : 1.0f); describe("dynamic loading, "); }
  FileOpt o; o.maxLayers = 3; o.dups = false; o.g.max_blocks = 8; o.g.mac_ok = false;
  FileSpec src = genFile(r, o, 0);
  // HDF5 refuses (and says so) two layers of the same name in a partition
  for (size_t i = 0; i < src.layers.size(); i++) src.layers[i].attr += "#" + std::to_string(i);
  F::Field3DOutputFile out;
  if (!writeSpec(out, "/sim/shared.f3d", src)) violation("write-failed", "writing the shared file reported failure");
  std::vector<F::FieldBase::Ptr> fields;
  { F::Field3DInputFile in;
    if (!in.open("/sim/shared.f3d")) violation("file-rejected", "the shared file is rejected");
    for (size_t i = 0; i < src.layers.size(); i++) {
      const LayerSpec &s = src.layers[i];
      std::vector<F::FieldBase::Ptr> v = read(in, s.type, s.part, s.attr);
      // (layers of the same names: matched by content)
      std::vector<bool> used(1, false); F::FieldBase::Ptr f;
      if (v.size() == 1) f = v[0];
      fields.push_back(f);
    } }
  // format, and whether the thread writes or looks
  std::vector<int> h5, job; std::vector<Rng> seeds;
  for (int t = 0; t < nt; t++) { h5.push_back(r.chance(0.5)); job.push_back(t == 0 ? 0 : r.range(0, 1)); seeds.push_back(r.fork()); describe(" thread %d: %s", t, job[t] ? "looks" : h5[t] ? "copies to HDF5" : "copies to Ogawa"); }
  set_nontrivial(!fields.empty());
  { bool lazy = dyn; for (auto &l : src.layers) if (l.kind >= MIPDENSE) lazy = true; race_checks(!lazy); }
  pthread_mutex_t creating = PTHREAD_MUTEX_INITIALIZER;
  auto body = [&](int t) {
    Rng q = seeds[t];
    if (job[t] == 0) {
      char path[64]; snprintf(path, sizeof path, "/sim/copy%d.f3d", t);
      F::Field3DOutputFile out;
      bool ok;
      { Lock l(creating); useHdf5(h5[t]); ok = out.create(path); useHdf5(false); }
      if (!ok) violation("write-failed", "thread %d: create failed", t);
      for (size_t i = 0; i < fields.size(); i++) if (fields[i] && op_enabled(100 + t * 10 + (int)i)) {
        if (!write(out, src.layers[i], fields[i])) violation("write-failed", "thread %d: copying layer %zu reported failure", t, i);
      }
      if (!out.close()) violation("write-failed", "thread %d: closing the copy reported failure", t);
    } else {
      for (int n = q.range(1, 3); n-- && !fields.empty();) {
        size_t i = q.below(fields.size());
        if (!fields[i]) continue;
        std::string d = diff(fields[i], src.layers[i]);
        if (!d.empty()) violation("wrong-data", "thread %d: layer %zu: %s", t, i, d.c_str());
      }
    }
  };
  std::vector<Thread> th;
  for (int t = 0; t < nt; t++) th.push_back(spawn([&, t] { body(t); }));
  for (auto &t : th) join(t);
  bool keep = r.chance(0.5);
  if (!keep) fields.assign(fields.size(), F::FieldBase::Ptr());
  mgr().setLimitMemUse(false);
  for (int t = 0; t < nt; t++) if (job[t] == 0) {
    char path[64]; snprintf(path, sizeof path, "/sim/copy%d.f3d", t);
    F::Field3DInputFile in;
    if (!in.open(path)) violation("file-rejected", "copy of thread %d is rejected", t);
    for (size_t i = 0; i < src.layers.size(); i++) {
      const LayerSpec &s = src.layers[i];
      if (!op_enabled(100 + t * 10 + (int)i)) continue;
      if (sel(src, [&](const LayerSpec &x) { return x.type == s.type && x.part == s.part && x.attr == s.attr; }).size() != 1) continue;
      std::vector<F::FieldBase::Ptr> v = read(in, s.type, s.part, s.attr);
      if (v.size() != 1) violation("layer-missing", "copy of thread %d: layer %zu comes back %zu times", t, i, v.size());
      std::string d = diff(v[0], s);
      if (!d.empty()) violation("wrong-data", "copy of thread %d: layer %zu: %s", t, i, d.c_str());
    }
  }
}

// H02: histories of writing, replacing, removing, reading, holding, copying
// and dropping, one step after the other, against a model of what each path
// holds and what is held in memory.
namespace {
struct Held { F::FieldBase::Ptr f; int path; LayerSpec spec; int version; bool sole; };
struct CopyOf { virtual ~CopyOf() {} };
template <class T> F::FieldBase::Ptr cloneT(F::FieldBase::Ptr f, Rng &q) {
  F::FieldRes::Ptr res = F::field_dynamic_cast<F::FieldRes>(f);
  if (!res) return F::FieldBase::Ptr();
  F::FieldBase::Ptr c = res->clone();
  // the copy is the caller's own: change it
  typename F::WritableField<T>::Ptr w = F::field_dynamic_cast<F::WritableField<T> >(c);
  if (w && q.chance(0.7)) { F::V3i m = w->dataWindow().min; w->lvalue(m.x, m.y, m.z) = Mk<T>::at(q.next(), 1, 2, 3); }
  if (q.chance(0.3)) c->attribute = "changed";
  if (q.chance(0.3)) c->metadata().setStrMetadata("changed", "yes");
  return c;
}
F::FieldBase::Ptr cloneOf(F::FieldBase::Ptr f, int type, Rng &q) {
  switch (type) { case HALF: return cloneT<F::half>(f, q); case FLOAT: return cloneT<float>(f, q); case DOUBLE: return cloneT<double>(f, q);
    case VHALF: return cloneT<F::V3h>(f, q); case VFLOAT: return cloneT<F::V3f>(f, q); default: return cloneT<F::V3d>(f, q); }
}
}

WORKLOAD(H02, history) {
  Rng &r = wl_rng();
  if (r.chance(0.3)) legalFaults(r);
  init(r.range(1, 2));
  static const char *paths[] = { "/sim/a/x.f3d", "/sim/b/x.f3d", "/sim/x.f3d", "/sim/a/y.f3d" };
  int np = r.range(1, 4), ns = r.range(4, 14);
  std::vector<FileSpec> now(np); std::vector<bool> there(np, false); std::vector<int> version(np, 0);
  // few names, so that layers of different files and versions meet
  LayerSpec names[3]; for (int i = 0; i < 3; i++) { names[i].part = r.chance(0.7) ? "p" : "q"; names[i].attr = i == 0 ? "density" : i == 1 ? "v" : "p"; }
  std::vector<Held> held; std::vector<F::FieldBase::Ptr> copies;
  std::unique_ptr<F::Field3DInputFile> in[2]; int opened[2] = { -1, -1 };
  describe("%d paths, %d steps: ", np, ns);
  FileOpt o; o.maxLayers = 3; o.g.max_blocks = 4; o.g.fixed_type = r.chance(0.5) ? FLOAT : -1;
  for (int st = 0; st < ns; st++) {
    Rng q = r.fork();
    if (!op_enabled(100 + st)) continue;
    int p = (int)q.below(np);
    int what = there[p] ? (int)q.below(12) : 0;
    if (what <= 1) {                                   // write or replace
      FileSpec f = genFile(q, o, 1000 + st * 10);
      for (size_t i = 0; i < f.layers.size(); i++) if (q.chance(0.8)) { const LayerSpec &n = names[q.below(3)]; f.layers[i].part = n.part; f.layers[i].attr = n.attr; }
      if (f.h5) for (size_t i = 0; i < f.layers.size(); i++) for (size_t j = 0; j < i; j++) if (f.layers[i].part == f.layers[j].part && f.layers[i].attr == f.layers[j].attr) f.layers[i].attr += "_" + std::to_string(i);
      describe("(as %s) ", paths[p]);
      for (size_t i = 0; i < f.layers.size(); i++) describe("%s:%s ", f.layers[i].part.c_str(), f.layers[i].attr.c_str());
      for (int x = 0; x < 2; x++) if (opened[x] == p) { in[x].reset(); opened[x] = -1; }
      F::Field3DOutputFile out;
      if (!writeSpec(out, paths[p], f)) violation("write-failed", "step %d: writing %s reported failure", st, paths[p]);
      now[p] = f; there[p] = true; version[p]++;
      continue;
    }
    if (what == 2) {                                   // remove
      describe("remove %s ", paths[p]);
      for (int x = 0; x < 2; x++) if (opened[x] == p) { in[x].reset(); opened[x] = -1; }
      vfs::remove(paths[p]); there[p] = false;
      F::Field3DInputFile gone;
      Quiet hush;
      if (gone.open(paths[p])) violation("removed-file-opens", "step %d: %s was removed, but opens", st, paths[p]);
      continue;
    }
    if (what == 3) { describe("drop all "); held.clear(); if (q.chance(0.5)) copies.clear(); continue; }
    if (what == 4) {                                   // drop one, perhaps keeping a copy of it
      if (held.empty()) continue;
      size_t i = q.below(held.size());
      if (q.chance(0.6)) { F::FieldBase::Ptr c = cloneOf(held[i].f, held[i].spec.type, q); if (c) copies.push_back(c); }
      std::string d = diff(held[i].f, held[i].spec);
      if (!d.empty()) violation("held-field-changed", "step %d: a held field of %s: %s", st, paths[held[i].path], d.c_str());
      describe("drop %s ", held[i].spec.attr.c_str());
      held.erase(held.begin() + i);
      continue;
    }
    if (what == 5) { F::FieldCache<float>::singleton().memSize(); F::FieldCache<F::V3f>::singleton().memSize(); continue; }
    // read
    int x = (int)q.below(2);
    if (!in[x] || q.chance(0.3)) { in[x].reset(new F::Field3DInputFile); opened[x] = -1; }
    if (opened[x] != p) {
      opened[x] = -1;
      if (!in[x]->open(paths[p])) violation("file-rejected", "step %d: %s is rejected", st, paths[p]);
      opened[x] = p;
    }
    std::vector<std::pair<F::FieldBase::Ptr, LayerSpec> > res;
    std::string part, attr; int type; std::vector<LayerSpec> want; std::vector<F::FieldBase::Ptr> got;
    // a name of this file, or one of another
    const FileSpec &nf = q.chance(0.8) || !there[q.below(np)] ? now[p] : now[q.below(np)];
    if (nf.layers.empty()) continue;
    { const LayerSpec &s = nf.layers[q.below(nf.layers.size())]; part = s.part; attr = s.attr; type = s.type; }
    bool byPart = q.chance(0.7);
    describe("read %s:%s of %s ", byPart ? part.c_str() : "*", attr.c_str(), paths[p]);
    { Quiet hush; got = byPart ? read(*in[x], type, part, attr) : readByAttr(*in[x], type, attr); }
    want = sel(now[p], [&](const LayerSpec &l) { return l.type == type && l.attr == attr && (!byPart || l.part == part); });
    set_nontrivial(true);
    std::vector<bool> used(want.size(), false), usedHeld(held.size(), false);
    std::vector<Held> fresh;
    size_t same = 0;
    for (size_t i = 0; i < got.size(); i++) {
      for (size_t c = 0; c < copies.size(); c++) if (copies[c].get() == got[i].get()) violation("copy-handed-out", "step %d: reading %s:%s of %s returned a field the caller had copied", st, part.c_str(), attr.c_str(), paths[p]);
      bool isHeld = false;
      for (size_t h = 0; h < held.size(); h++) if (held[h].f.get() == got[i].get()) {
        const LayerSpec &s = held[h].spec;
        if (held[h].path != p || s.type != type || s.attr != attr || (byPart && s.part != part)) violation("wrong-field", "step %d: reading %s:%s of %s returned the field read from %s:%s of %s", st, part.c_str(), attr.c_str(), paths[p], s.part.c_str(), s.attr.c_str(), paths[held[h].path]);
        if (usedHeld[h]) violation("layer-invented", "step %d: reading %s:%s of %s returned one field twice", st, part.c_str(), attr.c_str(), paths[p]);
        usedHeld[h] = true; isHeld = true; same++;
        std::string d = diff(got[i], s);
        if (!d.empty()) violation("held-field-changed", "step %d: a held field of %s: %s", st, paths[p], d.c_str());
      }
      if (isHeld) continue;
      std::string why; size_t m = want.size();
      for (size_t w = 0; w < want.size() && m == want.size(); w++) if (!used[w]) { std::string d = diff(got[i], want[w]); if (d.empty()) { used[w] = true; m = w; } else why += " / " + d; }
      if (m == want.size()) violation("wrong-data", "step %d: reading %s:%s of %s: neither held nor what the file holds: %s", st, part.c_str(), attr.c_str(), paths[p], why.c_str());
      Held n; n.f = got[i]; n.path = p; n.spec = want[m]; n.version = version[p];
      { const LayerSpec &k = want[m]; n.sole = sel(now[p], [&](const LayerSpec &l) { return l.part == k.part && l.attr == k.attr; }).size() == 1; }
      fresh.push_back(n);
    }
    // (a held field may be of a layer that was there when it was read)
    if (got.size() < want.size() || got.size() - same > want.size()) violation(got.size() < want.size() ? "layer-missing" : "layer-invented", "step %d: reading %s:%s of %s returned %zu fields, the file has %zu", st, part.c_str(), attr.c_str(), paths[p], got.size(), want.size());
    // what is still held of this very file comes back as the object that is held
    for (size_t h = 0; h < held.size(); h++) {
      const LayerSpec &k = held[h].spec;
      if (held[h].path != p || held[h].version != version[p] || !held[h].sole || usedHeld[h] || k.type != type || k.attr != attr || (byPart && k.part != part)) continue;
      violation("held-not-shared", "step %d: reading %s:%s of %s, of which a field is still held, returned another object", st, part.c_str(), attr.c_str(), paths[p]);
    }
    if (same) probe("a held field came back");
    if (!held.empty() && got.size() > same) probe("read from the file while other fields are held");
    if (q.chance(0.6)) held.insert(held.end(), fresh.begin(), fresh.end());
  }
  for (size_t h = 0; h < held.size(); h++) { std::string d = diff(held[h].f, held[h].spec); if (!d.empty()) violation("held-field-changed", "at the end: a held field of %s: %s", paths[held[h].path], d.c_str()); }
}
