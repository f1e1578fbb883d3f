// H01: concurrent loads through the field cache.  I01: first use.  R01: shared objects.
#include "wl_files.h"
#include <pthread.h>
#include <dirent.h>
#include <stdlib.h>
#include <boost/weak_ptr.hpp>

namespace {
F::SparseFileManager &mgr() { return F::SparseFileManager::singleton(); }
struct Lock { pthread_mutex_t &m; Lock(pthread_mutex_t &m) : m(m) { pthread_mutex_lock(&m); } ~Lock() { pthread_mutex_unlock(&m); } };
long long cacheMem(int t) {
  switch (t) {
    case HALF: return F::FieldCache<F::half>::singleton().memSize();
    case FLOAT: return F::FieldCache<float>::singleton().memSize();
    case DOUBLE: return F::FieldCache<double>::singleton().memSize();
    case VHALF: return F::FieldCache<F::V3h>::singleton().memSize();
    case VFLOAT: return F::FieldCache<F::V3f>::singleton().memSize();
    default: return F::FieldCache<F::V3d>::singleton().memSize();
  }
}
}

WORKLOAD(H01, cached_loads) {
  Rng &r = wl_rng();
  if (r.chance(0.3)) legalFaults(r);
  init(r.range(1, 2));
  int nt = r.range(2, 4), nf = r.range(1, 2);
  bool dyn = r.chance(0.2);
  if (dyn) { mgr().setLimitMemUse(true); mgr().setMaxMemUse(r.chance(0.5) ? 0.0005f : 1.0f); describe("dynamic loading, "); }
  FileOpt o; o.maxLayers = 2; o.dups = false; o.g.max_blocks = 3; o.g.max_bo = 1; o.g.meta = r.chance(0.5);
  // small fields, few types: the window is between a last release and a lookup
  if (r.chance(0.7)) o.g.fixed_type = r.range(0, 5);
  o.g.mip_ok = r.chance(0.3);
  std::vector<FileSpec> fs;
  for (int i = 0; i < nf; i++) {
    fs.push_back(genFile(r, o, i * 10));
    char path[64]; snprintf(path, sizeof path, "/sim/c%d.f3d", i);
    F::Field3DOutputFile out;
    if (!writeSpec(out, path, fs[i])) violation("write-failed", "writing file %d reported failure", i);
  }
  std::vector<Rng> seeds; for (int t = 0; t < nt; t++) seeds.push_back(r.fork());
  bool keepOpen = r.chance(0.5);
  set_nontrivial(true);
  { // loading blocks and levels on demand looks at flags before it locks
    bool lazy = dyn; for (auto &f : fs) for (auto &l : f.layers) if (l.kind >= MIPDENSE) lazy = true;
    race_checks(!lazy); }
  auto body = [&](int t) {
    Rng q = seeds[t];
    std::vector<std::pair<F::FieldBase::Ptr, const LayerSpec *> > held;
    F::Field3DInputFile own[2]; bool opened[2] = { false, false };
    int n = q.range(3, 8);
    for (int k = 0; k < n; k++) {
      Rng z = q.fork();
      if (!op_enabled(100 + t * 20 + k)) continue;
      int i = z.below(nf); const FileSpec &f = fs[i];
      char path[64]; snprintf(path, sizeof path, "/sim/c%d.f3d", i);
      if (f.layers.empty()) continue;
      const LayerSpec &s = f.layers[z.below(f.layers.size())];
      if (z.chance(0.85)) {
        F::Field3DInputFile tmp; F::Field3DInputFile &in = keepOpen ? own[i] : tmp;
        if (!keepOpen || !opened[i]) { if (!in.open(path)) violation("file-rejected", "thread %d: an intact file is rejected", t); opened[i] = true; }
        std::vector<F::FieldBase::Ptr> v = z.chance(0.8) ? read(in, s.type, s.part, s.attr) : std::vector<F::FieldBase::Ptr>();
        const LayerSpec *w = &s;
        if (v.empty()) { std::vector<F::FieldBase::Ptr> a = readByAttr(in, s.type, s.attr); for (auto &x : a) if (x->name == s.part) v.push_back(x); }
        std::vector<LayerSpec> want = sel(f, [&](const LayerSpec &x) { return x.type == s.type && x.part == s.part && x.attr == s.attr; });
        if (v.size() != want.size()) violation("layer-missing", "thread %d: %zu fields returned, %zu stored", t, v.size(), want.size());
        if (v.size() == 1) {
          std::string d = diff(v[0], *w); if (!d.empty()) violation("wrong-data", "thread %d: %s", t, d.c_str());
          // the very field still held, or another one: both are complete
          if (z.chance(0.4)) held.push_back(std::make_pair(v[0], w));
          for (auto &h : held) if (h.first == v[0]) { probe("shared from the cache"); break; }
        }
      } else if (z.chance(0.5)) {
        if (cacheMem(s.type) < 0) violation("wrong-size", "negative memory use of the field cache");
      }
      if (held.size() && z.chance(0.6)) held.erase(held.begin() + z.below(held.size()));
      if (held.size() > 0 && z.chance(0.2)) { auto &h = held[z.below(held.size())]; std::string d = diff(h.first, *h.second); if (!d.empty()) violation("held-field-changed", "thread %d: %s", t, d.c_str()); }
    }
    for (auto &h : held) { std::string d = diff(h.first, *h.second); if (!d.empty()) violation("held-field-changed", "thread %d: %s", t, d.c_str()); }
  };
  std::vector<Thread> th;
  for (int t = 0; t < nt; t++) th.push_back(spawn([&, t] { body(t); }));
  for (auto &t : th) join(t);
  for (int t = 0; t < 6; t++) if (cacheMem(t) != 0) violation("cache-not-empty", "the field cache reports %lld bytes of type %s when no field exists", cacheMem(t), typeName(t));
}

//---------------------------------------------------------------------------
// Many threads sharing reference-counted objects.
namespace {
int g_alive, g_made, g_gone;
struct Probe : public F::DenseField<float> {
  typedef boost::intrusive_ptr<Probe> Ptr;
  uint64_t tag;
  Probe(uint64_t t) : tag(t) { Quiet q; g_made++; g_alive++; }
  Probe(const Probe &o) : F::DenseField<float>(o), tag(o.tag) { Quiet q; g_made++; g_alive++; }
  ~Probe() { if (tag == 0) violation("destroyed-twice", "a field was destroyed twice"); Quiet q; tag = 0; g_gone++; g_alive--; }
  virtual F::FieldBase::Ptr clone() const { return Ptr(new Probe(*this)); }
};
struct ProbeMap : public F::NullFieldMapping {
  uint64_t tag;
  ProbeMap(uint64_t t) : tag(t) { Quiet q; g_made++; g_alive++; }
  ProbeMap(const ProbeMap &o) : F::NullFieldMapping(o), tag(o.tag) { Quiet q; g_made++; g_alive++; }
  ~ProbeMap() { if (tag == 0) violation("destroyed-twice", "a mapping was destroyed twice"); Quiet q; tag = 0; g_gone++; g_alive--; }
  virtual F::FieldMapping::Ptr clone() const { return F::FieldMapping::Ptr(new ProbeMap(*this)); }
};
}

WORKLOAD(R01, shared_objects) {
  Rng &r = wl_rng();
  race_checks(true);
  init(1);
  g_alive = g_made = g_gone = 0;
  int nt = r.range(2, 4), no = r.range(1, 3), nm = r.range(1, 2);
  bool wrap = r.chance(0.3);
  // weak references to objects that may go at any time, and slots that threads share
  struct Weak { F::RefBase::WeakPtr w; uint64_t tag; };
  std::vector<Weak> weak;
  std::vector<F::FieldBase::Ptr> slot(2);
  pthread_mutex_t slotM = PTHREAD_MUTEX_INITIALIZER;
  std::vector<std::vector<Probe::Ptr> > mine(nt);
  std::vector<F::FieldMapping::Ptr> maps;
  for (int i = 0; i < nm; i++) maps.push_back(F::FieldMapping::Ptr(new ProbeMap(500 + i)));
  for (int i = 0; i < no; i++) {
    Probe::Ptr p(new Probe(1000 + i));
    p->setSize(F::V3i(1, 1, 1)); p->fastLValue(0, 0, 0) = 1000 + i;
    p->name = "p"; p->attribute = "a";
    p->setMapping(maps[r.below(nm)]);
    Weak w; w.w = p->weakPtr(); w.tag = 1000 + i; weak.push_back(w);
    F::FieldCache<float>::singleton().cacheField(p, "/sim/none", std::to_string(i));
    for (int t = 0; t < nt; t++) if (r.chance(0.8)) mine[t].push_back(p);
  }
  std::vector<std::vector<F::FieldMapping::Ptr> > mymaps(nt, maps);
  maps.clear();
  std::vector<Rng> seeds; for (int t = 0; t < nt; t++) seeds.push_back(r.fork());
  describe("%d threads, %d fields, %d mappings ", nt, no, nm);
  set_nontrivial(true);
  auto look = [](F::FieldBase *b, const char *how) {
    Probe *p = static_cast<Probe *>(b);
    uint64_t tag = p->tag;
    if (tag < 1000 || p->fastValue(0, 0, 0) != (float)tag || p->name != "p") violation("dead-object", "%s gives an object that is gone or altered (tag %llu)", how, (unsigned long long)tag);
    F::FieldMapping::Ptr m = p->mapping();
    if (m && static_cast<ProbeMap *>(m.get())->tag < 500) violation("dead-object", "%s: the field's mapping is gone", how);
  };
  auto body = [&](int t) {
    Rng q = seeds[t];
    std::vector<F::FieldBase::Ptr> have; for (auto &p : mine[t]) have.push_back(p);
    mine[t].clear();
    std::vector<F::FieldMapping::Ptr> hm; hm.swap(mymaps[t]);
    int n = q.range(3, 14);
    for (int k = 0; k < n; k++) {
      Rng z = q.fork();
      if (!op_enabled(100 + t * 20 + k)) continue;
      switch (z.below(10)) {
        case 0: if (have.size()) { F::FieldBase::Ptr c = have[z.below(have.size())]; have.push_back(c); } break;
        case 1: case 2: if (have.size()) have.erase(have.begin() + z.below(have.size())); break;
        case 3: if (have.size() > 1) have[z.below(have.size())] = have[z.below(have.size())]; break;
        case 4: { Lock l(slotM); int i = z.below(2); F::FieldBase::Ptr p = slot[i]; if (p) have.push_back(p); break; }
        case 5: { F::FieldBase::Ptr old; { Lock l(slotM); int i = z.below(2); old = slot[i]; slot[i] = have.size() ? have[z.below(have.size())] : F::FieldBase::Ptr(); } break; }
        case 6: if (have.size()) {
          F::FieldBase::Ptr p = have[z.below(have.size())];
          F::DenseField<float>::Ptr d = F::field_dynamic_cast<F::DenseField<float> >(p);
          if (!d) violation("cast-failed", "field_dynamic_cast to the object's class gives nothing");
          if (F::field_dynamic_cast<F::SparseField<float> >(p)) violation("cast-failed", "field_dynamic_cast to another class succeeds");
          have.push_back(d);
          break; }
        case 7: if (have.size()) {
          // a clone is an object of its own, also for those who hold it weakly
          F::FieldBase::Ptr p = have[z.below(have.size())], c = p->clone();
          look(c.get(), "clone()");
          F::RefBase::WeakPtr w = c->weakPtr();
          if (z.chance(0.5)) have.clear();
          p.reset();
          { F::RefBase::WeakPtr w2 = w; if (w2.expired()) violation("weak-wrong", "a weak reference to a live clone has expired"); }
          if (w.lock().get() != c.get()) violation("weak-wrong", "the weak reference of a clone leads to another object");
          if (z.chance(0.5)) have.push_back(c); else { c.reset(); if (!w.expired()) violation("weak-wrong", "a weak reference outlives its object"); }
          break; }
        case 8: {
          int i = z.below(no);
          F::Field<float>::Ptr p = F::FieldCache<float>::singleton().getCachedField("/sim/none", std::to_string(i));
          if (p) { look(p.get(), "a weak reference"); probe("revived from a weak reference"); if (static_cast<Probe *>(p.get())->tag != weak[i].tag) violation("weak-wrong", "a weak reference leads to another object"); have.push_back(p); }
          else for (auto &h : have) if (static_cast<Probe *>(h.get())->tag == weak[i].tag && h->weakPtr().lock() == weak[i].w.lock() && h->weakPtr().lock()) violation("weak-wrong", "no object through the weak reference although this thread holds it");
          break; }
        case 9: {
          if (hm.empty()) break;
          F::FieldMapping::Ptr m = hm[z.below(hm.size())];
          if (z.chance(0.4)) {
            F::FieldMapping::Ptr c = m->clone();
            F::RefBase::WeakPtr w = c->weakPtr();
            if (w.expired() || w.lock().get() != c.get()) violation("weak-wrong", "the weak reference of a copied mapping leads to another object");
            if (z.chance(0.4)) { c.reset(); if (!w.expired()) violation("weak-wrong", "a weak reference outlives its mapping"); }
            else m = c;
          }
          if (z.chance(0.3)) {
            // assigning values leaves who owns what alone
            Probe::Ptr a(new Probe(3000 + t)), b(new Probe(4000 + t)); a->setSize(F::V3i(1, 1, 1)); b->setSize(F::V3i(1, 1, 1));
            F::RefBase::WeakPtr wa = a->weakPtr(), wb = b->weakPtr();
            F::FieldBase::Ptr a2 = a;
            *a = *b;
            if (a->refcnt() != 2 || b->refcnt() != 1) violation("count-assigned", "assigning one field to another left %zu and %zu owners, there are 2 and 1", a->refcnt(), b->refcnt());
            if (wa.lock().get() != a.get() || a->weakPtr().lock().get() != a.get() || wb.lock().get() != b.get()) violation("weak-wrong", "after an assignment a weak reference leads to another object");
            b.reset(); if (!wb.expired()) violation("weak-wrong", "a weak reference outlives its object (after an assignment)");
            if (wa.expired()) violation("weak-wrong", "after an assignment a weak reference to a live object has expired");
          }
          Probe::Ptr p(new Probe(2000 + t)); p->setSize(F::V3i(1, 1, 1)); p->fastLValue(0, 0, 0) = 2000 + t; p->name = "p"; p->setMapping(m);
          have.push_back(p);
          if (z.chance(0.5)) hm.erase(hm.begin() + z.below(hm.size()));
          break; }
      }
      if (wrap && have.size() && z.chance(0.3)) { F::FieldBase::Ptr p = have[z.below(have.size())]; have.push_back(F::FieldBase::Ptr(p.get())); }
      if (have.size()) look(have[z.below(have.size())].get(), "a pointer this thread holds");
    }
  };
  std::vector<Thread> th;
  for (int t = 0; t < nt; t++) th.push_back(spawn([&, t] { body(t); }));
  for (auto &t : th) join(t);
  for (auto &p : slot) p.reset();
  if (g_alive) violation("not-destroyed", "%d of %d objects still exist after their last owner is gone", g_alive, g_made);
  for (auto &w : weak) if (!w.w.expired()) violation("weak-wrong", "a weak reference outlives its object");
  for (int i = 0; i < no; i++) if (F::FieldCache<float>::singleton().getCachedField("/sim/none", std::to_string(i))) violation("weak-wrong", "the cache returns a field that is gone");
}

//---------------------------------------------------------------------------
// First use of everything, from several threads at once, in a fresh process.
// Plug-ins come from a simulated directory.
namespace {
int g_plugins, g_plugged; bool g_plugdir;
struct PlugMapping0 : public F::NullFieldMapping { static F::FieldMapping::Ptr create() { return F::FieldMapping::Ptr(new PlugMapping0); } virtual std::string className() const { return "PlugMapping0"; } };
struct PlugMapping1 : public F::NullFieldMapping { static F::FieldMapping::Ptr create() { return F::FieldMapping::Ptr(new PlugMapping1); } virtual std::string className() const { return "PlugMapping1"; } };
struct PlugField : public F::DenseField<float> { static F::FieldRes::Ptr create() { return F::FieldRes::Ptr(new PlugField); } virtual std::string className() const { return "PlugField"; } };
int plug0(F::ClassFactory &f) { f.registerFieldMapping(PlugMapping0::create); g_plugged++; return 1; }
int plug1(F::ClassFactory &f) { f.registerFieldMapping(PlugMapping1::create); f.registerField(PlugField::create); g_plugged++; return 1; }
int g_dirpos; struct dirent g_ent;
}
extern "C" {
DIR *sim_opendir(const char *p) { if (strcmp(p, "/sim/plugins")) return opendir(p); if (!g_plugdir) return 0; g_dirpos = 0; return (DIR *)&g_ent; }
struct dirent *sim_readdir(DIR *d) {
  if (d != (DIR *)&g_ent) return readdir(d);
  memset(&g_ent, 0, sizeof g_ent);
  int i = g_dirpos++;
  if (i >= g_plugins + 1) return 0;
  if (i == g_plugins) strcpy(g_ent.d_name, "readme.txt"); else snprintf(g_ent.d_name, sizeof g_ent.d_name, "plug%d.so", i);
  return &g_ent;
}
int sim_closedir(DIR *d) { return d == (DIR *)&g_ent ? 0 : closedir(d); }
void *sim_dlopen(const char *p, int fl) { if (p && !strcmp(p, "/sim/plugins/plug0.so")) return (void *)plug0; if (p && !strcmp(p, "/sim/plugins/plug1.so")) return (void *)plug1; return 0; }
void *sim_dlsym(void *h, const char *n) { return (h == (void *)plug0 || h == (void *)plug1) && !strcmp(n, "registerField3DPlugin") ? h : 0; }
}

WORKLOAD(I01, first_use) {
  Rng &r = wl_rng();
  quietLog();
  int nt = r.range(2, 4);
  g_plugdir = r.chance(0.5); g_plugins = r.range(0, 2); g_plugged = 0;
  if (g_plugdir) { setenv("FIELD3D_DSO_PATH", r.chance(0.3) ? "/sim/nothing:/sim/plugins" : "/sim/plugins", 1); describe("%d plug-ins, ", g_plugins); } else unsetenv("FIELD3D_DSO_PATH");
  FileOpt o; o.maxLayers = 1; o.h5_ok = false; o.g.max_blocks = 3; o.g.max_bo = 1; o.g.meta = false;
  bool allH5 = r.chance(0.3);
  struct T { Rng q; FileSpec f; int first[4]; int n; void *fac, *man; T() : fac(0), man(0) {} };
  std::vector<T> ts(nt);
  int setter = r.range(-1, nt - 1);
  for (int t = 0; t < nt; t++) {
    // (building a spec does not touch the library's services)
    ts[t].f = genFile(r, o, t * 10); ts[t].f.h5 = allH5;
    if (allH5) for (auto &l : ts[t].f.layers) if (l.attr.empty()) l.attr = "x";
    ts[t].q = r.fork(); ts[t].n = r.range(1, 4);
    for (int k = 0; k < 4; k++) ts[t].first[k] = r.range(0, 5);
  }
  { bool sets = false; if (setter >= 0) for (int k = 0; k < ts[setter].n; k++) if (ts[setter].first[k] == 4) sets = true;
    bool lazy = sets; for (auto &t : ts) for (auto &l : t.f.layers) if (l.kind >= MIPDENSE) lazy = true;
    race_checks(!lazy); }
  if (allH5) useHdf5(true);
  describe(" %d threads%s", nt, allH5 ? " HDF5" : "");
  set_nontrivial(true);
  auto fac = [&](T &s, void *p) { if (s.fac && s.fac != p) violation("two-instances", "ClassFactory::singleton() gives two different instances"); s.fac = p; };
  auto man = [&](T &s, void *p) { if (s.man && s.man != p) violation("two-instances", "SparseFileManager::singleton() gives two different instances"); s.man = p; };
  auto plugged = [&](F::ClassFactory &c, const char *when) {
    int want = g_plugdir ? g_plugins : 0;
    if ((want > 0) != (bool)c.createFieldMapping("PlugMapping0") || (want > 1) != (bool)c.createFieldMapping("PlugMapping1") || (want > 1) != (bool)c.createField("PlugField<float>"))
      violation("plugin-lost", "%s: %d plug-ins are there, their classes are not (or others are)", when, want);
  };
  auto body = [&](int t) {
    T &s = ts[t];
    char path[64]; snprintf(path, sizeof path, "/sim/i%d.f3d", t);
    for (int k = 0; k < s.n; k++) if (op_enabled(100 + t * 10 + k)) switch (s.first[k]) {
      case 0: { F::ClassFactory &c = F::ClassFactory::singleton(); fac(s, &c); plugged(c, "through the class factory"); break; }
      case 1: man(s, &mgr()); if (mgr().numLoadedBlocks() < 0) violation("wrong-statistics", "a negative number of blocks is loaded"); break;
      case 2: if (cacheMem(s.q.below(6)) < 0) violation("wrong-statistics", "negative memory use of the field cache"); break;
      case 3: { F::initIO(); fac(s, &F::ClassFactory::singleton()); if (!F::ClassFactory::singleton().createFieldIO("DenseField") || !F::ClassFactory::singleton().createFieldMappingIO("MatrixFieldMapping")) violation("not-initialised", "a class is not registered after initIO()"); break; }
      case 4: if (t == setter) { man(s, &mgr()); mgr().setLimitMemUse(true); mgr().setMaxMemUse(7.0f); } break;
      case 5: { F::SparseField<float>::Ptr f(new F::SparseField<float>); f->setBlockOrder(1); f->setSize(F::V3i(2)); f->fastLValue(1, 1, 1) = 3; if (f->fastValue(1, 1, 1) != 3) violation("wrong-data", "a fresh field"); break; }
    }
    F::initIO();
    fac(s, &F::ClassFactory::singleton()); man(s, &mgr());
    { F::Field3DOutputFile out; if (!writeSpec(out, path, s.f, false)) violation("write-failed", "thread %d: writing reported failure", t); }
    F::Field3DInputFile in;
    if (!in.open(path)) violation("file-rejected", "thread %d: its own file is rejected", t);
    for (int k = 0; k < 2; k++) { Rng z = s.q.fork(); if (op_enabled(200 + t * 10 + k)) readOp(z, in, s.f); }
  };
  std::vector<Thread> th;
  for (int t = 0; t < nt; t++) th.push_back(spawn([&, t] { body(t); }));
  for (auto &t : th) join(t);
  for (int t = 1; t < nt; t++) {
    if (ts[t].fac != ts[0].fac) violation("two-instances", "two threads were given different class factories");
    if (ts[t].man != ts[0].man) violation("two-instances", "two threads were given different block cache managers");
  }
  plugged(F::ClassFactory::singleton(), "after start-up");
  if (g_plugged != (g_plugdir ? g_plugins : 0)) violation("plugin-twice", "%d plug-ins were registered, there are %d", g_plugged, g_plugins);
  bool set = false; if (setter >= 0) for (int k = 0; k < ts[setter].n; k++) if (ts[setter].first[k] == 4 && op_enabled(100 + setter * 10 + k)) set = true;
  if (mgr().doLimitMemUse() != set) violation("setting-lost", "the memory limit is %s", set ? "not switched on any more" : "on although nobody switched it on");
}
