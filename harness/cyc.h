// Cyclus-side helpers shared by the drivers.
#ifndef VF_CYC_H_
#define VF_CYC_H_
#include "cyclus.h"
#include "env.h"
#include "timer.h"
#include "sqlite_back.h"
#include "rec_backend.h"
#include "vf.h"

namespace vf {

typedef cyclus::Composition::Ptr Comp;
typedef cyclus::Material::Ptr Mat;
typedef cyclus::Product::Ptr Prod;

// One recorded row, values kept as delivered.
struct Row {
  std::string table;
  std::vector<std::string> fields;
  std::vector<boost::spirit::hold_any> vals;
  bool has(const std::string& f) const {
    for (auto& x : fields) if (x == f) return true;
    return false;
  }
  template <class T> T get(const std::string& f) const {
    for (size_t i = 0; i < fields.size(); i++)
      if (fields[i] == f) {
        boost::spirit::hold_any v = vals[i];
        return v.cast<T>();
      }
    throw std::runtime_error("row of " + table + " has no field " + f);
  }
  int i(const std::string& f) const { return get<int>(f); }
  double d(const std::string& f) const { return get<double>(f); }
  std::string s(const std::string& f) const { return get<std::string>(f); }
};

// Backend that keeps every datum it is notified of.
class MemBack : public cyclus::RecBackend {
 public:
  std::vector<Row> rows;
  int flushes = 0, notifies = 0;
  virtual void Notify(cyclus::DatumList data) {
    notifies++;
    for (auto* d : data) {
      Row r;
      r.table = d->title();
      r.fields.assign(d->fields().begin(), d->fields().end());
      for (auto& v : d->vals()) r.vals.push_back(v.second);
      rows.push_back(r);
    }
  }
  virtual std::string Name() { return "vf-memory"; }
  virtual void Flush() { flushes++; }
  virtual void Close() {}
  std::vector<const Row*> table(const std::string& t) const {
    std::vector<const Row*> o;
    for (auto& r : rows) if (r.table == t) o.push_back(&r);
    return o;
  }
};

// A minimal facility; scripts hang on it.
class Fac : public cyclus::Facility {
 public:
  explicit Fac(cyclus::Context* ctx) : cyclus::Facility(ctx) {
    cyclus::Agent::prototype("vf_fac");
    cyclus::Agent::spec("vf:fac");
  }
  virtual ~Fac() {}
  virtual cyclus::Agent* Clone() { Fac* f = new Fac(context()); f->InitFrom(this); return f; }
  void InitFrom(Fac* o) { cyclus::Facility::InitFrom(o); }
  using cyclus::Facility::InitFrom;
  virtual void InitInv(cyclus::Inventories& inv) {}
  virtual cyclus::Inventories SnapshotInv() { return cyclus::Inventories(); }
  virtual void Tick() {}
  virtual void Tock() {}
};

class Clock : public cyclus::Context {
 public:
  int t = 0;
  Clock(cyclus::Timer* ti, cyclus::Recorder* rec) : cyclus::Context(ti, rec) {}
  virtual int time() { return t; }
};

// A context of its own with a clock the harness sets and a recording backend.
struct Sim {
  cyclus::Timer ti;
  cyclus::Recorder rec;
  MemBack back;
  Clock* ctx;
  explicit Sim(unsigned dump = 64) : rec(dump) {
    rec.RegisterBackend(&back);
    ctx = new Clock(&ti, &rec);
  }
  // decay never: no decay data in this environment, and lazy decay is off
  void init(int dur = 100, std::string decay = "never") {
    cyclus::SimInfo si(dur, 2010, 1, "", decay);
    si.eps = cyclus::cy_eps;
    si.eps_rsrc = cyclus::cy_eps_rsrc;
    si.parent_sim = boost::uuids::nil_uuid();
    si.parent_type = "init";
    si.branch_time = -1;
    ctx->InitSim(si);
  }
  ~Sim() { delete ctx; rec.Close(); }
};

inline const std::vector<int>& nuc_pool() {
  static std::vector<int> v = {10010000, 10030000, 80160000, 551370000, 541350000, 922350000, 922380000,
                               922380001, 942390000, 942410000, 952410000, 952420001, 40090000, 380900000};
  return v;
}

inline cyclus::CompMap random_compmap(Rng& r, int maxn = 6) {
  cyclus::CompMap m;
  int n = r.range(1, maxn);
  for (int i = 0; i < n; i++) {
    double v = r.chance(0.3) ? r.range(1, 9) : r.logreal(1e-4, 1e3);
    m[r.pick(nuc_pool())] = v;
  }
  return m;
}
inline Comp random_comp(Rng& r, int maxn = 6) { return cyclus::Composition::CreateFromMass(random_compmap(r, maxn)); }

// a quantity from a mix of round and awkward values
inline double random_qty(Rng& r) {
  switch (r.below(6)) {
    case 0: return r.range(1, 20);
    case 1: return r.range(1, 100) * 0.25;
    case 2: return r.real(0.01, 10);
    case 3: return r.logreal(1e-3, 1e6);
    case 4: return r.range(1, 50) * 0.1;
    default: return r.real(1, 1000);
  }
}

inline double sum(const cyclus::CompMap& m) { double s = 0; for (auto& p : m) s += p.second; return s; }

// nuclide masses of q kg of a composition
inline std::map<int, double> nuc_mass(const cyclus::CompMap& m, double q) {
  std::map<int, double> o;
  double s = sum(m);
  if (s == 0) return o;
  for (auto& p : m) o[p.first] = p.second / s * q;
  return o;
}

}  // namespace vf
#endif
