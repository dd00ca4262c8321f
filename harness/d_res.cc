// C01: resource arithmetic against a reference model.
// C02: every resource state change appears exactly once in the recorded ledger.
#include "cyc.h"
#include "comp_math.h"

using namespace cyclus;
using namespace vf;

namespace {

struct Obj {
  Resource::Ptr r;
  Mat m;
  Prod p;
  // model
  double qty = 0;
  double tol = 0;                // absolute uncertainty of the nuclide masses
  std::map<int, double> nucs;    // kg, materials only
  std::string quality, package;
  bool tracked = false;
  bool stale = false;            // emptied or absorbed: its last recorded state is history
  int state = 0, obj = 0, pdt = 0;
  int pdt_alt = 0;               // also acceptable (equal-mass absorption)
  std::string name;
};

struct World {
  Rng& r;
  Sim sim;
  Fac* fac;
  std::vector<Fac*> facs;
  std::vector<Obj> objs;
  bool ledger;
  size_t seen = 0;
  std::map<int, const Row*> states;        // ResourceId -> row
  std::map<int, std::map<int, double> > comps;
  std::map<int, int> infos;
  std::map<int, int> creators;
  std::map<int, std::string> products;
  std::vector<Row> keep;
  int n = 0;
  std::vector<std::string> quals;
  std::vector<std::pair<std::string, std::pair<double, double> > > pkgs;

  World(Rng& rr, bool l) : r(rr), sim(rr.range(1, 40)), ledger(l) {
    sim.init();
    for (int i = 0; i < 3; i++) facs.push_back(new Fac(sim.ctx));
    fac = facs[0];
    static long uniq = 0;
    for (int i = 0; i < 3; i++) quals.push_back(Fmt() << "q" << ++uniq);
    for (int i = 0; i < 3; i++) {
      double lo = r.chance(0.3) ? 0.0 : r.real(0.1, 5);
      double hi = lo + r.real(0.5, 20);
      std::string nm = Fmt() << "pkg" << i;
      sim.ctx->AddPackage(nm, lo, hi, "first");
      pkgs.push_back(std::make_pair(nm, std::make_pair(lo, hi)));
    }
    sim.rec.Flush();
    seen = sim.back.rows.size();
  }
  ~World() {
    objs.clear();
  }

  std::string nm() { return Fmt() << "r" << n++; }

  void check_obj(Obj& o, const std::string& op) {
    double q = o.r->quantity();
    VF_CHECK(close(q, o.qty, 1e-12, 1e-12), op << ": quantity of " << o.name << " is " << q << ", expected " << o.qty);
    VF_CHECK(o.r->obj_id() == o.obj, op << ": object id of " << o.name << " changed");
    VF_CHECK(o.r->package_name() == o.package, op << ": package of " << o.name << " is " << o.r->package_name() << ", expected " << o.package);
    if (o.m) {
      Comp c = o.m->comp();
      std::map<int, double> have = nuc_mass(c->mass(), q);
      double t = 1e-9 * std::max(1.0, std::fabs(o.qty)) + o.tol;
      std::set<int> ks;
      for (auto& x : have) ks.insert(x.first);
      for (auto& x : o.nucs) ks.insert(x.first);
      // a material emptied to rounding has no meaningful composition
      if (o.qty > 10 * eps_rsrc()) {
        for (int k : ks) {
          double a = have.count(k) ? have[k] : 0, b = o.nucs.count(k) ? o.nucs[k] : 0;
          VF_CHECK(std::fabs(a - b) <= t, op << ": " << o.name << " holds " << a << " kg of " << k << ", expected " << b);
        }
      }
      for (auto& x : c->mass()) VF_CHECK(x.second >= 0, op << ": negative nuclide " << x.first << " in " << o.name);
    } else {
      VF_CHECK(o.p->quality() == o.quality, op << ": quality of " << o.name << " changed");
    }
  }

  void check_all(const std::string& op) {
    for (auto& o : objs) check_obj(o, op);
    count("model_comparisons", objs.size());
  }

  // rows that arrived since the last call
  std::vector<const Row*> fresh() {
    sim.rec.Flush();
    std::vector<const Row*> out;
    for (; seen < sim.back.rows.size(); seen++) out.push_back(&sim.back.rows[seen]);
    return out;
  }

  struct Expect {
    int idx;
    int p1, p2;
    bool optional, created;
  };

  void check_ledger(const std::string& op, const std::vector<Expect>& ex) {
    if (!ledger) {
      for (auto& e : ex) objs[e.idx].state = objs[e.idx].r->state_id();
      return;
    }
    sim.rec.Flush();
    std::map<int, Row> rows;
    for (; seen < sim.back.rows.size(); seen++) {
      const Row& w = sim.back.rows[seen];
      if (w.table == "Resources") {
        int id = w.i("ResourceId");
        count("ledger_rows");
        VF_CHECK(!rows.count(id) && !known.count(id), op << ": resource state " << id << " recorded twice");
        rows[id] = w;
      } else if (w.table == "Compositions") {
        int q = w.i("QualId"), nuc = w.i("NucId");
        VF_CHECK(!comps[q].count(nuc), op << ": nuclide " << nuc << " of composition " << q << " recorded twice");
        comps[q][nuc] = w.d("MassFrac");
      } else if (w.table == "MaterialInfo") {
        int id = w.i("ResourceId");
        VF_CHECK(!infos.count(id), op << ": MaterialInfo of state " << id << " recorded twice");
        infos[id] = w.i("PrevDecayTime");
      } else if (w.table == "ResCreators") {
        int id = w.i("ResourceId");
        VF_CHECK(!creators.count(id), op << ": creator of state " << id << " recorded twice");
        creators[id] = w.i("AgentId");
      } else if (w.table == "Products") {
        products[w.i("QualId")] = w.s("Quality");
      }
    }
    std::set<int> used;
    for (auto& e : ex) {
      Obj& o = objs[e.idx];
      int id = o.r->state_id();
      if (!rows.count(id)) {
        if (e.optional && id == o.state) continue;
        fail(Fmt() << op << ": the new state " << id << " of " << o.name << " (was " << o.state << ") was not recorded");
      }
      VF_CHECK(!known.count(id), op << ": " << o.name << " reuses state id " << id);
      const Row& w = rows[id];
      used.insert(id);
      VF_CHECK(w.i("ObjId") == o.obj, op << ": state " << id << " recorded for object " << w.i("ObjId") << ", is " << o.obj);
      VF_CHECK(close(w.d("Quantity"), o.qty, 1e-12, 1e-12), op << ": state " << id << " recorded with quantity " << w.d("Quantity") << ", is " << o.qty);
      VF_CHECK(w.i("TimeCreated") == sim.ctx->time(), op << ": state " << id << " recorded at time " << w.i("TimeCreated"));
      VF_CHECK(w.s("Type") == (o.m ? "Material" : "Product"), op << ": state " << id << " has type " << w.s("Type"));
      VF_CHECK(w.s("Units") == o.r->units(), op << ": units " << w.s("Units"));
      VF_CHECK(w.i("QualId") == o.r->qual_id(), op << ": state " << id << " has QualId " << w.i("QualId") << ", is " << o.r->qual_id());
      VF_CHECK(w.s("PackageName") == o.package, op << ": state " << id << " has package " << w.s("PackageName") << ", is " << o.package);
      VF_CHECK(w.i("Parent1") == e.p1 && w.i("Parent2") == e.p2,
               op << ": state " << id << " has parents " << w.i("Parent1") << "," << w.i("Parent2") << ", expected " << e.p1 << "," << e.p2);
      if (e.created) {
        VF_CHECK(creators.count(id) && creators[id] == fac->id(), op << ": creator of state " << id << " missing or wrong");
      } else {
        VF_CHECK(!creators.count(id), op << ": state " << id << " has a creator but was derived");
        VF_CHECK(known.count(e.p1), op << ": parent " << e.p1 << " was never recorded");
        if (e.p2) VF_CHECK(known.count(e.p2), op << ": parent " << e.p2 << " was never recorded");
      }
      if (o.m) {
        VF_CHECK(infos.count(id), op << ": no MaterialInfo for state " << id);
        VF_CHECK(infos[id] == o.pdt || infos[id] == o.pdt_alt, op << ": state " << id << " recorded decay time " << infos[id] << ", expected " << o.pdt);
        VF_CHECK(o.m->prev_decay_time() == infos[id], op << ": decay time of state " << id);
        int q = w.i("QualId");
        if (o.qty > 10 * eps_rsrc()) {
        VF_CHECK(comps.count(q) || o.m->comp()->mass().empty(), op << ": composition " << q << " was not recorded");
        std::map<int, double> want = nuc_mass(o.m->comp()->mass(), 1);
        std::map<int, double>& have = comps[q];
        VF_CHECK(have.size() == want.size(), op << ": composition " << q << " recorded with " << have.size() << " nuclides, has " << want.size());
        for (auto& x : want)
          VF_CHECK(have.count(x.first) && close(have[x.first], x.second, 1e-9, 1e-12), op << ": composition " << q << " fraction of " << x.first);
        }
      } else {
        VF_CHECK(products.count(w.i("QualId")) && products[w.i("QualId")] == o.quality, op << ": quality of state " << id << " not in Products");
      }
      o.state = id;
      o.pdt = o.m ? o.m->prev_decay_time() : 0;
      o.pdt_alt = o.pdt;
    }
    for (auto& w : rows) {
      VF_CHECK(used.count(w.first), op << ": unexpected ledger row for state " << w.first << " of object " << w.second.i("ObjId"));
      known.insert(w.first);
    }
    for (auto& o : objs) {
      bool touched = false;
      for (auto& e : ex) touched |= (&objs[e.idx] == &o);
      if (o.tracked && !touched)
        VF_CHECK(o.r->state_id() == o.state, op << ": state id of " << o.name << " moved from " << o.state << " to " << o.r->state_id() << " without an event");
    }
  }
  std::set<int> known;

  int add(Obj o) {
    o.name = nm();
    o.r = o.m ? boost::static_pointer_cast<Resource>(o.m) : boost::static_pointer_cast<Resource>(o.p);
    o.obj = o.r->obj_id();
    for (auto& x : objs) VF_CHECK(x.obj != o.obj || x.name == o.name || !x.tracked || !o.tracked, "two resources share object id " << o.obj);
    o.state = o.r->state_id();
    objs.push_back(o);
    return objs.size() - 1;
  }

  int mat_idx(bool tracked_only) {
    std::vector<int> c;
    for (size_t i = 0; i < objs.size(); i++) if (objs[i].m && (!tracked_only || objs[i].tracked)) c.push_back(i);
    return c.empty() ? -1 : r.pick(c);
  }
  int prod_idx() {
    std::vector<int> c;
    for (size_t i = 0; i < objs.size(); i++) if (objs[i].p) c.push_back(i);
    return c.empty() ? -1 : r.pick(c);
  }
  int any_idx() { return objs.empty() ? -1 : r.below(objs.size()); }

  void create() {
    bool tracked = ledger ? !r.chance(0.1) : r.chance(0.6);
    double q = random_qty(r);
    if (r.chance(0.15)) { auto& pk = r.pick(pkgs).second; q = r.chance(0.5) ? pk.first : pk.second; }
    if (r.chance(0.03)) q = 0;
    fac = r.pick(facs);
    Obj o;
    o.tracked = tracked;
    o.qty = q;
    o.package = Package::unpackaged_name();
    if (r.chance(0.65)) {
      CompMap cm = random_compmap(r);
      Comp c = Composition::CreateFromMass(cm);
      if (tracked) {
        o.m = Material::Create(fac, q, c);
      } else {
        o.m = Material::CreateUntracked(q, c);
      }
      o.nucs = nuc_mass(cm, q);
      o.pdt = o.pdt_alt = tracked ? sim.ctx->time() : 0;
    } else {
      o.quality = r.pick(quals);
      o.p = tracked ? Product::Create(fac, q, o.quality) : Product::CreateUntracked(q, o.quality);
    }
    int i = add(o);
    std::string op = Fmt() << "create " << objs[i].name << " qty " << q << (tracked ? " tracked" : " untracked");
    trace(op);
    check_all(op);
    if (tracked) check_ledger(op, {{i, 0, 0, false, true}});
    else check_ledger(op, {});
    count("op_create");
  }

  void clone() {
    int i = any_idx();
    if (i < 0) return;
    Obj& s = objs[i];
    Obj o = s;
    o.tracked = false;
    Resource::Ptr c = s.r->Clone();
    if (s.m) o.m = ResCast<Material>(c); else o.p = ResCast<Product>(c);
    std::string sn = s.name;
    o.name = nm();
    o.r = c;
    o.state = c->state_id();
    objs.push_back(o);
    std::string op = Fmt() << "clone " << sn << " -> " << objs.back().name;
    trace(op);
    check_all(op);
    check_ledger(op, {});
    count("op_clone");
  }

  double part(double q) {
    switch (r.below(6)) {
      case 0: return q;
      case 1: return q * 0.5;
      case 2: return q * r.logreal(1e-6, 1);
      case 3: return std::min(q, std::floor(q));
      case 4: return std::max(0.0, q - eps_rsrc() * r.real(0.1, 3));
      default: return q * r.unit();
    }
  }

  void extract() {
    int i = any_idx();
    if (i < 0) return;
    bool viares = r.chance(0.3);
    double q = part(objs[i].qty);
    bool over = r.chance(0.15);
    if (over) {
      double have = objs[i].r->quantity();
      switch (r.below(4)) {
        case 0: q = std::nextafter(have, 1e300); break;
        case 1: q = std::max(std::nextafter(have, 1e300), have + eps_rsrc() * r.real(0.001, 2)); break;
        case 2: q = have * (1 + r.logreal(1e-12, 1e-4)) + 1e-12; break;
        default: q = have * r.real(1.0001, 2) + 1e-3;
      }
      if (!(q > have)) over = false;
    }
    Obj& s = objs[i];
    std::string op = Fmt() << "extract " << q << " of " << s.qty << " from " << s.name << (over ? " (too much)" : "");
    trace(op);
    Resource::Ptr got;
    bool threw = false;
    try {
      if (viares) got = s.r->ExtractRes(q);
      else if (s.m) got = s.m->ExtractQty(q);
      else got = s.p->Extract(q);
    } catch (ValueError&) { threw = true; }
    if (over) {
      VF_CHECK(threw, op << ": extracting more than is there did not fail");
      check_all(op);
      check_ledger(op, {});
      count("op_extract_rejected");
      return;
    }
    VF_CHECK(!threw, op << ": failed");
    take(i, got, q, op);
    count("op_extract");
  }

  // model effect of moving q of objs[i] into the new resource got, same quality
  void take(int i, Resource::Ptr got, double q, const std::string& op, bool pkg = false, std::string pkgname = "") {
    Obj& s = objs[i];
    Obj o;
    o.tracked = s.tracked;
    o.qty = q;
    o.pdt = o.pdt_alt = s.pdt;
    o.quality = s.quality;
    o.package = pkg ? pkgname : (s.m ? Package::unpackaged_name() : s.package);
    double f = s.qty > 0 ? q / s.qty : 0;
    for (auto& x : s.nucs) o.nucs[x.first] = x.second * f;
    o.tol = s.tol;
    for (auto& x : s.nucs) x.second *= (1 - f);
    if (s.m) o.m = ResCast<Material>(got); else o.p = ResCast<Product>(got);
    int old = s.state;
    bool rem = s.qty - q > eps_rsrc();
    bool amb = std::fabs(s.qty - q - eps_rsrc()) < 1e-12 * std::max(1.0, s.qty) + 1e-15;
    s.qty -= q;
    if (!rem) s.stale = true;
    bool tracked = s.tracked;
    int j = add(o);
    check_all(op);
    VF_CHECK(objs[j].obj != objs[i].obj, op << ": the extracted resource shares the object id of its source");
    if (tracked) {
      std::vector<Expect> ex;
      ex.push_back({j, old, 0, false, false});
      ex.push_back({i, old, 0, !rem || amb, false});
      check_ledger(op, ex);
    } else {
      check_ledger(op, {});
    }
  }

  void extract_comp() {
    int i = mat_idx(false);
    if (i < 0) return;
    Obj& s = objs[i];
    if (s.qty < 1e-3) return;
    // a target composition made of nuclides that are there, an amount that fits
    // or (sometimes) does not
    CompMap want;
    double qmax = 1e300;
    for (auto& x : s.nucs)
      if (x.second > 1e-2 && r.chance(0.6)) want[x.first] = r.real(0.1, 5);
    if (want.empty()) return;
    double ws = sum(want);
    for (auto& x : want) qmax = std::min(qmax, s.nucs[x.first] / (x.second / ws));
    bool bad = r.chance(0.3);
    double q;
    if (bad) {
      int k = r.below(2);
      if (k == 0) {
        // a nuclide that is not in the source
        int nuc = 982520000;
        want[nuc] = 1.0;
        q = std::min(qmax, s.qty) * r.real(0.2, 0.8);
        if (q / sum(want) < 1e-3) return;
      } else {
        q = qmax * r.real(1.05, 1.5) + 1e-3;
        if (q > s.qty) { /* also too much in total: still must be refused */ }
      }
    } else {
      q = qmax * r.real(0.05, 0.95);
      if (q > s.qty) q = s.qty;
    }
    Comp c = Composition::CreateFromMass(want);
    std::string op = Fmt() << "extract-composition " << q << " of " << s.qty << " from " << s.name << (bad ? " (not available)" : "");
    trace(op);
    Mat got;
    bool threw = false;
    double cut = r.chance(0.3) ? eps_rsrc() * r.real(0, 1) : eps_rsrc();
    try { if (cut == eps_rsrc()) got = s.m->ExtractComp(q, c); else got = s.m->ExtractComp(q, c, cut); } catch (ValueError&) { threw = true; }
    if (bad) {
      VF_CHECK(threw, op << ": extracting what is not there did not fail");
      check_all(op);
      check_ledger(op, {});
      count("op_extractcomp_rejected");
      return;
    }
    VF_CHECK(!threw, op << ": failed");
    Obj o;
    o.m = got;
    o.tracked = s.tracked;
    o.qty = q;
    o.pdt = o.pdt_alt = s.pdt;
    o.package = Package::unpackaged_name();
    o.nucs = nuc_mass(want, q);
    int old = s.state;
    for (auto& x : o.nucs) s.nucs[x.first] -= x.second;
    s.qty -= q;
    s.tol += 2 * eps_rsrc() * (s.nucs.size() + 1);  // documented cutoff of trace nuclides
    bool rem = s.qty > eps_rsrc();
    bool amb = std::fabs(s.qty - eps_rsrc()) < 1e-12 * std::max(1.0, s.qty + q) + 1e-15;
    if (!rem) s.stale = true;
    bool tracked = s.tracked;
    int j = add(o);
    check_all(op);
    if (tracked) check_ledger(op, {{j, old, 0, false, false}, {i, old, 0, !rem || amb, false}});
    else check_ledger(op, {});
    count("op_extractcomp");
  }

  void absorb() {
    bool m = r.chance(0.65);
    int i = m ? mat_idx(false) : prod_idx(), j = m ? mat_idx(false) : prod_idx();
    if (i < 0 || j < 0 || i == j) return;
    Obj &a = objs[i], &b = objs[j];
    // tracked and untracked resources do not mix in a simulation
    if (a.tracked != b.tracked) return;
    std::string op = Fmt() << "absorb " << b.name << " (" << b.qty << ") into " << a.name << " (" << a.qty << ")";
    trace(op);
    bool bad = !m && a.quality != b.quality;
    bool threw = false;
    try {
      if (m) a.m->Absorb(b.m); else a.p->Absorb(b.p);
    } catch (ValueError&) { threw = true; }
    if (bad) {
      VF_CHECK(threw, op << ": absorbing another quality did not fail");
      check_all(op);
      check_ledger(op, {});
      count("op_absorb_rejected");
      return;
    }
    VF_CHECK(!threw, op << ": failed");
    int pa = a.state, pb = b.state;
    if (a.qty < b.qty) { a.pdt = b.pdt; }
    a.pdt_alt = close(a.qty, b.qty, 1e-12, 1e-12) ? b.pdt : a.pdt;
    // a material with next to nothing left counts with what is left of it
    for (auto& x : b.nucs) { a.nucs[x.first] += x.second; x.second = 0; }
    a.tol += b.tol + 12 * eps_rsrc() * ((a.qty <= 10 * eps_rsrc() || b.qty <= 10 * eps_rsrc()) ? 1 : 0);
    a.qty += b.qty;
    b.qty = 0;
    b.stale = true;
    a.stale = false;
    check_all(op);
    if (a.tracked) check_ledger(op, {{i, pa, pb, false, false}});
    else check_ledger(op, {});
    if (a.m) { a.pdt = a.pdt_alt = a.m->prev_decay_time(); }
    count("op_absorb");
  }

  void transmute() {
    int i = mat_idx(false);
    if (i < 0) return;
    Obj& s = objs[i];
    CompMap cm = random_compmap(r);
    Comp c = Composition::CreateFromMass(cm);
    std::string op = Fmt() << "transmute " << s.name;
    trace(op);
    int old = s.state;
    s.m->Transmute(c);
    s.nucs = nuc_mass(cm, s.qty);
    s.tol = 0;
    if (s.tracked || s.m->prev_decay_time() != s.pdt) { s.pdt = std::max(s.pdt, sim.ctx->time()); s.pdt_alt = s.pdt; }
    check_all(op);
    if (s.tracked) check_ledger(op, {{i, old, 0, false, false}});
    else check_ledger(op, {});
    count("op_transmute");
  }

  void package_extract() {
    int i = any_idx();
    if (i < 0) return;
    auto& pk = r.pick(pkgs);
    double q = part(objs[i].qty);
    bool over = r.chance(0.1);
    if (over) q = objs[i].qty * 1.2 + 1e-2;
    std::string op = Fmt() << "package-extract " << q << " of " << objs[i].qty << " from " << objs[i].name << " as " << pk.first;
    trace(op);
    Resource::Ptr got;
    bool threw = false;
    try { got = objs[i].r->PackageExtract(q, pk.first); } catch (ValueError&) { threw = true; }
    VF_CHECK(threw == over, op << (over ? ": extracting more than is there did not fail" : ": failed"));
    if (over) {
      check_all(op);
      check_ledger(op, {});
      return;
    }
    take(i, got, q, op, true, pk.first);
    count("op_package_extract");
  }

  void change_package() {
    int i = any_idx();
    if (i < 0) return;
    Obj& s = objs[i];
    if (!s.tracked) return;
    bool un = r.chance(0.3);
    auto& pk = r.pick(pkgs);
    std::string to = un ? Package::unpackaged_name() : pk.first;
    if (to == s.package) {
      trace("change package of " + s.name + " to the one it has");
      s.r->ChangePackage(to);
      check_all("change to the same package");
      check_ledger("change to the same package", {});
      count("op_same_package");
      return;
    }
    std::string op = Fmt() << "change package of " << s.name << " (" << s.qty << ") from " << s.package << " to " << to;
    trace(op);
    double have = s.r->quantity();
    bool fits = un || (have >= pk.second.first && have <= pk.second.second);
    if (!un && (have == pk.second.first || have == pk.second.second)) count("package_limit_met_exactly");
    bool threw = false;
    int old = s.state;
    try { s.r->ChangePackage(to); } catch (ValueError&) { threw = true; }
    VF_CHECK(threw == !fits, op << (fits ? ": refused although the quantity is within the limits" : ": accepted although the quantity is outside the limits"));
    if (threw) {
      check_all(op);
      check_ledger(op, {});
      return;
    }
    s.package = to;
    check_all(op);
    check_ledger(op, {{i, old, 0, false, false}});
    count("op_change_package");
  }

  void drop() {
    if (objs.size() < 6) return;
    int i = r.below(objs.size());
    trace("drop " + objs[i].name);
    objs.erase(objs.begin() + i);
  }

  void step() {
    if (r.chance(0.15)) { sim.ctx->t += r.range(1, 3); trace(Fmt() << "time " << sim.ctx->t); }
    int k = r.below(20);
    if (objs.size() < 3 || k < 3) create();
    else if (k < 8) extract();
    else if (k < 10) extract_comp();
    else if (k < 14) absorb();
    else if (k < 15) transmute();
    else if (k < 16) clone();
    else if (k < 17) package_extract();
    else if (k < 18) change_package();
    else if (k < 19) drop();
    else create();
  }
};

void run_case(Rng& r, bool ledger) {
  World w(r, ledger);
  int steps = r.range(8, 60);
  for (int i = 0; i < steps; i++) w.step();
  count("operations", steps);
  uint64_t h = hash_str(st().trace);
  nontrivial(h);
  if (st().samples.size() < 2) sample(st().trace);
}

}  // namespace

int main(int argc, char** argv) {
  parse(argc, argv);
  return run({{"C01", [](Rng& r) { run_case(r, false); }}, {"C02", [](Rng& r) { run_case(r, true); }}});
}
