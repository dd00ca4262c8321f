// C07: resource buffers, resource maps and inventory trackers against a
// reference model of their contents.
#include <deque>
#include <limits>

#include "cyc.h"
#include "toolkit/res_buf.h"
#include "toolkit/res_map.h"
#include "toolkit/total_inv_tracker.h"

using namespace cyclus;
using namespace vf;
using cyclus::toolkit::ResBuf;
using cyclus::toolkit::ResMap;
using cyclus::toolkit::TotalInvTracker;

namespace {

typedef std::map<std::string, double> Content;   // nuclide or quality -> amount

template <class T> struct Kind;
template <> struct Kind<Material> {
  static Content of(Mat m) {
    Content c;
    for (auto& p : nuc_mass(m->comp()->mass(), m->quantity())) c[Fmt() << p.first] = p.second;
    return c;
  }
  static Mat make(Rng& r, Agent* a, double q, const std::string& ql) {
    (void)ql;
    return r.chance(0.8) ? Material::Create(a, q, random_comp(r, 3)) : Material::CreateUntracked(q, random_comp(r, 3));
  }
  static Resource::Ptr alien(Agent* a, double q, const std::string& ql) { return Product::Create(a, q, ql); }
};
template <> struct Kind<Product> {
  static Content of(Prod p) { Content c; c[p->quality()] = p->quantity(); return c; }
  static Prod make(Rng& r, Agent* a, double q, const std::string& ql) {
    return r.chance(0.8) ? Product::Create(a, q, ql) : Product::CreateUntracked(q, ql);
  }
  static Resource::Ptr alien(Agent* a, double q, const std::string&) {
    CompMap m; m[922350000] = 1;
    return Material::Create(a, q, Composition::CreateFromMass(m));
  }
};

void add(Content& a, const Content& b, double k = 1) { for (auto& p : b) a[p.first] += k * p.second; }
bool same(const Content& a, const Content& b, double tol) {
  Content d = a;
  add(d, b, -1);
  for (auto& p : d) if (std::fabs(p.second) > tol) return false;
  return true;
}
std::string show(const Content& a) { Fmt f; for (auto& p : a) f << p.first << ":" << p.second << " "; return f.str(); }

template <class T> struct BufWorld {
  typedef typename T::Ptr P;
  struct El { P r; double q; std::string pkg; };

  Rng& r;
  Sim sim;
  Fac* fac;
  bool bulk, keep;
  ResBuf<T> buf;
  std::deque<El> model;
  double cap = INFINITY;
  double high = 1;      // largest inventory so far: scales the rounding allowed
  long ops = 0;
  Content in, out;
  std::vector<P> outside;    // objects popped, candidates for a second push
  std::vector<std::string> pkgs, quals;
  uint64_t h = 7;

  BufWorld(Rng& rr, bool b, bool k) : r(rr), sim(rr.range(1, 50)), bulk(b), keep(k), buf(b, k) {
    sim.init();
    fac = new Fac(sim.ctx);
    static long uniq = 0;
    for (int i = 0; i < 3; i++) {
      std::string nm = Fmt() << "pk" << i;
      double lo = i == 0 ? 0 : r.real(0.1, 3);
      sim.ctx->AddPackage(nm, lo, lo + r.real(1, 200), "first");
      pkgs.push_back(nm);
    }
    quals.push_back(Fmt() << "bq" << ++uniq);
    if (!bulk) quals.push_back(Fmt() << "bq" << ++uniq);
  }
  ~BufWorld() { model.clear(); outside.clear(); drain(); }
  void drain() { try { while (!buf.empty()) buf.Pop(); } catch (...) {} }

  double tol() { return 1e-9 + 1e-12 * high * (10 + ops); }
  double total() { double s = 0; for (auto& e : model) s += e.q; return s; }

  void verify(const std::string& op) {
    trace(op);
    h = mix(h, hash_str(op.substr(0, op.find(' '))));
    VF_CHECK(buf.count() == static_cast<int>(model.size()), op << ": holds " << buf.count() << " objects, expected " << model.size());
    VF_CHECK(buf.empty() == model.empty(), op << ": empty() is " << buf.empty());
    VF_CHECK(close(buf.quantity(), total(), 0, tol()), op << ": quantity " << buf.quantity() << ", contents amount to " << total());
    VF_CHECK(!model.empty() || buf.quantity() == 0, op << ": an empty buffer holds " << buf.quantity());
    VF_CHECK(buf.capacity() == cap, op << ": capacity " << buf.capacity() << ", set to " << cap);
    VF_CHECK(buf.quantity() <= cap + eps_rsrc() * 1.001 + tol(), op << ": quantity " << buf.quantity() << " above capacity " << cap);
    double space = cap == INFINITY ? INFINITY : std::max(0.0, cap - total());
    VF_CHECK(space == INFINITY ? buf.space() == INFINITY : close(buf.space(), space, 0, tol()), op << ": space " << buf.space() << ", expected " << space);
    VF_CHECK(buf.space() >= 0, op << ": negative space " << buf.space());
    if (!model.empty()) {
      VF_CHECK(buf.Peek() == model.front().r, op << ": the oldest object is not next");
      double s = 0;
      for (auto& e : model) {
        VF_CHECK(close(e.r->quantity(), e.q, 0, tol()), op << ": an object in the buffer holds " << e.r->quantity() << ", expected " << e.q);
        s += e.r->quantity();
      }
      VF_CHECK(close(buf.quantity(), s, 0, tol()), op << ": quantity " << buf.quantity() << " but its objects hold " << s);
    }
    Content held;
    for (auto& e : model) add(held, Kind<T>::of(e.r));
    Content c = out;
    add(c, held);
    VF_CHECK(same(c, in, 10 * tol()), op << ": put in " << show(in) << ", still in or taken out " << show(c));
    count("states_checked");
  }

  P fresh(double q) {
    P m = Kind<T>::make(r, fac, q, r.pick(quals));
    if (r.chance(0.3)) { try { m->ChangePackage(r.pick(pkgs)); } catch (ValueError&) {} }
    return m;
  }
  double some_qty() {
    double sp = cap == INFINITY ? r.real(1, 50) : std::max(0.0, cap - total());
    switch (r.below(7)) {
      case 0: return std::max(1e-3, sp);                      // exactly full
      case 1: return sp + r.real(0.01, 5);                    // too much
      case 2: return sp + eps_rsrc() * 3;                     // just too much
      case 3: return std::max(1e-3, sp * r.unit());
      default: return random_qty(r);
    }
  }

  void accept(P m) {
    double q = m->quantity();
    add(in, Kind<T>::of(m));
    high = std::max(high, total() + q);
  }
  void took(El e) {
    if (bulk && !model.empty()) { model.front().q += e.q; return; }
    model.push_back(e);
  }

  void push() {
    bool again = !outside.empty() && r.chance(0.25);
    bool dup = !model.empty() && r.chance(0.12);
    P m = dup ? model[r.below(model.size())].r : again ? outside[r.below(outside.size())] : fresh(some_qty());
    for (auto& e : model) if (e.r == m) dup = true;
    if (m->quantity() <= 0) return;
    double q = m->quantity(), q0 = buf.quantity();
    double over = q - buf.space();
    if (std::fabs(over - eps_rsrc()) < eps_rsrc() * 0.01) return;
    bool big = over > eps_rsrc();
    std::string pk0 = m->package_name();
    Content c = Kind<T>::of(m);
    std::string op = Fmt() << "push " << q << (dup ? " (already in)" : "") << " into " << q0 << "/" << cap;
    bool threw = false;
    try { buf.Push(m); }
    catch (ValueError&) { threw = true; VF_CHECK(big, op << ": refused although it fits"); }
    catch (KeyError&) { threw = true; VF_CHECK(dup, op << ": refused as a duplicate"); }
    VF_CHECK(threw == (big || dup), op << (threw ? ": refused" : ": accepted"));
    if (!threw) {
      add(in, c);
      high = std::max(high, total() + q);
      if (again) {   // it came back: no longer outside
        add(out, c, -1); add(in, c, -1);
        for (size_t i = 0; i < outside.size(); i++) if (outside[i] == m) { outside.erase(outside.begin() + i); break; }
      }
      bool absorbed = bulk && !model.empty();
      El e = {m, q, ""};
      took(e);
      if (!absorbed) {
        std::string want = keep ? pk0 : Package::unpackaged_name();
        VF_CHECK(m->package_name() == want, op << ": package is " << m->package_name() << ", expected " << want);
        if (keep) count("packages_kept"); else if (want != pk0) count("packages_stripped");
      }
      count("pushes");
    } else {
      VF_CHECK(m->package_name() == pk0, op << ": a refused resource was repackaged");
      VF_CHECK(m->quantity() == q, op << ": a refused resource changed");
      count(dup ? "duplicates_refused" : "overflows_refused");
    }
    verify(op);
  }

  void push_vec() {
    int n = r.range(0, 4);
    std::vector<P> v;
    bool dup = false, alien = false;
    double tot = 0;
    double sc = r.chance(0.5) && cap != INFINITY ? std::max(1e-3, (cap - total()) / std::max(1, n)) : 0;
    for (int i = 0; i < n; i++) {
      P m = fresh(sc > 0 ? sc * r.real(0.5, 1.1) : random_qty(r));
      v.push_back(m);
    }
    if (n && !model.empty() && r.chance(0.1)) { v[r.below(n)] = model[r.below(model.size())].r; dup = true; }
    if (n > 1 && r.chance(0.1)) { int a = r.below(n), b = r.below(n); if (a != b) { v[a] = v[b]; dup = true; } }
    std::vector<Resource::Ptr> rvec(v.begin(), v.end());
    if (n && r.chance(0.05)) { rvec.push_back(Kind<T>::alien(fac, 1, quals[0])); alien = true; }
    std::vector<std::string> pk;
    std::vector<double> qs;
    Content c;
    for (auto& m : v) { tot += m->quantity(); pk.push_back(m->package_name()); qs.push_back(m->quantity()); add(c, Kind<T>::of(m)); }
    double over = tot - buf.space();
    if (std::fabs(over - eps_rsrc()) < eps_rsrc() * 0.01 + 1e-12 * tot) return;
    bool big = over > eps_rsrc();
    std::string op = Fmt() << "push-vector of " << n << " totalling " << tot << (dup ? " (duplicate)" : "") << (alien ? " (wrong type)" : "") << " into " << buf.quantity() << "/" << cap;
    bool threw = false;
    bool typed = !alien && r.chance(0.5);
    try { if (typed) buf.Push(v); else buf.Push(rvec); }
    catch (CastError&) { threw = true; VF_CHECK(alien, op << ": wrong type reported"); }
    catch (ValueError&) { threw = true; VF_CHECK(big, op << ": refused although it fits"); }
    catch (KeyError&) { threw = true; VF_CHECK(dup, op << ": refused as a duplicate"); }
    VF_CHECK(threw == (big || dup || alien), op << (threw ? ": refused" : ": accepted"));
    if (!threw) {
      for (int i = 0; i < n; i++) {
        bool absorbed = bulk && !model.empty();
        El e = {v[i], qs[i], ""};
        took(e);
        if (!absorbed) {
          std::string want = keep ? pk[i] : Package::unpackaged_name();
          VF_CHECK(v[i]->package_name() == want, op << ": package is " << v[i]->package_name() << ", expected " << want);
        }
      }
      add(in, c);
      high = std::max(high, total());
      count("vector_pushes");
    } else {
      for (int i = 0; i < n; i++) {
        VF_CHECK(v[i]->quantity() == qs[i] && v[i]->package_name() == pk[i], op << ": a refused resource changed");
      }
      count("vector_refusals");
    }
    verify(op);
  }

  void gone(P m) { add(out, Kind<T>::of(m)); if (outside.size() < 6) outside.push_back(m); }

  void pop_one(bool back) {
    std::string op = back ? "pop-back" : "pop";
    bool threw = false;
    P m;
    try { m = back ? buf.PopBack() : buf.Pop(); } catch (ValueError&) { threw = true; }
    VF_CHECK(threw == model.empty(), op << (threw ? ": refused" : ": accepted on an empty buffer"));
    if (!threw) {
      El e = back ? model.back() : model.front();
      VF_CHECK(m == e.r, op << ": returned another object than the " << (back ? "newest" : "oldest"));
      if (back) model.pop_back(); else model.pop_front();
      gone(m);
      count("pops");
    } else count("pops_refused");
    verify(op);
  }
  void pop_n() {
    int n = r.range(-1, static_cast<int>(model.size()) + 1);
    std::string op = Fmt() << "pop-n " << n << " of " << model.size();
    bool threw = false;
    std::vector<P> v;
    bool res = r.chance(0.4);
    try {
      if (res) { std::vector<Resource::Ptr> rv = buf.PopNRes(n); for (auto& x : rv) v.push_back(boost::dynamic_pointer_cast<T>(x)); }
      else v = buf.PopN(n);
    } catch (ValueError&) { threw = true; }
    VF_CHECK(threw == (n < 0 || n > static_cast<int>(model.size())), op << (threw ? ": refused" : ": accepted"));
    if (!threw) {
      VF_CHECK(static_cast<int>(v.size()) == n, op << ": returned " << v.size());
      for (int i = 0; i < n; i++) {
        VF_CHECK(v[i] == model.front().r, op << ": object " << i << " out of order");
        model.pop_front();
        gone(v[i]);
      }
      count("pops_n");
    } else count("pops_refused");
    verify(op);
  }
  // removing a quantity from the model; returns the amounts taken per object
  std::vector<std::pair<P, double> > take(double q) {
    std::vector<std::pair<P, double> > o;
    double left = q;
    while (left > 0 && !model.empty()) {
      El& e = model.front();
      if (e.r->quantity() > 0 && e.q - left > tol()) { o.push_back(std::make_pair(P(), left)); e.q -= left; left = 0; }
      else if (e.q - left > -tol() && e.q - left <= tol()) { o.push_back(std::make_pair(e.r, e.q)); left = 0; model.pop_front(); }
      else { o.push_back(std::make_pair(e.r, e.q)); left -= e.q; model.pop_front(); }
    }
    return o;
  }
  void pop_qty() {
    double have = buf.quantity();
    double q;
    int how = r.below(6);
    if (how == 0) q = have;
    else if (how == 1) q = have + r.real(0.01, 5);
    else if (how == 2 && model.size() > 1) q = model[0].q + 0.5 * model[1].q;
    else if (how == 3 && !model.empty()) q = model[0].q * 0.5;
    else q = have * r.unit();
    if (q <= 1e-6) return;
    // keep away from object boundaries that rounding could move
    double acc = 0;
    bool edge = false;
    for (size_t i = 0; i < model.size(); i++) {
      acc += model[i].q;
      if (std::fabs(acc - q) < 100 * tol() && !(how == 0)) edge = true;
    }
    if (edge) return;
    int form = r.below(3);
    double eps = r.chance(0.5) ? 0.5 * std::fabs(q - have) : r.chance(0.5) ? 2 * std::fabs(q - have) + 1e-9 : 0;
    bool refuse = form == 2 ? q > have + eps : q > have;
    if (form == 2 && std::fabs(q - have - eps) < 1e-12 * high) return;
    std::string op = Fmt() << (form == 0 ? "pop-vector " : form == 1 ? "pop-quantity " : "pop-quantity-eps ") << q << " of " << have << " eps " << (form == 2 ? eps : 0.0);
    if (model.empty() && !refuse) return;
    if (form && quals.size() > 1 && !refuse) {
      // squashing different qualities is refused by the resource: not this property
      std::set<std::string> k;
      if (std::is_same<T, Product>::value) { for (auto& e : model) k.insert(boost::dynamic_pointer_cast<Product>(Resource::Ptr(e.r))->quality()); }
      if (k.size() > 1) form = 0, refuse = q > have;
    }
    bool threw = false;
    std::vector<P> v;
    P one;
    // what the objects hold now
    std::vector<std::pair<P, Content> > before;
    for (auto& e : model) before.push_back(std::make_pair(e.r, Kind<T>::of(e.r)));
    try {
      if (form == 0) v = buf.PopVector(q);
      else if (form == 1) one = buf.Pop(q);
      else one = buf.Pop(q, eps);
    } catch (ValueError&) { threw = true; }
    VF_CHECK(threw == refuse, op << (threw ? ": refused" : ": accepted"));
    if (threw) { count("pops_refused"); verify(op); return; }
    bool all = q >= have;
    std::vector<std::pair<P, double> > exp;
    if (all) { for (auto& e : model) exp.push_back(std::make_pair(e.r, e.q)); model.clear(); }
    else exp = take(q);
    double want = all ? have : q;
    if (all && form != 2 && buf.count() > 0 && buf.quantity() < tol()) {
      // taking everything by quantity may leave rounding dust of the newest objects
      std::vector<P> dust = buf.PopN(buf.count());
      VF_CHECK(dust.size() <= exp.size(), op << ": more objects left than there were");
      for (size_t i = 0; i < dust.size(); i++) {
        size_t at = exp.size() - dust.size() + i;
        VF_CHECK(dust[i] == exp[at].first, op << ": what is left is not the newest objects");
        gone(dust[i]);
      }
      if (form == 0 && v.size() + dust.size() == exp.size()) exp.resize(v.size());
      else if (form == 0 && !v.empty() && v.size() <= exp.size()) exp.resize(v.size()), exp.back().first = P();
      count("dust_left");
    }
    // expected content, oldest first
    Content c;
    for (size_t i = 0; i < exp.size(); i++) {
      double tot = 0;
      for (auto& p : before[i].second) tot += p.second;
      add(c, before[i].second, tot > 0 ? exp[i].second / tot : 0);
    }
    if (form == 0) {
      VF_CHECK(v.size() == exp.size(), op << ": returned " << v.size() << " objects, expected " << exp.size());
      double s = 0;
      Content got;
      for (size_t i = 0; i < v.size(); i++) {
        VF_CHECK(close(v[i]->quantity(), exp[i].second, 0, 4 * tol()), op << ": object " << i << " holds " << v[i]->quantity() << ", expected " << exp[i].second);
        if (exp[i].first) VF_CHECK(v[i] == exp[i].first, op << ": object " << i << " out of order");
        s += v[i]->quantity();
        add(got, Kind<T>::of(v[i]));
        gone(v[i]);
      }
      VF_CHECK(close(s, want, 0, 4 * tol()), op << ": returned " << s << " in all");
      VF_CHECK(same(got, c, 20 * tol()), op << ": returned " << show(got) << ", the oldest " << want << " are " << show(c));
    } else {
      VF_CHECK(one != NULL, op << ": returned nothing");
      VF_CHECK(close(one->quantity(), want, 0, 4 * tol()), op << ": returned " << one->quantity());
      VF_CHECK(same(Kind<T>::of(one), c, 20 * tol()), op << ": returned " << show(Kind<T>::of(one)) << ", the oldest " << want << " are " << show(c));
      gone(one);
    }
    if (!exp.empty() && !exp.back().first) count("splits");
    count("pops_by_quantity");
    verify(op);
  }
  void set_cap() {
    double have = buf.quantity(), c;
    switch (r.below(6)) {
      case 0: c = INFINITY; break;
      case 1: c = have * r.unit(); break;
      case 2: c = have + r.real(0, 100); break;
      case 3: c = have; break;
      case 4: c = -r.real(0.1, 2); break;
      default: c = have + r.logreal(1e-3, 1e4);
    }
    if (std::fabs(have - c - eps_rsrc()) < eps_rsrc() * 0.01) return;
    bool refuse = c < 0 || have - c > eps_rsrc();
    std::string op = Fmt() << "capacity " << c << " holding " << have;
    bool threw = false;
    try { buf.capacity(c); } catch (ValueError&) { threw = true; }
    VF_CHECK(threw == refuse, op << (threw ? ": refused" : ": accepted"));
    if (!threw) { cap = c; count("capacity_set"); } else count("capacity_refused");
    verify(op);
  }
  void alien() {
    std::string op = "push wrong type";
    bool threw = false;
    try { buf.Push(Kind<T>::alien(fac, 0.001, quals[0])); } catch (CastError&) { threw = true; }
    VF_CHECK(threw, op << ": accepted");
    verify(op);
  }
  void step() {
    ops++;
    int k = r.below(30);
    if (k < 9) push();
    else if (k < 13) push_vec();
    else if (k < 16) pop_one(false);
    else if (k < 18) pop_one(true);
    else if (k < 20) pop_n();
    else if (k < 27) pop_qty();
    else if (k < 29) set_cap();
    else alien();
  }
  void go() {
    int n = r.range(5, 45);
    for (int i = 0; i < n; i++) step();
    nontrivial(h);
  }
};

// ---------------------------------------------------------------- trackers
void tracker_case(Rng& r) {
  Sim sim;
  sim.init();
  Fac* fac = new Fac(sim.ctx);
  int n = r.range(1, 4);
  std::vector<std::unique_ptr<ResBuf<Material> > > bufs;
  std::vector<ResBuf<Material>*> ptrs;
  ResBuf<Material> other;
  for (int i = 0; i < n; i++) {
    bufs.push_back(std::unique_ptr<ResBuf<Material> >(new ResBuf<Material>(r.chance(0.3))));
    if (r.chance(0.7)) bufs.back()->capacity(r.real(1, 100));
    ptrs.push_back(bufs.back().get());
  }
  double mx = std::numeric_limits<double>::max();
  TotalInvTracker t;
  bool threw = false;
  try { t.quantity(); } catch (ValueError&) { threw = true; }
  VF_CHECK(threw, "a tracker without buffers answers");
  threw = false;
  try { t.Init(std::vector<ResBuf<Material>*>()); } catch (ValueError&) { threw = true; }
  VF_CHECK(threw, "a tracker of no buffers is accepted");
  bool cons = r.chance(0.4);
  if (r.chance(0.6)) {
    mx = r.real(1, 200);
    if (cons) t = TotalInvTracker(ptrs, mx); else t.Init(ptrs, mx);
  } else if (cons) {
    t = TotalInvTracker(ptrs);
  } else {
    t.Init(ptrs);
  }
  uint64_t h = 3;
  int steps = r.range(5, 40);
  for (int s = 0; s < steps; s++) {
    int k = r.below(8), b = r.below(n);
    std::string op;
    if (k < 4) {
      double room = t.constrained_buf_space(ptrs[b]);
      double q = r.chance(0.3) ? room : std::min(room * r.unit(), 1e4);
      if (!(q > 1e-3) || q > 1e5) continue;
      op = Fmt() << "push " << q << " into " << b;
      bool refused = false;
      try { ptrs[b]->Push(Material::Create(fac, q, random_comp(r, 2))); } catch (ValueError&) { refused = true; }
      VF_CHECK(!refused, op << ": the space the tracker reports is refused by the buffer");
      count("tracker_pushes");
    } else if (k < 6) {
      if (ptrs[b]->empty()) continue;
      double q = ptrs[b]->quantity() * r.unit();
      if (q < 1e-6) continue;
      op = Fmt() << "pop " << q << " from " << b;
      ptrs[b]->Pop(q);
    } else {
      double have = t.quantity();
      double c = r.chance(0.5) ? have * r.unit() : have + r.real(0, 50);
      if (std::fabs(have - c - eps_rsrc()) < eps_rsrc() * 0.01) continue;
      op = Fmt() << "tracker capacity " << c << " holding " << have;
      bool refuse = have - c > eps_rsrc(), refused = false;
      try { t.set_capacity(c); } catch (ValueError&) { refused = true; }
      VF_CHECK(refused == refuse, op << (refused ? ": refused" : ": accepted"));
      if (!refused) mx = c; else count("tracker_capacity_refused");
    }
    trace(op);
    h = mix(h, k * 16 + b);
    double q = 0, c = 0;
    for (auto* p : ptrs) { q += p->quantity(); c += p->capacity(); }
    double tol = 1e-9 + 1e-11 * q;
    VF_CHECK(t.num_bufs() == n, op << ": tracks " << t.num_bufs());
    VF_CHECK(close(t.quantity(), q, 0, tol), op << ": tracker quantity " << t.quantity() << ", buffers hold " << q);
    VF_CHECK(t.empty() == (t.quantity() == 0), op << ": empty");
    VF_CHECK(t.total_capacity_bufs() == c || close(t.total_capacity_bufs(), c, 1e-12, 0), op << ": buffers' capacity " << t.total_capacity_bufs() << ", expected " << c);
    VF_CHECK(t.tracker_capacity() == mx, op << ": tracker capacity " << t.tracker_capacity() << ", set " << mx);
    double cc = std::min(c, mx);
    VF_CHECK(t.capacity() == cc || close(t.capacity(), cc, 1e-12, 0), op << ": capacity " << t.capacity() << ", expected " << cc);
    double sp = std::max(0.0, cc - q);
    VF_CHECK(t.space() == sp || close(t.space(), sp, 1e-12, tol), op << ": space " << t.space() << ", expected " << sp);
    VF_CHECK(t.quantity() <= mx + eps_rsrc() * 2 + tol, op << ": holds " << t.quantity() << " above " << mx);
    for (int i = 0; i < n; i++) {
      double e = std::min(ptrs[i]->space(), sp);
      VF_CHECK(t.constrained_buf_space(ptrs[i]) == e || close(t.constrained_buf_space(ptrs[i]), e, 1e-12, tol), op << ": room in " << i << " is " << t.constrained_buf_space(ptrs[i]) << ", expected " << e);
      VF_CHECK(t.buf_in_tracker(ptrs[i]), op << ": does not know its buffer");
    }
    VF_CHECK(!t.buf_in_tracker(&other), op << ": claims another's buffer");
    count("tracker_states_checked");
  }
  nontrivial(mix(h, n));
}

// ---------------------------------------------------------------- maps
void map_case(Rng& r) {
  Sim sim;
  sim.init();
  Fac* fac = new Fac(sim.ctx);
  ResMap<std::string, Material> m;
  std::map<std::string, Mat> model;
  uint64_t h = 11;
  int steps = r.range(4, 30);
  auto key = [&]() { return std::string(1, 'a' + r.below(6)); };
  for (int s = 0; s < steps; s++) {
    std::string op;
    int k = r.below(10);
    std::string kk = key();
    if (k < 4) {
      Mat x = Material::Create(fac, random_qty(r), random_comp(r, 2));
      op = "set " + kk;
      m[kk] = x;
      model[kk] = x;
    } else if (k < 5) {
      op = "pop " + kk;
      bool threw = false;
      Mat x;
      try { x = m.Pop(kk); } catch (KeyError&) { threw = true; }
      VF_CHECK(threw == !model.count(kk), op << (threw ? ": refused" : ": accepted"));
      if (!threw) { VF_CHECK(x == model[kk], op << ": another object"); model.erase(kk); }
    } else if (k < 6) {
      op = "erase " + kk;
      size_t n = m.erase(kk);
      VF_CHECK(n == model.erase(kk), op << ": erased " << n);
    } else if (k < 7) {
      if (model.empty()) continue;
      op = "shrink";
      auto it = model.begin();
      std::advance(it, r.below(model.size()));
      if (it->second->quantity() < 1e-3) continue;
      m[it->first]->ExtractQty(it->second->quantity() * 0.5);
    } else if (k < 8) {
      if (model.empty()) continue;
      op = "erase first";
      m.erase(m.begin());
      model.erase(model.begin());
    } else if (k < 9) {
      op = "through ids and values";
      std::map<std::string, int> ids = m.obj_ids();
      VF_CHECK(ids.size() == model.size(), op << ": " << ids.size() << " ids");
      for (auto& p : model) VF_CHECK(ids.count(p.first) && ids[p.first] == p.second->obj_id(), op << ": id of " << p.first);
      std::vector<Resource::Ptr> vals = m.ResValues();
      for (size_t i = vals.size(); i > 1; i--) std::swap(vals[i - 1], vals[r.below(i)]);
      ResMap<std::string, Material> m2;
      m2.obj_ids(ids);
      m2.ResValues(vals);
      VF_CHECK(m2.size() == static_cast<int>(model.size()), op << ": restored " << m2.size());
      for (auto& p : model) VF_CHECK(m2[p.first] == p.second, op << ": restored another object under " << p.first);
      VF_CHECK(close(m2.quantity(), m.quantity(), 1e-12, 0), op << ": restored quantity " << m2.quantity());
      count("map_round_trips");
    } else {
      if (!r.chance(0.3)) continue;
      op = "clear";
      m.clear();
      model.clear();
    }
    trace(op);
    h = mix(h, hash_str(op));
    double q = 0;
    for (auto& p : model) q += p.second->quantity();
    VF_CHECK(m.size() == static_cast<int>(model.size()) && m.empty() == model.empty(), op << ": size " << m.size() << ", expected " << model.size());
    VF_CHECK(close(m.quantity(), q, 1e-12, 1e-12), op << ": quantity " << m.quantity() << ", contents amount to " << q);
    std::vector<Mat> v = m.Values();
    VF_CHECK(v.size() == model.size(), op << ": " << v.size() << " values");
    size_t i = 0;
    for (auto& p : model) { VF_CHECK(v[i] == p.second, op << ": value " << i); i++; }
    count("map_states_checked");
  }
  nontrivial(h);
}

void c07(Rng& r) {
  int k = r.below(12);
  if (k < 6) {
    bool bulk = r.chance(0.35), keep = !bulk && r.chance(0.4);
    BufWorld<Material> w(r, bulk, keep);
    w.go();
    if (w.bulk) count("bulk_cases");
  } else if (k < 8) {
    bool bulk = r.chance(0.35), keep = !bulk && r.chance(0.4);
    BufWorld<Product> w(r, bulk, keep);
    w.go();
  } else if (k < 10) {
    tracker_case(r);
  } else {
    map_case(r);
  }
}

}  // namespace

int main(int argc, char** argv) {
  parse(argc, argv);
  return run({{"C07", c07}});
}
