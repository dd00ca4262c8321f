// C13: packages and transport units keep to their limits.
// C14: buy and sell policies keep to theirs.
#include <boost/shared_ptr.hpp>
#include <numeric>

#include "cyc.h"
#include "exchange_manager.h"
#include "package.h"
#include "toolkit/matl_buy_policy.h"
#include "toolkit/matl_sell_policy.h"
#include "toolkit/total_inv_tracker.h"

using namespace cyclus;
using namespace vf;
using cyclus::toolkit::MatlBuyPolicy;
using cyclus::toolkit::MatlSellPolicy;
using cyclus::toolkit::ResBuf;
using cyclus::toolkit::TotalInvTracker;

namespace {

const double E = 2e-6;  // eps_rsrc is 1e-6

// ---------------------------------------------------------------- C13
// what the limits say about n packages in transport units: the number of units
// k must have k*min <= n <= k*max
bool unit_feasible(int n, int mn, int mx) {
  if (n == 0) return true;
  if (mx <= 0) return false;
  for (long k = (n + (long)mx - 1) / mx; k <= n; k++) {
    if (k * mn <= n && n <= k * (long)mx) return true;
    if (k * mn > n) return false;
  }
  return false;
}

// the most packages the strategy ships
int shippable_model(int n, int mn, int mx, const std::string& st) {
  if (n <= 0 || n < mn || mx <= 0) return 0;
  if (st == "first") return n / mx * mx;
  long k = (n + (long)mx - 1) / mx;
  bool fits = (long)k * mn <= n;
  if (st == "equal") {
    int f = fits ? (int)(n / k) : mx;
    return n / f * f;
  }
  int s = 0;
  while (n > 0 && n >= mn) {
    k = (n + (long)mx - 1) / mx;
    int f = (long)k * mn <= n ? (int)(n / k) : mx;
    s += f;
    n -= f;
  }
  return s;
}

struct PkgSpec { std::string name, strat; double mn, mx; };

PkgSpec random_pkg(Rng& r, double scale) {
  PkgSpec p;
  p.strat = r.pick(std::vector<std::string>{"first", "equal", "uniform", "normal"});
  switch (r.below(6)) {
    case 0: p.mn = 0; p.mx = scale * r.range(1, 8) * 0.5; break;
    case 1: p.mx = scale * r.range(1, 8); p.mn = p.mx; break;
    case 2: p.mn = scale * r.range(1, 6); p.mx = p.mn + scale * r.range(0, 6); break;
    case 3: p.mn = scale * r.real(0.1, 3); p.mx = p.mn * r.real(1.0, 1.4); break;
    case 4: p.mn = scale * r.range(1, 9) * 0.1; p.mx = p.mn + scale * r.range(1, 9) * 0.1; break;
    default: p.mn = r.chance(0.5) ? scale * r.real(0.1, 2) : 0; p.mx = r.chance(0.3) ? std::numeric_limits<double>::max() : p.mn + scale * r.real(0.5, 4);
  }
  // a normal distribution needs a range
  if (p.strat == "normal" && p.mn == p.mx) p.strat = r.chance(0.5) ? "first" : "equal";
  return p;
}

void judge_fill(const PkgSpec& p, double qty, const std::vector<double>& f, const std::string& what) {
  double s = 0;
  for (size_t i = 0; i < f.size(); i++) {
    VF_CHECK(f[i] >= p.mn - E && f[i] <= p.mx * (1 + 1e-12) + E, what << ": package " << i << " of " << qty << " holds " << f[i] << ", outside [" << p.mn << ", " << p.mx << "]");
    VF_CHECK(f[i] > 0, what << ": package " << i << " of " << qty << " holds " << f[i]);
    s += f[i];
  }
  double tol = E + 1e-12 * qty * (1 + f.size());
  VF_CHECK(s <= qty + tol, what << ": " << f.size() << " packages hold " << s << ", more than " << qty);
  double left = qty - s;
  VF_CHECK(left < p.mn + tol || left < tol, what << ": " << left << " of " << qty << " left unpackaged although " << p.mn << " fill a package");
  count("fills_judged");
  if (f.size() > 1) count("several_packages");
  if (left > E) count("with_leftover");
  if (f.empty()) { count("nothing_packaged"); return; }
  if (p.strat == "first" || p.strat == "equal") {
    double x = qty / p.mx, nr = std::round(x);
    bool edge = std::fabs(x - nr) < 1e-9 * std::max(1.0, x);
    double kmx = std::ceil(x);
    bool fits = kmx * p.mn <= qty;
    bool fedge = std::fabs(kmx * p.mn - qty) < 1e-9 * qty + 1e-12;
    if (p.strat == "equal" && (edge || fedge)) {
      count("on_a_boundary");
      for (size_t i = 0; i + 1 < f.size(); i++) VF_CHECK(close(f[i], f[0], 1e-9, 0), what << ": all but the last package hold the same, not " << f[i] << " and " << f[0]);
    } else if (p.strat == "equal" && fits) {
      VF_CHECK(f.size() == (size_t)kmx, what << ": " << qty << " fit equally in " << kmx << " packages of [" << p.mn << ", " << p.mx << "], got " << f.size());
      for (double v : f) VF_CHECK(close(v, qty / kmx, 1e-9, 1e-9), what << ": equal packages of " << qty << " hold " << v << ", not " << qty / kmx);
      count("equal_fills");
    } else {
      for (size_t i = 0; i + 1 < f.size(); i++) VF_CHECK(f[i] == p.mx, what << ": package " << i << " of " << qty << " holds " << f[i] << " before the last, not the maximum " << p.mx);
      if (qty >= p.mx) VF_CHECK(f[0] == p.mx, what << ": the first package of " << qty << " holds " << f[0] << ", not the maximum " << p.mx);
      count("max_fills");
    }
  } else {
    // random strategies: a quantity below the maximum goes in one package
    if (qty < p.mx) VF_CHECK(f.size() == 1 && f[0] == qty, what << ": " << qty << ", below the maximum " << p.mx << ", makes one package");
    count("random_fills");
  }
}

void c13(Rng& r) {
  if (r.chance(0.35)) {  // transport units
    int mn = r.range(0, 6), mx = r.chance(0.2) ? std::numeric_limits<int>::max() : mn + r.range(0, 8);
    std::string st = r.pick(std::vector<std::string>{"first", "equal", "hybrid"});
    TransportUnit::Ptr t = TransportUnit::Create("tu", mn, mx, st);
    trace(Fmt() << "transport unit [" << mn << ", " << mx << "] " << st);
    nontrivial(hash_str(vf::st().trace));
    for (int k = 0; k < 12; k++) {
      int n = k < 8 ? r.range(0, 40) : r.chance(0.9) ? r.range(0, 5000) : std::numeric_limits<int>::max() - r.range(0, 3);
      if (st == "hybrid" && mx < 1000 && n > 100000) n = 77;
      int s = t->MaxShippablePackages(n);
      VF_CHECK(s >= 0 && s <= n, "of " << n << " packages " << s << " ship in units of [" << mn << ", " << mx << "] " << st);
      VF_CHECK(unit_feasible(s, mn, mx), s << " of " << n << " packages do not split into units of [" << mn << ", " << mx << "] " << st);
      int m = shippable_model(n, mn, mx, st);
      VF_CHECK(s == m, s << " of " << n << " packages ship in units of [" << mn << ", " << mx << "] " << st << ", should be " << m);
      if (n >= mn && n > 0 && mx > 0) {
        int f = t->GetTransportUnitFill(n);
        VF_CHECK(f >= mn && f <= mx, "a unit of [" << mn << ", " << mx << "] " << st << " is given " << f << " of " << n);
      }
      count("unit_fills_judged");
      if (s && s < n) count("units_leave_some");
    }
    int u = r.range(0, 1000000);
    VF_CHECK(TransportUnit::unrestricted()->MaxShippablePackages(u) == u, "unrestricted units ship everything");
    return;
  }
  PkgSpec p = random_pkg(r, r.chance(0.5) ? 1 : r.logreal(0.01, 1e4));
  trace(Fmt() << "package [" << p.mn << ", " << p.mx << "] " << p.strat);
  Package::Ptr pk = Package::Create("vfpkg", p.mn, p.mx, p.strat);
  VF_CHECK(pk->fill_min() == p.mn && pk->fill_max() == p.mx && pk->strategy() == p.strat && pk->name() == "vfpkg", "a package is not as it was asked for");
  {  // impossible limits are refused
    double lo = p.mn, hi = p.mx;
    switch (r.below(3)) {
      case 0: lo = -r.logreal(1e-6, 10); break;
      case 1: hi = -r.logreal(1e-6, 10); break;
      default: lo = r.logreal(1e-3, 1e3), hi = lo * (1 - r.logreal(1e-12, 0.5)); break;
    }
    bool refused = lo == hi;
    try { Package::Create("vfbad", lo, hi, p.strat); } catch (ValueError&) { refused = true; }
    VF_CHECK(refused, "a package of " << lo << " to " << hi << " is accepted");
    count("limits_refused");
  }
  auto qty = [&]() {
    double top = p.mx > 1e200 ? std::max(p.mn, 1.0) * 4 : p.mx;
    double b = r.chance(0.5) ? top : std::max(p.mn, top * 0.01);
    switch (r.below(6)) {
      case 0: return b * r.range(1, 12);
      case 1: return b * r.range(1, 12) * (1 + r.range(-3, 3) * 1e-16);
      case 2: return b * r.range(1, 12) + r.pick(std::vector<double>{-1e-6, 1e-6, -1e-7, 1e-7, 5e-6, -5e-6});
      case 3: return b * r.real(0.2, 3);
      case 4: return b * r.real(1, 60);
      default: return b * r.logreal(0.01, 200);
    }
  };
  for (int k = 0; k < 4; k++) {
    double q = std::max(0.0, qty());
    if (r.chance(0.05)) q = 0;
    trace(Fmt() << "fill " << q);
    std::vector<double> f = pk->GetFillMass(q);
    judge_fill(p, q, f, "GetFillMass");
  }
  nontrivial(hash_str(vf::st().trace));
  if (p.mx < 1e200 && r.chance(0.1)) {  // too many pieces are refused, not attempted
    double q = p.mx * r.logreal(3e8, 1e30);
    trace(Fmt() << "fill " << q << " (too many)");
    bool refused = false;
    try { pk->GetFillMass(q); } catch (ValueError&) { refused = true; }
    VF_CHECK(refused, q << " in packages of at most " << p.mx << " is more than can be split, and was not refused");
    count("splits_refused");
  }
  // packaging a real resource
  Sim sim;
  sim.init();
  sim.ctx->AddPackage("vfpkg", p.mn, p.mx, p.strat);
  Package::Ptr cp = sim.ctx->GetPackage("vfpkg");
  Fac* a = new Fac(sim.ctx);
  a->Build(NULL);
  double q = qty();
  if (q <= 1e-3) q = 1;
  if (q / p.mx > 300) q = p.mx * 300.5;
  if (r.chance(0.6)) {
    Comp c = random_comp(r);
    Mat m = Material::Create(a, q, c);
    trace(Fmt() << "package material " << q);
    std::vector<Mat> ps = m->Package<Material>(cp);
    std::vector<double> f;
    for (auto& x : ps) {
      f.push_back(x->quantity());
      VF_CHECK(x->package_name() == "vfpkg", "a packaged piece is in package " << x->package_name());
      VF_CHECK(x->comp() == c || compmath::AlmostEq(x->comp()->mass(), c->mass(), 1e-9), "packaging changed a composition");
    }
    VF_CHECK(m->package_name() == Package::unpackaged_name(), "what was not packaged is in package " << m->package_name());
    judge_fill(p, q, f, "Material::Package");
    VF_CHECK(close(m->quantity() + std::accumulate(f.begin(), f.end(), 0.0), q, 1e-12, E), "packaging " << q << " left " << m->quantity() << " beside " << f.size() << " packages");
  } else {
    std::string ql = Fmt() << "q" << r.next();
    Prod m = Product::Create(a, q, ql);
    trace(Fmt() << "package product " << q);
    std::vector<Prod> ps = m->Package<Product>(cp);
    std::vector<double> f;
    for (auto& x : ps) {
      f.push_back(x->quantity());
      VF_CHECK(x->package_name() == "vfpkg", "a packaged piece is in package " << x->package_name());
      VF_CHECK(x->quality() == ql, "packaging changed a quality");
    }
    judge_fill(p, q, f, "Product::Package");
    VF_CHECK(close(m->quantity() + std::accumulate(f.begin(), f.end(), 0.0), q, 1e-12, E), "packaging " << q << " left " << m->quantity());
  }
  count("resources_packaged");
}

// ---------------------------------------------------------------- C14
struct World {
  Sim sim;
  std::vector<std::string> commods;
  Rng* r;
};

struct SellCfg {
  double throughput = std::numeric_limits<double>::max();
  double quantize = 0;
  bool ignore_comp = false;
  PkgSpec pkg{"unpackaged", "first", 0, std::numeric_limits<double>::max()};
  std::string tu = "unrestricted", tu_strat = "first";
  int tmn = 0, tmx = std::numeric_limits<int>::max();
  std::set<std::string> commods;
};

class Sell : public MatlSellPolicy {
 public:
  ResBuf<Material>* b = NULL;
  SellCfg cfg;
  int id = 0;
  std::map<int, double> out_nuc;
  double out_step = 0, limit = 0;
  double lim() const {
    double q = b->quantity();
    double l = cfg.quantize > 0 ? cfg.quantize * std::floor(q / cfg.quantize) : q;
    return std::min(cfg.throughput, l);
  }
  virtual std::set<BidPortfolio<Material>::Ptr> GetMatlBids(CommodMap<Material>::type& reqs) {
    double have = b->quantity();
    limit = lim();
    double slack = 1e-9 * std::max(1.0, have);
    std::set<BidPortfolio<Material>::Ptr> ps = MatlSellPolicy::GetMatlBids(reqs);
    VF_CHECK(close(b->quantity(), have, 0, 0), "bidding changed the buffer of seller " << id);
    std::map<Request<Material>*, std::vector<Bid<Material>*> > got;
    Comp front = b->empty() ? Comp() : b->Peek()->comp();
    for (auto& p : ps) {
      double cap = std::numeric_limits<double>::max();
      for (auto& c : p->constraints()) cap = std::min(cap, c.capacity());
      VF_CHECK(cap <= cfg.throughput + slack && cap <= have + slack, "seller " << id << " offers up to " << cap << " with " << have << " in stock and a throughput of " << cfg.throughput);
      if (cfg.quantize > 0) VF_CHECK(cap <= cfg.throughput + slack, "cap");
      for (auto* x : p->bids()) got[x->request()].push_back(x);
    }
    for (auto& g : got) VF_CHECK(cfg.commods.count(g.first->commodity()), "seller " << id << " bids on " << g.first->commodity() << ", which it does not sell");
    for (auto& c : cfg.commods) {
      auto it = reqs.find(c);
      if (it == reqs.end()) continue;
      for (auto* q : it->second) {
        std::vector<Bid<Material>*> bs;
        if (got.count(q)) bs = got[q];
        double want = q->target()->quantity();
        double tot = 0;
        std::vector<double> f;
        for (auto* x : bs) { tot += x->offer()->quantity(); f.push_back(x->offer()->quantity()); }
        VF_CHECK(tot <= std::min(want, limit) + slack + 1e-9 * want, "seller " << id << " offers " << tot << " for a request of " << want << " and a limit of " << limit);
        for (auto* x : bs) {
          VF_CHECK(x->exclusive() == (cfg.quantize > 0), "seller " << id << ": quantised offers are exclusive, others are not");
          if (cfg.quantize > 0) VF_CHECK(x->offer()->quantity() == cfg.quantize, "seller " << id << " offers " << x->offer()->quantity() << " in quanta of " << cfg.quantize);
          else VF_CHECK(x->offer()->quantity() <= cfg.pkg.mx + E && x->offer()->quantity() >= cfg.pkg.mn - E, "seller " << id << " offers a package of " << x->offer()->quantity() << " within [" << cfg.pkg.mn << ", " << cfg.pkg.mx << "]");
          VF_CHECK(x->offer()->comp() == (cfg.ignore_comp ? q->target()->comp() : front), "seller " << id << " offers a composition that is neither its own nor the one asked for");
          count("bids_judged");
        }
        VF_CHECK(unit_feasible((int)bs.size(), cfg.tmn, cfg.tmx), "seller " << id << " offers " << bs.size() << " packages, which do not fill units of [" << cfg.tmn << ", " << cfg.tmx << "]");
        // nothing that could be offered is held back
        double amt = std::min(want, limit);
        if (cfg.tu == "unrestricted" && amt > 1e-3) {
          if (cfg.quantize > 0) {
            double n = amt / cfg.quantize;
            VF_CHECK(bs.size() >= std::floor(n - 1e-9), "seller " << id << " makes " << bs.size() << " offers of " << cfg.quantize << " on " << want << " with a limit of " << limit);
          } else {
            std::sort(f.rbegin(), f.rend());
            judge_fill(cfg.pkg, amt, f, "offer");
          }
          count("requests_answered");
        }
      }
    }
    if (limit <= 0) VF_CHECK(got.empty(), "seller " << id << " bids with nothing to sell");
    return ps;
  }
  virtual void GetMatlTrades(const std::vector<Trade<Material> >& ts, std::vector<std::pair<Trade<Material>, Material::Ptr> >& rs) {
    double before = b->quantity();
    double asked = 0;
    for (auto& t : ts) asked += t.amt;
    size_t n0 = rs.size();
    MatlSellPolicy::GetMatlTrades(ts, rs);
    double sent = 0;
    int full = 0;
    for (size_t i = n0; i < rs.size(); i++) {
      const Trade<Material>& t = rs[i].first;
      double q = rs[i].second->quantity();
      bool ours = false;
      for (auto& x : ts) if (x == t || (x.request == t.request && x.bid == t.bid)) ours = true;
      VF_CHECK(ours, "seller " << id << " answers a trade it was not given");
      sent += q;
      VF_CHECK(close(q, t.amt, 1e-12, E) || (q == 0 && cfg.pkg.name != "unpackaged"), "seller " << id << " sends " << q << " for a trade of " << t.amt);
      if (q > 0) {
        full++;
        VF_CHECK(rs[i].second->package_name() == cfg.pkg.name, "seller " << id << " sends package " << rs[i].second->package_name() << ", not " << cfg.pkg.name);
        VF_CHECK(q <= cfg.pkg.mx + E && q >= cfg.pkg.mn - E, "seller " << id << " sends a package of " << q << " within [" << cfg.pkg.mn << ", " << cfg.pkg.mx << "]");
        if (cfg.ignore_comp) {
          cyclus::CompMap w = t.request->target()->comp()->mass(), g = rs[i].second->comp()->mass();
          compmath::Normalize(&w);
          compmath::Normalize(&g);
          VF_CHECK(compmath::AlmostEq(w, g, 1e-9), "seller " << id << " ignores its own composition but sends something other than what was asked");
          count("transmuted");
        }
      }
      for (auto& n : nuc_mass(rs[i].second->comp()->mass(), q)) out_nuc[n.first] += n.second;
    }
    VF_CHECK(close(before - b->quantity(), sent, 1e-12, E * (1 + ts.size())), "seller " << id << " had " << before << ", has " << b->quantity() << " and sent " << sent);
    VF_CHECK(sent <= limit + E * (1 + ts.size()), "seller " << id << " sends " << sent << " with a limit of " << limit);
    int m = shippable_model((int)ts.size(), cfg.tmn, cfg.tmx, cfg.tu_strat);
    if (cfg.tu == "unrestricted") m = (int)ts.size();
    VF_CHECK(full <= m, "seller " << id << " ships " << full << " packages of " << ts.size() << " trades although its units take " << m);
    if (cfg.pkg.name == "unpackaged" && cfg.tu == "unrestricted") VF_CHECK(rs.size() - n0 == ts.size(), "seller " << id << " answers " << rs.size() - n0 << " of " << ts.size() << " trades");
    out_step = sent;
    count("trades_judged", (long)ts.size());
    if (cfg.pkg.name != "unpackaged") count("packages_shipped", full);
    if (cfg.tu != "unrestricted") count("units_shipped", full);
  }
};

struct BuyCfg {
  double throughput = std::numeric_limits<double>::max(), fill_to = std::numeric_limits<double>::max(), req_at = std::numeric_limits<double>::max();
  double quantize = -1, cap = -1, size = 1, size_lo = -1, size_hi = -1;
  int a = -1, a_hi = -1, d = -1, d_hi = -1;  // active and dormant lengths, or ranges
  bool cycles = false;
  std::map<std::string, std::pair<Comp, double> > commods;
  size_t row0 = 0;
  int since = 0;
};

class Buy : public MatlBuyPolicy {
 public:
  ResBuf<Material>* b = NULL;
  TotalInvTracker* tr = NULL;
  World* w = NULL;
  BuyCfg cfg;
  int agent = 0;
  double asked = 0, cycle = 0;
  bool dormant_now = false;
  int quiet_until = -1;  // end of the dormant period after a full cycle
  struct Win { int t, len; };
  std::vector<Win> act, dor;
  int dor_seen = 0;
  // the periods as recorded
  void read_rows() {
    w->sim.rec.Flush();
    act.clear();
    dor.clear();
    for (size_t i = cfg.row0; i < w->sim.back.rows.size(); i++) {
      const Row& x = w->sim.back.rows[i];
      if (x.table != "BuyPolActiveDormant" || x.i("Agent") != agent) continue;
      Win v = {x.i("Time"), x.i("Length")};
      std::string ty = x.s("Type");
      if (ty == "Dormant") dor.push_back(v);
      else {
        VF_CHECK(ty == (cfg.cap > 0 ? "CumulativeCap" : "Active"), "buyer " << agent << " records a period of type " << ty);
        act.push_back(v);
      }
    }
  }
  bool dormant_model(int t) {
    read_rows();
    for (auto& v : dor) if (t >= v.t && t < v.t + v.len) return true;
    return false;
  }
  virtual std::set<RequestPortfolio<Material>::Ptr> GetMatlRequests() {
    int t = w->sim.ctx->time();
    bool dm = dormant_model(t);
    if (cfg.cycles && cfg.a_hi < 0 && cfg.d_hi < 0) {  // fixed lengths: the cycle is known without the records
      int x = (t - cfg.since) % (cfg.a + cfg.d);
      VF_CHECK(dm == (x >= cfg.a), "buyer " << agent << " at " << t << ": " << cfg.a << " active and " << cfg.d << " dormant steps since " << cfg.since << ", recorded periods say " << (dm ? "dormant" : "active"));
    }
    if (cfg.cap > 0) VF_CHECK(dm == (t < quiet_until), "buyer " << agent << " at " << t << ": recorded periods say " << (dm ? "dormant" : "active") << ", the cap was reached so that it is dormant until " << quiet_until);
    if (!cfg.cycles && cfg.cap <= 0) VF_CHECK(!dm, "buyer " << agent << " has no dormant periods");
    double q = b->quantity(), tq = tr->quantity();
    double avail = std::min(std::min(cfg.throughput, std::min(cfg.fill_to, b->capacity()) - q), std::min(b->space(), tr->space()));
    double lim = cfg.cap > 0 ? cfg.cap - cycle : std::numeric_limits<double>::max();
    std::set<RequestPortfolio<Material>::Ptr> ps = MatlBuyPolicy::GetMatlRequests();
    VF_CHECK(b->quantity() == q, "asking changed the buffer");
    asked = 0;
    double slack = 1e-9 * std::max(1.0, std::min(b->capacity(), 1e12));
    for (auto& p : ps) {
      double each = -1;
      std::set<std::string> cs;
      for (auto* x : p->requests()) {
        auto c = cfg.commods.find(x->commodity());
        VF_CHECK(c != cfg.commods.end(), "buyer " << agent << " asks for " << x->commodity());
        VF_CHECK(cs.insert(x->commodity()).second, "buyer " << agent << " asks twice for " << x->commodity() << " in one portfolio");
        VF_CHECK(x->preference() == c->second.second, "buyer " << agent << " asks for " << x->commodity() << " with preference " << x->preference() << ", set to " << c->second.second);
        VF_CHECK(!c->second.first || x->target()->comp() == c->second.first, "buyer " << agent << " asks for another composition than set");
        VF_CHECK(x->exclusive() == (cfg.quantize > 0), "buyer " << agent << ": quantised requests are exclusive, others are not");
        double v = x->target()->quantity();
        VF_CHECK(each < 0 || v == each, "one portfolio, two quantities");
        each = v;
        if (cfg.quantize > 0) VF_CHECK(v == cfg.quantize, "buyer " << agent << " asks for " << v << " in quanta of " << cfg.quantize);
        count("requests_judged");
      }
      VF_CHECK(cs.size() == cfg.commods.size(), "buyer " << agent << " asks for " << cs.size() << " of its " << cfg.commods.size() << " commodities");
      VF_CHECK(cfg.commods.empty() || close(p->qty(), each, 1e-9, 1e-12), "buyer " << agent << ": a portfolio of " << p->qty() << " for one order of " << each);
      asked += each < 0 ? 0 : each;
    }
    trace(Fmt() << "  t " << t << " buyer " << agent << " holds " << q << " (total " << tq << "), " << (dm ? "dormant, " : "") << "asks " << asked);
    VF_CHECK(asked <= std::max(0.0, std::min(avail, lim)) + slack, "buyer " << agent << " asks for " << asked << " with " << avail << " available and " << lim << " left of its cap");
    if (dm) { VF_CHECK(ps.empty(), "buyer " << agent << " asks at " << t << ", in its dormant period"); count("dormant_steps"); }
    if (tq > cfg.req_at) { VF_CHECK(ps.empty(), "buyer " << agent << " asks with " << tq << " in stock, above its reorder level of " << cfg.req_at); count("above_reorder"); }
    if (!dm && tq <= cfg.req_at && !cfg.commods.empty()) {  // it asks for all it may
      double hi = std::min(avail * (cfg.size_lo >= 0 ? cfg.size_hi : cfg.size), lim), lo = std::min(avail * (cfg.size_lo >= 0 ? cfg.size_lo : cfg.size), lim);
      if (cfg.quantize > 0) lo = cfg.quantize * std::floor(lo / cfg.quantize - 1e-9), hi = cfg.quantize * std::floor(hi / cfg.quantize + 1e-9);
      if (lo > 1e-5) {
        VF_CHECK(asked >= lo - slack && asked <= hi + slack, "buyer " << agent << " at " << t << " asks for " << asked << ", should be between " << lo << " and " << hi << ": " << avail << " available, " << lim << " left of its cap");
        count("full_requests");
      }
    }
    dormant_now = dm;
    return ps;
  }
  virtual void AcceptMatlTrades(const std::vector<std::pair<Trade<Material>, Material::Ptr> >& rs) {
    double q = b->quantity(), got = 0;
    size_t n = b->count();
    std::vector<std::pair<Mat, std::string> > in;
    for (auto& x : rs) { got += x.second->quantity(); in.push_back(std::make_pair(x.second, x.first.request->commodity())); }
    MatlBuyPolicy::AcceptMatlTrades(rs);
    VF_CHECK(close(b->quantity() - q, got, 1e-12, E), "buyer " << agent << " received " << got << " and its buffer went from " << q << " to " << b->quantity());
    VF_CHECK(b->count() == n + (int)rs.size(), "buyer " << agent << " received " << rs.size() << " resources and its buffer went from " << n << " to " << b->count());
    VF_CHECK(got <= asked + E * (1 + rs.size()), "buyer " << agent << " received " << got << " having asked for " << asked);
    VF_CHECK(b->quantity() <= b->capacity() + E * 4 && tr->quantity() <= tr->capacity() + E * 4, "buyer " << agent << " holds " << b->quantity() << " of at most " << b->capacity());
    const std::map<Mat, std::string>& rc = rsrc_commods();
    VF_CHECK(rc.size() == in.size(), "buyer " << agent << " names the commodity of " << rc.size() << " of " << in.size() << " resources");
    for (auto& x : in) VF_CHECK(rc.count(x.first) && rc.at(x.first) == x.second, "buyer " << agent << " names the wrong commodity of a resource");
    VF_CHECK(!dormant_now || rs.empty(), "buyer " << agent << " receives in its dormant period");
    cycle += got;
    if (cfg.cap > 0) {
      VF_CHECK(cycle <= cfg.cap + E * 8, "buyer " << agent << " received " << cycle << " in one cycle, more than its cap of " << cfg.cap);
      if (cfg.cap - cycle < eps_rsrc()) {  // the rest of the cycle: a dormant period starts with the next step
        int t = w->sim.ctx->time();
        read_rows();
        VF_CHECK(!dor.empty() && dor.back().t == t + 1, "buyer " << agent << " reached its cap at " << t << " and recorded no dormant period");
        int hi = cfg.d_hi < 0 ? cfg.d : cfg.d_hi;
        VF_CHECK(dor.back().len >= cfg.d && dor.back().len <= hi, "buyer " << agent << " is dormant for " << dor.back().len << ", expected between " << cfg.d << " and " << hi);
        quiet_until = t + 1 + dor.back().len;
        cycle = 0;
        count("caps_reached");
      }
    }
    count("deliveries", (long)rs.size());
  }
  void judge_periods() {
    if (!cfg.cycles) return;
    read_rows();
    int ahi = cfg.a_hi < 0 ? cfg.a : cfg.a_hi, dhi = cfg.d_hi < 0 ? cfg.d : cfg.d_hi;
    VF_CHECK(!act.empty() && act[0].t == cfg.since, "buyer " << agent << " records its first active period from " << (act.empty() ? -1 : act[0].t) << ", started at " << cfg.since);
    for (size_t i = 0; i < act.size(); i++) {
      VF_CHECK(act[i].len >= cfg.a && act[i].len <= ahi, "an active period of " << act[i].len << ", expected between " << cfg.a << " and " << ahi);
      VF_CHECK(i < dor.size() && dor[i].t == act[i].t + act[i].len, "buyer " << agent << ": the dormant period after the active one from " << act[i].t << " starts elsewhere");
      VF_CHECK(dor[i].len >= cfg.d && dor[i].len <= dhi, "a dormant period of " << dor[i].len << ", expected between " << cfg.d << " and " << dhi);
      if (i + 1 < act.size()) VF_CHECK(act[i + 1].t == dor[i].t + dor[i].len, "buyer " << agent << ": the active period after the dormant one from " << dor[i].t << " starts elsewhere");
      else VF_CHECK(dor[i].t + dor[i].len > w->sim.ctx->time() || w->sim.ctx->time() == cfg.since, "buyer " << agent << " starts no active period after the dormant one that ended at " << dor[i].t + dor[i].len);
      count("periods_judged");
    }
  }
};

class SellFac : public Fac {
 public:
  ResBuf<Material> buf;
  Sell pol;
  std::map<int, double> in_nuc;
  explicit SellFac(Context* c) : Fac(c) {}
};
class BuyFac : public Fac {
 public:
  ResBuf<Material> buf, other;
  TotalInvTracker tr;
  Buy pol;
  explicit BuyFac(Context* c) : Fac(c) {}
};

IntDistribution::Ptr idist(Rng& r, int& lo, int& hi) {
  lo = r.range(1, 4);
  hi = -1;
  if (r.chance(0.6)) return IntDistribution::Ptr(new FixedIntDist(lo));
  hi = lo + r.range(1, 4);
  return IntDistribution::Ptr(new UniformIntDist(lo, hi));
}

void init_buy(Rng& r, BuyFac* f, World& w, bool again) {
  Buy& p = f->pol;
  if (again) p.ResetBehavior();
  std::map<std::string, std::pair<Comp, double> > keep = p.cfg.commods;
  p.cfg = BuyCfg();
  p.cfg.commods = keep;
  p.cycle = 0;
  p.quiet_until = -1;
  w.sim.rec.Flush();
  p.cfg.row0 = w.sim.back.rows.size();
  p.cfg.since = w.sim.ctx->time();
  double cap = f->buf.capacity();
  // quanta of an unlimited order would be unlimited in number
  auto thr = [&]() { return r.chance(0.3) && cap < 1e200 ? std::numeric_limits<double>::max() : r.real(0.2, 1.5) * std::min(cap, 50.0); };
  switch (r.below(6)) {
    case 0:
      p.Init(f, &f->buf, "in", &f->tr);
      trace("  buys freely");
      break;
    case 1:
      p.cfg.throughput = thr();
      p.cfg.quantize = r.chance(0.5) ? r.range(1, 5) : r.real(0.3, 6);
      p.Init(f, &f->buf, "in", &f->tr, p.cfg.throughput, p.cfg.quantize);
      trace(Fmt() << "  buys " << p.cfg.throughput << " a step in quanta of " << p.cfg.quantize);
      break;
    case 2: {
      double s = r.real(0, 1.1) * std::min(cap, 50.0), S = s + r.real(0.1, 1) * std::min(cap, 50.0);
      if (r.chance(0.2)) s = 0;
      p.cfg.throughput = thr();
      p.cfg.fill_to = std::min(S, cap);
      p.cfg.req_at = std::min(s, cap);
      std::string nm = r.chance(0.5) ? "sS" : "ss";
      if (r.chance(0.5)) p.Init(f, &f->buf, "in", &f->tr, p.cfg.throughput, nm, S, s);
      else { p.cfg.throughput = std::numeric_limits<double>::max(); p.Init(f, &f->buf, "in", &f->tr, nm, S, s); }
      trace(Fmt() << "  buys (s, S) = (" << s << ", " << S << ") with throughput " << p.cfg.throughput);
      break;
    }
    case 3: {
      double R = r.real(0, 1) * std::min(cap, 50.0), Q = r.chance(0.5) ? r.range(1, 6) : r.real(0.3, 8);
      p.cfg.quantize = Q;
      p.cfg.req_at = std::min(R, cap);
      p.cfg.fill_to = std::min(R + Q, cap);
      p.cfg.throughput = thr();
      p.Init(f, &f->buf, "in", &f->tr, p.cfg.throughput, r.chance(0.5) ? "RQ" : "qr", Q, R);
      trace(Fmt() << "  buys (R, Q) = (" << R << ", " << Q << ") with throughput " << p.cfg.throughput);
      break;
    }
    case 4: {
      IntDistribution::Ptr a = idist(r, p.cfg.a, p.cfg.a_hi), d = idist(r, p.cfg.d, p.cfg.d_hi);
      DoubleDistribution::Ptr s;
      switch (r.below(3)) {
        case 0: p.cfg.size = r.real(0.1, 1); s = DoubleDistribution::Ptr(new FixedDoubleDist(p.cfg.size)); break;
        case 1: p.cfg.size_lo = r.real(0.1, 0.5); p.cfg.size_hi = r.real(0.5, 1); s = DoubleDistribution::Ptr(new UniformDoubleDist(p.cfg.size_lo, p.cfg.size_hi)); break;
        default: break;
      }
      p.cfg.throughput = thr();
      if (r.chance(0.15)) { d.reset(); p.cfg.cycles = false; p.cfg.d = p.cfg.d_hi = -1; }
      else p.cfg.cycles = true;
      p.Init(f, &f->buf, "in", &f->tr, p.cfg.throughput, a, d, s);
      trace(Fmt() << "  buys " << p.cfg.throughput << " a step, active for " << p.cfg.a << ".." << p.cfg.a_hi << ", dormant for " << p.cfg.d << ".." << p.cfg.d_hi << " (cycles: " << p.cfg.cycles << "), size " << p.cfg.size << " " << p.cfg.size_lo << ".." << p.cfg.size_hi);
      break;
    }
    default: {
      IntDistribution::Ptr d = idist(r, p.cfg.d, p.cfg.d_hi);
      double c = r.real(0.1, 1.3) * std::min(cap, 60.0);
      p.cfg.cap = std::min(c, cap);
      p.cfg.throughput = thr();
      p.Init(f, &f->buf, "in", &f->tr, p.cfg.throughput, c, d);
      trace(Fmt() << "  buys " << p.cfg.throughput << " a step up to a cap of " << c << ", dormant for " << p.cfg.d << ".." << p.cfg.d_hi);
    }
  }
  if (again) count("policies_reset");
}

void c14(Rng& r) {
  World w;
  w.r = &r;
  w.sim.init(60);
  w.commods = {"ca", "cb", "cc"};
  std::vector<SellFac*> ss;
  std::vector<BuyFac*> bs;
  int ns = r.range(1, 3), nb = r.range(1, 3);
  w.sim.ctx->t = r.chance(0.3) ? r.range(1, 5) : 0;
  for (int i = 0; i < ns; i++) {
    SellFac* f = new SellFac(w.sim.ctx);
    f->Build(NULL);
    Sell& p = f->pol;
    p.b = &f->buf;
    p.id = f->id();
    SellCfg& c = p.cfg;
    for (auto& x : w.commods) if (r.chance(0.5)) c.commods.insert(x);
    if (c.commods.empty()) c.commods.insert("ca");
    if (r.chance(0.5)) c.throughput = r.real(1, 40);
    c.ignore_comp = r.chance(0.3);
    int kind = r.below(5);
    trace(Fmt() << "seller " << f->id() << " throughput " << c.throughput << (c.ignore_comp ? " ignoring compositions" : ""));
    if (kind == 0) {
      bool thr = c.throughput < 1e200;
      if (thr && c.ignore_comp) p.Init(f, &f->buf, "out", c.throughput, c.ignore_comp);
      else if (thr) p.Init(f, &f->buf, "out", c.throughput);
      else if (c.ignore_comp) p.Init(f, &f->buf, "out", true);
      else p.Init(f, &f->buf, "out");
    } else if (kind == 1) {
      c.quantize = r.chance(0.5) ? r.range(1, 5) : r.real(0.3, 6);
      p.Init(f, &f->buf, "out", c.throughput, c.ignore_comp, c.quantize);
      trace(Fmt() << "  in quanta of " << c.quantize);
    } else {
      c.pkg = random_pkg(r, 1);
      c.pkg.name = Fmt() << "pk" << i;
      w.sim.ctx->AddPackage(c.pkg.name, c.pkg.mn, c.pkg.mx, c.pkg.strat);
      trace(Fmt() << "  in packages of [" << c.pkg.mn << ", " << c.pkg.mx << "] " << c.pkg.strat);
      if (kind >= 3) {
        c.tu = Fmt() << "tu" << i;
        c.tmn = r.range(0, 3);
        c.tmx = c.tmn + r.range(c.tmn == 0 ? 1 : 0, 4);
        c.tu_strat = r.pick(std::vector<std::string>{"first", "equal", "hybrid"});
        w.sim.ctx->AddTransportUnit(c.tu, c.tmn, c.tmx, c.tu_strat);
        trace(Fmt() << "  in units of [" << c.tmn << ", " << c.tmx << "] " << c.tu_strat);
      }
      if (kind == 4 && (c.pkg.strat == "first" || c.pkg.strat == "equal")) {
        // quanta must fit one package
        double q = c.pkg.mx > 1e200 ? c.pkg.mn + r.real(0.1, 3) : r.real(std::max(c.pkg.mn, 0.01 * c.pkg.mx), c.pkg.mx);
        bool bad = r.chance(0.2);
        if (bad && c.pkg.mx < 1e200) q = c.pkg.mn > 0.1 && r.chance(0.5) ? c.pkg.mn * r.real(0.2, 0.9) : c.pkg.mx * r.real(1.2, 4);
        else bad = false;
        if (bad) {
          bool refused = false;
          try { p.Init(f, &f->buf, "out", c.throughput, c.ignore_comp, q, c.pkg.name); } catch (ValueError&) { refused = true; }
          VF_CHECK(refused, "a quantum of " << q << " does not fit one package of [" << c.pkg.mn << ", " << c.pkg.mx << "] and was accepted");
          count("quanta_refused");
          c = SellCfg();
          c.commods.insert("ca");
          f->pol.~Sell();
          new (&f->pol) Sell();
          p.b = &f->buf;
          p.id = f->id();
          p.cfg.commods.insert("ca");
          p.Init(f, &f->buf, "out");
          goto inited;
        }
        if (shippable_model(1, c.tmn, c.tmx, c.tu_strat) == 1) {
          c.quantize = q;
          trace(Fmt() << "  in quanta of " << c.quantize);
        }
      }
      p.Init(f, &f->buf, "out", c.throughput, c.ignore_comp, c.quantize, c.pkg.name, c.tu);
    }
  inited:
    for (auto& x : p.cfg.commods) p.Set(x);
    p.Start();
    if (r.chance(0.3)) p.Start();
    ss.push_back(f);
  }
  for (int i = 0; i < nb; i++) {
    BuyFac* f = new BuyFac(w.sim.ctx);
    f->Build(NULL);
    f->pol.b = &f->buf;
    f->pol.tr = &f->tr;
    f->pol.w = &w;
    f->pol.agent = f->id();
    bool inf = r.chance(0.15);
    if (!inf) f->buf.capacity(r.chance(0.5) ? r.range(1, 60) : r.real(0.5, 80));
    double tcap = r.chance(0.4) ? r.real(0.5, 80) : std::numeric_limits<double>::max();
    trace(Fmt() << "buyer " << f->id() << " capacity " << f->buf.capacity() << ", total " << tcap);
    if (r.chance(0.4)) f->tr.Init({&f->buf, &f->other}, tcap);
    else f->tr.Init({&f->buf}, tcap);
    init_buy(r, f, w, false);
    for (auto& x : w.commods)
      if (r.chance(0.5) || (x == "ca" && r.chance(0.7))) {
        double pref = r.chance(0.5) ? 1 : r.real(0.2, 4);
        Comp c;
        switch (r.below(3)) {
          case 0: f->pol.Set(x); pref = 1; break;
          case 1: c = random_comp(r); f->pol.Set(x, c); pref = 1; break;
          default: c = random_comp(r); f->pol.Set(x, c, pref);
        }
        f->pol.cfg.commods[x] = std::make_pair(c, pref);
      }
    f->pol.Start();
    bs.push_back(f);
  }
  nontrivial(hash_str(vf::st().trace));
  int steps = r.range(4, 16);
  ExchangeManager<Material> em(w.sim.ctx);
  for (int k = 0; k < steps; k++) {
    int t = w.sim.ctx->t;
    for (auto* s : ss)
      for (int j = 0, n = r.below(3); j < n; j++) {
        double q = r.chance(0.3) ? r.range(1, 10) : r.real(0.05, 30);
        Comp c = random_comp(r);
        s->buf.Push(Material::Create(s, q, c));
        for (auto& x : nuc_mass(c->mass(), q)) s->in_nuc[x.first] += x.second;
      }
    for (auto* b : bs) {
      if (k && r.chance(0.06)) {
        trace(Fmt() << "  t " << t << " buyer " << b->id() << " is reset");
        init_buy(r, b, w, true);
      }
      if (k && r.chance(0.05) && b->pol.cfg.commods.size() > 1) {
        std::string c = b->pol.cfg.commods.begin()->first;
        b->pol.Unset(c);
        b->pol.cfg.commods.erase(c);
        trace(Fmt() << "  buyer " << b->id() << " no longer asks for " << c);
      }
    }
    w.sim.rec.Flush();
    size_t row0 = w.sim.back.rows.size();
    std::map<int, double> had;
    for (auto* b : bs) had[b->id()] = b->buf.quantity();
    for (auto* s : ss) had[s->id()] = s->buf.quantity();
    em.Execute();
    w.sim.rec.Flush();
    // the recorded transactions are what moved
    std::map<int, double> moved;
    std::map<int, double> rq;
    for (size_t i = row0; i < w.sim.back.rows.size(); i++) {
      const Row& x = w.sim.back.rows[i];
      if (x.table == "Resources") rq[x.i("ResourceId")] = x.d("Quantity");
    }
    for (auto* x : w.sim.back.table("Resources")) if (!rq.count(x->i("ResourceId"))) rq[x->i("ResourceId")] = x->d("Quantity");
    for (size_t i = row0; i < w.sim.back.rows.size(); i++) {
      const Row& x = w.sim.back.rows[i];
      if (x.table != "Transactions") continue;
      double q = rq.count(x.i("ResourceId")) ? rq[x.i("ResourceId")] : 0;
      moved[x.i("SenderId")] -= q;
      moved[x.i("ReceiverId")] += q;
      count("transactions");
    }
    for (auto& m : had) {
      double now = -1;
      for (auto* b : bs) if (b->id() == m.first) now = b->buf.quantity();
      for (auto* s : ss) if (s->id() == m.first) now = s->buf.quantity();
      VF_CHECK(close(now - m.second, moved[m.first], 1e-9, E * 20), "agent " << m.first << " at " << t << " had " << m.second << ", has " << now << ", its transactions say " << moved[m.first]);
    }
    for (auto* b : bs) {
      b->pol.judge_periods();
      // what arrived is used up or set aside
      if (r.chance(0.6) && b->buf.quantity() > 1e-3) {
        double q = r.chance(0.4) ? b->buf.quantity() : b->buf.quantity() * r.real(0.05, 1);
        Mat m = b->buf.Pop(q, eps_rsrc());
        if (r.chance(0.3)) b->other.Push(m);
      }
      if (r.chance(0.2) && !b->other.empty()) b->other.Pop();
    }
    w.sim.ctx->t++;
  }
  for (auto* s : ss) {
    if (s->pol.cfg.ignore_comp) continue;
    std::map<int, double> left;
    double scale = 0;
    while (!s->buf.empty()) {
      Mat m = s->buf.Pop();
      for (auto& x : nuc_mass(m->comp()->mass(), m->quantity())) left[x.first] += x.second;
    }
    for (auto& x : s->in_nuc) scale += x.second;
    for (auto& x : s->in_nuc) {
      double o = s->pol.out_nuc.count(x.first) ? s->pol.out_nuc[x.first] : 0;
      VF_CHECK(close(x.second, o + left[x.first], 1e-9, E * 40 + 1e-9 * scale), "seller " << s->id() << " had " << x.second << " of " << x.first << ", sent " << o << " and keeps " << left[x.first]);
      count("nuclides_balanced");
    }
  }
  for (auto* s : ss) { s->pol.Stop(); if (r.chance(0.5)) s->pol.Stop(); }
  for (auto* b : bs) b->pol.Stop();
}

}  // namespace

int main(int argc, char** argv) {
  parse(argc, argv);
  cyclus::warn_limit = 0;
  cyclus::Logger::ReportLevel() = cyclus::LEV_ERROR;
  return run({{"C13", c13}, {"C14", c14}});
}
