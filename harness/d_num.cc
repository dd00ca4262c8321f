// C15: random numbers keep to the distribution asked for.
// C16: composition arithmetic, material queries and enrichment agree with the masses.
// C17: planning tools (demand functions, build decisions) and positions.
#include <algorithm>
#include <numeric>

#include "comp_math.h"
#include "cyc.h"
#include "cyc_arithmetic.h"
#include "random_number_generator.h"
#include "toolkit/building_manager.h"
#include "toolkit/builder.h"
#include "toolkit/commodity.h"
#include "toolkit/commodity_producer.h"
#include "toolkit/commodity_producer_manager.h"
#include "toolkit/enrichment.h"
#include "toolkit/mat_query.h"
#include "toolkit/position.h"
#include "toolkit/supply_demand_manager.h"
#include "toolkit/symbolic_function_factories.h"
#include "toolkit/symbolic_functions.h"

using namespace cyclus;
using namespace vf;
namespace tk = cyclus::toolkit;

namespace {

// ---------------------------------------------------------------- C15
double phi(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }

struct Law {
  std::string name;
  std::function<double(Context*)> draw;
  double lo = -1e300, hi = 1e300, mean = 0, var = 0;
  bool integral = false, moments = true;
  std::set<double> values;  // the only ones, if any are listed
};

// moments of a normal variable kept within [lo, hi], rounded to integers or not, by quadrature
void truncated(double m, double s, double lo, double hi, bool whole, Law* l) {
  double z = 0, s1 = 0, s2 = 0;
  double a = std::max(lo, m - 12 * s), b = std::min(hi, m + 12 * s);
  if (whole) {
    for (double k = std::floor(a - 1); k <= b + 1; k++) {
      double x = std::max(k - 0.5, a), y = std::min(k + 0.5, b);
      if (x >= y) continue;
      double p = phi((y - m) / s) - phi((x - m) / s);
      z += p; s1 += p * k; s2 += p * k * k;
    }
  } else {
    int n = 20000;
    for (int i = 0; i < n; i++) {
      double x = a + (b - a) * (i + 0.5) / n, p = std::exp(-0.5 * (x - m) * (x - m) / s / s);
      z += p; s1 += p * x; s2 += p * x * x;
    }
  }
  l->mean = s1 / z;
  l->var = std::max(0.0, s2 / z - l->mean * l->mean);
}

// some of the distributions leave max() to whoever derives from them
template <class D>
struct Whole : public D {
  using D::D;
  virtual double max() { return std::numeric_limits<double>::max(); }
};

Law make_law(Rng& r) {
  Law l;
  int k = r.below(18);
  double a = r.chance(0.2) ? 0 : r.real(-50, 50), w = r.logreal(1e-3, 1e3), b = a + w;
  int ia = r.range(-40, 40), ib = ia + r.range(1, 60);
  double p = r.chance(0.1) ? 0 : r.chance(0.1) ? 1 : r.real(0.05, 0.95);
  double lam = r.logreal(0.02, 20), mean = r.logreal(0.2, 40);
  switch (k) {
    case 0:
      l.name = "random_01"; l.draw = [](Context* c) { return c->random_01(); };
      l.lo = 0; l.hi = 1; l.mean = 0.5; l.var = 1 / 12.0;
      break;
    case 1: {
      if (r.chance(0.15)) ib = ia;
      l.name = Fmt() << "random_uniform_int(" << ia << "," << ib << ")"; l.draw = [=](Context* c) { return c->random_uniform_int(ia, ib); };
      l.lo = ia; l.hi = ib; l.integral = true; l.mean = (ia + ib) / 2.0; l.var = (std::pow(ib - ia + 1.0, 2) - 1) / 12;
      break;
    }
    case 2:
      l.name = Fmt() << "random_uniform_real(" << a << "," << b << ")"; l.draw = [=](Context* c) { return c->random_uniform_real(a, b); };
      l.lo = a; l.hi = b; l.mean = (a + b) / 2; l.var = w * w / 12;
      break;
    case 3: case 4: {
      double m = r.real(-20, 20), s = r.logreal(0.3, 20), lo = m + s * r.real(-3, 1), hi = lo + s * r.real(0.5, 4);
      l.name = Fmt() << "random_normal_real(" << m << "," << s << "," << lo << "," << hi << ")"; l.draw = [=](Context* c) { return c->random_normal_real(m, s, lo, hi); };
      if (k == 4) {
        m = std::fabs(m); lo = 0; hi = 1e300;
        l.name = Fmt() << "random_normal_real(" << m << "," << s << ")"; l.draw = [=](Context* c) { return c->random_normal_real(m, s); };
      }
      l.lo = lo; l.hi = hi; truncated(m, s, lo, hi, false, &l);
      break;
    }
    case 5: case 6: {
      double m = r.real(-20, 20), s = r.real(1.5, 20);
      int lo = static_cast<int>(std::floor(m + s * r.real(-3, 0.5))), hi = lo + std::max(1, static_cast<int>(s * r.real(1, 4)));
      l.name = Fmt() << "random_normal_int(" << m << "," << s << "," << lo << "," << hi << ")"; l.draw = [=](Context* c) { return c->random_normal_int(m, s, lo, hi); };
      if (k == 6) {
        m = std::fabs(m); lo = 0; hi = std::numeric_limits<int>::max();
        l.name = Fmt() << "random_normal_int(" << m << "," << s << ")"; l.draw = [=](Context* c) { return c->random_normal_int(m, s); };
      }
      l.lo = lo; l.hi = hi; l.integral = true; truncated(m, s, lo, hi, true, &l);
      break;
    }
    case 7: {
      auto d = std::make_shared<UniformDoubleDist>(a, b);
      VF_CHECK(d->max() == b, "UniformDoubleDist(" << a << "," << b << ").max() is " << d->max());
      l.name = Fmt() << "UniformDoubleDist(" << a << "," << b << ")"; l.draw = [=](Context*) { return d->sample(); };
      l.lo = a; l.hi = b; l.mean = (a + b) / 2; l.var = w * w / 12;
      break;
    }
    case 8: {
      double m = r.real(-20, 20), s = r.logreal(0.3, 20), lo = m + s * r.real(-3, 1), hi = lo + s * r.real(0.5, 4);
      auto d = std::make_shared<NormalDoubleDist>(m, s, lo, hi);
      VF_CHECK(d->max() == hi, "NormalDoubleDist max() is " << d->max() << " for " << hi);
      l.name = Fmt() << "NormalDoubleDist(" << m << "," << s << "," << lo << "," << hi << ")"; l.draw = [=](Context*) { return d->sample(); };
      l.lo = lo; l.hi = hi; truncated(m, s, lo, hi, false, &l);
      break;
    }
    case 9: {
      auto d = std::make_shared<Whole<PoissonDoubleDist> >(mean);
      VF_CHECK(vf::close(d->mean(), mean, 1e-12, 0), "PoissonDoubleDist(" << mean << ").mean() is " << d->mean());
      l.name = Fmt() << "PoissonDoubleDist(" << mean << ")"; l.draw = [=](Context*) { return d->sample(); };
      l.lo = 0; l.integral = true; l.mean = l.var = mean;
      break;
    }
    case 10: {
      auto d = std::make_shared<Whole<ExponentialDoubleDist> >(lam);
      VF_CHECK(d->lambda() == lam, "ExponentialDoubleDist(" << lam << ").lambda() is " << d->lambda());
      l.name = Fmt() << "ExponentialDoubleDist(" << lam << ")"; l.draw = [=](Context*) { return d->sample(); };
      l.lo = 0; l.mean = 1 / lam; l.var = 1 / lam / lam;
      break;
    }
    case 11: {
      auto d = std::make_shared<Whole<BinaryDoubleDist> >(p, a, b);
      VF_CHECK(d->p() == p, "BinaryDoubleDist(" << p << ").p() is " << d->p());
      l.name = Fmt() << "BinaryDoubleDist(" << p << "," << a << "," << b << ")"; l.draw = [=](Context*) { return d->sample(); };
      l.values = {a, b}; if (p == 0) l.values = {b}; if (p == 1) l.values = {a};
      l.mean = p * a + (1 - p) * b; l.var = p * (1 - p) * (a - b) * (a - b);
      break;
    }
    case 12: {
      auto d = std::make_shared<UniformIntDist>(ia, ib);
      VF_CHECK(d->max() == ib, "UniformIntDist max() is " << d->max() << " for " << ib);
      l.name = Fmt() << "UniformIntDist(" << ia << "," << ib << ")"; l.draw = [=](Context*) { return d->sample(); };
      l.lo = ia; l.hi = ib; l.integral = true; l.mean = (ia + ib) / 2.0; l.var = (std::pow(ib - ia + 1.0, 2) - 1) / 12;
      break;
    }
    case 13: {
      double m = r.real(-20, 20), s = r.real(1.5, 20);
      int lo = static_cast<int>(std::floor(m + s * r.real(-3, 0.5))), hi = lo + std::max(1, static_cast<int>(s * r.real(1, 4)));
      auto d = std::make_shared<NormalIntDist>(m, s, lo, hi);
      VF_CHECK(d->max() == hi, "NormalIntDist max() is " << d->max() << " for " << hi);
      l.name = Fmt() << "NormalIntDist(" << m << "," << s << "," << lo << "," << hi << ")"; l.draw = [=](Context*) { return d->sample(); };
      l.lo = lo; l.hi = hi; l.integral = true; truncated(m, s, lo, hi, true, &l);
      break;
    }
    case 14: {
      int n = r.range(1, 40);
      auto d = std::make_shared<BinomialIntDist>(n, p);
      VF_CHECK(d->trials() == n && d->p() == p, "BinomialIntDist(" << n << "," << p << ") says " << d->trials() << " trials of " << d->p());
      l.name = Fmt() << "BinomialIntDist(" << n << "," << p << ")"; l.draw = [=](Context*) { return d->sample(); };
      l.lo = 0; l.hi = n; l.integral = true; l.mean = n * p; l.var = n * p * (1 - p);
      break;
    }
    case 15: {
      int n = r.range(1, 20);
      if (p == 0 || p == 1) p = 0.5;
      auto d = std::make_shared<NegativeBinomialIntDist>(n, p);
      VF_CHECK(d->successes() == n && d->p() == p, "NegativeBinomialIntDist(" << n << "," << p << ") says " << d->successes() << " successes of " << d->p());
      l.name = Fmt() << "NegativeBinomialIntDist(" << n << "," << p << ")"; l.draw = [=](Context*) { return d->sample(); };
      l.lo = 0; l.integral = true; l.mean = n * (1 - p) / p; l.var = l.mean / p;
      break;
    }
    case 16: {
      auto d = std::make_shared<PoissonIntDist>(mean);
      VF_CHECK(vf::close(d->mean(), mean, 1e-12, 0), "PoissonIntDist(" << mean << ").mean() is " << d->mean());
      l.name = Fmt() << "PoissonIntDist(" << mean << ")"; l.draw = [=](Context*) { return d->sample(); };
      l.lo = 0; l.integral = true; l.mean = l.var = mean;
      break;
    }
    default: {
      auto d = std::make_shared<BinaryIntDist>(p, ia, ib);
      VF_CHECK(d->p() == p, "BinaryIntDist(" << p << ").p() is " << d->p());
      l.name = Fmt() << "BinaryIntDist(" << p << "," << ia << "," << ib << ")"; l.draw = [=](Context*) { return d->sample(); };
      double x = ia, y = ib;
      l.values = {x, y}; if (p == 0) l.values = {y}; if (p == 1) l.values = {x};
      l.integral = true; l.mean = p * x + (1 - p) * y; l.var = p * (1 - p) * (x - y) * (x - y);
      break;
    }
  }
  return l;
}

void case_c15(Rng& r) {
  std::vector<Law> laws;
  int n = r.range(1, 3);
  for (int i = 0; i < n; i++) laws.push_back(make_law(r));
  std::string all;
  for (auto& l : laws) all += l.name + " ";
  unsigned seed = r.chance(0.2) ? r.below(5) : static_cast<unsigned>(r.next() & 0x7fffffff);
  trace(Fmt() << all << "seed " << seed);
  nontrivial(hash_str(all));
  const int N = r.chance(0.3) ? 3000 : 600;
  std::vector<std::vector<double> > first(n);
  std::vector<int> turns;
  for (int i = 0; i < n * N; i++) turns.push_back(n == 1 ? 0 : r.below(n));
  for (int pass = 0; pass < 2; pass++) {
    Timer ti;
    Recorder rec;
    Context ctx(&ti, &rec);
    SimInfo si(5, 2010, 1, "", "never");
    si.seed = seed;
    ctx.InitSim(si);
    std::vector<size_t> at(n, 0);
    for (int t : turns) {
      Law& l = laws[t];
      double x = l.draw(&ctx);
      if (pass == 0) {
        VF_CHECK(x >= l.lo && x <= l.hi, l.name << " gave " << x);
        if (l.integral) VF_CHECK(x == std::floor(x), l.name << " gave " << x);
        if (!l.values.empty()) VF_CHECK(l.values.count(x), l.name << " gave " << x);
        first[t].push_back(x);
        count("draws_judged");
      } else {
        VF_CHECK(first[t][at[t]] == x, l.name << ": draw " << at[t] << " after seeding with " << seed << " is " << first[t][at[t]] << " the first time and " << x << " the second");
        at[t]++;
        count("draws_repeated");
      }
    }
  }
  for (int i = 0; i < n; i++) {
    Law& l = laws[i];
    size_t m = first[i].size();
    if (m < 300) continue;
    double s = std::accumulate(first[i].begin(), first[i].end(), 0.0) / m, v = 0;
    for (double x : first[i]) v += (x - s) * (x - s);
    v /= m - 1;
    // nine standard errors: never by chance
    double se = std::sqrt(l.var / m);
    VF_CHECK(std::fabs(s - l.mean) <= 9 * se + 1e-9 * (1 + std::fabs(l.mean)), l.name << ": the mean of " << m << " draws is " << s << ", expected " << l.mean << " +- " << se);
    VF_CHECK(l.var == 0 ? v < 1e-12 : v > l.var / 4 && v < l.var * 4, l.name << ": the variance of " << m << " draws is " << v << ", expected " << l.var);
    count("means_judged");
    count("law_" + l.name.substr(0, l.name.find('(')));
    if (l.var > 0) {
      // draws do not repeat their predecessors
      double c = 0;
      for (size_t k = 1; k < m; k++) c += (first[i][k] - s) * (first[i][k - 1] - s);
      c /= v * (m - 1);
      VF_CHECK(std::fabs(c) < 10 / std::sqrt(static_cast<double>(m)), l.name << ": successive draws are correlated (" << c << ")");
    }
  }
  // another seed, another sequence
  {
    Timer ti;
    Recorder rec;
    Context ctx(&ti, &rec);
    SimInfo si(5, 2010, 1, "", "never");
    si.seed = seed + 1 + r.below(1000);
    ctx.InitSim(si);
    bool same = true;
    std::vector<double> a;
    for (int i = 0; i < 8; i++) a.push_back(ctx.random_01());
    si.seed = seed;
    Timer ti2;
    Recorder rec2;
    Context ctx2(&ti2, &rec2);
    ctx2.InitSim(si);
    for (int i = 0; i < 8; i++) if (ctx2.random_01() != a[i]) same = false;
    VF_CHECK(!same, "two seeds give one sequence");
    count("seeds_told_apart");
  }
  // distributions that cannot be are refused
  if (r.chance(0.2)) {
    double x = r.real(-5, 5);
    int y = r.range(-5, 5);
    bool t1 = false, t2 = false;
    try { NormalDoubleDist d(x, 1, x, x); } catch (ValueError&) { t1 = true; }
    try { NormalIntDist d(y, 1, y, y); } catch (ValueError&) { t2 = true; }
    VF_CHECK(t1 && t2, "a normal distribution over nothing is accepted");
    VF_CHECK(FixedDoubleDist(x).sample() == x && FixedDoubleDist(x).max() == x && FixedIntDist(y).sample() == y, "a fixed distribution varies");
    count("degenerate_judged");
  }
}

// ---------------------------------------------------------------- C16
const std::vector<int>& nucs() {
  static const std::vector<int> v = {10010000, 80160000, 551370000, 922340000, 922350000, 922360000, 922380000, 942390000, 942400000, 952420001, 962440000};
  return v;
}
CompMap some_comp(Rng& r, bool uranium = false) {
  CompMap m;
  int n = r.range(1, 6);
  for (int i = 0; i < n; i++) m[r.pick(nucs())] = r.chance(0.1) ? r.logreal(1e-12, 1e-6) : r.logreal(1e-3, 1e3);
  if (uranium) {
    m[922350000] = r.real(0.001, 0.9);
    if (r.chance(0.9)) m[922380000] = r.real(0.1, 1);
  }
  return m;
}
double total(const CompMap& m) {
  long double s = 0;
  for (auto& p : m) s += p.second;
  return s;
}
std::string show(const CompMap& m) {
  Fmt o;
  for (auto& p : m) o << p.first << ":" << p.second << " ";
  return o;
}

void case_c16(Rng& r) {
  CompMap a = some_comp(r), b = some_comp(r);
  trace("a " + show(a));
  trace("b " + show(b));
  nontrivial(hash_str(show(a) + show(b)));
  {  // arithmetic
    CompMap a0 = a, b0 = b, s = compmath::Add(a, b), d = compmath::Sub(a, b);
    std::set<int> keys;
    for (auto& p : a) keys.insert(p.first);
    for (auto& p : b) keys.insert(p.first);
    for (int k : keys) {
      double x = a.count(k) ? a[k] : 0, y = b.count(k) ? b[k] : 0;
      VF_CHECK(vf::close(s[k], x + y, 1e-14, 0) && vf::close(d[k], x - y, 1e-14, 0), "nuclide " << k << ": " << x << " and " << y << " add to " << s[k] << " and subtract to " << d[k]);
    }
    VF_CHECK(s.size() == keys.size() && d.size() == keys.size(), "sums have other nuclides");
    bool neg = false;
    for (auto& p : d) if (p.second < 0) neg = true;
    VF_CHECK(compmath::AllPositive(d) == !neg, "AllPositive of " << show(d));
    VF_CHECK(compmath::AllPositive(s), "AllPositive of a sum");
    VF_CHECK(vf::close(compmath::Sum(a), total(a), 1e-13, 0), "Sum of " << show(a) << " is " << compmath::Sum(a));
    CompMap n = a;
    double to = r.chance(0.3) ? 1 : r.logreal(1e-6, 1e6);
    if (r.chance(0.2)) compmath::Normalize(&n), to = 1;
    else compmath::Normalize(&n, to);
    VF_CHECK(n.size() == a.size() && vf::close(total(n), to, 1e-12, 0), "normalized to " << to << " the total is " << total(n));
    for (auto& p : a) VF_CHECK(vf::close(n[p.first] / to, p.second / total(a), 1e-12, 0), "normalizing changed the share of " << p.first);
    CompMap z;
    z[922350000] = 0;
    compmath::Normalize(&z, 3);
    VF_CHECK(z.size() == 1 && z[922350000] == 0, "normalizing nothing gives " << show(z));
    double th = r.pick(std::vector<double>{0, 1e-9, 1e-3, 0.5, 5});
    CompMap t = d;
    compmath::ApplyThreshold(&t, th);
    for (auto& p : d) VF_CHECK(t.count(p.first) == (std::fabs(p.second) > th ? 1 : 0) && (!t.count(p.first) || t[p.first] == p.second), "threshold " << th << " on " << p.second << " of " << p.first);
    VF_CHECK(t.size() <= d.size(), "the threshold adds nuclides");
    bool refused = false;
    try { compmath::ApplyThreshold(&t, -1e-9); } catch (ValueError&) { refused = true; }
    VF_CHECK(refused, "a negative threshold is accepted");
    VF_CHECK(a == a0 && b == b0, "the operands changed");
    VF_CHECK(compmath::ValidNucs(a), "valid nuclides are not");
    CompMap bad = a;
    bad[r.pick(std::vector<int>{-5, 0, 7, 130})] = 1;
    VF_CHECK(!compmath::ValidNucs(bad), "nonsense is a nuclide: " << show(bad));
    count("arithmetic_judged");
    // comparison
    double tol = r.pick(std::vector<double>{1e-12, 1e-6, 1e-3, 0.1});
    CompMap c = a;
    int which = r.below(a.size());
    auto it = c.begin();
    std::advance(it, which);
    VF_CHECK(compmath::AlmostEq(a, c, tol), "a composition differs from itself");
    it->second *= 1 + tol / 3;
    VF_CHECK(compmath::AlmostEq(a, c, tol) && compmath::AlmostEq(c, a, tol), "compositions within " << tol << " differ");
    c = a;
    it = c.begin();
    std::advance(it, which);
    it->second *= r.chance(0.5) ? 1 + 3 * tol : 1 - std::min(0.9, 3 * tol);
    VF_CHECK(!compmath::AlmostEq(a, c, tol) && !compmath::AlmostEq(c, a, tol), "compositions apart by three times " << tol << " in nuclide " << it->first << " are taken for equal");
    c = a;
    for (int k : nucs()) if (!c.count(k)) { c[k] = 1; break; }
    VF_CHECK(!compmath::AlmostEq(a, c, tol) && !compmath::AlmostEq(c, a, tol), "compositions with different nuclides are taken for equal");
    count("comparisons_judged");
  }
  {  // sums
    std::vector<double> v;
    int n = r.range(0, 40);
    for (int i = 0; i < n; i++) v.push_back((r.chance(0.2) ? -1 : 1) * r.logreal(1e-8, 1e8));
    long double s = 0, m = 0;
    for (double x : v) { s += x; m += std::fabs(x); }
    double k = CycArithmetic::KahanSum(v);
    VF_CHECK(std::fabs(static_cast<double>(k - s)) <= 4e-16 * static_cast<double>(m), "the compensated sum is off by " << static_cast<double>(k - s) << " of " << static_cast<double>(m));
    std::vector<double> w = v;
    std::reverse(w.begin(), w.end());
    VF_CHECK(CycArithmetic::KahanSum(w) == k, "the compensated sum depends on the order");
    std::vector<double> o = CycArithmetic::sort_ascending(v);
    std::sort(w.begin(), w.end());
    VF_CHECK(o == w, "sorting");
    std::map<int, double> km;
    for (size_t i = 0; i < v.size(); i++) km[static_cast<int>(i * 7919 % 10007)] = v[i];
    VF_CHECK(CycArithmetic::sort_ascending(km) == w, "sorting the values of a map");
    count("sums_judged");
  }
  {  // queries
    double q = r.chance(0.1) ? 0 : r.logreal(1e-4, 1e6);
    Composition::Ptr ca = Composition::CreateFromMass(a);
    Mat m = Material::CreateUntracked(q, ca);
    tk::MatQuery mq(m);
    double ta = total(a), sum = 0;
    VF_CHECK(mq.qty() == q, "quantity");
    for (int k : nucs()) {
      double f = a.count(k) ? a[k] / ta : 0;
      VF_CHECK(vf::close(mq.mass_frac(k), f, 1e-12, 0), "mass fraction of " << k << " is " << mq.mass_frac(k) << " of " << f);
      VF_CHECK(vf::close(mq.mass(k), f * q, 1e-12, 0), "mass of " << k << " is " << mq.mass(k) << " of " << f * q);
      std::string nm = pyne::nucname::name(k);
      VF_CHECK(mq.mass_frac(nm) == mq.mass_frac(k) && mq.mass(nm) == mq.mass(k), "by name " << nm << " another answer than by number " << k);
      sum += mq.mass(k);
    }
    VF_CHECK(vf::close(sum, q, 1e-12, 0), "the masses add to " << sum << " of " << q);
    std::set<Nuc> some;
    double f = 0;
    for (int k : nucs()) if (r.chance(0.5)) { some.insert(k); f += a.count(k) ? a[k] / ta : 0; }
    VF_CHECK(vf::close(mq.mass_frac(some), f, 1e-12, 0), "mass fraction of " << some.size() << " nuclides of a material of " << q << " is " << mq.mass_frac(some) << ", expected " << f);
    VF_CHECK(m->quantity() == q && m->comp() == ca, "a query changed the material");
    CompMap scaled = a;
    compmath::Normalize(&scaled, r.logreal(1e-3, 1e3));
    VF_CHECK(mq.AlmostEq(Material::CreateUntracked(r.real(1, 9), Composition::CreateFromMass(scaled)), 1e-9), "the same composition at another scale is not recognised");
    count("queries_judged");
    // how much of a composition a material holds
    CompMap want;
    for (auto& p : a) if (r.chance(0.6)) want[p.first] = r.logreal(1e-2, 1e2);
    if (r.chance(0.15)) for (int k : nucs()) if (!a.count(k)) { want[k] = 1; break; }
    if (r.chance(0.2)) for (int k : nucs()) if (!a.count(k) && !want.count(k)) { want[k] = 0; break; }
    if (!want.empty() && total(want) > 0) {
      double best = 1e300, tw = total(want);
      for (auto& p : want) if (p.second > 0) best = std::min(best, (a.count(p.first) ? a[p.first] / ta : 0) * q / (p.second / tw));
      Composition::Ptr cw = Composition::CreateFromMass(want);
      double amt = mq.Amount(cw);
      VF_CHECK(vf::close(amt, best, 1e-9, 1e-300), "of " << show(want) << " a material of " << q << " (" << show(a) << ") holds " << best << ", Amount says " << amt);
      count(amt > 0 ? "amounts_judged" : "amounts_of_nothing");
      if (amt > 1e-3) {
        Mat out = m->ExtractComp(amt * (1 - 1e-9), cw);
        tk::MatQuery rest(m);
        for (int k : nucs()) VF_CHECK(rest.mass(k) >= -1e-9 * q, "extracting that amount leaves " << rest.mass(k) << " of " << k);
        count("amounts_extracted");
      }
    }
  }
  {  // enrichment
    double xt = r.real(1e-4, 0.004), xf = xt + r.logreal(1e-3, 0.3), xp = xf + (0.995 - xf) * r.real(0.01, 0.99), P = r.logreal(1e-3, 1e5);
    tk::Assays as(xf, xp, xt);
    VF_CHECK(as.Feed() == xf && as.Product() == xp && as.Tails() == xt, "assays");
    double F = tk::FeedQty(P, as), T = tk::TailsQty(P, as), S = tk::SwuRequired(P, as);
    VF_CHECK(vf::close(F, P + T, 1e-10, 0), "feed " << F << " is not product " << P << " plus tails " << T);
    VF_CHECK(std::fabs(F * xf - P * xp - T * xt) <= 1e-10 * F, "uranium-235 is not conserved: " << F * xf << " in, " << P * xp + T * xt << " out");
    auto V = [](double x) { return (2 * x - 1) * std::log(x / (1 - x)); };
    double want = P * V(xp) + T * V(xt) - F * V(xf), size = P * V(xp) + T * V(xt) + F * V(xf);
    VF_CHECK(std::fabs(S - want) <= 1e-9 * size && S > -1e-9 * size, "separative work " << S << ", expected " << want);
    VF_CHECK(vf::close(tk::ValueFunc(xp), tk::ValueFunc(1 - xp), 1e-9, 1e-12), "the value function is not symmetric");
    bool r1 = false, r2 = false;
    try { tk::ValueFunc(-r.real(1e-9, 1)); } catch (ValueError&) { r1 = true; }
    try { tk::ValueFunc(1 + r.real(0, 1)); } catch (ValueError&) { r2 = true; }
    VF_CHECK(r1 && r2, "a fraction outside [0, 1) has a value");
    CompMap u = some_comp(r, true);
    double q = r.logreal(1e-3, 1e4), t = total(u), u5 = u.count(922350000) ? u[922350000] : 0, u8 = u.count(922380000) ? u[922380000] : 0;
    Mat m = Material::CreateUntracked(q, Composition::CreateFromMass(u));
    VF_CHECK(vf::close(tk::UraniumQty(m), q * (u5 + u8) / t, 1e-12, 0), "uranium " << tk::UraniumQty(m) << " of " << q * (u5 + u8) / t);
    VF_CHECK(vf::close(tk::UraniumAssayMass(m), u5 / (u5 + u8), 1e-12, 0), "assay " << tk::UraniumAssayMass(m) << " of " << u5 / (u5 + u8));
    Mat none = Material::CreateUntracked(q, Composition::CreateFromMass(CompMap{{942390000, 1.0}}));
    VF_CHECK(tk::UraniumAssayMass(none) == 0 && tk::UraniumQty(none) == 0, "plutonium has an assay");
    count("enrichments_judged");
  }
}

// ---------------------------------------------------------------- C17
struct Piece {
  int kind;
  double p[3], at, off;
  double raw(double x) const { return kind ? p[0] * std::exp(p[1] * x) + p[2] : p[0] * x + p[1]; }
};
tk::SymFunction::Ptr make_fn(Rng& r, Piece* f) {
  f->kind = r.below(2);
  f->p[0] = r.real(-9, 9);
  f->p[1] = f->kind ? r.real(-0.2, 0.2) : r.real(-50, 50);
  f->p[2] = f->kind && r.chance(0.6) ? r.real(-9, 9) : 0;
  char b[128];
  if (!f->kind || f->p[2] == 0) snprintf(b, sizeof b, "%.17g %.17g", f->p[0], f->p[1]);
  else snprintf(b, sizeof b, "%.17g %.17g %.17g", f->p[0], f->p[1], f->p[2]);
  if (r.chance(0.5)) {
    tk::BasicFunctionFactory ff;
    return ff.GetFunctionPtr(f->kind ? (r.chance(0.5) ? "exp" : "exponential") : (r.chance(0.5) ? "lin" : "linear"), b);
  }
  if (f->kind) { tk::ExpFunctionFactory ff; return ff.GetFunctionPtr(b); }
  tk::LinFunctionFactory ff;
  return ff.GetFunctionPtr(b);
}
bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }

void functions(Rng& r, std::string* key) {
  Piece one;
  tk::SymFunction::Ptr f = make_fn(r, &one);
  for (int i = 0; i < 6; i++) {
    double x = r.chance(0.2) ? 0 : r.real(-30, 30);
    VF_CHECK(near(f->value(x), one.raw(x)), (one.kind ? "exponential" : "linear") << " function of " << one.p[0] << " " << one.p[1] << " " << one.p[2] << " is " << f->value(x) << " at " << x << ", expected " << one.raw(x));
    count("function_values");
  }
  tk::PiecewiseFunctionFactory pf;
  std::vector<Piece> ps;
  auto model = [&](double x) {
    const Piece* p = NULL;
    for (auto& q : ps) if (x >= q.at) p = &q;
    return p ? p->raw(x - p->at) + p->off : 0.0;
  };
  int n = r.below(5);
  double at = r.real(-10, 10);
  if (r.chance(0.3)) at = 0;
  for (int i = 0; i < n; i++) {
    Piece p;
    tk::SymFunction::Ptr g = make_fn(r, &p);
    p.at = at;
    bool cont = r.chance(0.6);
    p.off = cont ? model(at) - p.raw(0) : 0;
    if (cont && r.chance(0.5)) pf.AddFunction(g, at);
    else pf.AddFunction(g, at, cont);
    ps.push_back(p);
    if (cont && i > 0) {
      VF_CHECK(near(pf.GetFunctionPtr()->value(at), model(at)), "not continuous at " << at);
      count("continuous_pieces");
    }
    if (r.chance(0.3)) {
      bool refused = false;
      double before = at - (r.chance(0.3) ? 0 : r.real(0, 9));
      try { pf.AddFunction(g, before); } catch (Error&) { refused = true; }
      VF_CHECK(refused, "a piece from " << before << " is accepted after one from " << at);
      count("pieces_refused");
    }
    at += r.real(0.1, 12);
  }
  tk::SymFunction::Ptr w = pf.GetFunctionPtr();
  for (int i = 0; i < 10; i++) {
    double x = ps.empty() || r.chance(0.5) ? r.real(-25, 60) : r.pick(ps).at + (r.chance(0.4) ? 0 : r.chance(0.5) ? 1e-6 : -1e-6);
    double v = w->value(x), m = model(x);
    VF_CHECK(near(v, m), "a function of " << ps.size() << " pieces is " << v << " at " << x << ", expected " << m);
    count("piecewise_values");
  }
  *key += Fmt() << n << ":" << one.p[0] << ";";
}

struct Maker : tk::CommodityProducer {
  Maker(double cap, double cost) : tk::CommodityProducer(cap, cost) {}
};

void building(Rng& r, std::string* key) {
  tk::Commodity wanted("wanted"), other("other");
  bool whole = r.chance(0.7);
  int nb = r.range(1, 3);
  std::vector<std::unique_ptr<tk::Builder> > bs;
  std::vector<std::unique_ptr<Maker> > ms;
  std::map<tk::CommodityProducer*, tk::Builder*> owner;
  tk::BuildingManager man;
  tk::CommodityProducerManager cpm, cpm2;
  tk::SupplyDemandManager sdm;
  struct Opt { double cap, cost; };
  std::map<tk::CommodityProducer*, Opt> opts;
  double supply = 0;
  for (int i = 0; i < nb; i++) {
    bs.emplace_back(new tk::Builder());
    int np = r.below(4);
    for (int k = 0; k < np; k++) {
      double cap = whole ? r.range(1, 9) : r.real(0.5, 9), cost = r.chance(0.3) ? r.range(1, 9) : r.real(0.5, 20);
      Maker* m = new Maker(r.real(1, 5), r.real(1, 5));
      ms.emplace_back(m);
      bool makes = r.chance(0.85);
      if (makes) {
        if (r.chance(0.5)) {
          m->Add(wanted, tk::CommodInfo(cap, cost));
        } else {
          m->Add(wanted);
          m->SetCapacity(wanted, cap);
          m->SetCost(wanted, cost);
        }
      }
      if (r.chance(0.4)) m->Add(other, tk::CommodInfo(50, 0.01));
      if (r.chance(0.2)) {
        Maker* c = new Maker(0, 0);
        c->Copy(m);
        ms.emplace_back(c);
        m = c;
      }
      VF_CHECK(m->Produces(wanted) == makes, "a producer forgot what it makes");
      if (makes) VF_CHECK(m->Capacity(wanted) == cap && m->Cost(wanted) == cost, "capacity " << m->Capacity(wanted) << " of " << cap << ", cost " << m->Cost(wanted) << " of " << cost);
      bs.back()->Register(m);
      owner[m] = bs.back().get();
      if (makes) opts[m] = Opt{cap, cost};
      int in = r.below(3);
      if (in == 1) cpm.Register(m);
      if (in == 2) cpm2.Register(m);
      if (in && makes) supply += cap;
      if (in == 1 && r.chance(0.2)) {
        cpm.Unregister(m);
        if (makes) supply -= cap;
      }
    }
    man.Register(bs.back().get());
    if (r.chance(0.1)) {
      man.Unregister(bs.back().get());
      for (auto& p : owner) if (p.second == bs.back().get()) opts.erase(p.first);
    }
  }
  sdm.RegisterProducerManager(&cpm);
  sdm.RegisterProducerManager(&cpm2);
  VF_CHECK(vf::close(sdm.Supply(wanted), supply, 1e-12, 1e-9), "supply " << sdm.Supply(wanted) << " of " << supply);
  Piece pc;
  tk::SymFunction::Ptr f = make_fn(r, &pc);
  VF_CHECK(!sdm.ManagesCommodity(wanted), "an unregistered commodity is managed");
  sdm.RegisterCommodity(wanted, f);
  int t = r.below(40);
  VF_CHECK(sdm.ManagesCommodity(wanted) && !sdm.ManagesCommodity(other) && near(sdm.Demand(wanted, t), pc.raw(t)), "demand at " << t << " is " << sdm.Demand(wanted, t) << ", expected " << pc.raw(t));
  count("supplies_judged");
  double demand = r.chance(0.1) ? -r.real(0, 5) : r.chance(0.05) ? 0 : whole ? r.range(1, 60) : r.real(0.1, 60);
  if (opts.empty() && demand > 0 && r.chance(0.7)) return;
  Fmt what;
  what << "demand " << demand << " from ";
  for (auto& o : opts) what << o.second.cap << " at " << o.second.cost << ", ";
  trace(what);
  *key += what.str();
  std::vector<tk::BuildOrder> orders = man.MakeBuildDecision(wanted, demand);
  double cap = 0, cost = 0;
  for (auto& o : orders) {
    VF_CHECK(opts.count(o.producer), "an order for a producer that does not make the commodity or is not offered");
    VF_CHECK(o.number > 0 && o.builder == owner[o.producer], "an order of " << o.number << " for a builder that does not build it");
    cap += o.number * opts[o.producer].cap;
    cost += o.number * opts[o.producer].cost;
  }
  if (demand <= 0 || opts.empty()) {
    VF_CHECK(orders.empty(), what.str() << ": " << orders.size() << " orders without demand");
    count("nothing_to_build");
    return;
  }
  VF_CHECK(cap >= demand - 1e-5 * demand, what.str() << ": the orders have a capacity of " << cap);
  double best = 1e300;
  for (auto& o : opts) best = std::min(best, std::ceil(demand / o.second.cap - 1e-9) * o.second.cost);
  if (whole) {
    int d = static_cast<int>(demand);
    std::vector<double> c(d + 1, 1e300);
    c[0] = 0;
    for (int i = 1; i <= d; i++)
      for (auto& o : opts) c[i] = std::min(c[i], c[std::max(0, i - static_cast<int>(o.second.cap))] + o.second.cost);
    best = c[d];
    count("cheapest_known");
  }
  VF_CHECK(cost <= best * (1 + 1e-6) + 1e-6, what.str() << ": the orders cost " << cost << ", " << best << " would do");
  if (whole) VF_CHECK(cost >= best * (1 - 1e-6), what.str() << ": cost " << cost << " below the optimum " << best);
  count("decisions_judged");
  if (orders.size() > 1) count("mixed_decisions");
}

double coord(Rng& r, double lim) {
  int k = r.below(8);
  if (k == 0) return r.pick(std::vector<double>{0, lim, -lim, lim / 2, -lim / 2});
  if (k == 1) return r.range(-static_cast<int>(lim), static_cast<int>(lim));
  if (k == 2) return std::max(-lim, std::min(lim, r.range(-static_cast<int>(lim), static_cast<int>(lim)) + r.below(60) / 60.0));
  if (k == 3) return std::max(-lim, std::min(lim, r.range(-static_cast<int>(lim), static_cast<int>(lim)) + r.below(36000) / 36000.0));
  if (k == 4) return r.real(-1, 1) * r.logreal(1e-6, 1);
  return r.real(-lim, lim);
}
void places(Rng& r, std::string* key) {
  double la = coord(r, 90), lo = coord(r, 180), lb = coord(r, 90), lp = coord(r, 180);
  if (r.chance(0.15)) { lb = -la; lp = lo > 0 ? lo - 180 : lo + 180; }  // the other side of the earth
  if (r.chance(0.1)) { lb = la; lp = lo; }
  trace(Fmt() << "places " << la << "," << lo << " and " << lb << "," << lp);
  *key += Fmt() << la << "," << lo << ";";
  const double tol = 1.6e-5;  // a twentieth of a second and a rounding in the sixth place
  tk::Position a(la, lo), b;
  if (r.chance(0.5)) b.set_position(lb, lp);
  else { b.latitude(lb); b.longitude(lp); }
  VF_CHECK(std::fabs(a.latitude() - la) < tol && std::fabs(a.longitude() - lo) < tol, "position " << la << "," << lo << " is taken for " << a.latitude() << "," << a.longitude());
  VF_CHECK(std::fabs(b.latitude() - lb) < tol && std::fabs(b.longitude() - lp) < tol, "position " << lb << "," << lp << " is taken for " << b.latitude() << "," << b.longitude());
  double d = a.Distance(b), e = b.Distance(a), R = 6372.8, k = M_PI / 180;
  VF_CHECK(std::fabs(d - e) < 1e-6 && d >= 0 && d <= M_PI * R + 1e-6, "distances " << d << " and " << e);
  // by the chord between the two points
  double v[2][3];
  tk::Position* ps[2] = {&a, &b};
  for (int i = 0; i < 2; i++) {
    double t = ps[i]->latitude() * k, l = ps[i]->longitude() * k;
    v[i][0] = std::cos(t) * std::cos(l); v[i][1] = std::cos(t) * std::sin(l); v[i][2] = std::sin(t);
  }
  double cx = v[0][1] * v[1][2] - v[0][2] * v[1][1], cyy = v[0][2] * v[1][0] - v[0][0] * v[1][2], cz = v[0][0] * v[1][1] - v[0][1] * v[1][0];
  double ref = R * std::atan2(std::sqrt(cx * cx + cyy * cyy + cz * cz), v[0][0] * v[1][0] + v[0][1] * v[1][1] + v[0][2] * v[1][2]);
  VF_CHECK(std::fabs(d - ref) < 1e-3 + 1e-6 * ref, "the distance from " << la << "," << lo << " to " << lb << "," << lp << " is " << d << " km, expected " << ref);
  VF_CHECK(a.Distance(a) < 1e-6, "a place is " << a.Distance(a) << " km from itself");
  count("distances_judged");
  double was[2] = {b.latitude(), b.longitude()};
  double outlat = (r.chance(0.5) ? 1 : -1) * r.real(90.001, 300), outlon = (r.chance(0.5) ? 1 : -1) * r.real(180.001, 700);
  int refused = 0;
  try { b.latitude(outlat); } catch (ValueError&) { refused++; }
  try { b.longitude(outlon); } catch (ValueError&) { refused++; }
  try { b.set_position(la, outlon); } catch (ValueError&) { refused++; }
  try { b.set_position(outlat, lo); } catch (ValueError&) { refused++; }
  try { tk::Position c(la, outlon); } catch (ValueError&) { refused++; }
  VF_CHECK(refused == 5 && b.latitude() == was[0] && b.longitude() == was[1], "a position off the globe is accepted, or half of it");
  count("places_refused");
}

void case_c17(Rng& r) {
  std::string key;
  functions(r, &key);
  building(r, &key);
  places(r, &key);
  nontrivial(hash_str(key));
}

}  // namespace

int main(int argc, char** argv) {
  vf::parse(argc, argv);
  cyclus::warn_limit = 0;
  cyclus::Env::SetNucDataPath();
  return vf::run({{"C15", case_c15}, {"C16", case_c16}, {"C17", case_c17}});
}
