#include "vfdyn.h"
#include <algorithm>
#include <cmath>
#include "vftrace.h"

using cyclus::Material;
using cyclus::Product;

namespace {
template <class T> std::string res(cyclus::toolkit::ResBuf<T>& b) {
  std::ostringstream o;
  o.precision(17);
  o << b.quantity() << "/" << b.capacity() << "[";
  std::vector<typename T::Ptr> v = b.PopN(b.count());
  for (size_t i = 0; i < v.size(); i++) {
    cyclus::Resource::Ptr r = v[i];
    o << (i ? " + " : "") << r->quantity() << " " << r->package_name() << " ";
    Material::Ptr m = boost::dynamic_pointer_cast<Material>(r);
    Product::Ptr p = boost::dynamic_pointer_cast<Product>(r);
    if (m) {
      cyclus::CompMap c = m->comp()->mass();
      double s = 0;
      for (cyclus::CompMap::iterator it = c.begin(); it != c.end(); ++it) s += it->second;
      for (cyclus::CompMap::iterator it = c.begin(); it != c.end(); ++it) o << it->first << " " << it->second / s << " ";
    } else if (p) {
      o << p->quality() << " ";
    }
  }
  b.Push(v);
  o << "]";
  return o.str();
}

template <class T> bool by_partner(const cyclus::Trade<T>& a, const cyclus::Trade<T>& b) {
  int ia = a.request->requester()->manager()->id(), ib = b.request->requester()->manager()->id();
  if (ia != ib) return ia < ib;
  return a.request->commodity() < b.request->commodity();
}
template <class T>
bool by_sender(const std::pair<cyclus::Trade<T>, typename T::Ptr>& a, const std::pair<cyclus::Trade<T>, typename T::Ptr>& b) {
  int ia = a.first.bid->bidder()->manager()->id(), ib = b.first.bid->bidder()->manager()->id();
  if (ia != ib) return ia < ib;
  return a.first.request->commodity() < b.first.request->commodity();
}
}  // namespace

VDyn::VDyn(cyclus::Context* ctx)
    : cyclus::Facility(ctx), in_qty(-1), out_cap(-1), make(-1), period(-1), residence(-1), pref(-1), linger(-1), noisy(-1), ticks(-1), got(-1) {}

void VDyn::EnterNotify() {
  cyclus::Facility::EnterNotify();
  std::ostringstream o;
  o << vft::head("enter", this) << (parent() ? parent()->prototype() : "-") << "|" << lifetime() << "|in_commods=" << vft::rep(in_commods) << ";out_commods=" << vft::rep(out_commods)
    << ";p_in=" << vft::rep(p_in) << ";p_out=" << vft::rep(p_out) << ";in_qty=" << vft::rep(in_qty) << ";out_cap=" << vft::rep(out_cap) << ";make=" << vft::rep(make)
    << ";recipe=" << vft::rep(recipe) << ";pack=" << vft::rep(pack) << ";period=" << vft::rep(period) << ";residence=" << vft::rep(residence) << ";pref=" << vft::rep(pref)
    << ";linger=" << vft::rep(linger) << ";";
  vft::say(o.str());
}

bool VDyn::Active() { return (context()->time() + id()) % period == 0; }

// preferences no two pairs share
double VDyn::Mine(int other, const std::string& c) {
  double h = std::fmod(std::sin(id() * 12.9898 + other * 78.233 + c.size() + (c.empty() ? 0 : c[c.size() - 1]) * 3.7) * 43758.5453, 1.0);
  return pref * (1.5 + h);
}

void VDyn::Tick() {
  ticks++;
  if (noisy > 0) {
    std::ostringstream o;
    o << vft::head("draw", this) << vft::rep(context()->random_01()) << "|" << context()->random_uniform_int(1, 9) << "|" << vft::rep(context()->random_normal_real(1, 2, -3, 9));
    vft::say(o.str());
  }
  if (make > 0) {
    cyclus::Composition::Ptr c = context()->GetRecipe(recipe);
    Material::Ptr m = Material::Create(this, make, c);
    if (pack != "unpackaged") {
      cyclus::Package::Ptr p = context()->GetPackage(pack);
      std::vector<Material::Ptr> v = m->Package<Material>(p);
      for (size_t i = 0; i < v.size(); i++) out.Push(v[i]);
      if (m->quantity() > cyclus::eps_rsrc()) out.Push(m);  // negligible remainders are not recorded
    } else {
      out.Push(m);
    }
    mixed.Push(Product::Create(this, make / 2, tag + "kind" + vft::rep(ticks % 3)));
    if (ticks % 4 == 0) mixed.Push(Material::Create(this, make / 4, c));
    if (mixed.count() > 6) mixed.PopN(3);
  }
  // what has been here long enough moves on, transmuted
  while (!ages.empty() && !stock.empty() && ages.front() + residence <= context()->time()) {
    Material::Ptr m = stock.Pop();
    ages.pop_front();
    if (recipe != "") m->Transmute(context()->GetRecipe(recipe));
    if (m->quantity() > 2 * cyclus::eps_rsrc() && ticks % 3 == 0) {
      Material::Ptr half = m->ExtractQty(m->quantity() / 3);
      out.Push(half);
    }
    if (!out.empty() && ticks % 5 == 0) {
      Material::Ptr o = out.Pop();
      if (o->package_name() == m->package_name()) {
        o->Absorb(m);
        out.Push(o);
      } else {
        out.Push(o);
        out.Push(m);
      }
    } else {
      out.Push(m);
    }
  }
}

void VDyn::Tock() {
  // negligible remainders are not recorded: they are thrown away
  std::vector<Material::Ptr> all = out.PopN(out.count());
  for (size_t i = 0; i < all.size(); i++)
    if (all[i]->quantity() > cyclus::eps_rsrc()) out.Push(all[i]);
  history.push_back(stock.quantity() + out.quantity());
  if (history.size() > 5) history.erase(history.begin());
  std::ostringstream o;
  o << vft::head("dyn", this) << (parent() ? parent()->id() : -1) << "|" << enter_time() << "|" << lifetime() << "|" << ticks << "|" << vft::rep(got) << "|" << vft::rep(sent) << "|"
    << vft::rep(history) << "|" << vft::rep(ages) << "|" << vft::rep(in_commods) << "|" << vft::rep(out_commods) << "|" << recipe << "|" << res(stock) << "|" << res(out) << "|" << res(pinv)
    << "|" << res(mixed) << "|" << vft::rep(cyclus::eps()) << "|" << vft::rep(cyclus::eps_rsrc());
  vft::say(o.str());
}

bool VDyn::CheckDecommissionCondition() { return linger == 0 || (exit_time() >= 0 && context()->time() >= exit_time() + linger); }

std::set<cyclus::RequestPortfolio<Material>::Ptr> VDyn::GetMatlRequests() {
  std::set<cyclus::RequestPortfolio<Material>::Ptr> ports;
  if (!Active()) return ports;
  if (in_commods.empty()) return ports;
  if (noisy > 1 && id() % 3) {
    cyclus::CompMap u;
    u[922350000] = 1;
    for (size_t i = 0; i < in_commods.size(); i++) {
      for (int n = 1; n < 3; n++) {
        cyclus::RequestPortfolio<Material>::Ptr one(new cyclus::RequestPortfolio<Material>());
        one->AddRequest(Material::CreateUntracked(in_qty / n, cyclus::Composition::CreateFromMass(u)), this, in_commods[i], pref);
        ports.insert(one);
      }
    }
    return ports;
  }
  cyclus::RequestPortfolio<Material>::Ptr p(new cyclus::RequestPortfolio<Material>());
  cyclus::CompMap c;
  c[922350000] = 1;
  if (id() % 2) {
    std::vector<cyclus::Request<Material>*> v;
    for (size_t i = 0; i < in_commods.size(); i++)
      v.push_back(p->AddRequest(Material::CreateUntracked(in_qty, cyclus::Composition::CreateFromMass(c)), this, in_commods[i], pref));
    if (v.size() > 1) p->AddMutualReqs(v);
  } else {
    p->AddRequest(Material::CreateUntracked(in_qty, cyclus::Composition::CreateFromMass(c)), this, in_commods[ticks % in_commods.size()], pref);
  }
  ports.insert(p);
  return ports;
}

std::set<cyclus::RequestPortfolio<Product>::Ptr> VDyn::GetProductRequests() {
  std::set<cyclus::RequestPortfolio<Product>::Ptr> ports;
  if (p_in == "" || !Active()) return ports;
  cyclus::RequestPortfolio<Product>::Ptr p(new cyclus::RequestPortfolio<Product>());
  p->AddRequest(Product::CreateUntracked(in_qty, "any"), this, p_in, pref);
  ports.insert(p);
  return ports;
}

void VDyn::AdjustMatlPrefs(cyclus::PrefMap<Material>::type& prefs) {
  if (noisy > 0) {
    std::ostringstream o;
    o << vft::head("draw", this) << "prefs|" << vft::rep(context()->random_01());
    vft::say(o.str());
  }
  if (noisy > 1) return;
  for (cyclus::PrefMap<Material>::type::iterator r = prefs.begin(); r != prefs.end(); ++r)
    for (std::map<cyclus::Bid<Material>*, double>::iterator b = r->second.begin(); b != r->second.end(); ++b)
      b->second = Mine(b->first->bidder()->manager()->id(), r->first->commodity());
}

void VDyn::AdjustProductPrefs(cyclus::PrefMap<Product>::type& prefs) {
  for (cyclus::PrefMap<Product>::type::iterator r = prefs.begin(); r != prefs.end(); ++r)
    for (std::map<cyclus::Bid<Product>*, double>::iterator b = r->second.begin(); b != r->second.end(); ++b)
      b->second = Mine(b->first->bidder()->manager()->id(), r->first->commodity());
}

std::set<cyclus::BidPortfolio<Material>::Ptr> VDyn::GetMatlBids(cyclus::CommodMap<Material>::type& reqs) {
  std::set<cyclus::BidPortfolio<Material>::Ptr> ports;
  double have = std::min(out.quantity(), out_cap);
  if (have < 1e-3) return ports;
  if (noisy > 1 && id() % 2) {
    // every commodity on its own, from its share of the stock
    have /= std::max<size_t>(1, out_commods.size());
    for (size_t i = 0; i < out_commods.size(); i++) {
      std::vector<cyclus::Request<Material>*>& rs = reqs[out_commods[i]];
      if (rs.empty()) continue;
      cyclus::BidPortfolio<Material>::Ptr one(new cyclus::BidPortfolio<Material>());
      for (size_t k = 0; k < rs.size(); k++) one->AddBid(rs[k], Material::CreateUntracked(std::min(have, rs[k]->target()->quantity()), rs[k]->target()->comp()), this);
      one->AddConstraint(cyclus::CapacityConstraint<Material>(have));
      ports.insert(one);
    }
    return ports;
  }
  cyclus::BidPortfolio<Material>::Ptr p(new cyclus::BidPortfolio<Material>());
  bool any = false;
  for (size_t i = 0; i < out_commods.size(); i++) {
    std::vector<cyclus::Request<Material>*>& rs = reqs[out_commods[i]];
    for (size_t k = 0; k < rs.size(); k++) {
      double q = std::min(have, rs[k]->target()->quantity());
      if (noisy > 1) {
        for (int n = 2; n < 5; n++) p->AddBid(rs[k], Material::CreateUntracked(q / n, rs[k]->target()->comp()), this);
      } else {
        p->AddBid(rs[k], Material::CreateUntracked(q, rs[k]->target()->comp()), this);
      }
      any = true;
    }
  }
  if (!any) return ports;
  p->AddConstraint(cyclus::CapacityConstraint<Material>(have));
  ports.insert(p);
  return ports;
}

std::set<cyclus::BidPortfolio<Product>::Ptr> VDyn::GetProductBids(cyclus::CommodMap<Product>::type& reqs) {
  std::set<cyclus::BidPortfolio<Product>::Ptr> ports;
  if (p_out == "") return ports;
  std::vector<cyclus::Request<Product>*>& rs = reqs[p_out];
  if (rs.empty()) return ports;
  cyclus::BidPortfolio<Product>::Ptr p(new cyclus::BidPortfolio<Product>());
  double have = 1 + ticks % 7;
  for (size_t k = 0; k < rs.size(); k++)
    p->AddBid(rs[k], Product::CreateUntracked(std::min(have, rs[k]->target()->quantity()), "any"), this);
  p->AddConstraint(cyclus::CapacityConstraint<Product>(have));
  ports.insert(p);
  return ports;
}

void VDyn::GetMatlTrades(const std::vector<cyclus::Trade<Material> >& trades,
                         std::vector<std::pair<cyclus::Trade<Material>, Material::Ptr> >& responses) {
  std::vector<cyclus::Trade<Material> > v = trades;
  if (noisy <= 0) std::sort(v.begin(), v.end(), by_partner<Material>);
  for (size_t i = 0; i < v.size(); i++) {
    double want = std::min(v[i].amt, out.quantity());
    Material::Ptr m;
    if (out.count() > 0 && cyclus::AlmostEq(want, out.Peek()->quantity())) {
      m = out.Pop();  // whole, in its package
    } else {
      m = out.Pop(want, cyclus::eps_rsrc());
    }
    sent[v[i].request->commodity()] += m->quantity();
    if (noisy > 0 && context()->random_01() < 0.3 && m->quantity() > 0.1) out.Push(m->ExtractQty(m->quantity() / 2));
    responses.push_back(std::make_pair(v[i], m));
    std::ostringstream o;
    o << vft::head("ship", this) << v[i].request->requester()->manager()->id() << "|" << v[i].request->commodity() << "|" << vft::rep(v[i].amt) << "|" << vft::rep(m->quantity());
    vft::say(o.str());
  }
}

void VDyn::GetProductTrades(const std::vector<cyclus::Trade<Product> >& trades,
                            std::vector<std::pair<cyclus::Trade<Product>, Product::Ptr> >& responses) {
  std::vector<cyclus::Trade<Product> > v = trades;
  if (noisy <= 0) std::sort(v.begin(), v.end(), by_partner<Product>);
  for (size_t i = 0; i < v.size(); i++) {
    Product::Ptr m = Product::Create(this, v[i].amt, tag + "q" + vft::rep(static_cast<int>(ticks % 4)));
    sent[p_out] += m->quantity();
    responses.push_back(std::make_pair(v[i], m));
  }
}

void VDyn::AcceptMatlTrades(const std::vector<std::pair<cyclus::Trade<Material>, Material::Ptr> >& responses) {
  std::vector<std::pair<cyclus::Trade<Material>, Material::Ptr> > v = responses;
  if (noisy <= 0) std::sort(v.begin(), v.end(), by_sender<Material>);
  for (size_t i = 0; i < v.size(); i++) {
    got += v[i].second->quantity();
    stock.Push(v[i].second);
    ages.push_back(context()->time());
  }
}

void VDyn::AcceptProductTrades(const std::vector<std::pair<cyclus::Trade<Product>, Product::Ptr> >& responses) {
  std::vector<std::pair<cyclus::Trade<Product>, Product::Ptr> > v = responses;
  if (noisy <= 0) std::sort(v.begin(), v.end(), by_sender<Product>);
  for (size_t i = 0; i < v.size(); i++) {
    got += v[i].second->quantity();
    pinv.Push(v[i].second);
    if (pinv.count() > 4) pinv.Pop();
  }
}

extern "C" cyclus::Agent* ConstructVDyn(cyclus::Context* ctx) { return new VDyn(ctx); }
