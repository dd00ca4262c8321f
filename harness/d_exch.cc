// The dynamic resource exchange, run for real between scripted traders.
// C03: no trade exceeds what was offered, constrained or asked for.
// C04: what the solvers choose, on exchange graphs, against independent optima.
// C05: the exchange protocol and its Transactions record.
#include <limits>

#include "cyc.h"
#include "exchange_graph.h"
#include "exchange_manager.h"
#include "greedy_preconditioner.h"
#include "greedy_solver.h"
#include "institution.h"
#include "prog_solver.h"
#include "region.h"

using namespace cyclus;
using namespace vf;

namespace {

template <class T> struct Conv : public Converter<T> {
  // units of the constraint used by a whole offer, by offer
  std::map<const T*, double>* k;
  int id;
  Conv(std::map<const T*, double>* kk, int i) : k(kk), id(i) {}
  virtual double convert(boost::shared_ptr<T> offer, Arc const* a, ExchangeTranslationContext<T> const* ctx) const {
    return offer->quantity() * k->at(offer.get());
  }
  virtual bool operator==(Converter<T>& o) const {
    Conv<T>* c = dynamic_cast<Conv<T>*>(&o);
    return c != NULL && c->id == id;
  }
};

// what the model knows of a request portfolio, a bid portfolio and their parts
template <class T> struct MReqPort;
template <class T> struct MReq {
  Request<T>* p;
  int agent;
  std::string commod;
  double qty, pref;
  bool excl;
  int port;
};
template <class T> struct MReqPort {
  typename RequestPortfolio<T>::Ptr p;
  double qty = 0;
  bool mutual = false, extra = false;
};
template <class T> struct MBid {
  Bid<T>* p;
  int agent;
  Request<T>* req;
  double qty, pref;   // pref NaN: not set
  bool excl;
  int port, offer;
};
template <class T> struct MBidPort {
  typename BidPortfolio<T>::Ptr p;
  std::vector<double> caps;
  std::vector<std::map<const T*, double> > k;  // per constraint
};
template <class T> struct MTrade {
  Bid<T>* bid;
  Request<T>* req;
  double amt;
  int supplier;
};
template <class T> struct MResp {
  Bid<T>* bid;
  Request<T>* req;
  double amt;
  typename T::Ptr r;
  int supplier;
  int taken = 0;
};

enum Ev { QREQ, QBID, ADJ, GIVE, TAKE };
struct Event { Ev e; int who; int for_; };

class Tr;
template <class T> struct World;
struct Hooks {
  World<Material>* wm = nullptr;
  World<Product>* wp = nullptr;
};

template <class T> struct World {
  Rng* r;
  std::vector<MReq<T> > reqs;
  std::vector<MReqPort<T> > rports;
  std::vector<MBid<T> > bids;
  std::vector<std::unique_ptr<MBidPort<T> > > bports;
  std::vector<typename T::Ptr> offers;
  std::map<Request<T>*, int> reqi;
  std::map<Bid<T>*, int> bidi;
  std::map<Request<T>*, std::map<Bid<T>*, double> > prefs;  // as last left by an adjuster
  std::vector<MTrade<T> > trades;
  std::vector<MResp<T> > resps;
  std::vector<Event> log;
  std::map<int, int> parent;         // agent -> parent agent, -1 none
  std::vector<std::string> commods;
  std::vector<Trader*> everyone;
  Comp comp;
  std::string quality;
  bool allow_zero = false, allow_extra = false, allow_excl = true, allow_neg = true, only_default = false;
  bool shared_offers = false;
  double scale = 1;
  bool skim = false;                 // suppliers may answer with another quantity
  bool refuse = false;               // suppliers may leave a trade unanswered
  int protocol = 0;

  typename T::Ptr untracked(double q);
  typename T::Ptr tracked(Agent* a, double q);

  double rqty() {
    double q;
    switch (r->below(4)) {
      case 0: q = r->range(1, 10); break;
      case 1: q = r->range(1, 40) * 0.25; break;
      case 2: q = r->real(0.2, 10); break;
      default: q = r->range(1, 30) * 0.1; break;
    }
    return q * scale;
  }
  double rpref() {
    switch (r->below(3)) {
      case 0: return r->range(1, 4);
      case 1: return r->range(1, 8) * 0.25;
      default: return r->real(0.05, 5);
    }
  }

  std::set<typename RequestPortfolio<T>::Ptr> ask(Trader* t, int who) {
    log.push_back(Event{QREQ, who, who});
    std::set<typename RequestPortfolio<T>::Ptr> out;
    int np = r->chance(0.7) ? 1 : r->range(0, 2);
    for (int i = 0; i < np; i++) {
      MReqPort<T> mp;
      mp.p = typename RequestPortfolio<T>::Ptr(new RequestPortfolio<T>());
      int nr = r->range(1, 3);
      std::vector<Request<T>*> made;
      double same = rqty();
      bool mutual = nr > 1 && r->chance(0.25) && !only_default;
      bool equal = r->chance(0.5);
      for (int j = 0; j < nr; j++) {
        double q = mutual && equal ? same : rqty();
        MReq<T> m;
        m.agent = who;
        m.commod = r->pick(commods);
        m.qty = q;
        m.pref = rpref();
        m.excl = allow_excl && r->chance(0.2);
        m.port = static_cast<int>(rports.size());
        m.p = mp.p->AddRequest(untracked(q), t, m.commod, m.pref, m.excl);
        mp.qty += q;
        reqi[m.p] = static_cast<int>(reqs.size());
        reqs.push_back(m);
        made.push_back(m.p);
        trace(Fmt() << "request " << reqi[m.p] << " agent " << who << " portfolio " << m.port << " " << m.commod << " qty " << q << " pref " << m.pref << (m.excl ? " exclusive" : ""));
      }
      VF_CHECK(mp.p->requester() == t, "the portfolio of agent " << who << " is another's");
      if (r->chance(0.1)) {  // a portfolio is one trader's
        Trader* o = r->pick(everyone);
        if (o != t) {
          bool refused = false;
          try { mp.p->AddRequest(untracked(1), o, r->pick(commods)); } catch (KeyError&) { refused = true; }
          VF_CHECK(refused && mp.p->requests().size() == made.size() && mp.p->requester() == t, "another trader's request is taken into a portfolio of agent " << who);
          count("foreign_refused");
        }
      }
      VF_CHECK(close(mp.p->qty(), mp.qty, 1e-12, 0), "a portfolio of agent " << who << " asks for " << mp.p->qty() << ", its requests for " << mp.qty);
      if (mutual) {
        double s = 0;
        for (auto* x : made) s += reqs[reqi[x]].qty;
        mp.p->AddMutualReqs(made);
        mp.qty = s / made.size();
        mp.mutual = true;
        VF_CHECK(close(mp.p->qty(), mp.qty, 1e-9, 0), "mutual requests amount to " << mp.p->qty() << ", expected " << mp.qty);
        trace(Fmt() << "portfolio " << rports.size() << " mutual, qty " << mp.qty);
      }
      if (allow_extra && r->chance(0.15)) {
        // a further requirement of the requester, in its own units
        double c = mp.qty * r->real(0.3, 1.5);
        mp.p->AddConstraint(CapacityConstraint<T>(c));
        mp.extra = true;
        trace(Fmt() << "portfolio " << rports.size() << " extra constraint " << c);
      }
      rports.push_back(mp);
      out.insert(mp.p);
    }
    return out;
  }

  std::set<typename BidPortfolio<T>::Ptr> bid(Trader* t, int who, typename CommodMap<T>::type& cm) {
    log.push_back(Event{QBID, who, who});
    // every request is visible, under its commodity, exactly once
    if (protocol) {
      std::set<Request<T>*> seen;
      for (auto& c : cm)
        for (auto* q : c.second) {
          VF_CHECK(reqi.count(q), "bidder " << who << " is shown a request nobody made");
          VF_CHECK(reqs[reqi[q]].commod == c.first, "bidder " << who << " is shown request " << reqi[q] << " under commodity " << c.first);
          VF_CHECK(seen.insert(q).second, "bidder " << who << " is shown request " << reqi[q] << " twice");
        }
      VF_CHECK(seen.size() == reqs.size(), "bidder " << who << " is shown " << seen.size() << " of " << reqs.size() << " requests");
      count("bid_queries_checked");
    }
    std::set<typename BidPortfolio<T>::Ptr> out;
    int np = r->chance(0.7) ? 1 : r->range(0, 2);
    for (int i = 0; i < np; i++) {
      std::unique_ptr<MBidPort<T> > mp(new MBidPort<T>());
      mp->p = typename BidPortfolio<T>::Ptr(new BidPortfolio<T>());
      int nc = r->chance(0.2) ? 3 : r->range(0, 2);
      for (int c = 0; c < nc; c++) mp->k.push_back(std::map<const T*, double>());
      bool plain = r->chance(0.5);     // first constraint counts kilograms
      std::vector<int> mine;
      double tot = 0;
      int lastoff = -1;
      for (size_t q = 0; q < reqs.size(); q++) {
        if (!r->chance(0.6) || bids.size() > 40) continue;
        MBid<T> m;
        m.agent = who;
        m.req = reqs[q].p;
        m.excl = allow_excl && r->chance(0.2);
        if (m.excl && shared_offers && lastoff >= 0 && r->chance(0.5)) {
          m.offer = lastoff;
          m.qty = offers[lastoff]->quantity();
        } else {
          m.qty = r->chance(0.4) ? reqs[q].qty : rqty();
          m.offer = static_cast<int>(offers.size());
          offers.push_back(untracked(m.qty));
          for (int c = 0; c < nc; c++) {
            double k = (c == 0 && plain) ? 1.0 : (allow_zero && r->chance(0.2)) ? 0.0 : r->chance(0.5) ? r->range(1, 8) * 0.25 : r->real(0.05, 4);
            mp->k[c][offers.back().get()] = k;
          }
          if (m.excl) lastoff = m.offer;
        }
        m.pref = r->chance(0.4) ? rpref() : std::numeric_limits<double>::quiet_NaN();
        if (allow_neg && r->chance(0.05)) m.pref = -1;
        m.port = static_cast<int>(bports.size());
        m.p = std::isnan(m.pref) ? mp->p->AddBid(m.req, offers[m.offer], t, m.excl) : mp->p->AddBid(m.req, offers[m.offer], t, m.excl, m.pref);
        bidi[m.p] = static_cast<int>(bids.size());
        mine.push_back(static_cast<int>(bids.size()));
        tot += m.qty;
        trace(Fmt() << "bid " << bids.size() << " agent " << who << " portfolio " << m.port << " on request " << q << " offer " << m.offer << " qty " << m.qty << " pref " << m.pref << (m.excl ? " exclusive" : ""));
        bids.push_back(m);
      }
      if (mine.empty()) continue;
      VF_CHECK(mp->p->bidder() == t, "the bids of agent " << who << " are another's");
      if (r->chance(0.1)) {  // bids of another, or of nothing, are refused
        Trader* o = r->pick(everyone);
        bool refused = false;
        try {
          if (o != t) mp->p->AddBid(reqs[0].p, untracked(1), o);
          else mp->p->AddBid(reqs[0].p, untracked(0), t);
        } catch (KeyError&) { refused = o != t; } catch (ValueError&) { refused = o == t; }
        VF_CHECK(refused && mp->p->bids().size() == mine.size() && mp->p->bidder() == t, (o != t ? "another trader's bid" : "an empty bid") << " is taken into a portfolio of agent " << who);
        count("foreign_refused");
      }
      for (int c = 0; c < nc; c++) {
        double use = 0;
        for (int b : mine) use += bids[b].qty * mp->k[c].at(offers[bids[b].offer].get());
        double cap = use * r->real(0.1, 1.2);
        if (r->chance(0.2)) cap = std::max(1.0, std::floor(cap));
        if (!(cap > 0)) cap = 1;
        if (r->chance(0.12)) { cap = std::numeric_limits<double>::max(); count("unlimited_constraints"); }
        mp->caps.push_back(cap);
        if (c == 0 && plain && r->chance(0.5)) {
          mp->p->AddConstraint(CapacityConstraint<T>(cap));
        } else {
          typename Converter<T>::Ptr cv(new Conv<T>(&mp->k[c], c));
          mp->p->AddConstraint(CapacityConstraint<T>(cap, cv));
        }
        std::ostringstream o;
        for (auto& x : mp->k[c]) o << " " << x.second;
        trace(Fmt() << "bid portfolio " << bports.size() << " capacity " << cap << " uses" << o.str());
      }
      out.insert(mp->p);
      bports.push_back(std::move(mp));
    }
    return out;
  }

  void adjust(int who, typename PrefMap<T>::type& pm) {
    // whose bids are these?
    int req = -1;
    for (auto& q : pm) req = reqs[reqi.at(q.first)].agent;
    log.push_back(Event{ADJ, who, req});
    for (auto& q : pm) {
      if (protocol) VF_CHECK(reqs[reqi.at(q.first)].agent == req, "preferences of two requesters are mixed");
      for (auto& b : q.second) {
        double want;
        if (prefs[q.first].count(b.first)) {
          want = prefs[q.first][b.first];
        } else {
          const MBid<T>& mb = bids[bidi.at(b.first)];
          want = std::isnan(mb.pref) ? reqs[reqi.at(q.first)].pref : mb.pref;
        }
        if (protocol) {
          VF_CHECK(b.second == want, "agent " << who << " sees preference " << b.second << " for bid " << bidi[b.first] << ", expected " << want);
          count("preferences_checked");
        }
        if (r->chance(0.25)) {
          if (allow_neg && r->chance(0.2)) b.second = -r->real(0.1, 2);
          else b.second = rpref();
        }
        prefs[q.first][b.first] = b.second;
      }
    }
  }

  double final_pref(const MBid<T>& b) {
    auto it = prefs.find(b.req);
    if (it != prefs.end() && it->second.count(b.p)) return it->second[b.p];
    return std::isnan(b.pref) ? reqs[reqi.at(b.req)].pref : b.pref;
  }

  void give(Agent* a, int who, const std::vector<Trade<T> >& ts, std::vector<std::pair<Trade<T>, typename T::Ptr> >& out) {
    log.push_back(Event{GIVE, who, who});
    for (auto& t : ts) {
      trades.push_back(MTrade<T>{t.bid, t.request, t.amt, who});
      trace(Fmt() << "trade bid " << (bidi.count(t.bid) ? bidi[t.bid] : -1) << " request " << (reqi.count(t.request) ? reqi[t.request] : -1) << " amount " << t.amt << " by " << who);
      if (refuse && r->chance(0.1)) continue;
      double q = t.amt;
      if (skim && r->chance(0.3)) q = r->chance(0.3) ? 0.4 * cyclus::eps_rsrc() : q * r->real(0.5, 1);
      typename T::Ptr x = tracked(a, q);
      resps.push_back(MResp<T>{t.bid, t.request, t.amt, x, who});
      out.push_back(std::make_pair(t, x));
    }
  }

  void take(int who, const std::vector<std::pair<Trade<T>, typename T::Ptr> >& rs) {
    log.push_back(Event{TAKE, who, who});
    for (auto& x : rs) {
      bool found = false;
      for (auto& y : resps)
        if (y.r == x.second) {
          found = true;
          VF_CHECK(y.taken == 0, "a response is delivered twice");
          VF_CHECK(y.bid == x.first.bid && y.req == x.first.request && y.amt == x.first.amt, "a response is delivered with another trade");
          VF_CHECK(reqs[reqi.at(y.req)].agent == who, "a response to request " << reqi.at(y.req) << " is delivered to agent " << who);
          y.taken++;
        }
      VF_CHECK(found, "agent " << who << " receives a resource nobody sent");
    }
  }

  void clear() {
    prefs.clear(); reqi.clear(); bidi.clear(); reqs.clear(); bids.clear(); trades.clear(); resps.clear(); log.clear();
    rports.clear(); bports.clear(); offers.clear(); parent.clear();
  }
};

template <> Material::Ptr World<Material>::untracked(double q) { return Material::CreateUntracked(q, comp); }
template <> Product::Ptr World<Product>::untracked(double q) { return Product::CreateUntracked(q, quality); }
template <> Material::Ptr World<Material>::tracked(Agent* a, double q) { return Material::Create(a, q, comp); }
template <> Product::Ptr World<Product>::tracked(Agent* a, double q) { return Product::Create(a, q, quality); }

class Tr : public Fac {
 public:
  Hooks* h;
  Tr(Context* c, Hooks* hh) : Fac(c), h(hh) {}
  virtual std::set<RequestPortfolio<Material>::Ptr> GetMatlRequests() { return h->wm->ask(this, id()); }
  virtual std::set<RequestPortfolio<Product>::Ptr> GetProductRequests() { return h->wp->ask(this, id()); }
  virtual std::set<BidPortfolio<Material>::Ptr> GetMatlBids(CommodMap<Material>::type& c) { return h->wm->bid(this, id(), c); }
  virtual std::set<BidPortfolio<Product>::Ptr> GetProductBids(CommodMap<Product>::type& c) { return h->wp->bid(this, id(), c); }
  virtual void AdjustMatlPrefs(PrefMap<Material>::type& p) { h->wm->adjust(id(), p); }
  virtual void AdjustProductPrefs(PrefMap<Product>::type& p) { h->wp->adjust(id(), p); }
  virtual void GetMatlTrades(const std::vector<Trade<Material> >& t, std::vector<std::pair<Trade<Material>, Material::Ptr> >& o) { h->wm->give(this, id(), t, o); }
  virtual void GetProductTrades(const std::vector<Trade<Product> >& t, std::vector<std::pair<Trade<Product>, Product::Ptr> >& o) { h->wp->give(this, id(), t, o); }
  virtual void AcceptMatlTrades(const std::vector<std::pair<Trade<Material>, Material::Ptr> >& r) { h->wm->take(id(), r); }
  virtual void AcceptProductTrades(const std::vector<std::pair<Trade<Product>, Product::Ptr> >& r) { h->wp->take(id(), r); }
};
class Ins : public Institution {
 public:
  Hooks* h;
  Ins(Context* c, Hooks* hh) : Institution(c), h(hh) { cyclus::Agent::prototype("vf_inst"); cyclus::Agent::spec("vf:inst"); }
  virtual Agent* Clone() { return new Ins(context(), h); }
  virtual void InitInv(Inventories&) {}
  virtual Inventories SnapshotInv() { return Inventories(); }
  virtual void AdjustMatlPrefs(PrefMap<Material>::type& p) { h->wm->adjust(id(), p); }
  virtual void AdjustProductPrefs(PrefMap<Product>::type& p) { h->wp->adjust(id(), p); }
};
class Reg : public Region {
 public:
  Hooks* h;
  Reg(Context* c, Hooks* hh) : Region(c), h(hh) { cyclus::Agent::prototype("vf_reg"); cyclus::Agent::spec("vf:reg"); }
  virtual Agent* Clone() { return new Reg(context(), h); }
  virtual void InitInv(Inventories&) {}
  virtual Inventories SnapshotInv() { return Inventories(); }
  virtual void AdjustMatlPrefs(PrefMap<Material>::type& p) { h->wm->adjust(id(), p); }
  virtual void AdjustProductPrefs(PrefMap<Product>::type& p) { h->wp->adjust(id(), p); }
};

// ------------------------------------------------------------------ C03
template <class T> void feasible(World<T>& w, bool prog, bool excl_orders) {
  const double rel = prog ? 1e-5 : 1e-7;
  auto over = [&](double have, double lim) { return have > lim + rel * std::max(1.0, lim) + (prog ? 1e-5 : 1e-7); };
  std::map<int, double> by_bid, by_req, by_rport;
  std::map<int, int> n_req, n_offer;
  std::map<int, std::vector<double> > by_bport;
  for (auto& t : w.trades) {
    VF_CHECK(w.bidi.count(t.bid) && w.reqi.count(t.req), "a trade of an unknown bid or request");
    int bi = w.bidi[t.bid], ri = w.reqi[t.req];
    MBid<T>& b = w.bids[bi];
    MReq<T>& q = w.reqs[ri];
    VF_CHECK(b.req == t.req, "bid " << bi << " is traded for request " << ri << ", which it does not answer");
    VF_CHECK(b.agent == t.supplier, "bid " << bi << " is to be served by agent " << t.supplier);
    VF_CHECK(t.amt > 0, "a trade of " << t.amt);
    VF_CHECK(std::isfinite(t.amt), "a trade of " << t.amt);
    VF_CHECK(w.final_pref(b) > 0, "bid " << bi << " is traded although its preference is " << w.final_pref(b));
    VF_CHECK(!by_bid.count(bi), "bid " << bi << " is traded twice");
    by_bid[bi] = t.amt;
    by_req[ri] += t.amt;
    by_rport[q.port] += t.amt;
    std::vector<double>& u = by_bport[b.port];
    u.resize(w.bports[b.port]->caps.size());
    for (size_t c = 0; c < u.size(); c++) u[c] += t.amt * w.bports[b.port]->k[c].at(w.offers[b.offer].get());
    VF_CHECK(!over(t.amt, b.qty), "bid " << bi << " offers " << b.qty << " but trades " << t.amt);
    VF_CHECK(!over(t.amt, q.qty), "request " << ri << " of " << q.qty << " gets a trade of " << t.amt);
    bool noise = prog && t.amt < 1e-5 * std::max(1.0, q.qty);
    if (!noise) {
      n_req[ri]++;
      if (b.excl) n_offer[b.offer]++;
      if ((!prog || excl_orders) && q.excl) VF_CHECK(close(t.amt, q.qty, 1e-5, 1e-9), "exclusive request " << ri << " of " << q.qty << " gets a trade of " << t.amt);
      if ((!prog || excl_orders) && b.excl) VF_CHECK(close(t.amt, b.qty, 1e-5, 1e-9), "exclusive bid " << bi << " of " << b.qty << " trades " << t.amt);
    }
    count(prog ? "trades_prog" : "trades_greedy");
    if (q.excl || b.excl) count("exclusive_trades");
  }
  for (auto& p : by_bport)
    for (size_t c = 0; c < p.second.size(); c++) {
      double cap = w.bports[p.first]->caps[c];
      VF_CHECK(!over(p.second[c], cap), "bid portfolio " << p.first << " has capacity " << cap << " in constraint " << c << " but its trades use " << p.second[c]);
      count("supply_constraints_checked");
      if (p.second[c] > 0.999 * cap) count("supply_constraints_tight");
    }
  for (auto& p : n_req)
    if (w.reqs[p.first].excl && (!prog || excl_orders)) VF_CHECK(p.second == 1, "exclusive request " << p.first << " is met by " << p.second << " trades");
  if (prog && excl_orders)
    for (auto& p : n_offer) VF_CHECK(p.second == 1, "exclusive offer " << p.first << " is traded " << p.second << " times");
  if (!prog) {
    for (auto& p : by_req) VF_CHECK(!over(p.second, w.reqs[p.first].qty), "request " << p.first << " of " << w.reqs[p.first].qty << " gets " << p.second);
    for (auto& p : by_rport) VF_CHECK(!over(p.second, w.rports[p.first].qty), "request portfolio " << p.first << " of " << w.rports[p.first].qty << " gets " << p.second);
  } else {
    // the optimiser meets the demand of a portfolio with continuous trades exactly
    for (auto& p : by_rport) {
      bool whole = false;
      for (auto& b : w.bids) {
        auto& q = w.reqs[w.reqi[b.req]];
        if (q.port == p.first && (q.excl || b.excl) && excl_orders) whole = true;
      }
      if (whole || w.rports[p.first].mutual || w.rports[p.first].extra) continue;
      VF_CHECK(!over(p.second, w.rports[p.first].qty), "request portfolio " << p.first << " of " << w.rports[p.first].qty << " gets " << p.second);
    }
  }
}

// ------------------------------------------------------------------ C05
template <class T> void protocol(World<T>& w, Sim& sim, size_t row0, const std::vector<int>& traders, const char* restype) {
  std::map<int, int> nreq, nbid, ntake, ngive;
  std::map<int, std::vector<int> > adj;
  int phase = 0;
  auto rank = [](Ev e) { return static_cast<int>(e); };
  std::set<int> requesters;
  for (auto& q : w.reqs) requesters.insert(q.agent);
  for (auto& e : w.log) {
    VF_CHECK(rank(e.e) >= phase, "exchange phases are out of order (phase " << rank(e.e) << " after " << phase << ")");
    phase = rank(e.e);
    if (e.e == QREQ) nreq[e.who]++;
    if (e.e == QBID) nbid[e.who]++;
    if (e.e == GIVE) ngive[e.who]++;
    if (e.e == TAKE) ntake[e.who]++;
    if (e.e == ADJ && e.for_ >= 0) adj[e.for_].push_back(e.who);
  }
  for (int t : traders) {
    VF_CHECK(nreq[t] == 1, "agent " << t << " is asked for requests " << nreq[t] << " times");
    VF_CHECK(nbid[t] == 1, "agent " << t << " is asked for bids " << nbid[t] << " times");
  }
  VF_CHECK(nreq.size() == traders.size() && nbid.size() == traders.size(), "an agent outside the exchange is queried");
  // a requester with bids adjusts first, then its parent and so on up
  std::set<int> bid_on;
  for (auto& b : w.bids) bid_on.insert(w.reqs[w.reqi[b.req]].agent);
  for (int a : bid_on) {
    std::vector<int> want;
    for (int x = a; x >= 0; x = w.parent[x]) want.push_back(x);
    VF_CHECK(adj[a] == want, "preferences of agent " << a << " are adjusted by " << adj[a].size() << " agents, expected it and its " << want.size() - 1 << " ancestors in order");
    count("adjust_chains_checked");
  }
  std::set<int> sup, rec;
  for (auto& t : w.trades) {
    sup.insert(t.supplier);
    rec.insert(w.reqs[w.reqi[t.req]].agent);
  }
  for (int s : sup) VF_CHECK(ngive[s] == 1, "supplier " << s << " is asked for its trades " << ngive[s] << " times");
  for (int a : rec) VF_CHECK(ntake[a] == 1, "requester " << a << " is handed its trades " << ntake[a] << " times");
  for (auto& x : w.resps) VF_CHECK(x.taken == 1, "a response to request " << w.reqi[x.req] << " is delivered " << x.taken << " times");
  // the Transactions table
  sim.rec.Flush();
  std::map<int, const Row*> rows;
  static std::set<int> dummy;
  for (size_t i = row0; i < sim.back.rows.size(); i++) {
    const Row& x = sim.back.rows[i];
    if (x.table != "Transactions") continue;
    int rid = x.i("ResourceId");
    VF_CHECK(!rows.count(rid), "two transactions of resource " << rid);
    rows[rid] = &x;
  }
  size_t n = 0;
  for (auto& x : w.resps) {
    if (x.r->quantity() <= cyclus::eps_rsrc()) continue;
    n++;
    int rid = x.r->state_id();
    VF_CHECK(rows.count(rid), "no transaction is recorded for resource " << rid << " sent to request " << w.reqi[x.req]);
    const Row& t = *rows[rid];
    VF_CHECK(t.i("SenderId") == x.supplier, "transaction of resource " << rid << ": sender " << t.i("SenderId") << ", expected " << x.supplier);
    VF_CHECK(t.i("ReceiverId") == w.reqs[w.reqi[x.req]].agent, "transaction of resource " << rid << ": receiver " << t.i("ReceiverId"));
    VF_CHECK(t.s("Commodity") == w.reqs[w.reqi[x.req]].commod, "transaction of resource " << rid << ": commodity " << t.s("Commodity"));
    VF_CHECK(t.i("Time") == sim.ctx->t, "transaction of resource " << rid << ": time " << t.i("Time"));
    count("transactions_checked");
  }
  VF_CHECK(rows.size() == n, rows.size() << " transactions recorded, " << n << " expected");
}

template <class T> void one_exchange(Rng& r, bool c05) {
  Sim sim(r.range(1, 40));
  sim.init();
  Hooks h;
  World<T> w;
  World<Material> wm0;
  World<Product> wp0;
  h.wm = &wm0;
  h.wp = &wp0;
  if (std::is_same<T, Material>::value) h.wm = reinterpret_cast<World<Material>*>(&w);
  else h.wp = reinterpret_cast<World<Product>*>(&w);
  w.r = &r;
  static long uniq = 0;
  w.quality = Fmt() << "xq" << ++uniq;
  w.comp = random_comp(r);
  int nc = r.range(1, 3);
  for (int i = 0; i < nc; i++) w.commods.push_back(Fmt() << "c" << i);
  w.scale = r.chance(0.7) ? 1 : r.chance(0.5) ? 1e-2 : 1e3;
  bool prog = !c05 ? r.chance(0.4) : r.chance(0.1);
  bool excl_orders = r.chance(0.8);
  w.allow_zero = r.chance(0.2);
  w.allow_extra = r.chance(0.2);
  w.allow_excl = r.chance(0.6);
  w.shared_offers = w.allow_excl && r.chance(0.5);
  w.protocol = c05;
  w.skim = c05;
  w.refuse = c05;
  if (prog) w.scale = 1;
  std::string sname;
  if (prog) {
    sim.ctx->solver(new ProgSolver("cbc", 20.0, excl_orders, false, false));
    sname = excl_orders ? "cbc, exclusive orders" : "cbc";
  } else if (r.chance(0.3)) {
    sname = "context default greedy";
  } else if (r.chance(0.5)) {
    std::map<std::string, double> ws;
    for (auto& c : w.commods) ws[c] = r.range(1, 5);
    sim.ctx->solver(new GreedySolver(excl_orders, new GreedyPreconditioner(ws, r.chance(0.5) ? GreedyPreconditioner::REVERSE : GreedyPreconditioner::END)));
    sname = "greedy with weights";
  } else {
    sim.ctx->solver(new GreedySolver(excl_orders));
    sname = "greedy";
  }
  trace("solver: " + sname);
  if (r.chance(0.05)) {  // a constraint has room for something
    double c = r.chance(0.5) ? 0 : -r.logreal(1e-6, 1e6);
    bool refused = false;
    try {
      if (r.chance(0.5)) CapacityConstraint<T> x(c);
      else CapacityConstraint<T> x(c, typename Converter<T>::Ptr(new TrivialConverter<T>()));
    } catch (ValueError&) { refused = true; }
    VF_CHECK(refused, "a capacity of " << c << " is accepted");
    count("capacities_refused");
  }
  // agents: regions, institutions, facilities, some without parents
  std::vector<Agent*> regs, inss;
  std::vector<int> ids;
  std::map<int, Tr*> live;
  std::map<int, int> parent;
  auto build = [&](Agent* a, Agent* p) {
    a->Build(p);
    parent[a->id()] = p ? p->id() : -1;
  };
  for (int i = 0, n = r.range(0, 2); i < n; i++) { regs.push_back(new Reg(sim.ctx, &h)); build(regs.back(), NULL); }
  for (int i = 0, n = r.range(0, 2); i < n; i++) { inss.push_back(new Ins(sim.ctx, &h)); build(inss.back(), regs.empty() ? NULL : r.pick(regs)); }
  int nt = r.range(2, 5);
  for (int i = 0; i < nt; i++) {
    Tr* t = new Tr(sim.ctx, &h);
    build(t, inss.empty() || r.chance(0.2) ? NULL : r.pick(inss));
    ids.push_back(t->id());
    live[t->id()] = t;
  }
  std::set<int> txids;
  std::unique_ptr<ExchangeManager<T> > em;
  int rounds = r.range(1, 3);
  for (int k = 0; k < rounds; k++) {
    sim.ctx->t = k * 2;
    if (k && r.chance(0.4)) {
      int at = r.below(ids.size()), id = ids[at];
      live[id]->Decommission();
      live.erase(id);
      parent.erase(id);
      ids.erase(ids.begin() + at);
      trace(Fmt() << "agent " << id << " leaves");
      count("traders_left");
    }
    if (k && (ids.empty() || r.chance(0.4))) {
      Tr* t = new Tr(sim.ctx, &h);
      build(t, inss.empty() || r.chance(0.2) ? NULL : r.pick(inss));
      ids.push_back(t->id());
      live[t->id()] = t;
      trace(Fmt() << "agent " << t->id() << " joins");
      count("traders_joined");
    }
    sim.rec.Flush();
    size_t row0 = sim.back.rows.size();
    w.clear();
    w.parent = parent;
    w.everyone.clear();
    for (auto& x : live) w.everyone.push_back(x.second);
    trace(Fmt() << "round " << k);
    if (!em || r.chance(0.3)) em.reset(new ExchangeManager<T>(sim.ctx));
    em->Execute();
    count("exchanges");
    count("requests", w.reqs.size());
    count("bids", w.bids.size());
    if (!c05) feasible(w, prog, excl_orders);
    else protocol(w, sim, row0, ids, "");
    if (!w.trades.empty()) nontrivial(hash_str(st().trace));
    if (w.trades.size() >= 2 && k == 0) sample(st().trace);
  }
  if (c05) {
    for (auto* x : sim.back.table("Transactions")) VF_CHECK(txids.insert(x->i("TransactionId")).second, "transaction id " << x->i("TransactionId") << " is used twice");
  }
}

void c03(Rng& r) { if (r.chance(0.6)) one_exchange<Material>(r, false); else one_exchange<Product>(r, false); }
void c05(Rng& r) { if (r.chance(0.6)) one_exchange<Material>(r, true); else one_exchange<Product>(r, true); }

// ------------------------------------------------------------------ C04
struct GArc { int u, v; double pref; Arc a; std::vector<double> uc; double flow = 0; };
struct GNode { ExchangeNode::Ptr n; int grp; double qty; bool excl; std::string commod; };
struct Graph {
  ExchangeGraph g;
  std::vector<RequestGroup::Ptr> rg;
  std::vector<ExchangeNodeGroup::Ptr> sg;
  std::vector<double> rq;
  std::vector<std::vector<double> > caps;
  std::vector<GNode> u, v;
  std::vector<GArc> arcs;
};

void make_graph(Rng& r, Graph& G, int maxarc, double pexcl, int nrg, int nsg, int maxcons, bool nodes_share) {
  auto qty = [&]() { return r.chance(0.4) ? (double)r.range(1, 8) : r.chance(0.5) ? r.range(1, 30) * 0.25 : r.real(0.3, 9); };
  for (int i = 0; i < nrg; i++) {
    int nn = r.range(1, 3);
    double tot = 0;
    std::vector<GNode> ns;
    for (int j = 0; j < nn; j++) {
      GNode x;
      x.qty = qty();
      x.excl = r.chance(pexcl);
      x.commod = std::string("c") + char('0' + r.below(3));
      x.grp = i;
      x.n = ExchangeNode::Ptr(new ExchangeNode(x.qty, x.excl, x.commod, i));
      tot += x.qty;
      ns.push_back(x);
    }
    if (nodes_share && r.chance(0.5)) tot *= r.real(0.4, 1.0);
    RequestGroup::Ptr g(new RequestGroup(tot));
    g->AddCapacity(tot);
    for (auto& x : ns) { g->AddExchangeNode(x.n); G.u.push_back(x); }
    G.g.AddRequestGroup(g);
    G.rg.push_back(g);
    G.rq.push_back(tot);
    trace(Fmt() << "request group " << i << " qty " << tot);
    for (auto& x : ns) trace(Fmt() << "  node qty " << x.qty << " " << x.commod << (x.excl ? " exclusive" : ""));
  }
  for (int i = 0; i < nsg; i++) {
    ExchangeNodeGroup::Ptr g(new ExchangeNodeGroup());
    std::vector<double> cs;
    int nc = r.range(0, maxcons);
    for (int c = 0; c < nc; c++) { cs.push_back(r.chance(0.1) ? std::numeric_limits<double>::max() : r.chance(0.3) ? (double)r.range(1, 10) : r.real(0.5, 15)); g->AddCapacity(cs.back()); }
    G.caps.push_back(cs);
    G.sg.push_back(g);
    G.g.AddSupplyGroup(g);
    std::ostringstream o;
    for (double c : cs) o << " " << c;
    trace(Fmt() << "supply group " << i << " capacities" << o.str());
  }
  for (size_t u = 0; u < G.u.size(); u++)
    for (int s = 0; s < nsg; s++) {
      if (!r.chance(0.65) || (int)G.arcs.size() >= maxarc) continue;
      GNode x;
      x.qty = r.chance(0.35) ? G.u[u].qty : qty();
      x.excl = r.chance(pexcl);
      x.grp = s;
      x.commod = G.u[u].commod;
      x.n = ExchangeNode::Ptr(new ExchangeNode(x.qty, x.excl, x.commod, 100 + s));
      G.sg[s]->AddExchangeNode(x.n);
      G.v.push_back(x);
      GArc a;
      a.u = (int)u;
      a.v = (int)G.v.size() - 1;
      a.pref = r.chance(0.5) ? r.range(1, 4) : r.real(0.2, 5);
      a.a = Arc(G.u[u].n, x.n);
      a.a.pref(a.pref);
      G.u[u].n->prefs[a.a] = a.pref;
      G.u[u].n->unit_capacities[a.a].push_back(1.0);
      for (size_t c = 0; c < G.caps[s].size(); c++) {
        double k = r.chance(0.4) ? 1.0 : r.real(0.2, 3);
        a.uc.push_back(k);
        x.n->unit_capacities[a.a].push_back(k);
      }
      if (G.caps[s].empty()) x.n->unit_capacities[a.a];
      G.g.AddArc(a.a);
      G.arcs.push_back(a);
      std::ostringstream o;
      for (double c : a.uc) o << " " << c;
      trace(Fmt() << "arc " << G.arcs.size() - 1 << " node " << u << " (group " << G.u[u].grp << ") - supply " << s << " offer " << x.qty << (x.excl ? " exclusive" : "") << " pref " << a.pref << " uses" << o.str());
    }
}

void read_matches(Graph& G) {
  for (auto& a : G.arcs) a.flow = 0;
  for (auto& m : G.g.matches()) {
    bool hit = false;
    for (auto& a : G.arcs)
      if (a.a == m.first) { a.flow += m.second; hit = true; }
    VF_CHECK(hit, "a match on an arc that is not in the graph");
  }
  for (size_t i = 0; i < G.arcs.size(); i++) if (G.arcs[i].flow > 0) trace(Fmt() << "match arc " << i << " flow " << G.arcs[i].flow);
}

const double TOL = 1e-6;

void c04_greedy(Rng& r) {
  Graph G;
  bool mixed = r.chance(0.4);
  make_graph(r, G, 40, mixed ? 0.2 : 0, r.range(1, 5), r.range(1, 4), 2, true);
  std::map<std::string, double> ws;
  GreedyPreconditioner* pc;
  bool rev = false;
  if (r.chance(0.6)) {
    double lo = 1e9, hi = 0;
    for (int i = 0; i < 3; i++) { double x = r.range(1, 6); ws[std::string("c") + char('0' + i)] = x; lo = std::min(lo, x); hi = std::max(hi, x); }
    rev = r.chance(0.4);
    pc = rev ? new GreedyPreconditioner(ws, GreedyPreconditioner::REVERSE) : r.chance(0.5) ? new GreedyPreconditioner(ws) : new GreedyPreconditioner(ws, GreedyPreconditioner::END);
    if (rev) for (auto& w : ws) w.second = lo + hi - w.second;
    for (auto& w : ws) trace(Fmt() << "weight " << w.first << " " << w.second);
  } else {
    pc = new GreedyPreconditioner();
  }
  GreedySolver s(true, pc);
  int reps = r.range(1, 2);
  for (int k = 0; k < reps; k++) {
    G.g.ClearMatches();
    s.Solve(&G.g);
    read_matches(G);
    count("greedy_solves");
    // usage
    std::vector<double> gu(G.rq.size(), 0), nu(G.u.size(), 0);
    std::vector<std::vector<double> > cu(G.caps.size());
    for (size_t i = 0; i < G.caps.size(); i++) cu[i].assign(G.caps[i].size(), 0);
    std::vector<std::vector<std::vector<double> > > by_group(G.rq.size(), cu);
    for (auto& a : G.arcs) {
      gu[G.u[a.u].grp] += a.flow;
      nu[a.u] += a.flow;
      for (size_t c = 0; c < a.uc.size(); c++) {
        cu[G.v[a.v].grp][c] += a.flow * a.uc[c];
        by_group[G.u[a.u].grp][G.v[a.v].grp][c] += a.flow * a.uc[c];
      }
    }
    auto supply_left = [&](const GArc& a) {
      double x = G.v[a.v].qty - a.flow;
      for (size_t c = 0; c < a.uc.size(); c++) x = std::min(x, (G.caps[G.v[a.v].grp][c] - cu[G.v[a.v].grp][c]) / a.uc[c]);
      return x;
    };
    auto demand_left = [&](const GArc& a) { return std::min(G.u[a.u].qty - nu[a.u], G.rq[G.u[a.u].grp] - gu[G.u[a.u].grp]); };
    // feasible
    for (size_t i = 0; i < G.arcs.size(); i++) {
      GArc& a = G.arcs[i];
      VF_CHECK(supply_left(a) > -TOL && demand_left(a) > -TOL, "arc " << i << " exceeds a limit: supply left " << supply_left(a) << ", demand left " << demand_left(a));
    }
    // nothing feasible is left on the table
    for (size_t i = 0; i < G.arcs.size(); i++) {
      GArc& a = G.arcs[i];
      double left = std::min(supply_left(a), demand_left(a));
      bool excl = G.u[a.u].excl || G.v[a.v].excl;
      if (!excl) {
        VF_CHECK(left < TOL, "arc " << i << " could carry " << left << " more");
        count("arcs_saturated");
      } else if (a.flow == 0) {
        double q = G.u[a.u].excl ? G.u[a.u].qty : G.v[a.v].qty;
        bool fits = G.u[a.u].excl && G.v[a.v].excl ? G.u[a.u].qty == G.v[a.v].qty : true;
        VF_CHECK(!(fits && left > q + TOL), "exclusive arc " << i << " of " << q << " is unmatched although " << left << " are free on both sides");
        count("exclusive_arcs_judged");
      }
    }
    // a request's preferred bids first
    for (size_t i = 0; i < G.arcs.size(); i++)
      for (size_t j = 0; j < G.arcs.size(); j++) {
        GArc &a = G.arcs[i], &b = G.arcs[j];
        if (a.u != b.u || !(a.pref > b.pref) || !(b.flow > TOL)) continue;
        if (G.u[a.u].excl || G.v[a.v].excl) continue;
        VF_CHECK(supply_left(a) < TOL, "request node " << a.u << " takes " << b.flow << " on arc " << j << " (pref " << b.pref << ") although arc " << i << " (pref " << a.pref << ") could supply " << supply_left(a));
        count("preference_pairs");
      }
    // within a group, requests with the higher average preference first
    std::vector<double> avg(G.u.size(), 0);
    for (size_t n = 0; n < G.u.size(); n++) {
      int c = 0;
      for (auto& a : G.arcs) if (a.u == (int)n) { avg[n] += a.pref; c++; }
      if (c) avg[n] /= c;
    }
    for (auto& a : G.arcs) {
      if (G.u[a.u].excl || G.v[a.v].excl) continue;
      for (size_t m = 0; m < G.u.size(); m++) {
        if ((int)m == a.u || G.u[m].grp != G.u[a.u].grp || !(avg[a.u] > avg[m] * (1 + 1e-9)) || !(nu[m] > TOL)) continue;
        double l = std::min(supply_left(a), G.u[a.u].qty - nu[a.u]);
        VF_CHECK(l < TOL, "request node " << m << " (average preference " << avg[m] << ") is served although node " << a.u << " (" << avg[a.u] << ") of its group could take " << l << " more");
        count("node_order_pairs");
      }
    }
    // higher-weight groups first
    std::vector<double> gw(G.rq.size(), 0);
    std::vector<int> gn(G.rq.size(), 0);
    for (size_t n = 0; n < G.u.size(); n++) {
      double w = ws.empty() ? 1 : ws[G.u[n].commod];
      gw[G.u[n].grp] += w * (1 + avg[n] / (1 + avg[n]));
      gn[G.u[n].grp]++;
    }
    for (size_t i = 0; i < gw.size(); i++) gw[i] /= gn[i];
    for (size_t i = 0; i < G.arcs.size(); i++) {
      GArc& a = G.arcs[i];
      if (G.u[a.u].excl || G.v[a.v].excl || G.caps[G.v[a.v].grp].empty()) continue;
      int g1 = G.u[a.u].grp;
      if (demand_left(a) < TOL || G.v[a.v].qty - a.flow < TOL) continue;
      double l = std::numeric_limits<double>::max();
      for (size_t c = 0; c < a.uc.size(); c++) {
        double x = G.caps[G.v[a.v].grp][c] - cu[G.v[a.v].grp][c];
        for (size_t g2 = 0; g2 < gw.size(); g2++) if (gw[g1] > gw[g2] * (1 + 1e-9)) x += by_group[g2][G.v[a.v].grp][c];
        l = std::min(l, x / a.uc[c]);
      }
      VF_CHECK(l < TOL, "supply group " << G.v[a.v].grp << " serves lighter request groups with " << l << " that group " << g1 << " (weight " << gw[g1] << ") still wants on arc " << i);
      count("group_order_judged");
    }
    nontrivial(hash_str(st().trace));
  }
  sample(st().trace);
}

// Dense two-phase simplex, min c.x, rows A.x <= b (b may be negative), x >= 0.
bool simplex(const std::vector<std::vector<double> >& A, const std::vector<double>& b, const std::vector<double>& c, double& best) {
  const double E = 1e-10;
  int m = A.size(), n = c.size();
  std::vector<std::vector<double> > D(m + 2, std::vector<double>(n + 2, 0));
  std::vector<int> B(m), N(n + 1);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) D[i][j] = A[i][j];
  for (int i = 0; i < m; i++) { B[i] = n + i; D[i][n] = -1; D[i][n + 1] = b[i]; }
  for (int j = 0; j < n; j++) { N[j] = j; D[m][j] = c[j]; }
  N[n] = -1;
  D[m + 1][n] = 1;
  auto pivot = [&](int r, int s) {
    double inv = 1.0 / D[r][s];
    for (int i = 0; i < m + 2; i++) if (i != r) for (int j = 0; j < n + 2; j++) if (j != s) D[i][j] -= D[r][j] * D[i][s] * inv;
    for (int j = 0; j < n + 2; j++) if (j != s) D[r][j] *= inv;
    for (int i = 0; i < m + 2; i++) if (i != r) D[i][s] *= -inv;
    D[r][s] = inv;
    std::swap(B[r], N[s]);
  };
  auto go = [&](int phase) {
    int x = phase == 1 ? m + 1 : m;
    while (true) {
      int s = -1;
      for (int j = 0; j <= n; j++) {
        if (phase == 2 && N[j] == -1) continue;
        if (D[x][j] < -E && (s == -1 || N[j] < N[s])) s = j;
      }
      if (s < 0) return true;
      int rr = -1;
      for (int i = 0; i < m; i++) {
        if (D[i][s] < E) continue;
        if (rr == -1) { rr = i; continue; }
        double p = D[i][n + 1] / D[i][s], q = D[rr][n + 1] / D[rr][s];
        if (p < q - 1e-15 || (std::fabs(p - q) <= 1e-15 && B[i] < B[rr])) rr = i;
      }
      if (rr == -1) return false;
      pivot(rr, s);
    }
  };
  int rr = 0;
  for (int i = 1; i < m; i++) if (D[i][n + 1] < D[rr][n + 1]) rr = i;
  if (m && D[rr][n + 1] < -E) {
    pivot(rr, n);
    if (!go(1) || D[m + 1][n + 1] < -1e-8) return false;
    for (int i = 0; i < m; i++)
      if (B[i] == -1) {
        int s = -1;
        for (int j = 0; j <= n; j++) if (s == -1 || D[i][j] < D[i][s] || (D[i][j] == D[i][s] && N[j] < N[s])) s = j;
        pivot(i, s);
      }
  }
  if (!go(2)) return false;
  best = -D[m][n + 1];
  return true;
}

void c04_prog(Rng& r) {
  Graph G;
  bool mixed = r.chance(0.6);
  bool excl_orders = r.chance(mixed ? 0.8 : 0.5);
  make_graph(r, G, mixed ? 9 : 14, mixed ? 0.35 : 0, r.range(1, 3), r.range(1, 3), 2, false);
  if (G.arcs.empty()) return;
  ProgSolver s("cbc", 20.0, excl_orders, false, false);
  s.Solve(&G.g);
  read_matches(G);
  count("prog_solves");
  double pc = s.PseudoCost();
  // binaries
  std::vector<int> bin;
  std::vector<double> val(G.arcs.size(), 0);
  for (size_t i = 0; i < G.arcs.size(); i++) {
    GNode &u = G.u[G.arcs[i].u], &v = G.v[G.arcs[i].v];
    if (!excl_orders || !(u.excl || v.excl)) continue;
    bin.push_back(i);
    if (u.excl && v.excl) val[i] = u.qty == v.qty ? u.qty : 0;
    else if (u.excl) val[i] = v.qty >= u.qty ? u.qty : 0;
    else val[i] = u.qty >= v.qty ? v.qty : 0;
  }
  if (bin.size() > 9) return;
  double maxc = 0;
  for (size_t i = 0; i < G.arcs.size(); i++) {
    GNode &u = G.u[G.arcs[i].u], &v = G.v[G.arcs[i].v];
    if (!(u.excl || v.excl) || val[i] > 0) maxc = std::max(maxc, 1 / G.arcs[i].pref);
  }
  VF_CHECK(pc > maxc || maxc == 0, "unmet demand is charged " << pc << ", less than the most expensive arc, " << maxc);
  if (maxc == 0) return;
  // cost of what was chosen
  auto cost_of = [&](const std::vector<double>& x) {
    double c = 0;
    for (size_t i = 0; i < x.size(); i++) c += x[i] / G.arcs[i].pref;
    for (size_t g = 0; g < G.rq.size(); g++) {
      double f = 0;
      bool any = false;
      for (size_t i = 0; i < x.size(); i++) if (G.u[G.arcs[i].u].grp == (int)g) { f += x[i]; any = true; }
      if (any) c += pc * std::max(0.0, G.rq[g] - f);
    }
    return c;
  };
  std::vector<double> x;
  for (auto& a : G.arcs) x.push_back(a.flow);
  double mine = cost_of(x);
  // the best of all choices of whole orders, each completed by a linear programme
  std::vector<bool> isbin(G.arcs.size(), false);
  for (int b : bin) isbin[b] = true;
  int nfree = 0;
  std::vector<int> col(G.arcs.size(), -1);
  for (size_t i = 0; i < G.arcs.size(); i++) if (!isbin[i]) col[i] = nfree++;
  double best = std::numeric_limits<double>::max();
  for (int mask = 0; mask < (1 << bin.size()); mask++) {
    std::vector<double> fix(G.arcs.size(), 0);
    bool ok = true;
    for (size_t k = 0; k < bin.size(); k++) if (mask >> k & 1) { if (val[bin[k]] == 0) ok = false; fix[bin[k]] = val[bin[k]]; }
    // one trade per exclusive request
    for (size_t n = 0; n < G.u.size() && ok; n++) {
      if (!G.u[n].excl) continue;
      int c = 0;
      for (size_t i = 0; i < G.arcs.size(); i++) if (G.arcs[i].u == (int)n && fix[i] > 0) c++;
      if (c > 1) ok = false;
    }
    if (!ok) continue;
    int ng = G.rq.size(), n = nfree + ng;
    std::vector<std::vector<double> > A;
    std::vector<double> b, c(n, 0);
    double cfix = 0;
    for (size_t i = 0; i < G.arcs.size(); i++) {
      if (isbin[i]) cfix += fix[i] / G.arcs[i].pref;
      else {
        c[col[i]] = 1 / G.arcs[i].pref;
        std::vector<double> row(n, 0);
        row[col[i]] = 1;
        A.push_back(row);
        b.push_back(std::min(G.u[G.arcs[i].u].qty, G.v[G.arcs[i].v].qty));
      }
    }
    for (size_t sgi = 0; sgi < G.caps.size(); sgi++)
      for (size_t k = 0; k < G.caps[sgi].size(); k++) {
        if (G.caps[sgi][k] == std::numeric_limits<double>::max()) continue;
        std::vector<double> row(n, 0);
        double rhs = G.caps[sgi][k];
        for (size_t i = 0; i < G.arcs.size(); i++)
          if (G.v[G.arcs[i].v].grp == (int)sgi) { if (isbin[i]) rhs -= fix[i] * G.arcs[i].uc[k]; else row[col[i]] = G.arcs[i].uc[k]; }
        A.push_back(row);
        b.push_back(rhs);
      }
    for (int g = 0; g < ng; g++) {
      std::vector<double> row(n, 0);
      double rhs = -G.rq[g];
      bool any = false;
      for (size_t i = 0; i < G.arcs.size(); i++)
        if (G.u[G.arcs[i].u].grp == g) { any = true; if (isbin[i]) rhs += fix[i]; else row[col[i]] = -1; }
      if (!any) continue;
      row[nfree + g] = -1;
      c[nfree + g] = pc;
      A.push_back(row);
      b.push_back(rhs);
    }
    double v;
    if (simplex(A, b, c, v)) best = std::min(best, v + cfix);
    count("subproblems");
  }
  VF_CHECK(best < 1e300, "harness: no feasible choice");
  double tol = 1e-5 * std::max(1.0, std::fabs(best)) + 1e-5;
  VF_CHECK(mine <= best + tol, "the optimiser's choice costs " << mine << ", a feasible one costs " << best);
  VF_CHECK(mine >= best - tol, "the optimiser's choice costs " << mine << ", below the least possible " << best);
  // never worse than the heuristic
  G.g.ClearMatches();
  GreedySolver gs(excl_orders);
  gs.Solve(&G.g);
  read_matches(G);
  std::vector<double> y;
  for (auto& a : G.arcs) y.push_back(a.flow);
  VF_CHECK(mine <= cost_of(y) + tol, "the optimiser's choice costs " << mine << ", the greedy one " << cost_of(y));
  if (mine < cost_of(y) - 0.01) count("prog_beats_greedy");
  if (!bin.empty()) count("prog_integer");
  nontrivial(hash_str(st().trace));
  sample(st().trace);
}

void c04(Rng& r) { if (r.chance(0.7)) c04_greedy(r); else c04_prog(r); }

}  // namespace

int main(int argc, char** argv) {
  parse(argc, argv);
  return run({{"C03", c03}, {"C04", c04}, {"C05", c05}});
}
