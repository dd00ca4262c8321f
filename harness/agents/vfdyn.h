// A facility that trades, processes and keeps inventories, all decided by its
// state and the time.
#ifndef VF_DYN_H_
#define VF_DYN_H_
#include <list>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "cyclus.h"

class VDyn : public cyclus::Facility {
 public:
  explicit VDyn(cyclus::Context* ctx);
  virtual ~VDyn() {}
  virtual std::string version() { return "vf"; }

  #pragma cyclus

  virtual void EnterNotify();
  virtual void Tick();
  virtual void Tock();
  virtual bool CheckDecommissionCondition();
  virtual std::set<cyclus::RequestPortfolio<cyclus::Material>::Ptr> GetMatlRequests();
  virtual std::set<cyclus::RequestPortfolio<cyclus::Product>::Ptr> GetProductRequests();
  virtual std::set<cyclus::BidPortfolio<cyclus::Material>::Ptr> GetMatlBids(cyclus::CommodMap<cyclus::Material>::type& reqs);
  virtual std::set<cyclus::BidPortfolio<cyclus::Product>::Ptr> GetProductBids(cyclus::CommodMap<cyclus::Product>::type& reqs);
  virtual void AdjustMatlPrefs(cyclus::PrefMap<cyclus::Material>::type& prefs);
  virtual void AdjustProductPrefs(cyclus::PrefMap<cyclus::Product>::type& prefs);
  virtual void GetMatlTrades(const std::vector<cyclus::Trade<cyclus::Material> >& trades,
                             std::vector<std::pair<cyclus::Trade<cyclus::Material>, cyclus::Material::Ptr> >& responses);
  virtual void GetProductTrades(const std::vector<cyclus::Trade<cyclus::Product> >& trades,
                                std::vector<std::pair<cyclus::Trade<cyclus::Product>, cyclus::Product::Ptr> >& responses);
  virtual void AcceptMatlTrades(const std::vector<std::pair<cyclus::Trade<cyclus::Material>, cyclus::Material::Ptr> >& responses);
  virtual void AcceptProductTrades(const std::vector<std::pair<cyclus::Trade<cyclus::Product>, cyclus::Product::Ptr> >& responses);

 private:
  bool Active();
  double Mine(int other, const std::string& c);

  #pragma cyclus var {"default": []}
  std::vector<std::string> in_commods;
  #pragma cyclus var {"default": []}
  std::vector<std::string> out_commods;
  #pragma cyclus var {"default": ""}
  std::string p_in;
  #pragma cyclus var {"default": ""}
  std::string p_out;
  #pragma cyclus var {"default": 1.0}
  double in_qty;
  #pragma cyclus var {"default": 1e6}
  double out_cap;
  #pragma cyclus var {"default": 0.0}
  double make;
  #pragma cyclus var {"default": ""}
  std::string recipe;
  #pragma cyclus var {"default": "unpackaged"}
  std::string pack;
  #pragma cyclus var {"default": 1}
  int period;
  #pragma cyclus var {"default": 2}
  int residence;
  #pragma cyclus var {"default": 1.0}
  double pref;
  #pragma cyclus var {"default": 0}
  int linger;
  #pragma cyclus var {"default": ""}
  std::string tag;
  #pragma cyclus var {"default": 0}
  int noisy;  // 1: draws random numbers; 2: also offers and wants alike
  #pragma cyclus var {"default": 0, "internal": True}
  int ticks;
  #pragma cyclus var {"default": 0.0, "internal": True}
  double got;
  #pragma cyclus var {"default": {}, "internal": True}
  std::map<std::string, double> sent;
  #pragma cyclus var {"default": [], "internal": True}
  std::vector<double> history;
  #pragma cyclus var {"default": [], "internal": True}
  std::list<int> ages;
  #pragma cyclus var {"capacity": "1e9"}
  cyclus::toolkit::ResBuf<cyclus::Material> stock;
  #pragma cyclus var {}
  cyclus::toolkit::ResBuf<cyclus::Material> out;
  #pragma cyclus var {"capacity": "1e8"}
  cyclus::toolkit::ResBuf<cyclus::Product> pinv;
  #pragma cyclus var {}
  cyclus::toolkit::ResBuf<cyclus::Resource> mixed;
};
#endif
