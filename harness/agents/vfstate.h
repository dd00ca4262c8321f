// A facility with state variables of every kind the preprocessor and the
// databases support; it tells what values they have when it enters.
#ifndef VF_STATE_H_
#define VF_STATE_H_
#include <list>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>
#include "cyclus.h"

class VState : public cyclus::Facility {
 public:
  explicit VState(cyclus::Context* ctx);
  virtual ~VState() {}
  virtual std::string version() { return "vf"; }

  #pragma cyclus

  virtual void EnterNotify();
  virtual void Tick();
  virtual void Tock() {}
  std::string values();

 private:
  #pragma cyclus var {}
  int r_int;
  #pragma cyclus var {}
  double r_double;
  #pragma cyclus var {}
  std::string r_string;
  #pragma cyclus var {}
  bool r_bool;
  #pragma cyclus var {"default": 1.5}
  float d_float;
  #pragma cyclus var {"default": -42}
  int d_int;
  #pragma cyclus var {"default": 2.5e-7}
  double d_double;
  #pragma cyclus var {"default": "some text"}
  std::string d_string;
  #pragma cyclus var {"default": True}
  bool d_bool;
  #pragma cyclus var {"default": 7, "internal": True}
  int i_int;
  #pragma cyclus var {"default": [3, 1, 2], "internal": True}
  std::vector<int> i_vec;
  #pragma cyclus var {"default": 0, "internal": True, "derived_init": "e_int = 3 * r_int % 1000;"}
  int e_int;
  #pragma cyclus var {"alias": "other_name", "default": 11}
  int a_int;
  #pragma cyclus var {"uitype": "nuclide"}
  int n_int;
  #pragma cyclus var {"uitype": ["oneormore", "nuclide"], "default": ["U235", 942390000]}
  std::vector<int> n_vec;
  #pragma cyclus var {}
  std::vector<int> v_int;
  #pragma cyclus var {"default": [0.5, 1.25]}
  std::vector<double> v_double;
  #pragma cyclus var {"default": ["x", "y z"]}
  std::vector<std::string> v_string;
  #pragma cyclus var {"alias": ["vv", "x"]}
  std::vector<double> va_double;
  #pragma cyclus var {}
  std::set<int> s_int;
  #pragma cyclus var {"default": ["b", "a"]}
  std::set<std::string> s_string;
  #pragma cyclus var {}
  std::list<int> l_int;
  #pragma cyclus var {"default": ["q"]}
  std::list<std::string> l_string;
  #pragma cyclus var {"default": [(1, 2)]}
  std::list<std::pair<int, int> > l_pair;
  #pragma cyclus var {}
  std::map<int, std::map<std::string, double> > m_imsd;
  #pragma cyclus var {}
  boost::uuids::uuid r_uuid;
  #pragma cyclus var {}
  std::map<int, int> m_ii;
  #pragma cyclus var {"default": {1: 0.5, -3: 4.0}}
  std::map<int, double> m_id;
  #pragma cyclus var {}
  std::map<int, std::string> m_is;
  #pragma cyclus var {}
  std::map<std::string, int> m_si;
  #pragma cyclus var {"alias": [["masses", "of"], "nuc", "kg"]}
  std::map<std::string, double> m_sd;
  #pragma cyclus var {"default": {"k": "v"}}
  std::map<std::string, std::string> m_ss;
  #pragma cyclus var {}
  std::map<std::string, std::vector<double> > m_svd;
  #pragma cyclus var {}
  std::map<std::string, std::map<int, double> > m_smid;
  #pragma cyclus var {"alias": ["streams", "name", [["info", "efficiency"], "c", "e"]], "default": {}}
  std::map<std::string, std::map<std::string, double> > ma_smsd;
  #pragma cyclus var {}
  std::map<std::string, std::pair<double, std::map<int, double> > > m_spd;
  #pragma cyclus var {}
  std::map<std::string, std::pair<std::string, std::vector<double> > > m_spv;
  #pragma cyclus var {}
  std::map<std::string, std::map<std::string, int> > m_smsi;
  #pragma cyclus var {}
  std::map<std::pair<std::string, std::string>, int> m_pi;
  #pragma cyclus var {}
  std::vector<std::pair<std::pair<double, double>, std::map<std::string, double> > > v_ppm;
  #pragma cyclus var {}
  std::map<std::string, std::vector<std::pair<int, std::pair<std::string, std::string> > > > m_svp;
  #pragma cyclus var {"capacity": "r_int % 7 + 10"}
  cyclus::toolkit::ResBuf<cyclus::Material> buf;
};
#endif
