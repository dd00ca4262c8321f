#ifndef VF_REG_H_
#define VF_REG_H_
#include <map>
#include <string>
#include "cyclus.h"

class VReg : public cyclus::Region {
 public:
  explicit VReg(cyclus::Context* ctx);
  virtual ~VReg() {}
  virtual std::string version() { return "vf"; }

  #pragma cyclus

  virtual void EnterNotify();
  virtual void Tock();

 private:
  #pragma cyclus var {"default": {"none": 0.0}}
  std::map<std::string, double> levels;
  #pragma cyclus var {"default": -1}
  int drop_at;
  #pragma cyclus var {"default": 0}
  int drop_which;
  #pragma cyclus var {"default": 0, "internal": True}
  int steps;
};
#endif
