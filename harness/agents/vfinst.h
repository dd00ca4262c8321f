// An institution and a region that act on a script and tell what they see.
#ifndef VF_INST_H_
#define VF_INST_H_
#include <string>
#include <vector>
#include "cyclus.h"

class VInst : public cyclus::Institution {
 public:
  explicit VInst(cyclus::Context* ctx);
  virtual ~VInst() {}
  virtual std::string version() { return "vf"; }

  #pragma cyclus

  virtual void EnterNotify();
  virtual void Tick();
  virtual void Tock();
  virtual void Decision();
  virtual void BuildNotify(cyclus::Agent* m);
  virtual void DecomNotify(cyclus::Agent* m);

 private:
  void Act(int phase);

  #pragma cyclus var {"default": [], "doc": "steps in which a build is scheduled"}
  std::vector<int> build_at;
  #pragma cyclus var {"default": [], "doc": "steps for which"}
  std::vector<int> build_for;
  #pragma cyclus var {"default": [], "doc": "prototypes"}
  std::vector<std::string> build_what;
  #pragma cyclus var {"default": [], "doc": "steps in which a child is told to leave"}
  std::vector<int> decom_at;
  #pragma cyclus var {"default": [], "doc": "steps for which"}
  std::vector<int> decom_for;
  #pragma cyclus var {"default": [], "doc": "which child, counted by id"}
  std::vector<int> decom_which;
  #pragma cyclus var {"default": [], "doc": "steps in which a snapshot is asked for"}
  std::vector<int> snap_at;
  #pragma cyclus var {"default": 0, "doc": "0 tick, 1 tock, 2 decision"}
  int phase;
  #pragma cyclus var {"default": 0, "internal": True}
  int n_built;
  #pragma cyclus var {"default": 0, "internal": True}
  int n_gone;
};
#endif
