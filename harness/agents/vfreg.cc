#include "vfreg.h"
#include "vftrace.h"

VReg::VReg(cyclus::Context* ctx) : cyclus::Region(ctx), drop_at(-1), drop_which(0), steps(0) {}

void VReg::EnterNotify() {
  cyclus::Region::EnterNotify();
  std::ostringstream o;
  o << vft::head("enter", this) << (parent() ? parent()->prototype() : "-") << "|" << lifetime() << "|levels=" << vft::rep(levels) << ";";
  vft::say(o.str());
}

void VReg::Tock() {
  cyclus::Region::Tock();
  steps++;
  std::set<int> ids;
  for (std::set<cyclus::Agent*>::const_iterator it = children().begin(); it != children().end(); ++it) ids.insert((*it)->id());
  std::ostringstream o;
  o << vft::head("region", this) << steps << "|" << vft::rep(ids) << "|" << vft::rep(levels);
  vft::say(o.str());
  if (context()->time() == drop_at && !children().empty()) {
    std::map<int, cyclus::Agent*> byid;
    for (std::set<cyclus::Agent*>::const_iterator it = children().begin(); it != children().end(); ++it) byid[(*it)->id()] = *it;
    std::map<int, cyclus::Agent*>::iterator it = byid.begin();
    std::advance(it, drop_which % byid.size());
    context()->SchedDecom(it->second);
  }
}

extern "C" cyclus::Agent* ConstructVReg(cyclus::Context* ctx) { return new VReg(ctx); }
