#include "vfinst.h"
#include "vftrace.h"

VInst::VInst(cyclus::Context* ctx) : cyclus::Institution(ctx), phase(-1), n_built(0), n_gone(0) {}

void VInst::EnterNotify() {
  cyclus::Institution::EnterNotify();
  std::ostringstream o;
  o << vft::head("enter", this) << (parent() ? parent()->prototype() : "-") << "|" << lifetime() << "|build_at=" << vft::rep(build_at) << ";build_for=" << vft::rep(build_for)
    << ";build_what=" << vft::rep(build_what) << ";decom_at=" << vft::rep(decom_at) << ";decom_for=" << vft::rep(decom_for) << ";decom_which="
    << vft::rep(decom_which) << ";snap_at=" << vft::rep(snap_at) << ";phase=" << phase << ";";
  vft::say(o.str());
}

void VInst::Act(int p) {
  if (p != phase) return;
  int t = context()->time();
  for (size_t i = 0; i < build_at.size(); i++)
    if (build_at[i] == t) context()->SchedBuild(this, build_what[i], build_for[i]);
  for (size_t i = 0; i < decom_at.size(); i++) {
    if (decom_at[i] != t || children().empty()) continue;
    std::map<int, cyclus::Agent*> byid;
    for (std::set<cyclus::Agent*>::const_iterator it = children().begin(); it != children().end(); ++it) byid[(*it)->id()] = *it;
    std::map<int, cyclus::Agent*>::iterator it = byid.begin();
    std::advance(it, decom_which[i] % byid.size());
    cyclus::Facility* fac = dynamic_cast<cyclus::Facility*>(it->second);
    if (fac == NULL || fac->CheckDecommissionCondition()) context()->SchedDecom(it->second, decom_for[i]);
  }
  for (size_t i = 0; i < snap_at.size(); i++)
    if (snap_at[i] == t) context()->Snapshot();
}

void VInst::Tick() {
  cyclus::Institution::Tick();
  Act(0);
}

void VInst::Tock() {
  cyclus::Institution::Tock();
  Act(1);
  std::set<int> ids;
  std::set<std::string> protos;
  for (std::set<cyclus::Agent*>::const_iterator it = children().begin(); it != children().end(); ++it) {
    ids.insert((*it)->id());
    protos.insert((*it)->prototype());
  }
  std::ostringstream o;
  o << vft::head("inst", this) << (parent() ? parent()->id() : -1) << "|" << n_built << "|" << n_gone << "|" << vft::rep(ids) << "|";
  for (std::set<std::string>::iterator it = protos.begin(); it != protos.end(); ++it) o << *it << "=" << context()->n_prototypes(*it) << ";";
  o << "|" << enter_time() << "|" << lifetime();
  vft::say(o.str());
}

void VInst::Decision() {
  cyclus::Institution::Decision();
  Act(2);
}

void VInst::BuildNotify(cyclus::Agent* m) {
  n_built++;
  std::ostringstream o;
  o << vft::head("built", this) << m->id() << "|" << m->prototype();
  vft::say(o.str());
}

void VInst::DecomNotify(cyclus::Agent* m) {
  n_gone++;
  std::ostringstream o;
  o << vft::head("gone", this) << m->id() << "|" << m->prototype();
  vft::say(o.str());
}

extern "C" cyclus::Agent* ConstructVInst(cyclus::Context* ctx) { return new VInst(ctx); }
