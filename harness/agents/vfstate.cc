#include "vfstate.h"
#include "vftrace.h"

extern "C" std::vector<std::string>* vf_trace_lines() {
  static std::vector<std::string>* v = new std::vector<std::string>();
  return v;
}

VState::VState(cyclus::Context* ctx) : cyclus::Facility(ctx), r_int(-999), r_double(-999), r_bool(false), d_float(-999), d_int(-999), d_double(-999),
  d_bool(false), i_int(-999), e_int(-999), a_int(-999), n_int(-999) {}

std::string VState::values() {
  std::string s;
#define V(x) s += #x "=" + vft::rep(x) + ";\n";
  V(r_int) V(r_double) V(r_string) V(r_bool) V(d_float) V(d_int) V(d_double) V(d_string) V(d_bool) V(i_int) V(i_vec) V(e_int) V(a_int) V(n_int) V(n_vec)
  V(v_int) V(v_double) V(v_string) V(va_double) V(s_int) V(s_string) V(l_int) V(l_string) V(l_pair) V(m_imsd) V(r_uuid) V(m_ii) V(m_id) V(m_is) V(m_si) V(m_sd)
  V(m_ss) V(m_svd) V(m_smid) V(ma_smsd) V(m_spd) V(m_spv) V(m_smsi) V(m_pi) V(v_ppm) V(m_svp)
  s += "buf=" + vft::rep(buf.capacity()) + ";\n";
  return s;
}

void VState::EnterNotify() {
  cyclus::Facility::EnterNotify();
  std::ostringstream o;
  o << vft::head("enter", this) << (parent() ? parent()->prototype() : "-") << "|" << lifetime() << "|" << values();
  vft::say(o.str());
}

void VState::Tick() { vft::say(vft::head("tick", this)); }

extern "C" cyclus::Agent* ConstructVState(cyclus::Context* ctx) { return new VState(ctx); }
