// What the harness's archetypes tell the drivers.
#ifndef VF_TRACE_H_
#define VF_TRACE_H_
#include <cstdio>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <boost/uuid/uuid_io.hpp>
#include "cyclus.h"

extern "C" std::vector<std::string>* vf_trace_lines();

namespace vft {
inline std::string rep(bool b) { return b ? "true" : "false"; }
inline std::string rep(int i) { std::ostringstream o; o << i; return o.str(); }
inline std::string rep(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
inline std::string rep(float d) { char b[64]; snprintf(b, sizeof b, "%.9g", static_cast<double>(d)); return b; }
inline std::string rep(const std::string& s) { std::ostringstream o; o << s.size() << "'" << s << "'"; return o.str(); }
inline std::string rep(const cyclus::Blob& s) { return rep(s.str()); }
inline std::string rep(const boost::uuids::uuid& u) { std::ostringstream o; o << u; return o.str(); }
template <class A, class B> std::string rep(const std::pair<A, B>& p);
template <class T> std::string rep(const std::vector<T>& v);
template <class T> std::string rep(const std::set<T>& v);
template <class T> std::string rep(const std::list<T>& v);
template <class K, class V> std::string rep(const std::map<K, V>& v);
template <class C> std::string all(const C& c, const char* a, const char* b) {
  std::string s = a;
  bool first = true;
  for (typename C::const_iterator it = c.begin(); it != c.end(); ++it) {
    if (!first) s += ",";
    first = false;
    typename C::value_type x = *it;
    s += rep(x);
  }
  return s + b;
}
template <class A, class B> std::string rep(const std::pair<A, B>& p) { return "(" + rep(p.first) + "," + rep(p.second) + ")"; }
template <class T> std::string rep(const std::vector<T>& v) { return all(v, "[", "]"); }
template <class T> std::string rep(const std::set<T>& v) { return all(v, "{", "}"); }
template <class T> std::string rep(const std::list<T>& v) { return all(v, "[", "]"); }
template <class K, class V> std::string rep(const std::map<K, V>& m) {
  std::string s = "<";
  bool first = true;
  for (typename std::map<K, V>::const_iterator it = m.begin(); it != m.end(); ++it) {
    if (!first) s += ",";
    first = false;
    s += rep(it->first) + ":" + rep(it->second);
  }
  return s + ">";
}
inline void say(const std::string& s) { vf_trace_lines()->push_back(s); }

// who speaks: "kind|what|time|id|prototype|..."
inline std::string head(const char* what, cyclus::Agent* a) {
  std::ostringstream o;
  o << what << "|" << a->context()->time() << "|" << a->id() << "|" << a->prototype() << "|";
  return o.str();
}
}  // namespace vft
#endif
