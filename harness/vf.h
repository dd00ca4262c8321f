// Shared plumbing of the drivers: seeded cases, counters, violations, an
// in-memory recording backend and a scriptable facility.
#ifndef VF_H_
#define VF_H_
#include <fcntl.h>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vf {

// ---------------------------------------------------------------- random
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // [0, n)
  int below(int n) { return n <= 1 ? 0 : static_cast<int>(next() % static_cast<uint64_t>(n)); }
  // [lo, hi]
  int range(int lo, int hi) { return lo + below(hi - lo + 1); }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  double logreal(double lo, double hi) { return std::exp(real(std::log(lo), std::log(hi))); }
  bool chance(double p) { return unit() < p; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(static_cast<int>(v.size()))]; }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a * 0x100000001B3ull ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2)));
  return r.next();
}
inline uint64_t hash_str(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}

inline std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

struct Fmt {
  std::ostringstream o;
  Fmt() { o.precision(17); }
  template <class T> Fmt& operator<<(const T& t) { o << t; return *this; }
  operator std::string() const { return o.str(); }
  std::string str() const { return o.str(); }
};

// ---------------------------------------------------------------- state
struct State {
  std::string prop, out;
  uint64_t seed = 1;
  long from = 0, to = 0, step = 1;
  long cur = -1;
  long evals = 0;
  std::map<std::string, long> counts;
  std::set<uint64_t> distinct;
  std::vector<std::string> samples;
  std::vector<std::pair<std::string, long> > viols;
  std::string trace;  // what the current case did, for the witness
  bool verbose = false;
  bool thorough = false;
};
inline State& st() { static State s; return s; }

inline void count(const std::string& k, long n = 1) { st().counts[k] += n; }
inline void nontrivial(uint64_t h) { st().distinct.insert(h); }
inline void sample(const std::string& s) { if (st().samples.size() < 4) st().samples.push_back(s.substr(0, 600)); }
inline void trace(const std::string& s) {
  if (st().verbose) std::cerr << "  " << s << std::endl;
  if (st().trace.size() < 6000) { st().trace += s; st().trace += '\n'; }
}

inline void write_out(bool done) {
  State& s = st();
  if (s.out.empty()) return;
  std::string tmp = s.out + ".tmp";
  std::ofstream o(tmp);
  o << "{\"done\":" << (done ? "true" : "false") << ",\"case\":" << s.cur << ",\"evals\":" << s.evals << ",\"counts\":{";
  bool f = true;
  for (auto& c : s.counts) { o << (f ? "" : ",") << "\"" << jesc(c.first) << "\":" << c.second; f = false; }
  o << "},\"distinct\":[";
  f = true;
  long nd = 0;
  for (auto h : s.distinct) { if (nd++ > 60000) break; o << (f ? "" : ",") << "\"" << std::hex << h << std::dec << "\""; f = false; }
  o << "],\"samples\":[";
  f = true;
  for (auto& c : s.samples) { o << (f ? "" : ",") << "\"" << jesc(c) << "\""; f = false; }
  o << "],\"violations\":[";
  f = true;
  for (auto& v : s.viols) { o << (f ? "" : ",") << "{\"case\":" << v.second << ",\"msg\":\"" << jesc(v.first) << "\"}"; f = false; }
  o << "]}\n";
  o.close();
  rename(tmp.c_str(), s.out.c_str());
}

// A violated property: kept with its case, the run goes on with the next case.
struct Violated {};
inline void fail(const std::string& msg) {
  State& s = st();
  std::string full = msg + "\n--- trace of the case\n" + s.trace;
  s.viols.push_back(std::make_pair(full.substr(0, 8000), s.cur));
  if (s.verbose) std::cerr << "VIOLATED: " << msg << std::endl;
  write_out(false);
  throw Violated();
}
#define VF_CHECK(cond, msg)                                                  \
  do {                                                                       \
    if (!(cond)) ::vf::fail(::vf::Fmt() << msg << "  [" #cond "]");          \
  } while (0)

inline bool close(double a, double b, double rel, double abs) {
  return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}

// Case numbers are written to a file before each case so that a run that dies
// (a sanitizer report, an abort) is attributed to its case.
inline void mark() {
  State& s = st();
  if (s.out.empty()) return;
  static int fd = -1;
  if (fd < 0) {
    fd = ::creat((s.out + ".case").c_str(), 0644);
  }
  char b[32];
  int n = snprintf(b, sizeof b, "%20ld\n", s.cur);
  if (fd >= 0) { ssize_t r = ::pwrite(fd, b, n, 0); (void)r; }
}

inline void on_cpu(int) {
  const char m[] = "VF-CPU-LIMIT: the case used more than its CPU allowance without ending\n";
  ssize_t r = ::write(2, m, sizeof m - 1);
  (void)r;
  _exit(86);
}
inline void arm(int secs) {
  struct itimerval t;
  memset(&t, 0, sizeof t);
  t.it_value.tv_sec = secs;
  signal(SIGPROF, on_cpu);
  setitimer(ITIMER_PROF, &t, NULL);
}

typedef std::function<void(Rng&)> Case;

inline void parse(int argc, char** argv) {
  State& s = st();
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--prop") s.prop = val();
    else if (a == "--out") s.out = val();
    else if (a == "--seed") s.seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--from") s.from = atol(val().c_str());
    else if (a == "--to") s.to = atol(val().c_str());
    else if (a == "--step") s.step = atol(val().c_str());
    else if (a == "--case") { s.from = atol(val().c_str()); s.to = s.from + 1; s.verbose = true; }
    else if (a == "--thorough") s.thorough = true;
    else { fprintf(stderr, "bad argument %s\n", a.c_str()); exit(3); }
  }
}

// Runs the cases of one property; exit code 0 whether or not it found
// violations (the dispatcher reads them from the output file).
inline int run(const std::map<std::string, Case>& props) {
  State& s = st();
  auto it = props.find(s.prop);
  if (it == props.end()) { fprintf(stderr, "no such property here: %s\n", s.prop.c_str()); return 3; }
  uint64_t base = mix(s.seed, hash_str(s.prop));
  for (long i = s.from; i < s.to; i += s.step) {
    s.cur = i;
    s.trace.clear();
    mark();
    arm(120);
    Rng r(mix(base, static_cast<uint64_t>(i)));
    try {
      it->second(r);
    } catch (Violated&) {
      if (s.viols.size() >= 3) break;
    } catch (std::exception& e) {
      try { fail(std::string("unexpected exception: ") + e.what()); } catch (Violated&) {}
      if (s.viols.size() >= 3) break;
    }
    s.evals++;
    if (s.samples.size() < 2 && !s.trace.empty()) sample(s.trace);
  }
  write_out(true);
  for (auto& v : s.viols) if (s.out.empty()) std::cerr << "VIOLATION case " << v.second << ": " << v.first << std::endl;
  // skip static destruction: what is left belongs to the library's singletons
  std::cout.flush();
  fflush(0);
  _exit(s.out.empty() && !s.viols.empty() ? 1 : 0);
}

}  // namespace vf
#endif
