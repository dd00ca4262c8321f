// Whole simulations read from input files: C12 (the simulation is the one the
// file describes), C11 (a restart continues the simulation), C10 (the same
// input gives the same simulation).
#include <sys/wait.h>
#include <cerrno>
#include <dlfcn.h>
#include <sys/stat.h>
#include <algorithm>
#include <boost/uuid/uuid_io.hpp>
#include "cyc.h"
#include "hdf5_back.h"
#include "prog_solver.h"
#include "greedy_solver.h"
#include "sim_init.h"
#include "xml_file_loader.h"
#include "xml_flat_loader.h"

using vf::Fmt;
using vf::Rng;
using vf::count;
using vf::trace;
namespace cy = cyclus;

static std::vector<std::string>* lines() {
  static std::vector<std::string>* v = NULL;
  if (!v) {
    std::string p = std::string(getenv("CYCLUS_PATH") ? getenv("CYCLUS_PATH") : "") + "/libvf.so";
    void* h = dlopen(p.c_str(), RTLD_NOW | RTLD_GLOBAL);
    if (!h) { fprintf(stderr, "cannot load %s: %s\n", p.c_str(), dlerror()); _exit(3); }
    typedef std::vector<std::string>* (*F)();
    F f = reinterpret_cast<F>(dlsym(h, "vf_trace_lines"));
    if (!f) { fprintf(stderr, "no trace in %s\n", p.c_str()); _exit(3); }
    v = f();
  }
  return v;
}

// ------------------------------------------------------------ documents
struct El {
  std::string name, text;
  char kind;  // 's' text, 'n' number, 'b' boolean, 'o' children
  std::vector<El> kids;
  El() : kind('o') {}
  explicit El(const std::string& n) : name(n), kind('o') {}
  El(const std::string& n, const std::string& t, char k = 's') : name(n), text(t), kind(k) {}
  El& add(const El& e) { kids.push_back(e); return *this; }
  El& add(const std::string& n, const std::string& t, char k = 's') { return add(El(n, t, k)); }
  El* find(const std::string& n) { for (auto& k : kids) if (k.name == n) return &k; return NULL; }
};

static std::string xesc(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '&') o += "&amp;";
    else if (c == '<') o += "&lt;";
    else if (c == '>') o += "&gt;";
    else o += c;
  }
  return o;
}
static void to_xml(const El& e, std::string& o, Rng& r, int ind, bool plain) {
  std::string pad(plain ? 0 : ind * 2, ' ');
  if (!plain && r.chance(0.02)) o += pad + "<!-- " + std::string(r.range(1, 9), 'c') + " -->\n";
  o += pad + "<" + e.name + ">";
  if (e.kind != 'o') {
    std::string t = xesc(e.text);
    if (!plain && e.kind != 's' && r.chance(0.1)) t = " " + t + "\n";
    o += t;
  } else {
    if (!plain) o += "\n";
    for (auto& k : e.kids) to_xml(k, o, r, ind + 1, plain);
    o += pad;
  }
  o += "</" + e.name + ">";
  if (!plain) o += "\n";
}
static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else o += c;
  }
  return o + "\"";
}
static void to_json(const El& e, std::string& o, Rng& r) {
  if (e.kind == 's') { o += jstr(e.text); return; }
  if (e.kind == 'n') { o += r.chance(0.5) ? e.text : jstr(e.text); return; }
  if (e.kind == 'b') {
    o += (e.text == "true" || e.text == "false") && r.chance(0.6) ? e.text : jstr(e.text);
    return;
  }
  std::vector<std::string> names;
  std::map<std::string, std::vector<const El*> > by;
  for (auto& k : e.kids) {
    if (!by.count(k.name)) names.push_back(k.name);
    by[k.name].push_back(&k);
  }
  o += "{";
  for (size_t i = 0; i < names.size(); i++) {
    if (i) o += ",";
    o += "\n" + jstr(names[i]) + ": ";
    auto& v = by[names[i]];
    if (v.size() == 1) {
      to_json(*v[0], o, r);
    } else {
      o += "[";
      for (size_t k = 0; k < v.size(); k++) { if (k) o += ", "; to_json(*v[k], o, r); }
      o += "]";
    }
  }
  o += "}";
}
static std::string json_doc(const El& e, Rng& r) {
  std::string o = "{" + jstr(e.name) + ": ";
  to_json(e, o, r);
  return o + "}\n";
}
template <class T> static void shuffle(std::vector<T>& v, Rng& r) {
  for (int i = static_cast<int>(v.size()) - 1; i > 0; i--) std::swap(v[i], v[r.below(i + 1)]);
}

// ------------------------------------------------------------ values
static std::string rep_d(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
static std::string rep_f(float d) { char b[64]; snprintf(b, sizeof b, "%.9g", static_cast<double>(d)); return b; }
static std::string rep_s(const std::string& s) { return Fmt() << s.size() << "'" << s << "'"; }
static std::string num(int i) { return Fmt() << i; }

static bool g_json = false;

static std::string word(Rng& r) {
  static const char* w[] = {"fuel", "Waste", "x", "LEU-4", "a b", "R&D", "1<2", "it's", "\"q\"", "caf\xc3\xa9", "U235", "100%", "under_score", "0", "-1", "a:b/c.d", ";--", "]]&gt;"};
  std::string s = w[r.below(18)];
  if (r.chance(0.4)) s += w[r.below(18)];
  if (r.chance(0.1)) s += std::string(r.range(1, 90), 'z');
  if (r.chance(0.05)) s = " " + s + " ";
  return s;
}
static int an_int(Rng& r) {
  switch (r.below(5)) {
    case 0: return r.range(-9, 9);
    case 1: return r.pick(std::vector<int>{2147483647, -2147483647 - 1, 0, -1, 65536});
    default: return r.range(-100000, 100000);
  }
}
static double a_double(Rng& r) {
  switch (r.below(6)) {
    case 0: return r.range(-9, 9);
    case 1: return r.range(-1000, 1000) * 0.1;
    case 2: return r.logreal(1e-300, 1e300) * (r.chance(0.5) ? 1 : -1);
    case 3: return 0;
    default: return r.real(-1e3, 1e3);
  }
}
static std::string dtext(double d, Rng& r) {
  if (d == std::floor(d) && std::fabs(d) < 1e6 && r.chance(0.5)) return num(static_cast<int>(d));
  char b[64];
  snprintf(b, sizeof b, r.chance(0.3) ? "%.17E" : "%.17g", d);
  return b;
}

struct Ty {
  char k;  // b i f d s u n, v S l p m
  std::vector<Ty> a;
  std::string t0, t1;  // tags inside: element; item / key / value for maps in t0, t1, t2
  std::string t2;
};
static Ty P(char k) { Ty t; t.k = k; return t; }
static Ty Seq(char k, Ty e, std::string tag = "val") { Ty t; t.k = k; t.a = {e}; t.t0 = tag; return t; }
static Ty Pair(Ty x, Ty y) { Ty t; t.k = 'p'; t.a = {x, y}; t.t0 = "first"; t.t1 = "second"; return t; }
static Ty Map(Ty x, Ty y, std::string item = "item", std::string key = "key", std::string val = "val") {
  Ty t; t.k = 'm'; t.a = {x, y}; t.t0 = item; t.t1 = key; t.t2 = val; return t;
}

// an ordering key for map keys and set elements as C++ orders them
struct Ord {
  long i;
  std::string s, s2;
  Ord() : i(0) {}
  bool operator<(const Ord& o) const {
    if (i != o.i) return i < o.i;
    if (s != o.s) return s < o.s;
    return s2 < o.s2;
  }
};

static std::string gen(const Ty& t, const std::string& tag, El& e, Rng& r, Ord* ord = NULL) {
  e = El(tag);
  Ord dummy;
  if (!ord) ord = &dummy;
  switch (t.k) {
    case 'b': {
      bool b = r.chance(0.5);
      e.kind = 'b';
      e.text = b ? (r.chance(0.5) ? "true" : "1") : (r.chance(0.5) ? "false" : "0");
      return b ? "true" : "false";
    }
    case 'i': {
      int i = an_int(r);
      e.kind = 'n';
      e.text = num(i);
      ord->i = i;
      return num(i);
    }
    case 'f': {
      float f = static_cast<float>(r.chance(0.5) ? r.real(-100, 100) : r.logreal(1e-30, 1e30));
      e.kind = 'n';
      e.text = rep_f(f);
      return rep_f(f);
    }
    case 'd': {
      double d = a_double(r);
      e.kind = 'n';
      e.text = dtext(d, r);
      return rep_d(strtod(e.text.c_str(), NULL));
    }
    case 's': {
      std::string s = word(r);
      e.kind = 's';
      e.text = s;
      ord->s = s;
      return rep_s(s);
    }
    case 'u': {
      std::string s;
      static const char* hex = "0123456789abcdef";
      for (int i = 0; i < 36; i++) s += (i == 8 || i == 13 || i == 18 || i == 23) ? '-' : hex[r.below(16)];
      e.kind = 's';
      e.text = s;
      return s;
    }
    case 'n': {
      static const std::pair<const char*, int> nucs[] = {{"U235", 922350000}, {"u-235", 922350000}, {"92235", 922350000}, {"922350000", 922350000}, {"235U", 922350000},
        {"Pu239", 942390000}, {"Am242M", 952420001}, {"H1", 10010000}, {"O16", 80160000}, {"Cs-137", 551370000}};
      int i = r.below(10);
      e.kind = 's';
      e.text = nucs[i].first;
      return num(nucs[i].second);
    }
    case 'p': {
      El a, b;
      Ord oa, ob;
      std::string x = gen(t.a[0], t.t0, a, r, &oa), y = gen(t.a[1], t.t1, b, r, &ob);
      ord->s = oa.s;
      ord->s2 = ob.s;
      ord->i = oa.i;
      e.add(a).add(b);
      if (r.chance(0.3)) std::swap(e.kids[0], e.kids[1]);
      return "(" + x + "," + y + ")";
    }
    case 'v': case 'l': {
      std::string s = "[";
      int n = r.chance(0.3) ? 1 : r.range(1, 5);
      for (int i = 0; i < n; i++) {
        El c;
        s += (i ? "," : "") + gen(t.a[0], t.t0, c, r);
        e.add(c);
      }
      return s + "]";
    }
    case 'S': {
      std::map<Ord, std::string> m;
      int n = r.range(1, 5);
      for (int i = 0; i < n; i++) {
        El c;
        Ord o;
        std::string x = gen(t.a[0], t.t0, c, r, &o);
        m[o] = x;
        e.add(c);
      }
      std::string s = "{";
      bool f = true;
      for (auto& p : m) { s += (f ? "" : ",") + p.second; f = false; }
      return s + "}";
    }
    default: {
      std::map<Ord, std::string> m;
      int n = r.chance(0.3) ? 1 : r.range(1, 4);
      for (int i = 0; i < n; i++) {
        El k, v, it(t.t0);
        Ord o;
        std::string x = gen(t.a[0], t.t1, k, r, &o);
        if (m.count(o)) continue;
        std::string y = gen(t.a[1], t.t2, v, r);
        m[o] = x + ":" + y;
        it.add(k).add(v);
        if (r.chance(0.3)) std::swap(it.kids[0], it.kids[1]);
        e.add(it);
      }
      std::string s = "<";
      bool f = true;
      for (auto& p : m) { s += (f ? "" : ",") + p.second; f = false; }
      return s + ">";
    }
  }
}

struct Var {
  std::string name, tag;
  Ty ty;
  std::string def;  // representation of the default, "" when required
};
static const std::vector<Var>& state_vars() {
  static std::vector<Var> v;
  if (!v.empty()) return v;
  Ty i = P('i'), d = P('d'), s = P('s');
  auto req = [&](std::string n, Ty t, std::string tag = "") { v.push_back(Var{n, tag.empty() ? n : tag, t, ""}); };
  auto opt = [&](std::string n, Ty t, std::string def, std::string tag = "") { v.push_back(Var{n, tag.empty() ? n : tag, t, def}); };
  req("r_int", i); req("r_double", d); req("r_string", s); req("r_bool", P('b'));
  opt("d_float", P('f'), "1.5"); opt("d_int", i, "-42"); opt("d_double", d, rep_d(2.5e-7)); opt("d_string", s, rep_s("some text")); opt("d_bool", P('b'), "true");
  v.push_back(Var{"i_int", "", i, "7"});
  v.push_back(Var{"i_vec", "", i, "[3,1,2]"});
  v.push_back(Var{"e_int", "", i, "?"});
  opt("a_int", i, "11", "other_name");
  req("n_int", P('n')); opt("n_vec", Seq('v', P('n')), "[922350000,942390000]");
  req("v_int", Seq('v', i)); opt("v_double", Seq('v', d), "[0.5,1.25]"); opt("v_string", Seq('v', s), "[1'x',3'y z']"); req("va_double", Seq('v', d, "x"), "vv");
  req("s_int", Seq('S', i)); opt("s_string", Seq('S', s), "{1'a',1'b'}"); req("l_int", Seq('l', i)); opt("l_string", Seq('l', s), "[1'q']");
  opt("l_pair", Seq('l', Pair(i, i)), "[(1,2)]");
  req("m_imsd", Map(i, Map(s, d))); req("r_uuid", P('u'));
  req("m_ii", Map(i, i)); opt("m_id", Map(i, d), "<-3:4,1:0.5>"); req("m_is", Map(i, s)); req("m_si", Map(s, i)); req("m_sd", Map(s, d, "of", "nuc", "kg"), "masses");
  opt("m_ss", Map(s, s), "<1'k':1'v'>"); req("m_svd", Map(s, Seq('v', d))); req("m_smid", Map(s, Map(i, d)));
  opt("ma_smsd", Map(s, Map(s, d, "efficiency", "c", "e"), "item", "name", "info"), "<>", "streams");
  req("m_spd", Map(s, Pair(d, Map(i, d)))); req("m_spv", Map(s, Pair(s, Seq('v', d)))); req("m_smsi", Map(s, Map(s, i))); req("m_pi", Map(Pair(s, s), i));
  req("v_ppm", Seq('v', Pair(Pair(d, d), Map(s, d)))); req("m_svp", Map(s, Seq('v', Pair(i, Pair(s, s)))));
  return v;
}

// a config for VState and the values it should end up with
static El gen_state(const std::string& alias, Rng& r, std::string* vals) {
  El e(alias);
  int rint = 0;
  for (auto& v : state_vars()) {
    std::string val;
    if (v.tag.empty()) {
      val = v.def == "?" ? num(3ll * rint % 1000) : v.def;
    } else if (!v.def.empty() && r.chance(0.5)) {
      val = v.def;
    } else {
      El c;
      if (v.name == "r_int") {
        rint = r.range(-100000, 100000);
        c = El(v.tag, num(rint), 'n');
        val = num(rint);
      } else {
        val = gen(v.ty, v.tag, c, r);
      }
      e.add(c);
    }
    *vals += v.name + "=" + val + ";\n";
  }
  *vals += "buf=" + rep_d(rint % 7 + 10) + ";\n";
  if (r.chance(0.6)) shuffle(e.kids, r);
  return e;
}

// ------------------------------------------------------------ simulations
struct RecipeSpec { std::string name; std::map<int, double> mass; };
struct PackSpec { std::string name, strategy; double lo, hi; };
struct UnitSpec { std::string name, strategy; int lo, hi; };
struct Proto { std::string name, alias, vals; int life; };
struct Tree { std::string proto; int life; std::string vals; std::string parent; };

struct Spec {
  El doc;
  int dur, month, year, dt, seed, stride;
  std::string handle, decay, solver;
  bool einv, einvc, exclusive;
  double eps, eps_rsrc;
  double timeout;
  std::vector<RecipeSpec> recipes;
  std::vector<PackSpec> packs;
  std::vector<UnitSpec> units;
  std::map<std::string, double> commods;  // as given
  std::vector<Proto> protos;
  std::vector<Tree> initial;  // agents expected at the start
  std::map<std::string, Proto> by_name;
  std::vector<int> snaps;
  bool sched0, drops;
  std::string file;
};

static const std::vector<std::pair<std::string, int> >& nuc_names() {
  static std::vector<std::pair<std::string, int> > v = {{"U235", 922350000}, {"922380000", 922380000}, {"Pu239", 942390000}, {"O16", 80160000}, {"55137", 551370000}, {"h1", 10010000}, {"am242m", 952420001}};
  return v;
}

static void gen_control(Spec& s, Rng& r, int dur) {
  s.dur = dur;
  s.month = r.range(1, 12);
  s.year = r.range(0, 3000);
  s.dt = 2629846;
  s.seed = 20160212;
  s.stride = 10000;
  s.decay = "manual";
  s.solver = "greedy";
  s.einv = s.einvc = false;
  s.exclusive = true;
  s.eps = s.eps_rsrc = 1e-6;
  s.timeout = -1;
  El c("control");
  c.add("duration", num(s.dur), 'n').add("startmonth", num(s.month), 'n').add("startyear", num(s.year), 'n');
  if (r.chance(0.5)) { s.handle = word(r); c.add("simhandle", s.handle); }
  if (r.chance(0.6)) { s.decay = "never"; c.add("decay", s.decay); }
  if (r.chance(0.3)) { s.dt = r.range(1, 2000000000); c.add("dt", num(s.dt), 'n'); }
  if (r.chance(0.3)) { s.einv = r.chance(0.5); c.add("explicit_inventory", s.einv ? "true" : "false", 'b'); }
  if (r.chance(0.3)) { s.einvc = r.chance(0.5); c.add("explicit_inventory_compact", s.einvc ? "1" : "0", 'b'); }
  if (r.chance(0.3)) { s.eps = r.pick(std::vector<double>{1e-5, 1e-7, 3e-6}); c.add("tolerance_generic", rep_d(s.eps), 'n'); }
  if (r.chance(0.3)) { s.eps_rsrc = r.pick(std::vector<double>{1e-5, 1e-7, 3e-6}); c.add("tolerance_resource", rep_d(s.eps_rsrc), 'n'); }
  if (r.chance(0.3)) { s.seed = r.range(1, 2000000000); c.add("seed", num(s.seed), 'n'); }
  if (r.chance(0.3)) { s.stride = r.range(1, 2000000000); c.add("stride", num(s.stride), 'n'); }
  if (r.chance(0.5)) {
    El so("solver");
    if (r.chance(0.7)) {
      El co("config");
      if (r.chance(0.4)) {
        s.solver = "coin-or";
        El k("coin-or");
        if (r.chance(0.5)) { s.timeout = r.range(5, 500); k.add("timeout", num(static_cast<int>(s.timeout)), 'n'); }
        if (r.chance(0.3)) k.add("verbose", "false", 'b');
        if (r.chance(0.3)) k.add("mps", "0", 'b');
        if (k.kids.empty()) k = El("coin-or", "", 's');
        co.add(k);
      } else {
        El k("greedy");
        if (r.chance(0.5)) k.add("preconditioner", "greedy");
        if (k.kids.empty()) k = El("greedy", "", 's');
        co.add(k);
      }
      so.add(co);
    }
    if (r.chance(0.5)) { s.exclusive = r.chance(0.6); so.add("allow_exclusive_orders", s.exclusive ? "true" : "false", 'b'); }
    if (so.kids.empty()) so = El("solver", "", 's');
    c.add(so);
  }
  if (r.chance(0.5)) shuffle(c.kids, r);
  s.doc.add(c);
}

static void gen_recipes(Spec& s, Rng& r, int lo) {
  int n = r.range(lo, 3);
  for (int i = 0; i < n; i++) {
    RecipeSpec q;
    q.name = "rec" + num(i) + (r.chance(0.2) ? " " + word(r) : "");
    El e("recipe");
    e.add("name", q.name).add("basis", "mass");
    int k = r.range(1, 5);
    for (int j = 0; j < k; j++) {
      auto& nn = r.pick(nuc_names());
      if (q.mass.count(nn.second)) continue;
      double v = r.chance(0.4) ? r.range(1, 99) : r.logreal(1e-6, 100);
      std::string t = dtext(v, r);
      q.mass[nn.second] = strtod(t.c_str(), NULL);
      El nu("nuclide");
      nu.add("id", nn.first).add("comp", t, 'n');
      if (r.chance(0.3)) std::swap(nu.kids[0], nu.kids[1]);
      e.add(nu);
    }
    s.recipes.push_back(q);
    s.doc.add(e);
  }
}

static void gen_packs(Spec& s, Rng& r) {
  static const std::vector<std::string> st = {"first", "equal", "uniform", "normal"};
  static const std::vector<std::string> su = {"first", "equal", "hybrid"};
  int n = r.below(3);
  for (int i = 0; i < n; i++) {
    PackSpec p{"pack" + num(i), "first", 1e-6, std::numeric_limits<double>::max()};
    p.lo = s.eps;
    El e("package");
    e.add("name", p.name);
    if (r.chance(0.7)) { std::string t = rep_d(r.real(0.1, 2)); p.lo = strtod(t.c_str(), NULL); e.add("fill_min", t, 'n'); }
    if (r.chance(0.7)) { std::string t = rep_d(r.real(2, 9)); p.hi = strtod(t.c_str(), NULL); e.add("fill_max", t, 'n'); }
    if (r.chance(0.7) && p.hi < 1e9) { p.strategy = r.pick(st); e.add("strategy", p.strategy); }
    s.packs.push_back(p);
    s.doc.add(e);
  }
  n = r.below(3);
  for (int i = 0; i < n; i++) {
    UnitSpec p{"unit" + num(i), "first", 0, std::numeric_limits<int>::max()};
    El e("transportunit");
    e.add("name", p.name);
    if (r.chance(0.7)) { p.lo = r.range(0, 3); e.add("fill_min", num(p.lo), 'n'); }
    if (r.chance(0.7)) { p.hi = r.range(3, 9); e.add("fill_max", num(p.hi), 'n'); }
    if (r.chance(0.7)) { p.strategy = r.pick(su); e.add("strategy", p.strategy); }
    s.units.push_back(p);
    s.doc.add(e);
  }
}

static El spec_el(const std::string& lib, const std::string& name, const std::string& alias) {
  El e("spec");
  e.add("lib", lib).add("name", name);
  if (alias != name) e.add("alias", alias);
  return e;
}

static std::string ints(const std::vector<int>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + num(v[i]);
  return s + "]";
}
static void add_ints(El& e, const std::string& tag, const std::vector<int>& v) {
  if (v.empty()) return;
  El x(tag);
  for (int i : v) x.add("val", num(i), 'n');
  e.add(x);
}

struct Script { std::vector<int> bat, bfor, dat, dfor, dwhich, snap; std::vector<std::string> bwhat; int phase = 0; };
static El inst_config(const std::string& alias, const Script& c, std::string* vals) {
  El e(alias);
  add_ints(e, "build_at", c.bat);
  add_ints(e, "build_for", c.bfor);
  if (!c.bwhat.empty()) {
    El x("build_what");
    for (auto& w : c.bwhat) x.add("val", w);
    e.add(x);
  }
  add_ints(e, "decom_at", c.dat);
  add_ints(e, "decom_for", c.dfor);
  add_ints(e, "decom_which", c.dwhich);
  add_ints(e, "snap_at", c.snap);
  e.add("phase", num(c.phase), 'n');
  std::string w = "[";
  for (size_t i = 0; i < c.bwhat.size(); i++) w += (i ? "," : "") + rep_s(c.bwhat[i]);
  *vals = "build_at=" + ints(c.bat) + ";build_for=" + ints(c.bfor) + ";build_what=" + w + "];decom_at=" + ints(c.dat) + ";decom_for=" + ints(c.dfor) +
          ";decom_which=" + ints(c.dwhich) + ";snap_at=" + ints(c.snap) + ";phase=" + num(c.phase) + ";";
  return e;
}

struct DynCfg {
  std::vector<std::string> in, out;
  std::string pin, pout, recipe, tag, pack = "unpackaged";
  double in_qty = 1, out_cap = 1e6, make = 0, pref = 1;
  int period = 1, residence = 2, linger = 0, noisy = 0;
};
static std::string strs(const std::vector<std::string>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + rep_s(v[i]);
  return s + "]";
}
static El dyn_config(const std::string& alias, const DynCfg& c, std::string* vals) {
  El e(alias);
  auto list = [&](const std::string& tag, const std::vector<std::string>& v) {
    if (v.empty()) return;
    El x(tag);
    for (auto& w : v) x.add("val", w);
    e.add(x);
  };
  list("in_commods", c.in);
  list("out_commods", c.out);
  if (!c.pin.empty()) e.add("p_in", c.pin);
  if (!c.pout.empty()) e.add("p_out", c.pout);
  e.add("in_qty", rep_d(c.in_qty), 'n').add("out_cap", rep_d(c.out_cap), 'n');
  if (c.make > 0) e.add("make", rep_d(c.make), 'n');
  if (!c.recipe.empty()) e.add("recipe", c.recipe);
  if (c.pack != "unpackaged") e.add("pack", c.pack);
  e.add("period", num(c.period), 'n').add("residence", num(c.residence), 'n').add("pref", rep_d(c.pref), 'n');
  if (c.linger) e.add("linger", num(c.linger), 'n');
  if (c.noisy) e.add("noisy", num(c.noisy), 'n');
  if (!c.tag.empty()) e.add("tag", c.tag);
  *vals = "in_commods=" + strs(c.in) + ";out_commods=" + strs(c.out) + ";p_in=" + rep_s(c.pin) + ";p_out=" + rep_s(c.pout) + ";in_qty=" + rep_d(c.in_qty) + ";out_cap=" + rep_d(c.out_cap) +
          ";make=" + rep_d(c.make) + ";recipe=" + rep_s(c.recipe) + ";pack=" + rep_s(c.pack) + ";period=" + num(c.period) + ";residence=" + num(c.residence) + ";pref=" + rep_d(c.pref) +
          ";linger=" + num(c.linger) + ";";
  return e;
}

// how = 'c' (C12: mostly state) or 'd' (dynamics for C10 and C11)
static Spec make_spec(Rng& r, char how) {
  Spec s;
  s.doc = El("simulation");
  s.sched0 = s.drops = false;
  gen_control(s, r, how == 'c' ? r.range(1, 6) : r.range(4, 22));
  gen_recipes(s, r, how == 'c' ? 0 : 1);
  gen_packs(s, r);
  std::string a_state = r.chance(0.3) ? "st-Ate" : "VState", a_dyn = r.chance(0.3) ? "Dynamic" : "VDyn", a_inst = r.chance(0.3) ? "Agency" : "VInst", a_reg = r.chance(0.3) ? "Land" : "VReg";
  El ar("archetypes");
  ar.add(spec_el("vf", "VState", a_state)).add(spec_el("vf", "VDyn", a_dyn)).add(spec_el("vf", "VInst", a_inst)).add(spec_el("vf", "VReg", a_reg));
  if (r.chance(0.3)) ar.add(spec_el("agents", "NullRegion", "NullRegion"));
  if (r.chance(0.3)) shuffle(ar.kids, r);
  s.doc.add(ar);
  static const std::vector<std::string> cs = {"ca", "cb", "cc", "cd"};
  for (auto& c : cs)
    if (r.chance(0.4)) {
      double p = r.chance(0.3) ? -r.range(0, 2) : r.chance(0.5) ? r.range(1, 9) : r.real(0, 9);
      std::string t = rep_d(p);
      s.commods[c] = strtod(t.c_str(), NULL);
      El e("commodity");
      e.add("name", c).add("solution_priority", t, 'n');
      s.doc.add(e);
    }
  // facilities
  int nf = how == 'c' ? r.range(1, 3) : r.range(2, 5);
  for (int i = 0; i < nf; i++) {
    Proto p;
    p.name = "fac" + num(i) + (r.chance(0.2) ? " & co" : "");
    p.life = r.chance(0.35) ? r.range(how == 'c' ? 0 : 1, 9) : -1;
    El f("facility");
    f.add("name", p.name);
    if (p.life >= 0) f.add("lifetime", num(p.life), 'n');
    El c("config");
    if (how == 'c' ? r.chance(0.7) : r.chance(0.1)) {
      p.alias = a_state;
      c.add(gen_state(a_state, r, &p.vals));
    } else {
      p.alias = a_dyn;
      DynCfg d;
      // the table of product qualities is per process: no quality may be known from an earlier case
      if (how != 'c') d.tag = "case" + num(vf::st().cur) + "_";
      for (auto& x : cs) {
        if (r.chance(0.35)) d.in.push_back(x);
        else if (r.chance(0.4)) d.out.push_back(x);
      }
      if (r.chance(0.4)) d.pin = r.pick(std::vector<std::string>{"pa", "pb"});
      if (r.chance(0.4)) d.pout = d.pin == "pa" ? "pb" : "pa";
      d.in_qty = r.real(0.5, 9);
      if (r.chance(0.5)) d.out_cap = r.real(1, 12);
      if (!s.recipes.empty() && r.chance(0.7)) {
        d.recipe = r.pick(s.recipes).name;
        if (r.chance(0.7)) d.make = r.real(0.5, 14);
        if (d.make > 0 && !s.packs.empty() && r.chance(0.6)) {
          auto& pk = r.pick(s.packs);
          // the state of the random number generator is not part of a snapshot
          if (pk.lo > 0.05 && (how != 'r' || pk.strategy == "first" || pk.strategy == "equal")) d.pack = pk.name;
        }
      }
      d.period = r.chance(0.6) ? 1 : r.range(1, 3);
      d.residence = r.range(0, 3);
      d.pref = r.real(0.5, 4);
      if (r.chance(0.2)) d.linger = r.range(1, 3);
      if (how == 'd') d.noisy = r.below(3);
      if (how == 'c' && r.chance(0.3)) {
        // nothing but defaults
        DynCfg e;
        e.in_qty = 1;
        std::string dummy;
        p.vals = "in_commods=[];out_commods=[];p_in=0'';p_out=0'';in_qty=1;out_cap=1000000;make=0;recipe=0'';pack=10'unpackaged';period=1;residence=2;pref=1;linger=0;";
        c.add(El(a_dyn, "", 's'));
      } else {
        c.add(dyn_config(a_dyn, d, &p.vals));
      }
    }
    f.add(c);
    if (r.chance(0.3)) shuffle(f.kids, r);
    s.doc.add(f);
    s.protos.push_back(p);
    s.by_name[p.name] = p;
  }
  // regions and institutions
  int nr = r.range(1, 2), k = 0;
  for (int i = 0; i < nr; i++) {
    El reg("region");
    std::string rn = "reg" + num(i), rvals = "levels=<4'none':0>;";
    reg.add("name", rn);
    El rc("config"), ra(a_reg);
    if (r.chance(0.6)) {
      El c;
      rvals = "levels=" + gen(Map(P('s'), P('d')), "levels", c, r) + ";";
      ra.add(c);
    }
    std::vector<int> last;  // when the last build of each institution falls due
    s.initial.push_back(Tree{rn, -1, rvals, "-"});
    s.by_name[rn] = Proto{rn, a_reg, rvals, -1};
    int ni = r.range(1, 2);
    for (int j = 0; j < ni; j++) {
      El in("institution");
      std::string iname = "inst" + num(k++), ivals;
      in.add("name", iname);
      Script sc;
      sc.phase = r.below(3);
      int nb = how == 'c' ? r.below(2) : r.below(4);
      for (int b = 0; b < nb; b++) {
        int at = r.below(s.dur);
        sc.bat.push_back(at);
        sc.bfor.push_back(at + r.range(1, how == 'c' ? 2 : 6));
        sc.bwhat.push_back(r.pick(s.protos).name);
        if (at == 0) s.sched0 = true;
      }
      if (how != 'c') {
        int nd = r.below(3);
        for (int b = 0; b < nd; b++) {
          int at = r.below(s.dur);
          sc.dat.push_back(at);
          sc.dfor.push_back(at + r.below(7));
          sc.dwhich.push_back(r.below(5));
        }
        int ns = r.below(4);
        for (int b = 0; b < ns; b++) sc.snap.push_back(r.below(s.dur));
        for (int t : sc.snap) s.snaps.push_back(t + 1);
      }
      El c("config");
      c.add(inst_config(a_inst, sc, &ivals));
      s.initial.push_back(Tree{iname, -1, ivals, rn});
      s.by_name[iname] = Proto{iname, a_inst, ivals, -1};
      El lst("initialfacilitylist");
      int ne = r.below(how == 'c' ? 3 : 4);
      for (int b = 0; b < ne; b++) {
        auto& p = r.pick(s.protos);
        int n = r.chance(0.15) ? 0 : r.range(1, 3);
        El en("entry");
        en.add("prototype", p.name).add("number", num(n), 'n');
        lst.add(en);
        for (int q = 0; q < n; q++) s.initial.push_back(Tree{p.name, p.life, p.vals, iname});
      }
      if (!lst.kids.empty()) in.add(lst);
      in.add(c);
      if (r.chance(0.3)) shuffle(in.kids, r);
      reg.add(in);
      int mx = 0;
      for (int b : sc.bfor) mx = std::max(mx, b);
      last.push_back(mx);
    }
    if (how != 'c' && r.chance(0.2)) {
      // an institution leaves, its facilities stay; a build under a departed parent is not legitimate (see C06)
      int w = r.below(last.size()), at = *std::max_element(last.begin(), last.end()) + r.below(4);
      ra.add("drop_at", num(at), 'n').add("drop_which", num(w), 'n');
      s.drops = true;
    }
    rc.add(ra.kids.empty() ? El(a_reg, "", 's') : ra);
    reg.kids.insert(reg.kids.begin() + 1, rc);
    if (r.chance(0.3)) shuffle(reg.kids, r);
    s.doc.add(reg);
  }
  if (r.chance(0.5)) shuffle(s.doc.kids, r);
  return s;
}

static void put(const std::string& path, const std::string& text) {
  std::ofstream o(path);
  o << text;
}
static std::string slurp(const std::string& p) {
  std::ifstream f(p);
  std::stringstream o;
  o << f.rdbuf();
  return o.str();
}

struct Db {
  cy::FullBackend* b;
  std::string path;
  explicit Db(const std::string& p, bool fresh = true) : b(NULL), path(p) {
    if (fresh) unlink(p.c_str());
    if (p.size() > 3 && p.substr(p.size() - 3) == ".h5") b = new cy::Hdf5Back(p);
    else b = new cy::SqliteBack(p);
  }
  ~Db() { delete b; }
};

static bool same_num(double a, double b) { return a == b || vf::close(a, b, 1e-9, 1e-12) || (std::isnan(a) && std::isnan(b)); }

// lines equal up to the rounding of the numbers in them
static bool alike(const std::string& a, const std::string& b) {
  if (a == b) return true;
  size_t i = 0, j = 0;
  auto numeric = [](const std::string& s, size_t k) { return isdigit(s[k]) || ((s[k] == '-' || s[k] == '+') && k + 1 < s.size() && isdigit(s[k + 1])); };
  while (i < a.size() && j < b.size()) {
    if (numeric(a, i) && numeric(b, j)) {
      char *e1, *e2;
      double x = strtod(a.c_str() + i, &e1), y = strtod(b.c_str() + j, &e2);
      if (!same_num(x, y)) return false;
      i = e1 - a.c_str();
      j = e2 - b.c_str();
    } else if (a[i] != b[j]) {
      return false;
    } else {
      i++;
      j++;
    }
  }
  return i == a.size() && j == b.size();
}

static std::vector<std::string> split(const std::string& s, char c, int max) {
  std::vector<std::string> o;
  size_t p = 0;
  while (static_cast<int>(o.size()) + 1 < max) {
    size_t q = s.find(c, p);
    if (q == std::string::npos) break;
    o.push_back(s.substr(p, q - p));
    p = q + 1;
  }
  o.push_back(s.substr(p));
  return o;
}

// what entered: prototype, parent prototype, lifetime and values
struct Entered { std::string proto, parent, life, vals; int t, id; };
static std::vector<Entered> entered(const std::vector<std::string>& ls) {
  std::vector<Entered> o;
  for (auto& l : ls) {
    if (l.compare(0, 6, "enter|") != 0) continue;
    auto f = split(l, '|', 7);
    if (f.size() == 7) o.push_back(Entered{f[3], f[4], f[5], f[6], atoi(f[1].c_str()), atoi(f[2].c_str())});
  }
  return o;
}

static std::string write_input(const Spec& s, Rng& r, bool json) {
  std::string text, file;
  if (json) {
    file = "in.json";
    text = json_doc(s.doc, r);
  } else {
    file = "in.xml";
    to_xml(s.doc, text, r, 0, r.chance(0.1));
    if (r.chance(0.5)) text = "<?xml version=\"1.0\"?>\n" + text;
  }
  put(file, text);
  return file;
}

static std::string schema() { return getenv("CYCLUS_RNG_SCHEMA"); }

// first difference between two texts, for the report
static std::string differ(const std::string& want, const std::string& got) {
  size_t i = 0;
  while (i < want.size() && i < got.size() && want[i] == got[i]) i++;
  size_t a = i > 60 ? i - 60 : 0;
  return "wanted ..." + want.substr(a, 200) + "\n   got ..." + got.substr(a, 200);
}

static void check_entered(const Spec& s, const std::vector<Entered>& got, const char* when, bool json) {
  std::multiset<std::pair<std::string, std::string> > want, have;
  for (auto& t : s.initial) want.insert({t.proto, t.parent});
  for (auto& e : got) have.insert({e.proto, e.parent});
  if (want != have) {
    std::string m = "agents described by the file and agents " + std::string(when) + " differ:";
    for (auto& x : want) if (want.count(x) != have.count(x)) m += "\n  " + x.first + " under " + x.second + Fmt().str() + ": " + num(want.count(x)) + " described, " + num(have.count(x)) + " there";
    for (auto& x : have) if (!want.count(x)) m += "\n  " + x.first + " under " + x.second + " is not in the file";
    vf::fail(m);
  }
  for (auto& e : got) {
    const Proto& p = s.by_name.at(e.proto);
    VF_CHECK(e.life == num(p.life), "agent of prototype " << e.proto << " has lifetime " << e.life << " " << when << ", the file says " << p.life);
    if (e.vals != p.vals) vf::fail("the state of an agent of prototype " + e.proto + " " + when + " is not what the file says\n" + differ(p.vals, e.vals));
    count("agents_checked");
    if (p.vals.size() > 1000) count("values_checked", 44);
    if (json) count("agents_from_json");
  }
}

static double near(double a, double b) { return vf::close(a, b, 1e-12, 0); }

static void check_context(const Spec& s, cy::Context* ctx) {
  cy::SimInfo si = ctx->sim_info();
  VF_CHECK(si.duration == s.dur && si.y0 == s.year && si.m0 == s.month, "the simulation runs for " << si.duration << " from " << si.y0 << "/" << si.m0);
  VF_CHECK(si.handle == s.handle, "handle '" << si.handle << "' for '" << s.handle << "'");
  VF_CHECK(si.decay == s.decay, "decay mode " << si.decay);
  VF_CHECK(static_cast<long>(si.dt) == s.dt && static_cast<long>(ctx->dt()) == s.dt, "time step " << si.dt << " for " << s.dt);
  VF_CHECK(static_cast<long>(si.seed) == s.seed && static_cast<long>(si.stride) == s.stride, "seed " << si.seed << " stride " << si.stride);
  VF_CHECK(si.explicit_inventory == s.einv && si.explicit_inventory_compact == s.einvc, "explicit inventory flags");
  VF_CHECK(si.eps == s.eps && si.eps_rsrc == s.eps_rsrc && cy::eps() == s.eps && cy::eps_rsrc() == s.eps_rsrc, "tolerances " << si.eps << " " << si.eps_rsrc << " in effect " << cy::eps() << " " << cy::eps_rsrc());
  for (auto& q : s.recipes) {
    cy::Composition::Ptr c = ctx->GetRecipe(q.name);
    auto want = vf::nuc_mass(q.mass, 1), got = vf::nuc_mass(c->mass(), 1);
    for (auto& p : want) VF_CHECK(near(got[p.first], p.second), "recipe " << q.name << ": " << p.first << " is " << got[p.first] << ", the file gives " << p.second);
    VF_CHECK(got.size() == want.size(), "recipe " << q.name << " has " << got.size() << " nuclides");
    count("recipes_checked");
  }
  for (auto& p : s.packs) {
    cy::Package::Ptr k = ctx->GetPackage(p.name);
    VF_CHECK(k->name() == p.name && k->fill_min() == p.lo && k->fill_max() == p.hi && k->strategy() == p.strategy,
             "package " << p.name << " is [" << k->fill_min() << ", " << k->fill_max() << "] " << k->strategy() << ", the file says [" << p.lo << ", " << p.hi << "] " << p.strategy);
    count("packages_checked");
  }
  for (auto& p : s.units) {
    cy::TransportUnit::Ptr k = ctx->GetTransportUnit(p.name);
    VF_CHECK(k->name() == p.name && k->fill_min() == p.lo && k->fill_max() == p.hi && k->strategy() == p.strategy,
             "transport unit " << p.name << " is [" << k->fill_min() << ", " << k->fill_max() << "] " << k->strategy() << ", the file says [" << p.lo << ", " << p.hi << "] " << p.strategy);
    count("units_checked");
  }
  bool coin = dynamic_cast<cy::ProgSolver*>(ctx->solver()) != NULL, greedy = dynamic_cast<cy::GreedySolver*>(ctx->solver()) != NULL;
  VF_CHECK(s.solver == "greedy" ? greedy : coin, "the solver is not the one asked for (" << s.solver << ")");
}

template <class T> static T one(cy::QueryableBackend* b, const std::string& table, const std::string& col) {
  cy::QueryResult q = b->Query(table, NULL);
  VF_CHECK(q.rows.size() == 1, "table " << table << " has " << q.rows.size() << " rows");
  return q.GetVal<T>(col);
}

static void check_db(const Spec& s, cy::QueryableBackend* b, const std::vector<Entered>& later) {
  VF_CHECK(one<int>(b, "Info", "Duration") == s.dur && one<int>(b, "Info", "InitialYear") == s.year && one<int>(b, "Info", "InitialMonth") == s.month, "Info row");
  VF_CHECK(one<int>(b, "Info", "Seed") == s.seed && one<int>(b, "Info", "Stride") == s.stride, "recorded seed and stride");
  VF_CHECK(one<std::string>(b, "Info", "Handle") == s.handle, "recorded handle");
  VF_CHECK(one<std::string>(b, "DecayMode", "Decay") == s.decay, "recorded decay mode");
  VF_CHECK(one<int>(b, "TimeStepDur", "DurationSecs") == s.dt, "recorded time step");
  VF_CHECK(one<double>(b, "Epsilon", "GenericEpsilon") == s.eps && one<double>(b, "Epsilon", "ResourceEpsilon") == s.eps_rsrc, "recorded tolerances");
  VF_CHECK(one<bool>(b, "InfoExplicitInv", "RecordInventory") == s.einv && one<bool>(b, "InfoExplicitInv", "RecordInventoryCompact") == s.einvc, "recorded inventory flags");
  VF_CHECK(one<std::string>(b, "SolverInfo", "Solver") == s.solver && one<bool>(b, "SolverInfo", "ExclusiveOrders") == s.exclusive, "recorded solver");
  if (s.solver == "coin-or") VF_CHECK(one<double>(b, "CoinSolverInfo", "Timeout") == s.timeout, "recorded solver timeout");
  if (!s.commods.empty()) {
    cy::QueryResult q = b->Query("CommodPriority", NULL);
    VF_CHECK(q.rows.size() == s.commods.size(), "recorded commodities");
    double mx = 0;
    for (auto& c : s.commods) if (c.second >= 1) mx = std::max(mx, c.second);
    for (size_t i = 0; i < q.rows.size(); i++) {
      std::string c = q.GetVal<std::string>("Commodity", i);
      double v = q.GetVal<double>("SolutionPriority", i);
      VF_CHECK(s.commods.count(c), "commodity " << c << " is not in the file");
      double w = s.commods.at(c);
      VF_CHECK(v == (w >= 1 ? w : mx + 1), "commodity " << c << " has priority " << v << ", the file says " << w);
    }
  }
  cy::QueryResult q = b->Query("AgentEntry", NULL);
  std::multiset<std::string> have, want;
  for (size_t i = 0; i < q.rows.size(); i++) {
    std::string p = q.GetVal<std::string>("Prototype", i);
    have.insert(p);
    VF_CHECK(s.by_name.count(p), "AgentEntry names prototype '" << p << "'");
    VF_CHECK(q.GetVal<int>("Lifetime", i) == s.by_name.at(p).life, "AgentEntry of " << p << " has lifetime " << q.GetVal<int>("Lifetime", i));
  }
  for (auto& t : s.initial) want.insert(t.proto);
  for (auto& e : later) want.insert(e.proto);
  VF_CHECK(have == want, "AgentEntry has " << have.size() << " agents, " << want.size() << " entered");
  q = b->Query("Prototypes", NULL);
  std::set<std::string> pn;
  for (size_t i = 0; i < q.rows.size(); i++) pn.insert(q.GetVal<std::string>("Prototype", i));
  std::set<std::string> pw;
  for (auto& p : s.by_name) pw.insert(p.first);
  VF_CHECK(pn == pw && q.rows.size() == pw.size(), "recorded prototypes");
  if (!s.recipes.empty()) {
    q = b->Query("Recipes", NULL);
    VF_CHECK(q.rows.size() == s.recipes.size(), q.rows.size() << " recipes recorded of " << s.recipes.size());
  }
}

// breaks a valid document in one place; returns what was done, "" when nothing was
static std::string spoil(Spec& s, Rng& r, std::string* raw) {
  auto facs = [&]() { std::vector<El*> v; for (auto& k : s.doc.kids) if (k.name == "facility") v.push_back(&k); return v; };
  El* f = r.pick(facs());
  El* cfg = f->find("config");
  El* st = cfg->kids.empty() ? NULL : &cfg->kids[0];
  bool is_state = st && st->find("r_int");
  switch (r.below(11)) {
    case 0:
      if (!is_state) return "";
      for (size_t i = 0; i < st->kids.size(); i++)
        if (st->kids[i].name == "r_int") { st->kids.erase(st->kids.begin() + i); break; }
      return "left out a required variable";
    case 1:
      if (!st || st->kind != 'o') return "";
      st->add("no_such_variable", "1");
      return "added an unknown variable";
    case 2:
      if (!is_state) return "";
      st->find("r_double")->text = r.pick(std::vector<std::string>{"1.5kg", "abc", "", "1,5"});
      return "a number that is none";
    case 3: {
      El* c = s.doc.find("control");
      for (size_t i = 0; i < c->kids.size(); i++)
        if (c->kids[i].name == "duration") { c->kids.erase(c->kids.begin() + i); break; }
      return "no duration";
    }
    case 4:
      if (!st) return "";
      st->name = "NoSuchArchetype";
      return "an archetype that is not listed";
    case 5: {
      El* a = s.doc.find("archetypes");
      a->add(spec_el("vf", "Missing", "Missing"));
      return "an archetype that does not exist";
    }
    case 6: {
      for (auto& k : s.doc.kids)
        if (k.name == "region")
          for (auto& i : k.kids)
            if (i.name == "institution" && i.find("initialfacilitylist")) {
              El& e = r.pick(std::vector<El*>{&i.find("initialfacilitylist")->kids[0]})[0];
              e.find("prototype")->text = "nobody";
              e.find("number")->text = "1";
              return "an unknown prototype in an initial facility list";
            }
      return "";
    }
    case 7: {
      for (auto& k : s.doc.kids)
        if (k.name == "recipe") { k.find("basis")->text = "volume"; return "an unknown recipe basis"; }
      return "";
    }
    case 8:
      s.doc.find("control")->find("startmonth")->text = r.pick(std::vector<std::string>{"13", "0", "-1", "x"});
      return "a wrong month";
    case 9: {
      std::string t;
      to_xml(s.doc, t, r, 0, true);
      t.resize(t.size() - r.range(3, 40));
      *raw = t;
      return "a truncated file";
    }
    default:
      if (!is_state || !st->find("v_int")) return "";
      st->find("v_int")->kids[0].text = "1.5";
      return "a fraction for an integer";
  }
}

static void case_c12(Rng& r);

static void scenario_priority(Rng& r) {
  // one supplier shared by two commodities; the file says which is served first
  Spec s;
  s.doc = El("simulation");
  El c("control");
  int dur = r.range(2, 5);
  c.add("duration", num(dur), 'n').add("startmonth", "1", 'n').add("startyear", "2000", 'n').add("decay", "never");
  s.doc.add(c);
  El ar("archetypes");
  ar.add(spec_el("vf", "VDyn", "VDyn")).add(spec_el("vf", "VInst", "VInst")).add(spec_el("vf", "VReg", "VReg"));
  s.doc.add(ar);
  bool a_first = r.chance(0.5);
  int hi = r.range(1, 3), lo = r.range(10, 40);
  El k1("commodity"), k2("commodity");
  k1.add("name", "one").add("solution_priority", num(a_first ? hi : lo), 'n');
  k2.add("name", "two").add("solution_priority", num(a_first ? lo : hi), 'n');
  s.doc.add(k1).add(k2);
  double make = r.real(3, 9), want1 = r.real(1, 12), want2 = r.real(1, 12);
  auto fac = [&](const std::string& n, const DynCfg& d) {
    std::string dummy;
    El f("facility"), cf("config");
    f.add("name", n);
    cf.add(dyn_config("VDyn", d, &dummy));
    f.add(cf);
    s.doc.add(f);
  };
  DynCfg sup, q1, q2;
  sup.out = {"one", "two"};
  sup.make = make;
  sup.out_cap = make;
  sup.recipe = "rc";
  q1.in = {"one"};
  q1.in_qty = want1;
  q1.pref = r.real(0.5, 5);
  q2.in = {"two"};
  q2.in_qty = want2;
  q2.pref = r.real(0.5, 5);
  fac("supplier", sup);
  fac("needs1", q1);
  fac("needs2", q2);
  El rec("recipe"), nu("nuclide");
  nu.add("id", "U238").add("comp", "1", 'n');
  rec.add("name", "rc").add("basis", "mass").add(nu);
  s.doc.add(rec);
  El reg("region"), rc("config"), in("institution"), ic("config"), lst("initialfacilitylist");
  rc.add("VReg", "");
  reg.add("name", "r").add(rc);
  ic.add("VInst", "");
  for (const char* n : {"supplier", "needs1", "needs2"}) {
    El e("entry");
    e.add("prototype", n).add("number", "1", 'n');
    lst.add(e);
  }
  if (r.chance(0.5)) shuffle(lst.kids, r);
  in.add("name", "i").add(lst).add(ic);
  reg.add(in);
  s.doc.add(reg);
  bool json = r.chance(0.3);
  std::string file = write_input(s, r, json);
  Db db("out.sqlite");
  cy::Recorder rec_;
  rec_.RegisterBackend(db.b);
  lines()->clear();
  {
    cy::XMLFileLoader l(&rec_, db.b, schema(), file, "none", false);
    l.LoadSim();
  }
  cy::SimInit si;
  si.Init(&rec_, db.b);
  lines()->clear();
  si.timer()->RunSim();
  std::map<int, std::map<std::string, double> > sent;
  for (auto& l : *lines())
    if (l.compare(0, 5, "ship|") == 0) {
      auto f = split(l, '|', 99);
      sent[atoi(f[1].c_str())][f[5]] += strtod(f[7].c_str(), NULL);
    }
  for (int t = 0; t < dur; t++) {
    // the supplier has at least `make` on offer each step, and offers at most that
    std::string first = a_first ? "one" : "two", second = a_first ? "two" : "one";
    double w1 = a_first ? want1 : want2, w2 = a_first ? want2 : want1;
    double g1 = std::min(w1, make), g2 = std::min(w2, make - g1);
    VF_CHECK(vf::close(sent[t][first], g1, 1e-6, 1e-5), "step " << t << ": commodity '" << first << "' has the first solution priority (" << hi << " before " << lo << ") and got " << sent[t][first] << " of the "
                                                               << g1 << " it could have; '" << second << "' got " << sent[t][second]);
    VF_CHECK(vf::close(sent[t][second], std::max(0.0, g2), 1e-6, 1e-5), "step " << t << ": commodity '" << second << "' got " << sent[t][second] << ", " << g2 << " was left for it");
    count("priorities_judged");
  }
  rec_.Close();
}

static void case_c12(Rng& r) {
  if (r.chance(0.1)) { scenario_priority(r); return; }
  bool json = r.chance(0.3);
  g_json = json;
  Spec s = make_spec(r, 'c');
  std::string raw, what;
  if (r.chance(0.25)) what = spoil(s, r, &raw);
  bool h5 = r.chance(0.15);
  std::string file = write_input(s, r, json && raw.empty());
  if (!raw.empty()) put(file, raw);
  trace(slurp(file).substr(0, 3500));
  if (!what.empty()) trace("spoilt: " + what);
  vf::nontrivial(vf::hash_str(slurp(file)));
  Db db(h5 ? "out.h5" : "out.sqlite");
  cy::Recorder rec(r.chance(0.3) ? r.range(1, 20) : 300u);
  rec.RegisterBackend(db.b);
  lines()->clear();
  cy::cy_eps = cy::cy_eps_rsrc = 1e-6;
  bool refused = false;
  std::string why;
  try {
    cy::XMLFileLoader* l;
    bool as_text = r.chance(0.2);
    if (as_text) l = new cy::XMLFileLoader(&rec, db.b, schema(), slurp(file), json && raw.empty() ? "json" : "xml", false);
    else l = new cy::XMLFileLoader(&rec, db.b, schema(), file, "none", false);
    l->LoadSim();
    if (what.empty()) check_entered(s, entered(*lines()), "after loading", json);
    delete l;
    std::vector<Entered> first = entered(*lines());
    lines()->clear();
    cy::SimInit si;
    si.Init(&rec, db.b);
    if (what.empty()) {
      std::vector<Entered> again = entered(*lines());
      check_entered(s, again, "in the simulation", json);
      std::map<int, std::string> ids;
      for (auto& e : first) ids[e.id] = e.proto;
      for (auto& e : again) VF_CHECK(ids.count(e.id) && ids[e.id] == e.proto, "agent " << e.id << " of " << e.proto << " changed its id between loading and running");
      check_context(s, si.context());
      lines()->clear();
      si.timer()->RunSim();
      std::vector<Entered> later = entered(*lines());
      for (auto& e : later) {
        const Proto& p = s.by_name.at(e.proto);
        VF_CHECK(e.life == num(p.life) && e.vals == p.vals, "an agent built later from prototype " << e.proto << " does not have the values of the file\n" << differ(p.vals, e.vals));
        count("built_later");
      }
      rec.Flush();
      std::vector<cy::Cond> conds;
      conds.push_back(cy::Cond("SimId", "==", rec.sim_id()));
      cy::CondInjector ci(db.b, conds);
      check_db(s, &ci, later);
      count(h5 ? "loaded_to_hdf5" : "loaded_to_sqlite");
      count(json ? "json_files" : "xml_files");
    }
  } catch (cy::Error& e) {
    refused = true;
    why = e.what();
  } catch (std::exception& e) {
    refused = true;
    why = e.what();
    if (what.empty()) vf::fail(std::string("a valid input was refused by ") + typeid(e).name() + ": " + e.what());
  }
  if (what.empty()) VF_CHECK(!refused, "a valid input was refused: " << why);
  else {
    VF_CHECK(refused, "an invalid input was accepted: " << what);
    count("refused");
  }
  rec.Close();
}

// ------------------------------------------------------------ C11 and C10
struct Ran {
  std::vector<std::string> lines;  // what the agents said while running
  boost::uuids::uuid id;
};
static Ran run_input(const std::string& file, const std::string& format, cy::FullBackend* b, unsigned dump) {
  Ran o;
  cy::Recorder rec(dump);
  rec.RegisterBackend(b);
  o.id = rec.sim_id();
  cy::cy_eps = cy::cy_eps_rsrc = 1e-6;
  {
    cy::XMLFileLoader l(&rec, b, schema(), file, format, false);
    l.LoadSim();
  }
  lines()->clear();
  {
    cy::SimInit si;
    si.Init(&rec, b);
    lines()->clear();
    si.timer()->RunSim();
    rec.Flush();
  }
  rec.Close();
  o.lines.swap(*lines());
  return o;
}
static int line_time(const std::string& l) {
  size_t a = l.find('|');
  return a == std::string::npos ? -1 : atoi(l.c_str() + a + 1);
}
static std::vector<std::string> from_time(const std::vector<std::string>& v, int t) {
  std::vector<std::string> o;
  for (auto& l : v) if (line_time(l) >= t) o.push_back(l);
  std::stable_sort(o.begin(), o.end(), [](const std::string& x, const std::string& y) {
    int a = line_time(x), b = line_time(y);
    return a != b ? a < b : x < y;
  });
  return o;
}
static void compare_lines(const std::vector<std::string>& want, const std::vector<std::string>& got, const std::string& what) {
  for (size_t i = 0; i < want.size() && i < got.size(); i++)
    if (!alike(want[i], got[i])) {
      size_t k = 0;
      while (k < want[i].size() && k < got[i].size() && want[i][k] == got[i][k]) k++;
      vf::fail(what + ": the agents differ, first in\n  original " + want[i].substr(0, vf::st().verbose ? 9000 : 160) + "\n  now      " + got[i].substr(0, vf::st().verbose ? 9000 : 160) + "\n  at " + num(k) + ": " + want[i].substr(k, 60) + " / " + got[i].substr(k, 60));
    }
  if (want.size() != got.size()) {
    size_t k = std::min(want.size(), got.size());
    vf::fail(what + ": " + num(want.size()) + " observations in the original, " + num(got.size()) + " now; the first without counterpart: " + (k < want.size() ? want[k] : got[k]).substr(0, 300));
  }
}

static cy::QueryResult ask(cy::QueryableBackend* b, const std::string& table, std::vector<cy::Cond>* c = NULL) {
  try {
    return b->Query(table, c);
  } catch (std::exception& e) {
    return cy::QueryResult();
  }
}
struct Moved {
  int t, from, to, id;
  std::string commod, package;
  double qty;
  bool operator<(const Moved& o) const {
    if (t != o.t) return t < o.t;
    if (from != o.from) return from < o.from;
    if (to != o.to) return to < o.to;
    if (commod != o.commod) return commod < o.commod;
    return qty < o.qty;
  }
};
// what was traded from time t on, and by which states
static std::vector<Moved> moved(cy::QueryableBackend* b, int t) {
  std::vector<Moved> o;
  cy::QueryResult q = ask(b, "Transactions"), s = ask(b, "Resources");
  std::map<int, std::pair<double, std::string> > rs;
  for (size_t i = 0; i < s.rows.size(); i++) rs[s.GetVal<int>("ResourceId", i)] = {s.GetVal<double>("Quantity", i), s.GetVal<std::string>("PackageName", i)};
  for (size_t i = 0; i < q.rows.size(); i++) {
    Moved m;
    m.t = q.GetVal<int>("Time", i);
    if (m.t < t) continue;
    m.from = q.GetVal<int>("SenderId", i);
    m.to = q.GetVal<int>("ReceiverId", i);
    m.id = q.GetVal<int>("TransactionId", i);
    m.commod = q.GetVal<std::string>("Commodity", i);
    auto it = rs.find(q.GetVal<int>("ResourceId", i));
    m.qty = it == rs.end() ? -1 : it->second.first;
    m.package = it == rs.end() ? "" : it->second.second;
    o.push_back(m);
  }
  std::sort(o.begin(), o.end());
  return o;
}

static void check_rebuilt(cy::QueryableBackend* b, Rng& r) {
  cy::QueryResult q = ask(b, "Resources");
  if (q.rows.empty()) return;
  for (int k = 0; k < 4; k++) {
    int i = r.below(q.rows.size());
    int id = q.GetVal<int>("ResourceId", i);
    double qty = q.GetVal<double>("Quantity", i);
    std::string type = q.GetVal<std::string>("Type", i), pack = q.GetVal<std::string>("PackageName", i);
    int qual = q.GetVal<int>("QualId", i), obj = q.GetVal<int>("ObjId", i);
    std::vector<cy::Cond> c(1, cy::Cond("QualId", "==", qual));
    if (type == "Material") {
      cy::Material::Ptr m = cy::SimInit::BuildMaterial(b, id);
      VF_CHECK(m->quantity() == qty && m->state_id() == id && m->obj_id() == obj, "BuildMaterial of " << id << " gives " << m->quantity() << " kg, " << qty << " were recorded");
      VF_CHECK(m->package_name() == pack, "BuildMaterial of " << id << " is packaged in '" << m->package_name() << "', recorded in '" << pack << "'");
      cy::QueryResult cq = b->Query("Compositions", &c);
      cy::CompMap have = m->comp()->mass();
      cy::compmath::Normalize(&have, 1);
      double n = 0;
      for (size_t j = 0; j < cq.rows.size(); j++) {
        double f = cq.GetVal<double>("MassFrac", j);
        if (f > 0) n++;
        VF_CHECK(vf::close(have[cq.GetVal<int>("NucId", j)], f, 1e-9, 1e-13), "BuildMaterial of " << id << ": nuclide " << cq.GetVal<int>("NucId", j) << " " << have[cq.GetVal<int>("NucId", j)] << ", recorded " << f);
      }
      count("materials_rebuilt");
    } else {
      cy::Product::Ptr p = cy::SimInit::BuildProduct(b, id);
      cy::QueryResult pq = b->Query("Products", &c);
      VF_CHECK(p->quantity() == qty && p->state_id() == id && p->obj_id() == obj && p->quality() == pq.GetVal<std::string>("Quality"), "BuildProduct of " << id << " gives " << p->quantity() << " of " << p->quality());
      VF_CHECK(p->package_name() == pack, "BuildProduct of " << id << " is packaged in '" << p->package_name() << "', recorded in '" << pack << "'");
      count("products_rebuilt");
    }
  }
}

static void case_c11(Rng& r) {
  g_json = false;
  Spec s = make_spec(r, 'r');
  std::string file = write_input(s, r, false);
  trace(slurp(file).substr(0, 3500));
  bool h5 = r.chance(0.15), h5b = r.chance(0.15);
  Db db(h5 ? "out.h5" : "out.sqlite");
  Ran first = run_input(file, "none", db.b, r.chance(0.3) ? r.range(1, 20) : 300u);
  std::vector<cy::Cond> conds(1, cy::Cond("SimId", "==", first.id));
  cy::CondInjector ci(db.b, conds);
  cy::QueryResult sq = ci.Query("Snapshots", NULL);
  std::set<int> times, expect;
  for (size_t i = 0; i < sq.rows.size(); i++) times.insert(sq.GetVal<int>("Time", i));
  check_rebuilt(&ci, r);
  std::vector<int> ts;
  for (int t : times) if (t < s.dur && !(t == 0 && s.sched0)) ts.push_back(t);
  if (ts.empty()) return;
  vf::nontrivial(vf::hash_str(slurp(file)));
  int t = r.chance(0.1) ? ts[0] : ts.back();
  if (r.chance(0.5)) t = r.pick(ts);
  trace("restart at " + num(t));
  if (r.chance(0.4)) {
    // in a process that has meanwhile done other things
    cy::Timer ti;
    cy::Recorder re;
    cy::Context ctx(&ti, &re);
    for (int i = r.range(1, 9); i > 0; i--) {
      cy::CompMap c;
      c[922350000] = 1;
      cy::Product::CreateUntracked(i, "noise" + num(i));
      cy::Material::CreateUntracked(i, cy::Composition::CreateFromMass(c));
    }
  }
  Db db2(h5b ? "again.h5" : "again.sqlite");
  cy::cy_eps = cy::cy_eps_rsrc = 1e-6;
  lines()->clear();
  struct Held {  // the restarted simulation's recorder belongs to nobody
    cy::Recorder* r;
    ~Held() { delete r; }
  } held = {NULL};
  cy::SimInit si;
  si.Restart(db.b, first.id, t);
  cy::Recorder* rec = held.r = si.recorder();
  rec->RegisterBackend(db2.b);
  check_context(s, si.context());
  VF_CHECK(si.context()->time() == t, "the restarted simulation begins at " << si.context()->time());
  lines()->clear();
  si.timer()->RunSim();
  rec->Flush();
  std::vector<std::string> want = from_time(first.lines, t), got = from_time(*lines(), 0);
  compare_lines(want, got, "restarted at " + num(t));
  count("restarts_compared");
  count("observations_compared", want.size());
  if (t > 0) count("later_restarts");
  if (h5 || h5b) count("restarts_hdf5");
  if (s.drops) count("restarts_with_departures");
  std::vector<cy::Cond> conds2(1, cy::Cond("SimId", "==", rec->sim_id()));
  cy::CondInjector c2(db2.b, conds2);
  std::vector<Moved> a = moved(&ci, t), b = moved(&c2, 0);
  VF_CHECK(a.size() == b.size(), "the original trades " << a.size() << " times from step " << t << " on, the restarted simulation " << b.size() << " times");
  std::set<int> ia, ib;
  for (size_t i = 0; i < a.size(); i++) {
    VF_CHECK(a[i].t == b[i].t && a[i].from == b[i].from && a[i].to == b[i].to && a[i].commod == b[i].commod, "transaction " << i << " differs: step " << a[i].t << " " << a[i].from << "->" << a[i].to << " " << a[i].commod << " / step " << b[i].t << " " << b[i].from << "->" << b[i].to << " " << b[i].commod);
    if (b[i].qty >= 0) VF_CHECK(vf::close(a[i].qty, b[i].qty, 1e-9, 1e-12) && a[i].package == b[i].package, "step " << a[i].t << " " << a[i].from << "->" << a[i].to << ": " << a[i].qty << " in " << a[i].package << ", restarted " << b[i].qty << " in " << b[i].package);
    ia.insert(a[i].id);
    ib.insert(b[i].id);
    count("trades_compared");
  }
  VF_CHECK(ia == ib, "transaction ids differ");
  // new states get ids no earlier state has
  std::vector<cy::Cond> nc(1, cy::Cond("Time", "==", t));
  cy::QueryResult nq = ci.Query("NextIds", &nc);
  int next = 0;
  for (size_t i = 0; i < nq.rows.size(); i++) if (nq.GetVal<std::string>("Object", i) == "ResourceState") next = std::max(next, nq.GetVal<int>("NextId", i));
  cy::QueryResult r1 = ask(&ci, "Resources"), r2 = ask(&c2, "Resources");
  std::set<int> s1, s2;
  for (size_t i = 0; i < r1.rows.size(); i++) { int v = r1.GetVal<int>("ResourceId", i); if (v >= next) s1.insert(v); }
  for (size_t i = 0; i < r2.rows.size(); i++) {
    int v = r2.GetVal<int>("ResourceId", i);
    VF_CHECK(v >= next, "the restarted simulation records resource state " << v << ", an id used before the snapshot");
    VF_CHECK(s2.insert(v).second, "the restarted simulation records resource state " << v << " twice");
  }
  // ids are taken in the order the exchange happens to visit the agents, so only their number is comparable
  VF_CHECK(s1.size() == s2.size(), "resource states recorded from step " << t << " on: " << s1.size() << " by the original, " << s2.size() << " by the restarted simulation");
  VF_CHECK(one<boost::uuids::uuid>(&c2, "Info", "ParentSimId") == first.id && one<std::string>(&c2, "Info", "ParentType") == "restart" && one<int>(&c2, "Info", "BranchTime") == t, "the Info row does not say what was restarted");
  VF_CHECK(one<int>(&c2, "Info", "Duration") == s.dur, "recorded duration");
  VF_CHECK(rec->sim_id() != first.id, "the restarted simulation has the id of the original");
  rec->Close();
}

// ------------------------------------------------------------ C10
// Two runs of one input in copies of this process; in the second, memory is laid
// out differently, the recorder collects other amounts, and the file may be of
// another kind.
static bool g_pad = false;
static uint64_t g_pad_state = 1;
static size_t padded(size_t n) {
  if (!g_pad) return n ? n : 1;
  g_pad_state ^= g_pad_state << 13;
  g_pad_state ^= g_pad_state >> 7;
  g_pad_state ^= g_pad_state << 17;
  static const int pads[] = {0, 48, 160, 400, 1100, 2600, 5200, 9000};
  return n + pads[(g_pad_state >> 20) % 8];
}
void* operator new(size_t n) {
  void* p = malloc(padded(n));
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void* operator new[](size_t n) {
  void* p = malloc(padded(n));
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete[](void* p) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

// runs the input in a child; says what the agents said, "!why" if it failed
static void child_run(const std::string& file, const std::string& db, unsigned dump, uint64_t pad, const std::string& say) {
  pid_t pid = fork();
  if (pid < 0) { fprintf(stderr, "cannot fork\n"); _exit(3); }
  if (pid == 0) {
    std::string o;
    try {
      if (pad) { g_pad_state = pad; g_pad = true; }
      Db d(db);
      cy::Recorder rec(dump);
      rec.RegisterBackend(d.b);
      cy::cy_eps = cy::cy_eps_rsrc = 1e-6;
      {
        cy::XMLFileLoader l(&rec, d.b, schema(), file, "none", false);
        l.LoadSim();
      }
      {
        cy::SimInit si;
        si.Init(&rec, d.b);
        lines()->clear();
        o += "order";
        for (cy::Trader* t : si.context()->traders()) o += " " + num(t->manager()->id());
        o += "\n";
        si.timer()->RunSim();
        rec.Flush();
      }
      rec.Close();
      for (auto& l : *lines()) {
        std::string e = l;
        std::replace(e.begin(), e.end(), '\n', ' ');
        o += e + "\n";
      }
    } catch (std::exception& e) {
      o = std::string("!") + e.what() + "\n";
    } catch (vf::Violated&) {
      o = "!violated\n";
    }
    put(say, o);
    _exit(0);
  }
  int status = 0;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
  VF_CHECK(WIFEXITED(status) && WEXITSTATUS(status) == 0, "the run ended with " << (WIFSIGNALED(status) ? "signal " : "status ") << (WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status)));
}
static std::string any_text(const boost::spirit::hold_any& a, int type) {
  boost::spirit::hold_any v = a;
  switch (type) {
    case cy::BOOL: return v.cast<bool>() ? "1" : "0";
    case cy::INT: return num(v.cast<int>());
    case cy::FLOAT: return rep_d(v.cast<float>());
    case cy::DOUBLE: return rep_d(v.cast<double>());
    case cy::STRING:
    case cy::VL_STRING: return rep_s(v.cast<std::string>());
    case cy::BLOB: return rep_s(v.cast<cy::Blob>().str());
    default: return "?";
  }
}
static int kin(int t) { return t == cy::STRING ? static_cast<int>(cy::VL_STRING) : t; }
static void compare_tables(cy::QueryableBackend* a, cy::QueryableBackend* b) {
  std::set<std::string> ta = a->Tables(), tb = b->Tables();
  VF_CHECK(ta == tb, "the two runs recorded different tables (" << ta.size() << ", " << tb.size() << ")");
  for (auto& t : ta) {
    cy::QueryResult qa = a->Query(t, NULL), qb = b->Query(t, NULL);
    VF_CHECK(qa.fields == qb.fields, "the columns of " << t << " differ");
    VF_CHECK(qa.rows.size() == qb.rows.size(), "table " << t << " has " << qa.rows.size() << " rows in the one run and " << qb.rows.size() << " in the other");
    std::vector<std::string> x[2];
    for (int k = 0; k < 2; k++) {
      cy::QueryResult& q = k ? qb : qa;
      for (auto& row : q.rows) {
        std::string l;
        for (size_t c = 0; c < q.fields.size(); c++) {
          if (q.fields[c] == "SimId") continue;
          l += q.fields[c] + "=" + any_text(row[c], kin(q.types[c])) + " ";
        }
        x[k].push_back(l);
      }
      std::sort(x[k].begin(), x[k].end());
    }
    for (size_t i = 0; i < x[0].size(); i++)
      VF_CHECK(alike(x[0][i], x[1][i]), "table " << t << " differs between two runs of the same input: " << x[0][i].substr(0, 300) << " / " << x[1][i].substr(0, 300));
    count("rows_compared", x[0].size());
    count("tables_compared");
  }
}
static std::vector<std::string> own_order(const std::string& text, std::string* order) {
  std::vector<std::string> v = split(text, '\n', 1 << 30);
  if (!v.empty()) { *order = v[0]; v.erase(v.begin()); }
  if (!v.empty() && v.back().empty()) v.pop_back();
  auto who = [](const std::string& l) {
    std::vector<std::string> f = split(l, '|', 4);
    return f.size() > 2 ? std::make_pair(atoi(f[1].c_str()), atoi(f[2].c_str())) : std::make_pair(-1, -1);
  };
  std::stable_sort(v.begin(), v.end(), [&](const std::string& a, const std::string& b) { return who(a) < who(b); });
  return v;
}
static void case_c10(Rng& r) {
  g_json = r.chance(0.2);
  Spec s = make_spec(r, 'd');
  std::string file = write_input(s, r, g_json);
  trace(slurp(file).substr(0, 3500));
  bool h5 = r.chance(0.15), h5b = r.chance(0.2);
  std::string pa = h5 ? "one.h5" : "one.sqlite", pb = h5b ? "two.h5" : "two.sqlite";
  child_run(file, pa, 300u, 0, "one.txt");
  child_run(file, pb, r.chance(0.5) ? r.range(1, 40) : 300u, r.chance(0.9) ? r.next() | 1 : 0, "two.txt");
  std::string oa, ob, ta = slurp("one.txt"), tb = slurp("two.txt");
  VF_CHECK(ta.substr(0, 1) != "!" && tb.substr(0, 1) != "!", "the run failed: " << ta.substr(0, 300) << " / " << tb.substr(0, 300));
  std::vector<std::string> a = own_order(ta, &oa), b = own_order(tb, &ob);
  compare_lines(a, b, "two runs of the same input");
  count("observations_compared", a.size());
  count("runs_compared");
  if (oa != ob) count("agents_elsewhere_in_memory");
  for (auto& l : a) {
    if (l.compare(0, 5, "draw|") == 0) count("random_draws_compared");
    if (l.compare(0, 5, "ship|") == 0) count("shipments_compared");
  }
  if (h5 != h5b) count("formats_compared");
  vf::nontrivial(vf::hash_str(slurp(file)));
  Db da(pa, false), db(pb, false);
  compare_tables(da.b, db.b);
}

int main(int argc, char** argv) {
  vf::parse(argc, argv);
  cy::warn_limit = 0;
  cy::Env::SetNucDataPath();
  lines();
  return vf::run({{"C12", case_c12}, {"C11", case_c11}, {"C10", case_c10}});
}
