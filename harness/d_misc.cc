// C22: nuclides and archetypes are named consistently in every notation.
// C23: time series and the toolkit's commodity contexts keep what they are given.
#include <algorithm>

#include "cyc.h"
#include "dynamic_module.h"
#include "infile_tree.h"
#include "pyne.h"
#include "query_backend.h"
#include "toolkit/commodity_recipe_context.h"
#include "toolkit/timeseries.h"
#include "xml_parser.h"

using namespace cyclus;
using namespace vf;
namespace tk = cyclus::toolkit;
namespace nn = pyne::nucname;

namespace {

// ---------------------------------------------------------------- C22
const char* kSym[] = {"", "H", "He", "Li", "Be", "B", "C", "N", "O", "F", "Ne", "Na", "Mg", "Al", "Si", "P", "S", "Cl", "Ar", "K", "Ca", "Sc", "Ti", "V", "Cr", "Mn", "Fe", "Co", "Ni", "Cu", "Zn",
  "Ga", "Ge", "As", "Se", "Br", "Kr", "Rb", "Sr", "Y", "Zr", "Nb", "Mo", "Tc", "Ru", "Rh", "Pd", "Ag", "Cd", "In", "Sn", "Sb", "Te", "I", "Xe", "Cs", "Ba", "La", "Ce", "Pr", "Nd", "Pm", "Sm", "Eu",
  "Gd", "Tb", "Dy", "Ho", "Er", "Tm", "Yb", "Lu", "Hf", "Ta", "W", "Re", "Os", "Ir", "Pt", "Au", "Hg", "Tl", "Pb", "Bi", "Po", "At", "Rn", "Fr", "Ra", "Ac", "Th", "Pa", "U", "Np", "Pu", "Am", "Cm",
  "Bk", "Cf", "Es", "Fm", "Md", "No", "Lr", "Rf", "Db", "Sg", "Bh", "Hs", "Mt", "Ds", "Rg", "Cn"};

std::string cased(Rng& r, std::string s) {
  int k = r.below(3);
  for (auto& c : s) c = k == 0 ? c : k == 1 ? toupper(c) : tolower(c);
  return s;
}
std::string str(int n) { return Fmt() << n; }
// the function given an integer, a string or a C string
#define VF_INT(F, N) VF_CHECK(nn::F(N) == nn::F(str(N)) && nn::F(N) == nn::F(str(N).c_str()), #F " of " << N << " depends on the type it is given in")

void nuclides(Rng& r) {
  int z = r.range(1, 112), a = r.chance(0.2) ? r.range(z, 3 * z) : r.range(std::max(z, 2 * z - 2), std::min(3 * z, 2 * z + 2 + z * 3 / 5)), s = r.chance(0.5) ? 0 : r.chance(0.6) ? 1 : r.range(2, 5);
  std::string sym = kSym[z], m = s ? "m" : "";
  int n = z * 10000000 + a * 10000 + s, flat = n - s, meta = flat + (s ? 1 : 0), el = z * 10000000;
  trace(Fmt() << "nuclide " << n);
  VF_CHECK(nn::id(n) == n, "id(" << n << ") is " << nn::id(n));
  VF_CHECK(nn::znum(n) == z && nn::anum(n) == a && nn::snum(n) == s, "numbers of " << n << " are " << nn::znum(n) << ", " << nn::anum(n) << ", " << nn::snum(n));
  VF_CHECK(nn::isnuclide(n) && !nn::iselement(n), n << " is no nuclide");
  VF_CHECK(nn::iselement(el) && !nn::isnuclide(el) && nn::id(el) == el && nn::id(z) == el, el << " is no element");
  std::string name = sym + str(a) + (s ? "M" : "");
  VF_CHECK(nn::name(n) == name, "the name of " << n << " is " << nn::name(n));
  VF_CHECK(nn::name(el) == sym, "the name of " << el << " is " << nn::name(el));
  for (std::string w : {name, sym + "-" + str(a) + m, str(z) + "-" + sym + "-" + str(a) + m}) {
    std::string c = cased(r, w);
    trace(c);
    VF_CHECK(nn::id(c) == meta && nn::id(c.c_str()) == meta, c << " has id " << nn::id(c) << ", expected " << meta);
    VF_CHECK(nn::znum(c) == z && nn::anum(c) == a && nn::snum(c) == (s ? 1 : 0) && nn::isnuclide(c), "numbers of " << c);
    VF_CHECK(nn::name(c) == name && nn::zzaaam(c) == meta / 10000 * 10 + meta % 10, "notations of " << c);
    vf::count("names_read");
  }
  VF_CHECK(nn::id(cased(r, sym)) == el && nn::iselement(cased(r, sym)) && !nn::isnuclide(sym), "element " << sym);
  // every notation and back
  VF_CHECK(nn::zzaaam(n) == (z * 1000 + a) * 10 + s && nn::zzaaam_to_id(nn::zzaaam(n)) == n && nn::id(nn::zzaaam(n)) == n, "zzaaam of " << n << " is " << nn::zzaaam(n) << ", back " << nn::zzaaam_to_id(nn::zzaaam(n)));
  VF_CHECK(nn::zzzaaa(n) == z * 1000 + a && nn::zzzaaa_to_id(nn::zzzaaa(n)) == flat, "zzzaaa of " << n << " is " << nn::zzzaaa(n));
  VF_CHECK(nn::cinder(n) == a * 10000 + z * 10 + s && nn::cinder_to_id(nn::cinder(n)) == n, "cinder of " << n << " is " << nn::cinder(n));
  VF_CHECK(nn::sza(n) == s * 1000000 + z * 1000 + a && nn::sza_to_id(nn::sza(n)) == n, "sza of " << n << " is " << nn::sza(n));
  int sm = (z == 95 && a == 242 && s < 2) ? 1 - s : s;  // MCNP has these two the other way round
  VF_CHECK(nn::mcnp(n) == z * 1000 + a + (sm ? 300 + 100 * sm : 0), "mcnp of " << n << " is " << nn::mcnp(n));
  if (sm < 2) {  // the numbers of higher states are also those of other nuclides
    VF_CHECK(nn::mcnp_to_id(nn::mcnp(n)) == n, "mcnp of " << n << " goes back to " << nn::mcnp_to_id(nn::mcnp(n)));
    VF_INT(mcnp_to_id, nn::mcnp(n));
    vf::count("mcnp_returned");
  }
  VF_CHECK(nn::zzllaaam(n) == str(z) + "-" + sym + "-" + str(a) + m && nn::zzllaaam_to_id(nn::zzllaaam(n)) == meta, "zzllaaam of " << n << " is " << nn::zzllaaam(n));
  VF_CHECK(nn::serpent(n) == sym + "-" + str(a) + m && nn::serpent_to_id(nn::serpent(n)) == meta, "serpent of " << n << " is " << nn::serpent(n));
  VF_CHECK(nn::serpent(el) == sym + "-nat" && nn::serpent_to_id(nn::serpent(el)) == el, "serpent of " << el << " is " << nn::serpent(el));
  VF_CHECK(nn::nist(n) == str(a) + sym && nn::nist_to_id(nn::nist(n)) == flat && nn::id(nn::nist(n)) == flat, "nist of " << n << " is " << nn::nist(n));
  VF_CHECK(nn::nist(el) == sym && nn::nist_to_id(sym) == el, "nist of " << el << " is " << nn::nist(el));
  std::string al = sym;
  for (auto& c : al) c = tolower(c);
  VF_CHECK(nn::alara(n) == al + ":" + str(a) && nn::alara_to_id(nn::alara(n)) == flat, "alara of " << n << " is " << nn::alara(n));
  VF_CHECK(nn::alara(el) == al && nn::alara_to_id(al) == el, "alara of " << el << " is " << nn::alara(el));
  VF_INT(id, n); VF_INT(znum, n); VF_INT(anum, n); VF_INT(snum, n); VF_INT(zzaaam, n); VF_INT(zzzaaa, n); VF_INT(cinder, n); VF_INT(sza, n); VF_INT(mcnp, n);
  VF_INT(name, n); VF_INT(zzllaaam, n); VF_INT(serpent, n); VF_INT(nist, n); VF_INT(alara, n);
  VF_INT(zzaaam_to_id, nn::zzaaam(n)); VF_INT(cinder_to_id, nn::cinder(n)); VF_INT(sza_to_id, nn::sza(n)); VF_INT(zzzaaa_to_id, nn::zzzaaa(n));
  vf::count("nuclides_judged");
  // what is not a nuclide is not taken for one
  int zb = r.range(1, 112);
  std::vector<std::string> bad = {"Xx" + str(a), "Qq", "", "?" + sym, "Zz" + str(a) + "M"};
  if (zb != z) bad.push_back(str(zb) + "-" + sym + "-" + str(a));
  std::string b = r.pick(bad);
  trace("not a nuclide: " + b);
  VF_CHECK(!nn::isnuclide(b), "'" << b << "' is taken for a nuclide");
  bool refused = false;
  try { nn::id(b); } catch (std::exception& e) {
    refused = true;
    std::string says = e.what();
    VF_CHECK(says.find("uclide") != std::string::npos, "'" << b << "' is refused with '" << says << "'");
  }
  VF_CHECK(refused, "'" << b << "' has an id: " << nn::id(b));
  vf::count("nonsense_refused");
}

std::string part(Rng& r, bool empty, bool path) {
  if (empty) return "";
  std::string s;
  for (int i = 0, n = r.range(1, 8); i < n; i++) s += (path && r.chance(0.2)) ? "/-._"[r.below(4)] : static_cast<char>("abXYz19_"[r.below(8)]);
  return s;
}
void same_spec(AgentSpec s, std::string p, std::string l, std::string a, std::string al, std::string how) {
  VF_CHECK(s.path() == p && s.lib() == l && s.agent() == a && s.alias() == al, "spec " << how << " is " << s.path() << "|" << s.lib() << "|" << s.agent() << "|" << s.alias() << ", expected " << p << "|" << l << "|" << a << "|" << al);
  VF_CHECK(s.str() == p + ":" + l + ":" + a, "spec " << how << " is written " << s.str());
  std::string w = s.str();
  for (auto& c : w) if (c == '/' || c == '-' || c == ':' || c == '.') c = '_';
  VF_CHECK(s.Sanitize() == w, "spec " << s.str() << " is sanitised to " << s.Sanitize());
  VF_CHECK(s.LibPath() == (p.empty() ? "" : p.back() == '/' ? p : p + "/") + "lib" + l + SUFFIX, "the library of " << s.str() << " is sought at " << s.LibPath());
  AgentSpec t(s.str());
  VF_CHECK(t.path() == p && t.lib() == l && t.agent() == a && t.alias() == a, "spec " << s.str() << " is read back as " << t.str() << " called " << t.alias());
  vf::count("specs_judged");
}
void specs(Rng& r) {
  std::string p = part(r, r.chance(0.4), true), l = part(r, r.chance(0.3), false), a = part(r, false, false), al = part(r, r.chance(0.4), false);
  trace(Fmt() << "spec " << p << "|" << l << "|" << a << "|" << al);
  same_spec(AgentSpec(p, l, a, al), p, l.empty() ? a : l, a, al.empty() ? a : al, "from its parts");
  same_spec(AgentSpec(p + ":" + l + ":" + a), p, l, a, a, "from text");
  std::stringstream x;
  x << "<spec>";
  if (!p.empty()) x << "<path>" << p << "</path>";
  if (!l.empty()) x << "<lib>" << l << "</lib>";
  x << "<name>" << a << "</name>";
  if (!al.empty()) x << "<alias>" << al << "</alias>";
  x << "</spec>";
  XMLParser parser;
  parser.Init(x);
  InfileTree t(parser);
  same_spec(AgentSpec(&t), p, l.empty() ? a : l, a, al.empty() ? a : al, "from the input file");
  std::string bad = r.pick(std::vector<std::string>{"", a, l + ":" + a, p + ":" + l + ":" + a + ":" + al, ":::"});
  bool refused = false;
  try { AgentSpec q(bad); } catch (ValueError&) { refused = true; }
  VF_CHECK(refused, "'" << bad << "' is taken for a spec");
}
void case_c22(Rng& r) {
  for (int i = 0; i < 4; i++) nuclides(r);
  specs(r);
  vf::nontrivial(hash_str(vf::st().trace));
}

// ---------------------------------------------------------------- C23
struct Heard { std::string who; int id, t; std::string v, name; };

template <class T> std::string show(T v) { std::ostringstream s; s.precision(17); s << v; return s.str(); }
struct Want { std::string table; int id, t; std::string v, units; int type; };

template <class T> void series(Rng& r, Sim& sim, Agent* a, const std::string& name, T v, int type, std::vector<Want>* want, std::vector<Heard>* heard, std::vector<Heard>* expect, int listeners) {
  bool units = r.chance(0.6);
  std::string u = units ? r.pick(std::vector<std::string>{"kg", "MWe", "", "kg SWU"}) : "";
  trace(Fmt() << "t" << sim.ctx->t << " agent " << a->id() << " series " << name << " " << show(v) << " " << u);
  if (units) tk::RecordTimeSeries<T>(name, a, v, u); else tk::RecordTimeSeries<T>(name, a, v);
  want->push_back(Want{"TimeSeries" + name, a->id(), sim.ctx->t, show(v), u, type});
  for (int k = 0; k < listeners; k++) expect->push_back(Heard{str(k), a->id(), sim.ctx->t, show(v), name});
  VF_CHECK(heard->size() == expect->size(), heard->size() << " calls to listeners, due were " << expect->size());
  vf::count("values_recorded");
}
template <class T> tk::time_series_listener_t listener(std::vector<Heard>* h, int k) {
  return std::function<void(Agent*, int, T, std::string)>([h, k](Agent* a, int t, T v, std::string n) { h->push_back(Heard{str(k), a->id(), t, show(v), n}); });
}
void timeseries(Rng& r) {
  Sim sim(r.range(1, 30));
  sim.init();
  std::vector<Agent*> as;
  for (int i = 0, n = r.range(1, 4); i < n; i++) { as.push_back(new Fac(sim.ctx)); as.back()->Build(NULL); }
  std::vector<Heard> heard, expect;
  std::vector<Want> want;
  tk::TIME_SERIES_LISTENERS.clear();
  std::vector<std::string> names = {"vfBool", "vfInt", "vfFloat", "vfDouble", "vfText", "Power", "EnrichmentSWU", "EnrichmentFeed"};
  std::vector<int> nl(8);
  for (int k = 0; k < 8; k++) {
    nl[k] = r.chance(0.5) ? 0 : r.range(1, 3);
    for (int j = 0; j < nl[k]; j++) {
      auto& v = tk::TIME_SERIES_LISTENERS[names[k]];
      if (k == 0) v.push_back(listener<bool>(&heard, j));
      else if (k == 1) v.push_back(listener<int>(&heard, j));
      else if (k == 2) v.push_back(listener<float>(&heard, j));
      else if (k == 4) v.push_back(listener<std::string>(&heard, j));
      else v.push_back(listener<double>(&heard, j));
    }
  }
  for (int i = 0, n = r.range(3, 30); i < n; i++) {
    if (r.chance(0.3)) sim.ctx->t += r.range(1, 3);
    Agent* a = r.pick(as);
    int k = r.below(8);
    double d = r.chance(0.2) ? 0 : (r.chance(0.3) ? -1 : 1) * r.logreal(1e-9, 1e12);
    if (k == 0) series<bool>(r, sim, a, names[k], r.chance(0.5), k, &want, &heard, &expect, nl[k]);
    else if (k == 1) series<int>(r, sim, a, names[k], static_cast<int>(r.next()), k, &want, &heard, &expect, nl[k]);
    else if (k == 2) series<float>(r, sim, a, names[k], static_cast<float>(d), k, &want, &heard, &expect, nl[k]);
    else if (k == 3) series<double>(r, sim, a, names[k], d, k, &want, &heard, &expect, nl[k]);
    else if (k == 4) series<std::string>(r, sim, a, names[k], part(r, r.chance(0.1), true), k, &want, &heard, &expect, nl[k]);
    else {
      std::string u = r.pick(std::vector<std::string>{"kg", "MWe"});
      bool given = r.chance(0.5);
      trace(Fmt() << "t" << sim.ctx->t << " agent " << a->id() << " " << names[k] << " " << d);
      if (given) { if (k == 5) tk::RecordTimeSeries<tk::POWER>(a, d, u); else if (k == 6) tk::RecordTimeSeries<tk::ENRICH_SWU>(a, d, u); else tk::RecordTimeSeries<tk::ENRICH_FEED>(a, d, u); }
      else if (k == 5) tk::RecordTimeSeries<tk::POWER>(a, d);
      else if (k == 6) tk::RecordTimeSeries<tk::ENRICH_SWU>(a, d);
      else tk::RecordTimeSeries<tk::ENRICH_FEED>(a, d);
      want.push_back(Want{"TimeSeries" + names[k], a->id(), sim.ctx->t, show(d), given ? u : "", 3});
      for (int j = 0; j < nl[k]; j++) expect.push_back(Heard{str(j), a->id(), sim.ctx->t, show(d), names[k]});
      vf::count("values_recorded");
    }
  }
  sim.rec.Flush();
  std::vector<const Row*> rows;
  for (auto& x : sim.back.rows) if (x.table.compare(0, 10, "TimeSeries") == 0) rows.push_back(&x);
  VF_CHECK(rows.size() == want.size(), rows.size() << " time series rows, " << want.size() << " values were given");
  for (size_t i = 0; i < rows.size(); i++) {
    const Row& x = *rows[i];
    const Want& w = want[i];
    std::string v = w.type == 0 ? show(x.get<bool>("Value")) : w.type == 1 ? show(x.get<int>("Value")) : w.type == 2 ? show(x.get<float>("Value")) : w.type == 4 ? x.s("Value") : show(x.d("Value"));
    VF_CHECK(x.table == w.table && x.i("AgentId") == w.id && x.i("Time") == w.t && v == w.v && x.s("Units") == w.units,
             "row " << i << ": " << x.table << " agent " << x.i("AgentId") << " time " << x.i("Time") << " value " << v << " " << x.s("Units") << ", given was " << w.table << " agent " << w.id << " time " << w.t << " value " << w.v << " " << w.units);
  }
  VF_CHECK(heard.size() == expect.size(), heard.size() << " calls to listeners, due were " << expect.size());
  for (size_t i = 0; i < heard.size(); i++) {
    VF_CHECK(heard[i].who == expect[i].who && heard[i].id == expect[i].id && heard[i].t == expect[i].t && heard[i].v == expect[i].v && heard[i].name == expect[i].name, "listener call " << i << " tells " << heard[i].name << " " << heard[i].v << ", given was " << expect[i].name << " " << expect[i].v);
    vf::count("listener_calls");
  }
  tk::TIME_SERIES_LISTENERS.clear();
}

struct Ctxm {
  std::map<std::string, std::vector<std::string> > fuel;  // in commodity -> in recipe, out commodity, out recipe
  std::set<std::string> outs;
  std::map<int, std::string> rs;
};
void same_ctx(tk::CommodityRecipeContext& c, const Ctxm& m, const std::vector<Resource::Ptr>& all, const std::string& when) {
  std::set<std::string> ins;
  for (auto& x : m.fuel) ins.insert(x.first);
  VF_CHECK(c.in_commods() == ins, when << ": input commodities");
  for (auto& x : m.fuel) VF_CHECK(c.in_recipe(x.first) == x.second[0] && c.out_commod(x.first) == x.second[1] && c.out_recipe(x.first) == x.second[2], when << ": commodity " << x.first << " has " << c.in_recipe(x.first) << ", " << c.out_commod(x.first) << ", " << c.out_recipe(x.first));
  for (auto& x : all) {
    auto it = m.rs.find(x->obj_id());
    // asking for one that is not there leaves an empty entry behind, so ask a copy
    tk::CommodityRecipeContext q(c);
    VF_CHECK(q.commod(x) == (it == m.rs.end() ? "" : it->second), when << ": resource " << x->obj_id() << " has commodity '" << q.commod(x) << "'");
  }
  vf::count("contexts_compared");
}
void contexts(Rng& r) {
  SqliteBack b(":memory:");
  Sim sim(r.range(1, 30));
  sim.init();
  Fac* f = new Fac(sim.ctx);
  f->Agent::spec(":vf:fac");
  f->Build(NULL);
  tk::CommodityRecipeContext c;
  Ctxm m;
  std::vector<Resource::Ptr> all;
  for (int i = 0; i < 4; i++) all.push_back(Product::Create(f, 1 + i, "q"));
  auto nm = [&](const char* p) { return std::string(Fmt() << p << r.below(4)); };
  for (int i = 0, n = r.range(1, 14); i < n; i++) {
    std::string a = nm("in"), b = nm("rec"), d = nm("out"), e = nm("rec");
    Resource::Ptr x = r.pick(all);
    switch (r.below(5)) {
      case 0: case 1: c.AddInCommod(a, b, d, e); m.fuel[a] = {b, d, e}; m.outs.insert(d); trace("add " + a + " " + b + " " + d + " " + e); break;
      case 2: if (r.chance(0.5)) c.AddRsrc(d, x); else c.UpdateRsrc(d, x); m.rs[x->obj_id()] = d; trace(Fmt() << "resource " << x->obj_id() << " " << d); break;
      case 3: c.RemoveRsrc(x); m.rs.erase(x->obj_id()); trace(Fmt() << "remove " << x->obj_id()); break;
      default: if (m.fuel.count(a)) { c.UpdateInRec(a, b); m.fuel[a][0] = b; trace("recipe of " + a + " " + b); } break;
    }
    same_ctx(c, m, all, "after each change");
    VF_CHECK(c.out_commods() == m.outs, "output commodities");
  }
  std::unique_ptr<tk::CommodityRecipeContext> k(c.Clone());
  VF_CHECK(*k == c && !(*k != c), "a copy differs");
  same_ctx(*k, m, all, "copy");
  VF_CHECK(k->out_commods() == c.out_commods(), "output commodities of a copy");
  k->UpdateRsrc("elsewhere", all[0]);
  VF_CHECK(*k != c, "a context with another resource compares equal");
  same_ctx(c, m, all, "after a change of a copy");
  if (m.fuel.empty()) return;
  // snapshot and restore
  sim.rec.RegisterBackend(&b);
  c.Snapshot(DbInit(f));
  sim.rec.Flush();
  tk::CommodityRecipeContext back;
  std::vector<Cond> conds;
  conds.push_back(Cond("AgentId", "==", f->id()));
  CondInjector ci(&b, conds);
  bool found = false;
  for (auto& t : b.Tables()) {
    size_t at = t.find("CommodityRecipeContext_inoutmap");
    if (at != std::string::npos) {
      PrefixInjector p(&ci, t.substr(0, at));
      back.InitFrom(&p);
      found = true;
    }
  }
  VF_CHECK(found, "the context is not in the snapshot");
  same_ctx(back, m, all, "restored");
  vf::count("contexts_restored");
  sim.rec.Close();
}
void case_c23(Rng& r) {
  if (r.chance(0.6)) timeseries(r); else contexts(r);
  vf::nontrivial(hash_str(vf::st().trace));
}

}  // namespace

int main(int argc, char** argv) {
  vf::parse(argc, argv);
  cyclus::warn_limit = 0;
  pyne::USE_WARNINGS = false;
  cyclus::Env::SetNucDataPath();
  return vf::run({{"C22", case_c22}, {"C23", case_c23}});
}
