// C08: the recorder delivers every recorded datum to every backend exactly once.
// C09: what the database backends are given is what queries return.
#include <sys/stat.h>

#include <boost/uuid/uuid.hpp>
#include <boost/uuid/uuid_io.hpp>

#include "cyc.h"
#include "blob.h"
#include "hdf5_back.h"
#include "query_backend.h"

using namespace cyclus;
using namespace vf;
typedef boost::spirit::hold_any any;
typedef boost::uuids::uuid Uuid;
using std::list;
using std::map;
using std::pair;
using std::set;
using std::string;
using std::vector;

namespace {

// ------------------------------------------------------------ typed values
// Shapes are the preorder of the type's nodes: for a container its fixed
// length or -1, for a string likewise, for anything else -1.
bool g_nul = false;      // may blobs hold zero bytes (SQLite only)
bool g_odd = true;
bool g_tiny = false;     // values from small domains, so that many are alike but not the same

string gen_text(Rng& r, int len) {
  string s;
  if (g_tiny) {
    for (int i = 0, n = std::min(len, r.range(1, 3)); i < n; i++) s += "ab"[r.below(2)];
    return s;
  }
  for (int i = 0; i < len; i++) {
    int k = r.below(20);
    if (k == 0) s += " <>&\"'/\\;,%\t"[r.below(12)];
    else if (k < 3) s += "0123456789-_."[r.below(13)];
    else s += static_cast<char>('a' + r.below(k < 10 ? 3 : 26));
  }
  return s;
}

template <class T> struct G;
#define VF_PRIM(T, EXPR)                                                         \
  template <> struct G<T> {                                                      \
    static void shape(Rng&, vector<int>& s, bool) { s.push_back(-1); }           \
    static T gen(Rng& r, const vector<int>& s, int& p) { (void)s; p++; return EXPR; } \
  };
double gen_double(Rng& r) {
  if (g_tiny) return 0.25 * r.range(0, 6);
  switch (r.below(6)) {
    case 0: return r.range(-5, 5);
    case 1: return r.logreal(1e-300, 1e300) * (r.chance(0.5) ? 1 : -1);
    case 2: return 0.1 * r.range(1, 50);
    default: return r.real(-1000, 1000);
  }
}
int gen_int(Rng& r) {
  if (g_tiny) return r.range(0, 6);
  switch (r.below(5)) {
    case 0: return r.range(-3, 3);
    case 1: return static_cast<int>(r.next());
    case 2: return r.chance(0.5) ? 2147483647 : -2147483647 - 1;
    default: return r.range(-1000, 1000);
  }
}
Uuid gen_uuid(Rng& r) {
  Uuid u;
  if (g_tiny) { for (auto& b : u) b = 7; u.data[r.below(16)] = 8; return u; }
  for (auto& b : u) b = 1 + r.below(255);
  return u;
}
VF_PRIM(int, gen_int(r))
VF_PRIM(bool, r.chance(0.5))
VF_PRIM(double, gen_double(r))
VF_PRIM(float, static_cast<float>(g_tiny ? 0.5 * r.range(0, 6) : r.chance(0.3) ? r.range(-4, 4) : r.real(-1e6, 1e6)))
VF_PRIM(Uuid, gen_uuid(r))
template <> struct G<string> {
  static void shape(Rng& r, vector<int>& s, bool fl) { s.push_back(fl && r.chance(0.5) ? r.range(3, 20) : -1); }
  static string gen(Rng& r, const vector<int>& s, int& p) {
    int n = s[p++];
    if (n > 0) return gen_text(r, r.chance(0.3) ? n : r.range(1, n));
    return gen_text(r, r.chance(0.03) ? 300 : r.chance(0.1) ? 0 : r.range(1, r.chance(0.5) ? 3 : 30));
  }
};
template <> struct G<Blob> {
  static void shape(Rng&, vector<int>& s, bool) { s.push_back(-1); }
  static Blob gen(Rng& r, const vector<int>&, int& p) {
    p++;
    string t = gen_text(r, r.range(1, 20));
    if (!g_tiny && r.chance(0.4)) for (auto& c : t) c = 1 + r.below(255);
    if (g_nul && r.chance(0.3)) t[r.below(t.size())] = 0;
    return Blob(t);
  }
};
int len(Rng& r, int n) { return n > 0 ? n : r.chance(0.2) ? 0 : r.range(1, g_tiny ? 3 : 6); }
template <class A, class B> struct G<pair<A, B> > {
  static void shape(Rng& r, vector<int>& s, bool fl) { s.push_back(-1); G<A>::shape(r, s, fl); G<B>::shape(r, s, fl); }
  static pair<A, B> gen(Rng& r, const vector<int>& s, int& p) {
    p++;
    pair<A, B> v;
    v.first = G<A>::gen(r, s, p);
    v.second = G<B>::gen(r, s, p);
    return v;
  }
};
template <class C, class A> struct GSeq {
  static void shape(Rng& r, vector<int>& s, bool fl) { s.push_back(fl && r.chance(0.5) ? r.range(1, 5) : -1); G<A>::shape(r, s, fl); }
  static C gen(Rng& r, const vector<int>& s, int& p) {
    int n = len(r, s[p++]);
    C c;
    int q = p;
    { int d = p; G<A>::gen(r, s, d); p = d; }
    for (int tries = 0; static_cast<int>(c.size()) < n && tries < 1000; tries++) { int d = q; c.insert(c.end(), G<A>::gen(r, s, d)); }
    return c;
  }
};
template <class A> struct G<vector<A> > : GSeq<vector<A>, A> {};
template <class A> struct G<list<A> > : GSeq<list<A>, A> {};
template <class A> struct G<set<A> > : GSeq<set<A>, A> {};
template <class A, class B> struct G<map<A, B> > {
  static void shape(Rng& r, vector<int>& s, bool fl) {
    s.push_back(fl && r.chance(0.5) ? r.range(1, 5) : -1);
    G<A>::shape(r, s, fl);
    G<B>::shape(r, s, fl);
  }
  static map<A, B> gen(Rng& r, const vector<int>& s, int& p) {
    int n = len(r, s[p++]);
    map<A, B> c;
    int q = p;
    { int d = p; G<A>::gen(r, s, d); G<B>::gen(r, s, d); p = d; }
    for (int tries = 0; static_cast<int>(c.size()) < n && tries < 1000; tries++) {
      int d = q;
      A k = G<A>::gen(r, s, d);
      c[k] = G<B>::gen(r, s, d);
    }
    return c;
  }
};

struct Show {
  Fmt f;
  void put(const string& s) { f << "'" << s << "'"; }
  void put(const Blob& s) { f << "b'" << s.str() << "'"; }
  void put(const Uuid& u) { f << boost::uuids::to_string(u); }
  void put(int v) { f << v; }
  void put(bool v) { f << (v ? "true" : "false"); }
  void put(double v) { f << v; }
  void put(float v) { f << v; }
  template <class A, class B> void put(const pair<A, B>& p) { f << "("; put(p.first); f << ","; put(p.second); f << ")"; }
  template <class C> void seq(const C& c) { f << "["; for (auto& x : c) { put(x); f << " "; } f << "]"; }
  template <class A> void put(const vector<A>& c) { seq(c); }
  template <class A> void put(const list<A>& c) { seq(c); }
  template <class A> void put(const set<A>& c) { seq(c); }
  template <class A, class B> void put(const map<A, B>& c) { seq(c); }
};

struct Type {
  string name;
  bool sqlite;
  bool scalar;
  bool ordered;
  std::function<void(Rng&, vector<int>&, bool)> shape;
  std::function<any(Rng&, const vector<int>&)> gen;
  std::function<bool(any, any)> eq;
  std::function<bool(any)> is;
  std::function<int(any, any)> cmp;
  std::function<string(any)> show;
};
template <class T> struct Cmp { static int cmp(any a, any b) { T x = a.cast<T>(), y = b.cast<T>(); return x < y ? -1 : x == y ? 0 : 1; } };
template <class T> struct NoCmp { static int cmp(any, any) { return 0; } };
template <class T, template <class> class C> Type type(const string& n, bool sq, bool sc, bool ord) {
  Type t;
  t.name = n; t.sqlite = sq; t.scalar = sc; t.ordered = ord;
  t.shape = [](Rng& r, vector<int>& s, bool fl) { G<T>::shape(r, s, fl); };
  t.gen = [](Rng& r, const vector<int>& s) { int p = 0; return any(G<T>::gen(r, s, p)); };
  t.is = [](any a) { return a.type() == typeid(T); };
  t.eq = [](any a, any b) { return a.cast<T>() == b.cast<T>(); };
  t.cmp = [](any a, any b) { return C<T>::cmp(a, b); };
  t.show = [](any a) { Show s; s.put(a.cast<T>()); return s.f.str(); };
  return t;
}
const vector<Type>& types() {
  static vector<Type> v;
  if (!v.empty()) return v;
#define VF_COMMA ,
#define VF_SC(T, ORD) v.push_back(type<T, Cmp>(#T, true, true, ORD));
#define VF_T(SQ, ...) v.push_back(type<__VA_ARGS__, NoCmp>(#__VA_ARGS__, SQ, false, false));
  VF_SC(int, true) VF_SC(bool, true) VF_SC(double, true) VF_SC(float, true) VF_SC(string, true) VF_SC(Uuid, false)
  VF_T(true, Blob)
  VF_T(true, set<int>) VF_T(true, set<string>) VF_T(true, vector<int>) VF_T(true, vector<double>) VF_T(true, vector<string>)
  VF_T(true, list<int>) VF_T(true, list<string>) VF_T(true, map<int, int>) VF_T(true, map<int, double>) VF_T(true, map<int, string>)
  VF_T(true, map<string, int>) VF_T(true, map<string, double>) VF_T(true, map<string, string>)
  VF_T(true, map<string, vector<double> >) VF_T(true, map<string, map<int, double> >)
  VF_T(true, map<string, pair<double, map<int, double> > >) VF_T(true, map<int, map<string, double> >)
  VF_T(true, map<string, vector<pair<int, pair<string, string> > > >)
  VF_T(true, map<string, pair<string, vector<double> > >)
  VF_T(true, map<string, map<string, int> >) VF_T(true, list<pair<int, int> >)
  VF_T(true, vector<pair<pair<double, double>, map<string, double> > >)
  VF_T(true, map<pair<string, string>, int>) VF_T(true, map<string, map<string, double> >)
  VF_T(false, list<bool>) VF_T(false, list<double>) VF_T(false, list<float>) VF_T(false, list<Uuid>) VF_T(false, list<Blob>)
  VF_T(false, set<double>) VF_T(false, set<float>) VF_T(false, set<Uuid>) VF_T(false, set<Blob>)
  VF_T(false, vector<float>) VF_T(false, vector<Uuid>) VF_T(false, vector<Blob>)
  VF_T(false, map<int, bool>) VF_T(false, map<int, float>) VF_T(false, map<int, Uuid>) VF_T(false, map<int, Blob>)
  VF_T(false, map<string, bool>) VF_T(false, map<string, float>) VF_T(false, map<string, Uuid>) VF_T(false, map<string, Blob>)
  VF_T(false, map<pair<int, string>, double>)
  VF_T(false, pair<int, bool>) VF_T(false, pair<int, int>) VF_T(false, pair<int, float>) VF_T(false, pair<int, double>)
  VF_T(false, pair<int, string>) VF_T(false, pair<int, Blob>) VF_T(false, pair<int, Uuid>)
  VF_T(false, pair<string, bool>) VF_T(false, pair<string, int>) VF_T(false, pair<string, float>) VF_T(false, pair<string, double>)
  VF_T(false, pair<string, string>) VF_T(false, pair<string, Blob>) VF_T(false, pair<string, Uuid>)
  return v;
}

struct Col {
  string name;
  const Type* t;
  vector<int> shape;
  bool shaped, tiny;
  any gen(Rng& r) const {
    g_tiny = tiny;
    any v = t->gen(r, shape);
    g_tiny = false;
    if (tiny) count("values_from_small_domains");
    return v;
  }
};
struct Table { string name; vector<Col> cols; vector<vector<any> > rows; };

string rows_show(const Table& t, const vector<any>& row) {
  string s;
  for (size_t i = 0; i < t.cols.size(); i++) s += t.cols[i].name + "=" + t.cols[i].t->show(row[i]) + " ";
  return s.substr(0, 1500);
}

struct DbWorld {
  Rng& r;
  bool h5;
  string path;
  Recorder* rec = NULL;
  FullBackend* back = NULL;
  vector<Table> tabs;
  Uuid sim;
  bool inject;
  uint64_t h = 5;

  DbWorld(Rng& rr, bool hdf5) : r(rr), h5(hdf5) {
    static long n = 0;
    path = Fmt() << "vf" << getpid() << "_" << ++n << (h5 ? ".h5" : ".sqlite");
    unlink(path.c_str());
    g_nul = !h5;
    sim = gen_uuid(r);
    inject = r.chance(0.7);
    open();
    define();
  }
  ~DbWorld() { shut(); unlink(path.c_str()); }
  void open() {
    back = h5 ? static_cast<FullBackend*>(new Hdf5Back(path)) : static_cast<FullBackend*>(new SqliteBack(path));
    rec = new Recorder(sim);
    rec->inject_sim_id(inject);
    rec->set_dump_count(r.range(1, 40));
    rec->RegisterBackend(back);
  }
  void shut() {
    if (rec) { rec->Close(); delete rec; rec = NULL; }
    if (back) { back->Close(); delete back; back = NULL; }
  }
  void define() {
    int nt = r.range(1, 3);
    for (int i = 0; i < nt; i++) {
      Table t;
      t.name = Fmt() << "Tab" << i << (r.chance(0.3) ? "Long" : "");
      int nc = r.range(1, 5);
      for (int c = 0; c < nc; c++) {
        Col col;
        col.name = Fmt() << "Col" << c;
        do { col.t = r.chance(0.4) ? &types()[r.below(7)] : &r.pick(types()); } while (!h5 && !col.t->sqlite);
        col.tiny = r.chance(0.35);
        col.shaped = r.chance(0.5);
        col.t->shape(r, col.shape, col.shaped);
        t.cols.push_back(col);
        h = mix(h, hash_str(col.t->name) + (col.shaped ? 1 : 0));
      }
      tabs.push_back(t);
    }
  }
  void write(int n) {
    for (int i = 0; i < n; i++) {
      Table& t = tabs[r.below(tabs.size())];
      vector<any> row;
      bool rep = !t.rows.empty() && r.chance(0.2);
      for (size_t c = 0; c < t.cols.size(); c++)
        row.push_back(rep && r.chance(0.6) ? t.rows[r.below(t.rows.size())][c] : t.cols[c].gen(r));
      bool temp = r.chance(0.3);
      Datum* d = rec->NewDatum(t.name);
      for (size_t c = 0; c < t.cols.size(); c++) {
        vector<int> sh = t.cols[c].shape;
        if (temp) d->AddVal(string(t.cols[c].name), row[c], t.cols[c].shaped ? &sh : NULL);
        else d->AddVal(t.cols[c].name.c_str(), row[c], t.cols[c].shaped ? &sh : NULL);
      }
      if (temp) { string junk = "XXXXXXXX"; junk += junk; }
      d->Record();
      t.rows.push_back(row);
      if (t.rows.size() <= 3) trace("row of " + t.name + ": " + rows_show(t, row));
      count("rows_written");
      if (r.chance(0.03)) rec->Flush();
    }
  }
  bool holds(const Col& c, const any& v, const Cond& k) {
    int x = c.t->cmp(v, k.val);
    if (k.op == "<") return x < 0;
    if (k.op == ">") return x > 0;
    if (k.op == "<=") return x <= 0;
    if (k.op == ">=") return x >= 0;
    if (k.op == "==") return x == 0;
    return x != 0;
  }
  void query(Table& t) {
    vector<size_t> sc;
    for (size_t c = 0; c < t.cols.size(); c++) if (t.cols[c].t->scalar) sc.push_back(c);
    vector<Cond> conds;
    vector<size_t> which;
    string text;
    int nc = sc.empty() || r.chance(0.35) ? 0 : r.range(1, 3);
    static const vector<string> ops = {"<", ">", "<=", ">=", "==", "!="};
    for (int i = 0; i < nc; i++) {
      size_t c = sc[r.below(sc.size())];
      const Type* ty = t.cols[c].t;
      any v = r.chance(0.7) && !t.rows.empty() ? t.rows[r.below(t.rows.size())][c] : t.cols[c].gen(r);
      string op = ty->ordered ? r.pick(ops) : r.chance(0.5) ? string("==") : string("!=");
      conds.push_back(Cond(t.cols[c].name, op, v));
      which.push_back(c);
      text += t.cols[c].name + op + ty->show(v) + " ";
    }
    bool other_sim = inject && r.chance(0.15);
    vector<Cond> all = conds;
    int form = r.below(4);
    QueryResult qr;
    string how = Fmt() << "query " << t.name << " where " << text << (other_sim ? "SimId of another" : "") << " form " << form;
    if (inject && (other_sim || r.chance(0.4))) all.push_back(Cond("SimId", "==", other_sim ? gen_uuid(r) : sim));
    if (form == 0) qr = back->Query(t.name, all.empty() && r.chance(0.7) ? NULL : &all);
    else if (form == 1) {
      size_t k = r.below(all.size() + 1);
      vector<Cond> a(all.begin(), all.begin() + k), b(all.begin() + k, all.end());
      CondInjector ci(back, a);
      qr = ci.Query(t.name, b.empty() ? NULL : &b);
    } else if (form == 2) {
      size_t k = 1 + r.below(t.name.size() - 1);
      PrefixInjector pi(back, t.name.substr(0, k));
      qr = pi.Query(t.name.substr(k), all.empty() ? NULL : &all);
      map<string, DbTypes> ct = pi.ColumnTypes(t.name.substr(k));
      VF_CHECK(ct.size() == t.cols.size() + (inject ? 1 : 0), how << ": describes " << ct.size() << " columns");
    } else {
      PrefixInjector pi(back, "T");
      CondInjector ci(&pi, all);
      qr = ci.Query(t.name.substr(1), NULL);
    }
    int off = inject ? 1 : 0;
    VF_CHECK(qr.fields.size() == t.cols.size() + off, how << ": " << qr.fields.size() << " columns, expected " << t.cols.size() + off);
    VF_CHECK(!inject || qr.fields[0] == "SimId", how << ": first column is " << qr.fields[0]);
    for (size_t c = 0; c < t.cols.size(); c++) VF_CHECK(qr.fields[c + off] == t.cols[c].name, how << ": column " << c << " is " << qr.fields[c + off]);
    vector<size_t> want;
    for (size_t i = 0; i < t.rows.size() && !other_sim; i++) {
      bool ok = true;
      for (size_t k = 0; k < conds.size(); k++) ok = ok && holds(t.cols[which[k]], t.rows[i][which[k]], conds[k]);
      if (ok) want.push_back(i);
    }
    VF_CHECK(qr.rows.size() == want.size(), how << ": " << qr.rows.size() << " rows, expected " << want.size() << " of " << t.rows.size());
    for (size_t i = 0; i < want.size(); i++) {
      const vector<any>& w = t.rows[want[i]];
      VF_CHECK(qr.rows[i].size() == w.size() + off, how << ": row " << i << " has " << qr.rows[i].size() << " values");
      if (inject) {
        any v = qr.rows[i][0];
        VF_CHECK(v.type() == typeid(Uuid) && v.cast<Uuid>() == sim, how << ": row " << i << " has another simulation id");
        if (i == 0) VF_CHECK(qr.GetVal<Uuid>("SimId", 0) == sim, how << ": GetVal");
      }
      for (size_t c = 0; c < w.size(); c++) {
        any v = qr.rows[i][c + off];
        const Type* ty = t.cols[c].t;
        VF_CHECK(ty->is(v), how << ": row " << i << " column " << t.cols[c].name << " is not a " << ty->name);
        VF_CHECK(ty->eq(v, w[c]), how << ": row " << i << " column " << t.cols[c].name << " (" << ty->name << ") is " << ty->show(v) << ", written " << ty->show(w[c]));
        count("values_compared");
      }
    }
    if (nc) count(want.empty() ? "conditions_selecting_none" : want.size() < t.rows.size() ? "conditions_selecting_some" : "conditions_selecting_all");
    count("queries");
  }
  void check() {
    rec->Flush();
    back->Flush();
    set<string> names;
    for (auto& t : tabs) if (!t.rows.empty()) names.insert(t.name);
    set<string> got = back->Tables();
    VF_CHECK(got == names, "tables listed: " << got.size() << ", written: " << names.size());
    int k = r.range(2, 5);
    for (auto& t : tabs) {
      if (t.rows.empty()) continue;
      for (int i = 0; i < k; i++) query(t);
      map<string, DbTypes> ct = back->ColumnTypes(t.name);
      QueryResult qr = back->Query(t.name, NULL);
      VF_CHECK(ct.size() == qr.fields.size(), "column types of " << t.name << ": " << ct.size());
      for (size_t c = 0; c < qr.fields.size(); c++) VF_CHECK(ct.count(qr.fields[c]) && ct[qr.fields[c]] == qr.types[c], "column type of " << qr.fields[c]);
      list<ColumnInfo> sch = back->Schema(t.name);
      VF_CHECK(sch.size() == qr.fields.size(), "schema of " << t.name << " has " << sch.size() << " columns");
      int at = 0;
      for (auto& ci : sch) {
        VF_CHECK(ci.col == qr.fields[at] && ci.index == at && ci.dbtype == qr.types[at] && ci.table == t.name, "schema of " << t.name << " column " << at);
        int c = at - (inject ? 1 : 0);
        if (h5 && c >= 0 && t.cols[c].shaped) VF_CHECK(ci.shape == t.cols[c].shape, "schema of " << t.name << " column " << at << ": shape");
        at++;
      }
    }
    bool threw = false;
    try { back->Query("NoSuchTable", NULL); } catch (Error&) { threw = true; }
    VF_CHECK(threw, "a table that was never written answers a query");
  }
  void go() {
    int rounds = r.range(1, 3);
    bool big = r.chance(0.02);
    for (int i = 0; i < rounds; i++) {
      write(big && !i ? r.range(1030, 2100) : r.range(1, 25));
      if (r.chance(0.5)) check();
      if (i + 1 < rounds && r.chance(0.6)) {
        shut();
        open();
        count("reopened");
        trace("closed and reopened");
      }
    }
    if (r.chance(0.5)) { shut(); open(); count("reopened"); trace("closed and reopened"); }
    check();
    nontrivial(mix(h, h5));
  }
};

void c09(Rng& r) {
  bool h5 = r.chance(0.5);
  DbWorld w(r, h5);
  w.go();
  count(h5 ? "hdf5_databases" : "sqlite_databases");
}

// ------------------------------------------------------------ recorder
class LogBack : public RecBackend {
 public:
  vector<Row> rows;
  vector<size_t> batch;
  size_t flushed = 0;      // rows held when Flush was last called
  virtual void Notify(DatumList data) {
    for (auto* d : data) {
      Row x;
      x.table = d->title();
      x.fields.assign(d->fields().begin(), d->fields().end());
      VF_CHECK(d->fields().size() == d->vals().size() && d->shapes().size() == d->vals().size(),
               "a delivered datum has " << d->fields().size() << " names, " << d->vals().size() << " values, " << d->shapes().size() << " shapes");
      for (auto& v : d->vals()) x.vals.push_back(v.second);
      shapes.push_back(d->shapes());
      rows.push_back(x);
    }
    batch.push_back(data.size());
  }
  virtual std::string Name() { return "vf-log"; }
  virtual void Flush() { flushed = rows.size(); }
  virtual void Close() {}
  vector<vector<vector<int> > > shapes;
};

void c08(Rng& r) {
  struct Want { string title; vector<string> fields; vector<any> vals; vector<const Type*> ty; vector<vector<int> > shapes; bool sim; };
  Uuid id = gen_uuid(r);
  int ctor = r.below(4);
  unsigned dump = r.chance(0.1) ? 0 : r.chance(0.3) ? 1 : r.range(1, 30);
  std::unique_ptr<Recorder> rec;
  bool inject = true;
  if (ctor == 0) rec.reset(new Recorder(id));
  else if (ctor == 1) { inject = r.chance(0.5); rec.reset(new Recorder(inject)); }
  else if (ctor == 2) { rec.reset(new Recorder(dump)); VF_CHECK(rec->dump_count() == dump, "dump count " << rec->dump_count()); }
  else rec.reset(new Recorder());
  if (ctor == 0) VF_CHECK(rec->sim_id() == id, "the recorder has another id than it was given");
  if (ctor != 2) rec->set_dump_count(dump);
  VF_CHECK(rec->dump_count() == dump, "dump count " << rec->dump_count() << ", set " << dump);
  id = rec->sim_id();
  vector<Want> log;
  struct Reg { std::unique_ptr<LogBack> b; size_t from; bool closed; size_t to; };
  vector<Reg> backs;
  uint64_t h = 1;
  auto add = [&]() {
    // a backend sees what is delivered from now on; what is still buffered is
    // pushed out first so that the starting point is defined
    rec->Flush();
    Reg g;
    g.b.reset(new LogBack());
    g.from = log.size();
    g.closed = false;
    g.to = 0;
    rec->RegisterBackend(g.b.get());
    backs.push_back(std::move(g));
  };
  int nb = r.range(1, 3);
  for (int i = 0; i < nb; i++) add();
  auto verify = [&](const string& op, bool all) {
    for (size_t k = 0; k < backs.size(); k++) {
      Reg& g = backs[k];
      if (g.closed) { VF_CHECK(g.b->rows.size() == g.to, op << ": a closed backend went on receiving"); continue; }
      size_t want = log.size() - g.from;
      VF_CHECK(g.b->rows.size() <= want, op << ": backend " << k << " got " << g.b->rows.size() << " of " << want << " data");
      if (all) VF_CHECK(g.b->rows.size() == want, op << ": backend " << k << " got " << g.b->rows.size() << " of " << want << " data");
      else VF_CHECK(want - g.b->rows.size() < std::max(1u, dump), op << ": " << want - g.b->rows.size() << " data held back with a dump count of " << dump);
    }
  };
  int steps = r.range(5, 120);
  vector<size_t> checked(8, 0);
  for (int s = 0; s < steps; s++) {
    int k = r.below(40);
    string op;
    if (k < 33) {
      Want w;
      w.title = Fmt() << "T" << r.below(4);
      w.sim = inject;
      Datum* d = rec->NewDatum(w.title);
      VF_CHECK(d->title() == w.title, "a new datum is called " << d->title());
      VF_CHECK(d->vals().size() == (inject ? 1u : 0u), "a new datum starts with " << d->vals().size() << " values");
      int n = r.range(inject ? 0 : 1, r.chance(0.1) ? 25 : 5);
      for (int i = 0; i < n; i++) {
        const Type* t = &types()[r.below(r.chance(0.7) ? 7 : 20)];
        vector<int> sh;
        t->shape(r, sh, true);
        string f = Fmt() << "f" << i << (r.chance(0.1) ? "_with_a_long_name_that_is_not_inline" : "");
        any v = t->gen(r, sh);
        bool shaped = r.chance(0.5);
        Datum* back = r.chance(0.5) ? d->AddVal(f.c_str(), v, shaped ? &sh : NULL) : d->AddVal(f, v, shaped ? &sh : NULL);
        VF_CHECK(back == d, "AddVal returns another datum");
        w.fields.push_back(f);
        w.vals.push_back(v);
        w.ty.push_back(t);
        w.shapes.push_back(shaped ? sh : vector<int>());
      }
      d->Record();
      log.push_back(w);
      op = "record";
      verify(op, false);
      count("data_recorded");
    } else if (k < 36) {
      op = "flush";
      size_t held = 0;
      for (auto& g : backs) if (!g.closed) held = log.size() - g.from - g.b->rows.size();
      rec->Flush();
      verify(op, true);
      for (auto& g : backs) if (!g.closed && held) VF_CHECK(g.b->flushed == g.b->rows.size(), "flush: " << g.b->rows.size() - g.b->flushed << " data delivered after the backend's last flush");
      count("flushes");
    } else if (k < 37) {
      if (backs.size() >= 5) continue;
      op = "register";
      add();
      verify(op, true);
    } else if (k < 38) {
      bool x = r.chance(0.5);
      op = "inject";
      bool was = rec->inject_sim_id();
      rec->inject_sim_id(x);
      inject = x;
      VF_CHECK(rec->inject_sim_id() == x, "inject_sim_id");
      if (was != x) verify(op, true);
      count("injection_set");
    } else if (k < 39) {
      op = "dump-count";
      rec->Flush();
      dump = r.chance(0.1) ? 0 : r.range(1, 30);
      rec->set_dump_count(dump);
      VF_CHECK(rec->dump_count() == dump, "dump count " << rec->dump_count() << ", set " << dump);
      verify(op, true);
    } else {
      if (!r.chance(0.3)) continue;
      op = "close";
      rec->Close();
      verify(op, true);
      for (auto& g : backs) if (!g.closed) { g.closed = true; g.to = g.b->rows.size(); }
      add();
      count("closes");
    }
    h = mix(h, hash_str(op));
    trace(op);
  }
  int end = r.below(3);
  if (end == 0) rec->Flush();
  else if (end == 1) rec->Close();
  rec.reset();
  verify("end", true);
  for (size_t k = 0; k < backs.size(); k++) {
    LogBack& b = *backs[k].b;
    for (size_t i = 0; i < b.rows.size(); i++) {
      const Want& w = log[backs[k].from + i];
      const Row& g = b.rows[i];
      size_t off = w.sim ? 1 : 0;
      VF_CHECK(g.table == w.title, "datum " << i << " of backend " << k << " is a " << g.table << ", recorded " << w.title);
      VF_CHECK(g.fields.size() == w.fields.size() + off, "datum " << i << " has " << g.fields.size() << " fields, recorded " << w.fields.size() + off);
      if (w.sim) {
        any v = g.vals[0];
        VF_CHECK(g.fields[0] == "SimId" && v.cast<Uuid>() == id, "datum " << i << " does not start with the simulation id");
      }
      for (size_t c = 0; c < w.fields.size(); c++) {
        VF_CHECK(g.fields[c + off] == w.fields[c], "datum " << i << " field " << c << " is " << g.fields[c + off] << ", recorded " << w.fields[c]);
        VF_CHECK(w.ty[c]->is(g.vals[c + off]) && w.ty[c]->eq(g.vals[c + off], w.vals[c]), "datum " << i << " field " << w.fields[c] << " changed");
        VF_CHECK(b.shapes[i][c + off] == w.shapes[c], "datum " << i << " field " << w.fields[c] << ": shape changed");
      }
      count("data_delivered");
    }
  }
  nontrivial(mix(h, dump));
}

}  // namespace

int main(int argc, char** argv) {
  parse(argc, argv);
  H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
  return run({{"C08", c08}, {"C09", c09}});
}
