// C06: the time-step phases and the agents' lifecycle, monitored while a real
// Timer runs scripted agents that schedule builds and decommissionings.
// C18: the explicit inventory tables against the inventories agents hold.
#include "cyc.h"
#include "institution.h"
#include "region.h"

using namespace cyclus;
using namespace vf;

namespace {

enum Ph { BUILD = 0, TICK = 1, EXM = 2, EXP = 3, TOCK = 4, DECIDE = 5, DECOM = 6 };
const char* kPh[] = {"build", "tick", "material exchange", "product exchange", "tock", "decision", "decommission"};

struct Info {
  Agent* a;
  int id, kind;  // 0 region 1 inst 2 fac
  std::string proto;
  int enter, life, parent, parent0;
  bool alive = true, keeper = false;
  bool may_go = true;
  int seen[7];   // last time of each phase
};

struct World;
World* W = nullptr;

struct World {
  Rng& r;
  Timer ti;
  Recorder rec;
  MemBack back;
  Context* ctx;
  int dur;
  std::map<int, Info> ag;           // by agent id
  std::map<int, std::vector<std::pair<std::string, int> > > builds;  // time -> (proto, parent)
  std::map<int, int> sched;         // agent -> decommissioning time
  std::vector<std::string> protos;
  std::map<std::string, int> pkind, plife;
  int now = -1, phase = DECOM;
  int built_now = 0;
  std::vector<int> exits;           // in order
  std::map<int, int> exit_time;
  std::set<int> snaps;
  bool killed = false;
  int scripted = 0;
  std::set<int> build_told, build_due;
  std::vector<std::pair<int, int> > notified;  // parent, child
  int n_decom_rows = 0, n_build_rows = 0;
  std::vector<std::vector<int> > want_build, want_decom;  // rows
  bool inv = false;                 // C18
  bool einv = false, ecomp = false;
  std::map<std::pair<int, int>, std::map<std::string, std::map<int, double> > > want_inv;  // (time, agent) -> inv -> nuc -> kg
  std::map<std::pair<int, int>, std::map<std::string, double> > want_qty;

  World(Rng& rr) : r(rr), rec(static_cast<unsigned>(rr.range(1, 60))) {
    rec.RegisterBackend(&back);
    ctx = new Context(&ti, &rec);
    W = this;
  }
  ~World() { delete ctx; rec.Close(); W = nullptr; }

  void born(Agent* a, int kind, Agent* parent) {
    Info i;
    i.a = a;
    i.id = a->id();
    i.kind = kind;
    i.proto = a->prototype();
    i.enter = ctx->time();
    i.life = a->lifetime();
    i.parent = i.parent0 = parent ? parent->id() : -1;
    for (int& x : i.seen) x = -1;
    VF_CHECK(!ag.count(i.id), "agent id " << i.id << " is used twice");
    ag[i.id] = i;
  }

  // an event of agent id in phase p: phases of a step come in order, once per agent
  void at(int id, int p) {
    int t = ctx->time();
    VF_CHECK(ag.count(id), "agent " << id << " acts without having entered");
    Info& i = ag[id];
    VF_CHECK(i.alive, "agent " << id << " acts in " << kPh[p] << " at time " << t << " after it was decommissioned");
    move(t, p);
    VF_CHECK(i.seen[p] != t, "agent " << id << " gets " << kPh[p] << " twice at time " << t);
    i.seen[p] = t;
    count("phase_events");
  }

  void end_phase(int p) {
    // everyone due in phase p of step now had it
    if (p == BUILD) {
      VF_CHECK(built_now == static_cast<int>(builds[now].size()), built_now << " agents built at time " << now << ", " << builds[now].size() << " were scheduled");
      return;
    }
    if (p == DECOM) {
      for (auto& s : sched)
        if (s.second == now) VF_CHECK(exit_time.count(s.first) && exit_time[s.first] == now, "agent " << s.first << " was to be decommissioned at time " << now << " and was not");
      return;
    }
    for (auto& x : ag) {
      Info& i = x.second;
      if (!i.alive || i.enter > now) continue;
      if ((p == EXM || p == EXP) && i.kind != 2) continue;
      VF_CHECK(i.seen[p] == now, "agent " << i.id << " (" << i.proto << ", entered " << i.enter << ") gets no " << kPh[p] << " at time " << now);
    }
    if (p == TOCK) {
      // lifetimes end at the tock of the institution that owns the agent
      for (auto& x : ag) {
        Info& i = x.second;
        if (!i.alive || i.parent < 0 || ag[i.parent].kind != 1 || i.life == -1) continue;
        if (now >= i.enter + i.life - 1 && i.may_go) {
          sched[i.id] = now;
          want_decom.push_back({i.id, now, now});
          count("lifetimes_ended");
        }
      }
    }
  }

  void move(int t, int p) {
    if (t == now && p == phase) return;
    if (t == now) VF_CHECK(p > phase, kPh[p] << " after " << kPh[phase] << " at time " << t);
    else VF_CHECK(t == now + 1, "time goes from " << now << " to " << t);
    while (now != t || phase != p) {
      if (now >= 0) end_phase(phase);
      if (phase == DECOM) { now++; phase = BUILD; built_now = 0; }
      else phase++;
    }
  }

  void finish() {
    // run the model to the end of the last step
    while (phase != DECOM) { end_phase(phase); phase++; }
    end_phase(DECOM);
  }

  int pick_alive(bool any = true) {
    std::vector<int> v;
    for (auto& x : ag) if (x.second.alive) v.push_back(x.first);
    return v.empty() ? -1 : r.pick(v);
  }

  void script(int who, int p) {
    if (inv && !r.chance(0.2)) return;
    if (!r.chance(0.25)) return;
    int t = ctx->time();
    scripted++;
    int k = r.below(14);
    if (k < 5 && ag.size() < 40) {
      std::string proto = r.pick(protos);
      // a parent that stays: the queue keeps a pointer to it
      std::vector<int> ks;
      for (auto& x : ag) if (x.second.alive && x.second.keeper) ks.push_back(x.first);
      int par = ks.empty() || r.chance(0.15) ? -1 : r.pick(ks);
      int bt = r.chance(0.3) ? -1 : t + r.range(1, 4);
      trace(Fmt() << "t" << t << " " << kPh[p] << ": agent " << who << " schedules a build of " << proto << " under " << par << " at " << bt);
      ctx->SchedBuild(par < 0 ? NULL : ag[par].a, proto, bt);
      if (bt == -1) bt = t + 1;
      builds[bt].push_back(std::make_pair(proto, par));
      want_build.push_back({par, t, bt});
      count("builds_scheduled");
    } else if (k < 9) {
      int id = pick_alive();
      if (id < 0 || ag[id].keeper || !ag[id].may_go) return;
      int dt = r.chance(0.3) ? -1 : t + r.range(0, 3);
      trace(Fmt() << "t" << t << " " << kPh[p] << ": agent " << who << " schedules the decommissioning of " << id << " at " << dt);
      ctx->SchedDecom(ag[id].a, dt);
      if (dt == -1) dt = t;
      if (sched.count(id)) count("decoms_rescheduled");
      sched[id] = dt;
      want_decom.push_back({id, t, dt});
      count("decoms_scheduled");
    } else if (k == 9) {
      // in the past: refused, and nothing changes
      bool threw = false;
      try { ctx->SchedBuild(NULL, r.pick(protos), t - r.below(std::min(3, t + 1))); } catch (ValueError&) { threw = true; }
      VF_CHECK(threw, "a build at or before the current time is accepted");
      count("late_builds_refused");
    } else if (k == 10) {
      int id = pick_alive();
      if (id < 0 || t < 2) return;
      bool threw = false;
      try { ctx->SchedDecom(ag[id].a, t - r.range(1, 2)); } catch (ValueError&) { threw = true; }
      VF_CHECK(threw, "a decommissioning before the current time is accepted");
      count("late_decoms_refused");
    } else if (k == 11) {
      ctx->Snapshot();
      snaps.insert(t + 1);
      trace(Fmt() << "t" << t << ": snapshot requested");
    } else if (k == 12 && r.chance(0.15)) {
      ctx->KillSim();
      killed = true;
      trace(Fmt() << "t" << t << ": kill requested");
    } else if (k == 13) {
      // a longer or shorter life, on the fly
      int id = pick_alive();
      if (id < 0 || ag[id].keeper) return;
      int n = r.range(1, 8);
      ag[id].a->lifetime_force(n);
      int e = ag[id].enter;
      int life = e + n <= t ? t - e + 1 : n;
      VF_CHECK(ag[id].a->lifetime() == life, "lifetime forced to " << n << " at time " << t << " (entered " << e << ") is " << ag[id].a->lifetime() << ", expected " << life);
      ag[id].life = life;
      trace(Fmt() << "t" << t << ": lifetime of " << id << " forced to " << n);
      count("lifetimes_forced");
    }
    // how many of each are alive
    std::map<std::string, int> n;
    std::map<int, int> ns;
    for (auto& x : ag) if (x.second.alive) n[x.second.proto]++, ns[x.second.kind]++;
    const char* specs[] = {"vf:reg", "vf:inst", "vf:fac"};
    for (int k = 0; k < 3; k++) VF_CHECK(ctx->n_specs(specs[k]) == ns[k], "n_specs(" << specs[k] << ") is " << ctx->n_specs(specs[k]) << ", " << ns[k] << " are alive");
    for (auto& pr : pkind) VF_CHECK(ctx->n_prototypes(pr.first) == n[pr.first], "n_prototypes(" << pr.first << ") is " << ctx->n_prototypes(pr.first) << ", " << n[pr.first] << " are alive");
  }

  void entered(Agent* a, int kind, Agent* parent) {
    int t = ctx->time();
    if (t >= 0 && running) {
      move(t, BUILD);
      VF_CHECK(built_now < static_cast<int>(builds[t].size()), "a " << a->prototype() << " is built at time " << t << ", nothing more was scheduled");
      auto& b = builds[t][built_now++];
      VF_CHECK(b.first == a->prototype(), "a " << a->prototype() << " is built at time " << t << ", expected a " << b.first);
      VF_CHECK((parent ? parent->id() : -1) == b.second, "agent " << a->id() << " is built under " << (parent ? parent->id() : -1) << ", expected " << b.second);
      count("agents_built");
      if (parent) build_due.insert(a->id());
    }
    born(a, kind, parent);
    VF_CHECK(a->enter_time() == t, "agent " << a->id() << " enters at " << t << " but says " << a->enter_time());
    VF_CHECK(a->parent() == parent, "agent " << a->id() << " has the wrong parent");
    if (parent) VF_CHECK(parent->children().count(a) == 1, "agent " << a->id() << " is not among its parent's children");
    if (kind == 2) ag[a->id()].may_go = r.chance(0.85);
    if (kind != 2) ag[a->id()].keeper = a->lifetime() == -1 && r.chance(0.6);
  }
  bool running = false;

  void gone(Agent* a) {
    int t = ctx->time(), id = a->id();
    VF_CHECK(ag.count(id) && ag[id].alive, "agent " << id << " is decommissioned twice");
    move(t, DECOM);
    VF_CHECK(sched.count(id) && sched[id] == t, "agent " << id << " is decommissioned at time " << t << ", " << (sched.count(id) ? "scheduled at " : "not scheduled ") << (sched.count(id) ? sched[id] : -1));
    if (ag[id].parent >= 0) {
      VF_CHECK(!notified.empty() && notified.back() == std::make_pair(ag[id].parent, id), "the parent of agent " << id << " was not told of its decommissioning");
    }
    ag[id].alive = false;
    exit_time[id] = t;
    exits.push_back(id);
    for (auto& x : ag) if (x.second.parent == id && x.second.alive) x.second.parent = -1;
    count("agents_decommissioned");
  }
};

// the recording part shared by the three kinds
template <class Base, int KIND> class Spy : public Base {
 public:
  bool shim;
  explicit Spy(Context* c) : Base(c), shim(false) {}
  virtual bool IsShim() { return shim; }
  virtual void Build(Agent* parent) { par_ = parent; Base::Build(parent); }
  virtual void EnterNotify() { Base::EnterNotify(); W->entered(this, KIND, par_); }
  virtual void BuildNotify(Agent* m) {
    VF_CHECK(m->parent() == this, "told of the build of someone else's child");
    VF_CHECK(W->ag.count(m->id()) && W->ag[m->id()].enter == W->ctx->time(), "told of a build that did not happen now");
    count("build_notifications");
    W->build_told.insert(m->id());
  }
  virtual void DecomNotify(Agent* m) { W->notified.push_back(std::make_pair(this->id(), m->id())); }
  virtual void Decommission() { W->gone(this); Base::Decommission(); }
  virtual void Tick() { W->at(this->id(), TICK); W->script(this->id(), TICK); }
  virtual void Tock() { W->at(this->id(), TOCK); tock(); }
  virtual void Decision() { W->at(this->id(), DECIDE); W->script(this->id(), DECIDE); }
  virtual void tock() {}
 protected:
  Agent* par_ = NULL;
};

class MyReg : public Spy<Region, 0> {
 public:
  explicit MyReg(Context* c) : Spy<Region, 0>(c) { cyclus::Agent::spec("vf:reg"); }
  virtual Agent* Clone() { MyReg* x = new MyReg(context()); x->Agent::InitFrom(this); x->shim = shim; return x; }
  virtual void InitInv(Inventories&) {}
  virtual Inventories SnapshotInv() { return Inventories(); }
};
class MyInst : public Spy<Institution, 1> {
 public:
  explicit MyInst(Context* c) : Spy<Institution, 1>(c) { cyclus::Agent::spec("vf:inst"); }
  virtual Agent* Clone() { MyInst* x = new MyInst(context()); x->Agent::InitFrom(this); x->shim = shim; return x; }
  virtual void InitInv(Inventories&) {}
  virtual Inventories SnapshotInv() { return Inventories(); }
  virtual void tock() { Institution::Tock(); }
};
class MyFac : public Spy<Facility, 2> {
 public:
  std::map<std::string, std::vector<Resource::Ptr> > invs;
  explicit MyFac(Context* c) : Spy<Facility, 2>(c) { cyclus::Agent::spec("vf:fac"); }
  virtual Agent* Clone() { MyFac* x = new MyFac(context()); x->Agent::InitFrom(this); x->shim = shim; return x; }
  virtual void InitInv(Inventories&) {}
  virtual Inventories SnapshotInv() { return invs; }
  virtual bool CheckDecommissionCondition() { return W->ag[id()].may_go; }
  virtual std::set<RequestPortfolio<Material>::Ptr> GetMatlRequests() { W->at(id(), EXM); return Facility::GetMatlRequests(); }
  virtual std::set<RequestPortfolio<Product>::Ptr> GetProductRequests() { W->at(id(), EXP); return Facility::GetProductRequests(); }
  virtual void Tick() {
    Spy<Facility, 2>::Tick();
    if (!W->inv) return;
    Rng& r = W->r;
    const char* names[] = {"a", "b", "c"};
    for (int k = r.below(3); k > 0; k--) {
      std::vector<Resource::Ptr>& v = invs[names[r.below(3)]];
      switch (r.below(4)) {
        case 0: case 1: v.push_back(Material::Create(this, random_qty(r), random_comp(r))); break;
        case 2:
          if (!v.empty()) {
            int at = r.below((int)v.size());
            Material::Ptr m = ResCast<Material>(v[at]);
            // some stay in their inventory with nothing in them
            if (m) m->ExtractQty(r.chance(0.5) ? m->quantity() : m->quantity() * r.real(0.1, 0.9));
          }
          break;
        default: if (!v.empty()) v.erase(v.begin() + r.below((int)v.size())); else if (r.chance(0.3)) v.push_back(Product::Create(this, random_qty(r), "thing")); break;
      }
    }
    // products are kept apart, as their inventories are not tabulated
    for (auto& x : invs) {
      bool m = false, p = false;
      for (auto& y : x.second) { if (ResCast<Material>(y)) m = true; else p = true; }
      if (m && p) { std::vector<Resource::Ptr> keep; for (auto& y : x.second) if (ResCast<Material>(y)) keep.push_back(y); x.second = keep; }
    }
  }
  virtual void tock() {
    if (!W->inv) return;
    Rng& r = W->r;
    // changes of the tock are seen as well
    if (r.chance(0.3)) invs["late"].push_back(Material::Create(this, random_qty(r), random_comp(r)));
    for (auto& x : invs) {
      if (x.second.empty() || !ResCast<Material>(x.second[0])) continue;
      std::pair<int, int> key(context()->time(), id());
      double q = 0;
      for (auto& y : x.second) {
        Material::Ptr m = ResCast<Material>(y);
        for (auto& n : nuc_mass(m->comp()->mass(), m->quantity())) W->want_inv[key][x.first][n.first] += n.second;
        q += m->quantity();
      }
      W->want_qty[key][x.first] = q;
      count("inventories_held");
    }
  }
};

void simulate(Rng& r, bool inv) {
  World w(r);
  w.inv = inv;
  w.dur = r.range(2, 14);
  SimInfo si(w.dur, 2010, r.range(1, 12), "", "never");
  si.eps = cyclus::cy_eps;
  si.eps_rsrc = cyclus::cy_eps_rsrc;
  if (inv) {
    w.einv = r.chance(0.7);
    w.ecomp = !w.einv || r.chance(0.6);
  } else {
    w.einv = r.chance(0.1);
  }
  si.explicit_inventory = w.einv;
  si.explicit_inventory_compact = w.ecomp;
  w.ctx->InitSim(si);
  int np = r.range(1, 4);
  auto proto = [&](Agent* a, int kind, std::string nm) {
    static_cast<void>(kind);
    a->prototype(nm);
    a->lifetime(kind == 2 ? (r.chance(0.35) ? -1 : r.range(1, 6)) : -1);
    w.pkind[nm] = kind;
    w.plife[nm] = a->lifetime();
    w.protos.push_back(nm);
    w.ctx->AddPrototype(nm, a);
    trace(Fmt() << "prototype " << nm << " lifetime " << a->lifetime());
  };
  for (int i = 0; i < np; i++) { MyFac* f = new MyFac(w.ctx); f->shim = r.chance(0.2); proto(f, 2, Fmt() << "fac" << i); }
  { MyInst* f = new MyInst(w.ctx); f->shim = r.chance(0.2); proto(f, 1, "inst"); }
  { MyReg* f = new MyReg(w.ctx); f->shim = r.chance(0.2); proto(f, 0, "reg"); }
  // those there from the start
  std::vector<Agent*> regs, insts;
  Agent* a = w.ctx->CreateAgent<Agent>("reg");
  a->Build(NULL);
  w.ag[a->id()].keeper = true;
  for (int i = 0, n = r.range(1, 2); i < n; i++) { Agent* b = w.ctx->CreateAgent<Agent>("inst"); b->Build(a); w.ag[b->id()].keeper = true; insts.push_back(b); }
  for (int i = 0, n = r.range(0, 4); i < n; i++) { Agent* b = w.ctx->CreateAgent<Agent>(Fmt() << "fac" << r.below(np)); b->Build(r.pick(insts)); }
  if (r.chance(0.3)) { Agent* b = w.ctx->CreateAgent<Agent>("fac0"); b->Build(NULL); }
  w.running = true;
  w.now = -1;
  w.phase = DECOM;
  // the first step starts at time 0: nothing is due before it
  w.now = 0;
  w.phase = BUILD;
  w.ti.RunSim();
  w.finish();
  VF_CHECK(w.build_told == w.build_due, "parents were told of " << w.build_told.size() << " builds, " << w.build_due.size() << " happened");
  int last = w.ti.time() - 1;
  if (!w.killed) VF_CHECK(w.ti.time() == w.dur && w.now == w.dur - 1, "a simulation of " << w.dur << " steps ended at " << w.ti.time());
  w.rec.Flush();
  // tables
  auto fin = w.back.table("Finish");
  VF_CHECK(fin.size() == 1, fin.size() << " Finish rows");
  VF_CHECK(fin[0]->get<bool>("EarlyTerm") == w.killed, "EarlyTerm is wrong");
  VF_CHECK(fin[0]->i("EndTime") == last && last == w.now, "EndTime " << fin[0]->i("EndTime") << ", last step " << w.now);
  std::map<int, const Row*> en, ex;
  for (auto* x : w.back.table("AgentEntry")) { VF_CHECK(!en.count(x->i("AgentId")), "agent " << x->i("AgentId") << " enters twice"); en[x->i("AgentId")] = x; }
  for (auto* x : w.back.table("AgentExit")) { VF_CHECK(!ex.count(x->i("AgentId")), "agent " << x->i("AgentId") << " exits twice"); ex[x->i("AgentId")] = x; }
  VF_CHECK(en.size() == w.ag.size(), en.size() << " entries recorded, " << w.ag.size() << " agents entered");
  VF_CHECK(ex.size() == w.exits.size(), ex.size() << " exits recorded, " << w.exits.size() << " agents left");
  const char* kinds[] = {"Region", "Inst", "Facility"};
  for (auto& x : w.ag) {
    VF_CHECK(en.count(x.first), "agent " << x.first << " has no entry");
    const Row& e = *en[x.first];
    VF_CHECK(e.i("EnterTime") == x.second.enter && e.s("Prototype") == x.second.proto && e.s("Kind") == kinds[x.second.kind], "the entry of agent " << x.first << " is wrong");
    const char* specs[] = {"vf:reg", "vf:inst", "vf:fac"};
    VF_CHECK(e.i("ParentId") == x.second.parent0 && e.s("Spec") == specs[x.second.kind], "the entry of agent " << x.first << " names parent " << e.i("ParentId") << " and spec " << e.s("Spec"));
    VF_CHECK(e.i("Lifetime") == w.plife[x.second.proto], "the recorded lifetime of agent " << x.first << " is wrong");
    VF_CHECK(ex.count(x.first) == (x.second.alive ? 0u : 1u), "agent " << x.first << (x.second.alive ? " lives but exited" : " left without exit row"));
    if (!x.second.alive) VF_CHECK(ex[x.first]->i("ExitTime") == w.exit_time[x.first], "exit time of agent " << x.first << " is " << ex[x.first]->i("ExitTime"));
    count("lifecycles_checked");
  }
  auto bs = w.back.table("BuildSchedule");
  VF_CHECK(bs.size() == w.want_build.size(), bs.size() << " BuildSchedule rows, " << w.want_build.size() << " builds scheduled");
  for (size_t i = 0; i < bs.size(); i++) VF_CHECK(bs[i]->i("ParentId") == w.want_build[i][0] && bs[i]->i("SchedTime") == w.want_build[i][1] && bs[i]->i("BuildTime") == w.want_build[i][2], "BuildSchedule row " << i << " is wrong");
  std::multiset<std::vector<int> > ds, wd;
  for (auto* x : w.back.table("DecomSchedule")) ds.insert({x->i("AgentId"), x->i("SchedTime"), x->i("DecomTime")});
  for (auto& x : w.want_decom) wd.insert(x);
  VF_CHECK(ds == wd, "the DecomSchedule table has " << ds.size() << " rows, expected " << wd.size() << " (or they differ)");
  std::multiset<int> sn, ws;
  for (auto* x : w.back.table("Snapshots")) sn.insert(x->i("Time"));
  for (int t : w.snaps) if (t <= w.now) ws.insert(t);
  ws.insert(w.now + 1);
  VF_CHECK(sn == ws, "snapshots are taken at " << sn.size() << " times, expected " << ws.size() << " (or other times)");
  if (inv) {
    std::map<std::pair<int, int>, std::map<std::string, std::map<int, double> > > got;
    std::map<std::pair<int, int>, std::map<std::string, double> > gotq;
    for (auto* x : w.back.table("ExplicitInventory")) {
      std::pair<int, int> key(x->i("Time"), x->i("AgentId"));
      auto& m = got[key][x->s("InventoryName")];
      VF_CHECK(!m.count(x->i("NucId")), "a nuclide is tabulated twice");
      m[x->i("NucId")] = x->d("Quantity");
      VF_CHECK(x->s("Units") == "kg", "units " << x->s("Units"));
    }
    auto same = [&](std::map<int, double>& a, std::map<int, double>& b, double q) {
      std::set<int> ks;
      for (auto& y : a) ks.insert(y.first);
      for (auto& y : b) ks.insert(y.first);
      for (int k : ks) {
        double x = a.count(k) ? a[k] : 0, y = b.count(k) ? b[k] : 0;
        VF_CHECK(std::fabs(x - y) <= 1e-8 * std::max(1.0, q), "the explicit inventory has " << x << " kg of " << k << ", the agent holds " << y);
      }
    };
    if (w.einv) {
      for (auto& x : got) for (auto& y : x.second) VF_CHECK(w.want_inv[x.first].count(y.first), "inventory " << y.first << " of agent " << x.first.second << " at time " << x.first.first << " does not exist");
      for (auto& x : w.want_inv)
        for (auto& y : x.second) {
          if (w.want_qty[x.first][y.first] > 0) VF_CHECK(got[x.first].count(y.first), "inventory " << y.first << " of agent " << x.first.second << " is missing at time " << x.first.first);
          same(got[x.first][y.first], y.second, w.want_qty[x.first][y.first]);
          count("inventories_compared");
        }
    } else {
      VF_CHECK(got.empty(), "inventories are tabulated though not asked for");
    }
    auto comp = w.back.table("ExplicitInventoryCompact");
    if (!w.ecomp) VF_CHECK(comp.empty(), "compact inventories are tabulated though not asked for");
    for (auto* x : comp) {
      std::pair<int, int> key(x->i("Time"), x->i("AgentId"));
      std::string nm = x->s("InventoryName");
      VF_CHECK(w.want_qty.count(key) && w.want_qty[key].count(nm), "compact inventory " << nm << " of agent " << key.second << " does not exist");
      VF_CHECK(!gotq[key].count(nm), "compact inventory " << nm << " is tabulated twice");
      gotq[key][nm] = x->d("Quantity");
      VF_CHECK(close(x->d("Quantity"), w.want_qty[key][nm], 1e-9, 1e-9), "compact inventory quantity " << x->d("Quantity") << ", held " << w.want_qty[key][nm]);
      std::map<int, double> c = x->get<std::map<int, double> >("Composition"), held;
      for (auto& y : c) y.second *= x->d("Quantity");
      same(c, w.want_inv[key][nm], x->d("Quantity"));
      count("compact_compared");
    }
    if (w.ecomp)
      for (auto& x : w.want_qty) for (auto& y : x.second) if (y.second > 0) VF_CHECK(gotq[x.first].count(y.first), "compact inventory " << y.first << " of agent " << x.first.second << " is missing at time " << x.first.first);
    if (!w.want_qty.empty()) nontrivial(mix(hash_str(st().trace), w.want_qty.size() * 7919 + w.back.rows.size()));
  } else if (w.scripted) {
    nontrivial(hash_str(st().trace));
  }
  sample(st().trace);
  count("steps", w.now + 1);
  if (w.killed) count("runs_killed");
}

void c06(Rng& r) { simulate(r, false); }
void c18(Rng& r) { simulate(r, true); }

}  // namespace

int main(int argc, char** argv) {
  parse(argc, argv);
  return run({{"C06", c06}, {"C18", c18}});
}
