"""C20: the state of agents written in Python; C21: their trades."""
import math
import os
import shutil
import sys
import tempfile
import types
import uuid
from xml.sax.saxutils import escape

import vfpy
from vfpy import check, count, nontrivial, trace

import cyclus.lib as lib
import cyclus.typesystem as ts
from cyclus.agents import Facility, Institution, Region
from cyclus.memback import MemBack
from cyclus.simstate import SimState

MOD = types.ModuleType("vf_pyarch")
MOD.__file__ = __file__
sys.modules["vf_pyarch"] = MOD

W = None  # the world of the current case: what is expected and what was seen


class World:
    def __init__(self):
        self.errors = []
        self.log = []
        self.cls = None


def fail(msg):
    """A callback cannot throw through the simulation: the first report is kept"""
    W.errors.append(msg)


# ------------------------------------------------------------------ values
WORDS = ["uox", "mox", "a", "fuel_7", "x-y", "natl_u", "B", "waste", "q.9", "spent fuel"]


def word(r):
    return r.choice(WORDS) + (str(r.below(50)) if r.chance(0.4) else "")


def scalar(r, t):
    if t == "bool":
        return r.chance(0.5)
    if t == "int":
        return r.choice([0, -1, 2**31 - 1, -2**31]) if r.chance(0.2) else r.range(-30, 30)
    if t == "double":
        return r.choice([0.0, 1.5, -2.25, 1e10]) if r.chance(0.2) else r.uniform(-1, 1) * r.logreal(1e-6, 1e6)
    if t == "std::string":
        return word(r)
    raise KeyError(t)


def value(r, t, empty=False):
    if isinstance(t, str):
        return scalar(r, t)
    n = r.range(0 if empty else 1, 4)
    if t[0] in ("std::vector", "std::list"):
        return [value(r, t[1]) for _ in range(n)]
    if t[0] == "std::set":
        return {value(r, t[1]) for _ in range(n)}
    if t[0] == "std::pair":
        return (value(r, t[1]), value(r, t[2]))
    if t[0] == "std::map":
        return {value(r, t[1]): value(r, t[2]) for _ in range(n)}
    raise KeyError(t)


def tx(v):
    if isinstance(v, bool):
        return "1" if v else "0"
    if isinstance(v, float):
        return repr(v)
    return escape(str(v))


def xml(name, t, v, alias):
    """The input of a value as the documentation of state variables has it"""
    if isinstance(t, str):
        return "<%s>%s</%s>" % (name, tx(v), name)
    if t[0] in ("std::vector", "std::list", "std::set"):
        a = alias[1] if alias else "val"
        return "<%s>%s</%s>" % (name, "".join(xml(a, t[1], x, None) for x in v), name)
    if t[0] == "std::pair":
        a, b = alias[1:] if alias else ("first", "second")
        return "<%s>%s%s</%s>" % (name, xml(a, t[1], v[0], None), xml(b, t[2], v[1], None), name)
    if t[0] == "std::map":
        item, a, b = ("item", "key", "val") if not alias else (alias[0][1] if isinstance(alias[0], list) else "item", alias[1], alias[2])
        return "<%s>%s</%s>" % (name, "".join("<%s>%s%s</%s>" % (item, xml(a, t[1], k, None), xml(b, t[2], x, None), item) for k, x in v.items()), name)
    raise KeyError(t)


def same(a, b):
    if hasattr(a, "tolist"):
        a = a.tolist()  # vectors reach Python as arrays
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return len(a) == len(b) and all(any(same(x, y) for y in b) for x in a)
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(k in b and same(v, b[k]) for k, v in a.items())
    return type(a) == type(b) and a == b


# (descriptor, type) of the state variables that are tried
SV = []


def _descriptors():
    prim = {"Bool": "bool", "Int": "int", "Double": "double", "String": "std::string"}
    for n, t in prim.items():
        SV.append((n, t))
        for c, k in (("Vector", "std::vector"), ("List", "std::list"), ("Set", "std::set")):
            if n != "Bool":
                SV.append((c + n, (k, t)))
        for a in ("Int", "String"):
            SV.append(("Pair" + a + n, ("std::pair", prim[a], t)))
            SV.append(("Map" + a + n, ("std::map", prim[a], t)))


_descriptors()
import p_data


class Var:
    pass


def same_recorded(a, b):
    """As same, for a value out of a data frame"""
    if isinstance(b, bool):
        return bool(a) == b
    if isinstance(b, (int, float)):
        return same(float(a), float(b))
    return same(a, b)


def make_vars(r, k, backend):
    out = []
    can = [x for x in SV if x[1] in p_data.CAN[backend]]
    for i in range(k):
        v = Var()
        v.name = "sv_%d" % i
        v.desc, v.type = r.choice(can)
        v.alias = None
        v.default = value(r, v.type) if r.chance(0.5) else None
        v.internal = v.default is not None and r.chance(0.15)
        if r.chance(0.3) and not isinstance(v.type, str):
            m = r.choice(["al%d" % i, "thing%d" % i])
            if v.type[0] == "std::map":
                v.alias = [[m, "entry"] if r.chance(0.5) else m, "kk", "vv"]
            elif v.type[0] == "std::pair":
                v.alias = [m, "one", "two"]
            else:
                v.alias = [m, "elem"]
        elif r.chance(0.2) and isinstance(v.type, str):
            v.alias = "al%d" % i
        out.append(v)
    return out


def tag(v):
    a = v.alias
    while isinstance(a, list):
        a = a[0]
    return a or v.name


# ------------------------------------------------------------------ C20
def copy_of(v):
    import copy
    return copy.deepcopy(v)


def make_state_class(r, name, vars_, invs):
    d = {"__doc__": "an agent with state"}
    for v in vars_:
        kw = {"doc": "d"}
        if v.default is not None:
            kw["default"] = copy_of(v.default)
        if v.internal:
            kw["internal"] = True
        if v.alias is not None:
            kw["alias"] = copy_of(v.alias)
        d[v.name] = getattr(ts, v.desc)(**kw)
    for n, kind, cap in invs:
        d[n] = getattr(ts, kind)(**({} if cap is None else {"capacity": cap}))

    def note(self, what):
        W.log.append((what, self.id, self.context.time))

    def values(self):
        return {v.name: copy_of(getattr(self, v.name)) for v in vars_}

    def build(self, parent):
        Facility.build(self, parent)
        note(self, "build")
        if not W.loaded:
            W.first.add(self.id)
        W.parents[self.id] = parent.id
        W.proto[self.id] = self.prototype
        W.cls[self.id] = type(self).__name__
        W.model[self.id] = copy_of(W.expect[self.prototype])
        W.stock[self.id] = {n: [] for n, _, _ in invs}
        W.entered[self.id] = self.context.time
        W.life[self.id] = self.lifetime

    def enter_notify(self):
        Facility.enter_notify(self)
        note(self, "enter")

    def judge(self, when):
        try:
            got = values(self)
            want = W.model[self.id]
            for k in want:
                if not same(got[k], want[k]):
                    fail("state: agent %d of %s has %s = %r %s of time %d, not %r" % (self.id, W.proto[self.id], k, got[k], when, self.context.time, want[k]))
                count("values_compared")
            if self.prototype != W.proto[self.id] or self.parent_id != W.parents[self.id] or self.parent().id != W.parents[self.id]:
                fail("state: agent %d says it is a %s of %d (was a %s of %d)" % (self.id, self.prototype, self.parent_id, W.proto[self.id], W.parents[self.id]))
            if self.enter_time != W.entered[self.id] or self.lifetime != W.life[self.id]:
                fail("state: agent %d entered at %d with lifetime %d, and says %d and %d" % (self.id, W.entered[self.id], W.life[self.id], self.enter_time, self.lifetime))
            for n, kind, cap in invs:
                buf = getattr(self, n)
                inv = W.stock[self.id][n]
                if buf.count != len(inv) or abs(buf.quantity - sum(x[1] for x in inv)) > 1e-6 * (1 + sum(x[1] for x in inv)):
                    fail("inventory: %s of agent %d has %d resources of %r %s of time %d, not %r" % (n, self.id, buf.count, buf.quantity, when, self.context.time, inv))
                c = cap if not isinstance(cap, str) else W.model[self.id][cap]
                if c is not None and self.id in W.capped and abs(buf.capacity - c) > 1e-9 * max(1, abs(c)):
                    fail("inventory: %s of agent %d has capacity %r, declared %r" % (n, self.id, buf.capacity, cap))
                count("inventories_compared")
        except Exception as e:
            fail("state: %s in agent %d: %r" % (when, self.id, e))

    def tick(self):
        note(self, "tick")
        judge(self, "at the tick")
        r = W.r
        if r.chance(0.5) and vars_:
            v = r.choice(vars_)
            new = value(r, v.type)
            cur = getattr(self, v.name)
            if r.chance(0.5) and hasattr(cur, "tolist") and len(cur):
                cur[0] = new[0]
                W.model[self.id][v.name][0] = new[0]
            elif r.chance(0.5) and isinstance(cur, list):
                cur.append(new[0])
                W.model[self.id][v.name].append(new[0])
            elif r.chance(0.5) and isinstance(cur, dict):
                cur.update(new)
                W.model[self.id][v.name].update(new)
            elif r.chance(0.5) and isinstance(cur, set):
                cur.update(new)
                W.model[self.id][v.name].update(new)
            else:
                setattr(self, v.name, new)
                W.model[self.id][v.name] = copy_of(new)
            W.changed.add((self.id, v.name))
            count("values_changed")
        now = self.context.time
        if r.chance(0.15) and len(W.plan) < 6:
            proto, t = r.choice(W.protos), now + r.range(1, 3)
            self.context.schedule_build(self.parent(), proto, t)
            W.plan.append((proto, t))
            count("builds_scheduled")
        if r.chance(0.1) and self.id not in W.leave:
            t = now + r.range(0, 2)
            self.context.schedule_decom(self, t)
            W.leave[self.id] = t
            count("departures_scheduled")
        if invs and r.chance(0.6):
            n, kind, cap = r.choice(invs)
            buf = getattr(self, n)
            if W.stock[self.id][n] and r.chance(0.4):
                res = buf.pop()
                o, q, _ = W.stock[self.id][n].pop(0)
                if res.obj_id != o or abs(res.quantity - q) > 1e-9 * (1 + q):
                    fail("inventory: %s of agent %d gave resource %d of %r, the first pushed is %d of %r" % (n, self.id, res.obj_id, res.quantity, o, q))
                count("resources_popped")
            else:
                q = r.logreal(0.01, 5)
                if kind == "ResBufMaterialInv":
                    m = ts.Material.create(self, q, {922350000: 0.1, 922380000: 0.9})
                else:
                    m = ts.Product.create(self, q, "things")
                buf.push(m)
                W.stock[self.id][n].append((m.obj_id, q, m.state_id))
                count("resources_pushed")

    def tock(self):
        note(self, "tock")
        judge(self, "at the tock")

    def decision(self):
        note(self, "decision")

    for f in (build, enter_notify, tick, tock, decision):
        d[f.__name__] = f
    return type(name, (Facility,), d)


class VfInst(Institution):
    """An institution that watches its children"""

    def tick(self):
        try:
            kids = {k.id: k for k in self.children}
            now = self.context.time
            W.kids.append((now, self.id, sorted(kids)))
            me = [x.id for x in (self.parent(),)] + [self.id]
            if self.kind != "Inst" or self.parent().kind != "Region":
                fail("kinds: institution says it is a %s in a %s" % (self.kind, self.parent().kind))
            for i, k in sorted(kids.items()):
                if k.kind != "Facility" or k.parent_id != self.id or k.enter_time > now:
                    fail("child %d of institution %d says it is a %s of %d from %d at %d" % (i, self.id, k.kind, k.parent_id, k.enter_time, now))
                if i in W.proto and k.prototype != W.proto[i]:
                    fail("child %d of institution %d says it is a %s, not a %s" % (i, self.id, k.prototype, W.proto[i]))
                if not (self.ancestor_of(k) and self.in_family_tree(k)) or self.decendent_of(k):
                    fail("family: institution %d and its child %d: ancestor %r, same tree %r, descendant %r" % (
                        self.id, i, self.ancestor_of(k), self.in_family_tree(k), self.decendent_of(k)))
                count("children_seen")
                if i not in W.proto:
                    if i not in W.leave and W.r.chance(0.15):
                        t = now + W.r.range(0, 2)
                        self.context.schedule_decom(k, t)
                        W.leave[i] = t
                        count("children_dismissed")
        except Exception as e:
            fail("institution: %r" % (e,))


MOD.VfInst = VfInst


def run_sim(text, out, mem=True):
    st = SimState(input_file=text, input_format="xml", output_path=out, memory_backend=mem)
    W.loaded, W.first = False, set()
    st.load()
    W.loaded = True
    st.run()
    return st


def control(dur, extra=""):
    return "<control><duration>%d</duration><startmonth>1</startmonth><startyear>2000</startyear>%s</control>" % (dur, extra)


def case_state(r):
    global W
    W = World()
    W.r = r
    for a in ("parents", "proto", "model", "stock", "expect", "entered", "life", "cls"):
        setattr(W, a, {})
    W.changed, W.capped, W.plan, W.leave, W.kids = set(), set(), [], {}, []
    ncls = r.range(1, 2)
    dur = r.range(1, 6)
    h5 = r.chance(0.25)
    classes = []
    for c in range(ncls):
        vars_ = make_vars(r, r.range(1, 6), "hdf5" if h5 else "sqlite")
        invs = []
        for i in range(r.below(3)):
            kind = r.choice(["ResBufMaterialInv", "ResBufProductInv"])
            cap = r.choice([None, 1e6, 123456.5])
            invs.append(("inv_%d" % i, kind, cap))
        cls = make_state_class(r, "Cls%d_%d" % (c, r.below(10**9)), vars_, invs)
        setattr(MOD, cls.__name__, cls)
        classes.append((cls, vars_, invs))
    protos = []
    for i in range(r.range(1, 4)):
        cls, vars_, invs = r.choice(classes)
        name = "Proto%d" % i
        want, cfg = {}, []
        order = list(vars_)
        for v in order:
            if v.internal or (v.default is not None and r.chance(0.4)):
                want[v.name] = copy_of(v.default)
                count("defaults_used")
            else:
                x = value(r, v.type)
                want[v.name] = x
                cfg.append(xml(tag(v), v.type, x, v.alias))
                count("values_given")
        W.expect[name] = want
        life = r.range(1, 7) if r.chance(0.4) else None
        protos.append((name, cls, "<facility><name>%s</name>%s<config><%s>%s</%s></config></facility>" % (
            name, "" if life is None else "<lifetime>%d</lifetime>" % life, cls.__name__, "".join(cfg), cls.__name__), r.range(1, 3), life))
    mine, pyinst, pyreg = r.chance(0.4), r.chance(0.5), r.chance(0.5)
    ncpp = r.range(1, 3) if r.chance(0.4) else 0
    specs = [("vf_pyarch", cls.__name__) for cls, _, _ in classes]
    inst = ("vf_pyarch", "VfInst") if mine else ("cyclus.pyagents" if pyinst else "agents", "NullInst")
    cpp = [("agents", "Sink")] if ncpp else []
    reg = ("cyclus.pyagents" if pyreg else "agents", "NullRegion")
    text = "<simulation>%s<archetypes>%s</archetypes>%s<region><name>Reg</name><config><NullRegion/></config><institution><name>Inst</name><config><%s/></config>" \
           "<initialfacilitylist>%s</initialfacilitylist></institution></region></simulation>" % (
               control(dur), "".join("<spec><lib>%s</lib><name>%s</name></spec>" % s for s in specs + [inst, reg] + cpp),
               "".join(p[2] for p in protos) + ("<facility><name>Cpp</name><config><Sink><in_commods><val>nothing</val></in_commods><capacity>1</capacity></Sink></config></facility>" if ncpp else ""),
               inst[1], ("<entry><prototype>Cpp</prototype><number>%d</number></entry>" % ncpp if ncpp else "") + "".join("<entry><prototype>%s</prototype><number>%d</number></entry>" % (p[0], p[3]) for p in protos))
    trace(text)
    nontrivial(text)
    W.protos = [p[0] for p in protos]
    tmp = tempfile.mkdtemp(prefix="vfpa_")
    try:
        st = run_sim(text, os.path.join(tmp, "o.h5" if h5 else "o.sqlite"))
        ids = [i for w, i, t in W.log if w == "build"]
        check(not W.errors, lambda: "; ".join(W.errors[:3]))
        plan = [(q, t) for q, t in W.plan if t < dur]
        want = sorted([(p[0], 0 if False else -1) for p in protos for _ in range(p[3])] + plan)
        made = sorted([(W.proto[i], -1 if i in W.first else W.entered[i]) for i in ids])
        check(len(ids) == len(set(ids)) and made == want, lambda: "built %r, not %r" % (made, want))
        lives = {p[0]: p[4] for p in protos}
        alive = []
        for i in ids:
            life, start = lives[W.proto[i]], W.entered[i]
            check(W.life[i] == (-1 if life is None else life), lambda: "agent %d of %s has lifetime %r, not %r" % (i, W.proto[i], W.life[i], life))
            ends = [dur] + ([] if life is None else [start + life]) + ([W.leave[i] + 1] if i in W.leave else [])
            last = min(ends)
            if last == dur and not (life is not None and start + life <= dur) and not (i in W.leave and W.leave[i] < dur):
                alive.append(i)
            for what in ("tick", "tock", "decision"):
                got = [t for w, k, t in W.log if w == what and k == i]
                check(got == list(range(start, last)), lambda: "agent %d (from %d, lifetime %r, leaving %r) had its %s at %r in a simulation of %d steps" % (
                    i, start, life, W.leave.get(i), what, got, dur))
                count("steps_seen", len(got))
        # the phases of a step do not overlap
        seq = [(t, {"tick": 0, "tock": 1, "decision": 2}[w]) for w, k, t in W.log if w in ("tick", "tock", "decision")]
        check(seq == sorted(seq), lambda: "phases out of order: %r" % (W.log,))
        count("agents_seen", len(ids))
        count("simulations_hdf5" if h5 else "simulations_sqlite")
        # the entries of the database
        ent = st.memory_backend.query("AgentEntry")
        mine = ent[(ent["Kind"] == "Facility") & (ent["Prototype"] != "Cpp")]
        others = {int(x) for x in ent[ent["Prototype"] == "Cpp"]["AgentId"]}
        check(sorted(int(x) for x in mine["AgentId"]) == sorted(ids), lambda: "AgentEntry has %r" % (list(mine["AgentId"]),))
        for _, e in mine.iterrows():
            check(e["Prototype"] == W.proto[e["AgentId"]] and e["Spec"].startswith(":vf_pyarch:") and e["ParentId"] == W.parents[e["AgentId"]], lambda: "AgentEntry row %r" % (dict(e),))
        # the children an institution sees are those it has
        first = {i: W.entered[i] if i not in W.first else 0 for i in ids}
        end = {i: min([10**9] + ([first[i] + W.life[i] - 1] if W.life[i] >= 0 else []) + ([W.leave[i]] if i in W.leave else [])) for i in ids}
        for i in others:
            first[i], end[i] = 0, W.leave.get(i, 10**9)
        for now, me, kids in W.kids:
            want = sorted(i for i in first if first[i] <= now <= end[i])
            check(kids == want, lambda: "institution %d sees children %r at %d, has %r" % (me, kids, now, want))
            count("families_compared")
        # the state recorded at the end is that of the agents that remain
        for cls, vars_, invs in classes:
            rows = st.memory_backend.query("AgentState_vf_pyarch_%sInfo" % cls.__name__, [("SimTime", "==", dur)])
            here = [i for i in alive if W.cls[i] == cls.__name__]
            got = {} if rows is None else {int(e["AgentId"]): e for _, e in rows.iterrows()}
            check(sorted(got) == sorted(here) and (rows is None or len(rows) == len(here)),
                  lambda: "state of %r recorded at the end for %s, remaining %r" % (sorted(got), cls.__name__, sorted(here)))
            for i in here:
                for v in vars_:
                    check(same_recorded(got[i][v.name], W.model[i][v.name]), lambda: "recorded %s = %r of agent %d, which has %r" % (v.name, got[i][v.name], i, W.model[i][v.name]))
                    count("recorded_values_compared")
        rows = st.memory_backend.query("AgentStateInventories", [("SimTime", "==", dur)])
        got = sorted((int(e["AgentId"]), e["InventoryName"], int(e["ResourceId"])) for _, e in rows.iterrows()) if rows is not None else []
        want = sorted((i, n, sid) for i in alive for n, l in W.stock[i].items() for sid in [x[2] for x in l])
        check(got == want, lambda: "inventories recorded at the end %r, held %r" % (got, want))
        count("inventory_rows_compared", len(want))
    finally:
        W = None
        shutil.rmtree(tmp, ignore_errors=True)
        for cls, _, _ in classes:
            delattr(MOD, cls.__name__)


# ------------------------------------------------------------------ C21
COMM = ["alpha", "beta", "gamma"]
UN = {922350000: 0.25, 922380000: 0.75}


def target(kind, q):
    return ts.Material.create_untracked(q, UN) if kind == "material" else ts.Product.create_untracked(q, "things")


def near(a, b, rel=1e-6):
    return abs(a - b) <= rel * max(1.0, abs(a), abs(b))


def adjust(self, level, kind, prefs):
    """what an agent is shown of the preferences, and what it makes of them"""
    r, now = W.r, self.context.time
    try:
        row = lambda k: (k[0].commodity, k[0].requester.id, k[1].bidder.id, k[0].target.quantity, k[1].offer.quantity)
        shown = [(row(k), k, p) for k, p in prefs.items()]
        shown.sort(key=lambda x: (x[0], x[2]))
        up, made = {}, []
        if r.chance(0.3):
            for key, k, p in shown:
                if r.chance(0.3):
                    up[k] = r.choice([-1.0, 0.125, 5.5])
                    made.append((key, p, up[k]))
        W.prefs.append((now, kind, level, self.id, sorted((key, p) for key, _, p in shown), made))
        return up if up or r.chance(0.5) else None
    except Exception as e:
        fail("preferences: %r" % (e,))
        return None


class VfTInst(Institution):
    def adjust_material_prefs(self, prefs):
        return adjust(self, "institution", "material", prefs)

    def adjust_product_prefs(self, prefs):
        return adjust(self, "institution", "product", prefs)


class VfTRegion(Region):
    def adjust_material_prefs(self, prefs):
        return adjust(self, "region", "material", prefs)

    def adjust_product_prefs(self, prefs):
        return adjust(self, "region", "product", prefs)


class VfTrader(Facility):
    """Asks, offers, ships and accepts at random, and reports what it is told"""

    def _ask(self, kind):
        r, now = W.r, self.context.time
        ports = []
        for _ in range(r.choice([0, 1, 1, 2])):
            form = r.below(4)
            reqs, commods = [], []
            n = r.range(1, 3)
            q = r.range(1, 40) * 0.5
            for c in r.sample(COMM, n):
                qty = q if r.chance(0.6) else r.range(1, 40) * 0.5
                pref = r.choice([1.0, 1.0, 2.0, 0.5, 7.25])
                excl = r.chance(0.2)
                t = target(kind, qty)
                if form == 0:      # a resource for each commodity
                    commods.append({c: t})
                    pref, excl = 1.0, False
                elif form == 1:    # with a preference beside it
                    commods.append({c: t, "preference": pref, "exclusive": excl})
                elif form == 2:    # a mapping
                    commods.append({c: {"target": t, "preference": pref, "exclusive": excl}})
                else:              # a sequence of mappings
                    commods.append({c: [{"target": t, "preference": pref, "exclusive": excl}]})
                reqs.append((c, qty, pref, excl))
            cap = r.range(1, 60) * 0.5
            cons = r.below(3)
            p = {"commodities": commods}
            if cons:
                p["constraints"] = cap if cons == 1 else [cap]
            ports.append(p)
            W.asked.append({"t": now, "who": self.id, "kind": kind, "reqs": reqs, "cap": cap if cons else None})
            count("requests_made", len(reqs))
        return ports if len(ports) != 1 or r.chance(0.5) else ports[0]

    def get_material_requests(self):
        return self._ask("material")

    def get_product_requests(self):
        return self._ask("product")

    def _offer(self, kind, requests):
        r, now = W.r, self.context.time
        try:
            seen = sorted((c, q.requester.id, q.target.quantity, q.preference, q.exclusive, q.commodity) for c, l in requests.items() for q in l)
            W.seen.append((now, kind, self.id, seen))
            mine = []
            for c in sorted(requests):
                for q in requests[c]:
                    if q.requester.id == self.id or r.chance(0.35):
                        continue
                    form = r.below(3)
                    qty = q.target.quantity * r.choice([1, 1, 0.5, 2])
                    t = target(kind, qty)
                    excl, pref = r.chance(0.1), r.choice([1.0, 3.0, 0.25])
                    if form == 0:
                        b, excl, pref = {"request": q, "offer": t}, False, 1.0
                    elif form == 1:
                        b, excl, pref = (q, t), False, 1.0
                    else:
                        b = {"request": q, "offer": t, "exclusive": excl, "preference": pref}
                    mine.append((b, (c, q.requester.id, q.target.quantity, qty, excl, pref)))
            if not mine:
                return None
            cap = r.range(1, 60) * 0.5
            cons = r.chance(0.7)
            W.offered.append({"t": now, "who": self.id, "kind": kind, "bids": [m[1] for m in mine], "cap": cap if cons else None})
            count("bids_made", len(mine))
            if not cons and r.chance(0.3):
                return [{"bids": [m[0] for m in mine]}]
            p = {"bids": [m[0] for m in mine]}
            if cons:
                p["constraints"] = cap if r.chance(0.5) else [cap]
            return p
        except Exception as e:
            fail("bids: %r" % (e,))
            return None

    def get_material_bids(self, requests):
        return self._offer("material", requests)

    def get_product_bids(self, requests):
        return self._offer("product", requests)

    def adjust_material_prefs(self, prefs):
        return adjust(self, "facility", "material", prefs)

    def adjust_product_prefs(self, prefs):
        return adjust(self, "facility", "product", prefs)

    def _ship(self, kind, trades):
        out, now = {}, self.context.time
        pairs = W.r.chance(0.3)
        try:
            for t in trades:
                res = ts.Material.create(self, t.amt, UN) if kind == "material" else ts.Product.create(self, t.amt, "things")
                out[t] = res
                W.shipped.append({"t": now, "kind": kind, "who": self.id, "to": t.request.requester.id, "c": t.request.commodity, "amt": t.amt,
                                  "rq": t.request.target.quantity, "bq": t.bid.offer.quantity, "bidder": t.bid.bidder.id, "obj": res.obj_id, "state": res.state_id,
                                  "rex": t.request.exclusive, "bex": t.bid.exclusive})
                count("trades_made")
        except Exception as e:
            fail("trades: %r" % (e,))
        return list(out.items()) if pairs else out

    def get_material_trades(self, trades):
        return self._ship("material", trades)

    def get_product_trades(self, trades):
        return self._ship("product", trades)

    def _take(self, kind, responses):
        now = self.context.time
        try:
            for t, res in responses.items():
                W.taken.append({"t": now, "kind": kind, "who": self.id, "frm": t.bid.bidder.id, "c": t.request.commodity, "amt": t.amt, "obj": res.obj_id,
                                "qty": res.quantity, "good": (res.comp() if kind == "material" else None), "to": t.request.requester.id})
        except Exception as e:
            fail("acceptance: %r" % (e,))

    def accept_material_trades(self, responses):
        self._take("material", responses)

    def accept_product_trades(self, responses):
        self._take("product", responses)


MOD.VfTrader = VfTrader
MOD.VfTInst = VfTInst
MOD.VfTRegion = VfTRegion


def case_trade(r):
    global W
    W = World()
    W.r = r
    for a in ("asked", "seen", "offered", "prefs", "shipped", "taken"):
        setattr(W, a, [])
    dur, n = r.range(1, 5), r.range(2, 5)
    solver = r.choice(["", "", "<solver><config><greedy/></config></solver>", "<solver><config><coin-or><timeout>20</timeout></coin-or></config></solver>"])
    W.lp = "coin" in solver
    inst = r.choice([("vf_pyarch", "VfTInst"), ("vf_pyarch", "VfTInst"), ("cyclus.pyagents", "NullInst"), ("agents", "NullInst")])
    reg = r.choice([("vf_pyarch", "VfTRegion"), ("vf_pyarch", "VfTRegion"), ("cyclus.pyagents", "NullRegion"), ("agents", "NullRegion")])
    W.levels = ["facility"] + (["institution"] if inst[1] == "VfTInst" else []) + (["region"] if reg[1] == "VfTRegion" else [])
    text = "<simulation>%s<archetypes>%s</archetypes><facility><name>T</name><config><VfTrader/></config></facility>" \
           "<region><name>Reg</name><config><%s/></config><institution><name>Inst</name><config><%s/></config>" \
           "<initialfacilitylist><entry><prototype>T</prototype><number>%d</number></entry></initialfacilitylist></institution></region></simulation>" % (
               control(dur, solver), "".join("<spec><lib>%s</lib><name>%s</name></spec>" % x for x in [("vf_pyarch", "VfTrader"), inst, reg]), reg[1], inst[1], n)
    trace(text)
    tmp = tempfile.mkdtemp(prefix="vfpa_")
    try:
        st = run_sim(text, os.path.join(tmp, "o.sqlite"))
        check(not W.errors, lambda: "; ".join(W.errors[:3]))
        nontrivial(repr(W.asked))
        for l in (W.asked, W.offered, W.prefs, W.shipped):
            for x in l:
                trace(x)
        for now in range(dur):
            for kind in ("material", "product"):
                judge_step(now, kind)
        check(len(W.taken) == len(W.shipped), lambda: "%d shipments, %d accepted" % (len(W.shipped), len(W.taken)))
        for x in W.shipped:
            got = [y for y in W.taken if y["obj"] == x["obj"] and y["t"] == x["t"]]
            check(len(got) == 1, lambda: "shipment %r was accepted %d times" % (x, len(got)))
            y = got[0]
            check(y["who"] == x["to"] == y["to"] and y["frm"] == x["who"] and y["c"] == x["c"] and y["kind"] == x["kind"] and near(y["qty"], x["amt"]) and near(y["amt"], x["amt"]),
                  lambda: "shipment %r was accepted as %r" % (x, y))
            if x["kind"] == "material":
                c = y["good"]
                tot = sum(c.values())
                check(set(c) == set(UN) and all(near(c[k] / tot, UN[k]) for k in UN), lambda: "shipment %r arrived with composition %r" % (x, c))
            count("shipments_compared")
        rows = st.memory_backend.query("Transactions")
        got = sorted((int(e["Time"]), int(e["SenderId"]), int(e["ReceiverId"]), e["Commodity"], int(e["ResourceId"])) for _, e in rows.iterrows()) if rows is not None else []
        want = sorted((x["t"], x["who"], x["to"], x["c"], x["state"]) for x in W.shipped)
        check(got == want, lambda: "Transactions %r, shipped %r" % (got, want))
        count("transactions_compared", len(want))
    finally:
        W = None
        shutil.rmtree(tmp, ignore_errors=True)


def judge_step(now, kind):
    asked = [p for p in W.asked if p["t"] == now and p["kind"] == kind]
    offered = [p for p in W.offered if p["t"] == now and p["kind"] == kind]
    made = sorted((c, p["who"], q, pr, ex, c) for p in asked for c, q, pr, ex in p["reqs"])
    for t, k, who, seen in W.seen:
        if t == now and k == kind:
            check(seen == made, lambda: "at %d agent %d is shown the %s requests %r, made were %r" % (now, who, kind, seen, made))
            count("markets_compared")
    # what a requester and those above it are shown of the bids on its requests, each with what was made of them before
    final = {}
    for rid in sorted({x[1] for p in offered for x in p["bids"]}):
        have = sorted(((c, q, p["who"], rq, bq), pr) for p in offered for c, q, rq, bq, ex, pr in p["bids"] if q == rid)
        turns = [e for e in W.prefs if e[0] == now and e[1] == kind and e[4] and e[4][0][0][1] == rid]
        check([e[2] for e in turns] == W.levels, lambda: "at %d the preferences of requester %d were put to %r, not to %r" % (now, rid, [e[2] for e in turns], W.levels))
        for _, _, level, who, shown, made in turns:
            check(level != "facility" or who == rid, lambda: "at %d agent %d is asked for the preferences of %d" % (now, who, rid))
            check(len(shown) == len(have) and all(a[:3] == b[:3] and near(a[3], b[3]) and near(a[4], b[4]) and near(x, y) for (a, x), (b, y) in zip(shown, have)),
                  lambda: "at %d the %s of requester %d is shown %r, due were %r" % (now, level, rid, shown, have))
            for key, old, new in made:
                have.remove(next(e for e in have if e[0] == key and near(e[1], old)))
                have.append((key, new))
            have.sort()
            count("preferences_compared", len(shown))
            if level != "facility":
                count("preferences_seen_above", len(shown))
        final[rid] = have
    ships = [x for x in W.shipped if x["t"] == now and x["kind"] == kind]
    for x in ships:
        check(x["bidder"] == x["who"] and x["amt"] > 0, lambda: "trade %r" % (x,))
        mine = [b for p in offered if p["who"] == x["who"] for b in p["bids"] if b[0] == x["c"] and b[1] == x["to"] and near(b[2], x["rq"]) and near(b[3], x["bq"])]
        check(mine, lambda: "trade %r follows no bid" % (x,))
        check(x["amt"] <= x["bq"] * (1 + 1e-6) + 1e-6, lambda: "trade %r exceeds what was offered" % (x,))
        left = [p for k, p in final[x["to"]] if k[:3] == (x["c"], x["to"], x["who"]) and near(k[3], x["rq"]) and near(k[4], x["bq"])]
        check(any(p > 0 for p in left), lambda: "trade %r was refused: its preferences are %r" % (x, left))
        if x["rex"] or x["bex"]:
            check(near(x["amt"], min(x["rq"], x["bq"])) or near(x["amt"], x["rq"]) or near(x["amt"], x["bq"]), lambda: "exclusive trade %r is of a part" % (x,))
            count("exclusive_trades")
    # the constraints of the bidders and the requesters
    for p in offered:
        tot = sum(x["amt"] for x in ships if x["who"] == p["who"])
        if p["cap"] is not None:
            check(tot <= p["cap"] * (1 + 1e-6) + 1e-6, lambda: "at %d agent %d ships %r of its %r" % (now, p["who"], tot, p["cap"]))
            count("bidder_limits_judged")
    for who in {p["who"] for p in asked}:
        mine = [p for p in asked if p["who"] == who]
        tot = sum(x["amt"] for x in ships if x["to"] == who)
        # the constraints of a request tell what it wants at least
        lim = sum(max(max(q for _, q, _, _ in p["reqs"]), p["cap"] or 0) for p in mine)
        if W.lp:
            continue  # there a demand is a lower bound
        check(tot <= lim * (1 + 1e-6) + 1e-6, lambda: "at %d agent %d gets %r, asked for %r" % (now, who, tot, mine))
        count("requester_limits_judged")


if __name__ == "__main__":
    vfpy.run({"C20": case_state, "C21": case_trade})
