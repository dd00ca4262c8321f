"""C19: what is recorded from Python, or read from Python, is what was recorded."""
import math
import os
import struct
import uuid

import numpy as np

import vfpy
from vfpy import check, count, nontrivial, trace

import cyclus.lib as lib
import cyclus.memback as memback
import cyclus.typesystem as ts

NORMS = sorted({v for v in ts.NORMS.values() if "Res" not in str(v) and "cyclus::Material" not in str(v) and "cyclus::Product" not in str(v)}, key=str)


def supported(backend):
    """The types the given backend can hold, by the project's table of types"""
    import json
    rows = json.load(open(os.path.join(os.path.dirname(os.environ["CYCLUS_NUC_DATA"]), "dbtypes.json")))[1:]
    new = max(x[5] for x in rows)
    ids = {x[0] for x in rows if x[4] == backend and x[5] == new and x[6]}
    return {ts.NORMS[i] for i in ids if i in ts.NORMS}


CAN = {"sqlite": supported("SQLite"), "hdf5": supported("HDF5"), "memory": set(NORMS)}
SCALARS = ["bool", "int", "float", "double", "std::string", "cyclus::Blob", "boost::uuids::uuid"]
ORDERED = ["int", "double", "std::string"]
OPS = ["==", "!=", "<", "<=", ">", ">="]


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def text(r, n=None):
    n = r.choice([0, 1, 3, 9, 40, 200]) if n is None else n
    return "".join(r.choice("abcdefgXYZ 0123456789_-.,;'\"<>&%\n\u00e9\u4e16") for _ in range(n))


ZEROS = [True]  # HDF5 holds a blob as a C string


TINY = [False]  # values from small domains: many are alike but not the same


def gen(r, norm, key=False, nonempty=False):
    if isinstance(norm, str):
        if TINY[0] and norm in ("int", "float", "double"):
            return r.range(0, 3) if norm == "int" else 0.5 * r.range(0, 3)
        if TINY[0] and norm == "std::string":
            return r.choice(["a", "b", "ab", "ba", "aa"])
        if norm == "bool":
            return r.chance(0.5)
        if norm == "int":
            return r.choice([0, 1, -1, 2**31 - 1, -2**31]) if r.chance(0.2) else r.range(-20, 20)
        if norm == "float":
            return f32(r.uniform(-1, 1) * r.logreal(1e-6, 1e6))
        if norm == "double":
            return r.choice([0.0, 1.5, -2.25, 1e300, 5e-324]) if r.chance(0.2) else r.uniform(-1, 1) * r.logreal(1e-9, 1e9)
        if norm == "std::string":
            return text(r, r.range(1, 6) if key or nonempty else None)
        if norm == "cyclus::Blob":
            b = r.randbytes(r.range(1, 60)) + b"."
            if not ZEROS[0]:
                b = b.replace(b"\0", b"\1")
            return b if r.chance(0.5) else text(r, r.range(1, 300)).encode()
        if norm == "boost::uuids::uuid":
            return uuid.UUID(int=r.getrandbits(128))
        raise ValueError(norm)
    n = r.choice([0, 1, 2, 5]) if not nonempty else r.range(1, 4)
    if norm[0] == "std::vector":
        return [gen(r, norm[1]) for _ in range(n)]
    if norm[0] == "std::list":
        return [gen(r, norm[1]) for _ in range(n)]
    if norm[0] == "std::set":
        return {gen(r, norm[1], True) for _ in range(n)}
    if norm[0] == "std::pair":
        return (gen(r, norm[1]), gen(r, norm[2]))
    if norm[0] == "std::map":
        return {gen(r, norm[1], True): gen(r, norm[2]) for _ in range(n)}
    raise ValueError(norm)


def plain(v):
    """A value as Python sees it, whatever container carries it"""
    if isinstance(v, np.ndarray):
        return [plain(x) for x in v.tolist()]
    if isinstance(v, np.generic):
        return plain(v.item())
    if isinstance(v, bool):
        return bool(v)
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((plain(x) for x in v), key=repr)
    if hasattr(v, "items"):
        return sorted(((plain(k), plain(x)) for k, x in v.items()), key=repr)
    if isinstance(v, str) or isinstance(v, (bytes, int, float, uuid.UUID)):
        return v
    if hasattr(v, "__iter__"):
        return sorted((plain(x) for x in v), key=repr)
    return v


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) != isinstance(b, bool):
        return int(a) == int(b) if isinstance(a, (bool, int)) and isinstance(b, (bool, int)) else False
    return type(a) is type(b) and a == b


def holds(v, op, x):
    return {"==": v == x, "!=": v != x, "<": v < x, "<=": v <= x, ">": v > x, ">=": v >= x}[op]


class Tab:
    def __init__(self, r, i, norms):
        self.name = "Tab%d" % i
        self.cols = [("Serial", "int")]
        for k in range(r.range(1, 5)):
            norm = r.choice(ORDERED) if r.chance(0.35) else r.choice(SCALARS) if r.chance(0.4) else r.choice(norms)
            self.cols.append(("%s%d" % (r.choice(["c", "c", "val", "col", "x"]), k), norm))
        self.tiny = {c for c, _ in self.cols if r.chance(0.3)}
        self.rows = []
        self.pool = [r.choice([-2, 0, 1, 3]) for _ in range(4)]

    def row(self, r):
        out = []
        for name, norm in self.cols:
            if name == "Serial":
                out.append(len(self.rows))
            elif self.rows and norm in ORDERED and r.chance(0.3):
                out.append(r.choice(self.rows)[self.cols.index((name, norm))])  # values that repeat
            else:
                TINY[0] = name in self.tiny
                out.append(gen(r, norm))
                TINY[0] = False
        return out


def compare(t, df, want, who, inject, sim_id):
    check(df is not None, lambda: "%s: table %s is missing" % (who, t.name))
    names = list(df.columns)
    check(sorted(names) == sorted([c for c, _ in t.cols] + (["SimId"] if inject else [])), lambda: "%s: columns %s of table %s" % (who, names, t.name))
    check(len(df) == len(want), lambda: "%s: table %s gives %d rows, expected %d" % (who, t.name, len(df), len(want)))
    recs = df.to_dict("list")
    order = {plain(s): i for i, s in enumerate(recs["Serial"])}
    for row in want:
        check(row[0] in order, lambda: "%s: row %d of %s is missing" % (who, row[0], t.name))
        i = order[row[0]]
        for (name, norm), v in zip(t.cols, row):
            got = plain(recs[name][i])
            exp = plain(v)
            check(same(got, exp), lambda: "%s: %s.%s of type %s in row %d is %r, recorded was %r" % (who, t.name, name, norm, row[0], got, exp))
            count("values_compared")
        if inject:
            check(plain(recs["SimId"][i]) == sim_id, lambda: "%s: the simulation id of row %d is %r, not %r" % (who, row[0], recs["SimId"][i], sim_id))
    if "memory" in who:
        check([plain(s) for s in recs["Serial"]] == [w[0] for w in want], lambda: "%s: the rows of %s come in another order" % (who, t.name))
    count("rows_compared", len(want))


def conditions(r, t):
    conds = []
    for _ in range(r.range(1, 3)):
        k = r.choice([i for i, c in enumerate(t.cols) if c[1] in ORDERED])
        name, norm = t.cols[k]
        v = r.choice(t.rows)[k] if t.rows and r.chance(0.7) else gen(r, norm)
        conds.append((name, r.choice(OPS), v))
    return conds


def select(t, conds):
    at = {c[0]: i for i, c in enumerate(t.cols)}
    return [row for row in t.rows if all(holds(row[at[n]], op, v) for n, op, v in conds)]


def ask(r, t, back, who, inject, sim_id):
    compare(t, back.query(t.name), t.rows, who, inject, sim_id)
    for _ in range(3):
        conds = conditions(r, t)
        want = select(t, conds)
        compare(t, back.query(t.name, conds=conds), want, who + " where " + str(conds)[:300], inject, sim_id)
        count("queries_with_conditions")
        count("conditions_selecting_some" if 0 < len(want) < len(t.rows) else "conditions_selecting_all_or_none")


def case_c19(r):
    for f in ("a.sqlite", "a.h5"):
        if os.path.exists(f):
            os.remove(f)
    inject = r.chance(0.5)
    rec = lib.Recorder(inject_sim_id=inject)
    rec.dump_count = r.choice([1, 2, 7, 100])
    backs = {}
    if r.chance(0.7):
        backs["sqlite"] = lib.SqliteBack("a.sqlite")
    if r.chance(0.5) or not backs:
        backs["hdf5"] = lib.Hdf5Back("a.h5")
    ZEROS[0] = "hdf5" not in backs
    norms = [n for n in NORMS if all(n in CAN[b] for b in backs)]
    tabs = [Tab(r, i, norms) for i in range(r.range(1, 3))]
    keep = r.choice(["all", "all", "some", "none"])
    registry = True if keep == "all" else {t.name for t in tabs if r.chance(0.5)} if keep == "some" else None
    backs["memory"] = memback.MemBack(registry=registry)
    trace("tables %s; backends %s; registry %s; dump count %d" % ([(t.name, t.cols) for t in tabs], sorted(backs), registry, rec.dump_count))
    nontrivial(str([t.cols for t in tabs]) + str(r.random()))
    for b in backs.values():
        rec.register_backend(b)
    sim_id = rec.sim_id
    for _ in range(r.range(3, 30)):
        t = r.choice(tabs)
        row = t.row(r)
        d = rec.new_datum(t.name)
        for (name, norm), v in zip(t.cols, row):
            d.add_val(name, v, type=norm)
        d.record()
        t.rows.append(row)
        count("rows_recorded")
        if r.chance(0.05):
            rec.flush()
    rec.flush()
    mem = backs["memory"]
    kept = {t.name for t in tabs} if registry is True else registry or set()
    check(set(mem.tables) == {t.name for t in tabs if t.rows and t.name in kept}, lambda: "the memory backend holds %s, registered were %s" % (sorted(mem.tables), sorted(kept)))
    check(mem.store_all_tables == (registry is True), "store_all_tables is %s" % mem.store_all_tables)
    for t in tabs:
        if not t.rows:
            continue
        for who in ("sqlite", "hdf5"):
            if who in backs:
                check(t.name in backs[who].tables, lambda: "%s: no table %s" % (who, t.name))
                ask(r, t, backs[who], who, inject, sim_id)
        if t.name in kept:
            ask(r, t, mem, "memory", inject, sim_id)
        else:
            check(mem.query(t.name) is None, lambda: "the memory backend gives table %s, which is not registered" % t.name)
            count("unregistered_tables")
    # a memory backend in front of a file
    disk = backs.get("sqlite") or backs.get("hdf5")
    front = memback.MemBack(registry=r.choice([True, None, {t.name for t in tabs[:1]}]), fallback=disk)
    for t in tabs:
        if t.rows:
            compare_front = lambda q, want, what: compare(t, q, want, "front of the file" + what, inject, sim_id)
            conds = conditions(r, t)
            if r.chance(0.5):
                compare_front(front.query(t.name, conds=conds), select(t, conds), " where %s" % (conds,))
            compare_front(front.query(t.name), t.rows, "")
            compare_front(front.query(t.name, conds=conds), select(t, conds), " where %s" % (conds,))
            count("fallbacks_compared")
    check(front.query("NoSuchTable") is None, "a table that does not exist is found")
    # changing what is kept
    if keep != "none" and r.chance(0.6):
        now = {t.name for t in tabs if r.chance(0.5)}
        mem.registry = now
        check(set(mem.registry) == now and not mem.store_all_tables, lambda: "the registry is %s, set was %s" % (mem.registry, now))
        held = {}
        for t in tabs:
            had = t.name in kept and len(t.rows)
            gone = registry is not True and t.name in kept and t.name not in now
            if gone:
                check(mem.query(t.name) is None, lambda: "%s left the registry and is still held" % t.name)
            elif had:
                compare(t, mem.query(t.name), t.rows, "memory after a new registry", inject, sim_id)
            held[t.name] = list(t.rows) if had and not gone else []
        for _ in range(r.range(1, 6)):
            t = r.choice(tabs)
            row = t.row(r)
            d = rec.new_datum(t.name)
            for (name, norm), v in zip(t.cols, row):
                d.add_val(name, v, type=norm)
            d.record()
            t.rows.append(row)
            if t.name in now:
                held[t.name].append(row)
        rec.flush()
        for t in tabs:
            if held[t.name]:
                compare(t, mem.query(t.name), held[t.name], "memory after a new registry", inject, sim_id)
            for who in ("sqlite", "hdf5"):
                if who in backs and t.rows:
                    compare(t, backs[who].query(t.name), t.rows, who, inject, sim_id)
        count("registries_changed")
    rec.close()
    del rec
    # another process would see the same
    for who, path, cls in (("sqlite", "a.sqlite", lib.SqliteBack), ("hdf5", "a.h5", lib.Hdf5Back)):
        if who in backs:
            backs.pop(who).close()
            b = cls(path)
            for t in tabs:
                if t.rows:
                    ask(r, t, b, who + " reopened", inject, sim_id)
            b.close()
            count("reopened_" + who)


if __name__ == "__main__":
    vfpy.run({"C19": case_c19})
