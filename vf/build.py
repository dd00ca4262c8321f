"""Stages /repo's working tree into /verif/build/tree and builds it incrementally.

Staging copies a file only when its content differs, so mtimes change exactly
where /repo changed and ninja rebuilds exactly what depends on it.  Two flavours
are built from the same staged tree:

  san   libcyclus without the Python hooks, ASan + UBSan + libstdc++ assertions,
        and the harness drivers linked against it
  py    libcyclus with the Python hooks (no sanitizer) and the Python package

Nothing is written under /repo.
"""
import fcntl
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TREE = os.path.join(BUILD, "tree")
SAN = os.path.join(BUILD, "san")
PY = os.path.join(BUILD, "py")
PYTHON = "/opt/venv/bin/python"
DIRS = ("src", "cyclus", "cli", "agents", "share", "stubs", "input", "tests")
DATA_MODEL = "1.6"

DEFS = ("-DBOOST_ATOMIC_DYN_LINK -DBOOST_ATOMIC_NO_LIB -DBOOST_FILESYSTEM_DYN_LINK "
        "-DBOOST_FILESYSTEM_NO_LIB -DBOOST_PROGRAM_OPTIONS_DYN_LINK "
        "-DBOOST_PROGRAM_OPTIONS_NO_LIB -DBOOST_SERIALIZATION_DYN_LINK "
        "-DBOOST_SERIALIZATION_NO_LIB -DBOOST_SYSTEM_DYN_LINK -DBOOST_SYSTEM_NO_LIB "
        "-DBOOST_VERSION_MINOR=83 -DHDF_NO_NAMESPACE -DNO_STATIC_CAST -DOLD_HEADER_FILENAME")
L = "/usr/lib/x86_64-linux-gnu"
INCS = (f"-I/usr/include/hdf5/serial -I/usr/include/coin "
        f"-I/usr/lib/python3/dist-packages/numpy/core/include "
        f"-isystem /usr/include/python3.12 -isystem /usr/include/libxml2 "
        f"-isystem /usr/include/libxml++-2.6 -isystem {L}/libxml++-2.6/include "
        f"-isystem /usr/include/glibmm-2.4 -isystem {L}/glibmm-2.4/include "
        f"-isystem /usr/include/glib-2.0 -isystem {L}/glib-2.0/include "
        f"-isystem /usr/include/sigc++-2.0 -isystem {L}/sigc++-2.0/include")
LIBS = (f"-ldl -lxml2 -lxml++-2.6 -lglibmm-2.4 -lgobject-2.0 -lglib-2.0 -lsigc-2.0 "
        f"-llapack -lblas -lsqlite3 -L{L}/hdf5/serial -Wl,-rpath,{L}/hdf5/serial "
        f"-lhdf5 -lhdf5_cpp -lhdf5_hl -lboost_program_options -lboost_system "
        f"-lboost_filesystem -lboost_serialization -lOsi -lClp -lCoinUtils -lClpSolver "
        f"-lOsiClp -lCgl -lCbcSolver -lCbc -lOsiCbc -lm")
WEAK = "-include /opt/cyclus/cmake/missing_weak.h"
SANFLAGS = ("-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=alignment "
            "-fno-sanitize=vptr -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS")

SUBST = {
    "suffix": ".so", "dynamicloadlib": "unix_helper_functions.h",
    "cyclus_has_coin": "1", "cyclus_is_parallel": "0",
    "DATA_MODEL_VERSION": DATA_MODEL,
    "CMAKE_PROJECT_VERSION_MAJOR": "1", "CMAKE_PROJECT_VERSION_MINOR": "6",
    "CMAKE_PROJECT_VERSION_PATCH": "0",
    "CY_LARGE_INT": "2147483647", "CY_LARGE_DOUBLE": "1e299", "CY_NEAR_ZERO": "1e-08",
    "default_allow_milps": "true",
    "cyclus_install_dir": BUILD + "/none", "cyclus_build_dir": SAN,
}


def put(path, data):
    """Writes data unless the file already holds it. Returns whether it wrote."""
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return False
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp~"
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)
    return True


def stage():
    out = subprocess.run(
        ["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-co", "--exclude-standard", "-z", "--", *DIRS],
        capture_output=True, check=True).stdout.decode("utf-8", "surrogateescape")
    want, changed = set(), 0
    for f in out.split("\0"):
        src = os.path.join(REPO, f)
        if not f or not os.path.isfile(src):
            continue
        if f.startswith("tests/") and not f.endswith((".h",)) and not f.startswith("tests/input"):
            continue
        want.add(f)
        with open(src, "rb") as fh:
            data = fh.read()
        dst = os.path.join(TREE, f)
        if put(dst, data):
            changed += 1
            if os.access(src, os.X_OK):
                os.chmod(dst, 0o755)
    put(f"{TREE}/share/cyclus_nuc_data.h5", b"")   # no nuclear data here: an empty stand-in, as the project's own build uses
    want.add("share/cyclus_nuc_data.h5")
    man = os.path.join(BUILD, "staged.txt")
    try:
        had = set(open(man, errors="surrogateescape").read().split("\n"))
    except OSError:
        had = set()
    for f in had - want:
        if f and os.path.exists(os.path.join(TREE, f)):
            os.unlink(os.path.join(TREE, f))
            changed += 1
    put(man, "\n".join(sorted(want)).encode("utf-8", "surrogateescape"))
    return want, changed


def configure(src, dst, extra=None):
    """cmake's CONFIGURE_FILE(... @ONLY)."""
    vals = {**SUBST, **(extra or {})}
    text = open(src, encoding="utf-8").read()
    text = re.sub(r"@([A-Za-z_0-9]+)@", lambda m: vals.get(m[1], ""), text)
    put(dst, text.encode())


def generate(names):
    """The generators the project's configure step runs."""
    s = os.path.join(TREE, "src")
    for n in ("platform.h", "version.cc", "version.h", "cyc_limits.h", "env.cc"):
        configure(f"{s}/{n}.in", f"{s}/{n}")
    configure(f"{TREE}/cyclus/system.py.in", f"{TREE}/cyclus/system.py")
    # hdf5_back_gen.py reads share/dbtypes.json through its own relative path
    stamp = os.path.join(BUILD, "gen.stamp")
    ins = [f"{s}/hdf5_back_gen.py", f"{s}/hdf5_back.cc.in", f"{s}/hdf5_back.h.in",
           f"{TREE}/cyclus/gentypesystem.py", f"{s}/query_backend.h"] + \
          [os.path.join(TREE, f) for f in names if f.startswith("share/dbtypes") or f.startswith("share/dbtypes_gen")]
    # content hash of the inputs
    import hashlib
    h = hashlib.sha256()
    for i in sorted(set(ins)):
        h.update(i.encode() + b"\0" + open(i, "rb").read())
    key = h.hexdigest().encode()
    if os.path.exists(stamp) and open(stamp, "rb").read() == key:
        return
    run = lambda *a: subprocess.run([PYTHON, *a], capture_output=True, text=True, check=True, cwd=TREE + "/src", env=penv()).stdout
    dbt = run(f"{TREE}/share/dbtypes_gen.py", DATA_MODEL)
    configure(f"{TREE}/share/dbtypes.json.in", f"{TREE}/share/dbtypes.json", {"DBTYPES_JSON_ENTRIES": dbt})
    g = {}
    for k in ("VAL_TO_BUF_H", "QUERY", "CREATE", "VL_DATASET", "FILL_BUF", "WRITE", "VAL_TO_BUF", "BUF_TO_VAL"):
        g["HDF5_BACK_CC_" + k] = run(f"{s}/hdf5_back_gen.py", k)
    configure(f"{s}/hdf5_back.h.in", f"{s}/hdf5_back.h", g)
    configure(f"{s}/hdf5_back.cc.in", f"{s}/hdf5_back.cc", g)
    # typesystem: generate in place, keeping mtimes when nothing changed
    outs = ["typesystem.pyx", "typesystem.pxd", "cpp_typesystem.pxd"]
    old = {}
    for o in outs:
        p = f"{TREE}/cyclus/{o}"
        if os.path.exists(p):
            old[p] = (open(p, "rb").read(), os.stat(p))
    run(f"{TREE}/cyclus/gentypesystem.py", f"--src-dir={TREE}/cyclus", f"--data-model-version={DATA_MODEL}")
    for p, (data, st) in old.items():
        if open(p, "rb").read() == data:
            os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
    put(stamp, key)


def penv():
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LD_"))}
    env["PATH"] = "/opt/venv/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["LC_ALL"] = "C.UTF-8"
    return env


def esc(s):
    return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def ninja_text(names):
    o = []
    w = o.append
    w("ninja_required_version = 1.8")
    w(f"builddir = {BUILD}")
    inc = f"-I{TREE}/src -I{TREE}/src/toolkit"
    cx = f"{DEFS} {INCS} {WEAK} -std=c++17 -w -fPIC"
    w(f"""
pool heavy
  depth = 3
rule cc_san
  command = g++ {cx} {SANFLAGS} $extra {inc} -MD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
  description = san $in
rule cc_py
  command = g++ {cx} -DCYCLUS_WITH_PYTHON -O1 $extra {inc} -I{PY}/gen -MD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
  description = py $in
rule so_san
  command = g++ -shared -fsanitize=address,undefined -Wl,--allow-shlib-undefined -Wl,-soname,$soname -o $out $in $libs {LIBS}
rule so_py
  command = g++ -shared -Wl,--allow-shlib-undefined -Wl,-soname,$soname -o $out $in $libs {LIBS} -lpython3.12
rule exe_san
  command = g++ -fsanitize=address,undefined -o $out $in $libs {LIBS}
rule exe_py
  command = g++ -o $out $in $libs {LIBS} -lpython3.12
rule cython
  command = cd {TREE}/cyclus && /usr/bin/cython --cplus -I {TREE}/cyclus -I {TREE}/src -3 --output-file $out $in && {PYTHON} {TREE}/cli/post-process-cython.py $out
  description = cython $in
rule cythonsrc
  command = cd {TREE}/src && /usr/bin/cython --cplus -I {TREE}/src -I {TREE}/cyclus -3 --output-file $out $in
  description = cython $in
rule cycpp
  command = cd {TREE}/build && env PATH=/opt/venv/bin:/usr/bin:/bin PYTHONDONTWRITEBYTECODE=1 {PYTHON} {TREE}/cli/cycpp.py $in --cpp-path=cpp -o=$out --pass3-use-orig -I=:$incdir:{TREE}/src:/usr/include/hdf5/serial:/usr/include/coin:/usr/include/python3.12:/usr/include/libxml2:/usr/include/libxml++-2.6:{L}/libxml++-2.6/include:/usr/include/glibmm-2.4:{L}/glibmm-2.4/include:/usr/include/glib-2.0:{L}/glib-2.0/include:/usr/include/sigc++-2.0:{L}/sigc++-2.0/include
  description = cycpp $in
rule copy
  command = cp $in $out
rule sym
  command = ln -sf $target $out
""")
    os.makedirs(f"{TREE}/build", exist_ok=True)
    src = sorted(f for f in names if re.fullmatch(r"src/[^_/][^/]*\.cc", f) or re.fullmatch(r"src/toolkit/[^/]*\.cc", f))
    src += ["src/OsiCbcSolverInterface.cpp", "src/env.cc", "src/version.cc", "src/hdf5_back.cc"]
    src = sorted(set(src))
    gen_h = " ".join(esc(f"{TREE}/src/{n}") for n in ("platform.h", "version.h", "cyc_limits.h", "hdf5_back.h"))

    def obj(fl, f):
        return f"{BUILD}/{fl}/obj/" + f.replace("/", "_") + ".o"

    objs = {"san": [], "py": []}
    for f in src:
        extra = ""
        for fl in ("san", "py"):
            ob = obj(fl, f)
            order = ""
            if fl == "py" and f == "src/pyhooks.cc":
                order = " || " + " ".join(f"{PY}/gen/{m}.cc" for m in ("eventhooks", "pyinfile", "pymodule"))
            w(f"build {ob}: cc_{fl} {TREE}/{f}{order}")
            if fl == "san" and f in ("src/pyne.cc",):
                extra = "-O1 -fno-var-tracking -fno-sanitize=signed-integer-overflow"  # vendored jsoncpp negates LLONG_MIN
                w(f"  extra = {extra}")
            objs[fl].append(ob)
    for fl in ("san", "py"):
        w(f"build {BUILD}/{fl}/lib/libcyclus.so: so_{fl} {' '.join(objs[fl])}\n  soname = libcyclus.so")
    # agents
    cycdeps = [f"{TREE}/cli/cycpp.py", f"{TREE}/cli/sidecar.py"] + [f"{TREE}/{f}" for f in sorted(names) if f.endswith(".cycpp.h")]
    ag = sorted(f for f in names if re.fullmatch(r"agents/[a-z_]+\.cc", f) and not f.endswith("_tests.cc"))
    aobj = {"san": [], "py": []}
    hdrs = []
    for f in ag:
        h = f[:-3] + ".h"
        outs = []
        for g in (h, f):
            if g in names:
                w(f"build {BUILD}/{g}: cycpp {TREE}/{g} | {' '.join(cycdeps)} {TREE}/{h if h in names else f}\n  incdir = {TREE}/agents")
                if g.endswith(".h"):
                    hdrs.append(f"{BUILD}/{g}")
    for f in ag:
        for fl in ("san", "py"):
            ob = obj(fl, f)
            w(f"build {ob}: cc_{fl} {BUILD}/{f} || {' '.join(hdrs)}\n  extra = -I{BUILD}/agents")
            aobj[fl].append(ob)
    for fl in ("san", "py"):
        w(f"build {BUILD}/{fl}/lib/cyclus/libagents.so: so_{fl} {' '.join(aobj[fl])} | {BUILD}/{fl}/lib/libcyclus.so\n"
          f"  soname = libagents.so\n  libs = -L{BUILD}/{fl}/lib -lcyclus -Wl,-rpath,{BUILD}/{fl}/lib")
    # harness agents: preprocessed by the tree's own cycpp, loaded as a module
    H = f"{VERIF}/harness"
    hag = sorted(f for f in os.listdir(H + "/agents") if f.endswith(".cc")) if os.path.isdir(H + "/agents") else []
    hh = [f"{BUILD}/vfagents/{f[:-3]}.h" for f in hag]
    for f in hag:
        w(f"build {BUILD}/vfagents/{f[:-3]}.h: cycpp {H}/agents/{f[:-3]}.h | {' '.join(cycdeps)}\n  incdir = {H}/agents:{H}/agents/common")
        w(f"build {BUILD}/vfagents/{f}: cycpp {H}/agents/{f} | {' '.join(cycdeps)} {H}/agents/{f[:-3]}.h\n  incdir = {H}/agents:{H}/agents/common")
        for fl in ("san", "py"):
            w(f"build {BUILD}/{fl}/obj/vfagents_{f}.o: cc_{fl} {BUILD}/vfagents/{f} || {' '.join(hh)}\n  extra = -I{BUILD}/vfagents -I{H} -iquote {H}/agents/common")
    for fl in ("san", "py"):
        if hag:
            w(f"build {BUILD}/{fl}/lib/cyclus/libvf.so: so_{fl} " + " ".join(f"{BUILD}/{fl}/obj/vfagents_{f}.o" for f in hag) +
              f" | {BUILD}/{fl}/lib/libcyclus.so\n  soname = libvf.so\n  libs = -L{BUILD}/{fl}/lib -lcyclus -Wl,-rpath,{BUILD}/{fl}/lib")
    # cli
    for fl in ("san", "py"):
        w(f"build {obj(fl, 'cli/cyclus.cc')}: cc_{fl} {TREE}/cli/cyclus.cc")
        w(f"build {BUILD}/{fl}/bin/cyclus: exe_{fl} {obj(fl, 'cli/cyclus.cc')} | {BUILD}/{fl}/lib/libcyclus.so\n"
          f"  libs = -L{BUILD}/{fl}/lib -lcyclus -Wl,-rpath,{BUILD}/{fl}/lib")
    # harness drivers
    drv = []
    for f in sorted(os.listdir(H)):
        if f.startswith("d_") and f.endswith(".cc"):
            n = f[:-3]
            w(f"build {SAN}/obj/{n}.o: cc_san {H}/{f}\n  extra = -I{H}")
            w(f"build {SAN}/bin/{n}: exe_san {SAN}/obj/{n}.o | {SAN}/lib/libcyclus.so\n  libs = -L{SAN}/lib -lcyclus -Wl,-rpath,{SAN}/lib")
            drv.append(n)
            w(f"build {n}: phony {SAN}/bin/{n}")
    agl = " ".join(f"{BUILD}/san/lib/cyclus/{x}" for x in (["libagents.so"] + (["libvf.so"] if hag else [])))
    w(f"build san_cli: phony {SAN}/bin/cyclus {agl}")
    w(f"build san_agents: phony {agl}")
    # python
    for m in ("eventhooks", "pyinfile", "pymodule"):
        pxd = f"{TREE}/src/{m}.pxd"
        w(f"build {PY}/gen/{m}.cc: cythonsrc {TREE}/src/{m}.pyx | {pxd}")
        w(f"build {PY}/obj/{m}.o: cc_py {PY}/gen/{m}.cc\n  extra = -O0 -DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION")
        w(f"build {PY}/site/{m}.so: so_py {PY}/obj/{m}.o\n  soname = {m}.so")
    allpxd = " ".join(f"{TREE}/{f}" for f in sorted(names) if re.fullmatch(r"cyclus/[^/]*\.pxd", f)) + \
        f" {TREE}/cyclus/typesystem.pxd {TREE}/cyclus/cpp_typesystem.pxd"
    mods = sorted({f for f in names if re.fullmatch(r"cyclus/[^/]*\.pyx", f)} | {"cyclus/typesystem.pyx"})
    pyo = [f"{PY}/site/{m}.so" for m in ("eventhooks", "pyinfile", "pymodule")]
    for f in mods:
        n = os.path.basename(f)[:-4]
        w(f"build {PY}/gen/cy_{n}.cxx: cython {TREE}/{f} | {allpxd} {TREE}/cli/post-process-cython.py")
        w(f"build {PY}/obj/cy_{n}.o: cc_py {PY}/gen/cy_{n}.cxx\n  extra = -O0 -DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION")
        w(f"build {PY}/site/cyclus/{n}.so: so_py {PY}/obj/cy_{n}.o | {PY}/lib/libcyclus.so\n  soname = {n}.so\n  libs = -L{PY}/lib -lcyclus -Wl,-rpath,{PY}/lib")
        pyo.append(f"{PY}/site/cyclus/{n}.so")
    for f in sorted(names | {"cyclus/system.py"}):
        if re.fullmatch(r"cyclus/[^/]*\.(py|pxd)", f):
            w(f"build {PY}/site/{f}: copy {TREE}/{f}")
            pyo.append(f"{PY}/site/{f}")
    w(f"build {PY}/site/cyclus/cycpp.py: copy {TREE}/cli/cycpp.py")
    pyo.append(f"{PY}/site/cyclus/cycpp.py")
    agp = " ".join(f"{BUILD}/py/lib/cyclus/{x}" for x in (["libagents.so"] + (["libvf.so"] if hag else [])))
    w(f"build py_all: phony {PY}/bin/cyclus {agp} {' '.join(pyo)}")
    w(f"build san_all: phony san_cli {' '.join(drv)}")
    w("")
    return "\n".join(o)


class BuildError(Exception):
    pass


def build(targets, jobs=None, log=None):
    """Stages /repo and builds the targets. Returns seconds spent and files staged."""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        names, changed = stage()
        try:
            generate(names)
        except subprocess.CalledProcessError as e:
            raise BuildError(f"generator failed: {e.cmd}: {e.stderr[-2000:]}")
        put(os.path.join(BUILD, "build.ninja"), ninja_text(names).encode())
        r = subprocess.run(["ninja", "-f", f"{BUILD}/build.ninja", "-j", str(jobs or os.cpu_count() or 8), *targets],
                           cwd=BUILD, env=penv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        put(os.path.join(BUILD, "last_build.log"), r.stdout.encode("utf-8", "replace"))
        if r.returncode:
            raise BuildError("build failed:\n" + r.stdout[-4000:])
    return time.time() - t0, changed


if __name__ == "__main__":
    try:
        s, c = build(sys.argv[1:] or ["san_all", "py_all"])
        print(f"built in {s:.1f}s, {c} files staged")
    except BuildError as e:
        print(e)
        sys.exit(2)
