"""Content-addressed builds of /repo's working tree, outside /repo.

Every artefact lives in $VERIF_BUILD/<sha256 of inputs and command>; nothing is
decided by time stamps.
"""
import glob
import hashlib
import os
import shutil
import subprocess
import sysconfig
import threading
import time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

MISSING = ("control_load_aspif control_register_backend control_remove_minimize "
           "control_update_project model_is_consequence model_priority "
           "propagate_init_get_undo_mode propagate_init_set_undo_mode solve_handle_last").split()
DEFSYM = ["-Wl,--defsym=clingo_%s=0" % f for f in MISSING]
EXT = sysconfig.get_config_var("EXT_SUFFIX")


class BuildError(Exception):
    pass


def _hash(paths, extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    h.update(repr(extra).encode())
    return h.hexdigest()[:24]


_locks = {}
_guard = threading.Lock()


def _lock(key):
    with _guard:
        return _locks.setdefault(key, threading.Lock())


def artefact(name, inputs, cmds, out):
    """cmds: list of argv with {out}/{dir} placeholders; returns path of `out`."""
    inputs = [p for p in inputs if os.path.isfile(p)]
    key = name + "-" + _hash(inputs, (cmds, out))
    final = os.path.join(BUILD, key)
    res = os.path.join(final, out)
    with _lock(key):
        if os.path.exists(res):
            try:
                os.utime(final)
            except OSError:
                pass
            return res
        _prune(name)
        tmp = final + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        for c in cmds:
            argv = [a.replace("{dir}", tmp) for a in c]
            p = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=tmp)
            if p.returncode != 0:
                shutil.rmtree(tmp, ignore_errors=True)
                raise BuildError("build of %s failed: %s\n%s" % (name, " ".join(argv), p.stdout[-4000:]))
        try:
            os.rename(tmp, final)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
            if not os.path.exists(res):
                raise
        return res


def _prune(name, keep=6):
    ds = [d for d in glob.glob(os.path.join(BUILD, name + "-" + "?" * 24))]
    ds.sort(key=lambda d: os.path.getmtime(d) if os.path.exists(d) else 0)
    for d in ds[:-keep]:
        if time.time() - os.path.getmtime(d) > 3600:
            shutil.rmtree(d, ignore_errors=True)


def _files(*pats):
    r = []
    for p in pats:
        r += [f for f in glob.glob(p, recursive=True) if os.path.isfile(f)]
    return r


def shim_lib():
    """The interposer: exports the C API, records calls, injects answers and failures."""
    src = _files(VERIF + "/engine/*")
    return artefact("shim", src,
                    [["python3", VERIF + "/engine/gen.py", VERIF + "/engine/frozen.h", "{dir}/api.cc"],
                     ["g++", "-std=c++17", "-O0", "-w", "-fPIC", "-shared", "-Wl,-soname,libvfshim.so", "-I" + VERIF + "/engine", 
                      "{dir}/api.cc", VERIF + "/engine/shim.cc", "-o", "{dir}/libvfshim.so", "-ldl", "-lpthread"],
                     ["g++", "-std=c++17", "-w", "-fPIC", "-shared", "-I/usr/include/lua5.4", VERIF + "/engine/luashim.cc", "-o", "{dir}/libvfshimlua.so", "-L{dir}", "-lvfshim", "-Wl,-rpath,$ORIGIN"]],
                    "libvfshim.so")


def _engine(engine):
    if engine == "real":
        return ["-lclingo"] + DEFSYM, []
    lib = shim_lib()
    d = os.path.dirname(lib)
    return [lib, "-Wl,-rpath," + d, "-Wl,--disable-new-dtags"], [lib]


def py_ext(engine="real"):
    """Directory to put on PYTHONPATH holding the freshly built _clingo extension."""
    link, dep = _engine(engine)
    src = REPO + "/app/pyclingo/_clingo.c"
    inputs = _files(REPO + "/app/pyclingo/*", REPO + "/libpyclingo/*.c", REPO + "/libpyclingo/*.h") + dep + [REPO + "/libclingo/clingo.h"]
    so = artefact("py" + engine, inputs,
                  [["gcc", "-std=c11", "-D_CFFI_NO_LIMITED_API", "-O1", "-w", "-fPIC", "-shared",
                    "-I" + REPO + "/libclingo", "-I" + REPO + "/libpyclingo", "-I/usr/include/python3.12", src,
                    "-o", "{dir}/_clingo" + EXT] + link],
                  "_clingo" + EXT)
    return os.path.dirname(so)


def py_env(engine="real"):
    env = dict(os.environ)
    env["PYTHONPATH"] = py_ext(engine) + ":" + REPO + "/libpyclingo" + ":" + ext_theory()
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["LC_ALL"] = "C.UTF-8"
    env.pop("PYTHONHOME", None)
    if engine == "shim":
        env["VF_SHIM"] = shim_lib()
    return env


def lua_ext(engine="real"):
    link, dep = _engine(engine)
    inputs = _files(REPO + "/app/luaclingo/*", REPO + "/libluaclingo/*", REPO + "/libclingo/*.h*") + dep
    defs = ["-DCLINGO_WITH_LUA", "-DLUACLINGO_NO_VISIBILITY"]
    inc = ["-I/usr/include/lua5.4", "-I" + REPO + "/libluaclingo", "-I" + REPO + "/libclingo"]
    so = artefact("lua" + engine, inputs,
                  [["g++", "-std=c++14", "-O1", "-w", "-fPIC", "-shared"] + defs + inc +
                   [REPO + "/app/luaclingo/main.cc", REPO + "/libluaclingo/luaclingo.cc", "-o", "{dir}/clingo.so"] + link],
                  "clingo.so")
    return os.path.dirname(so)


def lua_cap():
    src = VERIF + "/engine/luacap.cc"
    so = artefact("luacap", [src], [["g++", "-std=c++17", "-w", "-fPIC", "-shared", "-I/usr/include/lua5.4", src, "-o", "{dir}/vfcap.so"]], "vfcap.so")
    return os.path.dirname(so)


def ext_theory():
    """A CFFI module with two theory libraries (C23)."""
    d = VERIF + "/engine/ext"
    so = artefact("exttheory", _files(d + "/*") + [REPO + "/libclingo/clingo.h"], [["python3", d + "/gen.py", "{dir}", REPO + "/libclingo"]], "_vftheory" + EXT)
    return os.path.dirname(so)


def cc_driver(name, engine="real", flags=()):
    link, dep = _engine(engine)
    src = VERIF + "/drivers/" + name + ".cc"
    inputs = [src] + _files(VERIF + "/drivers/*.hh", REPO + "/libclingo/*.h", REPO + "/libclingo/*.hh") + dep
    return artefact("cc_%s_%s" % (name, engine), inputs,
                    [["g++", "-std=c++14", "-O0", "-g1", "-w", "-I" + REPO + "/libclingo", "-I" + VERIF + "/drivers", src,
                      "-o", "{dir}/driver"] + list(flags) + link + ["-lpthread", "-ldl"]],
                    "driver")


def g_driver():
    """Header-only parts of libgringo."""
    return artefact("g_core", [VERIF + "/drivers/g_driver.cc", VERIF + "/drivers/g_core.hh", REPO + "/libgringo/gringo/graph.hh", REPO + "/libgringo/gringo/intervals.hh"],
                    [["g++", "-std=c++17", "-O1", "-w", "-D_GLIBCXX_ASSERTIONS", "-I" + REPO + "/libgringo", "-I" + VERIF + "/drivers", VERIF + "/drivers/g_driver.cc", "-o", "{dir}/driver"]], "driver")


def gringo_driver():
    """The grounder and the reifier of /repo, with the installed engine behind them; one artefact per source."""
    r = REPO + "/"
    inc = ["-I" + VERIF + "/shims", "-I" + r + "libgringo", "-I" + r + "libgringo/gen/src", "-I" + r + "libreify", "-I" + r + "libclingo"]
    fl = ["-std=c++17", "-O1", "-w", "-DCLINGO_MAP_TYPE=0", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS"]
    heads = _files(VERIF + "/shims/**/*", r + "libgringo/gringo/**/*", r + "libgringo/gen/**/*.h*", r + "libgringo/src/**/*.h*", r + "libreify/reify/**/*", r + "libclingo/clingo.h", r + "libclingo/clingo/astv2.hh")
    srcs = _files(r + "libgringo/src/**/*.cc", r + "libgringo/gen/src/**/*.cc", r + "libreify/src/**/*.cc", r + "libclingo/src/astv2*.cc")
    jobs = [("go_" + os.path.relpath(s, r).replace("/", "_").replace(".", "_"), [s] + heads, [["g++"] + fl + inc + ["-c", s, "-o", "{dir}/o.o"]], "o.o") for s in srcs]
    drv = [VERIF + "/drivers/g_driver.cc"] + _files(VERIF + "/drivers/g*.hh")
    jobs.append(("go_driver", drv + heads, [["g++"] + fl + ["-DVF_GRINGO", "-I" + VERIF + "/drivers"] + inc + ["-c", drv[0], "-o", "{dir}/o.o"]], "o.o"))
    # the largest first
    jobs.sort(key=lambda j: -sum(os.path.getsize(f) for f in j[1][:1]))
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: artefact(*j), jobs))
    return artefact("gringo", objs, [["g++"] + objs + ["-o", "{dir}/driver", "-lclingo", "-lpthread"]], "driver")


def app_clingo(engine="real"):
    """The clingo executable of /repo with embedded Python and Lua."""
    link, dep = _engine(engine)
    inputs = _files(REPO + "/app/clingo/**/*", REPO + "/libpyclingo/*", REPO + "/libluaclingo/*", REPO + "/libclingo/*.h*",
                    REPO + "/CMakeLists.txt") + dep
    inputs = [f for f in inputs if "/tests/" not in f]
    vin = REPO + "/libpyclingo/version.h.in"
    cmds = []
    r = REPO
    com = ["-O1", "-w", "-fPIC"]
    if os.path.exists(vin):
        cmds.append(["python3", "-c",
                     "import re,sys;t=open(sys.argv[1]).read();print(re.sub(r'@[^@]*@|\\$\\{[^}]*\\}','3.12',t),file=open(sys.argv[2],'w'))",
                     vin, "{dir}/version.h"])
    cmds += [
        ["gcc", "-std=c11", "-c", "-D_CFFI_NO_LIMITED_API", "-DCLINGO_WITH_PYTHON", "-DPYCLINGO_BUILD_LIBRARY", "-DPYCLINGO_NO_VISIBILITY",
         "-I{dir}", "-I" + r + "/libclingo", "-I" + r + "/libpyclingo", "-I/usr/include/python3.12"] + com +
        [r + "/libpyclingo/pyclingo.c", "-o", "{dir}/pyclingo.o"],
        ["g++", "-std=c++14", "-c", "-DCLINGO_WITH_LUA", "-DLUACLINGO_NO_VISIBILITY", "-I/usr/include/lua5.4", "-I" + r + "/libluaclingo",
         "-I" + r + "/libclingo"] + com + [r + "/libluaclingo/luaclingo.cc", "-o", "{dir}/luaclingo.o"],
        ["g++", "-std=c++14", "-DCLINGO_WITH_LUA", "-DCLINGO_WITH_PYTHON", "-DLUACLINGO_NO_VISIBILITY", "-DPYCLINGO_NO_VISIBILITY",
         "-I" + r + "/libluaclingo", "-I" + r + "/libpyclingo", "-I" + r + "/libclingo"] + com +
        [r + "/app/clingo/main.cc", "{dir}/pyclingo.o", "{dir}/luaclingo.o", "-o", "{dir}/clingo"] + link +
        ["-lpython3.12", "-llua5.4"],
    ]
    return artefact("app" + engine, inputs, cmds, "clingo")
