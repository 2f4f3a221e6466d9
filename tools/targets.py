"""What each harness is built from. Sources of /repo are compiled from the current working tree."""
import glob, os, subprocess
from vbuild import Builder, REPO, VERIF, BuildError

CXX = "clang++-19"
CC = "clang-19"
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
BASE = ["-std=c++20", "-O1", "-g1", "-w", "-DDOCC_VERIF"]
H = os.path.join(VERIF, "harness")


def rglob(d, pat="*.cpp"):
    out = []
    for root, _, files in os.walk(os.path.join(REPO, d)):
        for f in sorted(files):
            if f.endswith(pat[1:]):
                out.append(os.path.join(root, f))
    return sorted(out)


CAP_INC = ["-I%s/arg-capture-io/include" % REPO]
RTL_INC = ["-I%s/rtl/include" % REPO] + CAP_INC
SDFG_INC = ["-I%s/sdfg/include" % REPO]
RPC_INC = ["-I%s/rpc/include" % REPO] + SDFG_INC


def simple(b, name, harness, repo_srcs, inc, extra=(), libs=(), cdefs=(), csrc=()):
    fl = BASE + SAN + list(inc)
    items = [(s, CXX, fl) for s in repo_srcs]
    items.append((os.path.join(H, harness), CXX, fl + list(cdefs)))
    for s in csrc:
        items.append((os.path.join(H, s), CC, ["-O0", "-g1", "-w"] + list(inc)))
    objs = b.objects(items)
    return b.link(name, objs, CXX, SAN + ["-rdynamic", "-lpthread", "-ldl"] + list(libs))


def t_capture_io(b):
    return simple(b, "c01", "rt/c_capture_io.cpp", rglob("arg-capture-io/src"), CAP_INC)


def t_index(b):
    return simple(b, "c02", "rt/c_index_fuzz.cpp", rglob("arg-capture-io/src"), CAP_INC + ["-fno-sanitize=float-cast-overflow"])


def t_base64(b):
    return simple(b, "c03", "rt/c_base64.cpp", rglob("arg-capture-io/src"), CAP_INC)


def t_rtl_capture(b):
    return simple(b, "c04", "rt/c_rtl_capture.cpp", rglob("arg-capture-io/src") + rglob("rtl/src"), RTL_INC)


def fakepapi(b):
    o = b.objects([(os.path.join(H, "rt/fakepapi.c"), CC, ["-O1", "-fPIC", "-w"])])
    return b.link("libfakepapi.so", o, CC, [], shared=True)


def t_instr(agg):
    def f(b):
        fakepapi(b)
        return simple(b, "c06" if agg else "c05", "rt/c_instr.cpp", rglob("arg-capture-io/src") + rglob("rtl/src"), RTL_INC,
                      cdefs=["-DMODE_AGG=%d" % agg])
    return f


TSAN = ["-fsanitize=thread", "-fno-omit-frame-pointer"]


def t_instr_mt(b):
    o = b.objects([(os.path.join(H, "rt/fakepapi_mt.c"), CC, ["-O1", "-fPIC", "-w"])])
    b.link("libfakepapi_mt.so", o, CC, [], shared=True)
    fl = BASE + TSAN + RTL_INC + ["-DNDEBUG"]  # the debug output shares the format flags of std::cout
    objs = b.objects([(s, CXX, fl) for s in rglob("arg-capture-io/src") + rglob("rtl/src") + [os.path.join(H, "rt/c_instr_mt.cpp")]])
    return b.link("c23", objs, CXX, TSAN + ["-rdynamic", "-lpthread", "-ldl"])


def t_rtl_math(b):
    return simple(b, "c07", "rt/c_rtl_math.cpp", [], RTL_INC, csrc=["rt/rtl_c.c"])


def t_graph(name, h):
    def f(b):
        return simple(b, name, h, rglob("sdfg/src/graph"), SDFG_INC)
    return f


def t_helpers(b):
    return simple(b, "c11", "rt/c_helpers.cpp", [], SDFG_INC)


RPC_SRC = ["rpc/src/passes/rpc/rpc_context.cpp", "rpc/src/passes/rpc/daisytuner_rpc_context.cpp"]


def t_rpc_config(auth):
    def f(b):
        return simple(b, "c13" if auth else "c12", "rt/c_rpc_config.cpp", [os.path.join(REPO, s) for s in RPC_SRC], RPC_INC,
                      cdefs=["-DAUTH=%d" % auth])
    return f


def t_rpc_http(b):
    return simple(b, "c14", "rt/c_rpc_http.cpp", rglob("rpc/src/util"), RPC_INC, libs=["-lcurl"])


# ---------------------------------------------------------------- the compiler itself (sdfg, opt)
COMPAT = os.path.join(VERIF, "compat")
S_SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
S_INC = ["-I" + COMPAT, "-I%s/sdfg/include" % REPO, "-I%s/opt/include" % REPO] + CAP_INC
S_FL = BASE + ["-fPIC"] + S_SAN + S_INC
S_LIBS = ["/usr/lib/x86_64-linux-gnu/libisl.so.23", "-lgmpxx", "-lgmp", "-lpthread", "-ldl"]


def cmake_sources(d):
    """SOURCE_FILES of d/CMakeLists.txt plus any other .cpp of d/src that exists (a change may move code into a new file)."""
    return rglob(d + "/src")


def s_pch(b):
    deps = [os.path.join(r, f) for r, _, fs in os.walk(COMPAT) for f in fs if f.endswith(".h")]
    return b._compile(os.path.join(H, "sdfg/pch.h"), CXX, S_FL + ["-fpch-instantiate-templates"], "pch", deps)


def s_lib(b):
    pch = s_pch(b)
    fl = S_FL + ["-include-pch", pch]
    srcs = cmake_sources("sdfg") + cmake_sources("opt") + rglob("arg-capture-io/src")
    srcs.sort(key=lambda p: -os.path.getsize(p))
    items = [(s, CXX, fl, "o", (pch,)) for s in srcs]
    items.append((os.path.join(COMPAT, "symengine/symengine_shim.cpp"), CXX, fl, "o", (pch,)))
    objs = b.objects(items)
    return b.link("libsdfgall.so", objs, CXX, S_SAN + ["-fuse-ld=lld"] + S_LIBS, shared=True)


def s_check(name, harness, cdefs=(), extra=()):
    def f(b):
        lib = s_lib(b)
        pch = s_pch(b)
        fl = S_FL + ["-include-pch", pch] + list(cdefs)
        items = [(os.path.join(H, s), CXX, fl, "o", (pch,)) for s in [harness] + list(extra)]
        return b.link(name, b.objects(items), CXX, S_SAN + ["-fuse-ld=lld", "-rdynamic", lib, "-Wl,-rpath," + os.path.dirname(lib)] + S_LIBS)
    return f


FAKEPAPI = {"FAKEPAPI": os.path.join(VERIF, "build", "bin", "libfakepapi.so")}
CHECKS = {
    "C01": dict(build=t_capture_io),
    "C02": dict(build=t_index),
    "C03": dict(build=t_base64),
    "C04": dict(build=t_rtl_capture),
    "C05": dict(build=t_instr(0), env=FAKEPAPI),
    "C06": dict(build=t_instr(1), env=FAKEPAPI),
    "C23": dict(build=t_instr_mt, env={"FAKEPAPI": os.path.join(VERIF, "build", "bin", "libfakepapi_mt.so"),
                                       "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_bugs=1"}),
    "C07": dict(build=t_rtl_math),
    "C08": dict(build=t_graph("c08", "rt/c_graph_trav.cpp")),
    "C09": dict(build=t_graph("c09", "rt/c_graph_dom.cpp")),
    "C10": dict(build=t_graph("c10", "rt/c_graph_paths.cpp")),
    "C11": dict(build=t_helpers),
    "C12": dict(build=t_rpc_config(0)),
    "C13": dict(build=t_rpc_config(1)),
    "C14": dict(build=t_rpc_http),
}

S_ENV = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=0:quarantine_size_mb=16"}


def sd(pid, harness, cdefs=(), extra=()):
    CHECKS[pid] = dict(build=s_check(pid.lower(), "sdfg/" + harness, ['-DCHECK_ID="%s"' % pid] + list(cdefs), ["sdfg/" + e for e in extra]), env=S_ENV)


sd("C15", "s_passes.cpp", ["-DGROUP=1"])
sd("C16", "s_passes.cpp", ["-DGROUP=2"])
sd("C17", "s_passes.cpp", ["-DGROUP=3"])
sd("C18", "s_passes.cpp", ["-DGROUP=4"])
sd("C19", "s_serial.cpp")
sd("C20", "s_codegen.cpp")
sd("C21", "s_symbolic.cpp")


# ---------------------------------------------------------------- the Python front end: bindings + docc package
PYBIND = os.path.join(VERIF, "compat_py")
PYROOT = os.path.join(VERIF, "build", "pyfront")


def s_pyfront(b):
    import shutil
    lib = s_lib(b)
    pch = s_pch(b)
    bd = os.path.join(REPO, "python/bindings")
    inc = ["-I" + PYBIND, "-I" + bd, "-I%s/rpc/include" % REPO, "-I/usr/include/python3.12"]
    fl = S_FL + ["-include-pch", pch] + inc
    items = [(s, CXX, fl, "o", (pch,)) for s in rglob("python/bindings") + rglob("rpc/src")]
    objs = b.objects(items)
    rt = []
    rfl = ["-std=c++20", "-O1", "-w", "-fPIC"] + RTL_INC
    for s in rglob("rtl/src") + rglob("arg-capture-io/src"):
        rt.append((s, CXX, rfl))
    robjs = b.objects(rt)
    blas = b.objects([(os.path.join(H, "py/blas.c"), CC, ["-O1", "-fPIC", "-w", "-I" + os.path.join(H, "py")])])
    mod = b.link("_sdfg.so", objs, CXX, S_SAN + ["-fuse-ld=lld", lib, "-Wl,-rpath," + os.path.dirname(lib), "-lcurl"] + S_LIBS, shared=True)
    d_rtl = b.link("libdaisy_rtl.so", robjs, CXX, ["-ldl", "-lpthread"], shared=True)
    d_aci = b.link("libarg_capture_io.so", b.objects([(os.path.join(H, "py/empty.c"), CC, ["-fPIC"])]), CC, [], shared=True)
    d_blas = b.link("libblas.so", blas, CC, ["-lm"], shared=True)
    # The package layout the module expects: docc/sdfg/_sdfg.so, docc/lib, docc/include
    def put(src, *dst):
        p = os.path.join(PYROOT, *dst)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        data = open(src, "rb").read()
        if not os.path.exists(p) or open(p, "rb").read() != data:
            with open(p + ".new", "wb") as f:
                f.write(data)
            os.replace(p + ".new", p)
        keep.add(p)
    keep = set()
    for s in rglob("python/docc", "*.py"):
        put(s, os.path.relpath(s, os.path.join(REPO, "python")))
    put(mod, "docc/sdfg/_sdfg.so")
    put(d_rtl, "docc/lib/libdaisy_rtl.so")
    put(d_aci, "docc/lib/libarg_capture_io.so")
    put(d_aci, "docc/lib/libomp.so")
    put(d_blas, "docc/lib/libblas.so")
    for s in rglob("rtl/include", "*.h") + rglob("arg-capture-io/include", "*.h"):
        r = os.path.relpath(s, REPO).split("/include/", 1)[1]
        put(s, "docc/include", r)
    put(os.path.join(H, "py/cblas.h"), "docc/include/cblas.h")
    put(os.path.join(H, "py/ml_dtypes.py"), "ml_dtypes.py")
    for r, _, fs in os.walk(PYROOT):
        for f in fs:
            if os.path.join(r, f) not in keep and "__pycache__" not in r:
                os.unlink(os.path.join(r, f))
    return mod


def py_env():
    rt = subprocess.run([CXX, "-print-file-name=libclang_rt.asan-x86_64.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
    lib = os.path.join(PYROOT, "docc", "lib")
    return {
        "PATH": os.path.join(H, "py/bin") + ":" + os.environ.get("PATH", "/usr/bin:/bin"),
        "PYTHONPATH": PYROOT, "PYTHONDONTWRITEBYTECODE": "1", "LD_PRELOAD": rt, "LIBRARY_PATH": lib,
        "LD_LIBRARY_PATH": lib + ":" + os.path.join(VERIF, "build", "bin"),
        "ASAN_OPTIONS": "detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0",
    }


CHECKS["C22"] = dict(build=s_pyfront, env=py_env, cmd=["python3-vt", os.path.join(H, "py/native_fuzz.py")])
