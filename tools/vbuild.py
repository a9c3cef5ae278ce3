"""Builds harness binaries from /repo's current working tree.

Objects are cached by content (source, every header it read, flags, tools), so
a rebuild only recompiles what changed; with an empty cache everything is
compiled from scratch.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shlex
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CACHE = os.path.join(BUILD, "cache")
CLANG = "/usr/bin/clang++-18"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

GEN = f"{VERIF}/engine/include_gen"
COMP_DIR = {"lal": "vendored/libalgebra_lite"}
COMP_DEF = {
    "platform": "RPY_COMPILING_PLATFORM", "scalars": "RPY_COMPILING_SCALARS",
    "intervals": "RPY_COMPILING_INTERVALS", "algebra": "RPY_COMPILING_ALGEBRA",
    "streams": "RPY_COMPILING_STREAMS",
}
DEFS = ["-DNDEBUG", "-DNOMINMAX=1", "-DBOOST_SYSTEM_DYN_LINK", "-DBOOST_SYSTEM_NO_LIB",
        "-DBOOST_URL_DYN_LINK", "-DBOOST_URL_NO_LIB"]
INCS = [f"-I{REPO}/{c}/include" for c in
        ("core", "platform", "scalars", "intervals", "algebra", "streams")]
INCS += [f"-I{GEN}", f"-I{REPO}/vendored/libalgebra_lite/..", f"-I{VERIF}/engine/include",
         f"-I{VERIF}/harness", "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/opus",
         "-isystem", "/opt/vp/cmake/include", "-idirafter", REPO]
BASE = ["-std=gnu++17", "-O1", "-w", "-ffp-contract=off", "-fno-vectorize", "-fno-slp-vectorize"]
QINCS = [f"-I{VERIF}/engine/gmp", f"-I{BUILD}/gmpgen"]
COV = ["-fsanitize-coverage=func,trace-pc-guard"]
LIBS = ["-lboost_url", "-lsndfile", "-lgmp", "-lOpenCL", "-lpthread", "-ldl"]
PCH_TEXT = """
#include <algorithm>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <unordered_map>
#include <functional>
#include <boost/container/flat_map.hpp>
#include <boost/multiprecision/gmp.hpp>
#include <cereal/cereal.hpp>
#include <cereal/access.hpp>
#include <cereal/specialize.hpp>
#include <cereal/types/base_class.hpp>
#include <cereal/types/optional.hpp>
#include <cereal/types/polymorphic.hpp>
#include <cereal/types/string.hpp>
#include <cereal/types/utility.hpp>
#include <cereal/types/vector.hpp>
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/archives/portable_binary.hpp>
#include <cereal/archives/xml.hpp>
"""

_hash_memo = {}
_lock = threading.Lock()


class BuildError(Exception):
    pass


def fhash(p):
    try:
        st = os.stat(p)
    except OSError:
        return "absent"
    k = (p, st.st_mtime_ns, st.st_size)
    h = _hash_memo.get(k)
    if h is None:
        with open(p, "rb") as f:
            h = hashlib.sha256(f.read()).hexdigest()[:24]
        _hash_memo[k] = h
    return h


def sources(comp):
    """Source files of a component: the recorded list, plus any new source
    file its CMakeLists mentions."""
    rec = json.load(open(f"{VERIF}/tools/sources.json"))[comp]
    out = [f for f in rec if os.path.exists(f"{REPO}/{f}")]
    d = COMP_DIR.get(comp, comp)
    cm = ""
    for c in glob.glob(f"{REPO}/{d}/**/CMakeLists.txt", recursive=True):
        cm += re.sub(r"#.*", "", open(c).read())
    known = set(json.load(open(f"{VERIF}/tools/known_other.json")))
    for f in glob.glob(f"{REPO}/{d}/**/*.cpp", recursive=True):
        r = os.path.relpath(f, REPO)
        if r in rec or r in known or os.path.basename(r) not in cm:
            continue
        out.append(r)
    return out


def run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode:
        raise BuildError(" ".join(map(shlex.quote, cmd))[:3000] + "\n" + r.stdout[-2000:] + r.stderr[-6000:])
    return r


def cached(key, srcs, produce, ext=".o"):
    """produce(out, depfile) makes `out`; reuse by content of recorded deps."""
    os.makedirs(CACHE, exist_ok=True)
    kh = hashlib.sha256(key.encode()).hexdigest()[:32]
    man = f"{CACHE}/{kh}.json"
    try:
        ents = json.load(open(man))
    except (OSError, ValueError):
        ents = []
    for e in ents:
        if os.path.exists(e["out"]) and all(fhash(p) == h for p, h in e["deps"].items()):
            return e["out"]
    tmp = f"{CACHE}/{kh}.{os.getpid()}.{threading.get_ident()}{ext}"
    dep = tmp + ".d"
    produce(tmp, dep)
    deps = list(srcs)
    if os.path.exists(dep):
        t = open(dep).read().replace("\\\n", " ")
        deps += [x for x in t.split(":", 1)[1].split() if x]
        os.remove(dep)
    deps = {os.path.abspath(p): fhash(p) for p in deps}
    oh = hashlib.sha256(json.dumps(sorted(deps.items())).encode()).hexdigest()[:16]
    out = f"{CACHE}/{kh}-{oh}{ext}"
    os.replace(tmp, out)
    ents = [e for e in ents if e["out"] != out][-5:] + [{"out": out, "deps": deps}]
    with open(man + f".{os.getpid()}.{threading.get_ident()}", "w") as f:
        json.dump(ents, f)
    os.replace(f.name, man)
    return out


def plugin():
    src = f"{VERIF}/engine/pass/SymPass.cpp"

    def go(out, dep):
        flags = subprocess.check_output(["/usr/bin/llvm-config-18", "--cxxflags"], text=True).split()
        run([CLANG, "-shared", "-fPIC", "-O1", "-w", *flags, src, "-o", out])

    return cached("plugin", [src], go, ".so")


def rt_obj(name):
    src = f"{VERIF}/engine/rt/{name}.cpp"
    return cached("rt:" + name, [src], lambda o, d: run(
        ["/usr/bin/g++", "-std=gnu++17", "-O2", "-w", f"-I{VERIF}/engine/include", "-MD", "-MF", d, "-c", src, "-o", o]))


def gmpgen():
    """the patched copy of Boost's gmp.hpp"""
    import patch_boost
    out = f"{BUILD}/gmpgen/boost/multiprecision/gmp.hpp"
    os.makedirs(os.path.dirname(out), exist_ok=True)
    t = patch_boost.patch(open(patch_boost.SRC).read())
    if not os.path.exists(out) or open(out).read() != t:
        tmp = f"{out}.{os.getpid()}"
        with open(tmp, "w") as f:
            f.write(t)
        os.replace(tmp, out)


_pch = {}


def pch(extra):
    k = tuple(extra)
    with _lock:
        if k not in _pch:
            hdr = f"{BUILD}/pch.hxx"
            os.makedirs(BUILD, exist_ok=True)
            if not os.path.exists(hdr) or open(hdr).read() != PCH_TEXT:
                with open(hdr, "w") as f:
                    f.write(PCH_TEXT)
            _pch[k] = cached("pch:" + repr((BASE, DEFS, INCS, k)), [hdr], lambda o, d: run(
                [CLANG, *BASE, *DEFS, *extra, *INCS, "-MD", "-MF", d, "-x", "c++-header", hdr, "-o", o]), ".pch")
        return _pch[k]


def compile_one(src, comp, sym, defs=(), opt="-O1", use_pch=True, q=False, cov=False):
    base = [b for b in BASE if b != "-O1"] + [opt]
    extra = []
    if comp:
        d = COMP_DIR.get(comp, comp)
        if comp in COMP_DEF:
            extra += ["-D" + COMP_DEF[comp]]
        if comp != "lal":
            extra += [f"-I{REPO}/{d}/src", f"-I{REPO}/{d}/include/roughpy/{d}"]
    path = src if os.path.isabs(src) else f"{REPO}/{src}"
    flags = [*base, *DEFS, *(QINCS if q else []), *INCS, *extra, *defs, *(COV if cov else [])]
    pl = background(plugin).result() if sym else ""
    ph = pch(QINCS if q else []) if use_pch and opt == "-O1" else None

    def go(out, dep):
        cmd = [CLANG, *flags]
        if ph:
            cmd += ["-include-pch", ph]
        if sym:
            cmd += ["-fpass-plugin=" + pl]
        run(cmd + ["-MD", "-MF", dep, "-c", path, "-o", out])

    return cached(repr((path, flags, bool(sym), os.path.basename(pl), os.path.basename(ph or ""))), [path], go)


_bg = {}


def background(fn, *args):
    k = (fn.__name__, args)
    with _lock:
        if k not in _bg:
            f = _bg[k] = cf.Future()

            def go():
                try:
                    f.set_result(fn(*args))
                except BaseException as e:
                    f.set_exception(e)

            threading.Thread(target=go, daemon=True).start()
        return _bg[k]


CLOSURE = f"{VERIF}/tools/closure.json"


def build(name, harness, sym=(), native=(), defs=(), mode="sym", sym_files=(), native_files=(), libs=(),
          exclude=(), lazy=("platform", "lal"), q=False, native_harness=False):
    """mode 'sym': instrumented + runtime; 'replay': the plain program.
    Components in `lazy` are linked like static libraries; the list of files
    they contribute is recorded in closure.json so that the others need not be
    compiled (all are, if the recorded list does not link)."""
    clo = json.load(open(CLOSURE)) if os.path.exists(CLOSURE) else {}
    lz = [c for c in lazy if c not in sym and c not in native]
    symq = q and mode == "sym"
    if symq:
        gmpgen()
    background(rt_obj, "symrt" if mode == "sym" else "replay")
    if mode == "sym" and (sym or sym_files or not native_harness):
        background(plugin)
    pch(QINCS if symq else [])
    key = name
    cfg = (symq, native_harness)
    if lz and key in clo and not os.environ.get("VERIF_RECORD"):
        try:
            return _build(name, harness, sym, native, defs, mode, sym_files,
                          list(native_files) + clo[key], libs, exclude, (), cfg)
        except BuildError as e:
            if "undefined reference" not in str(e):
                raise
    return _build(name, harness, sym, native, defs, mode, sym_files, native_files, libs, exclude, lz, cfg)


def _build(name, harness, sym, native, defs, mode, sym_files, native_files, libs, exclude, lz, cfg):
    jobs = []
    symq, native_harness = cfg
    hs = harness if isinstance(harness, (list, tuple)) else [harness]
    for h in hs:
        jobs.append((f"{VERIF}/harness/{h}", None, mode == "sym" and not native_harness, tuple(defs)))

    def owner(f):
        for c in ("platform", "scalars", "intervals", "algebra", "streams"):
            if f.startswith(c + "/"):
                return c
        return "lal" if f.startswith("vendored/libalgebra_lite") else None

    seen = set()

    def add(f, comp, instr, group):
        if f not in seen and f not in exclude and os.path.exists(f"{REPO}/{f}"):
            seen.add(f)
            (group).append((f, comp, instr, ()))

    lazyjobs = []
    for f in sym_files:
        add(f, owner(f), mode == "sym", jobs)
    for c in sym:
        for f in sources(c):
            add(f, c, mode == "sym", jobs)
    for f in native_files:
        add(f, owner(f), False, jobs)
    for c in native:
        for f in sources(c):
            add(f, c, False, jobs)
    for c in lz:
        for f in sources(c):
            add(f, c, False, lazyjobs)
    alljobs = jobs + lazyjobs
    # biggest first
    size = lambda j: -os.path.getsize(j[0] if os.path.isabs(j[0]) else f"{REPO}/{j[0]}")
    order = sorted(range(len(alljobs)), key=lambda i: (0 if "lite_context" in alljobs[i][0] else 1, size(alljobs[i])))
    objs = [None] * len(alljobs)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(compile_one, *alljobs[i], q=symq,
                          cov=symq and not alljobs[i][2] and not os.path.isabs(alljobs[i][0])): i for i in order}
        rt = background(rt_obj, "symrt" if mode == "sym" else "replay")
        for f in cf.as_completed(futs):
            objs[futs[f]] = f.result()
        rto = rt.result()
    os.makedirs(f"{BUILD}/bin", exist_ok=True)
    exe = f"{BUILD}/bin/{name}.{mode}"
    lk = list(LIBS) if (sym or native or sym_files or native_files or lz) else []
    if "-lgmp" not in lk:
        lk.append("-lgmp")
    if mode == "sym":
        lk.append("-lz3")
    pre, post = objs[:len(jobs)], []
    if lazyjobs:
        lo = objs[len(jobs):]
        post = ["-Wl,--start-lib", *lo, "-Wl,--end-lib"]
    ld = "-fuse-ld=lld" if os.path.exists("/usr/bin/ld.lld") else None
    if lazyjobs and not ld:
        ar = f"{BUILD}/bin/{name}.{mode}.a"
        if os.path.exists(ar):
            os.remove(ar)
        run(["/usr/bin/ar", "qcT", ar, *lo])
        post = [ar]
    mp = f"{BUILD}/bin/{name}.{mode}.trace"
    r = run(["/usr/bin/g++", "-no-pie", *([ld] if ld else []), "-o", exe, *pre, rto, *post, *lk, *libs,
             *(["-Wl,-t"] if lazyjobs else [])])
    if lazyjobs and os.environ.get("VERIF_RECORD"):
        txt = r.stdout + r.stderr
        used = [lazyjobs[i][0] for i, o in enumerate(lo) if os.path.basename(o) in txt]
        clo = json.load(open(CLOSURE)) if os.path.exists(CLOSURE) else {}
        clo[name] = sorted(used)
        with open(CLOSURE, "w") as f:
            json.dump(clo, f, indent=1, sort_keys=True)
    return exe
