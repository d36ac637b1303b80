#!/usr/bin/env python3
"""Builds the simulator binary from /repo's working tree: instrumented repository code + runtime + workloads.

Objects are cached in /verif/build/obj under a hash of command line, source and every header it may include, so that a
check rebuilds exactly what changed. Prints the path of the binary."""
import concurrent.futures, hashlib, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
CXX = "clang++-18"
SH = os.path.join(VERIF, "sim/shims")
COMMON = ["-std=c++11", "-stdlib=libc++", "-w", "-g1", "-fno-pie", "-fno-strict-aliasing", "-fwrapv", "-fno-delete-null-pointer-checks"]
SUT = ["-O1", "-fopenmp", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0",
       "-fno-builtin-memcpy", "-fno-builtin-memset", "-fno-builtin-memmove",
       # what the optimiser could drop or bend stops the run instead: indices outside arrays, division by zero, shifts by too much, missing results
       "-fsanitize=bounds,integer-divide-by-zero,shift-exponent,return,unreachable,vla-bound", "-fsanitize-trap=bounds,integer-divide-by-zero,shift-exponent,return,unreachable,vla-bound",
       "-I", SH, "-include", os.path.join(SH, "compat.h")]
INC = {
    "basiclog": ["basiclog", "basicsys"],
    "basicsys": ["basiclog", "basicsys"],
    "basicmath": ["basiclog", "basicsys", "basicmath"],
    "basicimg": ["basiclog", "basicsys", "basicmath", "basicimg"],
}
SPECIAL = {
    "helper.cpp": ["-include", SH + "/pre_helper.h"],
    "sys_strcombine.cpp": ["-include", SH + "/pre_sys_strcombine.h"],
    "sys_json.cpp": ["-include", SH + "/pre_sys_json.h"],
    "img_draw_macos_impl.cpp": ["-include", SH + "/pre_img_draw_macos_impl.h"],
    "sys_path.cpp": ["-DfileNames=filePaths"],
}
GROUPS = {
    "base": [("basiclog", None), ("basicsys", None), ("basicmath", None)],
    "img": [("basiclog", None), ("basicsys", None), ("basicmath", None), ("basicimg", None)],
}
# the parts of basicimg that need OpenCV's or the window system's libraries are compiled but never called
IMG_SKIP = {"img_draw_macos_impl.cpp", "img_draw_win_impl.cpp"}


def sh(*a):
    h = hashlib.sha256()
    for x in a:
        h.update(x if isinstance(x, bytes) else str(x).encode()); h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(d, exts):
    out = []
    for base, dirs, names in os.walk(d):
        dirs.sort()
        for n in sorted(names):
            if n.endswith(exts):
                p = os.path.join(base, n); out.append(p.encode()); out.append(read(p))
    return sh(*out)


def repo_units(group):
    units = []
    for mod, only in GROUPS[group]:
        src = f"{REPO}/{mod}/src"
        flags = COMMON + SUT + ["-I", f"{src}/stdafx"]
        for m in INC[mod]:
            flags += ["-I", f"{REPO}/{m}/include"]
        if mod == "basicmath":
            flags += ["-Dbasicsys_enable_mkl"]  # products and convolutions of matrices: sim/shims/mkl.h
        if mod == "basicimg":
            flags += ["-fms-extensions", "-isystem", f"{REPO}/basic_thrid_libs/lib_opencv/341/include"]
        dep = sh(*[tree_hash(f"{REPO}/{m}/include", (".h", ".hpp", ".inl")) for m in INC[mod]], tree_hash(src, (".h", ".hpp", ".inl")), tree_hash(SH, ".h"))
        for n in sorted(os.listdir(src)):
            if not n.endswith(".cpp") or n in IMG_SKIP:
                continue
            units.append((f"{src}/{n}", flags + SPECIAL.get(n, []), dep))
    return units


def own_units(group):
    S = f"{VERIF}/sim"
    rt_dep = sh(tree_hash(f"{S}/rt", ".h"))
    units = []
    for n in sorted(os.listdir(f"{S}/rt")):
        if n.endswith(".cpp"):
            units.append((f"{S}/rt/{n}", ["-std=c++17", "-stdlib=libc++", "-w", "-g", "-O2", "-fno-pie", "-faligned-allocation"], rt_dep))
    dep = sh(rt_dep, tree_hash(f"{S}/props", ".h"), tree_hash(SH, ".h"), *[tree_hash(f"{REPO}/{m}/include", (".h", ".hpp", ".inl")) for m in INC["basicimg"]])
    flags = COMMON + ["-O1", "-I", SH, "-include", SH + "/compat.h", "-I", f"{S}/rt", "-I", f"{S}/props", "-fms-extensions"]
    for m in INC["basicimg" if group == "img" else "basicmath"]:
        flags += ["-I", f"{REPO}/{m}/include"]
    if group == "img":
        flags += ["-isystem", f"{REPO}/basic_thrid_libs/lib_opencv/341/include"]
    for n in sorted(os.listdir(f"{S}/props")):
        if n.endswith(".cpp") and n.startswith("img_" if group == "img" else "base_"):
            # templates of the repository are checked where they are instantiated
            units.append((f"{S}/props/{n}", flags + SUT[2:10] if n.endswith("_sut.cpp") else flags, dep))
    return units


def compile_one(u):
    src, flags, dep = u
    key = sh(CXX, *flags, src, read(src), dep)
    obj = f"{BUILD}/obj/{key}.o"
    if os.path.exists(obj):
        return src, obj, None
    tmp = f"{obj}.{os.getpid()}.tmp"
    r = subprocess.run([CXX, "-c", src, "-o", tmp] + flags, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return src, None, r.stdout
    os.rename(tmp, obj)
    return src, obj, None


def build(group):
    os.makedirs(f"{BUILD}/obj", exist_ok=True)
    ru, ou = repo_units(group), own_units(group)
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        res = list(ex.map(compile_one, ru + ou))
    bad = [r for r in res if r[1] is None]
    if bad:
        for s, _, e in bad:
            sys.stderr.write(f"--- {s}\n{e}\n")
        raise SystemExit("build failed")
    objs = [r[1] for r in res]
    key = sh(*[os.path.basename(o) for o in objs])
    exe = f"{BUILD}/sim_{group}_{key}"
    if not os.path.exists(exe):
        tmp = f"{exe}.{os.getpid()}.tmp"
        cmd = [CXX, "-o", tmp, "-no-pie", "-fuse-ld=lld", "-nostdlib++", "-Wl,--unresolved-symbols=ignore-all"] + objs + ["-l:libc++.a", "-l:libc++abi.a", "-lpthread", "-ldl", "-lm"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise SystemExit("link failed\n" + r.stdout)
        os.rename(tmp, exe)
    return exe


def prune(keep):
    """Keep the cache small."""
    try:
        objs = sorted((os.path.getmtime(p), p) for p in (os.path.join(f"{BUILD}/obj", n) for n in os.listdir(f"{BUILD}/obj")))
        for _, p in objs[:-600]:
            os.remove(p)
        exes = sorted((os.path.getmtime(p), p) for p in (os.path.join(BUILD, n) for n in os.listdir(BUILD) if n.startswith("sim_")))
        for _, p in exes[:-12]:
            if p != keep:
                os.remove(p)
    except OSError:
        pass


if __name__ == "__main__":
    for g in sys.argv[1:] or ["base", "img"]:
        e = build(g); prune(e); print(e)
