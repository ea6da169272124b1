#!/usr/bin/env python3
"""Builds the code under test (/repo's working tree) and the harnesses, instrumented.

Content-addressed object cache: an object is reused only if the compiler flags and
the *contents* of the source file and of every non-system header it included are
unchanged (never by mtime).  Everything lives below /verif/build (git-ignored) and
is rebuilt from nothing when that directory is missing.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CACHE = os.path.join(BUILD, "cache")
LLVM = "/usr/lib/llvm-14"
CXX = "/usr/bin/clang++-14"
JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))

COMMON = ["-std=c++17", "-fPIC", "-w", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
          "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
          '-DPHASAR_BUILD_DIR="/nonexistent"', '-DPHASAR_SRC_DIR="%s"' % REPO,
          "-fno-omit-frame-pointer", "-fno-color-diagnostics"]
VARIANTS = {
    # AddressSanitizer + UndefinedBehaviorSanitizer + libstdc++ assertions
    "asan": ["-O1", "-fsanitize=address,shift,signed-integer-overflow,integer-divide-by-zero,"
             "float-cast-overflow,bool,enum,return,unreachable,bounds,null,vla-bound,builtin",
             "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    # ThreadSanitizer
    "tsan": ["-O1", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS"],
    "plain": ["-O1", "-D_GLIBCXX_ASSERTIONS"],
}
LINK = {"asan": ["-fsanitize=address,undefined"], "tsan": ["-fsanitize=thread"], "plain": []}

_hash_memo = {}
_memo_lock = threading.Lock()


def fhash(path):
    with _memo_lock:
        if path in _hash_memo:
            return _hash_memo[path]
    try:
        with open(path, "rb") as f:
            h = hashlib.sha256(f.read()).hexdigest()
    except OSError:
        h = None
    with _memo_lock:
        _hash_memo[path] = h
    return h


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p.encode() if isinstance(p, str) else p)
        h.update(b"\0")
    return h.hexdigest()


def compiler_id():
    st = os.stat(os.path.realpath(CXX))
    return "%s:%d" % (os.path.realpath(CXX), st.st_size)


def gen_config():
    """phasar-config.h from the repository's own template, as its build generates it."""
    dst = os.path.join(BUILD, "gen", "phasar", "Config")
    os.makedirs(dst, exist_ok=True)
    on = {"DYNAMIC_LOG", "BUILD_PHASAR_CLANG", "PHASAR_HAS_SQLITE"}
    src = open(os.path.join(REPO, "config.h.in")).read()
    src = src.replace("@PHASAR_CONFIG_INSTALL_DIR@", ".phasar-config/")

    def repl(m):
        return ("#define %s" % m.group(1)) if m.group(1) in on else "/* #undef %s */" % m.group(1)
    src = re.sub(r"#cmakedefine\s+(\w+)", repl, src)
    out = os.path.join(dst, "phasar-config.h")
    if not os.path.exists(out) or open(out).read() != src:
        tmp = out + ".%d" % os.getpid()
        open(tmp, "w").write(src)
        os.replace(tmp, out)


def includes():
    return ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(BUILD, "gen"),
            "-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(VERIF, "tools", "inc"),
            "-isystem", os.path.join(LLVM, "include")]


def lib_sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "lib")):
        dirs.sort()
        rel = os.path.relpath(root, REPO)
        if rel.startswith("lib/PhasarClang") or rel.startswith("lib/PhasarPass"):
            continue
        for f in sorted(files):
            if f.endswith(".cpp"):
                out.append(os.path.join(root, f))
    return out


def parse_deps(dfile):
    txt = open(dfile).read().replace("\\\n", " ")
    txt = txt.split(":", 1)[1]
    return sorted(set(txt.split()))


def compile_one(src, variant, extra=()):
    flags = COMMON + VARIANTS[variant] + list(extra) + includes()
    key = sha(compiler_id(), src, *flags)
    mandir = os.path.join(CACHE, key[:2])
    man = os.path.join(mandir, key + ".json")
    entries = []
    if os.path.exists(man):
        try:
            entries = json.load(open(man))
        except ValueError:
            entries = []
    for e in entries:
        if all(fhash(p) == h for p, h in e["deps"].items()) and os.path.exists(e["obj"]):
            return e["obj"], 0.0, None
    os.makedirs(mandir, exist_ok=True)
    t0 = time.time()
    tmp = os.path.join(mandir, "%s.%d.%d" % (key, os.getpid(), threading.get_ident()))
    cmd = [CXX] + flags + ["-MMD", "-MF", tmp + ".d", "-MT", "x", "-c", src, "-o", tmp + ".o"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        for s in (".d", ".o"):
            if os.path.exists(tmp + s):
                os.unlink(tmp + s)
        return None, time.time() - t0, "%s\n%s" % (src, r.stdout[-6000:])
    deps = {p: fhash(p) for p in parse_deps(tmp + ".d")}
    obj = os.path.join(mandir, sha(key, json.dumps(deps, sort_keys=True)) + ".o")
    os.replace(tmp + ".o", obj)
    os.unlink(tmp + ".d")
    entries = [e for e in entries if os.path.exists(e["obj"]) and e["obj"] != obj][-6:]
    entries.append({"deps": deps, "obj": obj})
    json.dump(entries, open(man + ".tmp%d" % os.getpid(), "w"))
    os.replace(man + ".tmp%d" % os.getpid(), man)
    return obj, time.time() - t0, None


class BuildError(Exception):
    pass


def compile_all(jobs, quiet=False):
    """jobs: list of (src, variant, extra) -> list of objects"""
    res = [None] * len(jobs)
    errs = []
    n = 0
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(compile_one, *j): i for i, j in enumerate(jobs)}
        for f in cf.as_completed(futs):
            obj, dt, err = f.result()
            if err:
                errs.append(err)
            if dt:
                n += 1
            res[futs[f]] = obj
    if errs:
        raise BuildError("\n".join(errs[:3]))
    return res, n


def build(harness, variant="asan", srcs=None, uselib=True, defs=(), name=None):
    """Compile harness sources (names below /verif/harness) + the library; link; return exe path."""
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True)
    gen_config()
    hs = [os.path.join(VERIF, "harness", s) for s in (srcs or [harness + ".cpp"])]
    jobs = [(s, variant, tuple(defs)) for s in hs]      # long ones first
    libs = lib_sources() if uselib else []
    jobs += [(s, variant, ()) for s in libs]
    objs, n = compile_all(jobs)
    bindir = os.path.join(BUILD, "bin")
    os.makedirs(bindir, exist_ok=True)
    lk = sha(compiler_id(), variant, *objs)[:16]
    exe = os.path.join(bindir, "%s-%s-%s" % (name or harness, variant, lk))
    if not os.path.exists(exe):
        for f in os.listdir(bindir):           # drop stale links of the same harness
            if f.startswith("%s-%s-" % (name or harness, variant)):
                try:
                    if time.time() - os.path.getmtime(os.path.join(bindir, f)) > 3600:
                        os.unlink(os.path.join(bindir, f))
                except OSError:
                    pass
        nh = len(hs)
        ar = None
        args = [CXX, "-fuse-ld=lld", "-rdynamic"] + LINK[variant] + objs[:nh]
        if libs:
            rsp = exe + ".%d.rsp" % os.getpid()
            open(rsp, "w").write("\n".join(["--start-lib"] + objs[nh:] + ["--end-lib"]))
            args += ["-Wl,@" + rsp]
        args += ["-L" + os.path.join(LLVM, "lib"), "-Wl,-rpath," + os.path.join(LLVM, "lib"),
                 "-lLLVM-14", "-lz3", "-lsqlite3", "-lpthread", "-ldl", "-lstdc++fs",
                 "-o", exe + ".tmp%d" % os.getpid()]
        r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if libs:
            os.unlink(rsp)
        if r.returncode != 0:
            raise BuildError("link %s:\n%s" % (harness, r.stdout[-4000:]))
        os.replace(exe + ".tmp%d" % os.getpid(), exe)
    return exe, {"compiled": n, "objects": len(objs), "build_s": round(time.time() - t0, 1)}


if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("harness", nargs="?")
    ap.add_argument("--variant", default="asan")
    ap.add_argument("--all", action="store_true", help="the library and every registered harness")
    a = ap.parse_args()
    try:
        if a.all:
            import props
            gen_config(); os.makedirs(CACHE, exist_ok=True)
            hs = sorted({p["harness"] for q in props.PROPS.values() for p in q["parts"]})
            compile_all([(os.path.join(VERIF, "harness", h + ".cpp"), "asan", ()) for h in hs] + [(s, "asan", ()) for s in lib_sources()])
            for h in hs:
                print(build(h)[0])
        elif a.harness:
            print(build(a.harness, a.variant))
        else:
            gen_config(); os.makedirs(CACHE, exist_ok=True)
            o, n = compile_all([(s, a.variant, ()) for s in lib_sources()])
            print(len(o), n)
    except BuildError as e:
        print(e); sys.exit(2)
