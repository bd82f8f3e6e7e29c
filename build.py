#!/usr/bin/env python3
"""Builds what a check needs from the tree under test.

The library and the programs of $REPO/gridutils (default /repo) are compiled
out of tree, into $BUILD (default <here>/build), under a name derived from the
contents of all the sources, so that a change in the tree can not be missed
and nothing is ever written in the tree.
"""
import fcntl, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.realpath(__file__))
REPO = os.path.realpath(os.environ.get("REPO", "/repo"))
BUILD = os.path.realpath(os.environ.get("BUILD", os.path.join(HERE, "build")))
SRC = os.path.join(REPO, "gridutils")
PROGRAMS = ["getbound", "getnodes", "insertgrid", "setbathy", "subgrid", "xy2ij"]
NOTLIB = set(PROGRAMS + ["gridbathy"])
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=function", "-fno-sanitize-recover=all"]
CFLAGS_SAN = ["-g", "-O1", "-w", "-ftrivial-auto-var-init=pattern", "-fno-omit-frame-pointer", "-fexceptions"] + SAN
CXXFLAGS = ["-std=c++17", "-g", "-O1", "-Wall", "-Wno-unused-function"]
CFLAGS_PLAIN = ["-g", "-O2", "-w", "-ftrivial-auto-var-init=pattern"]


def sha(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(os.path.basename(p).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def run(cmd, log):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        log.append("$ " + " ".join(cmd) + "\n" + p.stdout)
    return p.returncode == 0


def fail(log):
    sys.stderr.write("build failed\n" + "\n".join(log) + "\n")
    sys.exit(2)


def prune(prefix, keep):
    now = os.stat(BUILD).st_mtime
    ents = [e for e in os.listdir(BUILD) if e.startswith(prefix) and e not in keep]
    ents.sort(key=lambda e: os.stat(os.path.join(BUILD, e)).st_mtime)
    for e in ents[:-2] if len(ents) > 2 else []:
        p = os.path.join(BUILD, e)
        if os.path.isdir(p):
            shutil.rmtree(p, ignore_errors=True)
        else:
            os.unlink(p)


def sources():
    if not os.path.isdir(SRC):
        fail(["no " + SRC])
    cs = sorted(f for f in os.listdir(SRC) if f.endswith(".c"))
    hs = [f for f in os.listdir(SRC) if f.endswith(".h") and f != "gridutilsconfig.h"]
    return cs, hs


def build_lib():
    cs, hs = sources()
    stubs = os.path.join(HERE, "stubs")
    stubfiles = [os.path.join(stubs, f) for f in sorted(os.listdir(stubs))]
    key = sha([os.path.join(SRC, f) for f in cs + hs] + stubfiles, repr([CFLAGS_SAN, CFLAGS_PLAIN]))
    name = "lib-" + key
    out = os.path.join(BUILD, name)
    if os.path.exists(os.path.join(out, "done")):
        os.utime(out)
        return out
    tmp = out + ".tmp"
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.rmtree(out, ignore_errors=True)
    for d in ("obj", "obj-asan", "bin", "bin-asan"):
        os.makedirs(os.path.join(tmp, d))
    log = []
    lib = [f[:-2] for f in cs if f[:-2] not in NOTLIB and f != "gridaverager.c"]
    jobs = []
    for f in cs:
        b = f[:-2]
        inc = ["-I" + SRC] + (["-I" + stubs] if b == "gridbathy" else [])
        src = os.path.join(SRC, f)
        jobs.append(["clang"] + CFLAGS_SAN + inc + ["-c", src, "-o", os.path.join(tmp, "obj-asan", b + ".o")])
        jobs.append(["gcc"] + CFLAGS_PLAIN + inc + ["-c", src, "-o", os.path.join(tmp, "obj", b + ".o")])
    jobs.append(["clang"] + CFLAGS_SAN + ["-I" + stubs, "-c", os.path.join(stubs, "interp.c"), "-o", os.path.join(tmp, "obj-asan", "_interp.o")])
    jobs.append(["gcc"] + CFLAGS_PLAIN + ["-I" + stubs, "-c", os.path.join(stubs, "interp.c"), "-o", os.path.join(tmp, "obj", "_interp.o")])
    with ThreadPoolExecutor(8) as ex:
        if not all(list(ex.map(lambda c: run(c, log), jobs))):
            fail(log)
    jobs = []
    for d, o, cc in (("bin", "obj", ["gcc"]), ("bin-asan", "obj-asan", ["clang"] + SAN)):
        libo = [os.path.join(tmp, o, b + ".o") for b in lib]
        for p in PROGRAMS:
            jobs.append(cc + ["-o", os.path.join(tmp, d, p), os.path.join(tmp, o, p + ".o")] + libo + ["-lm"])
        jobs.append(cc + ["-o", os.path.join(tmp, d, "gridbathy")] + [os.path.join(tmp, o, b + ".o") for b in ("gridbathy", "gridaverager", "_interp")] + libo + ["-lm"])
    # the stand-alone program of kdtree.c (only C31 depends on it)
    for d, cc in (("bin", ["gcc"] + CFLAGS_PLAIN), ("bin-asan", ["clang"] + CFLAGS_SAN)):
        run(cc + ["-DSTANDALONE", "-I" + SRC, os.path.join(SRC, "kdtree.c"), "-o", os.path.join(tmp, d, "kd"), "-lm"], [])
    jobs.append(["ar", "crs", os.path.join(tmp, "libgu-asan.a")] + [os.path.join(tmp, "obj-asan", b + ".o") for b in lib + ["gridaverager"]])
    with ThreadPoolExecutor(8) as ex:
        if not all(list(ex.map(lambda c: run(c, log), jobs))):
            fail(log)
    open(os.path.join(tmp, "done"), "w").close()
    os.rename(tmp, out)
    prune("lib-", {name})
    return out


def build_engine():
    """objects that do not depend on the property (but on headers of the tree)"""
    pass


def build_prop(pid, libdir):
    eng = os.path.join(HERE, "engine")
    src = os.path.join(HERE, "props", pid.lower() + ".cpp")
    engf = [os.path.join(eng, f) for f in sorted(os.listdir(eng))]
    cs, hs = sources()
    ekey = sha(engf + [os.path.join(SRC, f) for f in hs], repr([SAN, CXXFLAGS]))
    eobj = os.path.join(BUILD, "engine-" + ekey + ".o")
    key = sha([src], os.path.basename(libdir) + ekey)
    exe = os.path.join(BUILD, "prop-%s-%s" % (pid, key))
    if os.path.exists(exe):
        os.utime(exe)
        return exe
    log = []
    jobs = []
    pobj = os.path.join(BUILD, "obj-%s-%s.o" % (pid, sha([src], ekey)))
    for o, c in ((eobj, os.path.join(eng, "engine.cpp")), (pobj, src)):
        if not os.path.exists(o):
            jobs.append((o, ["clang++"] + CXXFLAGS + SAN + ["-I" + SRC, "-I" + eng, "-c", c, "-o", o + ".%s.tmp.o" % pid]))
        else:
            os.utime(o)
    with ThreadPoolExecutor(2) as ex:
        if not all(list(ex.map(lambda j: run(j[1], log), jobs))):
            fail(log)
    for o, c in jobs:
        os.rename(o + ".%s.tmp.o" % pid, o)
    if not run(["clang++"] + SAN + ["-o", exe + ".tmp", pobj, eobj, os.path.join(libdir, "libgu-asan.a"), "-lm"], log):
        fail(log)
    os.rename(exe + ".tmp", exe)
    prune("prop-%s-" % pid, {os.path.basename(exe)})
    prune("obj-%s-" % pid, {os.path.basename(pobj)})
    prune("engine-", {os.path.basename(eobj)})
    return exe


def main(pids):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        lib = build_lib()
    exes = {}

    def one(p):
        exes[p] = build_prop(p, lib)
    if len(pids) == 1:
        with open(os.path.join(BUILD, "lock-" + pids[0]), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            one(pids[0])
    else:
        # first the engine, then the properties in parallel
        one(pids[0])
        with ThreadPoolExecutor(6) as ex:
            list(ex.map(one, pids[1:]))
    return lib, exes


if __name__ == "__main__":
    pids = sys.argv[1:]
    if not pids:
        pids = sorted(f[:-4].upper() for f in os.listdir(os.path.join(HERE, "props")) if f.endswith(".cpp"))
    lib, exes = main(pids)
    print(lib)
    for p in pids:
        print(p, exes[p])
