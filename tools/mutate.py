#!/usr/bin/env python3
"""Mutation analysis of the checks (a development tool; no check uses it).

mutate.py OUT.jsonl N SEED [FILE...]: makes N random one-token changes to a
copy of the sources in a scratch directory, drops those that do not compile or
fail the test script, and runs the checks on the rest until one reports a
violation. One line of OUT.jsonl per change. With GUARD=1 in the environment the changes take effect
under some condition only.
"""
import json, os, random, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
ORDER = {
    "gridnodes.c": "C01 C02 C03 C04 C16 C19 C20 C25 C26 C27 C32 C33", "gridbmap.c": "C06 C09 C07 C25", "gridkmap.c": "C08 C09 C07 C25", "gridmap.c": "C05 C07 C09 C03 C29 C06 C08", "kdtree.c": "C14 C15 C08 C25 C04 C09",
    "poly.c": "C10 C11 C12 C13 C06 C25 C29 C33", "gucommon.c": "C19 C22 C01 C32 C33 C34", "gridaverager.c": "C21 C25", "gridbathy.c": "C21 C22 C26 C30 C28", "getnodes.c": "C24 C19 C02 C01 C26 C27 C30", "getbound.c": "C10 C11 C26 C30",
    "subgrid.c": "C16 C01 C26 C30", "insertgrid.c": "C17 C26 C30", "setbathy.c": "C18 C26 C30", "xy2ij.c": "C23 C26 C30",
}
ALL = ["C%02d" % k for k in range(1, 35)]
SUB = [(r"(?<![<>=!+\-*/&|])<=(?!=)", ["<"]), (r"(?<![<>=!+\-*/&|-])<(?![<=])", ["<="]), (r">=", [">"]), (r"(?<![->])>(?![>=])", [">="]), (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
       (r"(?<![+\w(] )(?<=[\w)\]] )\+(?= [\w(])", ["-"]), (r"(?<=[\w)\]] )-(?= [\w(])", ["+"]), (r"(?<=[\w)\]] )\*(?= [\w(])", ["/"]), (r"(?<=[\w)\]] )/(?= [\w(])", ["*"]),
       (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])2(?![\w.])", ["1", "3"]), (r"(?<![\w.])0\.5(?![\w])", ["0.25"]), (r"(?<![\w.])0\.0(?![\w])", ["1.0"]), (r"(?<![\w.])2\.0(?![\w])", ["1.0"]),
       (r"(?<![\w.])1\.0(?![\w])", ["2.0"]), (r"\+\+(?=[\w\[])", ["--"]), (r"\bcontinue;", ["break;"]), (r"\bbreak;", [";"]), (r"\bi\b", ["j"]), (r"\bj\b", ["i"]), (r"\bx\b", ["y"]), (r"\by\b", ["x"]), (r"\bnx\b", ["ny"]), (r"\bny\b", ["nx"]),
       (r"\bnce1\b", ["nce2"]), (r"\bnce2\b", ["nce1"]), (r"\bif \((?=.*\)$)", ["if (!"]), (r"\belse if\b", ["if"]), (r"(?<=[\w)\]] )[-+] 1\b", [""]), (r"\bNaN\b", ["0.0"]), (r"\bfabs\(", ["("]), (r"\bmin", ["max"]), (r"\bmax", ["min"])]


def candidates(path):
    text = open(path).read()
    out = []
    func = ""
    skip = False
    incomment = False
    started = False
    pre = []        # nested #if of code that is not compiled
    for n, line in enumerate(text.split("\n")):
        st = line.strip()
        if incomment:
            if "*/" in st:
                incomment = False
            continue
        if st.startswith("/*") and "*/" not in st:
            incomment = True
            continue
        if st.startswith("/*") or st.startswith("//"):
            continue
        if re.match(r"#\s*if", st):
            started = started or "STANDALONE" in st
            pre.append(bool(re.search(r"VIEW|DEBUG|_PROG" if os.environ.get("STANDALONE") else r"STANDALONE|VIEW|DEBUG|_PROG", st)))
            continue
        if st.startswith("#endif"):
            if pre:
                pre.pop()
            continue
        if st.startswith("#"):
            continue
        if any(pre) or (os.environ.get("STANDALONE") and not started):
            continue
        m = re.match(r"[a-z].*?(\w+)\(.*\)\s*$", line)
        if m:
            func = m.group(1)
        if func in ("usage", "version", "info", "gu_fopen", "quit") or not line.startswith(" "):
            continue
        if "gu_verbose" in st or "stderr" in st or "gu_quit(" in st:
            continue
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "\0" * (len(m.group(0)) - 2) + '"', line)
        code = re.sub(r"/\*.*?\*/", lambda m: "\0" * len(m.group(0)), code)
        for pat, reps in SUB:
            for m in re.finditer(pat, code):
                for r in reps:
                    nl = line[:m.start()] + r + line[m.end():]
                    if r == "if (!":
                        nl = line[:m.start()] + "if (!(" + line[m.end():] + ")"
                    out.append((n, line, nl, func))
        if re.match(r"\s+[\w>.\[\]\-*()+, ]+( [-+*/|]?= .*|\(.*\)|\+\+|--);$", code) and not re.match(r"\s+(int|double|char|return|static|FILE|size_t|unsigned|struct|const)\b", code):
            out.append((n, line, re.match(r"\s*", line).group(0) + ";", func))
    return out


GUARDS = ["i > 9", "j > 9", "i == 5", "j == 6", "i == j", "nx > ny + 3", "ny == 2", "nce1 == 1", "nce2 > nce1", "n > 17", "n == 5", "count > 30", "nj > 12", "ii > 6", "jj == 3", "k == 4", "i1 == 3", "gn->nx > 15", "gn->ny == 5", "gm->nce1 > 8", "gm->nce2 == 1",
          "pl->n > 14", "pl->n == 4", "tree->nnodes > 40", "tree->ndim == 3", "nx3 > 10", "i3 == 4", "x < 0.0", "y < 0.0 && x > 0.0", "x[j][i] < 0.0", "fabs(x) > 1.0e5", "type == NT_CEN", "gu_verbose", "argc > 6", "isnan(x)", "id % 8 == 5", "nnodes > 33", "ndim > 3", "depth > 5", "dir == 1 && ndim > 2"]


def guarded(path, n, old, new, rnd):
    """the change made conditional upon something: the first of the guards (in random order) that compiles"""
    g = GUARDS[:]
    rnd.shuffle(g)
    L = open(path).read().split("\n")
    a, b = old.strip(), new.strip()
    for c in g:
        m, k = re.match(r"((?:else )?if) \((.*)\)( \{)?$", a), re.match(r"((?:else )?if) \((.*)\)( \{)?$", b)
        if m and k and m.group(1) == k.group(1):
            t = "%s ((%s) ? (%s) : (%s))%s" % (m.group(1), c, k.group(2), m.group(2), m.group(3) or "")
        elif re.match(r"[\w>.\[\]\-*()+, ]+( [-+*/|]?= .*|\(.*\)|\+\+|--);$", a) and b.endswith(";") and not re.match(r"(int|double|char|return|static|FILE|size_t|unsigned|struct|const|case)\b", a):
            t = "{ if (%s) { %s } else { %s } }" % (c, b, a)
        else:
            return None
        M = L[:]
        M[n] = re.match(r"\s*", old).group(0) + t
        tmp = path[:-2] + "_g.c"
        open(tmp, "w").write("\n".join(M))
        r = sh(["gcc", "-fsyntax-only", "-w"] + (["-DSTANDALONE"] if os.environ.get("STANDALONE") else []) + ["-I" + os.path.join(HERE, "stubs"), tmp])
        os.remove(tmp)
        if r is not None and r.returncode == 0:
            return M[n]
    return None


def sh(cmd, env=None, timeout=900, cwd=None):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout, cwd=cwd, errors="replace")
    except subprocess.TimeoutExpired:
        return None


def main():
    out, N, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or sorted(ORDER)
    rnd = random.Random(seed)
    base = tempfile.mkdtemp(prefix="mutate-")
    repo, bld = base + "/repo", base + "/build"
    shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git", "_build", "*.o", "*.t"))
    env = dict(os.environ, REPO=repo, BUILD=bld, EVIDENCE_DIR=base + "/ev", PYTHONPATH=HERE, VERIF_SEED="1", VERIF_TIER="quick")
    cand = []
    for f in files:
        c = candidates(repo + "/gridutils/" + f)
        cand += [(f,) + x for x in c]
    rnd.shuffle(cand)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    count = 0
    log = open(out, "a")
    for f, n, old, new, func in cand:
        if count >= N:
            break
        if (f, n + 1, new.strip()) in done:
            continue
        path = repo + "/gridutils/" + f
        if os.environ.get("GUARD"):
            new = guarded(path, n, old, new, rnd)
            if new is None:
                continue
        orig = open(path).read()
        L = orig.split("\n")
        L[n] = new
        open(path, "w").write("\n".join(L))
        rec = dict(file=f, line=n + 1, func=func, old=old.strip(), new=new.strip())
        try:
            r = sh([sys.executable, HERE + "/build.py", "C01"], env)
            if r is None or r.returncode:
                rec["res"] = "no-compile"
            else:
                lib = r.stdout.splitlines()[0]
                t = base + "/t"
                shutil.rmtree(t, ignore_errors=True)
                os.makedirs(t)
                shutil.copytree(repo + "/gridutils/test", t + "/test")
                for p in ("getbound", "getnodes", "insertgrid", "setbathy", "subgrid", "xy2ij"):
                    shutil.copy(lib + "/bin/" + p, t)
                r = sh(["bash", "-c", "ulimit -v 4000000; timeout 20 bash -o pipefail ./test.sh >../stdout 2>../stderr </dev/null; code=$?; python3 /opt/vp/cases.py $code ../stdout . | grep -c PASS"], cwd=t + "/test")
                if r is None or r.stdout.strip() != "12":
                    rec["res"] = "tests"
                else:
                    order = ["C31"] if os.environ.get("STANDALONE") else ORDER[f].split()
                    if os.environ.get('ALL_CHECKS'):
                        order += [c for c in ALL if c not in order]
                    rec["res"] = "SURVIVED"
                    for c in order:
                        r = sh([sys.executable, HERE + "/check.py", c, "quick", "--shrinks", "0"], env)
                        if r is None:
                            rec["res"] = "noanswer " + c
                            break
                        if r.returncode == 1 and "VIOLATION property=" + c in r.stdout:
                            rec["res"] = "killed " + c
                            break
                        if r.returncode != 0:
                            rec["res"] = "noanswer %s %d" % (c, r.returncode)
                            break
                    count += 1
        finally:
            open(path, "w").write(orig)
        log.write(json.dumps(rec) + "\n")
        log.flush()
        print(rec["res"], f, n + 1, "|", rec["old"], "=>", rec["new"], flush=True)
    shutil.rmtree(base, ignore_errors=True)


main()
