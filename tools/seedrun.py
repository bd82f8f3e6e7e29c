#!/usr/bin/env python3
"""Development tool: runs the checks against the planted changes in seeded/.
usage: seedrun.py [--all] [--tier T] [id...]   (--all: all the checks, not just that of the property)"""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
args = sys.argv[1:]
alln = "--all" in args
tier = "quick"
if "--tier" in args:
    k = args.index("--tier"); tier = args[k + 1]; del args[k:k + 2]
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(HERE + "/seeded"))
tmp = tempfile.mkdtemp(prefix="seedrun-")
PROPS = ["C%02d" % k for k in range(1, 1 + len([f for f in os.listdir(HERE + "/props") if f.endswith(".cpp")]))]
def one(id):
    d = HERE + "/seeded/" + id
    prop = json.load(open(d + "/meta.json"))["property"]
    w = tmp + "/" + id
    os.makedirs(w)
    subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git apply %s/patch.diff" % (w, w, d), shell=True, check=True)
    res = []
    t = time.time()
    for p in PROPS if alln else [prop]:
        env = dict(os.environ, REPO=w, BUILD=tmp + "/b-" + id, EVIDENCE_DIR=tmp + "/ev-" + id)
        os.makedirs(env["BUILD"], exist_ok=True)
        if alln and os.path.isdir(HERE + "/build"):
            for f in os.listdir(HERE + "/build"):
                if f.startswith("obj-"): 
                    try: os.link(HERE + "/build/" + f, env["BUILD"] + "/" + f)
                    except OSError: pass
        r = subprocess.run(["python3", HERE + "/check.py", p, tier], cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        if r.returncode == 1 and v: res.append(p)
        elif r.returncode: res.append("%s?%d" % (p, r.returncode))
    shutil.rmtree(w); shutil.rmtree(tmp + "/b-" + id)
    print("%-22s %s %s: %s (%.0f s)" % (id, prop, "caught" if prop in res else "MISSED", " ".join(res), time.time() - t), flush=True)
with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
    list(ex.map(one, ids))
shutil.rmtree(tmp)
