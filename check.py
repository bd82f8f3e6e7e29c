#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [--replay FILE] [options of the harness]

Exit codes: 0 held; 1 violated (with a VIOLATION line); 2 or more: no answer.
"""
import os, sys
import build


def main():
    pid = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if args and args[0] in ("quick", "thorough"):
        tier = args.pop(0)
    seed = os.environ.get("VERIF_SEED", "1")
    lib, exes = build.main([pid])
    if pid == "C31" and not os.path.exists(lib + "/bin/kd"):
        sys.stderr.write("the stand-alone program of kdtree.c does not compile\n")
        sys.exit(2)
    ev = os.environ.get("EVIDENCE_DIR", os.path.join(build.HERE, "evidence"))
    os.makedirs(ev, exist_ok=True)
    rp = os.path.join(build.BUILD, "replay")
    os.makedirs(rp, exist_ok=True)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "exitcode=66:detect_leaks=0:allocator_may_return_null=0:max_malloc_fill_size=1073741824:malloc_fill_byte=190:hard_rss_limit_mb=3000:abort_on_error=0:handle_segv=1:handle_abort=1:detect_stack_use_after_return=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=66"
    env["MALLOC_PERTURB_"] = "165"
    env["LC_ALL"] = "C"
    env.pop("LD_PRELOAD", None)
    cmd = [exes[pid], "--seed", seed, "--tier", tier, "--bindir", lib, "--evidence", os.path.join(ev, pid + ".json"), "--replay-out", os.path.join(rp, pid + ".replay")]
    cmd += args
    sys.stdout.flush()
    os.execve(cmd[0], cmd, env)


main()
