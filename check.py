#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE] [harness options]: builds from /repo's working tree and decides one property.

Tier and seed come from VERIF_TIER and VERIF_SEED."""
import os, sys, subprocess
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
import build
def main():
    prop = sys.argv[1]; rest = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = os.environ.get("VERIF_SEED", "1")
    if not seed.isdigit(): seed = "1"
    flavour = "san" if prop == "M01" else "plain"
    try: d = build.build(flavour)
    except build.BuildError as e:
        print(str(e)); print("%s: the harness does not build: no answer" % prop); return 2
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    env = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_WAIT_POLICY="passive", LC_ALL="C")
    env.pop("OMP_NUM_THREADS", None)
    cmd = [os.path.join(d, "harness"), "--prop", prop, "--tier", tier, "--seed", seed,
           "--evidence", os.path.join(V, "evidence", prop + ".json"), "--replay-dir", os.path.join(V, "replays"),
           "--known", os.path.join(V, "known_findings.txt")]
    if flavour == "san":
        cmd += ["--crash-only", "--san"]
        env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:allocator_may_return_null=1:handle_abort=0"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
    return subprocess.run(cmd + rest, cwd=V, env=env).returncode
sys.exit(main())
