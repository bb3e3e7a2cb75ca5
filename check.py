#!/usr/bin/env python3
"""check.py <property> [--thorough]   decides one property on /repo's current tree
   check.py --setup                   builds everything
   check.py --replay <file>           runs again the case recorded in a replay file"""
import json, os, subprocess, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build, driver, props

def builder_for(pids, thorough):
    b = build.Builder()
    bins = {}
    for pid in pids:
        p = props.P[pid]
        for st in p["stages"]:
            if (st.t if thorough else st.q) > 0 and st.variant not in bins:
                bins[st.variant] = b.harness(st.variant, driver.sources())
        if p["run"] is not None and hasattr(p["run"], "tools"):
            for (variant, t) in p["run"].tools:
                bins[(variant, t)] = b.tool(variant, t)
    b.run()
    return bins

def check(pid):
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    p = props.P[pid]
    try:
        bins = builder_for([pid], tier == "thorough")
    except build.BuildError as e:
        print("BUILD FAILED\n%s" % e)
        return 2
    run = driver.Run(pid, tier, seed)
    try:
        for k, st in enumerate(p["stages"]):
            if run.violations and time.time() - run.t0 > 300:
                break             # the verdict is known: do not spend the time limit on the rest
            if (st.t if tier == "thorough" else st.q) > 0:
                run.run_stage(k, st, bins[st.variant])
        if p["run"] is not None and not (run.violations and time.time() - run.t0 > 300):
            p["run"](run, bins)
        return run.finish(p["rule"], p["assumptions"])
    except driver.HarnessError as e:
        if run.violations:
            return run.finish(p["rule"], p["assumptions"])
        print("CHECK ERROR (no verdict): %s" % e)
        return 2
    finally:
        run.cleanup()

def replay(path):
    v = json.load(open(path))
    r = v.get("replay", {})
    if "cli" in r:
        import tempfile
        from vlib import cli
        b = build.Builder()
        bins = {vt: b.tool(*vt) for vt in props.P[r["cli"]]["run"].tools}
        b.run()
        d = tempfile.mkdtemp(dir=os.path.join(build.BUILD, "run"))
        print(cli.one((r["cli"], r["seed"], r["idx"], bins, d, True)))
        return 0
    if "cmd" in r:
        b = build.Builder()
        exe = b.harness(r["build"], driver.sources())
        b.run()
        args = r["cmd"][[k for k, a in enumerate(r["cmd"]) if a == "--prop"][0]:]
        pre = driver.vg_prefix() if r["build"] == "valgrind" else []
        return subprocess.call(pre + [exe] + args, env=driver.clean_env(r.get("env")))
    print(json.dumps(v, indent=1))
    return 0

def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "--setup":
        try:
            builder_for(list(props.P), False)
        except build.BuildError as e:
            print(e)
            return 1
        return 0
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if sys.argv[1] not in props.P:
        print("unknown property", sys.argv[1])
        return 2
    return check(sys.argv[1])

if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
