#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse, json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vf, plans


def replay(pid, path):
    info = json.load(open(path))
    ctx = vf.Ctx(pid, info.get("tier", "quick"), info.get("seed", 1))
    try:
        if info["kind"] in ("compile", "link"):
            print(info.get("log", ""))
            plans.build_for(ctx, pid)
            print("it compiles now")
            return 0
        exe = plans.build_for(ctx, pid, info["harness"])
        tp = os.path.join(ctx.work, "replay.ndjson")
        a = dict(info["args"])
        if "script" in a and not os.path.exists(a["script"]):
            sp = os.path.join(ctx.work, "script.txt")
            open(sp, "w").write(info["script"])
            a["script"] = sp
        rc, out = ctx.harness(exe, a, tp, 900)
        if rc != 0:
            print(out[-4000:])
            print(f"VIOLATION property={pid} replay={path}")
            return 1
        if info["kind"] == "trace":
            r = ctx.validate(info["spec"], tp)
            if r[0] != "ok":
                print("rejected event", r[1], open(tp).read().splitlines()[r[1] - 1][:3000])
                print(r[2])
                print(f"VIOLATION property={pid} replay={path}")
                return 1
        print("replay: not reproduced on this tree")
        return 0
    finally:
        ctx.cleanup()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.prop, a.replay)
    ctx = vf.Ctx(a.prop, a.tier, a.seed)
    try:
        plans.PLANS[a.prop](ctx)
        ctx.evidence()
        ctx.log("held on everything explored")
        return 0
    except vf.Violation as v:
        ctx.evidence(1)
        print(v.what)
        print(f"VIOLATION property={a.prop} replay={v.replay}")
        return 1
    except vf.CheckError as e:
        print("CHECK-ERROR", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.cleanup()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
