#!/opt/venv/bin/python
"""run.py <ID>                     run the check of one property (tier from VERIF_TIER)
run.py <ID> --replay FILE        run one recorded case again
run.py <ID> --sub NAME [...]     only some of its parts
"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"


def load(prop):
    return importlib.import_module("props." + prop.lower())


def worker(args):
    from vlib import env

    env.prepare(x64=args.x64 == "1")
    from vlib import core

    mod = load(args.property)
    res = []
    for name in args.sub:
        sub = next(s for s in mod.SUBS if s.name == name)
        res.append(core.run_sub(args.property, sub, args.tier, args.seed, args.budget))
        if res[-1]["violation"]:
            break
    with open(args.out, "w") as f:
        json.dump(res, f)
    return 0


def replay(args):
    with open(args.replay) as f:
        rec = json.load(f)
    from vlib import env

    env.prepare(x64=rec.get("x64", True))
    from vlib import core

    mod = load(args.property)
    sub = next(s for s in mod.SUBS if s.name == rec["sub"])
    ctx = core.Ctx()
    ctx.start()
    try:
        sub.check(rec["case"], ctx)
    except core.Violation as e:
        print("VIOLATION property=%s replay=%s" % (args.property, args.replay))
        print("  " + str(e))
        return 1
    print("holds on the recorded case")
    return 0


def known_keys(prop):
    keys = set()
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % prop):
                keys.add(line.split("key=")[1].split()[0])
    return keys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--sub", nargs="*", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--out")
    ap.add_argument("--x64", default="1")
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--errs", action="store_true")
    args = ap.parse_args()
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    if args.replay:
        return replay(args)
    if args.budget is None:
        args.budget = 480.0 if args.tier == "quick" else 3600.0 * 3
    if args.out:
        return worker(args)

    t0 = time.time()
    # the list of parts, read without importing jax or the code under test
    from vlib import meta

    subs = meta.subs(args.property)
    if args.sub:
        subs = [s for s in subs if s["name"] in args.sub]
    jobs = args.jobs or min(os.cpu_count() or 2, 8)
    work = tempfile.mkdtemp(prefix="verif-run-")
    pending = [(s["name"], s["x64"]) for s in subs]
    running, results = [], []
    envv = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                PYTHONNOUSERSITE="1", JAX_PLATFORMS="cpu", PYTHONWARNINGS="ignore")
    envv.pop("PYTHONPATH", None)
    failed = None
    stop = False
    while pending or running:
        while pending and len(running) < jobs and not stop:
            name, x64 = pending.pop(0)
            out = os.path.join(work, name + ".json")
            cmd = [PY, "-B", os.path.join(HERE, "run.py"), args.property, "--sub", name, "--tier",
                   args.tier, "--seed", str(args.seed), "--budget", str(args.budget),
                   "--x64", "1" if x64 else "0", "--out", out]
            log = open(os.path.join(work, name + ".log"), "w+")
            running.append((name, x64, out, log, subprocess.Popen(
                cmd, stdout=log, stderr=subprocess.STDOUT, env=envv, cwd=HERE)))
        if stop:
            pending = []
        time.sleep(0.05)
        for item in list(running):
            name, x64, out, log, p = item
            if p.poll() is None:
                continue
            running.remove(item)
            log.seek(0)
            text = log.read()
            log.close()
            if p.returncode != 0 or not os.path.exists(out):
                failed = "%s: worker ended with %s\n%s" % (name, p.returncode, text[-3000:])
                continue
            for r in json.load(open(out)):
                r["x64"] = x64
                results.append(r)
                if r["violation"]:
                    stop = True
                if r["harness"]:
                    failed = "%s: %s\n%s" % (name, json.dumps(r["harness"]["case"]), r["harness"]["trace"])
        if stop and running:
            for item in running:
                item[4].kill()
            for item in running:
                item[4].wait()
                item[3].close()
            running = []
    import shutil

    shutil.rmtree(work, ignore_errors=True)

    order = {s["name"]: i for i, s in enumerate(subs)}
    results.sort(key=lambda r: order[r["sub"]])
    keys = known_keys(args.property)
    violations = []
    for r in results:
        if r["violation"]:
            violations.append((r["sub"], r["x64"], r["violation"]))
        for key, msg in r["findings"]:
            if key in keys:
                print("KNOWN-FINDING: property=%s key=%s %s" % (args.property, key, msg))
            else:
                violations.append((r["sub"], r["x64"], dict(case={"known": key}, message=msg, trace="")))
    if not args.no_evidence and not args.sub:
        samples = []
        for r in results:
            samples += r["samples"][:2]
        labels = {}
        for r in results:
            for k, v in r["labels"].items():
                labels[r["sub"] + ": " + k] = v
        ev = dict(
            property=args.property, tier=args.tier, seed=args.seed, level="exploration",
            coverage=dict(
                evaluations=sum(r["evaluations"] for r in results),
                distinct_nontrivial=sum(r["distinct_nontrivial"] for r in results),
                rule=" || ".join("%s: %s" % (r["sub"], r["rule"]) for r in results),
                samples=samples or [{"note": "no non-trivial case was completed"}],
                class_counts=labels,
                parts={r["sub"]: dict(evaluations=r["evaluations"], distinct=r["distinct"],
                                      distinct_nontrivial=r["distinct_nontrivial"],
                                      skipped_after_budget=r["skipped_after_budget"],
                                      largest_error_over_tolerance={k: round(v, 4) for k, v in r["errs"].items()},
                                      wall_s=r["wall_s"]) for r in results},
                known_findings=[f for r in results for f in r["findings"]],
            ),
            assumptions=meta.assumptions(args.property),
            wall_s=round(time.time() - t0, 2),
            violations=len(violations),
        )
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", args.property + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, tmp[:-4])
    for r in results:
        line = "%s/%s: %d cases, %d distinct non-trivial, %.1f s" % (
            args.property, r["sub"], r["evaluations"], r["distinct_nontrivial"], r["wall_s"])
        if r["skipped_after_budget"]:
            line += ", stopped by its time budget"
        print(line)
        if args.errs:
            for k, v in sorted(r["errs"].items()):
                print("      %-50s %.3g" % (k, v))
            for k, v in sorted(r["labels"].items()):
                print("      label %-50s %d" % (k, v))
    if violations:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for name, x64, v in violations:
            path = os.path.join(HERE, "replays", "%s-%s.json" % (args.property, name))
            with open(path, "w") as f:
                json.dump(dict(property=args.property, sub=name, x64=x64, seed=args.seed, tier=args.tier,
                               case=v["case"], message=v["message"], trace=v["trace"]), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (args.property, path))
            print("  %s: %s" % (name, v["message"]))
            print("  case: %s" % json.dumps(v["case"])[:2000])
        return 1
    if failed:
        print("ERROR of the check, no verdict: " + failed)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
