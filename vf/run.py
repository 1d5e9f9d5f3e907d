"""Check one property: python -m vf.run PID [--tier quick|thorough] [--replay FILE] [--law NAME] [--jobs N]."""

import argparse
import importlib
import json
import multiprocessing
import os
import re
import sys
import tempfile
import time
import traceback

from . import core

SHARD = {"quick": 400, "thorough": 1500}
LIMIT = {"quick": 600, "thorough": 6 * 3600}


def slug(name):
    return re.sub(r"[^A-Za-z0-9]+", "-", name).strip("-").lower()


def load(pid):
    return importlib.import_module(f"vf.props.{pid.lower()}").PROP


def work(task):
    pid, name, seed, examples, first, path = task
    prop = load(pid)
    law = next(x for x in prop.laws if x.name == name)

    def save(case, message):
        rec = dict(kind="case", law=name, case=json.loads(core.canonical(case)), message=message)
        tmp = f"{path}.{os.getpid()}"
        with open(tmp, "w") as f:
            json.dump(rec, f)
        os.replace(tmp, path)

    t = time.time()
    out = core.campaign(law, seed, examples, save=save, explicit=first)
    out["law"], out["seconds"] = name, time.time() - t
    return out


def replay(pid, path):
    rec = json.load(open(path))
    law = next(x for x in load(pid).laws if x.name == rec["law"])
    if rec["kind"] == "campaign":
        out = core.campaign(law, rec["seed"], rec["examples"], shrink=False)
        return out["failure"] and out["failure"]["message"]
    try:
        core.run_case(law, rec["case"])
    except (core.Violation, core.Known) as e:
        return str(e)
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=("quick", "thorough"))
    ap.add_argument("--replay")
    ap.add_argument("--law")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    start = time.time()
    core.bootstrap()
    prop = load(args.pid)

    if args.replay:
        message = replay(args.pid, args.replay)
        if message:
            print(message)
            print(f"VIOLATION property={args.pid} replay={args.replay}")
            return 1
        print("the replayed case holds")
        return 0

    outdir = os.path.join(core.OUT, "out", args.pid)
    os.makedirs(outdir, exist_ok=True)
    for f in os.listdir(outdir):
        os.unlink(os.path.join(outdir, f))
    tasks = []
    for law in prop.laws:
        if args.law and law.name != args.law:
            continue
        n = int((law.quick if args.tier == "quick" else law.thorough) * args.scale) or 1
        # small shards so that the cores share the work, each with its own seed
        shards = max(1, min(-(-n // SHARD[args.tier]) if n > 2000 else min(args.jobs, -(-n // 40)), 400))
        for i in range(shards):
            s = core.digest(seed, args.pid, law.name, i) >> 1
            tasks.append(
                (args.pid, law.name, s, -(-n // shards), i == 0, os.path.join(outdir, f"saved-{slug(law.name)}-{i}.json"))
            )
    # round robin over laws, so that a slow one isn't left for the end
    tasks.sort(key=lambda t: t[5].rsplit("-", 1)[1])

    results, timed_out = [], False
    ctx = multiprocessing.get_context("fork")
    pool = ctx.Pool(args.jobs, maxtasksperchild=None)
    try:
        pending = [pool.apply_async(work, (t,)) for t in tasks]
        found = None
        for p in pending:
            while not p.ready():
                p.wait(0.5)
                late = time.time() - start
                failed = any(os.path.exists(t[5]) for t in tasks)
                if failed and found is None:
                    found = time.time()
                if late > LIMIT[args.tier] or (found and time.time() - found > 120):
                    timed_out = True
                    break
            if timed_out:
                break
        for p in pending:
            if p.ready():
                results.append(p.get())
    finally:
        pool.terminate()
        pool.join()

    errors = [r["error"] for r in results if r["error"]]
    failures = [r["failure"] for r in results if r["failure"]]
    done = {f["law"] for f in failures}
    for t in tasks:  # the campaigns that didn't finish left what they found
        if t[1] not in done and os.path.exists(t[5]):
            failures.append(json.load(open(t[5])))
            done.add(t[1])
    for t in tasks:
        if os.path.exists(t[5]):
            os.unlink(t[5])

    known = {}
    listed = core.known_findings().get(args.pid, {})
    for r in results:
        for key, (message, case) in r["known"].items():
            if key in listed:
                known[key] = listed[key]
            else:
                failures.append(dict(kind="case", law=r["law"], case=case, message=f"{key}: {message}"))

    # one violation per law, the smallest
    best = {}
    for f in failures:
        old = best.get(f["law"])
        if old is None or len(core.canonical(f)) < len(core.canonical(old)):
            best[f["law"]] = f
    paths = []
    for name, f in sorted(best.items()):
        path = os.path.join(outdir, f"{slug(name)}.json")
        with open(path, "w") as fh:
            json.dump(f, fh, indent=1, sort_keys=True)
        paths.append((path, f))

    per_law = {}
    distinct = set()
    samples = []
    for r in results:
        d = per_law.setdefault(
            r["law"], dict(evaluations=0, distinct_nontrivial=set(), labels={}, cpu_s=0.0)
        )
        d["evaluations"] += r["evaluations"]
        d["distinct_nontrivial"] |= r["distinct"]
        d["cpu_s"] = round(d["cpu_s"] + r["seconds"], 2)
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        distinct |= {(r["law"], h) for h in r["distinct"]}
        if r["samples"] and sum(s["law"] == r["law"] for s in samples) < 1:
            samples.append(dict(law=r["law"], case=r["samples"][0]))
    for d in per_law.values():
        d["distinct_nontrivial"] = len(d["distinct_nontrivial"])
    evidence = dict(
        property=args.pid,
        tier=args.tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=sum(d["evaluations"] for d in per_law.values()),
            distinct_nontrivial=len(distinct),
            rule=prop.rule,
            samples=samples,
            laws=per_law,
            known_findings_seen=sorted(known),
            stopped_early=timed_out,
        ),
        assumptions=prop.assumptions,
        wall_s=round(time.time() - start, 2),
        violations=len(paths),
    )
    evdir = os.path.join(core.OUT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    tmp = tempfile.NamedTemporaryFile("w", dir=evdir, delete=False, suffix=".tmp")
    json.dump(evidence, tmp, indent=1)
    tmp.close()
    os.chmod(tmp.name, 0o644)
    os.replace(tmp.name, os.path.join(evdir, f"{args.pid}.json"))

    if args.v:
        for name, d in per_law.items():
            print(f"  {name}: {d}")
    for key, text in sorted(known.items()):
        print(f"KNOWN-FINDING: property={args.pid} {text}")
    for e in errors:
        print(e, file=sys.stderr)
    for path, f in paths:
        print(f"{f['law']}: {f['message']}")
        print(f"VIOLATION property={args.pid} replay={path}")
    if paths:
        return 1
    if errors or (not results):
        print("error of the check itself", file=sys.stderr)
        return 2
    print(
        f"{args.pid}: held on {evidence['coverage']['evaluations']} cases "
        f"({evidence['coverage']['distinct_nontrivial']} distinct and non-trivial) in {evidence['wall_s']} s"
        + (" (stopped early)" if timed_out else "")
    )
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
