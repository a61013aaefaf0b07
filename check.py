#!/usr/bin/env python3
"""python3 check.py PROPERTY [--tier quick|thorough]   |   check.py --setup

Rebuilds what the property's harness needs from /repo's working tree, runs its
sub-properties, writes evidence/<PROPERTY>.json and reports.
Exit 0: held on everything explored.  Exit 1: a VIOLATION line was printed.
"""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vlib"))
import build
from specs import PROPS

PY = "/opt/vp/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable


def known(pid):
    """known_findings.txt: finding <ID> property=<P> harness=<H> prop=<sub> choices=<file|-> | text"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding ") and " property=%s " % pid in line:
                head, _, text = line.partition("|")
                w = head.split()
                d = dict(x.split("=", 1) for x in w[2:])
                d["id"], d["text"] = w[1], text.strip()
                out.append(d)
    return out


def command(run):
    if run["kind"] == "cpp":
        return [build.harness(run["harness"], run["libs"], run.get("variant", "fast"))]
    for name, libs in run.get("modules", ()):
        build.pymodule(name, libs)
    return [PY, os.path.join(HERE, "pyharness", run["harness"] + ".py")]


def environment(run):
    e = dict(os.environ)
    e.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MALLOC_PERTURB_="165", PYTHONDONTWRITEBYTECODE="1",
             PYTHONHASHSEED="0", LC_ALL="C.UTF-8",
             ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=0",
             UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1", VERIF_REPO=build.REPO,
             PYTHONPATH=os.pathsep.join([os.path.join(HERE, "pyharness"), os.path.join(build.BUILD, "py")]))
    return e


def main():
    if sys.argv[1] == "--setup":
        t0 = time.time()
        seen = set()
        bad = 0
        for pid, P in PROPS.items():
            for run in P["runs"]:
                k = (run["harness"], run.get("variant", "fast"))
                if k in seen:
                    continue
                seen.add(k)
                try:
                    command(run)
                except build.BuildError as e:
                    print(e)
                    bad = 1
        print("setup: %d harnesses in %.0f s" % (len(seen), time.time() - t0))
        return bad
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[pid]
    t0 = time.time()
    evidence = os.path.join(HERE, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    try:
        os.unlink(evidence)
    except OSError:
        pass
    results, violations = [], []
    n = 0
    budget = P.get("max_s", {}).get(tier, 240 if tier == "quick" else 3000)
    finds = known(pid)
    for f in finds:
        run = [r for r in P["runs"] if r["harness"] == f["harness"]][0]
        args = ["--replay-file", f["prop"], os.path.join(HERE, f["choices"])]
        try:
            r = subprocess.run(command(run) + args, capture_output=True, text=True,
                               env=dict(environment(run), PBT_SHOW_KNOWN="1"), timeout=300)
            still = r.returncode == 1
        except (subprocess.TimeoutExpired, build.BuildError):
            still = False
        if still:
            print("KNOWN-FINDING: property=%s %s %s" % (pid, f["id"], f["text"]))
        else:
            print("note: known finding %s of %s no longer fails on its recorded input" % (f["id"], pid))
    for run in P["runs"]:
        if tier == "quick" and run.get("thorough_only"):
            continue
        k = 1 if tier == "quick" else 2
        todo = ["%s:%d" % (p[0], p[k]) for p in run["props"] if p[k] > 0]
        if not todo:
            continue
        try:
            cmd = command(run)
        except build.BuildError as e:
            # no answer about the property: the tree does not compile
            print(str(e))
            print("BUILD-ERROR: %s cannot be built from the working tree" % run["harness"])
            return 2
        out = os.path.join(build.BUILD, "out-%s-%d.json" % (pid, n))
        n += 1
        if os.path.exists(out):
            os.unlink(out)
        left = max(20.0, budget - (time.time() - t0))
        r = subprocess.run(cmd + ["--out", out, "--seed", str(seed), "--workers", str(os.cpu_count() or 4),
                                  "--max-s", str(int(left)), "--shrink-s", "40"] + todo,
                           capture_output=True, text=True, env=environment(run))
        if not os.path.exists(out):
            print(r.stdout[-2000:] + r.stderr[-4000:])
            print("HARNESS-ERROR: %s gave no result (exit %d)" % (run["harness"], r.returncode))
            return 2
        for S in json.load(open(out)):
            S["harness"] = run["harness"] + ("" if run.get("variant", "fast") == "fast" else "/" + run["variant"])
            results.append(S)
            for j, f in enumerate(S["failures"]):
                path = os.path.join(HERE, "replays", "%s-%s-%s-%d.txt" % (pid, run["harness"], S["prop"], j))
                with open(path, "w") as g:
                    g.write(f["choices"] + "\n")
                with open(path[:-4] + ".info", "w") as g:
                    g.write("property: %s\nharness: %s\nsub-property: %s\ntag: %s\nmessage: %s\ncase: %s\n"
                            "replay: python3 /verif/check.py --replay %s %s %s %s\n" %
                            (pid, run["harness"], S["prop"], f["tag"], f["msg"], f["case"], pid, run["harness"], S["prop"], path))
                violations.append((S, f, path))
    rules = "; ".join("%s: %s" % (p[0], p[3]) for run in P["runs"] for p in run["props"] if len(p) > 3)
    samples = []
    for S in results:
        samples += ["%s %s" % (S["prop"], x[:900]) for x in S["samples"][:1]]
    cov = dict(evaluations=sum(S["evaluations"] for S in results),
               distinct_nontrivial=sum(S["distinct_nontrivial"] for S in results),
               rule=(P.get("rule", "") + " " + rules).strip()[:6000],
               samples=samples[:20] or ["none"],
               per_subproperty=[dict(name=S["prop"], harness=S["harness"], planned=S["planned"], evaluations=S["evaluations"],
                                     nontrivial=S["nontrivial"], distinct_nontrivial=S["distinct_nontrivial"],
                                     discarded=S["discards"], labels=dict(sorted(S["labels"].items())[:60]),
                                     unstable=[u["tag"] for u in S["unstable"]][:5],
                                     wall_s=round(S["wall_s"], 2)) for S in results])
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(time.time() - t0, 2),
              assumptions=P.get("assumptions", []), violations=len(violations))
    with open(evidence, "w") as f:
        json.dump(ev, f, indent=1)
    for S in results:
        print("%-28s %7d cases %7d non-trivial %6d discarded %6.1f s%s" % (
            S["prop"], S["evaluations"], S["distinct_nontrivial"], S["discards"], S["wall_s"],
            " UNSTABLE %s" % [u["tag"] for u in S["unstable"]] if S["unstable"] else ""))
    for S, f, path in violations:
        print("%s [%s] %s\n  case: %s" % (S["prop"], f["tag"], f["msg"][:1500], f["case"][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    print("%s %s: %s in %.0f s" % (pid, tier, "VIOLATED" if violations else "held on everything explored", time.time() - t0))
    return 1 if violations else 0


def replay():
    _, _, pid, harness, sub, path = sys.argv[:6]
    run = [r for r in PROPS[pid]["runs"] if r["harness"] == harness][0]
    return subprocess.run(command(run) + ["--replay-file", sub, path], env=environment(run)).returncode


if __name__ == "__main__":
    sys.exit(replay() if sys.argv[1] == "--replay" else main())
