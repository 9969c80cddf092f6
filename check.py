#!/usr/bin/env python3
"""check.py <property> <quick|thorough>  |  check.py replay <file>

Runs the drivers of one property against /repo's working tree in worker
processes; each worker records traces of the real code and has TLC judge them
against spec/.  Exit 0: held on everything explored; 1: VIOLATION; 2: the
machinery itself failed.
"""
import collections, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
sys.path.insert(0, os.path.join(HERE, "py"))
import config, models

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
EVID = os.path.join(HERE, "evidence")


def known(prop):
    """{signature: text} of the listed findings of a property."""
    out = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def signature(f):
    return "%s/%s/%s/%s" % (f["driver"], f["seed"], f.get("back") or "-", f["clause"])


def env():
    e = dict(os.environ)
    e.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", JAX_PLATFORMS="cpu",
             PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TF_CPP_MIN_LOG_LEVEL="3",
             XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
    return e


def run(prop, tier, parts=None, seed=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1")) if seed is None else seed
    parts = parts or config.PARTS[prop]
    cap = 420 if tier == "quick" else int(os.environ.get("VERIF_CAP", "5400"))
    scratch = tempfile.mkdtemp(prefix="ein-" + prop)
    summary, model_stats = [], []
    try:
        jobs = [[] for _ in range(WORKERS)]
        for driver, nq, nt in parts:
            n = nq if tier == "quick" else nt
            if driver in config.MODELS:
                cases, stats = models.enumerate_cases(config.MODELS[driver], tier, scratch, seed, n)
                model_stats.append({"driver": driver, **stats})
                ids = list(cases)
                for w in range(WORKERS):
                    path = os.path.join(scratch, "%s%d.json" % (driver, w))
                    json.dump({i: cases[i] for i in ids[w::WORKERS]}, open(path, "w"))
                    jobs[w].append({"driver": driver, "seeds": ids[w::WORKERS], "cases": path})
                del cases
            else:
                base = seed * 10_000_000
                for w in range(WORKERS):
                    jobs[w].append({"driver": driver, "seeds": list(range(base + w, base + n, WORKERS)), "cases": None})
        procs = []
        for w in range(WORKERS):
            jp, op, lp = (os.path.join(scratch, "%s%d" % (k, w)) for k in ("job", "out", "log"))
            json.dump({"prop": prop, "tier": tier, "parts": jobs[w], "cap": cap, "batch": 250, "out": op}, open(jp, "w"))
            procs.append((subprocess.Popen([PY, os.path.join(HERE, "py", "worker.py"), jp], stdout=open(lp, "w"),
                                           stderr=subprocess.STDOUT, env=env(), cwd=scratch), op, lp))
        outs = []
        for p, op, lp in procs:
            try:
                p.wait(timeout=max(60, t0 + cap + 400 - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
            if not os.path.exists(op):
                print(open(lp).read()[-4000:], file=sys.stderr)
                print("worker failed (exit %s)" % p.returncode, file=sys.stderr)
                for q, _, _ in procs:
                    q.kill()
                return 2
            outs.append(json.load(open(op)))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return report(prop, tier, seed, outs, model_stats, t0)


def report(prop, tier, seed, outs, model_stats, t0):
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    tot, stats, fails, samples, distinct = collections.Counter(), collections.Counter(), [], [], set()
    for o in outs:
        for k in ("traces", "events", "states", "undef", "deferred", "open", "seeds", "skipped", "slow"):
            tot[k] += o[k]
        stats.update(o["stats"])
        fails += o["fails"]
        samples += o["samples"][:1]
        distinct.update(o["distinct"])
    if tot["slow"] > max(8, tot["seeds"] // 50):
        fails.append({"driver": "-", "seed": "-", "clause": "no answer", "want": "an answer within a minute", "at": 0, "event": 0, "call": "eval",
                      "back": None, "got": "%d of %d programs" % (tot["slow"], tot["seeds"]), "label": "", "trace": []})
    listed = known(prop)
    new, old = [], {}
    for f in fails:
        s = signature(f)
        if s in listed:
            old[s] = listed[s]
        else:
            new.append(f)
    new.sort(key=lambda f: len(f["trace"]))
    for k in sorted(old):
        print("KNOWN-FINDING: property=%s %s" % (prop, old[k]))
    bykey = collections.OrderedDict()
    for f in new:
        bykey.setdefault((f["call"], f["back"], f["clause"], str((f["got"] or {}).get("exc") if isinstance(f["got"], dict) else "")), []).append(f)
    for i, (k, fs) in enumerate(list(bykey.items())[:6]):
        path = os.path.join(EVID, "replays", "%s-%d.json" % (prop, i))
        json.dump({"property": prop, "tier": tier, **fs[0]}, open(path, "w"), indent=1)
        f = fs[0]
        print("%d x clause=%s call=%s backend=%s driver=%s seed=%s want=%s got=%s" % (
            len(fs), f["clause"], f["call"], f["back"], f["driver"], f["seed"], str(f["want"])[:300], str(f["got"])[:300]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": config.LEVEL,
          "coverage": {
              "states": tot["states"] + sum(m["states"] for m in model_stats),
              "transitions": tot["events"] + sum(m["transitions"] for m in model_stats),
              "traces_validated_against_impl": tot["traces"],
              "samples": samples[:3],
              "programs_or_histories": tot["seeds"],
              "distinct_traces": len(distinct),
              "events_judged": tot["events"],
              "results_left_open_by_the_specification": tot["undef"],
              "symbolic_elements_compared_numerically": tot["deferred"] - tot["open"],
              "symbolic_elements_left_open": tot["open"],
              "programs_given_up_after_a_minute": tot["slow"],
              "seeds_not_reached_before_the_time_cap": tot["skipped"],
              "models": model_stats,
              "by_call": {k: v for k, v in sorted(stats.items())},
          },
          "assumptions": ["TLC evaluates the specification correctly", "host arrays are read back faithfully by numpy",
                          "floats are exact rationals in the specification; symbolic results are compared within an error bound"],
          "wall_s": round(time.time() - t0, 1), "violations": len(new)}
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    print("%s %s: %d traces, %d events, %d states, %d failures, %.0f s" % (
        prop, tier, tot["traces"], tot["events"], ev["coverage"]["states"], len(new), time.time() - t0))
    return 1 if new else 0


def replay(path):
    f = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix="ein-replay")
    try:
        cases = None
        if f.get("case") is not None:
            cases = os.path.join(scratch, "cases.json")
            json.dump({f["seed"]: f["case"]}, open(cases, "w"))
        jp, op = os.path.join(scratch, "job"), os.path.join(scratch, "out")
        json.dump({"prop": f["property"], "tier": f["tier"], "cap": 600, "batch": 1, "out": op,
                   "parts": [{"driver": f["driver"], "seeds": [f["seed"]], "cases": cases}]}, open(jp, "w"))
        subprocess.run([PY, os.path.join(HERE, "py", "worker.py"), jp], env=env(), cwd=scratch, check=True)
        o = json.load(open(op))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for x in o["fails"]:
        for i, e in enumerate(x["trace"]):
            print(i + 1, json.dumps(e))
        print("clause=%s event=%s want=%s got=%s" % (x["clause"], x["event"], x["want"], x["got"]))
        print("VIOLATION property=%s replay=%s" % (f["property"], path))
    return 1 if o["fails"] else 0


def main():
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    return run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))


if __name__ == "__main__":
    sys.exit(main())
