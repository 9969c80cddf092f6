"""One worker: produce traces from the real code, have TLC judge them."""
import collections, hashlib, json, os, signal, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tlc, symbolic


class Slow(BaseException):
    pass


def numeric_failures(run, defs):
    """Deferred symbolic elements of one event compared with what was seen."""
    bad, n, open_ = [], 0, 0
    a = run.raw.get(defs["l"])
    if a is None:
        return bad, n, open_
    flat = a.reshape(-1)
    for d in defs["def"]:
        r = symbolic.agrees(d["e"], flat[d["p"] - 1])
        n += 1
        if r is None:
            open_ += 1
        elif not r:
            bad.append({"at": d["p"], "want": symbolic.show(d["e"])[:300], "got": str(flat[d["p"] - 1])})
    return bad, n, open_


def alarm(*_):
    raise Slow("no answer within the time limit")


class Crash:
    """A run whose driver could not finish: the code behaved in a way the
    harness has no event for."""
    stats, label, raw = {}, "", {}

    def __init__(self, e):
        self.events = [{"ev": "crash", "out": {"ok": False, "exc": type(e).__name__, "msg": traceback.format_exc()[-1500:]}}]


def main():
    job = json.load(open(sys.argv[1]))
    import drivers
    t0 = time.time()
    out = {"fails": [], "stats": collections.Counter(), "traces": 0, "events": 0, "states": 0, "undef": 0,
           "deferred": 0, "open": 0, "seeds": 0, "skipped": 0, "slow": 0, "samples": [], "distinct": []}
    distinct = set()
    signal.signal(signal.SIGALRM, alarm)
    for part in job["parts"]:
        drv = drivers.DRIVERS[part["driver"]]
        cases = json.load(open(part["cases"])) if part["cases"] else None
        seeds, pos = part["seeds"], 0
        while pos < len(seeds):
            if time.time() - t0 > job["cap"]:
                out["skipped"] += len(seeds) - pos
                break
            runs, owner = [], []
            for s in seeds[pos:pos + job["batch"]]:
                signal.alarm(60)
                try:
                    rs = drv(s, job["tier"]) if cases is None else drv(cases[str(s)], s, job["tier"])
                except Slow:
                    # staging time is not part of any property; many such programs are (see check.py)
                    rs = []
                    out["slow"] += 1
                except Exception as e:
                    rs = Crash(e)
                finally:
                    signal.alarm(0)
                for r in rs if isinstance(rs, list) else [rs]:
                    runs.append(r)
                    owner.append(s)
                    out["stats"].update(r.stats)
                    out["events"] += len(r.events)
                out["seeds"] += 1
            pos += job["batch"]
            k = len(out["fails"])
            judge(part["driver"], runs, owner, out, distinct)
            if cases:
                for f in out["fails"][k:]:
                    f["case"] = cases[str(f["seed"])]
    out["wall"] = time.time() - t0
    out["distinct"] = sorted(distinct)
    tmp = job["out"] + ".tmp"
    with open(tmp, "w") as f:
        json.dump(out, f)
    os.rename(tmp, job["out"])


def judge(driver, runs, owner, out, distinct):
    live = []
    for i, r in enumerate(runs):
        if isinstance(r, Crash):
            out["fails"].append(describe(driver, owner[i], r, {"l": 1, "clause": "crash", "want": ""}, r.events[0]))
        else:
            live.append(i)
    traces = []
    for i in live:
        t = {"keep": True, "events": runs[i].events}
        traces.append(t)
        distinct.add(hashlib.sha1(json.dumps(t, sort_keys=True).encode()).hexdigest()[:12])
    if not traces:
        return
    res = tlc.judge(traces)
    out["traces"] += len(traces)
    out["states"] += res["states"]
    out["undef"] += res["undef"]
    if not out["samples"]:
        out["samples"].append({"driver": driver, "seed": owner[live[0]], "events": runs[live[0]].events[:12]})
    per = collections.Counter()
    for f in res["fails"]:
        i = live[f["t"]]
        per[i] += 1
        if per[i] > 4 or len(out["fails"]) > 400:
            continue
        r = runs[i]
        out["fails"].append(describe(driver, owner[i], r, f, r.events[f["l"] - 1] if f["l"] else {}))
    for d in res["deferred"]:
        i = live[d["t"]]
        r = runs[i]
        bad, n, op = numeric_failures(r, d)
        out["deferred"] += n
        out["open"] += op
        if bad:
            out["fails"].append(describe(driver, owner[i], r, {"l": d["l"], "clause": "value", "want": bad[0]["want"],
                                                              "at": bad[0]["at"], "got": bad[0]["got"]}, r.events[d["l"] - 1]))


def describe(driver, seed, run, f, ev):
    d = {"driver": driver, "seed": seed, "clause": f["clause"], "want": f.get("want"), "at": f.get("at", 0), "event": f["l"]}
    d["call"] = ev.get("c", {}).get("op") or ev.get("ev")
    d["back"] = ev.get("back")
    o = ev.get("out") or {}
    d["got"] = f.get("got") or ({"exc": o.get("exc"), "msg": o.get("msg")} if not o.get("ok", True) else
                                {k: (v if k != "d" else v[:40]) for k, v in o.items()})
    d["label"] = getattr(run, "label", "")
    d["trace"] = run.events[:f["l"]] if f["l"] else run.events
    return d


if __name__ == "__main__":
    main()
