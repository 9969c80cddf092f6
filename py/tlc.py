"""Running TLC on a batch of recorded traces."""
import json, os, re, shutil, subprocess, tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


def java(module, cfg, env, scratch, workers=1, timeout=800, xmx="2g", extra=()):
    md = os.path.join(scratch, "md")
    shutil.rmtree(md, ignore_errors=True)
    os.makedirs(md)
    cmd = ["java", "-Xss256m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + xmx, "-Djava.io.tmpdir=" + scratch,
           "-XX:TieredStopAtLevel=4",
           "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module)]
    try:
        p = subprocess.run(cmd, env={**os.environ, **env}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout, cwd=SPEC)
    except subprocess.TimeoutExpired as e:
        raise TlcError("TLC timed out on %s" % module) from e
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return p.returncode, p.stdout


def judge(traces, module="EinTrace.tla", cfg="EinTrace.cfg", timeout=800):
    """Verdicts for a list of traces: {"fails", "deferred", "undef", "states"}.

    A trace on which TLC cannot evaluate the specification is no behaviour of
    it; it is reported as a failure with clause "unjudgeable" and the rest of
    the batch is judged without it.
    """
    scratch = tempfile.mkdtemp(prefix="eintlc")
    res = {"fails": [], "deferred": [], "undef": 0, "states": 0}
    idx = list(range(len(traces)))
    try:
        while idx:
            fin, fout = os.path.join(scratch, "in.json"), os.path.join(scratch, "out.json")
            with open(fin, "w") as f:
                json.dump({"traces": [traces[i] for i in idx]}, f)
            if os.path.exists(fout):
                os.remove(fout)
            rc, log = java(module, cfg, {"EIN_TRACES": fin, "EIN_OUT": fout}, scratch, timeout=timeout)
            done = None
            if os.path.exists(fout):
                with open(fout) as f:
                    done = json.load(f)
            bad = None
            if rc != 0 or done is None:
                m = re.findall(r"^(?:/\\ )?t = (\d+)", log, re.M)
                if not m or "OutOfMemory" in log or "ran out of memory" in log:
                    raise TlcError(log[-3000:])
                bad = int(m[-1])
            m = re.findall(r"([\d,]+) states generated", log)
            res["states"] += int(m[-1].replace(",", "")) if m else 0
            if done:
                res["fails"] += [{**f, "t": idx[f["t"] - 1]} for f in done["fails"] if bad is None or f["t"] < bad]
                res["deferred"] += [{**f, "t": idx[f["t"] - 1]} for f in done["deferred"] if bad is None or f["t"] < bad]
                res["undef"] += done["undef"]
            elif bad is not None and bad > 1:
                r = judge([traces[i] for i in idx[:bad - 1]], module, cfg, timeout)
                res["fails"] += [{**f, "t": idx[f["t"]]} for f in r["fails"]]
                res["deferred"] += [{**f, "t": idx[f["t"]]} for f in r["deferred"]]
                res["undef"] += r["undef"]
                res["states"] += r["states"]
            if bad is None:
                break
            res["fails"].append({"t": idx[bad - 1], "l": 0, "clause": "unjudgeable", "want": _why(log), "at": 0})
            idx = idx[bad:]
        return res
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _why(log):
    m = re.search(r"Error: (.*?)\n(?:Error: The behavior|State 1|\d+\. Line)", log, re.S)
    return (m.group(1) if m else log)[-600:]
