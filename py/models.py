"""Running TLC on the models that enumerate cases to replay on the real code."""
import json, os, re, zlib
import tlc


def pick(x, tier):
    return x[tier] if isinstance(x, dict) else x


def enumerate_cases(model, tier, scratch, seed, k):
    """One in k of the cases a model emits, as {number: case}, and statistics.

    A model writes one JSON text per line, in whatever order TLC finds the
    states; which are taken depends on the seed and the text only.
    """
    module = pick(model["module"], tier)
    out = os.path.join(scratch, module + ".out")
    if os.path.exists(out):
        os.remove(out)
    rc, log = tlc.java(module + ".tla", pick(model["cfg"], tier), {"EIN_OUT": out}, scratch, workers=model.get("workers", 8),
                       timeout=model.get("timeout", 1500), xmx=model.get("xmx", "8g"), extra=model.get("extra", ()))
    if rc != 0:
        raise tlc.TlcError(log[-3000:])
    chosen, total = [], 0
    with open(out) as f:
        for line in f:
            total += 1
            if (zlib.crc32(line.encode()) + seed) % k == 0:
                chosen.append(line)
    os.remove(out)
    chosen.sort()
    gen, dist = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", log)[-1]
    cases = [json.loads(json.loads(x)) for x in chosen]
    g = model.get("group")
    if g:      # several small cases in one program; neighbours are alike, so deal them out
        n = -(-len(cases) // g)
        cases = [cases[i::n] for i in range(n)]
    return (dict(enumerate(cases)),
            {"module": module, "transitions": int(gen.replace(",", "")), "states": int(dist.replace(",", "")),
             "cases": total, "replayed": len(chosen)})
