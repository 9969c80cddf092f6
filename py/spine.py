"""Replaying the terms enumerated by spec/MCSpine.tla on the real library."""
import json, random
import numpy as np
import extras, online, plan, special
from plan import Abort
from online import On, type_of

DATA = {"V": [1.0, -2.0, 4.0], "W": [0.5, 8.0], "M": [[1.0, 2.0, -3.0], [5.0, -0.5, 0.0]], "K": [2, -1, 1]}
OPS2 = {"add", "sub", "mul", "min", "max", "mod", "lt", "le", "eq"}


def free(t, bound=()):
    """Indices of a term that nothing in it binds."""
    o, a, x = t["o"], t["a"], t["x"]
    if o == "id":
        return {x} - set(bound) & {"i", "j"} if x in ("i", "j") and x not in bound else set()
    if o == "array" or o.startswith(("ffold:", "rfold:")):
        return free(a[0], {*bound, x}).union(*[free(s, bound) for s in a[1:]])
    if o == "fold":
        return free(a[0], bound) | free(a[1], {*bound, x}).union(*[free(s, bound) for s in a[2:]])
    return set().union(*[free(s, bound) for s in a])


class Builder:
    def __init__(self, on, inputs, share=False):
        self.on, self.inp, self.memo = on, inputs, {} if share else None

    def term(self, t, sc):
        """Equal terms of one scope are one object if shared, and built anew otherwise."""
        if self.memo is None:
            return self.build(t, sc)
        key = (json.dumps(t), tuple(sorted((k, v.id) for k, v in sc.items())))
        if key not in self.memo:
            self.memo[key] = self.build(t, sc)
        return self.memo[key]

    def build(self, t, sc):
        on, o, a, x = self.on, t["o"], t["a"], t["x"]
        go = lambda k: self.term(a[k], sc)
        if o == "num":
            return on.c(float(x) if "." in x or "inf" in x else int(x))
        if o == "in":
            return self.inp[x]
        if o == "id":
            return sc[x]
        if o == "array":
            sz = go(1) if len(a) > 1 else None
            return on.array(lambda p: self.term(a[0], {**sc, x: p}), sz=sz)
        if o == "fold":
            sz = go(2) if len(a) > 2 else None
            return on.fold(go(0), lambda p, q: self.term(a[1], {**sc, x: p, "a": q}), sz)
        if o == "reduce":
            z, v = go(0), go(1)
            return on.reduce(v, z, lambda p, q: self.term(a[2], {**sc, "p": p, "q": q}))
        if o == "let":
            z = go(0)
            if isinstance(z.obj, (int, float)):
                z = on.c(z.obj, raw=False)
            return on.let(z, lambda p: self.term(a[1], {**sc, "it": p}))
        if o[:6] in ("ffold:", "rfold:"):
            sz = go(1) if len(a) > 1 else None
            return on.helper("fold" if o[0] == "f" else "reduce", o[6:], lambda p: self.term(a[0], {**sc, x: p}), sz)
        xs = [self.term(s, sc) for s in a]
        if o in OPS2:
            return on.op2(o, *xs)
        if o in ("neg", "float"):
            return on.op1(o, *xs)
        if o == "get":
            return on.get(*xs)
        if o == "where":
            return on.where(*xs)
        if o == "orempty":
            return on.orempty(*xs)
        if o == "concat":
            return on.concat(*xs)
        if o == "size":
            return on.size(xs[0], int(x))
        if o == "slice":
            return on.slice(xs[0], None, xs[1])
        if o == "tup":
            return on.tup(*xs)
        if o == "proj":
            return on.proj(xs[0], int(x))
        if o.startswith("ext:"):
            return on.ext(o[4:], *xs)
        raise AssertionError(o)


def close(b, on, t, order, sizes):
    """The comprehension over the indices still free, outermost first."""
    def nest(k, sc):
        if k == len(order):
            return b.term(t, sc)
        n = order[k]
        sz = sizes[n]
        return on.array(lambda p: nest(k + 1, {**sc, n: p}), sz=None if sz is None else on.c(sz))
    return nest(0, {})


VAR = {"V": "vf", "W": "vf", "M": "vvf", "K": "vi"}


def inputs(on, kinds):
    """How each input enters the program: an array or a free variable."""
    return {k: on.var(VAR[k]) if kinds == "var" else on.arr(DATA[k]) for k in DATA}


def used(t):
    return ({t["x"]} if t["o"] == "in" else set()).union(*[used(s) for s in t["a"]])


def grow(on, case, inp, inferred=False, flip=False, sizes=None, share=False):
    t = case["t"]
    fr = sorted(free(t), reverse=flip)
    return close(Builder(on, inp, share), on, t, fr, {n: None if inferred else (sizes or {"i": 3, "j": 2})[n] for n in fr})


def program(case, **how):
    return online.program(lambda on: grow(on, case, inputs(on, "arr"), **how))


def variants(case, seed):
    h = seed % 4
    out = [dict(flip=bool(h & 1), sizes={"i": 3, "j": 2} if h & 2 else {"i": 2, "j": 4})]
    if free(case["t"]):
        out.append(dict(inferred=True, flip=not h & 1))
    return out


def runs(backs, jax=0):
    """The same term under several closings, each on the given backends."""
    def drv(case, seed, tier):
        out = []
        for v in variants(case, seed):
            on = program(case, **v)
            on.label = "spine"
            if not on.aborted:
                online.evaluate(on, list(backs) + (["jax"] if jax and seed % jax == 0 else []))
            out.append(on)
        return out
    return drv


def flags(case, seed, tier):
    r = random.Random(seed)
    v = r.choice(variants(case, seed))
    on = program(case, **v)
    on.label = "spine flags"
    return on if on.aborted or not on.roots else extras.switched(on, [h.id for h in on.roots], seed, r, 4)


def env(case, seed, tier):
    """Inputs are free variables, bound to arrays of changing lengths."""
    r = random.Random(seed)
    on = special.EnvRun()
    on.roots, on.label = [], "spine env"
    try:
        inp = inputs(on, "var")
        h = grow(on, case, inp, **r.choice(variants(case, seed)))
        hs = online.leaves(on, h)
    except Abort:
        on.aborted = True
        return on
    need = used(case["t"])
    for k in range(3):
        back = ("numpy", "torch", "naive")[(seed + k) % 3]
        n, m = r.choice([0, 1, 2, 3]), r.choice([0, 1, 2, 3, 4])
        dims = {"V": [n], "W": [m if r.random() < 0.5 else n], "K": [r.choice([n, 2])], "M": [m, n] if r.random() < 0.6 else [n, n]}
        e = {}
        for q in need:
            a, o = special.env_value(r, VAR[q], back, dims[q])
            e[inp[q].id] = (a, VAR[q][-1], o)
        for h in hs[:2]:
            on.eval_env(h.id, back, e)
    return on


def grad(case, seed, tier):
    """The derivative with respect to one of the float inputs."""
    r = random.Random(seed)
    need = sorted(used(case["t"]) - {"K"})
    on = extras.GradRun()
    on.roots, on.label = [], "spine grad"
    if not need or case["ty"] == "i":
        on.aborted = True
        return on
    name = r.choice(need)
    how = r.choice(["passed", "captured"])
    data = {"V": [1.0, -2.25, 4.0], "W": [0.625, 8.0], "M": [[1.25, 2.0, -3.0], [5.0, -0.75, 0.375]]}
    try:
        inp = {k: on.symbol(how, np.array(data[k]), "torch") if k == name else on.arr(data.get(k, DATA[k])) for k in DATA}
        h = grow(on, case, inp, **r.choice(variants(case, seed)))
        hs = online.leaves(on, h)
    except Abort:
        on.aborted = True
        return on
    for h in hs[:1]:
        on.grad(h.id, r, "torch")
        if how == "passed" and r.random() < 0.1:
            on.grad(h.id, r, "jax")
    return on


def printing(case, seed, tier):
    r = random.Random(seed)
    on = program(case, **r.choice(variants(case, seed)))
    on.label = "spine print"
    if on.aborted:
        return on
    for h in on.roots[:1]:
        on.eval(h.id, "numpy")
        for k in range(4):
            extras.print_event(on, h.id, r.choice(extras.PRINTS), seed + k)
        on.eval(h.id, "numpy")
    return on


LAYS = ["C", "F", "neg", "view", "bc", "ro"]


def pure(case, seed, tier):
    """Evaluations of one program in some order, again and again; nothing the user holds may change."""
    r = random.Random(seed)
    on = special.EnvRun()
    on.roots, on.label = [], "spine pure"
    lib = r.choice(["np", "np", "torch"])
    bound = {k for k in DATA if r.random() < 0.4}
    try:
        inp = {k: on.var(VAR[k]) if k in bound else on.arr(DATA[k], lib=lib, lay=r.choice(LAYS) if lib == "np" else "C") for k in DATA}
        h = grow(on, case, inp, **r.choice(variants(case, seed)))
        hs = online.leaves(on, h)[:2]
    except Abort:
        on.aborted = True
        return on
    e = {}
    for q in bound & used(case["t"]):
        a = plan.make_const({"lib": lib, "dt": VAR[q][-1], "sh": list(np.shape(DATA[q])), "d": np.array(DATA[q]).reshape(-1).tolist(),
                             "lay": r.choice(LAYS)})
        e[inp[q].id] = (plan.to_numpy(a).copy(), VAR[q][-1], a)
    evs = [(h.id, b) for h in hs for b in (("naive", "numpy", "numpy", "torch") if lib == "np" else ("torch", "torch"))]
    r.shuffle(evs)
    for h, b in evs[:6]:
        on.eval_env(h, b, e)
    on.reread()
    return on


def work(case, seed, tier):
    """How often the host functions of a term run."""
    out = []
    if "e_tick" not in json.dumps(case["t"]):
        return out
    for k, v in enumerate(variants(case, seed)):
        on = program(case, share=bool((seed + k) & 1), **v)
        on.label = "spine work"
        if not on.aborted:
            for h in on.roots[:2]:
                for b in ("numpy", "torch"):
                    special.ticks(on, h.id, b)
        out.append(on)
    return out
