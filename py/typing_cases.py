"""Making the calls enumerated by spec/MCTyping.tla on the real library."""
import online
from plan import Abort

VALUES = {"b": True, "i": 2, "f": 1.5, "vb": [True, False], "vi": [1, 0], "vf": [0.5, -2.0],
          "vvi": [[1, 2], [3, 0]], "vvf": [[1.0, 0.5], [2.0, -1.0]]}
EXTS = ("e_lin3", "e_isub", "e_lt", "e_not", "e_wsum", "e_dot", "e_matvec", "e_rev", "e_scale")


def operand(on, t, form, idx):
    """A value of the named type; `elem` ones depend on the index."""
    go = lambda q: operand(on, q, form, idx)
    if t in VALUES:
        if form == "var":
            return on.var(t)
        if form == "elem":
            return on.get(on.arr([VALUES[t], VALUES[t]]), idx)
        return on.c(VALUES[t], raw=False) if len(t) == 1 else on.arr(VALUES[t])
    if t == "tfi":
        return on.tup(go("f"), go("i"))
    if t == "tif":
        return on.tup(go("i"), go("f"))
    if t == "tfv":
        return on.tup(go("f"), go("vf"))
    if t == "dfi":
        return on.mk("d", ("a", "b"), go("f"), go("i"))
    if t == "vtfi":
        return on.array(lambda k: on.tup(go("f"), go("i")), sz=2)
    raise AssertionError(t)


def call(on, op, ts, form, idx):
    mk = lambda k: operand(on, ts[k], form, idx)
    if op == "size":
        return on.size(mk(0))
    if op == "array":
        sz = mk(1)
        return on.array(lambda k: mk(0), sz=(sz,))
    if op == "fold":
        n, init = mk(2), mk(0)
        return on.fold(init, lambda k, a: mk(1), n)
    if op in ("ffold", "rfold"):
        n = mk(1)
        return on.helper("fold" if op == "ffold" else "reduce", "sum", lambda k: mk(0), n)
    if op == "reduce":
        v, init = mk(1), mk(0)
        return on.reduce(v, init, lambda p, q: mk(2))
    xs = [mk(k) for k in range(len(ts))]
    if op in EXTS:
        return on.ext(op, *xs)
    if op == "where":
        return on.where(*xs) if ts[1] in VALUES or ts[0] == "b" else None
    if op == "get":
        return on.get(*xs)
    if op == "concat":
        return on.concat(*xs)
    if op == "orempty":
        return on.orempty(*xs)
    return on.op1(op, *xs) if len(xs) == 1 else on.op2(op, *xs)


def typing(cases, seed, tier):
    def f(on):
        on.trying = True
        for c in cases:
            if c["form"] != "elem":
                call(on, c["op"], c["ts"], c["form"], None)
        def body(k):
            for c in cases:
                if c["form"] == "elem":
                    call(on, c["op"], c["ts"], "elem", k)
            return k
        on.array(body, sz=2)
        return []
    on = online.program(f)
    on.label = "typing"
    return on
