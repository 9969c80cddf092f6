"""Plans: Ein programs as data, and their execution on the real library.

A plan is {"block": [instr..], "evals": [...]}.  An instruction is a call of
one public combinator; ids are consecutive in execution order, so that the
recorded trace (one event per call) is a behaviour of spec/EinCore.tla.
"""
from __future__ import annotations
import collections, dataclasses, functools, math, os, sys
os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
import warnings
warnings.filterwarnings("ignore")
import numpy as np
np.seterr(all="ignore")
sys.path.insert(0, "/repo")
sys.setrecursionlimit(5000)
import ein
from ein.frontend import layout as _lay
from ein.frontend.ndarray import Scalar, Vec, _to_array, ext as ein_ext, wrap
from ein.frontend import std
from ein.frontend.comprehension import array, fold
from ein.phi import phi
from ein.phi import type_system as ts
from ein.symbols import Variable
import torch
import jax
import jax.numpy as jnp
torch.set_num_threads(1)


class Abort(Exception):
    """A combinator refused: the rest of the plan cannot run."""


@dataclasses.dataclass
class Point:
    x: object
    y: object


@dataclasses.dataclass
class Triple:
    values: object
    items: object
    z: object


@dataclasses.dataclass
class Box:
    only: object


CLASSES = {"Point": Point, "Triple": Triple, "Box": Box}

KINDS = {bool: "b", int: "i", float: "f"}
NPK = {"b": bool, "i": int, "f": float}


def jt(t):
    return {"k": t} if isinstance(t, str) else t


def type_of(obj):
    """Type of a user-level object, with record structure."""
    if isinstance(obj, bool):
        return jt("b")
    if isinstance(obj, int):
        return jt("i")
    if isinstance(obj, float):
        return jt("f")
    if isinstance(obj, (np.ndarray, torch.Tensor, jnp.ndarray)):
        return type_of(wrap(obj))
    if isinstance(obj, Scalar):
        return jt(KINDS[obj.expr.type.kind]) if isinstance(obj.expr.type, ts.Scalar) else {"k": "?"}
    if isinstance(obj, Vec):
        return _combine(obj.expr.type, obj.layout)
    if isinstance(obj, (tuple, list)):
        return {"k": "r", "g": "t", "n": [], "e": [type_of(o) for o in obj]}
    if isinstance(obj, dict):
        return {"k": "r", "g": "d", "n": list(obj), "e": [type_of(o) for o in obj.values()]}
    if dataclasses.is_dataclass(obj):
        fs = [f.name for f in dataclasses.fields(obj)]
        return {"k": "r", "g": type(obj).__name__, "n": fs, "e": [type_of(getattr(obj, f)) for f in fs]}
    return {"k": "?" + type(obj).__name__}


def _combine(t, lay):
    match lay:
        case _lay.AtomLayout():
            return jt(KINDS[t.kind]) if isinstance(t, ts.Scalar) else {"k": "?"}
        case _lay.VecLayout(sub):
            return {"k": "v", "e": _combine(t.elem, sub)} if isinstance(t, ts.Vector) else {"k": "?"}
        case _lay.PositionalLayout(subs, tag):
            return {"k": "r", "g": "t", "n": [], "e": _comp_list(t, subs)}
        case _lay.LabelledLayout(subs, tag):
            return {"k": "r", "g": tag.__name__ if tag else "d", "n": [n for n, _ in subs],
                    "e": _comp_list(t, [s for _, s in subs])}
    return {"k": "?"}


def _comp_list(t, subs):
    out = []
    for i, sub in enumerate(subs):
        if i + 1 == len(subs):
            out.append(_combine(t, sub))
        else:
            if not isinstance(t, ts.Pair):
                return out + [{"k": "?"}]
            out.append(_combine(t.first, sub))
            t = t.second
    return out


# --- extrinsic host functions (meaning in EinCore.tla: ExtMean) -----------
TICKS = collections.Counter()


def _sum(x):
    return x.sum(-1)


def _w(a):
    n = a.shape[-1]
    if isinstance(a, torch.Tensor):
        return torch.arange(1, n + 1, dtype=a.dtype)
    if isinstance(a, np.ndarray) or np.isscalar(a):
        return np.arange(1, n + 1).astype(a.dtype)
    return jnp.arange(1, n + 1).astype(a.dtype)


def e_lin3(a, b, c):
    TICKS["e_lin3"] += 1
    return a + 2.0 * b + 4.0 * c


def e_isub(a, b):
    TICKS["e_isub"] += 1
    return a - 2 * b


def e_lt(a, b):
    TICKS["e_lt"] += 1
    return a < b


def e_not(a):
    TICKS["e_not"] += 1
    return ~a if not isinstance(a, (bool, np.bool_)) else np.logical_not(a)


def e_wsum(a):
    TICKS["e_wsum"] += 1
    return _sum(a * _w(a))


def e_dot(a, b):
    TICKS["e_dot"] += 1
    return _sum(a * b)


def e_cums(a):
    TICKS["e_cums"] += 1
    if isinstance(a, torch.Tensor):
        return torch.cumsum(a, -1)
    return a.cumsum(-1)


def e_matvec(a, b):
    TICKS["e_matvec"] += 1
    return _sum(a * b[..., None, :])


def e_rev(a):
    TICKS["e_rev"] += 1
    if isinstance(a, torch.Tensor):
        return torch.flip(a, (-1,))
    return a[..., ::-1]


def e_scale(a, b):
    TICKS["e_scale"] += 1
    return a[..., None] * b


class _Shift:
    """A host function without a name."""

    def __call__(self, a):
        return a + 3.0


e_obj = _Shift()
e_part = functools.partial(e_lin3, 1.0, 0.0)


BOOM = [False]     # makes e_tick fail, as host code may


def e_tick(a):
    TICKS["e_tick"] += 1
    if BOOM[0]:
        raise RuntimeError("boom")
    return a + 1.0


def e_tick2(a):
    TICKS["e_tick2"] += 1
    return a * 2.0


_T = {"i": ts.Scalar(int), "f": ts.Scalar(float), "b": ts.Scalar(bool)}
for _k in "ifb":
    _T["v" + _k] = ts.Vector(_T[_k])
    _T["vv" + _k] = ts.Vector(_T["v" + _k])
    for _d in range(3, 7):
        _T["v" * _d + _k] = ts.Vector(_T["v" * (_d - 1) + _k])
EXT_SIGS = {
    "e_lin3": (("f", "f", "f"), "f"), "e_isub": (("i", "i"), "i"), "e_lt": (("f", "f"), "b"),
    "e_not": (("b",), "b"), "e_wsum": (("vf",), "f"), "e_dot": (("vf", "vf"), "f"),
    "e_cums": (("vf",), "vf"), "e_matvec": (("vvf", "vf"), "vf"), "e_rev": (("vi",), "vi"),
    "e_scale": (("f", "vf"), "vf"), "e_tick": (("f",), "f"), "e_tick2": (("f",), "f"),
    "e_obj": (("f",), "f"), "e_part": (("f",), "f"),
}


def _mk_exts():
    out = {}
    for name, (a, r) in EXT_SIGS.items():
        out[name] = ein_ext(globals()[name], ([_T[x] for x in a], _T[r]))
        out[name + "?"] = ein_ext(globals()[name], _T[r])
    return out


EXTS = _mk_exts()

# --- operators ------------------------------------------------------------
OPS1 = {
    "neg": lambda a: -a, "not": lambda a: ~a, "float": lambda a: a.float(),
    "exp": lambda a: a.exp(), "sin": lambda a: a.sin(), "cos": lambda a: a.cos(),
    "abs": lambda a: abs(a), "tanh": lambda a: a.tanh(), "recip": lambda a: 1.0 / a,
}
OPS2 = {
    "add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
    "div": lambda a, b: a / b, "mod": lambda a, b: a % b, "pow": lambda a, b: a ** b,
    "min": lambda a, b: a.min(b), "max": lambda a, b: a.max(b),
    "lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b,
    "eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "and": lambda a, b: a & b, "or": lambda a, b: a | b,
}


def is_raw(o):
    return isinstance(o, (bool, int, float, np.ndarray, torch.Tensor, jnp.ndarray))


def make_const(x):
    """x = {"lib","dt","sh","d"[,"lay"]} -> the Python object handed to Ein."""
    lib = x["lib"]
    if lib == "py":
        v = x["d"][0]
        return {"b": bool, "i": int, "f": float}[x["dt"][0]](v)
    dt = {"f": "float64", "i": "int64", "b": "bool", "f4": "float32", "i4": "int32", "f2": "float16", "i2": "int16"}[x["dt"]]
    a = np.array(x["d"], dtype=dt).reshape(x["sh"])
    lay = x.get("lay", "C")
    if lay == "F":
        a = np.asfortranarray(a)
    elif lay == "neg" and a.ndim:
        a = np.ascontiguousarray(a[::-1])[::-1]
    elif lay == "ro":
        a.flags.writeable = False
    elif lay == "view" and a.ndim:
        big = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
        big[tuple(slice(None, None, 2) for _ in a.shape)] = a
        a = big[tuple(slice(None, None, 2) for _ in a.shape)]
    elif lay == "bc" and a.ndim:  # broadcast view with stride 0 when possible
        if a.shape[0] > 0 and all((a[i] == a[0]).all() for i in range(a.shape[0])):
            a = np.broadcast_to(a[0], a.shape)
    if lib == "torch":
        return torch.from_numpy(np.ascontiguousarray(a).copy())
    if lib == "jax":
        return jnp.asarray(a, dtype=a.dtype)
    return a


def exact(v, k):
    """JSON form of one number: ["e", n, d] if exactly a small n/d else ["o",0,0]."""
    if k == "b":
        return ["e", int(bool(v)), 1]
    if k == "i":
        v = int(v)
        return ["e", v, 1] if abs(v) <= 10**9 else ["o", 0, 0]
    v = float(v)
    if math.isinf(v):
        return ["e", 1 if v > 0 else -1, 0]
    if math.isnan(v):
        return ["o", 0, 0]
    n, d = v.as_integer_ratio()
    if abs(n) <= 10**9 and d <= 65536:
        return ["e", n, d]
    return ["o", 0, 0]


def spec_scalar(v, k):
    """A number as a value of the specification."""
    if k == "b":
        return {"s": "b", "v": bool(v)}
    if k == "i":
        return {"s": "i", "v": int(v)}
    e = exact(v, "f")
    if e[0] == "e":
        return {"s": "f", "v": [e[1], e[2]]}
    return {"s": "u", "k": "f"}


def spec_value(a, k):
    a = np.asarray(a)
    if a.ndim == 0:
        return spec_scalar(a[()], k)
    if a.shape[0] == 0:
        return {"s": "v", "e": [], "p": spec_proto(a.shape[1:], k)}
    return {"s": "v", "e": [spec_value(x, k) for x in a], "p": {"s": "n"}}


def spec_proto(sh, k):
    if not sh:
        return {"s": "u", "k": k}
    return {"s": "v", "e": [spec_proto(sh[1:], k) for _ in range(sh[0])],
            "p": spec_proto(sh[1:], k) if sh[0] == 0 else {"s": "n"}}


def np_kind(dt):
    dt = np.dtype(dt)
    return "b" if dt == bool else "i" if np.issubdtype(dt, np.integer) else "f" if np.issubdtype(dt, np.floating) else "?"


def to_numpy(r):
    if isinstance(r, torch.Tensor):
        return r.detach().cpu().numpy()
    return np.asarray(r)


UNSUP_JAX = ("ConcretizationTypeError", "TracerIntegerConversionError", "TracerArrayConversionError",
             "TracerBoolConversionError", "NonConcreteBooleanIndexError")
UNSUP_JAX_MSG = ("Array slice indices must have static start/stop/step",
                 "Shapes must be 1D sequences of concrete values")


def jax_unsupported(e):
    """Sizes and slice positions computed by a running loop are not supported by jax."""
    return type(e).__name__ in UNSUP_JAX or any(m in str(e) for m in UNSUP_JAX_MSG)


def observe(r):
    a = to_numpy(r)
    k = np_kind(a.dtype)
    out = {"ok": True, "k": k, "sh": list(a.shape), "d": [exact(v, k) for v in a.reshape(-1).tolist()]}
    return out, a


class Run:
    """Executes a plan; self.events is the trace, self.arrays the raw results."""

    def __init__(self, plan):
        self.plan = plan
        self.objs = {}
        self.events = []
        self.nb = 0
        self.raw = {}          # event position -> numpy array (for deferred terms)
        self.inputs = {}       # const id -> (object, copy)
        self.results = []      # (event no, result object, copy)
        self.vars = {}
        self.unsup = collections.Counter()
        self.aborted = False

    # -- trace ------------------------------------------------------------
    def log(self, ins, op, a, b, sz, x, t, out):
        self.nb += 1
        self.events.append({"ev": "build", "c": {"op": op, "a": a, "b": b, "sz": sz, "x": x, "t": t}, "out": out})

    def fail(self, e):
        return {"ok": False, "exc": type(e).__name__, "msg": str(e)[:200], "t": {"k": "none"}}

    def good(self, obj):
        return {"ok": True, "t": type_of(obj)}

    def sym(self, i, kind, obj, t):
        self.objs[i] = obj
        self.log(None, kind, [], [], [], 0, t, self.good(obj))

    def run_block(self, block):
        for ins in block:
            self.step(ins)

    def guard(self, ins, op, a, b, sz, x, t, thunk):
        try:
            obj = thunk()
            out = self.good(obj)
        except Abort:
            raise
        except Exception as e:  # refused
            self.log(ins, op, a, b, sz, x, t, self.fail(e))
            self.objs[ins["id"]] = None
            if not ins.get("try"):
                raise Abort()
            return
        self.log(ins, op, a, b, sz, x, t, out)
        self.objs[ins["id"]] = obj

    def step(self, ins):
        op = ins["op"]
        O = lambda i: self.objs[ins["a"][i]]
        none = {"k": "none"}
        a = ins.get("a", [])
        assert self.nb + 1 == ins["id"] or op in ("array", "fold", "reduce", "let", "wherer", "call"), (self.nb, ins)
        if op == "const":
            x = ins["x"]
            obj = make_const(x)
            if is_raw(obj) and not isinstance(obj, (bool, int, float)):
                self.inputs[ins["id"]] = (obj, to_numpy(obj).copy())
            k = x["dt"][0]
            val = spec_value(np.array(x["d"], dtype={"f": float, "i": int, "b": bool}[k]).reshape(x["sh"]) if x["lib"] != "py"
                             else x["d"][0], k)
            t = {"k": k}
            if x["lib"] != "py":
                for _ in x["sh"]:
                    t = {"k": "v", "e": t}
                if not ins.get("rawarr"):
                    obj = wrap(obj)
            elif not ins.get("raw"):
                obj = wrap(obj)
            self.objs[ins["id"]] = obj
            self.log(ins, "const", [], [], [], val, t, self.good(obj))
        elif op == "var":
            v = Variable()
            self.vars[ins["id"]] = v
            t = ins["t"]
            ty = _T[t]
            obj = _to_array(phi.variable(v, ty))
            self.sym(ins["id"], "var", obj, tjson(t))
        elif op in OPS1:
            self.guard(ins, op, a, [], [], 0, none, lambda: OPS1[op](self.ein(O(0))))
        elif op in OPS2:
            def thunk():
                p, q = O(0), O(1)
                v = ins.get("v")
                if op in ("min", "max") and v == "std":
                    return getattr(std, op)(p, q)
                if op in ("min", "max", "pow", "mod", "and", "or") or is_raw(p) and (is_raw(q) or not isinstance(q, (Scalar, Vec)) or not isinstance(p, (bool, int, float))):
                    p = self.ein(p)
                if op == "pow" and isinstance(q, int):
                    q = self.ein(q)
                return OPS2[op](p, q)
            self.guard(ins, op, a, [], [], 0, none, thunk)
        elif op == "powi":
            self.guard(ins, op, a, [], [], ins["x"], none, lambda: self.ein(O(0)) ** ins["x"])
        elif op == "where":
            def thunk():
                c, t, f = O(0), O(1), O(2)
                if ins.get("v") == "method":
                    return self.ein(c).where(t, f)
                return std.where(self.ein(c), t, f)
            self.guard(ins, op, a, [], [], 0, none, thunk)
        elif op == "wherer":
            self.where_rec(ins)
        elif op == "get":
            def thunk():
                v = self.ein(O(0))
                return v[O(1)]
            self.guard(ins, op, a, [], [], 0, none, thunk)
        elif op == "orempty":
            self.guard(ins, op, a, [], [], 0, none, lambda: self.ein(O(0)).or_empty(O(1), O(2)))
        elif op == "size":
            self.guard(ins, op, a, [], [], ins["x"], none, lambda: self.ein(O(0)).size(ins["x"]))
        elif op == "concat":
            def thunk():
                p, q = self.ein(O(0)), self.ein(O(1))
                return std.concat(p, q) if ins.get("v") == "std" else p.concat(q)
            self.guard(ins, op, a, [], [], 0, none, thunk)
        elif op == "mk":
            def thunk():
                cs = [self.objs[i] for i in a]
                g, n = ins["x"]["g"], ins["x"]["n"]
                if g == "t":
                    return list(cs) if ins.get("v") == "list" else tuple(cs)
                if g == "d":
                    return dict(zip(n, cs))
                return CLASSES[g](*cs)
            self.guard(ins, op, a, [], [], ins["x"], none, thunk)
        elif op == "proj":
            def thunk():
                o = O(0)
                k = ins["x"] - 1
                if isinstance(o, (tuple, list)):
                    return o[k]
                if isinstance(o, dict):
                    return o[ins["name"]]
                return getattr(o, ins["name"])
            self.guard(ins, op, a, [], [], ins["x"], none, thunk)
        elif op == "assume":
            self.guard(ins, op, a, [], [], 0, none, lambda: self.ein(O(0)).assume(O(1)))
        elif op == "ext":
            f = ins["x"]
            self.guard(ins, op, a, [], [], f.rstrip("?"), none, lambda: EXTS[f](*[self.objs[i] for i in a]))
        elif op == "array":
            self.do_array(ins)
        elif op == "fold":
            self.do_fold(ins)
        elif op == "reduce":
            self.do_reduce(ins)
        elif op == "let":
            self.do_let(ins)
        elif op == "call":
            ins["fun"](self, ins)
        else:
            raise AssertionError(op)

    def ein(self, o):
        return wrap(o) if is_raw(o) else o

    def where_rec(self, ins):
        """std.where on records: logged as its component-wise expansion."""
        # ins: {"op":"wherer","a":[c,t,f],"parts":[{"projt","projf","w"}...],"mk":id,"x":{g,n}}
        c, t, f = (self.objs[i] for i in ins["a"])
        try:
            r = std.where(self.ein(c), t, f)
        except Exception as e:
            self.log(ins, "where", ins["a"], [], [], 0, {"k": "none"}, self.fail(e))
            raise Abort()
        def comp(o, k):
            if isinstance(o, (tuple, list)):
                return o[k]
            if isinstance(o, dict):
                return list(o.values())[k]
            return getattr(o, [q.name for q in dataclasses.fields(o)][k])
        ws = []
        for k, part in enumerate(ins["parts"]):
            for who, src, nm in ((1, t, "projt"), (2, f, "projf")):
                self.objs[part[nm]] = comp(src, k)
                self.log(ins, "proj", [ins["a"][who]], [], [], k + 1, {"k": "none"}, self.good(comp(src, k)))
            self.objs[part["w"]] = comp(r, k)
            self.log(ins, "where", [ins["a"][0], part["projt"], part["projf"]], [], [], 0, {"k": "none"}, self.good(comp(r, k)))
            ws.append(part["w"])
        self.objs[ins["id"]] = r
        self.log(ins, "mk", ws, [], [], ins["x"], {"k": "none"}, self.good(r))

    def size_arg(self, ins):
        sz = ins.get("sz") or []
        return [self.objs[s] for s in sz]

    def do_array(self, ins):
        syms, sz = ins["b"], ins.get("sz") or []
        def cons(*idx):
            if len(idx) != len(syms):
                raise AssertionError("constructor called with %d indices" % len(idx))
            for s, i in zip(syms, idx):
                self.sym(s, "idx", i, jt("i"))
            self.run_block(ins["block"])
            return self.objs[ins["ret"]]
        fns = {1: lambda i: cons(i), 2: lambda i, j: cons(i, j), 3: lambda i, j, k: cons(i, j, k), 4: lambda i, j, k, l: cons(i, j, k, l)}
        fn = fns[len(syms)]
        def thunk():
            if not sz:
                return array(fn)
            s = self.size_arg(ins)
            return array(fn, size=s[0] if len(s) == 1 else tuple(s))
        self.guard(ins, "array", [ins["ret"]], syms, sz, 0, {"k": "none"}, thunk)

    def do_fold(self, ins):
        c, acc = ins["b"]
        init = self.objs[ins["a"][0]]
        t = ins["t"]
        def step(i, x):
            self.sym(c, "ctr", i, jt("i"))
            self.sym(acc, "acc", x, t)
            self.run_block(ins["block"])
            return self.objs[ins["ret"]]
        s = self.size_arg(ins)
        self.guard(ins, "fold", [ins["a"][0], ins["ret"]], ins["b"], ins.get("sz") or [], 0, {"k": "none"},
                   lambda: fold(init, step, count=s[0] if s else None))

    def do_reduce(self, ins):
        x, y = ins["b"]
        init, vec = (self.objs[i] for i in ins["a"])
        t = ins["t"]
        def f(p, q):
            self.sym(x, "elt", p, t)
            self.sym(y, "elt", q, t)
            self.run_block(ins["block"])
            return self.objs[ins["ret"]]
        self.guard(ins, "reduce", [*ins["a"], ins["ret"]], ins["b"], [], 0, {"k": "none"},
                   lambda: self.ein(vec).reduce(init, f))

    def do_let(self, ins):
        (s,) = ins["b"]
        bound = self.ein(self.objs[ins["a"][0]])
        v = Variable()
        st = phi.variable(v, bound.expr.type)
        self.sym(s, "var", _to_array(st), ins["t"])
        self.run_block(ins["block"])
        body = self.ein(self.objs[ins["ret"]])
        self.guard(ins, "let", [ins["a"][0], ins["ret"]], ins["b"], [], 0, {"k": "none"},
                   lambda: _to_array(phi.Let(v, bound.expr, body.expr)))

    # -- evaluation ---------------------------------------------------------
    def eval(self, h, back, env=None, keep=True, via=None):
        """Evaluate node h on a backend and log it.  Returns the raw result."""
        env = env or {}
        obj = self.ein(self.objs[h])
        real_env = {self.vars[v]: a for v, (a, k) in env.items()}
        before = {v: a for v, a in real_env.items()}
        try:
            if via is not None:
                r = via(obj, real_env)
            elif env:
                r = obj.eval(env=real_env, backend=back)
            else:
                r = obj.eval(backend=back)
            out, a = observe(r)
        except Exception as e:
            if back == "jax" and jax_unsupported(e):
                self.unsup["jax-dynamic"] += 1
                return None
            out = self.fail(e)
            a = r = None
        ev = {"ev": "eval", "h": h, "back": back,
              "env": [{"h": v, "v": spec_value(a_, k)} for v, (a_, k) in env.items()], "out": out}
        if env and (set(before) != set(real_env) or any(real_env[q] is not before[q] for q in before)):
            ev["envchanged"] = True
        self.events.append(ev)
        if a is not None:
            self.raw[len(self.events)] = a
            if keep:
                self.results.append((len(self.events), r, a.copy()))
        return r

    def reread(self):
        """Look at every user array and every earlier result again."""
        for cid, (obj, copy) in self.inputs.items():
            now = to_numpy(obj)
            same = now.shape == copy.shape and now.dtype == copy.dtype and np.array_equal(now, copy, equal_nan=now.dtype.kind == "f")
            self.events.append({"ev": "read", "id": "input %d" % cid, "out": {"same": bool(same)}})
        for eno, obj, copy in self.results:
            now = to_numpy(obj)
            same = now.shape == copy.shape and np.array_equal(now, copy, equal_nan=now.dtype.kind == "f")
            self.events.append({"ev": "read", "id": "result %d" % eno, "out": {"same": bool(same)}})


def tjson(t):
    if isinstance(t, dict):
        return t
    r = {"k": t[-1]}
    for _ in t[:-1]:
        r = {"k": "v", "e": r}
    return r


def run_plan(plan, evals=None):
    r = Run(plan)
    try:
        r.run_block(plan["block"])
    except Abort:
        r.aborted = True
    return r
