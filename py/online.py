"""Writing programs directly: every call goes to the real library and is logged.

Handles overload Python's operators the way Ein's arrays do, so that motifs
read like Ein programs.  A Python number becomes a raw constant operand.
"""
from __future__ import annotations
import numpy as np
import plan
from plan import Run, Abort, jt, tjson, make_const, is_raw, to_numpy, spec_value, type_of, std, fold, array, wrap, phi, Variable, _to_array, _T, OPS1, OPS2

NONE = {"k": "none"}


class X:
    __slots__ = ("on", "id")

    def __init__(self, on, i):
        self.on, self.id = on, i

    @property
    def obj(self):
        return self.on.objs[self.id]

    def _2(self, op, other, rev=False, v="m"):
        o = self.on.lift(other)
        return self.on.op2(op, o, self) if rev else self.on.op2(op, self, o)

    def __add__(s, o): return s._2("add", o)
    def __radd__(s, o): return s._2("add", o, True)
    def __sub__(s, o): return s._2("sub", o)
    def __rsub__(s, o): return s._2("sub", o, True)
    def __mul__(s, o): return s._2("mul", o)
    def __rmul__(s, o): return s._2("mul", o, True)
    def __truediv__(s, o): return s._2("div", o)
    def __rtruediv__(s, o): return s._2("div", o, True)
    def __mod__(s, o): return s._2("mod", o)
    def __lt__(s, o): return s._2("lt", o)
    def __le__(s, o): return s._2("le", o)
    def __gt__(s, o): return s._2("gt", o)
    def __ge__(s, o): return s._2("ge", o)
    def eq(s, o): return s._2("eq", o)
    def ne(s, o): return s._2("ne", o)
    def __and__(s, o): return s._2("and", o)
    def __or__(s, o): return s._2("or", o)
    def min(s, o): return s._2("min", o)
    def max(s, o): return s._2("max", o)
    def __neg__(s): return s.on.op1("neg", s)
    def __invert__(s): return s.on.op1("not", s)
    def __abs__(s): return s.on.op1("abs", s)
    def float(s): return s.on.op1("float", s)
    def exp(s): return s.on.op1("exp", s)
    def sin(s): return s.on.op1("sin", s)
    def cos(s): return s.on.op1("cos", s)
    def tanh(s): return s.on.op1("tanh", s)
    def recip(s): return s.on.op1("recip", s)

    def __pow__(s, n):
        return s.on.powi(s, n) if isinstance(n, int) else s._2("pow", n)

    def __getitem__(s, it):
        r = s
        for i in it if isinstance(it, tuple) else (it,):
            r = s.on.get(r, i)
        return r

    def size(s, ax=0): return s.on.size(s, ax)
    def concat(s, o): return s.on.concat(s, o)
    def reduce(s, init, f): return s.on.reduce(s, init, f)
    def or_empty(s, i, d): return s.on.orempty(s, i, d)
    def assume(s, o): return s.on.emit("assume", [s, o], 0, lambda: s.on.ein(s.obj).assume(o.obj))
    def where(s, a, b): return s.on.where(s, a, b, "method")
    def proj(s, k): return s.on.proj(s, k)


class On(Run):
    def __init__(self):
        super().__init__(None)
        self.trying = False
        self.evals = []

    def handle(self):
        return X(self, self.nb)

    def lift(self, v):
        if v is None:      # built from something refused
            raise Abort()
        return v if isinstance(v, X) else self.c(v)

    # -- leaves -----------------------------------------------------------
    def _const(self, x, raw):
        ins = {"id": self.nb + 1, "op": "const", "x": x, "raw": raw, "rawarr": raw}
        self.step(ins)
        return self.handle()

    def c(self, v, raw=True):
        k = "b" if isinstance(v, bool) else "i" if isinstance(v, int) else "f"
        return self._const({"lib": "py", "dt": k, "sh": [], "d": [v]}, raw)

    def arr(self, data, dt=None, lib="np", lay="C", sh=None, raw=False):
        a = np.array(data)
        if sh is not None:
            a = a.reshape(sh)
        dt = dt or ("b" if a.dtype == bool else "i" if a.dtype.kind == "i" else "f")
        return self._const({"lib": lib, "dt": dt, "sh": list(a.shape), "d": a.reshape(-1).tolist(), "lay": lay}, raw)

    def var(self, t):
        self.step({"id": self.nb + 1, "op": "var", "t": t})
        return self.handle()

    # -- calls --------------------------------------------------------------
    def emit(self, op, a, x, thunk, b=(), sz=(), t=NONE, hidden=False):
        ids = [h.id for h in a]
        try:
            obj = thunk()
            out = self.good(obj)
        except Abort:
            raise
        except Exception as e:
            obj, out = None, self.fail(e)
        if hidden:
            out["hidden"] = True
        self.log(None, op, ids, [s.id for s in b], [s.id for s in sz], x, t, out)
        self.objs[self.nb] = obj
        if not out["ok"]:
            if not self.trying:
                raise Abort()
            return None
        return self.handle()

    def op1(self, op, a):
        return self.emit(op, [a], 0, lambda: OPS1[op](self.ein(a.obj)))

    def op2(self, op, a, b, v=None):
        def thunk():
            p, q = a.obj, b.obj
            if op in ("min", "max") and v == "std":
                return getattr(std, op)(p, q)
            if op in ("min", "max", "pow", "mod", "and", "or") or is_raw(p) and is_raw(q):
                p = self.ein(p)
            if op == "pow" and isinstance(q, int):
                q = self.ein(q)
            return OPS2[op](p, q)
        return self.emit(op, [a, b], 0, thunk)

    def powi(self, a, n):
        return self.emit("powi", [a], n, lambda: self.ein(a.obj) ** n)

    def get(self, v, i):
        i = self.lift(i)
        return self.emit("get", [v, i], 0, lambda: self.ein(v.obj)[i.obj])

    def slice(self, v, *items):
        pat = ["all" if i is None else "item" for i in items]
        ops = [self.lift(i) for i in items if i is not None]
        def thunk():
            it = iter(ops)
            key = tuple(slice(None) if p == "all" else next(it).obj for p in pat)
            return self.ein(v.obj)[key if len(key) > 1 else key[0]]
        return self.emit("slice", [v, *ops], pat, thunk)

    def size(self, v, ax=0):
        return self.emit("size", [v], ax, lambda: self.ein(v.obj).size(ax) if ax else self.ein(v.obj).size())

    def concat(self, *vs, std_=False):
        """Several arguments: the inner concatenations are not seen."""
        if len(vs) == 2:
            p, q = vs
            return self.emit("concat", [p, q], 0, lambda: std.concat(self.ein(p.obj), self.ein(q.obj)) if std_ else self.ein(p.obj).concat(self.ein(q.obj)))
        if len(vs) == 1:
            return vs[0]
        real = lambda: std.concat(*[self.ein(v.obj) for v in vs])
        r = vs[-1]
        for k in range(len(vs) - 2, -1, -1):
            l = r
            if k:
                r = self.emit("concat", [vs[k], l], 0, lambda: self.ein(vs[k].obj).concat(self.ein(l.obj)), hidden=True)
            else:
                r = self.emit("concat", [vs[0], l], 0, real)
        return r

    def minmax(self, op, *xs):
        xs = [self.lift(x) for x in xs]
        real = lambda: getattr(std, op)(*[x.obj for x in xs])
        if len(xs) == 1:
            return xs[0]
        r = xs[0]
        for k in range(1, len(xs)):
            l = r
            if k < len(xs) - 1:
                r = self.emit(op, [l, xs[k]], 0, lambda: OPS2[op](self.ein(l.obj), xs[k].obj), hidden=True)
            else:
                r = self.emit(op, [l, xs[k]], 0, real)
        return r

    def where(self, c, a, b, v="std"):
        c, a, b = self.lift(c), self.lift(a), self.lift(b)
        if v == "std" and type_of(a.obj)["k"] == "r":
            return self.where_r(c, a, b)
        return self.emit("where", [c, a, b], 0, lambda: self.ein(c.obj).where(a.obj, b.obj) if v == "method" else std.where(self.ein(c.obj), a.obj, b.obj))

    def where_r(self, c, a, b):
        """std.where on records, logged component by component."""
        try:
            r = std.where(self.ein(c.obj), a.obj, b.obj)
        except Exception as e:
            self.log(None, "where", [c.id, a.id, b.id], [], [], 0, NONE, self.fail(e))
            self.objs[self.nb] = None
            if self.trying:
                return None
            raise Abort()
        return self._where_parts(c, a, b, r)

    def _where_parts(self, c, a, b, r):
        t = type_of(a.obj)
        ws = []
        for k in range(len(t["e"])):
            p, q = self.proj(a, k), self.proj(b, k)
            rk = _comp(r, k)
            if t["e"][k]["k"] == "r":
                ws.append(self._where_parts(c, p, q, rk))
            else:
                ws.append(self.emit("where", [c, p, q], 0, lambda: rk))
        return self.emit("mk", ws, {"g": t["g"], "n": t["n"]}, lambda: r)

    def orempty(self, v, i, d):
        i, d = self.lift(i), self.lift(d)
        return self.emit("orempty", [v, i, d], 0, lambda: self.ein(v.obj).or_empty(i.obj, d.obj))

    def mk(self, g, names, *cs, v=""):
        cs = [self.lift(x) for x in cs]
        def thunk():
            os = [x.obj for x in cs]
            if g == "t":
                return os if v == "list" else tuple(os)
            return dict(zip(names, os)) if g == "d" else plan.CLASSES[g](*os)
        return self.emit("mk", cs, {"g": g, "n": list(names)}, thunk)

    def tup(self, *cs):
        return self.mk("t", (), *cs)

    def proj(self, r, k):
        return self.emit("proj", [r], k + 1, lambda: _comp(r.obj, k))

    def ext(self, f, *args):
        args = [self.lift(a) for a in args]
        return self.emit("ext", args, f.rstrip("?"), lambda: plan.EXTS[f](*[a.obj for a in args]))

    # -- binders --------------------------------------------------------------
    def _sym(self, kind, obj, t):
        self.sym(self.nb + 1, kind, obj, t)
        return self.handle()

    def _sizes(self, sz):
        if sz is None:
            return []
        return [self.lift(s) for s in (sz if isinstance(sz, tuple) else (sz,))]

    def _bind(self, op, pre, syms, ret, sz, x, thunk):
        try:
            obj = thunk()
            out = self.good(obj)
        except Abort:
            raise
        except Exception as e:
            obj, out = None, self.fail(e)
        body = ret[0].id if ret else self.nb + 2
        self.log(None, op, [h.id for h in pre] + [body], [s.id for s in syms], [s.id for s in sz], x, NONE, out)
        self.objs[self.nb] = obj
        if not out["ok"]:
            if not self.trying:
                raise Abort()
            return None
        return self.handle()

    def array(self, f, n=1, sz=None):
        sz = self._sizes(sz)
        n = max(n, len(sz), getattr(getattr(f, "__code__", None), "co_argcount", 0))
        syms, ret = [], []
        def cons(*idx):
            syms[:] = [self._sym("idx", i, jt("i")) for i in idx]
            ret[:] = [self.lift(f(*syms))]
            return ret[0].obj
        fn = {1: lambda i: cons(i), 2: lambda i, j: cons(i, j), 3: lambda i, j, k: cons(i, j, k), 4: lambda i, j, k, l: cons(i, j, k, l)}[n]
        s = [h.obj for h in sz]
        return self._bind("array", [], syms, ret, sz, 0, lambda: array(fn) if not s else array(fn, size=s[0] if len(s) == 1 else tuple(s)))

    def fold(self, init, f, count=None):
        init, sz = self.lift(init), self._sizes(count)
        t = type_of(init.obj)
        syms, ret = [], []
        def step(i, a):
            syms[:] = [self._sym("ctr", i, jt("i")), self._sym("acc", a, t)]
            ret[:] = [self.lift(f(*syms))]
            return ret[0].obj
        return self._bind("fold", [init], syms, ret, sz, 0, lambda: fold(init.obj, step, count=sz[0].obj if sz else None))

    def reduce(self, v, init, f):
        init = self.lift(init)
        tv = type_of(v.obj)
        t = tv["e"] if tv["k"] == "v" else NONE
        syms, ret = [], []
        def comb(p, q):
            syms[:] = [self._sym("elt", p, t), self._sym("elt", q, t)]
            ret[:] = [self.lift(f(*syms))]
            return ret[0].obj
        return self._bind("reduce", [init, v], syms, ret, [], 0, lambda: self.ein(v.obj).reduce(init.obj, comb))

    def helper(self, fam, kind, f, count=None):
        """fam: fold|reduce; kind: sum|min|max|argmin"""
        sz = self._sizes(count)
        syms, ret = [], []
        def body(i):
            syms[:] = [self._sym("ctr" if fam == "fold" else "idx", i, jt("i"))]
            ret[:] = [self.lift(f(*syms))]
            return ret[0].obj
        return self._bind("ffold" if fam == "fold" else "rfold", [], syms, ret, sz, kind,
                          lambda: getattr(std, fam + "_" + kind)(body, sz[0].obj) if sz else getattr(std, fam + "_" + kind)(body))

    def let(self, bound, f):
        b = self.ein(bound.obj)
        v = Variable()
        st = phi.variable(v, b.expr.type)
        s = self._sym("var", _to_array(st), type_of(bound.obj))
        body = f(s)
        return self._bind("let", [bound], [s], [body], [], 0, lambda: _to_array(phi.Let(v, b.expr, self.ein(body.obj).expr)))

    # -- other events ---------------------------------------------------------
    def refuse(self, what, thunk):
        try:
            thunk()
            out = {"ok": True, "exc": ""}
        except Exception as e:
            out = {"ok": False, "exc": type(e).__name__}
        self.events.append({"ev": "refuse", "what": what, "out": out})


def _comp(o, k):
    import dataclasses
    if isinstance(o, (tuple, list)):
        return o[k]
    if isinstance(o, dict):
        return list(o.values())[k]
    if dataclasses.is_dataclass(o):
        return getattr(o, dataclasses.fields(o)[k].name)
    raise TypeError("not a record")


def program(f, *args):
    """Run a motif f(on, ...); its return value (handles) is what gets evaluated."""
    on = On()
    on.roots = []
    try:
        r = f(on, *args)
        on.roots = [h for h in (r if isinstance(r, (list, tuple)) else [r]) if h is not None]
        on.roots = sum((leaves(on, h) for h in on.roots), [])[:12]
    except Abort:
        on.aborted = True
    return on


def leaves(on, h):
    t = type_of(h.obj)
    if t["k"] == "r":
        return sum((leaves(on, on.proj(h, k)) for k in range(len(t["e"]))), [])
    u = t
    while u["k"] == "v":
        u = u["e"]
    if u["k"] != "r":
        return [h]
    # a vector of records: the vectors of its components, through comprehensions
    def path(t, pre):
        return sum((path(e, pre + [k]) for k, e in enumerate(t["e"])), []) if t["k"] == "r" else [pre]
    rank, q = 0, t
    while q["k"] == "v":
        q, rank = q["e"], rank + 1
    out = []
    for p in path(q, []):
        def body(*idx):
            r = h
            for i in idx:
                r = r[i]
            for k in p:
                r = r.proj(k)
            return r
        out += leaves(on, on.array(body, n=rank))
    return out


def evaluate(on, backs=("naive", "numpy", "torch", "jax")):
    for h in on.roots:
        for b in backs:
            on.eval(h.id, b)
    return on
