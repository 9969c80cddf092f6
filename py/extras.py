"""More drivers: the operator table, gradients, extrinsic alignment, printing
and the compiler's switches."""
from __future__ import annotations
import collections, contextlib, functools, html, itertools, random, re, signal
import numpy as np
import torch, jax, jax.numpy as jnp
import gen, motifs, online, plan, special
from motifs import arr, iota, num
from online import On, X
from plan import Abort, phi, ts, wrap, _T, spec_value, observe, to_numpy, tjson
from special import EnvRun, FnRun, ALL
import ein

INF = float("inf")

# --- operators (C14) -------------------------------------------------------------
VALS = {"f": [0.0, 1.0, -1.0, 2.0, 0.5, -0.5, 1.5, -2.5, 3.0, 0.25, -4.0, 1024.0, INF, -INF],
        "i": [0, 1, -1, 2, -2, 3, -3, 5, -7, 7, 100, -100], "b": [True, False]}
BIN = ["add", "sub", "mul", "div", "mod", "min", "max", "lt", "le", "gt", "ge", "eq", "ne", "and", "or", "pow"]
KINDS_OF = {**{o: "fi" for o in ("add", "sub", "mul", "min", "max", "lt", "le", "gt", "ge", "eq", "ne")},
            "div": "f", "mod": "i", "and": "b", "or": "b", "pow": "f"}
REFL = {"add", "sub", "mul", "div", "lt", "le", "gt", "ge", "eq", "ne"}
PYOP = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b}


def op_binary(on, r):
    """All pairs of edge values at once, in one of several contexts and operand forms."""
    o = r.choice(BIN)
    k = r.choice(KINDS_OF[o])
    p, q = r.sample(VALS[k], min(len(VALS[k]), r.randint(2, 5))), r.sample(VALS[k], min(len(VALS[k]), r.randint(2, 5)))
    if o == "pow":
        p = r.sample([1.0, 2.0, 0.5, 4.0, 1.5, 9.0, 0.25], 3)
        q = r.sample([0.0, 1.0, 2.0, 0.5, -1.0, -0.5, 3.0, 1.5], 3)
    v, w = on.arr(p, dt=k), on.arr(q, dt=k)
    n, m = len(p), len(q)
    f = lambda a, b: on.op2(o, a, b, v=r.choice(["m", "std"])) if o in ("min", "max") else on.op2(o, a, b)
    form = r.choice(["ein", "ein", "right", "left", "both"])
    if form == "left" and o not in REFL:
        form = "right"
    if o == "pow" and form in ("left", "both"):
        form = "right"
    one, two = r.choice(p), r.choice(q)
    raw2, raw1 = on.c(two, raw=True), on.c(one, raw=True)
    if form == "ein":
        body = lambda i, j: f(v[i], w[j])
    elif form == "right":
        body = lambda i, j: f(v[i], raw2)
    elif form == "left":
        body = lambda i, j: f(raw1, w[j])
    else:
        body = lambda i, j: f(on.c(one, raw=False), w[j])
    c = r.randrange(6)
    if c == 0:
        return on.array(body, sz=(n, m))
    if c == 1:
        return body(r.randrange(n), r.randrange(m))
    if c == 2:
        return on.array(lambda j, i: body(i, j), sz=(m, n))
    if c == 3:     # scalars of their own
        return f(on.c(one, raw=False), on.c(two, raw=False))
    t0 = body(0, 0)
    if c == 4:     # in a loop
        return on.fold(t0, lambda t, a: body(t, t) if r.random() < 0.5 else on.where(t < 1, a, body(t, m - 1)), r.randint(1, 3))
    return on.array(lambda i: on.fold(t0, lambda t, a: body(i, t), m), sz=n)


def op_unary(on, r):
    o = r.choice(["neg", "abs", "not", "float", "exp", "sin", "cos", "tanh", "recip", "powi", "powi", "powi", "powi", "where"])
    k = {"not": "b", "float": "i"}.get(o) or (r.choice("fi") if o in ("neg", "abs", "powi", "where") else "f")
    vals = VALS[k]
    if o in ("exp", "sin", "cos", "tanh"):
        vals = [0.0, 1.0, -1.0, 2.0, 0.5, -0.5, 1.5, -2.5, 3.0, 0.25, -4.0]
    p = r.sample(vals, min(len(vals), r.randint(2, 6)))
    if o == "powi":
        vals = [0.0, 1.0, -1.0, 2.0, 0.5, -0.5, 1.5, 3.0, -4.0] if k == "f" else [0, 1, -1, 2, -2, 3, -3, 5]
        e = r.randint(-7, 12) if k == "f" else r.randint(0, 12)
        p = r.sample([x for x in vals if e >= 0 or x], 4)
    v = on.arr(p, dt=k)
    n = len(p)
    def f(a):
        if o == "powi":
            return on.powi(a, e)
        if o == "where":
            b = on.c(r.choice(vals), raw=r.random() < 0.5)
            return on.where(a < on.c(r.choice(vals)), a, b, r.choice(["std", "method"]))
        return on.op1(o, a)
    c = r.randrange(4)
    if c == 0:
        return on.array(lambda i: f(v[i]), sz=n)
    if c == 1:
        return f(on.c(r.choice(p), raw=False))
    if c == 2:
        t0 = f(v[0])
        return on.fold(t0, lambda t, a: f(v[t]), n)
    return on.array(lambda i, j: f(v[j]) if k == "b" or o == "where" else f(v[j]), sz=(2, n))


def op_mixed(on, r):
    """Longer expressions, with numbers on both sides and precedence up to Python."""
    k = r.choice("fi")
    n = r.randint(1, 4)
    v, w = arr(on, r, k, n), arr(on, r, k, n)
    num_ = lambda: num(r, k)
    def e(i, d):
        c = r.randrange(10 if d else 3)
        if c == 0:
            return v[i]
        if c == 1:
            return w[i]
        if c == 2:
            return i if k == "i" else i.float()
        if c in (3, 4):
            return PYOP[r.choice(["add", "sub", "mul"])](e(i, d - 1), num_())
        if c in (5, 6):
            return PYOP[r.choice(["add", "sub", "mul"])](num_(), e(i, d - 1))
        if c == 7:
            return -e(i, d - 1)
        if c == 8:
            return abs(e(i, d - 1))
        if k == "i":
            return e(i, d - 1) % r.choice([2, 3, -3, 5, -2, 1])
        return r.choice([1.0, -2.0, 3.0]) / (e(i, d - 1) ** 2 + 1.0)
    def cond(i, d):
        c = r.randrange(8 if d else 6)
        a, b = e(i, 1), (num_() if r.random() < 0.5 else e(i, 1))
        if c == 0: return a < b
        if c == 1: return a <= b
        if c == 2: return a > b
        if c == 3: return a >= b
        if c == 4: return a.eq(b)
        if c == 5: return a.ne(b)
        if c == 6: return ~cond(i, d - 1)
        return cond(i, d - 1) & cond(i, d - 1) if r.random() < 0.5 else cond(i, d - 1) | cond(i, d - 1)
    return [on.array(lambda i: e(i, 3), sz=n), on.array(lambda i: on.where(cond(i, 2), e(i, 2), num_()), sz=n), on.array(lambda i: cond(i, 2), sz=n)]


def op_refuse(on, r):
    """Staged values are neither booleans nor iterable."""
    n = r.randint(1, 3)
    k = r.choice("fib")
    v, A = arr(on, r, k, n), arr(on, r, k, n, 2)
    pool = [v, A, A[0], v[0], on.c(num(r, k), raw=False), v[0].eq(v[0]) if k != "b" else ~v[0], on.size(v, 0), on.array(lambda i: v[i])]
    if k != "b":
        pool += [v[0] < v[0], v[0] + v[0]]
    inside = []
    on.array(lambda i: (inside.append((i, v[i])), v[i])[1])
    pool += list(inside[0])
    hs = r.sample(pool, 4)
    z = {"f": 1.0, "i": 1, "b": True}[k]
    for h in hs:
        x = on.ein(h.obj)
        def unpack2():
            a, b = x
        def unpack1():
            a, = x
        def loop():
            for _ in x:
                return
        def cond():
            if x:
                return 1
        def wh():
            while x:
                return 1
        uses = [("bool", lambda: bool(x)), ("not", lambda: not x), ("and", lambda: x and x), ("or", lambda: x or x), ("if", cond), ("while", wh),
                ("iter", lambda: iter(x)), ("for", loop), ("list", lambda: list(x)), ("tuple", lambda: tuple(x)), ("unpack", unpack2),
                ("unpack", unpack1), ("star", lambda: [*x]), ("in", lambda: object() in x), ("any", lambda: any(x)), ("sum", lambda: sum(x)), ("zip", lambda: list(zip(x, [1, 2]))),
                ("sorted", lambda: sorted(x)), ("max", lambda: max(x)), ("map", lambda: list(map(str, x))), ("ternary", lambda: 1 if x else 2),
                ("assert", lambda: exec("assert x", {"x": x})), ("enumerate", lambda: list(enumerate(x)))]
        s = on.ein(on.objs[pool[3].id])
        if k != "b":
            uses += [("chained", lambda: z < s < z), ("chained", lambda: s <= s <= s), ("max of two", lambda: max(s, s)), ("sort", lambda: sorted([s, s]))]
        for what, th in r.sample(uses, 10):
            on.refuse(what, th)
    return [v]


OPERATORS = [op_binary, op_unary, op_mixed, op_binary, op_unary, op_refuse]


def operators(seed, tier):
    r = random.Random(seed)
    f = OPERATORS[seed % len(OPERATORS)]
    on = online.program(f, r)
    if not on.aborted:
        online.evaluate(on, [b for b in ALL if b != "jax" or r.random() < 0.35])
    on.label = f.__name__
    return on


# --- extrinsic functions (C16) ---------------------------------------------------
def x_align(on, r):
    """Operands depending on different indices, in different orders."""
    d = [r.randint(1, 3) if r.random() < 0.85 else 0 for _ in range(3)]
    if r.random() < 0.5:
        d = r.sample([1, 2, 3], 3)
    names = list(range(3))
    cache = {}
    def src(k, idx, inner=()):
        """an array with one axis per index of idx (and inner ones), distinct elements"""
        key = (k, idx, inner)
        if key not in cache:
            cache[key] = iota(on, r, *[d[q] for q in idx], *inner, k=k) if idx or inner else on.c(num(r, k), raw=False)
        return cache[key]
    def operand(k, ixs, inner=()):
        idx = tuple(r.sample(names, r.randint(0, 3)))
        h = src(k, idx, inner)
        for q in idx:
            h = h[ixs[q]]
        if not inner:
            c = r.randrange(6)
            if c == 0 and k in "fi":
                h = h + h
            elif c == 1:
                i = ixs[r.randrange(3)]
                h = i.float() if k == "f" else i if k == "i" else (i < 1)
            elif c == 2 and k == "f":
                h = h * src("f", (0,))[ixs[0]]
        elif r.random() < 0.3:
            b = h
            if len(inner) == 1:
                h = on.array(lambda e: b[e] + ixs[r.randrange(3)].float() if k == "f" else b[e] + ixs[r.randrange(3)], sz=inner[0])
        return h
    f = r.choice(["e_lin3", "e_lin3", "e_isub", "e_lt", "e_wsum", "e_dot", "e_cums", "e_matvec", "e_rev", "e_scale"])
    L, M = r.randint(1, 3), r.randint(1, 3)
    def call(ixs):
        if f == "e_lin3":
            t = on.ext(name(), operand("f", ixs), operand("f", ixs), operand("f", ixs))
        elif f == "e_isub":
            t = on.ext(name(), operand("i", ixs), operand("i", ixs))
        elif f == "e_lt":
            t = on.where(on.ext(name(), operand("f", ixs), operand("f", ixs)), 1.0, -1.0)
        elif f == "e_wsum":
            t = on.ext(name(), operand("f", ixs, (L,)))
        elif f == "e_dot":
            t = on.ext(name(), operand("f", ixs, (L,)), operand("f", ixs, (L,)))
        elif f == "e_matvec":
            t = on.ext(name(), operand("f", ixs, (M, L)), operand("f", ixs, (L,)))
        elif f == "e_scale":
            t = on.ext(name(), operand("f", ixs), operand("f", ixs, (L,)))
        else:
            t = on.ext(name(), operand("i" if f == "e_rev" else "f", ixs, (L,)))
        if f in ("e_cums", "e_matvec", "e_rev", "e_scale"):
            c = r.randrange(3)
            if c == 0:
                t = t[r.randint(-1, 3)]
            elif c == 1:
                b = t
                t = on.array(lambda e: b[e] + b[0])
            else:
                b = t
                t = on.fold(0.0 if f != "e_rev" else 0, lambda s, a: a + b[s])
        return t
    name = lambda: f if r.random() < 0.6 else f + "?"
    order = r.sample(names, 3)
    c = r.randrange(6)
    def put(i, j, k):
        ixs = [None] * 3
        for q, s in zip(order, (i, j, k)):
            ixs[q] = s
        return ixs
    sz = [d[q] for q in order]
    if c == 0:
        return on.array(lambda i, j, k: call(put(i, j, k)), sz=tuple(sz))
    if c == 1:
        return on.array(lambda i: on.array(lambda j, k: call(put(i, j, k)), sz=(sz[1], sz[2])), sz=sz[0])
    if c == 2:     # one of the indices is a counter
        return on.array(lambda i, j: _last(on, r, lambda t: call(put(i, j, t)), sz[2]), sz=(sz[0], sz[1]))
    if c == 3:
        return on.array(lambda i: _last(on, r, lambda t: _last(on, r, lambda u: call(put(i, u, t)), sz[1]), sz[2]), sz=sz[0])
    if c == 4:     # a call of a call
        g = lambda i, j, k: on.ext(r.choice(["e_tick", "e_tick2"]), t if plan.type_of((t := call(put(i, j, k))).obj)["k"] == "f" else on.c(1.0, raw=False))
        return on.array(g, sz=tuple(sz))
    return on.array(lambda k, j, i: call(put(i, j, k)), sz=(sz[2], sz[1], sz[0]))


def _last(on, r, f, n):
    """fold keeping a mixture of what was seen"""
    def step(t, a):
        x = f(t)
        k = plan.type_of(x.obj)["k"]
        if k == "v":
            raise Abort()
        x = x if k == "f" else x.float() if k == "i" else on.where(x, 1.0, -1.0)
        return a * 0.5 + x if r.random() < 0.7 else a.max(x)
    return on.fold(0.0, step, n)


def x_reduce(on, r):
    """Calls inside of the function of a reduction, and over vectors of vectors."""
    n, m = r.randint(0, 5), r.randint(1, 3)
    A, v = iota(on, r, m, n), iota(on, r, n)
    c = r.randrange(5)
    add = lambda x, y: on.ext("e_lin3", x, y * 0.5, on.c(0.0, raw=False))
    if c == 0:
        return on.reduce(v, 0.0, add)
    if c == 1:
        return on.array(lambda i: on.reduce(A[i], 0.0, add), sz=m)
    if c == 2:
        return on.reduce(A, on.arr([0.0] * n, dt="f"), lambda x, y: on.array(lambda j: add(x[j], y[j])))
    if c == 3:
        s = on.array(lambda i: on.ext("e_cums", A[i]), sz=m)
        return [s, on.array(lambda i, j: s[j, i] + v[i], sz=(n, m))]
    k = on.arr([q * 2 - 3 for q in range(m * max(n, 1))], dt="i", sh=[m, max(n, 1)])
    return on.array(lambda i: on.ext("e_rev", k[i]), sz=m)


def x_refuse(on, r):
    """Operands contradicting a declared signature."""
    f = r.choice(list(plan.EXT_SIGS))
    sig = list(plan.EXT_SIGS[f][0])
    mk = {"f": lambda: r.choice([on.c(1.5), on.c(1.5, raw=False)]), "i": lambda: on.c(2), "b": lambda: on.c(True),
          "vf": lambda: iota(on, r, 2), "vi": lambda: iota(on, r, 2, k="i"), "vb": lambda: arr(on, r, "b", 2),
          "vvf": lambda: iota(on, r, 2, 2), "vvi": lambda: iota(on, r, 2, 2, k="i")}
    c = r.randrange(5)
    args = list(sig)
    if c == 0:
        args.pop(r.randrange(len(args)))
    elif c == 1:
        args.insert(r.randint(0, len(args)), r.choice(list(mk)))
    elif c in (2, 3):
        q = r.randrange(len(args))
        args[q] = r.choice([t for t in mk if t != args[q]])
    on.trying = True
    hs = [mk[t]() for t in args]
    out = on.ext(f, *hs)
    inside = []
    if r.random() < 0.4:     # inside of a comprehension
        def body(i):
            xs = [h if plan.type_of(h.obj)["k"] != "f" else h * 1.0 + i.float() for h in hs]
            y = on.ext(f, *xs)
            if y is None or plan.type_of(y.obj)["k"] == "v":
                raise Abort()
            return y
        on.trying = True
        try:
            inside = [on.array(body, sz=2)]
        except Abort:
            inside = []
    on.trying = False
    return [h for h in [out, *inside] if h is not None]


EXTM = [x_align, x_align, x_align, x_reduce, x_refuse]


def ext_motif(seed, tier):
    r = random.Random(seed)
    f = EXTM[seed % len(EXTM)]
    on = online.program(f, r)
    if not on.aborted:
        online.evaluate(on, [b for b in ALL if b != "jax" or r.random() < 0.3])
    on.label = f.__name__
    return on


# --- gradients (C15) -------------------------------------------------------------
class GradRun(FnRun):
    """One differentiated symbol; what it stands for is an array of small size."""

    def symbol(self, how, a, lib):
        """A symbol of the specification that is `a` on the real side."""
        t = "v" * a.ndim + "f"
        self.how, self.lib, self.a = how, lib, a
        if how == "captured":      # a tensor inside of the program
            self.leaf = torch.from_numpy(a.copy()).requires_grad_(True)
            self.sym(self.nb + 1, "var", wrap(self.leaf), tjson(t))
        else:
            self.step({"id": self.nb + 1, "op": "var", "t": t})
        self.wrt = self.nb
        return self.handle()

    def grad(self, h, r, back, env=()):
        """env: other symbols, handle -> array"""
        obj = self.ein(self.objs[h])
        a = self.a
        res = [None]
        w = [r.choice([1.0, -1.0, 2.0, 0.5, 3.0]) for _ in range(400)]
        def weights(sh):
            n = int(np.prod(sh)) if sh else 1
            return np.array(w[:n]).reshape(sh)
        others = {self.vars[v]: q for v, q in dict(env).items()}
        try:
            if back == "torch":
                x = self.leaf if self.how == "captured" else torch.from_numpy(a.copy()).requires_grad_(True)
                e = {} if self.how == "captured" else {self.vars[self.wrt]: x}
                out = obj.eval(env={**e, **{v: torch.from_numpy(q.copy()) for v, q in others.items()}}, backend="torch")
                res[0] = out.shape
                loss = (out * torch.from_numpy(weights(tuple(out.shape)))).sum()
                if loss.requires_grad:
                    g, = torch.autograd.grad(loss, x, allow_unused=True)
                    g = torch.zeros_like(x) if g is None else g
                else:
                    g = torch.zeros_like(x)
                g = to_numpy(g)
            else:
                def loss(x):
                    out = obj.eval(env={self.vars[self.wrt]: x, **{v: jnp.asarray(q) for v, q in others.items()}}, backend="jax")
                    res[0] = out.shape
                    return (out * weights(tuple(out.shape))).sum()
                x = jnp.asarray(a)
                try:
                    g = to_numpy(jax.grad(loss)(x))
                except ValueError as ex:
                    if "Reverse-mode differentiation does not work" not in str(ex):
                        raise
                    g = to_numpy(jax.jacfwd(loss)(x))
            out_, ga = observe(np.asarray(g, dtype=float))
        except Exception as ex:
            if back == "jax" and plan.jax_unsupported(ex):
                self.unsup["jax-dynamic"] += 1
                return
            out_, ga = self.fail(ex), None
        n = 400 if res[0] is None else int(np.prod(res[0])) if len(res[0]) else 1
        if n > 400:
            return
        self.events.append({"ev": "grad", "h": h, "wrt": self.wrt, "back": back,
                            "env": [{"h": self.wrt, "v": spec_value(a, "f")}] + [{"h": v, "v": spec_value(q, "f")} for v, q in dict(env).items()],
                            "w": [spec_value(np.array(q), "f") for q in w[:n]], "out": out_})
        if ga is not None:
            self.raw[len(self.events)] = ga


def distinct(r, *dims):
    """Pairwise different numbers (no ties)."""
    n = int(np.prod(dims)) if dims else 1
    vals = r.sample([0.5 * q for q in range(-8, 9) if q] + [0.75, 1.25, -0.75], n)
    return np.array(vals).reshape(dims)


def g_program(on, r, x, n, m):
    """Differentiable programs of a symbol x: vector n (m = 0), matrix n x m, or scalar (n = 0)."""
    k = iota(on, r, 3)
    at = (lambda *i: x[i[0]]) if m == 0 else (lambda *i: x[i[0], i[-1]])
    if n == 0:
        at = lambda *i: x
        n = 2
    L = r.randint(1, 4)
    c = r.randrange(24)
    if c == 0:      # polynomial
        return on.array(lambda i: at(i) * at(i) * 2.0 - at(i) * 3.0 + 1.0, sz=n)
    if c == 1:      # reversed, clamped, repeated
        return on.array(lambda i: at(n - 1 - i) * k[i] + at(i + 1) * at(i - 1), sz=L)
    if c == 2:      # windows
        return on.array(lambda i: on.fold(0.0, lambda t, a: a + at(i + t) * k[t], 3), sz=L)
    if c == 3:      # gather
        ix = on.arr([r.randint(-1, 3) for _ in range(L)], dt="i")
        return on.array(lambda i: at(ix[i]) * k[i] + at(ix[0]), sz=L)
    if c == 4:      # contraction
        return on.array(lambda i: on.fold(0.0, lambda t, a: a + at(i, t) * at(t, i), n), sz=n)
    if c == 5:      # a product
        return on.fold(1.0, lambda t, a: a * at(t), n)
    if c == 6:      # a recurrence
        return on.fold(k[1], lambda t, a: a * 0.5 + at(t) * a, n)
    if c == 7:      # min and max
        return [on.fold(float("inf"), lambda t, a: a.min(at(t)), n), on.fold(float("-inf"), lambda t, a: a.max(at(t) * k[t]), n)]
    if c == 8:      # reduction
        v = on.array(lambda i: at(i) * k[i], sz=n)
        return [on.reduce(v, 0.0, lambda p, q: p + q), on.reduce(v, 1.0, lambda p, q: p * q)]
    if c == 9:      # affine maps composed (not commutative)
        v = on.array(lambda i: on.tup(at(i), at(i) * 0.5 + 1.0), sz=n)
        s = on.reduce(v, on.tup(1.0, 0.0), lambda p, q: on.tup(p.proj(0) * q.proj(0), p.proj(1) * q.proj(0) + q.proj(1)))
        return [s.proj(0), s.proj(1)]
    if c == 10:     # selection
        return on.array(lambda i: on.where(at(i) > k[i], at(i) * 2.0, at(i) * at(0)), sz=n)
    if c == 11:     # concatenation
        v = on.array(lambda i: at(i) * 2.0, sz=n)
        w = on.concat(v, on.array(lambda i: at(n - 1 - i), sz=n))
        return [w, on.array(lambda i: w[i + 1] * w[i], sz=n)]
    if c == 12:     # vector accumulator
        z = on.array(lambda i: at(i), sz=n)
        return on.fold(z, lambda t, a: on.array(lambda i: a[i] * 0.5 + a[i - 1] * k[t], sz=n), 2)
    if c == 13:     # transcendental
        return on.array(lambda i: (at(i) * 0.5).exp() + at(i).sin() * at(0).cos(), sz=n)
    if c == 14:     # shared subterm
        y = on.array(lambda i: at(i) * at(i), sz=n)
        return on.array(lambda i, j: y[i] * y[j] + y[i], sz=(n, n))
    if c == 15:     # host functions
        return on.array(lambda i: on.ext("e_lin3", at(i), at(0) * k[i], k[i]), sz=n)
    if c == 16:
        v = on.array(lambda i: at(i) * k[i], sz=n)
        return [on.ext("e_dot", v, v), on.ext("e_wsum", v), on.ext("e_cums", v)]
    if c == 17:     # record
        v = on.array(lambda i: on.tup(at(i) * at(i), on.tup(i, at(0) - at(i))), sz=n)
        return [on.array(lambda i: v[i].proj(0) + v[i + 1].proj(1).proj(1), sz=n)]
    if c == 18:     # let
        return on.let(on.array(lambda i: at(i) + k[0], sz=n), lambda y: on.array(lambda i: y[i] * y[i] - y[0], sz=n))
    if c == 19:     # sum of squares and a scaled copy
        s = on.fold(0.0, lambda t, a: a + at(t) * at(t), n)
        return [s, on.array(lambda i: at(i) * s, sz=n)]
    if c == 20:     # not depending on it at all, or only through its size
        return [on.array(lambda i: k[i] * 2.0, sz=L), on.array(lambda i: i.float() + at(i) * 0.0, sz=n)]
    if c == 21:     # powers
        return on.array(lambda i: at(i) ** r.choice([2, 3, 5]) + at(i) ** 1 - at(0) ** 0, sz=n)
    if c == 22:     # nested sums of products: einsum over two counters
        return on.fold(0.0, lambda s, a: a + on.fold(0.0, lambda t, b: b + at(s, t) * k[t] * at(t, s), n), n)
    # argmin and whole-vector selection
    v = on.array(lambda i: at(i), sz=n)
    w = on.where(at(0) > 0.0, v, on.array(lambda i: at(i) * 3.0, sz=n))
    return [w, on.array(lambda i: abs(at(i)), sz=n)]


def grad_motif(seed, tier):
    r = random.Random(seed)
    on = GradRun()
    on.label = "grad"
    n = r.choice([0, 1, 2, 3, 4])
    m = n if n and n < 3 and r.random() < 0.35 else 0
    a = distinct(r, *([] if n == 0 else [n] if m == 0 else [n, m]))
    how = r.choice(["passed", "passed", "captured"])
    on.roots = []
    try:
        x = on.symbol(how, a, "torch")
        hs = g_program(on, r, x, n, m)
        hs = hs if isinstance(hs, list) else [hs]
    except Abort:
        on.aborted = True
        return on
    for h in hs[:2]:
        on.grad(h.id, r, "torch")
        if how == "passed" and r.random() < 0.35:
            on.grad(h.id, r, "jax")
    on.label = "grad " + how
    return on


def grad_random(seed, tier):
    """A random program, differentiated in one of its captured arrays."""
    r = random.Random(seed)
    p = gen.general(seed, p_rec=0.05, p_trans=0.0, p_ext=0.08, dims=[1, 2, 2, 3], nodes=26, libs=["np"], lays=["C"],
                    floats=[1.0, -1.0, 2.0, 0.5, -0.5, 1.5, -2.0, 3.0, 0.25, 0.75, -1.25])
    cands = [i for i in p["block"] if i["op"] == "const" and i["x"]["lib"] == "np" and i["x"]["dt"] == "f" and 0 < len(i["x"]["d"]) <= 6 and not i.get("rawarr")]
    on = GradRun()
    on.roots, on.label = [], "grad random"
    if not cands or _divides(p["block"]):
        on.aborted = True
        return on
    ins = r.choice(cands)
    a = np.array(ins["x"]["d"], dtype=float).reshape(ins["x"]["sh"])
    on.plan = p
    how = r.choice(["passed", "captured"])
    orig = on.step
    def step(i):
        if i["id"] == ins["id"] and i["op"] == "const":
            on.symbol(how, a, "torch")
            return
        orig(i)
    on.step = step
    try:
        on.run_block(p["block"])
    except Abort:
        on.aborted = True
        return on
    finally:
        del on.step
    for h in p["evals"][:2]:
        t = plan.type_of(on.objs[h])
        while t["k"] == "v":
            t = t["e"]
        if t["k"] != "f":
            continue
        on.grad(h, r, "torch")
        if how == "passed" and r.random() < 0.2:
            on.grad(h, r, "jax")
    return on


def _divides(block):
    """Quotients make 0 * inf of unselected branches; autodiff of the host differs there."""
    for i in block:
        if "op" not in i:
            continue
        if i["op"] in ("div", "recip", "pow", "exp", "tanh") or i["op"] == "powi" and i["x"] < 0:
            return True
        if any(_divides(v) for v in i.values() if isinstance(v, list) and v and isinstance(v[0], dict)):
            return True
    return False


def grad_function(seed, tier):
    """Through a staged function, called repeatedly with other values and shapes."""
    r = random.Random(seed)
    on = GradRun()
    on.label = "grad function"
    on.how = "passed"
    n = r.choice([0, 1, 2, 3])
    prog = r.randrange(10 ** 6)
    hs = []
    def body(on_, x):
        t = g_program(on, random.Random(prog), x, n, 0)
        t = t[0] if isinstance(t, list) else t
        hs.append((x.id, t.id))
        return t
    on.define("g", body)
    f = on.fns["g"][0]
    for _ in range(r.randint(1, 3)):
        back = r.choice(["torch", "torch", "torch", "jax"])
        a = distinct(r, *([n] if n else []))
        w = [r.choice([1.0, -1.0, 2.0, 0.5, 3.0]) for _ in range(100)]
        res = [1]
        wt = lambda sh: np.array(w[:int(np.prod(sh)) if sh else 1]).reshape(sh)
        on.key = back
        before = len(on.events)
        try:
            if back == "torch":
                x = torch.from_numpy(a.copy()).requires_grad_(True)
                out = f.torch(x) if r.random() < 0.7 else f(x)
                if isinstance(out, np.ndarray):
                    out = torch.from_numpy(out)
                res[0] = out.numel()
                loss = (out * torch.from_numpy(wt(tuple(out.shape)))).sum()
                g = torch.zeros_like(x)
                if loss.requires_grad:
                    g, = torch.autograd.grad(loss, x, allow_unused=True)
                    g = torch.zeros_like(x) if g is None else g
                g = to_numpy(g)
            else:
                def lossj(x):
                    out = f.jax(x)
                    res[0] = out.size
                    return (out * wt(tuple(out.shape))).sum()
                try:
                    g = to_numpy(jax.grad(lossj)(jnp.asarray(a)))
                except ValueError as ex:
                    if "Reverse-mode differentiation does not work" not in str(ex):
                        raise
                    g = to_numpy(jax.jacfwd(lossj)(jnp.asarray(a)))
            out_, ga = observe(np.asarray(g, dtype=float))
        except Abort:
            on.aborted = True
            return on
        except Exception as ex:
            if back == "jax" and plan.jax_unsupported(ex):
                on.unsup["jax-dynamic"] += 1
                continue
            out_, ga = on.fail(ex), None
        if not hs:
            on.aborted = True
            return on
        on.events[before:] = [e for e in on.events[before:] if e["ev"] != "trace"]
        x_, h_ = hs[-1]
        on.events.append({"ev": "grad", "h": h_, "wrt": x_, "back": back, "env": [{"h": x_, "v": spec_value(a, "f")}],
                          "w": [spec_value(np.array(q), "f") for q in w[:res[0]]], "out": out_})
        if ga is not None:
            on.raw[len(on.events)] = ga
    return on


# --- printing (C19) --------------------------------------------------------------
def canonical(text):
    """Names of bound variables in order of appearance, layout aside (the
    length of a name moves line breaks); a graph is the multiset of its lines."""
    names = {}
    text = html.unescape(text)
    if text.startswith("digraph") or text.startswith("graph"):
        return sorted(re.sub(r"[@$&%][0-9a-zA-Z_]+", "#", re.sub(r"_[0-9]+", "_", x.strip())) for x in text.splitlines())
    text = "".join(text.split())
    return re.sub(r"[@$&%][0-9a-zA-Z_]+", lambda m: names.setdefault(m.group(0), "#%d" % len(names)), text)


class TooLong(BaseException):
    pass


@contextlib.contextmanager
def brief(seconds):
    def stop(*_):
        raise TooLong
    old = signal.signal(signal.SIGALRM, stop)
    left = signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        if left:
            signal.alarm(max(1, left - seconds))


def print_event(r, h, what, seed):
    from ein import debug
    from ein.codegen import phi_to_yarr
    obj = r.ein(r.objs[h])
    q = random.Random(seed)
    def go():
        if what == "phi":
            return debug.pretty_phi(obj.expr)
        if what == "narrow":
            return debug.pretty_phi(obj.expr, width=q.choice([1, 8, 20]), indent=q.choice([0, 1, 4]))
        if what == "array":
            return debug.pretty_yarr_of_phi(obj.expr)
        if what == "array2":
            return debug.pretty_yarr(phi_to_yarr.transform(obj.expr))
        if what == "graph":
            return debug.graph(obj.expr).to_string()
        if what == "agraph":
            return debug.graph(phi_to_yarr.transform(obj.expr)).to_string()
        return repr(obj.expr) + str(obj.expr)
    try:
        with brief(3):
            s1 = go()
            q = random.Random(seed)
            s2 = go()
        toks = sorted(set(re.findall(r"[A-Za-z_]+|[-+*]", s1)))
        out = {"ok": True, "same": canonical(s1) == canonical(s2) and isinstance(s1, str), "toks": toks}
    except TooLong:     # laying out deeply nested brackets takes time exponential in their depth
        r.unsup["slow-print"] += 1
        return
    except Exception as e:
        out = {"ok": False, "exc": type(e).__name__, "msg": str(e)[:200]}
    r.events.append({"ev": "print", "h": h, "what": what, "out": out})


PRINTS = ["phi", "phi", "array", "array2", "graph", "agraph", "narrow", "repr"]


def printing(seed, tier):
    r = random.Random(seed)
    c = seed % 3
    if c == 0:
        p = gen.general(seed, libs=[r.choice(["np", "np", "torch", "jax"])], lays=["C", "F"], p_ext=0.1, nodes=r.choice([8, 16, 24]))
        run = plan.run_plan(p)
        hs = p["evals"]
        lib = p["block"] and next((i["x"]["lib"] for i in p["block"] if i["op"] == "const" and i["x"]["lib"] != "py"), "np")
        run.label = "random"
    else:
        fams = [special.w_scope, special.l_scopes, motifs.fold_einsum, motifs.fold_vector, motifs.red_monoid, motifs.rec_arrays, motifs.rec_fold,
                motifs.ix_matrix, motifs.ix_rank3, motifs.std_concat, motifs.std_where, motifs.sh_kinds, motifs.fold_pattern, x_align, op_mixed, pr_misc, pr_misc]
        f = fams[(seed // 3) % len(fams)]
        run = online.program(f, r)
        hs = [h.id for h in run.roots[:3]]
        lib = getattr(run, "lib", "np")
        run.label = f.__name__
    if run.aborted or not hs:
        return run
    back = {"np": "numpy", "torch": "torch", "jax": "jax"}[lib]
    acts = []
    for h in hs:
        acts += [("eval", h)] * 2 + [("print", h)] * 3
    r.shuffle(acts)
    for k, (a, h) in enumerate(acts):
        if a == "eval":
            run.eval(h, back)
        else:
            print_event(run, h, r.choice(PRINTS), seed + k)
    run.eval(hs[0], back)
    run.reread()
    return run


def pr_misc(on, r):
    """Things that are awkward to print."""
    n = r.randint(0, 3)
    c = r.randrange(10)
    lib = r.choice(["np", "torch", "jax"])
    on.lib = lib
    k = r.choice("fib")
    v = on.arr([num(r, k) for _ in range(n)], dt=k, sh=[n], lib=lib)
    if c == 0:
        return [v, v[0]]
    if c == 1:
        w = on.arr([num(r, "f") for _ in range(2 * n)], dt="f", sh=[n, 2], lib=lib)
        return [on.array(lambda i: on.fold(0.0, lambda t, a: a + w[i, t]))]
    if c == 2:      # a very long line
        x = on.c(1.0, raw=False)
        for q in range(30):
            x = x * 0.5 + float(q % 4)
        return [x]
    if c == 3:      # deep nesting
        on.lib = "np"
        z = iota(on, r, 2, 2, 2)
        return [on.array(lambda i: on.array(lambda j: on.array(lambda l: z[i, j, l] + on.fold(0.0, lambda t, a: a.max(z[l, t, i]), 2), sz=2), sz=2), sz=2)]
    if c == 4:      # strings of markup in names and the like: comparisons
        return [on.array(lambda i: (i < 1) & (i >= 0) | (i.eq(2)), sz=3)]
    if c == 5:      # infinities and negative numbers
        return [on.fold(float("-inf"), lambda t, a: a.max(-1.5), 3), on.c(float("inf"), raw=False), on.c(-3, raw=False)]
    if c == 6:      # host functions without a name
        w = iota(on, r, 3) if lib == "np" else on.arr([1.0, 2.0, 3.0], dt="f", lib=lib)
        return [on.array(lambda i: on.ext("e_part", w[i])), on.array(lambda i: on.ext("e_obj", w[i]))]
    if c == 7:      # reduce over records
        on.lib = "np"
        u = iota(on, r, 3)
        s = on.array(lambda i: on.mk("Point", ("x", "y"), u[i], i)).reduce(on.mk("Point", ("x", "y"), 0.0, 0), lambda p, q: on.mk("Point", ("x", "y"), p.proj(0) + q.proj(0), p.proj(1).max(q.proj(1))))
        return [s.proj(0), s.proj(1)]
    if c == 8:      # a large constant
        big = on.arr([float(q % 7) for q in range(2000)], dt="f", lib=lib)
        return [big[5], on.array(lambda i: big[i * 3], sz=2)]
    e = on.arr([], dt=k, sh=[0], lib=lib)
    return [e, on.array(lambda i: e[i])]


# --- the compiler's switches (C20) ------------------------------------------------
FLAGS = ["use_takes", "use_slice_pads", "use_slice_elision", "use_reductions", "use_einsum", "do_shape_cancellations", "do_tuple_cancellations"]


@contextlib.contextmanager
def switched_off(mod, name):
    """Without one of the compiler's passes (where it goes by this name)."""
    saved = mod.__dict__.get(name)
    if saved is None:
        yield
        return
    setattr(mod, name, lambda p, *a, **k: p)
    try:
        yield
    finally:
        setattr(mod, name, saved)


def compiled(flags, back, how):
    from ein.codegen import phi_to_yarr
    from ein.backend import numpy_backend, torch_backend, jax_backend
    from ein.midend import lining
    def via(obj, env):
        e = obj.expr
        if how == "phi outlined":
            e = lining.outline(e)
        y = phi_to_yarr.transform(e, **flags)
        mod = {"numpy": numpy_backend, "torch": torch_backend, "jax": jax_backend}[back]
        conv = {"numpy": np.asarray, "torch": lambda a: torch.from_numpy(np.asarray(a).copy()) if not isinstance(a, torch.Tensor) else a, "jax": jnp.asarray}[back]
        with contextlib.ExitStack() as st:
            if how in ("no outline", "plain"):
                st.enter_context(switched_off(mod, "outline"))
            if how in ("no inplace", "plain"):
                st.enter_context(switched_off(phi_to_yarr, "apply_inplace_on_temporaries"))
            f = mod.stage_in_array(y)
        return f({v: conv(a) for v, a in env.items()})
    return via


HOWS = {"numpy": ["", "", "no outline", "no inplace", "plain", "phi outlined"], "torch": ["", "no outline", "phi outlined"], "jax": [""]}


def settings(r):
    c = r.randrange(4)
    if c == 0:     # one off
        off = {r.choice(FLAGS)}
    elif c == 1:   # one on
        off = set(FLAGS) - {r.choice(FLAGS)}
    elif c == 2:
        off = set(FLAGS)
    else:
        off = {f for f in FLAGS if r.random() < 0.5}
    return {f: f not in off for f in FLAGS}


SWITCHED = ["ix_vector", "ix_matrix", "ix_rank3", "ix_fold", "ix_scatter", "fold_pattern", "fold_einsum", "fold_vector", "fold_nested", "fold_helpers",
            "red_monoid", "red_batch", "rec_arrays", "rec_fold", "rec_nest", "sh_broadcast", "sh_kinds", "std_concat_inner", "std_where", "std_slices", "ix_const"]


def switched(run, hs, seed, r, k):
    run.__class__ = EnvRun
    for h in hs[:2]:
        for _ in range(k):
            back = r.choice(["numpy", "numpy", "numpy", "torch"] + (["jax"] if r.random() < 0.2 else []))
            fl, how = settings(r), r.choice(HOWS[back])
            try:
                with brief(5):
                    run.eval_env(h, back, {}, via=compiled(fl, back, how))
            except TooLong:     # comparing terms is exponential in the depth of shared subterms
                run.unsup["slow-compile"] += 1
                continue
            if run.events[-1]["ev"] == "eval":
                run.events[-1]["via"] = how + " -" + ",".join(f for f in FLAGS if not fl[f])
    return run


def flags_random(seed, tier):
    r = random.Random(seed)
    p = gen.general(seed, p_fold=0.25)
    run = plan.run_plan(p)
    run.label = "flags"
    return run if run.aborted else switched(run, p["evals"], seed, r, 3)


def flags_motif(seed, tier):
    r = random.Random(seed)
    name = SWITCHED[seed % len(SWITCHED)]
    on = online.program(getattr(motifs, name), r)
    on.label = name
    if on.aborted or not on.roots:
        return on
    return switched(on, [h.id for h in r.sample(on.roots, min(2, len(on.roots)))], seed, r, 3)
