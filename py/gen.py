"""Random generation of Ein programs (plans) directed by types and shapes.

Shapes: () for a scalar, (n, sub) for a vector, [sub, ..] for a record.
Types: "f", "i", "b", ("v", t), ("r", tag, names, (t, ..)).
"""
from __future__ import annotations
import random

F, I, B = "f", "i", "b"


def V(t):
    return ("v", t)


def tj(t):
    if isinstance(t, str):
        return {"k": t}
    if t[0] == "v":
        return {"k": "v", "e": tj(t[1])}
    return {"k": "r", "g": t[1], "n": list(t[2]), "e": [tj(x) for x in t[3]]}


class H:
    __slots__ = ("id", "t", "sh", "taint", "syms", "iv", "sym", "lvl", "nz")

    def __init__(self, id, t, sh, taint=False, syms=frozenset(), iv=None, sym=None, nz=False):
        self.id, self.t, self.sh, self.taint, self.syms, self.iv, self.sym, self.nz = id, t, sh, taint, syms, iv, sym, nz


class Sym:
    """A bound symbol: kind, extent n (if known), inferred or not."""

    def __init__(self, kind, n=None, inferred=False):
        self.kind, self.n, self.inferred = kind, n, inferred


DEFAULT = dict(
    floats=[0.0, 1.0, -1.0, 2.0, 0.5, -0.5, 1.5, -2.0, 3.0, 0.25],
    ints=[0, 1, 2, 3, -1, -2, 4, 5],
    dims=[0, 1, 2, 2, 3, 3, 4],
    depth=3,
    nodes=34,
    cost=2500,
    libs=["np", "np", "np", "np", "np"],
    lays=["C", "C", "C", "C", "F", "neg", "ro", "view", "bc"],
    p_reuse=0.45,
    p_trans=0.05,
    p_infer=0.55,
    p_ext=0.05,
    p_rec=0.12,
    p_raw=0.4,
    p_fold=0.16,
    p_reduce=0.06,
    p_vec=0.12,
    small_floats=False,
)


class Gen:
    def __init__(self, seed, **prof):
        self.r = random.Random(seed)
        self.p = {**DEFAULT, **prof}
        self.n = 0
        self.blocks = [[]]
        self.scope = []
        self.mult = 1
        self.cost = 0
        self.arrays_open = 0
        self.loops_open = 0

    # -- emission -----------------------------------------------------------
    def new_id(self):
        self.n += 1
        return self.n

    def emit(self, op, a, t, sh, x=None, iv=None, nz=False, **kw):
        ins = {"id": self.new_id(), "op": op, "a": [h.id for h in a], **kw}
        if x is not None:
            ins["x"] = x
        self.blocks[-1].append(ins)
        h = H(ins["id"], t, sh, any(q.taint for q in a), frozenset().union(*(q.syms for q in a)) if a else frozenset(), iv, nz=nz)
        self.cost += self.mult
        if op != "const":
            self.scope.append(h)
        return h

    def chance(self, p):
        return self.r.random() < p

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def full(self):
        return self.n > self.p["nodes"] or self.cost > self.p["cost"]

    # -- constants ----------------------------------------------------------
    def num(self, k):
        if k == F:
            return self.pick(self.p["floats"])
        if k == I:
            return self.pick(self.p["ints"])
        return self.chance(0.5)

    def const(self, k, v=None, raw=None):
        if v is None:
            v = self.num(k)
        raw = self.chance(self.p["p_raw"]) if raw is None else raw
        return self.emit("const", [], k, (), x={"lib": "py", "dt": k, "sh": [], "d": [v]}, raw=raw, iv=v if k == I else None,
                         nz=(v != 0))

    def carr(self, k, dims, data=None, lib=None, dt=None, lay=None, raw=None):
        n = 1
        for d in dims:
            n *= d
        if data is None:
            data = [self.num(k) for _ in range(n)]
        t, sh = k, ()
        for d in reversed(dims):
            t, sh = V(t), (d, sh)
        lib = lib or self.pick(self.p["libs"])
        h = self.emit("const", [], t, sh, x={"lib": lib, "dt": dt or k, "sh": list(dims), "d": data,
                                              "lay": lay or self.pick(self.p["lays"])},
                      rawarr=bool(raw) if raw is not None else False)
        self.scope.append(h)
        return h

    # -- shapes ---------------------------------------------------------------
    def dim(self):
        return self.pick(self.p["dims"])

    def rand_shape(self, t):
        if isinstance(t, str):
            return ()
        if t[0] == "v":
            return (self.dim(), self.rand_shape(t[1]))
        return [self.rand_shape(x) for x in t[3]]

    def vol(self, sh):
        if sh == ():
            return 1
        if isinstance(sh, list):
            return sum(self.vol(s) for s in sh)
        return sh[0] * self.vol(sh[1])

    def visible(self, t, sh=None):
        out = [h for h in self.scope if h.t == t and (sh is None or h.sh == sh)]
        return out

    # -- values ---------------------------------------------------------------
    def gen(self, t, sh=None, d=None):
        """A handle of type t (and shape sh)."""
        d = self.p["depth"] if d is None else d
        if isinstance(t, str):
            return self.scalar(t, d)
        if t[0] == "v":
            return self.vec(t, sh if sh is not None else self.rand_shape(t), d)
        return self.record(t, sh if sh is not None else self.rand_shape(t), d)

    def leaf(self, t, sh=None):
        vis = self.visible(t, sh)
        if isinstance(t, str):
            if vis and self.chance(0.6):
                return self.pick(vis[-6:])
            if self.chance(0.55):
                g = self.get_from_any(t, 0)
                if g is not None:
                    return g
            return self.const(t)
        if vis and self.chance(0.7):
            return self.pick(vis)
        if t[0] == "v":
            return self.vec_base(t, sh if sh is not None else self.rand_shape(t))
        return self.record(t, sh if sh is not None else self.rand_shape(t), 0)

    def base_scalar(self, t):
        while not isinstance(t, str):
            if t[0] == "r":
                return None
            t = t[1]
        return t

    def vec_base(self, t, sh):
        k = self.base_scalar(t)
        if k is not None:
            dims, s = [], sh
            while s != ():
                dims.append(s[0])
                s = s[1]
            return self.carr(k, dims)
        # vector of records: a comprehension over component constants
        return self.comprehension(t, sh, 1)

    # -- indexing -------------------------------------------------------------
    def index_for(self, dim, d, direct_ok=True):
        """An int handle to index an axis of length dim."""
        r = self.r.random()
        syms = [h for h in self.scope if h.sym is not None and h.t == I and h.sym.kind in ("idx", "ctr")]
        if syms and r < 0.55:
            s = self.pick(syms[-3:])
            ok = not (s.sym.inferred and s.sym.n != dim)
            if ok and self.chance(0.6):
                return s
            return self.shifted(s, dim)
        if r < 0.68 or d <= 0:
            return self.const(I, self.r.choice([0, 0, 1, dim - 1, dim, -1, dim + 3, -4, 2]))
        return self.scalar(I, d - 1)

    def shifted(self, s, dim):
        c = lambda v: self.const(I, v)
        k = self.r.randrange(10)
        off = self.r.choice([1, -1, 2, -2, 0, 3, -dim, dim, dim + 2, -dim - 2])
        if k == 0:
            return self.emit("add", [s, c(off)], I, ())
        if k == 1:
            return self.emit("sub", [s, c(off)], I, ())
        if k == 2:
            return self.emit("sub", [c(dim - 1 if self.chance(0.6) else off), s], I, ())
        if k == 3:
            return self.emit("add", [c(off), s], I, ())
        if k in (4, 5, 6):
            h = self.emit("add", [s, c(off)], I, ()) if self.chance(0.7) else s
            for _ in range(self.r.choice([1, 1, 2, 2, 3])):
                o = self.pick(["min", "max"])
                b = self.r.choice([0, dim - 1, dim, 1, -1, dim + 2, -3, 2])
                args = [h, c(b)]
                if self.chance(0.25):
                    self.r.shuffle(args)
                h = self.emit(o, args, I, (), v=self.pick(["m", "std"]))
            return h
        if k == 7:
            return self.emit("mod", [s, c(max(1, dim))], I, ())
        if k == 8:
            return self.emit("mul", [s, c(self.r.choice([2, -1, 0, 1]))], I, ())
        other = [h for h in self.scope if h.t == I]
        return self.emit("add", [s, self.pick(other)], I, ())

    def get_from_any(self, t, d):
        """Index some visible (nested) vector down to type t."""
        cands = []
        for h in self.scope:
            tt, depth = h.t, 0
            while not isinstance(tt, str) and tt[0] == "v":
                tt, depth = tt[1], depth + 1
                if tt == t:
                    cands.append((h, depth))
        if not cands:
            return None
        h, depth = self.pick(cands)
        for _ in range(depth):
            h = self.get(h, d)
        return h

    def get(self, h, d=0, item=None):
        dim, sub = h.sh
        it = item if item is not None else self.index_for(dim, d)
        return self.emit("get", [h, it], h.t[1], sub)

    # -- scalars ----------------------------------------------------------------
    def scalar(self, k, d):
        if d <= 0 or self.full():
            return self.leaf(k)
        if self.chance(self.p["p_reuse"] * 0.5):
            vis = self.visible(k)
            if vis:
                return self.pick(vis[-8:])
        r = self.r.random()
        if r < self.p["p_fold"]:
            return self.fold(k, (), d - 1)
        r -= self.p["p_fold"]
        if r < self.p["p_reduce"]:
            return self.reduce_to(k, d - 1)
        r -= self.p["p_reduce"]
        if r < self.p["p_ext"]:
            h = self.ext(k, d - 1)
            if h is not None:
                return h
        r -= self.p["p_ext"]
        if r < self.p["p_vec"]:
            v = self.gen(V(k), None, d - 1)
            return self.get(v, d - 1)
        r -= self.p["p_vec"]
        if r < self.p["p_rec"] * 0.5:
            h = self.via_record(k, d - 1)
            if h is not None:
                return h
        if self.chance(0.3):
            g = self.get_from_any(k, d - 1)
            if g is not None:
                return g
        g = lambda q=k: self.scalar(q, d - 1)
        if k == F:
            c = self.r.random()
            if c < self.p["p_trans"]:
                return self.emit(self.pick(["exp", "sin", "cos", "tanh"]), [g()], F, ())
            if c < 0.12:
                return self.emit("float", [g(I)], F, ())
            if c < 0.2:
                return self.emit(self.pick(["neg", "abs"]), [g()], F, ())
            if c < 0.24:
                return self.emit("powi", [g()], F, (), x=self.pick([0, 1, 2, 2, 3, -1]))
            if c < 0.28:
                den = self.const(F, self.pick([2.0, 4.0, 0.5, -2.0, 8.0]))
                return self.emit("div", [g(), den], F, ())
            if c < 0.38:
                return self.where_scalar(F, d)
            o = self.pick(["add", "add", "add", "sub", "mul", "mul", "min", "max"])
            return self.emit(o, [g(), g()], F, (), v=self.pick(["m", "m", "std"]))
        if k == I:
            c = self.r.random()
            if c < 0.1:
                return self.emit(self.pick(["neg", "abs"]), [g()], I, ())
            if c < 0.15:
                return self.emit("powi", [g()], I, (), x=self.pick([0, 1, 2, 3]))
            if c < 0.25:
                return self.emit("mod", [g(), self.const(I, self.pick([2, 3, 5, -2, -3, 1]))], I, ())
            if c < 0.35:
                return self.where_scalar(I, d)
            if c < 0.5:
                v = self.any_vec()
                if v is not None:
                    return self.size(v)
            o = self.pick(["add", "add", "sub", "mul", "min", "max"])
            return self.emit(o, [g(), g()], I, ())
        c = self.r.random()
        if c < 0.15:
            return self.emit("not", [g(B)], B, ())
        if c < 0.35:
            return self.emit(self.pick(["and", "or"]), [g(B), g(B)], B, ())
        if c < 0.42:
            return self.where_scalar(B, d)
        q = self.pick([F, F, I])
        return self.emit(self.pick(["lt", "le", "gt", "ge", "eq", "ne"]), [g(q), g(q)], B, ())

    def where_scalar(self, k, d):
        c = self.scalar(B, d - 1)
        return self.emit("where", [c, self.scalar(k, d - 1), self.scalar(k, d - 1)], k, (), v=self.pick(["method", "std"]))

    def any_vec(self):
        vs = [h for h in self.scope if not isinstance(h.t, str) and h.t[0] == "v"]
        return self.pick(vs) if vs else None

    def size(self, v, ax=None):
        rank, sh, t = 0, v.sh, v.t
        dims = []
        while not isinstance(t, str) and t[0] == "v":
            dims.append(sh[0])
            sh, t = sh[1], t[1]
        ax = self.r.randrange(len(dims)) if ax is None else ax
        h = self.emit("size", [v], I, (), x=ax, iv=dims[ax])
        return h

    # -- sizes --------------------------------------------------------------
    def size_handle(self, n, allow_index=False):
        """An int handle whose value is n, usable as a size."""
        c = self.r.random()
        if c < 0.45:
            return self.const(I, n, raw=self.chance(0.7))
        cands = []
        for h in self.scope:
            if h.taint or any(s.kind == "idx" for s in h.syms):
                continue
            t, sh, ax = h.t, h.sh, 0
            while not isinstance(t, str) and t[0] == "v":
                if sh[0] == n:
                    cands.append((h, ax))
                t, sh, ax = t[1], sh[1], ax + 1
            if h.iv is not None and h.iv == n and h.sym is None:
                cands.append((h, -1))
        if cands:
            h, ax = self.pick(cands)
            return h if ax < 0 else self.size(h, ax)
        if c < 0.6 and n >= 1:
            a = self.const(I, n - 1)
            return self.emit("add", [a, self.const(I, 1)], I, (), iv=n)
        return self.const(I, n)

    # -- binders --------------------------------------------------------------
    def open_block(self, mult):
        self.blocks.append([])
        saved = (len(self.scope), self.mult)
        self.mult *= max(1, mult)
        return saved

    def close_block(self, saved):
        b = self.blocks.pop()
        del self.scope[saved[0]:]
        self.mult = saved[1]
        return b

    def add_sym(self, kind, t, sh, n=None, inferred=False, taint=False):
        s = Sym(kind, n, inferred)
        h = H(self.new_id(), t, sh, taint, frozenset([s]), None, s)
        self.scope.append(h)
        return h

    def comprehension(self, t, sh, d, k=None, mode=None):
        """array(lambda i..: body) of type t and shape sh."""
        # peel k axes
        maxk, tt = 0, t
        while not isinstance(tt, str) and tt[0] == "v" and maxk < 3:
            tt, maxk = tt[1], maxk + 1
        k = k or (1 if maxk == 1 else self.r.randrange(1, maxk + 1))
        dims, bt, bs = [], t, sh
        for _ in range(k):
            dims.append(bs[0])
            bt, bs = bt[1], bs[1]
        infer = (self.chance(self.p["p_infer"]) if mode is None else mode == "infer")
        targets = None
        if infer:
            targets = self.infer_targets(dims)
            infer = targets is not None
        sz = [] if infer else [self.size_handle(n) for n in dims]
        mult = 1
        for n in dims:
            mult *= n
        saved = self.open_block(mult)
        self.arrays_open += 1
        syms = [self.add_sym("idx", I, (), n, infer, True) for n in dims]
        seeds = []
        if infer:
            for tgt, axes in targets:
                h = tgt
                for ax in axes:
                    h = self.get(h, 0, syms[ax] if ax is not None else None)
                seeds.append(h)
        body = self.gen(bt, bs, d)
        for h in seeds:
            body = self.mix(body, h)
        block = self.close_block(saved)
        self.arrays_open -= 1
        ins = {"id": self.new_id(), "op": "array", "b": [s.id for s in syms], "block": block, "ret": body.id,
               "sz": [h.id for h in sz]}
        return self.bind(ins, t, sh, body, syms, [])

    def bind(self, ins, t, sh, body, syms, outer, iv=None):
        self.blocks[-1].append(ins)
        own = {s.sym for s in syms}
        ss = (body.syms - own).union(*(o.syms for o in outer)) if outer else body.syms - own
        taint = any(s.kind == "idx" or (s.kind in ("acc", "elt") and self.arrays_open) for s in ss) or any(o.taint for o in outer)
        h = H(ins["id"], t, sh, taint, frozenset(ss), iv)
        self.cost += self.mult
        self.scope.append(h)
        return h

    def mix(self, body, h):
        """Make body mention the scalar/vector h without ill-typing it."""
        # reduce h to a scalar
        while not isinstance(h.t, str):
            if h.t[0] == "r":
                h = self.proj(h, self.r.randrange(len(h.t[3])))
            else:
                h = self.get(h, 0, self.const(I, 0))
        if isinstance(body.t, str):
            if h.t == body.t and h.t in (F, I):
                return self.emit(self.pick(["add", "mul", "max", "sub"]), [body, h], h.t, ())
            if h.t == body.t:
                return self.emit(self.pick(["and", "or"]), [body, h], h.t, ())
            c = h if h.t == B else self.emit(self.pick(["lt", "ne"]), [h, self.const(h.t)], B, ())
            return self.emit("where", [c, body, self.scalar(body.t, 0)], body.t, (), v="method")
        if body.t[0] == "v":
            c = h if h.t == B else self.emit(self.pick(["lt", "ne"]), [h, self.const(h.t)], B, ())
            if self.base_scalar(body.t) is not None and self.chance(0.7):
                return self.emit("where", [c, body, self.leaf(body.t, body.sh)], body.t, body.sh, v="std")
            if self.base_scalar(body.t) is not None:
                return self.emit("where", [c, body, body], body.t, body.sh, v="std")
            # vector of records: use assume to mention h without changing meaning
            return self.emit("assume", [body, h], body.t, body.sh)
        comps = [self.proj(body, i) for i in range(len(body.t[3]))]
        j = self.r.randrange(len(comps))
        comps[j] = self.mix(comps[j], h)
        return self.mk(body.t, comps)

    def infer_targets(self, dims):
        """Visible vectors whose axes can give the sizes dims to fresh indices."""
        out = []
        if len(dims) >= 2 and self.chance(0.6):
            c = []
            for h in self.scope:
                ds, t, sh = [], h.t, h.sh
                while not isinstance(t, str) and t[0] == "v":
                    ds.append(sh[0])
                    t, sh = t[1], sh[1]
                if ds[:len(dims)] == list(dims):
                    c.append((h, list(range(len(dims)))))
                elif len(dims) == 2 and len(ds) >= 2 and ds[:2] == [dims[1], dims[0]]:
                    c.append((h, [1, 0]))
            if c:
                return [self.pick(c)]
        for i, n in enumerate(dims):
            c = []
            for h in self.scope:
                t, sh, pre = h.t, h.sh, []
                while not isinstance(t, str) and t[0] == "v":
                    if sh[0] == n:
                        c.append((h, pre + [i]))
                    pre = pre + [None]
                    t, sh = t[1], sh[1]
            if not c or self.chance(0.15):
                rest = [self.dim() for _ in range(self.r.choice([0, 0, 1]))]
                h = self.carr(self.pick([F, F, I, B]), [n] + rest)
                c = [(h, [i])]
            out.append(self.pick(c))
        return out

    # -- vectors ----------------------------------------------------------------
    def vec(self, t, sh, d):
        if self.chance(self.p["p_reuse"]):
            vis = self.visible(t, sh)
            if vis:
                return self.pick(vis)
        if d <= 0 or self.full():
            return self.leaf(t, sh)
        r = self.r.random()
        if r < 0.5:
            return self.comprehension(t, sh, d - 1)
        if r < 0.58:
            n = sh[0]
            m = self.r.randrange(n + 1)
            a = self.vec(t, (m, sh[1]), d - 1)
            b = self.vec(t, (n - m, sh[1]), d - 1)
            return self.emit("concat", [a, b], t, sh, v=self.pick(["m", "std"]))
        if r < 0.66 and self.base_scalar(t) is not None:
            return self.emit("where", [self.scalar(B, d - 1), self.vec(t, sh, d - 1), self.vec(t, sh, d - 1)], t, sh, v="std")
        if r < 0.74:
            m = self.vec(V(t), (max(1, self.dim()), sh), d - 1)
            return self.get(m, d - 1)
        if r < 0.84:
            return self.fold(t, sh, d - 1)
        if r < 0.9 and t in (V(F), V(I)):
            h = self.ext(t, d - 1, sh)
            if h is not None:
                return h
        if r < 0.95 and t == V(F):
            return self.reduce_with(self.monoid_vec(sh), d - 1)
        return self.leaf(t, sh)

    # -- records ----------------------------------------------------------------
    def rec_type(self, depth=1):
        n = self.r.choice([1, 2, 2, 2, 3])
        def comp():
            c = self.r.random()
            if depth > 0 and c < 0.2:
                return self.rec_type(depth - 1)
            if c < 0.32:
                return V(self.pick([F, I]))
            return self.pick([F, F, I, B])
        ts = tuple(comp() for _ in range(n))
        g = self.pick(["t", "t", "d", "c"])
        if g == "t":
            return ("r", "t", (), ts)
        if g == "d":
            names = self.r.sample(["a", "b", "x", "values", "items", "keys", "get", "pop", "copy"], n)
            return ("r", "d", tuple(names), ts)
        return {1: ("r", "Box", ("only",), ts), 2: ("r", "Point", ("x", "y"), ts),
                3: ("r", "Triple", ("values", "items", "z"), ts)}[n]

    def mk(self, t, comps):
        h = self.emit("mk", comps, t, [c.sh for c in comps], x={"g": t[1], "n": list(t[2])},
                      v="list" if t[1] == "t" and self.chance(0.15) else "")
        return h

    def record(self, t, sh, d):
        if self.chance(self.p["p_reuse"] * 0.6):
            vis = self.visible(t, sh)
            if vis:
                return self.pick(vis)
        if d > 0 and not self.full():
            r = self.r.random()
            if r < 0.15:
                return self.fold(t, sh, d - 1)
            if r < 0.3:
                v = self.vec(V(t), (max(1, self.dim()), sh), d - 1)
                return self.get(v, d - 1)
            if r < 0.45 and self.flat_rec(t):
                return self.where_rec(self.scalar(B, d - 1), self.record(t, sh, d - 1), self.record(t, sh, d - 1))
        return self.mk(t, [self.gen(x, s, d - 1) for x, s in zip(t[3], sh)])

    def flat_rec(self, t):
        return all(self.base_scalar(x) is not None for x in t[3])

    def where_rec(self, c, a, b):
        t, sh = a.t, a.sh
        parts, ws = [], []
        for i in range(len(t[3])):
            pt, pf, w = self.new_id(), self.new_id(), self.new_id()
            parts.append({"projt": pt, "projf": pf, "w": w})
        ins = {"id": self.new_id(), "op": "wherer", "a": [c.id, a.id, b.id], "parts": parts,
               "x": {"g": t[1], "n": list(t[2])}}
        self.blocks[-1].append(ins)
        h = H(ins["id"], t, sh, any(q.taint for q in (a, b, c)), a.syms | b.syms | c.syms)
        self.scope.append(h)
        self.cost += self.mult * (1 + len(parts))
        return h

    def proj(self, h, i):
        return self.emit("proj", [h], h.t[3][i], h.sh[i], x=i + 1, name=h.t[2][i] if h.t[2] else None)

    def via_record(self, k, d):
        t = self.rec_type()
        idx = [i for i, x in enumerate(t[3]) if x == k]
        if not idx:
            return None
        h = self.record(t, self.rand_shape(t), d)
        return self.proj(h, self.pick(idx))

    # -- folds ------------------------------------------------------------------
    def count(self):
        return self.pick([0, 1, 2, 2, 3, 3, 4, -1])

    def fold(self, t, sh, d, body=None, init=None, n=None, infer=None):
        init = init or self.gen(t, sh, min(d, 1))
        infer = self.chance(self.p["p_infer"]) if infer is None else infer
        tgt = None
        if infer:
            n = self.dim() if n is None else n
            tgt = self.infer_targets([n])
        else:
            n = self.count() if n is None else n
        sz = [] if infer else [self.size_handle(n)]
        saved = self.open_block(max(n, 0))
        self.loops_open += 1
        ctr = self.add_sym("ctr", I, (), n, infer, False)
        acc = self.add_sym("acc", t, sh, None, False, self.arrays_open > 0)
        seeds = []
        if infer:
            (v, axes), = tgt
            h = v
            for ax in axes:
                h = self.get(h, 0, ctr if ax is not None else None)
            seeds.append(h)
        if body is not None:
            b = body(ctr, acc, seeds)
        else:
            b = self.fold_body(t, sh, d, acc)
            for h in seeds:
                b = self.mix(b, h)
        block = self.close_block(saved)
        self.loops_open -= 1
        ins = {"id": self.new_id(), "op": "fold", "a": [init.id], "b": [ctr.id, acc.id], "block": block, "ret": b.id,
               "sz": [h.id for h in sz], "t": tj(t)}
        return self.bind(ins, t, sh, b, [ctr, acc], [init] + sz)

    def fold_body(self, t, sh, d, acc):
        if t in (F, I) and self.chance(0.7):
            o = self.pick(["add", "add", "add", "min", "max", "sub", "mul"])
            e = self.scalar(t, d)
            args = [acc, e] if self.chance(0.75) else [e, acc]
            return self.emit(o, args, t, ())
        if isinstance(t, tuple) and t[0] == "r" and self.chance(0.7):
            comps = []
            for i in range(len(t[3])):
                p = self.proj(acc, i)
                comps.append(self.fold_body(t[3][i], sh[i], max(d - 1, 0), p))
            if self.chance(0.2) and len(comps) == 2 and t[3][0] == t[3][1] and sh[0] == sh[1]:
                comps.reverse()
            return self.mk(t, comps)
        if isinstance(t, tuple) and t[0] == "v" and self.chance(0.5) and self.base_scalar(t) is not None:
            # element-wise update of the accumulator
            n = sh[0]
            sz = [self.size_handle(n)] if self.chance(0.5) else []
            saved = self.open_block(n)
            self.arrays_open += 1
            i = self.add_sym("idx", I, (), n, not sz, True)
            cur = self.get(acc, 0, i)
            b = self.fold_body(t[1], sh[1], max(d - 1, 0), cur)
            if not sz:
                b = self.mix(b, cur)
            block = self.close_block(saved)
            self.arrays_open -= 1
            ins = {"id": self.new_id(), "op": "array", "b": [i.id], "block": block, "ret": b.id, "sz": [h.id for h in sz]}
            h = self.bind(ins, t, sh, b, [i], [])
            return h
        return self.gen(t, sh, d)

    # -- reductions ---------------------------------------------------------------
    def monoids(self, k):
        ms = []
        if k == F:
            ms += ["add", "add", "min", "max", "addk", "mul1"]
        if k == I:
            ms += ["add", "mul1", "firstnz", "addk", "last"]
        if k == B:
            ms += ["and", "or", "xor"]
        return ms

    def reduce_to(self, k, d):
        if self.chance(0.3):
            m = self.monoid_rec()
            h = self.reduce_with(m, d)
            idx = [i for i, x in enumerate(m["t"][3]) if x == k]
            if idx:
                return self.proj(h, self.pick(idx))
            return self.leaf(k)
        return self.reduce_with(self.monoid_scalar(k), d)

    def monoid_scalar(self, k):
        m = self.pick(self.monoids(k))
        E = self.emit
        def init():
            if m == "addk":
                return self.const(k, -1.0 if k == F else -1)
            return self.const(k, {"add": 0, "min": float("inf"), "max": float("-inf"), "mul1": 1, "firstnz": 0, "last": 0,
                                  "and": True, "or": False, "xor": False}[m] if k != F else
                              {"add": 0.0, "min": float("inf"), "max": float("-inf"), "mul1": 1.0}[m])
        def comb(x, y):
            if m == "add":
                return E("add", [x, y], k, ())
            if m == "addk":
                return E("add", [E("add", [x, y], k, ()), self.const(k, 1.0 if k == F else 1)], k, ())
            if m == "mul1":
                return E("mul", [x, y], k, ())
            if m in ("min", "max"):
                return E(m, [x, y], k, ())
            if m == "firstnz":
                c = E("ne", [x, self.const(k, 0)], B, ())
                return E("where", [c, x, y], k, (), v="method")
            if m == "last":
                c = E("ne", [y, self.const(k, 0)], B, ())
                return E("where", [c, y, x], k, (), v="method")
            if m == "xor":
                return E("and", [E("or", [x, y], B, ()), E("not", [E("and", [x, y], B, ())], B, ())], B, ())
            return E(m, [x, y], k, ())
        return dict(t=k, sh=(), init=init, comb=comb)

    def monoid_rec(self):
        which = self.pick(["affine", "argmin", "sumcount", "mat2", "pairs", "nested", "firstlast"])
        E = self.emit
        if which == "affine":      # (a,b): x -> a*x+b, composition: non-commutative
            t = ("r", "t", (), (F, F))
            def init():
                return self.mk(t, [self.const(F, 1.0), self.const(F, 0.0)])
            def comb(x, y):
                a, b, c, e = self.proj(x, 0), self.proj(x, 1), self.proj(y, 0), self.proj(y, 1)
                return self.mk(t, [E("mul", [a, c], F, ()), E("add", [E("mul", [b, c], F, ()), e], F, ())])
            return dict(t=t, sh=[(), ()], init=init, comb=comb)
        if which == "argmin":
            t = ("r", "d", ("val", "at"), (F, I))
            def init():
                return self.mk(t, [self.const(F, float("inf")), self.const(I, 0)])
            def comb(x, y):
                c = E("le", [self.proj(x, 0), self.proj(y, 0)], B, ())
                return self.where_rec(c, x, y)
            return dict(t=t, sh=[(), ()], init=init, comb=comb)
        if which == "firstlast":
            # (any, first, last)
            t = ("r", "Triple", ("values", "items", "z"), (B, I, I))
            def init():
                return self.mk(t, [self.const(B, False), self.const(I, 0), self.const(I, 0)])
            def comb(x, y):
                bx, by = self.proj(x, 0), self.proj(y, 0)
                first = E("where", [bx, self.proj(x, 1), self.proj(y, 1)], I, (), v="method")
                last = E("where", [by, self.proj(y, 2), self.proj(x, 2)], I, (), v="method")
                return self.mk(t, [E("or", [bx, by], B, ()), first, last])
            return dict(t=t, sh=[(), (), ()], init=init, comb=comb)
        if which == "sumcount":
            t = ("r", "Point", ("x", "y"), (F, I))
            def init():
                return self.mk(t, [self.const(F, 0.0), self.const(I, 0)])
            def comb(x, y):
                return self.mk(t, [E("add", [self.proj(x, 0), self.proj(y, 0)], F, ()),
                                   E("add", [self.proj(x, 1), self.proj(y, 1)], I, ())])
            return dict(t=t, sh=[(), ()], init=init, comb=comb)
        if which == "mat2":
            row = ("r", "t", (), (I, I))
            t = ("r", "t", (), (row, row))
            def init():
                one, zero = self.const(I, 1), self.const(I, 0)
                return self.mk(t, [self.mk(row, [one, zero]), self.mk(row, [zero, one])])
            def comb(x, y):
                def at(m, i, j):
                    return self.proj(self.proj(m, i), j)
                def ent(i, j):
                    return E("add", [E("mul", [at(x, i, 0), at(y, 0, j)], I, ()), E("mul", [at(x, i, 1), at(y, 1, j)], I, ())], I, ())
                return self.mk(t, [self.mk(row, [ent(0, 0), ent(0, 1)]), self.mk(row, [ent(1, 0), ent(1, 1)])])
            return dict(t=t, sh=[[(), ()], [(), ()]], init=init, comb=comb)
        if which == "pairs":
            t = ("r", "t", (), (I, B))
            def init():
                return self.mk(t, [self.const(I, 0), self.const(B, True)])
            def comb(x, y):
                return self.mk(t, [E("add", [self.proj(x, 0), self.proj(y, 0)], I, ()),
                                   E("and", [self.proj(x, 1), self.proj(y, 1)], B, ())])
            return dict(t=t, sh=[(), ()], init=init, comb=comb)
        n = self.pick([1, 2, 3])
        inner = ("r", "t", (), (F, F))
        t = ("r", "d", ("values", "p"), (V(F), inner))
        def init():
            return self.mk(t, [self.carr(F, [n], [0.0] * n), self.mk(inner, [self.const(F, 1.0), self.const(F, 0.0)])])
        def comb(x, y):
            xv, yv = self.proj(x, 0), self.proj(y, 0)
            v = self.zipadd(xv, yv)
            xp, yp = self.proj(x, 1), self.proj(y, 1)
            a, b, c, e = self.proj(xp, 0), self.proj(xp, 1), self.proj(yp, 0), self.proj(yp, 1)
            p = self.mk(inner, [E("mul", [a, c], F, ()), E("add", [E("mul", [b, c], F, ()), e], F, ())])
            return self.mk(t, [v, p])
        return dict(t=t, sh=[(n, ()), [(), ()]], init=init, comb=comb)

    def zipadd(self, a, b):
        n = a.sh[0]
        saved = self.open_block(n)
        self.arrays_open += 1
        i = self.add_sym("idx", I, (), n, True, True)
        s = self.emit("add", [self.get(a, 0, i), self.get(b, 0, i)], F, ())
        block = self.close_block(saved)
        self.arrays_open -= 1
        ins = {"id": self.new_id(), "op": "array", "b": [i.id], "block": block, "ret": s.id, "sz": []}
        return self.bind(ins, V(F), (n, ()), s, [i], [])

    def monoid_vec(self, sh):
        """Element-wise sum of vectors (or matrix product for square)."""
        t = V(F)
        n = sh[0]
        def init():
            return self.carr(F, [n], [0.0] * n)
        def comb(x, y):
            return self.zipadd(x, y)
        return dict(t=t, sh=sh, init=init, comb=comb)

    def reduce_with(self, m, d, n=None, vec=None):
        t, sh = m["t"], m["sh"]
        n = self.pick([0, 1, 2, 3, 3, 4, 5, 6, 7]) if n is None else n
        if n * self.mult > 60:
            n = min(n, 3)
        if vec is None:
            vec = self.vec(V(t), (n, sh), max(d, 1) if not isinstance(t, str) else d)
        n = vec.sh[0]
        init = m["init"]()
        saved = self.open_block(max(n, 1))
        self.loops_open += 1
        x = self.add_sym("elt", t, sh, None, False, self.arrays_open > 0)
        y = self.add_sym("elt", t, sh, None, False, self.arrays_open > 0)
        b = m["comb"](x, y)
        block = self.close_block(saved)
        self.loops_open -= 1
        ins = {"id": self.new_id(), "op": "reduce", "a": [init.id, vec.id], "b": [x.id, y.id], "block": block, "ret": b.id, "t": tj(t)}
        return self.bind(ins, t, sh, b, [x, y], [init, vec])

    # -- extrinsics -----------------------------------------------------------------
    def ext(self, t, d, sh=None):
        q = self.pick(["", "", "?"])
        S = lambda k: self.scalar(k, d)
        if self.p.get("exts"):     # only the counting ones
            return self.emit("ext", [S(F)], F, (), x=self.pick(self.p["exts"])) if t == F else None
        if t == F:
            c = self.r.randrange(5)
            if c == 0:
                return self.emit("ext", [S(F), S(F), S(F)], F, (), x="e_lin3" + q)
            if c == 1:
                return self.emit("ext", [self.vec(V(F), (self.dim(), ()), d)], F, (), x="e_wsum" + q)
            if c == 2:
                n = self.dim()
                return self.emit("ext", [self.vec(V(F), (n, ()), d), self.vec(V(F), (n, ()), d)], F, (), x="e_dot" + q)
            return self.emit("ext", [S(F)], F, (), x=self.pick(["e_tick", "e_tick2"]) + q)
        if t == I:
            return self.emit("ext", [S(I), S(I)], I, (), x="e_isub" + q)
        if t == B:
            if self.chance(0.4):
                return self.emit("ext", [S(B)], B, (), x="e_not" + q)
            return self.emit("ext", [S(F), S(F)], B, (), x="e_lt" + q)
        if t == V(I):
            return self.emit("ext", [self.vec(t, sh, d)], t, sh, x="e_rev" + q)
        if t == V(F):
            c = self.r.randrange(3)
            if c == 0:
                return self.emit("ext", [self.vec(t, sh, d)], t, sh, x="e_cums" + q)
            if c == 1:
                return self.emit("ext", [S(F), self.vec(t, sh, d)], t, sh, x="e_scale" + q)
            n = self.dim()
            return self.emit("ext", [self.vec(V(V(F)), (sh[0], (n, ())), d), self.vec(V(F), (n, ()), d)], t, sh, x="e_matvec" + q)
        return None

    # -- whole programs ---------------------------------------------------------------
    def leaves(self, h):
        """Handles that can be evaluated: project records down to vectors/scalars."""
        if not isinstance(h.t, str) and h.t[0] == "r":
            out = []
            for i in range(len(h.t[3])):
                out += self.leaves(self.proj(h, i))
            return out
        if not isinstance(h.t, str) and self.base_scalar(h.t) is None:
            # a vector of records: split by comprehensions
            out = []
            t = h.t
            n = h.sh[0]
            if n == 0 or not isinstance(t[1], tuple):
                return []
            g = self.get(h, 0, self.const(I, self.r.randrange(n)))
            return self.leaves(g)
        return [h]

    def plan(self, roots):
        ev = []
        for h in roots:
            ev += self.leaves(h)
        return {"block": self.blocks[0], "evals": [h.id for h in ev], "n": self.n}


def seed_inputs(g):
    """A few input arrays to work with."""
    n, m = g.dim(), g.dim()
    g.carr(F, [n])
    if g.chance(0.6):
        g.carr(F, [n, m])
    if g.chance(0.5):
        g.carr(I, [m])
    if g.chance(0.2):
        g.carr(B, [n])
    if g.chance(0.15):
        g.carr(F, [g.dim(), n, m])


def general(seed, **prof):
    g = Gen(seed, **prof)
    seed_inputs(g)
    t = g.pick([V(F), V(F), V(F), V(V(F)), V(V(F)), V(I), V(V(I)), V(B), F, F, I, B, V(V(V(F)))])
    if g.chance(g.p["p_rec"]):
        t = g.rec_type()
        if g.chance(0.4):
            t = V(t)
    roots = [g.gen(t)]
    if g.chance(0.2):
        roots.append(g.gen(g.pick([F, V(F), V(I)])))
    return g.plan(roots)
