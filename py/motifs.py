"""Parametrised programs, one family per concern, written with py/online.py.

A motif takes (on, r): the builder and a random generator; it returns the
handles to evaluate.
"""
from __future__ import annotations
from online import X, NONE

FL = [0.0, 1.0, -1.0, 2.0, 0.5, -0.5, 1.5, -2.0, 3.0, 0.25, 4.0, -3.0]
IN = [0, 1, 2, 3, -1, -2, 4, 5, -3, 7]


def num(r, k):
    return r.choice(FL) if k == "f" else r.choice(IN) if k == "i" else r.random() < 0.5


def arr(on, r, k, *dims, **kw):
    n = 1
    for d in dims:
        n *= d
    kw.setdefault("lay", r.choice(["C", "C", "C", "F", "neg", "ro", "view", "bc"]))
    return on.arr([num(r, k) for _ in range(n)], dt=k, sh=list(dims), **kw)


def iota(on, r, *dims, k="f", lay="C"):
    """Distinct elements, so that every misplaced one is seen."""
    n = 1
    for d in dims:
        n *= d
    off = r.choice([0, 1, -3])
    return on.arr([(off + q) * (0.5 if k == "f" else 1) for q in range(n)], dt=k, sh=list(dims), lay=lay)


def dim(r, lo=0, hi=4):
    return r.randint(lo, hi)


# --- indexing (C06) ---------------------------------------------------------
def index_expr(on, r, i, n, m, depth=2, extra=()):
    """An int expression in the symbols i, for an axis of length n."""
    c = r.random()
    if depth == 0 or c < 0.12:
        return r.choice([i, i, i, *extra])
    if c < 0.42:
        off = r.choice([0, 1, 2, 3, -1, -2, -3, n, -n, n - 1, n + 3, m, -m, -m - 1, 10**6, -10**6])
        e = index_expr(on, r, i, n, m, depth - 1, extra)
        k = r.randrange(5)
        return e + off if k == 0 else e - off if k == 1 else off + e if k == 2 else off - e if k == 3 else e + (-off)
    if c < 0.72:
        e = index_expr(on, r, i, n, m, depth - 1, extra)
        b = r.choice([0, n - 1, n, 1, 2, -1, n + 2, -3, m - 1, n // 2])
        o = r.choice(["min", "max"])
        if r.random() < 0.5:
            return on.op2(o, e, on.c(b, raw=r.random() < 0.5), v=r.choice(["m", "std"]))
        return on.op2(o, on.c(b), e, v=r.choice(["m", "std"]))
    if c < 0.8:
        return index_expr(on, r, i, n, m, depth - 1, extra) * r.choice([2, -1, 0, 3, 1])
    if c < 0.86:
        return index_expr(on, r, i, n, m, depth - 1, extra) % r.choice([max(1, n), 2, 3, -2, n + 1])
    if c < 0.92:
        ix = arr(on, r, "i", r.randint(1, 4))
        return on.get(ix, index_expr(on, r, i, n, m, depth - 1, extra))
    if c < 0.96:
        return on.where(i < r.choice([0, 1, 2, n]), index_expr(on, r, i, n, m, depth - 1, extra), r.choice([0, n, -2, n - 1]))
    return -index_expr(on, r, i, n, m, depth - 1, extra)


def ix_vector(on, r):
    n, m = r.randint(1, 6), r.randint(0, 7)
    k = r.choice("ffib")
    v = iota(on, r, n, k=k) if k != "b" else arr(on, r, k, n)
    if r.random() < 0.3:
        w = v
        v = on.array(lambda i: on.get(w, i) if k == "b" else w[i] + w[0], sz=n) if r.random() < 0.5 else on.array(lambda i: w[i])
    return on.array(lambda i: v[index_expr(on, r, i, n, m, r.choice([1, 1, 2, 3]))], sz=m)


def ix_matrix(on, r):
    n1, n2, m1, m2 = r.randint(1, 4), r.randint(1, 4), r.randint(0, 5), r.randint(0, 5)
    a = iota(on, r, n1, n2, k=r.choice("fi"), lay=r.choice(["C", "F", "neg"]))
    which = r.randrange(6)
    E = lambda s, n, m, ex=(): index_expr(on, r, s, n, m, r.choice([0, 1, 1, 2]), ex)
    if which == 0:
        return on.array(lambda i, j: a[E(i, n1, m1), E(j, n2, m2)], sz=(m1, m2))
    if which == 1:
        return on.array(lambda i, j: a[E(j, n1, m1), E(i, n2, m2)], sz=(m1, m2))
    if which == 2:
        return on.array(lambda i: a[E(i, n1, m1), E(i, n2, m1)], sz=m1)
    if which == 3:
        return on.array(lambda i, j: a[E(i, n1, m1, (j,)) + E(j, n2, m2), E(j, n2, m2, (i,))], sz=(m1, m2))
    if which == 4:
        return on.array(lambda i: a[r.choice([0, n1, -1, n1 - 1]), E(i, n2, m1)], sz=m1)
    row = lambda i: a[E(i, n1, m1)]
    return on.array(lambda i: row(i), sz=m1)


def ix_rank3(on, r):
    d = [r.randint(1, 3) for _ in range(3)]
    m = [r.randint(0, 4) for _ in range(3)]
    a = iota(on, r, *d, k=r.choice("fi"))
    perm = r.sample(range(3), 3)
    E = lambda s, ax: index_expr(on, r, s, d[ax], m[ax], r.choice([0, 0, 1]))
    if r.random() < 0.6:
        def body(*idx):
            return a[E(idx[perm[0]], 0), E(idx[perm[1]], 1), E(idx[perm[2]], 2)]
        return on.array(lambda i, j, k: body(i, j, k), n=3, sz=tuple(m))
    ix = arr(on, r, "i", r.randint(1, 3), r.randint(1, 3))
    return on.array(lambda i, j: a[ix[i, j], E(j, 1), E(i, 2)], sz=(m[0], m[1]))


def ix_const(on, r):
    n = r.randint(1, 5)
    v = iota(on, r, n, r.randint(1, 3), k=r.choice("fi"))
    p = r.choice([0, 1, n - 1, n, n + 5, -1, -n, -n - 1, 10**8, -10**8, 10**9 - 5])
    g = on.get(v, on.c(p, raw=r.random() < 0.5))
    q = r.choice([0, 7, -7])
    return [g, g[q], on.array(lambda i: v[i, p]), v[p + 0, q] if r.random() < 0.5 else v[on.c(p, False) + 1, q]]


def ix_fold(on, r):
    n, m = r.randint(1, 5), r.randint(0, 6)
    v = iota(on, r, n)
    w = iota(on, r, n, r.randint(1, 4))
    which = r.randrange(4)
    if which == 0:
        return on.fold(0.0, lambda i, a: a + v[index_expr(on, r, i, n, m)], m)
    if which == 1:
        return on.fold(0.0, lambda i, a: a * 0.5 + v[index_expr(on, r, i, n, m)], m)
    if which == 2:
        return on.array(lambda j: on.fold(0.0, lambda i, a: a + w[index_expr(on, r, i, n, m, 1, (j,)), index_expr(on, r, j, n, m, 1, (i,))], m), sz=r.randint(0, 4))
    vi = arr(on, r, "i", n)
    return on.fold(0, lambda i, a: vi[a + i] + r.choice([0, 1, -1]), m)


def ix_scatter(on, r):
    """Positions read from arrays, including far out of range."""
    n, m = r.randint(1, 5), r.randint(0, 5)
    v = iota(on, r, n)
    p = on.arr([r.choice([0, 1, n - 1, n, -1, -n, 100, -100, 2]) for _ in range(m)], dt="i", sh=[m])
    q = on.arr([r.choice([0, 1, n - 1, n, -1, 50]) for _ in range(m * 2)], dt="i", sh=[m, 2])
    which = r.randrange(4)
    if which == 0:
        return on.array(lambda i: v[p[i]])
    if which == 1:
        return on.array(lambda i, j: v[p[i] + q[i, j]])
    if which == 2:
        w = iota(on, r, n, n)
        return on.array(lambda i: w[p[i], p[i] + r.choice([0, 1])])
    w = iota(on, r, n, m, 2) if m else iota(on, r, n, 1, 2)
    return on.array(lambda i, j: w[q[i, j], i, j])


# --- folds (C07) ------------------------------------------------------------
def fold_pattern(on, r):
    """Sums, minima, ... and their near misses, inside zero or more indices."""
    n, m = r.randint(0, 4), r.randint(0, 4)
    k = r.choice("ffi")
    v, w = iota(on, r, n, k=k), iota(on, r, m, n, k=k, lay=r.choice(["C", "F"]))
    z = num(r, k)
    init = r.choice([0, 0, 1, z])
    init = float(init) if k == "f" else int(init)
    infer = n > 0 and r.random() < 0.5
    opk = r.randrange(12)
    def body(i, a, get):
        e = get(i)
        c = r.randrange(5)
        if c == 0:
            e = e * e
        elif c == 1:
            e = e + num(r, k)
        elif c == 2 and opk != 11:
            e = e * get(i) - e
        elif c == 3 and k == "f":
            e = e * i.float()
        if opk == 0: return a + e
        if opk == 1: return e + a
        if opk == 2: return a - e
        if opk == 3: return e - a
        if opk == 4: return a.min(e)
        if opk == 5: return a.max(e)
        if opk == 6: return e.max(a)
        if opk == 7: return a + e * a
        if opk == 8: return a + get(0) if n else a + num(r, k)
        if opk == 9: return a.min(e) + (1.0 if k == "f" else 1)
        if opk == 10: return a + a
        return (a + e).max(get(0)) if n else a + e
    if r.random() < 0.5:
        return on.fold(init, lambda i, a: body(i, a, lambda q: v[q]), None if infer else r.choice([n, n, n + 2, -1]))
    return on.array(lambda j: on.fold(init, lambda i, a: body(i, a, lambda q: w[j, q]), None if infer and m else n), sz=m)


def fold_einsum(on, r):
    n, m, p = r.randint(0, 3), r.randint(0, 3), r.randint(0, 3)
    k = r.choice("ffi")
    A, B, C = iota(on, r, n, m, k=k), iota(on, r, m, p, k=k), iota(on, r, p, m, k=k)
    u = iota(on, r, m, k=k)
    zero = 0.0 if k == "f" else 0
    which = r.randrange(14)
    S = lambda f, cnt, init=None: on.fold(zero if init is None else init, lambda t, a: a + f(t), cnt)
    if which == 0:
        return on.array(lambda i, j: S(lambda t: A[i, t] * B[t, j], m), sz=(n, p))
    if which == 1:
        return on.array(lambda i, j: S(lambda t: B[t, j] * A[i, t], m), sz=(n, p))
    if which == 2:
        return on.array(lambda i, j: S(lambda t: A[i, t] * C[j, t], m), sz=(n, p))
    if which == 3:
        return on.array(lambda i: S(lambda t: A[i, t] * u[t], m), sz=n)
    if which == 4:
        return S(lambda t: u[t] * u[t], m)
    if which == 5:
        return on.array(lambda i, j: S(lambda t: A[i, t] * u[t] * B[t, j], m), sz=(n, p))
    if which == 6:
        return on.array(lambda i: S(lambda t: S(lambda s: A[i, t] * B[t, s], p), m), sz=n)
    if which == 7:
        return on.array(lambda i, j: S(lambda t: A[i, t + 1] * B[t, j], m), sz=(n, p))
    if which == 8:
        return on.array(lambda i: S(lambda t: A[i, t] * A[i, t], m, num(r, k)), sz=n)
    if which == 9:
        return on.array(lambda i, j: S(lambda t: A[i, t] * (B[t, j] + u[t]), m), sz=(n, p))
    if which == 10:
        return S(lambda t: S(lambda s: A[s, t] * u[t], n), m)
    if which == 11:   # accumulator inside the product
        return on.array(lambda i: on.fold(zero, lambda t, a: a + A[i, t] * a, m), sz=n)
    if which == 12:   # two outer indices on one operand, summand independent of the counter
        return on.array(lambda i, j: S(lambda t: A[i, j] * u[j], p), sz=(n, m))
    return on.array(lambda i, j: S(lambda t: -(A[i, t] * B[t, j]) * num(r, k), m), sz=(n, p))


def fold_vector(on, r):
    """Vector and record accumulators, reads that would see an update in place."""
    n, c = r.randint(1, 4), r.randint(-1, 4)
    v = iota(on, r, n)
    which = r.randrange(9)
    if which == 0:
        return on.fold(v, lambda t, a: on.array(lambda i: a[i - 1] + a[i + 1]), c) if False else \
            on.fold(v, lambda t, a: on.array(lambda i: a[i - 1] + a[i + 1], sz=n), c)
    if which == 1:
        return on.fold(v, lambda t, a: on.array(lambda i: a[i] + a[n - 1 - i]), c)
    if which == 2:
        return on.fold(v, lambda t, a: on.array(lambda i: on.where(i.eq(t), a[t] + a[0], a[i])), c)
    if which == 3:
        w = iota(on, r, n)
        s = on.fold(on.tup(v, w), lambda t, a: on.tup(a.proj(1), on.array(lambda i: a.proj(0)[i] + a.proj(1)[i])), c)
        return s
    if which == 4:
        s = on.fold(on.tup(1, 1), lambda t, a: on.tup(a.proj(1), a.proj(0) + a.proj(1)), c)
        return s
    if which == 5:
        s = on.fold(on.mk("d", ["s", "v"], 0.0, v), lambda t, a: on.mk("d", ["s", "v"], a.proj(0) + a.proj(1)[t], on.array(lambda i: a.proj(1)[i] * 2.0)), c)
        return s
    if which == 6:
        A = iota(on, r, n, n)
        return on.fold(A, lambda t, a: on.array(lambda i, j: on.where((a[i, t] + a[t, j]) < a[i, j], a[i, t] + a[t, j], a[i, j]), n=2), c)
    if which == 7:
        return on.fold(v, lambda t, a: on.array(lambda i: on.fold(0.0, lambda s, b: b + a[s], i + 1) if False else on.fold(0.0, lambda s, b: b + a[s] * 0.5, n)), c)
    return on.fold(v, lambda t, a: on.where(t % 2 < 1, on.array(lambda i: a[i] + t.float()), a), c)


def fold_nested(on, r):
    n, m, c = r.randint(0, 3), r.randint(0, 3), r.randint(-1, 3)
    A = iota(on, r, max(n, 1), max(m, 1))
    cnt = arr(on, r, "i", 3)
    which = r.randrange(8)
    if which == 0:      # triangular
        return on.fold(0, lambda i, a: on.fold(a, lambda j, b: b + i * 2 + j, i), c + 2)
    if which == 1:
        return on.fold(0.0, lambda i, a: a + on.fold(0.0, lambda j, b: b + A[i, j] * a, m), n)
    if which == 2:
        return on.array(lambda i: on.fold(0.0, lambda j, a: a * 2.0 + A[i, j] + on.fold(a, lambda k2, b: b + A[k2, j], n), m), sz=n)
    if which == 3:      # data-dependent count
        return on.fold(1, lambda i, a: a * 2 + i, cnt[r.randrange(3)])
    if which == 4:
        return on.fold(on.c(2, False), lambda i, a: on.fold(a, lambda j, b: b + 1, a % 4), c)
    if which == 5:
        s = on.fold(on.tup(0, 0.0), lambda i, a: on.tup(a.proj(0) + 1, a.proj(1) + on.fold(0.0, lambda j, b: b + j.float(), a.proj(0))), c)
        return s
    if which == 6:
        return on.array(lambda i, j: on.fold(A[i, j], lambda t, a: on.where(a < t.float(), a + 2.0, a - 1.0), c), sz=(n, m))
    v = on.array(lambda i: on.fold(0, lambda t, a: a + t * i, c), sz=n)
    return [v, on.fold(0, lambda t, a: a + v[t], n)]


def fold_varying(on, r):
    """Loop counts that depend on an enclosing comprehension index."""
    n, m = r.randint(1, 4), r.randint(1, 3)
    v, A = iota(on, r, n), iota(on, r, n, m)
    k = on.arr([r.randint(-1, 4) for _ in range(n)], dt="i")
    count = lambda i: [lambda: i, lambda: i + 1, lambda: k[i], lambda: A[i].size(), lambda: A[i].size() - 1, lambda: v.size() + i * 0,
                       lambda: on.where(i > 1, 2, 3)][r.randrange(7)]()
    body = r.randrange(5)
    def f(i):
        c = count(i)
        if body == 0:
            return on.fold(0.0, lambda j, a: a + v[j], c)
        if body == 1:
            return on.fold(0.0, lambda j, a: a + A[i, j] * v[j], c)
        if body == 2:
            return on.fold(1.0, lambda j, a: a * 2.0 - v[j], c)
        if body == 3:
            return on.fold(float("inf"), lambda j, a: a.min(v[j + i]), c)
        return on.helper("fold", r.choice(["sum", "min", "max"]), lambda j: v[j] * A[i, j], c)
    return on.array(f, sz=r.choice([None, n]) if body in (1, 4) else n)


def fold_helpers(on, r):
    n, m = r.randint(0, 5), r.randint(0, 3)
    v = iota(on, r, n) if r.random() < 0.3 else arr(on, r, "f", n)
    A = arr(on, r, "f", m, n)
    fam, kind = r.choice(["fold", "reduce"]), r.choice(["sum", "min", "max", "argmin", "argmin"])
    f = r.randrange(4)
    if r.random() < 0.3:    # ties
        v, A = on.arr([r.choice([1.0, 2.0]) for _ in range(n)], dt="f"), on.arr([r.choice([1.0, -2.0]) for _ in range(n * m)], dt="f", sh=[m, n])
    count = r.choice([lambda: None, lambda: None, lambda: n, lambda: r.randint(0, n + 1), lambda: r.randint(0, n + 1), lambda: v.size() - r.choice([0, 1])])()
    body = lambda get: {0: lambda i: get(i), 1: lambda i: get(i) * get(i) + 1.0, 2: lambda i: get(i) - i.float(), 3: lambda i: abs(get(i))}[f]
    if r.random() < 0.5:
        return on.helper(fam, kind, body(lambda i: v[i]), count)
    return on.array(lambda j: on.helper(fam, kind, body(lambda i: A[j, i]), count), sz=m)


# --- reductions (C08) -------------------------------------------------------
def monoid(on, r, k=None):
    """(make element from a float vector position, identity, combine)"""
    which = r.choice(["add", "affine", "mat2" if r.random() < 0.4 else "affine", "last", "first", "cat", "vecadd", "argmin", "min", "mulmod", "matmul", "nested", "free"]) if k is None else k
    if which == "add":
        return "f", lambda on, x: x, lambda: on.c(0.0, False), lambda x, y: x + y
    if which == "min":
        return "f", lambda on, x: x, lambda: on.c(float("inf"), False), lambda x, y: x.min(y)
    if which == "affine":
        return "r", lambda on, x: on.tup(x, x + 1.0), lambda: on.tup(1.0, 0.0), \
            lambda x, y: on.tup(x.proj(0) * y.proj(0), x.proj(1) * y.proj(0) + y.proj(1))
    if which == "mat2":
        mk = lambda a, b, c, d: on.mk("d", ["a", "b", "c", "d"], a, b, c, d)
        def comb(x, y):
            p, q = [x.proj(t) for t in range(4)], [y.proj(t) for t in range(4)]
            return mk(p[0] * q[0] + p[1] * q[2], p[0] * q[1] + p[1] * q[3], p[2] * q[0] + p[3] * q[2], p[2] * q[1] + p[3] * q[3])
        return "r", lambda on, x: mk(x, on.c(1.0), on.c(0.0), x - 1.0), lambda: mk(1.0, 0.0, 0.0, 1.0), comb
    if which == "last":
        return "r", lambda on, x: on.mk("Point", ["x", "y"], x > -100.0, x), lambda: on.mk("Point", ["x", "y"], False, 0.0), \
            lambda x, y: on.mk("Point", ["x", "y"], x.proj(0) | y.proj(0), on.where(y.proj(0), y.proj(1), x.proj(1)))
    if which == "first":
        return "r", lambda on, x: on.tup(x > 0.0, x.max(0.0)), lambda: on.tup(False, 0.0), \
            lambda x, y: on.tup(x.proj(0) | y.proj(0), on.where(x.proj(0), x.proj(1), on.where(y.proj(0), y.proj(1), 0.0)))
    if which == "argmin":
        def comb(x, y):
            return on.where(x.proj(0) <= y.proj(0), x, y)
        return "r", lambda on, x: on.tup(x, x * 2.0), lambda: on.tup(float("inf"), 0.0), comb
    if which == "vecadd":
        n = r.randint(1, 3)
        z = on.arr([0.0] * n)
        c = arr(on, r, "f", n)
        def comb(x, y):
            return on.array(lambda j: x[j] + y[j])
        return "v", lambda on, x: on.array(lambda j: x * c[j]), lambda: z, comb
    if which == "cat":   # polynomial-like: concatenation of digits, (value, base)
        return "r", lambda on, x: on.tup(x, on.c(2.0, False)), lambda: on.tup(0.0, 1.0), \
            lambda x, y: on.tup(x.proj(0) * y.proj(1) + y.proj(0), x.proj(1) * y.proj(1))
    if which == "free":   # sequences and concatenation
        nil = on.arr([0.0][:0], dt="f", sh=[0])
        return "v", lambda on, x: on.array(lambda j: x, sz=1), lambda: nil, lambda x, y: on.concat(x, y)
    if which == "mulmod":
        return "r", lambda on, x: on.tup(x.eq(0.0), x > 0.0), lambda: on.tup(False, True), \
            lambda x, y: on.tup(x.proj(0) | y.proj(0), (x.proj(1) & y.proj(1)) | (~x.proj(1) & ~y.proj(1)))
    if which == "matmul":
        eye = on.arr([[1.0, 0.0], [0.0, 1.0]])
        b = on.arr([[0.0, 1.0], [1.0, 1.0]])
        def comb(x, y):
            return on.array(lambda i, j: on.fold(0.0, lambda t, a: a + x[i, t] * y[t, j], 2), sz=(2, 2)) if r.random() < 0.5 else \
                on.array(lambda i, j: x[i, 0] * y[0, j] + x[i, 1] * y[1, j], sz=(2, 2))
        return "vv", lambda on, x: on.array(lambda i, j: b[i, j] * x, n=2), lambda: eye, comb
    inner = lambda a, b: on.tup(a, on.mk("d", ["p", "q"], b, a))
    return "r", lambda on, x: inner(x, x * 0.5), lambda: inner(1.0, 0.0), \
        lambda x, y: on.tup(x.proj(0) * y.proj(0), on.mk("d", ["p", "q"], x.proj(1).proj(0) * y.proj(0) + y.proj(1).proj(0), x.proj(1).proj(1) * y.proj(1).proj(1)))


SAFE = [1.0, -1.0, 2.0, 0.0, 1.0, 1.0, -1.0, 0.5, 1.0, 3.0]


def red_monoid(on, r):
    n, m = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17]), r.randint(0, 3)
    kind, el, idn, comb = monoid(on, r)
    data = lambda *d: on.arr([r.choice(SAFE) for _ in range(_prod(d))], dt="f", sh=list(d))
    which = r.randrange(5)
    if which == 0:
        v = data(n)
        vec = on.array(lambda i: el(on, v[i]))
        return on.reduce(vec, idn(), comb)
    if n > 9:
        n = n // 2
    if which == 1:     # one reduction per row
        A = data(m, n)
        def row(j):
            vec = on.array(lambda i: el(on, A[j, i]), sz=n)
            return on.reduce(vec, idn(), comb)
        return on.array(row, sz=m)
    if which == 2:     # per column, reduced axis first
        A = data(n, m)
        def col(j):
            vec = on.array(lambda i: el(on, A[i, j]), sz=n)
            return on.reduce(vec, idn(), comb)
        return on.array(col, sz=m)
    if which == 3:     # two batch indices
        A, B = data(2, n), data(n, m)
        def cell(i, j):
            vec = on.array(lambda t: el(on, A[i, t] * B[t, j]), sz=n)
            return on.reduce(vec, idn(), comb)
        return on.array(cell, n=2, sz=(2, m))
    # inside a fold
    v = data(max(n, 1))
    def step(t, a):
        vec = on.array(lambda i: el(on, v[i + t]), sz=n)
        q = on.reduce(vec, idn(), comb)
        return a * 0.5 + scalar_of(on, q)
    return on.fold(0.0, step, r.randint(0, 3))


def red_case(case):
    """The cases of spec/MCReduce.tla: a length, a monoid and a place."""
    def f(on, r):
        n, place = case["n"], case["place"]
        kind, el, idn, comb = monoid(on, r, case["monoid"])
        pool = SAFE if n <= 9 else [1.0, -1.0, 1.0, -1.0, 1.0, 1.0, -1.0]
        def data(*d):
            k = _prod(d)
            xs = [r.choice(pool) for _ in range(k)]
            for q in ([2.0, 3.0, -0.5, 0.25, 0.0][:r.randint(1, 5)] if n > 9 and k else []):
                xs[r.randrange(k)] = q
            return on.arr(xs, dt="f", sh=list(d))
        m = r.randint(1, 3)
        red = lambda g: on.reduce(on.array(lambda i: el(on, g(i)), sz=n), idn(), comb)
        if place == "top":
            v = data(n)
            return on.reduce(on.array(lambda i: el(on, v[i])), idn(), comb)
        if place == "row":
            A = data(m, n)
            return on.array(lambda j: red(lambda i: A[j, i]), sz=m)
        if place == "column":
            A = data(n, m)
            return on.array(lambda j: red(lambda i: A[i, j]), sz=m)
        if place == "cell":
            A, B = data(2, n), data(n, m)
            return on.array(lambda i, j: red(lambda t: A[i, t].min(B[t, j])), n=2, sz=(2, m))
        if place == "fold":
            v = data(n + 1)
            return on.fold(0.0, lambda t, a: a * 0.5 + scalar_of(on, red(lambda i: v[i + t])), r.randint(1, 3))
        if place == "let":
            v = data(n)
            return on.let(scalar_of(on, red(lambda i: v[i])), lambda x: x * 0.5 + x)
        if place == "twice":
            A = data(m, n)
            w = on.array(lambda j: scalar_of(on, red(lambda i: A[j, i])), sz=m)
            return on.reduce(w, 0.0, lambda x, y: x + y) + scalar_of(on, red(lambda i: A[0, i]))
        v, u = data(n), data(n)
        return on.where(data(1)[0] > 0.0, scalar_of(on, red(lambda i: v[i])), scalar_of(on, red(lambda i: u[i])))
    return f


def _prod(d):
    n = 1
    for q in d:
        n *= q
    return n


def scalar_of(on, h):
    """Some float scalar inside a value."""
    from plan import type_of
    t = type_of(h.obj)
    while t["k"] in ("r", "v"):
        if t["k"] == "r":
            h = h.proj(len(t["e"]) - 1)
            t = t["e"][-1]
        else:
            h, t = h[0], t["e"]
    return h if t["k"] == "f" else h.float() if t["k"] == "i" else on.where(h, 1.0, 2.0)


def red_batch(on, r):
    """Combination bodies that use outer indices, arrays and folds."""
    n, m, q = r.choice([0, 1, 2, 3, 4, 5]), r.randint(1, 3), r.randint(1, 3)
    w = arr(on, r, "f", q)
    A = on.arr([r.choice(SAFE) for _ in range(m * n * q)], dt="f", sh=[m, n, q])
    which = r.randrange(6)
    zero = on.arr([0.0] * q)
    if which == 0:
        return on.array(lambda i: on.reduce(A[i], zero, lambda x, y: on.array(lambda j: w[j] * 0.0 + x[j] + y[j])), sz=m)
    if which == 1:
        return on.array(lambda i: on.reduce(A[i], zero, lambda x, y: on.array(lambda j: x[j] + y[j] + w[j] * (i * 0).float())), sz=m)
    if which == 2:
        return on.array(lambda i, j: on.reduce(on.array(lambda t: A[i, t, j], sz=n), 0.0, lambda x, y: x + y + (w[j] - w[j])), sz=(m, q))
    if which == 3:
        return on.array(lambda j: on.reduce(on.array(lambda t: A[0, t, j], sz=n), 0.0, lambda x, y: on.fold(x, lambda s, a: a + y, 1)), sz=q)
    if which == 4:
        return on.array(lambda i: on.reduce(A[i], zero, lambda x, y: on.array(lambda j: x[j].max(y[j]) + x[j].min(y[j]), sz=q)), sz=m)
    ms = on.array(lambda i, j: on.reduce(on.array(lambda t: on.tup(A[i, t, j], t), sz=n), on.tup(float("-inf"), -1),
                                         lambda x, y: on.where(x.proj(0) >= y.proj(0), x, y)), n=2, sz=(m, q))
    return ms


# --- records (C09) ----------------------------------------------------------
NAMES = ["a", "b", "values", "items", "keys", "x", "z", "get", "size", "expr"]


def rec_shape(r, depth=2):
    """A record type with leaves f, i, b or vectors."""
    if depth == 0 or r.random() < 0.35:
        return r.choice(["f", "i", "b", "f", "i", ("v", "f"), ("v", "i")])
    c = r.randrange(5)
    if c <= 1:
        return ("t", (), [rec_shape(r, depth - 1) for _ in range(r.randint(1, 4))])
    if c == 2:
        n = r.randint(1, 3)
        return ("d", tuple(r.sample(NAMES, n)), [rec_shape(r, depth - 1) for _ in range(n)])
    if c == 3:
        return ("Point", ("x", "y"), [rec_shape(r, depth - 1) for _ in range(2)])
    return ("Triple", ("values", "items", "z"), [rec_shape(r, depth - 1) for _ in range(3)])


def rec_value(on, r, s, i=None, dims=2):
    """A record of that shape; i: an index its leaves may depend on."""
    if s == "f":
        c = num(r, "f")
        return on.c(c, False) if i is None else i.float() + c
    if s == "i":
        return on.c(num(r, "i"), False) if i is None else i + num(r, "i")
    if s == "b":
        return on.c(r.random() < 0.5, False) if i is None else i < r.randint(0, 3)
    if s[0] == "v":
        v = arr(on, r, s[1], dims)
        if i is None:
            return v
        return on.array(lambda j: v[j] + (i.float() if s[1] == "f" else i))
    return on.mk(s[0], s[1], *[rec_value(on, r, q, i, dims) for q in s[2]], v=r.choice(["", "list"]))


def is_rec(s):
    return not isinstance(s, str) and s[0] != "v"


def rec_leaves(s):
    return sum(map(rec_leaves, s[2])) if is_rec(s) else 1


def rec_top(r, depth=2):
    most = r.choice([3, 4, 4, 4, 5])      # staging time grows steeply with the number of leaves
    while True:
        s = rec_shape(r, depth)
        if is_rec(s) and rec_leaves(s) <= most:
            return s


def rec_arrays(on, r):
    s = rec_top(r, r.choice([1, 2, 2, 3]))
    n = r.randint(0, 4)
    v = on.array(lambda i: rec_value(on, r, s, i), sz=n)
    out = [v]
    c = r.randrange(6)
    if c == 0:
        out.append(v[r.choice([0, 1, -1, 9])])
    elif c == 1:
        out.append(on.concat(v, on.array(lambda i: rec_value(on, r, s, i), sz=r.randint(0, 2))))
    elif c == 2:
        out.append(on.array(lambda i: on.tup(v[i + 1], i), sz=n))
    elif c == 3:
        out.append(on.array(lambda i: v[n - 1 - i], sz=n))
    elif c == 4 and rec_leaves(s) <= 3:
        out.append(on.array(lambda i, j: on.mk("d", ["l", "r"], v[i], v[j]), n=2))
    else:
        out.append(v.size())
    return out


def rec_where(on, r):
    s = rec_top(r, r.choice([1, 2, 2, 3]))
    if r.random() < 0.5:
        c = on.c(r.random() < 0.5, False)
        return on.where(c, rec_value(on, r, s), rec_value(on, r, s))
    n = r.randint(0, 3)
    return on.array(lambda i: on.where(i < r.randint(0, 3), rec_value(on, r, s, i), rec_value(on, r, s, i)), sz=n)


def rec_fold(on, r):
    s = rec_top(r, r.choice([1, 2]))
    init = rec_value(on, r, s)
    n = r.randint(0, 3)
    def upd(s, a, t):
        if s == "f":
            return a * 0.5 + t.float()
        if s == "i":
            return a + t
        if s == "b":
            return ~a
        if s[0] == "v":
            return on.array(lambda j: a[j] + a[0])
        cs = [upd(q, a.proj(k), t) for k, q in enumerate(s[2])]
        same = [(p, q) for p in range(len(cs)) for q in range(p) if s[2][p] == s[2][q]]
        if same and r.random() < 0.4:
            p, q = r.choice(same)
            cs[p], cs[q] = cs[q], cs[p]
        return on.mk(s[0], s[1], *cs)
    if r.random() < 0.5:
        return on.fold(init, lambda t, a: upd(s, a, t), n)
    return on.array(lambda i: on.fold(rec_value(on, r, s, i), lambda t, a: upd(s, a, t), n), sz=r.randint(0, 3))


def rec_nest(on, r):
    """Vectors of records of vectors of records."""
    n, m = r.randint(0, 3), r.randint(0, 3)
    v = iota(on, r, n, m)
    rows = on.array(lambda i: on.mk("d", ["row", "k"], on.array(lambda j: on.tup(v[i, j], i + j), sz=m), i), sz=n)
    c = r.randrange(5)
    if c == 0:
        return on.array(lambda i, j: rows[i].proj(0)[j].proj(0), n=2, sz=(n, m))
    if c == 1:
        return on.array(lambda j, i: on.tup(rows[i].proj(0)[j], rows[i].proj(1)), n=2, sz=(m, n))
    if c == 2:
        return on.array(lambda i: on.fold(on.tup(0.0, 0), lambda j, a: on.tup(a.proj(0) + rows[i].proj(0)[j].proj(0), a.proj(1) + rows[i].proj(0)[j].proj(1)), m), sz=n)
    if c == 3:
        return on.array(lambda i: rows[i + 1].proj(0)[i], sz=n)
    return rows


def rec_mismatch(on, r):
    """Structures that do not match must be refused."""
    on.trying = True
    s = rec_top(r, 2)
    t = rec_mutate(r, s)
    a, b = rec_value(on, r, s), rec_value(on, r, t)
    c = r.randrange(4)
    if c == 0:
        on.fold(a, lambda i, acc: b, 2)
    elif c == 1:
        va = on.array(lambda i: rec_value(on, r, s, i), sz=2)
        vb = on.array(lambda i: rec_value(on, r, t, i), sz=2)
        on.emit("concat", [va, vb], 0, lambda: on.ein(va.obj).concat(on.ein(vb.obj)))
    elif c == 2:
        va = on.array(lambda i: rec_value(on, r, s, i), sz=2)
        on.reduce(va, b, lambda x, y: x)
    else:
        va = on.array(lambda i: rec_value(on, r, s, i), sz=2)
        on.reduce(va, a, lambda x, y: b)
    return []


def rec_mutate(r, s):
    """A different record type."""
    c = r.randrange(5)
    cs = list(s[2])
    if c == 0 and len(cs) > 1 and cs[0] != cs[-1]:
        cs.reverse()
        return (s[0], s[1], cs) if True else s
    if c == 1:
        k = r.randrange(len(cs))
        cs[k] = {"f": "i", "i": "f", "b": "i"}.get(cs[k] if isinstance(cs[k], str) else "", "b")
        return (s[0], s[1], cs)
    if c == 2 and s[0] == "d":
        return ("d", tuple(n + "_" for n in s[1]), cs)
    if c == 3 and s[0] != "t":
        return ("t", (), cs)
    if s[0] == "t":
        return ("t", (), cs + ["i"])
    return ("t", (), cs)


# --- shapes and kinds (C03) --------------------------------------------------
def sh_broadcast(on, r):
    """Bodies that do not mention some (or any) of their indices."""
    d = [r.choice([0, 1, 1, 2, 3]) for _ in range(3)]
    k = r.choice("fib")
    c = on.c(num(r, k), False)
    v = arr(on, r, k, d[1])
    which = r.randrange(7)
    if which == 0:
        return on.array(lambda i: c, sz=d[0])
    if which == 1:
        return on.array(lambda i, j: v[j], sz=(d[0], d[1]))
    if which == 2:
        return on.array(lambda i, j: v[i], sz=(d[1], d[2]))
    if which == 3:
        return on.array(lambda i, j, l: v[j], n=3, sz=(d[0], d[1], d[2]))
    if which == 4:
        return on.array(lambda i: on.array(lambda j: c, sz=d[1]), sz=d[0])
    if which == 5:
        return on.array(lambda i: v, sz=d[0])
    w = arr(on, r, k, d[0], d[2])
    return on.array(lambda i: on.array(lambda j: on.array(lambda l: w[i, l], sz=d[2]), sz=d[1]), sz=d[0])


def sh_kinds(on, r):
    """Kinds through every operator, also of arrays of narrow types."""
    n = r.choice([0, 1, 2, 3])
    k = r.choice("fib")
    dt = {"f": ["f", "f", "f4", "f2"], "i": ["i", "i", "i4", "i2"], "b": ["b"]}[k]
    v = on.arr([num(r, k) for _ in range(n)], dt=r.choice(dt) if r.random() < 0.4 else k, sh=[n])
    small = lambda: on.array(lambda i: kop(on, r, k, v, i))
    out = [small()]
    if k != "b":
        z = 0.0 if k == "f" else 0
        out.append(on.fold(z, lambda i, a: a + v[i], n))
        out.append(on.reduce(v, z, lambda x, y: x + y))
        out.append(on.array(lambda j: on.fold(z, lambda i, a: r.choice([a + v[i] * v[j], a.max(v[i])]), n), sz=r.randint(0, 2)))
    else:
        out.append(on.fold(True, lambda i, a: a & v[i], n))
        out.append(on.reduce(v, False, lambda x, y: x | y))
    return out


def kop(on, r, k, v, i):
    x, y = v[i], v[0]
    if k == "f":
        return r.choice([lambda: x + y, lambda: -x, lambda: x < y, lambda: x * 2.0, lambda: abs(x), lambda: x.min(y), lambda: x ** 2,
                         lambda: on.where(x < y, 1.0, 0.0), lambda: x.eq(y), lambda: x / 2.0, lambda: x, lambda: i])()
    if k == "i":
        return r.choice([lambda: x + y, lambda: -x, lambda: x % 3, lambda: x.float(), lambda: abs(x), lambda: x.max(y), lambda: x ** 2,
                         lambda: on.where(x < y, 1, 0), lambda: x.ne(y), lambda: x * i, lambda: i.float(), lambda: i < 1])()
    return r.choice([lambda: x & y, lambda: x | y, lambda: ~x, lambda: on.where(x, 1, 0), lambda: on.where(x, 1.5, 0.0), lambda: on.where(x, y, x), lambda: x])()


def sh_sizes(on, r):
    """Every size observed from inside a program."""
    d = [r.choice([0, 1, 2, 3]) for _ in range(3)]
    a = arr(on, r, r.choice("fib"), *d)
    ax = r.randrange(3)
    out = [a.size(ax)]
    b = on.array(lambda i, j: a[i, j], n=2)
    out += [b.size(r.randrange(3)), a[0].size(r.randrange(2)) if d[0] else b.size(1)]
    c = on.concat(a, a)
    out += [c.size(0), c.size(1), c.size(2)]
    e = on.array(lambda i: a[i].size(0), sz=d[0])
    f = on.array(lambda j, i: a[i, j], n=2)
    out += [e, f.size(0), f.size(1), f.size(2)]
    g = on.fold(a, lambda t, q: q, r.randint(0, 2))
    out += [g.size(1)]
    w = on.where(on.c(r.random() < 0.5, False), a, a)
    out += [w.size(r.randrange(3)), w]
    h = on.array(lambda i: i, sz=a.size(ax) + 1)
    out += [h, h.size()]
    return r.sample(out, 6)


def sh_concat(on, r):
    d1, d2, m = r.choice([0, 0, 1, 2, 3]), r.choice([0, 0, 1, 2, 3]), r.choice([0, 1, 2])
    k = r.choice("fib")
    a, b = arr(on, r, k, d1, m), arr(on, r, k, d2, m)
    c = on.concat(a, b)
    inner = on.array(lambda i: on.concat(a[i], a[i]), sz=d1)
    x = on.array(lambda j: on.concat(on.array(lambda i: a[i, j], sz=d1), on.array(lambda i: b[i, j], sz=d2)), sz=m)
    y = on.array(lambda j, i: c[i, j], n=2)
    return [c, inner, x, y, c.size()]


# --- typing (C04) -------------------------------------------------------------
def pool(on, r):
    P = []
    for k in "fib":
        P.append(on.c(num(r, k), raw=True))
        P.append(on.c(num(r, k), raw=False))
        P.append(arr(on, r, k, r.randint(1, 3)))
    P.append(arr(on, r, r.choice("fib"), 2, 2))
    P.append(arr(on, r, "f", 1, 2, 2))
    return P


def rawpy(h):
    return isinstance(h.obj, (bool, int, float))


OPSA1 = ["neg", "not", "float", "exp", "sin", "cos", "abs", "tanh", "recip"]
OPSA2 = ["add", "sub", "mul", "div", "mod", "pow", "min", "max", "lt", "le", "gt", "ge", "eq", "ne", "and", "or"]


def scalarish(h):
    from plan import type_of
    return type_of(h.obj)["k"] in "fib"


def ty_ops(on, r):
    """Operators on operands of every kind; one call may be ill-typed."""
    on.trying = True
    P = pool(on, r)
    def body(extra):
        Q = P + extra * 4
        for _ in range(r.randint(4, 10)):
            if r.random() < 0.25:
                h = r.choice([q for q in Q if not rawpy(q)])
                x = on.op1(r.choice(OPSA1), h)
            else:
                a, b = r.choice(Q), r.choice(Q)
                if rawpy(a) and rawpy(b):
                    continue
                o = r.choice(OPSA2)
                if o in ("pow",) and (rawpy(b) or not scalarish(a)):
                    continue
                if not scalarish(a) and o in ("eq", "ne", "min", "max"):
                    continue      # Python gives every object an == of its own
                if rawpy(a) and o in ("eq", "ne") and not scalarish(b):
                    continue
                x = on.op2(o, a, b)
            if x is not None:
                Q.append(x)
        return Q
    if r.random() < 0.4:
        body([])
        return []
    def cons(i):
        Q = body([i])
        return r.choice([q for q in Q if not rawpy(q)])
    return on.array(cons, sz=2)


def ty_calls(on, r):
    """Every other combinator with operands of wrong and right types."""
    on.trying = True
    P = pool(on, r)
    V = [p for p in P if not rawpy(p)]
    def one(Q):
        c = r.randrange(9)
        h = lambda: r.choice(Q)
        v = lambda: r.choice([q for q in Q if not rawpy(q)])
        vec = lambda: r.choice([q for q in Q if not scalarish(q)])
        sca = lambda: r.choice([q for q in Q if scalarish(q)])
        if c == 0:
            return on.get(vec(), r.choice([sca(), h()]))
        if c == 1:
            q = r.choice([sca, sca, vec])
            cond = r.choice([on.c(True, False), sca()])
            return on.emit("where", [cond, *(pair := [q(), q()])], 0, lambda: on.ein(cond.obj).where(pair[0].obj, pair[1].obj)) if q is sca else \
                on.where(on.c(True, False), q(), q())
        if c == 2:
            p, q = vec(), vec()
            return on.concat(p, q)
        if c == 3:
            return on.array(lambda i: r.choice([i, v()]), sz=r.choice([sca(), on.c(2), on.c(2.0), on.c(True), vec()]))
        if c == 4:
            i0 = h()
            return on.fold(i0, lambda i, a: r.choice([a, a, i, h()]), r.choice([on.c(2), sca(), on.c(1.5)]))
        if c == 5:
            w = vec()
            return on.reduce(w, r.choice([h(), h()]), lambda x, y: r.choice([x, y, h()]))
        if c == 6:
            f = r.choice(["e_lin3", "e_isub", "e_lt", "e_not", "e_wsum", "e_dot", "e_scale", "e_rev"])
            n = r.choice([1, 2, 3, 2])
            return on.ext(f, *[h() for _ in range(n)])
        if c == 7:
            i0 = vec()
            return on.orempty(i0, r.choice([on.c(0), sca()]), h())
        return on.size(vec(), 0)
    if r.random() < 0.7:
        for _ in range(r.randint(2, 5)):
            x = one(V + P)
            if x is not None:
                P.append(x)
        return []
    def cons(i):
        x = one(V + P + [i] * 5)
        return x
    h = on.array(cons, sz=2)
    # arbitrary functions are no monoids: those are only built
    return [] if any(e["c"]["op"] == "reduce" for e in on.events) else h


def ty_sizes(on, r):
    """Sizes: ints that do not depend on a comprehension index."""
    on.trying = True
    v = arr(on, r, "i", 3)
    n = on.c(2, False)
    c = r.randrange(9)
    if c == 0:
        return on.array(lambda i: on.array(lambda j: j, sz=i), sz=2)
    if c == 1:
        return on.array(lambda i: on.array(lambda j: i + j, sz=v[i]), sz=2)
    if c == 2:
        return on.array(lambda i: on.array(lambda j: i + j, sz=v[0] * 0 + n), sz=2)
    if c == 3:
        return on.fold(0, lambda t, a: a + on.fold(0, lambda s, b: b + 1, t), 3)
    if c == 4:
        return on.fold(0, lambda t, a: a + on.array(lambda i: i, sz=t + 1)[9], 3)
    if c == 5:
        return on.array(lambda i: on.fold(0, lambda t, a: a + on.array(lambda j: j + i, sz=t + 1)[9], 3), sz=2)
    if c == 6:
        return on.array(lambda i: i, sz=on.c(2.0, r.random() < 0.5))
    if c == 7:
        return on.array(lambda i: i, sz=on.c(True, r.random() < 0.5))
    return on.array(lambda i, j: i + j, sz=(on.c(2), r.choice([v, on.c(1.5), n])))


# --- inference of sizes (C05) ---------------------------------------------------
def inf_direct(on, r):
    """The same body with the sizes inferred and given."""
    d = [r.choice([0, 1, 2, 3, 4]) for _ in range(3)]
    v = [iota(on, r, d[q], k="f") for q in range(3)]
    A, B = iota(on, r, d[0], d[1]), iota(on, r, d[1], d[2])
    ix = arr(on, r, "i", d[0])
    pair = on.array(lambda i: on.tup(v[0][i], i), sz=d[0])
    tup = on.tup(v[0], A)
    which = r.randrange(14)
    T = {
        0: (lambda i: v[0][i], 1, (0,)),
        1: (lambda i, j: A[i, j], 2, (0, 1)),
        2: (lambda j, i: A[i, j], 2, (1, 0)),
        3: (lambda i, j: v[0][i] * v[1][j], 2, (0, 1)),
        4: (lambda i: v[1][ix[i]], 1, (0,)),
        5: (lambda i: pair[i].proj(0), 1, (0,)),
        6: (lambda i: tup.proj(1)[i, 0] + tup.proj(0)[i], 1, (0,)),
        7: (lambda i: v[0][i + 1] + v[0][i], 1, (0,)),
        8: (lambda i: on.fold(0.0, lambda t, a: a + A[i, t]), 1, (0,)),
        9: (lambda i: on.array(lambda j: A[i, j] + v[0][i]), 1, (0,)),
        10: (lambda i: on.where(v[0][i] < 1.0, v[0][i], 2.0), 1, (0,)),
        11: (lambda i, j: on.tup(A[i, j], on.mk("d", ["p"], v[1][j])), 2, (0, 1)),
        12: (lambda i, j, k: A[i, j] * B[j, k], 3, (0, 1, 2)),
        13: (lambda i: on.array(lambda q: v[0][q] * v[1][i]), 1, (1,)),
    }
    f, n, s = T[which]
    return [on.array(f, n=n), on.array(f, n=n, sz=tuple(on.c(d[q]) for q in s))]


def inf_fold(on, r):
    d = [r.choice([0, 1, 2, 3, 4]) for _ in range(2)]
    v, A = iota(on, r, d[0]), iota(on, r, d[0], d[1])
    ix = arr(on, r, "i", d[0])
    T = [
        (lambda t, a: a + v[t], d[0]),
        (lambda t, a: a * 0.5 + v[t], d[0]),
        (lambda t, a: a + on.fold(0.0, lambda s, b: b + A[t, s]), d[0]),
        (lambda t, a: a + v[ix[t]], d[0]),
        (lambda t, a: a + on.array(lambda j: A[t, j])[0], d[0]),
        (lambda t, a: a + v[t] * v[t + 1], d[0]),
        (lambda t, a: on.where(v[t] < a, v[t], a), d[0]),
    ]
    f, n = r.choice(T)
    out = [on.fold(0.0, f), on.fold(0.0, f, n)]
    if r.random() < 0.5:
        w = iota(on, r, d[1], d[0])
        out.append(on.array(lambda i: on.fold(0.0, lambda t, a: a + w[i, t])))
        out.append(on.array(lambda i: on.fold(0.0, lambda t, a: a + w[i, t], d[0]), sz=d[1]))
    return out


def inf_none(on, r):
    """Nothing usable is indexed directly: ValueError."""
    on.trying = True
    v, A = iota(on, r, 3), iota(on, r, 2, 3)
    c = r.randrange(11)
    if c == 0:
        return on.array(lambda i: i)
    if c == 1:
        return on.array(lambda i: v[i + 1])
    if c == 2:
        return on.array(lambda i: v[i.min(2)])
    if c == 3:
        return on.array(lambda i, j: v[i], n=2)
    if c == 4:    # only a vector that exists inside
        return on.array(lambda i: on.array(lambda j: on.array(lambda q: j + q, sz=2)[i], sz=2))
    if c == 5:
        return on.fold(0.0, lambda t, a: a + t.float())
    if c == 6:    # indexes only its own accumulator
        return on.fold(v, lambda t, a: on.array(lambda i: a[t], sz=3))
    if c == 7:
        return on.fold(0.0, lambda t, a: a + v[t - 1])
    if c == 8:
        return on.array(lambda i, j: A[j, 0], n=2)
    if c == 9:
        return on.array(lambda i: on.fold(v, lambda t, a: a, 1)[i * 1])
    return on.array(lambda i: on.fold(0.0, lambda t, a: a + v[t + i], 2))


def inf_scope(on, r):
    """Candidates whose size lives outside, inside, or in between."""
    n, m, p = r.randint(1, 4), r.randint(1, 3), r.randint(1, 3)
    v, A = iota(on, r, n), iota(on, r, n, m)
    C = iota(on, r, p, n, m)
    on.trying = True
    c = r.randrange(14)
    if c >= 8:
        return inf_inner(on, r, n, v, A, c)
    if c == 0:
        return on.array(lambda i: on.array(lambda j: A[i][j]))
    if c == 1:
        return on.array(lambda i: on.array(lambda j: on.array(lambda q: C[i, j, q])))
    if c == 2:
        return on.array(lambda i: on.array(lambda j, q: C[i][j][q] + v[j], n=2))
    if c == 3:
        w = on.array(lambda i: on.array(lambda j: A[i, j] * 2.0))
        return on.array(lambda j, i: w[i, j], n=2)
    if c == 4:
        return on.array(lambda i: on.array(lambda j: on.array(lambda q: A[i, q] + v[i], sz=m)[j]))
    if c == 5:
        return on.fold(v, lambda t, a: on.array(lambda i: a[i] + v[i] * v[t]))
    if c == 6:
        return on.fold(v, lambda t, a: on.array(lambda i: a[i] + 1.0), 2)
    cc = on.concat(v, v)
    return on.array(lambda i: cc[i] + on.array(lambda j: cc[j])[i])


def inf_inner(on, r, n, v, A, c):
    """The index is used into arrays which only exist inside of an inner loop, next to (or without) one from outside."""
    k = r.randint(0, 3)
    first = r.random() < 0.5
    def both(inner, outer):
        return inner if outer is None else inner + outer if first else outer + inner
    out = (lambda j: v[j]) if r.random() < 0.8 else lambda j: None
    if c == 8:     # an accumulator
        return on.array(lambda j: both(on.fold(v, lambda t, a: on.array(lambda q: a[q] * 0.5 + a[j], sz=n), k)[0], out(j)))
    if c == 9:     # the accumulator of a fold inside of a fold
        return on.array(lambda j: both(on.fold(0.0, lambda s, b: b + on.fold(v, lambda t, a: on.array(lambda q: a[q] + a[j], sz=n), k)[s], n), out(j)))
    if c == 10:    # elements of a reduction
        return on.array(lambda j: both(on.reduce(A, on.arr([0.0] * _dims(A)[1]), lambda x, y: on.array(lambda q: x[q] + y[q] + x[j] * 0.0 + y[j] * 0.0))[0], (lambda j: A[0][j])(j) if r.random() < 0.8 else None))
    if c == 11:    # a let-bound vector
        return on.array(lambda j: both(on.let(on.array(lambda q: v[q] * 2.0), lambda w: w[j] + w[0]), out(j)))
    if c == 12:    # a row of an array of an outer index
        return on.array(lambda i: on.array(lambda j: both(on.array(lambda q: A[i, q] + v[i])[j], A[i][j])))
    # the size of a fold, over an accumulator and an array
    return on.fold(0.0, lambda t, b: b + both(on.fold(v, lambda s, a: on.array(lambda q: a[q] * 0.5 + a[t], sz=n), k)[0], out(t)))


# --- helpers (C17) ----------------------------------------------------------------
def std_concat(on, r):
    k = r.choice("fib")
    m = r.randint(1, 4)
    rank2 = r.random() < 0.4
    q = r.choice([0, 1, 2])
    vs = [arr(on, r, k, r.choice([0, 0, 1, 2, 3]), *([q] if rank2 else [])) for _ in range(m)]
    c = on.concat(*vs) if m != 2 else on.concat(*vs, std_=r.random() < 0.5)
    out = [c, c.size()]
    n = sum(_dims(v)[0] for v in vs)
    if n:
        out.append(on.array(lambda i: c[i - 1], sz=r.randint(0, 5)))
    if k != "b" and not rank2:
        out.append(on.fold(0.0 if k == "f" else 0, lambda i, a: a * 2 + c[i] if k == "i" else a * 2.0 + c[i], n))
    if r.random() < 0.5:
        w = on.concat(c, c)
        out.append(on.array(lambda i: w[i], sz=r.randint(0, 4)) if n else w)
    return out


def _dims(h):
    from plan import to_numpy
    o = h.on.inputs.get(h.id)
    return o[1].shape if o else ()


def std_concat_inner(on, r):
    n, m, p = r.randint(0, 3), r.randint(0, 3), r.randint(0, 3)
    A, B, u = iota(on, r, n, m), iota(on, r, n, p), iota(on, r, p)
    c = r.randrange(6)
    if c == 0:
        return on.array(lambda i: on.concat(A[i], B[i]), sz=n)
    if c == 1:
        return on.array(lambda i: on.concat(A[i], u), sz=n)
    if c == 2:
        return on.array(lambda i: on.concat(u, A[i]), sz=n)
    if c == 3:
        x = on.array(lambda i, j: on.concat(A[i], B[j]), n=2, sz=(n, n))
        return x
    if c == 4:
        return on.fold(u, lambda t, a: on.array(lambda i: on.concat(a, u)[i + 1], sz=p), r.randint(0, 3))
    x = on.array(lambda i: on.concat(on.array(lambda j: on.tup(A[i, j], j), sz=m), on.array(lambda j: on.tup(B[i, j], j), sz=p)), sz=n)
    return x


def std_where(on, r):
    n, m = r.randint(0, 3), r.randint(0, 3)
    k = r.choice("fib")
    a, b = arr(on, r, k, n, m), arr(on, r, k, n, m)
    c = r.randrange(5)
    if c == 0:
        return on.where(on.c(r.random() < 0.5, r.random() < 0.5), a, b)
    if c == 1:
        return on.array(lambda i: on.where(i < r.randint(0, 3), a[i], b[i]), sz=n)
    if c == 2:
        return on.where(on.c(r.random() < 0.5, False), on.tup(a, on.mk("d", ["u"], b)), on.tup(b, on.mk("d", ["u"], a)))
    if c == 3:
        return on.array(lambda i, j: on.where((i + j) % 2 < 1, a[i, j], b[i, j]), n=2)
    if n == 0:
        return on.where(on.c(True, False), a, b)
    return on.where(on.size(a, 1) > 1, a[0], b[0])


def std_orempty(on, r):
    n, m = r.choice([0, 0, 1, 2]), r.randint(0, 3)
    k = r.choice("fib")
    v, A = arr(on, r, k, n), arr(on, r, k, m, n)
    d = num(r, k)
    c = r.randrange(4)
    if c == 0:
        return on.orempty(v, r.choice([0, 1, -1, 5]), d)
    if c == 1:
        return on.array(lambda i: on.orempty(A[i], r.choice([0, i]), d), sz=m)
    if c == 2:
        return on.array(lambda i: on.orempty(v, i, d), sz=m)
    return on.orempty(A, 0, arr(on, r, k, n))


def std_slices(on, r):
    d = [r.choice([0, 1, 2, 3]) for _ in range(3)]
    a = iota(on, r, *d, k=r.choice("fi"))
    pat = r.choice([(None,), (None, 0), (None, None), (0, None), (None, 1, None), (None, None, 0), (0, None, 1), (None, None, None), (1, 0, None)])
    if any(p is not None and d[q] == 0 for q, p in enumerate(pat)):
        pat = (None,)
    out = [on.slice(a, *pat)]
    if d[0] and d[2]:
        out.append(on.array(lambda i: on.slice(a, i, None, 0), sz=d[0]))
        out.append(on.array(lambda i: on.slice(a, 0, None, i), sz=d[2]))
    if d[1]:
        out.append(on.array(lambda i: on.slice(a, None, i + 1), sz=2))
    return out


def std_minmax(on, r):
    k = r.choice("fi")
    n = r.randint(1, 3)
    v = arr(on, r, k, n)
    xs = [v[q] if r.random() < 0.5 else num(r, k) for q in range(r.randint(2, 5))]
    o = r.choice(["min", "max"])
    out = [on.minmax(o, v[0], *xs)]
    out.append(on.array(lambda i: on.minmax(o, v[i], v[0], num(r, k), v[i + 1]), sz=n))
    out.append(v.assume(v[0].eq(v[0])) if False else v[0])
    return out


def std_assume(on, r):
    n = r.randint(1, 3)
    v, w = iota(on, r, n), iota(on, r, n)
    c = r.randrange(4)
    if c == 0:
        return v.assume(w)
    if c == 1:
        return on.array(lambda i: v[i].assume(w[i]), sz=n)
    if c == 2:
        return v[0].assume(v.size().eq(w.size()))
    return on.array(lambda i: v.assume(on.tup(v, w))[i] + w[i])


def ix_case(case):
    """The index expressions of spec/MCIndex.tla, reading axes of several lengths."""
    def f(on, r):
        consts = {}
        style = r.choice(["literal", "literal", "element", "size", "mixed"])
        def const(c):
            s = r.choice(["literal", "element", "size"]) if style == "mixed" else style
            if s == "element":
                return on.arr([7, c], dt="i")[1]
            if s == "size" and c >= 0:
                return on.arr([0.0] * c, dt="f", sh=[c]).size()
            return on.c(c)
        def e(i):
            for q in case["ops"]:
                c, o = const(q["c"]), q["o"]
                if o == "sub":
                    i = i - c
                elif o == "add":
                    i = i + c if r.random() < 0.6 else c + i
                else:
                    i = on.op2(o, i, c) if r.random() < 0.6 else on.op2(o, c, i)
            return i
        out = []
        for _ in range(3):
            dim, size, m = r.randint(1, 5), r.randint(0, 6), r.randint(1, 3)
            w = r.randrange(6)
            if w <= 1:
                v = iota(on, r, dim)
                out.append(on.array(lambda i: v[e(i)], sz=size))
            elif w == 2:
                A = iota(on, r, m, dim)
                out.append(on.array(lambda j, i: A[j, e(i)], sz=(m, size)))
            elif w == 3:
                A = iota(on, r, dim, m)
                out.append(on.array(lambda j, i: A[e(i), j], sz=(m, size)))
            elif w == 4:
                A = iota(on, r, dim, r.randint(1, 4))
                out.append(on.array(lambda i, j: A[e(i), e(j)], sz=(size, r.randint(0, 4))))
            else:
                v = iota(on, r, dim)
                out.append(on.fold(0.0, lambda t, a: a * 0.5 + v[e(t)], size))
        return out
    return f
