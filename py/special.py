"""Drivers that look at more than values: work done, purity, staging of
functions, gradients, environments, printing, compiler switches."""
from __future__ import annotations
import collections, functools, random, re
import numpy as np
import torch, jax, jax.numpy as jnp
import gen, motifs, online, plan
from motifs import arr, iota, num, FL, IN
from online import On, X
from plan import Abort, phi, ts, wrap, _T, spec_value, spec_scalar, observe, to_numpy, tjson
import ein

ALL = ("naive", "numpy", "torch", "jax")


# --- work (C10) -------------------------------------------------------------
def ticks(r, h, back):
    """Evaluate and log how often the host functions ran."""
    plan.TICKS.clear()
    r.eval(h, back)
    for f in ("e_tick", "e_tick2"):
        r.events.append({"ev": "ticks", "h": h, "back": back, "f": f, "n": plan.TICKS[f]})


def work_random(seed, tier):
    p = gen.general(seed, p_ext=0.3, exts=("e_tick", "e_tick2"), p_rec=0.0, p_infer=0.0, p_reuse=0.6, p_fold=0.25, p_reduce=0.0,
                    dims=[1, 2, 3], nodes=40)
    r = plan.run_plan(p)
    if not r.aborted:
        for h in p["evals"]:
            for b in ("numpy", "torch"):
                ticks(r, h, b)
    return r


def tick(on, x, f="e_tick"):
    return on.ext(f, x)


def w_shared(on, r):
    """One call used many times."""
    n, m = r.randint(1, 3), r.randint(1, 3)
    v, A = iota(on, r, n), iota(on, r, n, m)
    c = r.randrange(12)
    if c == 0:
        def f(i):
            t = tick(on, v[i])
            return t * t + t.min(t) - (t + 1.0)
        return on.array(f, sz=n)
    if c == 1:     # equal calls, built separately
        return on.array(lambda i: tick(on, v[i]) * tick(on, v[i]) + tick(on, v[i]), sz=n)
    if c == 2:     # invariant of an inner comprehension
        return on.array(lambda i: on.array(lambda j: tick(on, v[i]) + A[i, j], sz=m), sz=n)
    if c == 3:     # invariant of a fold
        k = r.randint(0, 4)
        return on.array(lambda i: on.fold(0.0, lambda t, a: a * 0.5 + tick(on, v[i]) + t.float(), k), sz=n)
    if c == 4:     # in both branches and the condition
        def f(i):
            t = tick(on, v[i])
            return on.where(t > 1.0, t * 2.0, t - 1.0)
        return on.array(f, sz=n)
    if c == 5:     # used inside and outside a fold
        x = tick(on, v[0])
        y = on.fold(x, lambda t, a: a * x + 1.0, 3)
        return y + x
    if c == 6:     # a vector built once, indexed in two loops
        w = on.array(lambda i: tick(on, v[i]), sz=n)
        return [on.array(lambda i, j: w[i] * w[j] + w[i + 1], sz=(n, n)),
                on.array(lambda i: on.fold(0.0, lambda j, a: a.max(w[j] + w[i]), n), sz=n)]
    if c == 7:     # nested folds, invariant of the inner one
        return on.fold(1.0, lambda s, a: on.fold(a, lambda t, b: b * 0.5 + tick(on, v[s]), 3) + tick(on, a, "e_tick2"), 2)
    if c == 8:     # depends on the inner counter only
        return on.fold(1.0, lambda s, a: a * 0.5 + on.fold(0.0, lambda t, b: b.max(tick(on, v[t])), n), 3)
    if c == 9:     # fold counter and outer index
        return on.array(lambda i: on.fold(0.0, lambda t, a: a * 0.5 + tick(on, A[i, t]) * tick(on, v[i], "e_tick2"), m), sz=n)
    if c == 10:    # let-bound and shared
        return on.let(on.array(lambda i: tick(on, v[i]), sz=n), lambda w: on.array(lambda i: w[i] + w[0], sz=n))
    x = tick(on, tick(on, v[0]) + tick(on, v[0]))   # nested
    return on.array(lambda i: x * v[i] + x, sz=n)


def w_deep(on, r):
    """Chains in which every step is used twice."""
    n, d = r.randint(1, 3), r.randint(2, 6)
    v = iota(on, r, n)
    def chain(x, fs):
        for _ in range(d):
            x = tick(on, x, r.choice(fs)) * 0.5
            x = x + x if r.random() < 0.5 else x * x.min(0.5)
        return x
    c = r.randrange(5)
    if c == 0:
        return on.array(lambda i: chain(v[i], ["e_tick", "e_tick2"]), sz=n)
    if c == 1:
        return chain(v[0], ["e_tick"])
    if c == 2:
        x = chain(v[0], ["e_tick"])
        return on.fold(0.0, lambda t, a: a * 0.5 + x * x + chain(t.float(), ["e_tick2"]), 3)
    if c == 3:
        ws = [v]
        for _ in range(d):
            w = ws[-1]
            ws.append(on.array(lambda i: tick(on, w[i]) * 0.5 + w[0], sz=n))
        return [on.array(lambda i: ws[-1][i] + ws[-2][i] * ws[0][i], sz=n)]
    x = chain(v[0], ["e_tick"])
    y = on.array(lambda i: x + v[i], sz=n)
    z = on.array(lambda i, j: y[i] * x + y[j], sz=(n, n))
    return [z, on.fold(x, lambda t, a: a * 0.5 + y[t] * x, n)]


def w_scope(on, r):
    """Shared calls whose operands live in particular scopes."""
    n, m = r.randint(1, 3), r.randint(1, 3)
    v, A = iota(on, r, n), iota(on, r, n, m)
    c = r.randrange(8)
    if c == 0:     # shared between two sibling folds of one body
        def f(i):
            t = tick(on, v[i])
            p = on.fold(0.0, lambda s, a: a * 0.5 + t, 2)
            q = on.fold(1.0, lambda s, a: a * t, 2)
            return p + q
        return on.array(f, sz=n)
    if c == 1:     # shared between the two operands of an inner loop and its bound
        def f(i):
            t = tick(on, v[i])
            return on.fold(t, lambda s, a: on.fold(a, lambda u, b: b * 0.5 + t * A[i, u], m), 2)
        return on.array(f, sz=n)
    if c == 2:     # reduce bodies
        def f(i):
            t = tick(on, v[i])
            return on.reduce(A[i], 0.0, lambda x, y: x + y) + t * t
        return on.array(f, sz=n)
    if c == 3:     # selection of vectors
        w = on.array(lambda i: tick(on, v[i]), sz=n)
        u = on.array(lambda i: tick(on, v[i], "e_tick2"), sz=n)
        s = on.where(w[0] > 0.0, w, u)
        return [s, on.array(lambda i: s[i] + w[i], sz=n)]
    if c == 4:     # vector accumulator
        z = on.arr([0.0] * n)
        return on.fold(z, lambda t, a: on.array(lambda i: a[i] * 0.5 + tick(on, v[i]), sz=n), 3)
    if c == 5:     # vector accumulator and counter
        z = on.arr([0.0] * n)
        return on.fold(z, lambda t, a: on.array(lambda i: a[i] * 0.5 + tick(on, v[t]), sz=n), 3)
    if c == 6:     # concatenated twice
        w = on.array(lambda i: tick(on, v[i]), sz=n)
        return on.concat(w, on.concat(w, v))
    w = on.array(lambda i, j: tick(on, A[i, j]), sz=(n, m))
    return [on.array(lambda j, i: w[i, j] + w[0, 0], sz=(m, n)), on.array(lambda i: on.fold(0.0, lambda j, a: a.max(w[i, j]), m), sz=n)]


def w_reduce(on, r):
    """Calls in the bodies of reductions that do not depend on their elements."""
    n, m = r.randint(1, 3), r.choice([1, 2, 3, 5, 7, 8])
    v, A, u = iota(on, r, n), iota(on, r, n, m), iota(on, r, m)
    c = r.randrange(8)
    if c == 0:
        return on.reduce(u, 0.0, lambda x, y: x + y + tick(on, v[0]) * 0.0)
    if c == 1:     # of an enclosing comprehension
        return on.array(lambda i: on.reduce(A[i], 0.0, lambda x, y: x + y + tick(on, v[i]) * 0.0), sz=n)
    if c == 2:     # neither of it nor of the comprehension
        return on.array(lambda i: on.reduce(A[i], float("inf"), lambda x, y: x.min(y) + tick(on, v[0]) * 0.0), sz=n)
    if c == 3:     # used outside, too
        t = tick(on, v[0])
        return on.reduce(u, 0.0, lambda x, y: x + y + t * 0.0) * t + t
    if c == 4:     # vectors
        return on.reduce(A, on.arr([0.0] * m), lambda x, y: on.array(lambda j: x[j] + y[j] + tick(on, u[j]) * 0.0))
    if c == 5:     # of an enclosing fold
        return on.fold(0.0, lambda t, a: a * 0.5 + on.reduce(u, 0.0, lambda x, y: x + y + tick(on, v[t]) * 0.0), n)
    if c == 6:     # records
        w = on.array(lambda j: on.tup(u[j], j), sz=m)
        p = on.reduce(w, on.tup(0.0, 0), lambda x, y: on.tup(x.proj(0) + y.proj(0) + tick(on, v[0]) * 0.0, x.proj(1).max(y.proj(1))))
        return [p.proj(0), p.proj(1)]
    w = on.array(lambda j: tick(on, u[j]), sz=m)     # the elements themselves
    return on.reduce(w, 0.0, lambda x, y: x + y + tick(on, v[0], "e_tick2") * 0.0) + w[0]


WORK = [w_shared, w_deep, w_scope, w_reduce]


def work_motif(seed, tier):
    r = random.Random(seed)
    on = online.program(WORK[seed % len(WORK)], r)
    if not on.aborted:
        for h in on.roots:
            for b in ("numpy", "torch") if seed % 8 else ("numpy", "torch", "jax"):
                ticks(on, h.id, b) if b != "jax" else on.eval(h.id, b)
    on.label = WORK[seed % len(WORK)].__name__
    return on


# --- purity (C11) -------------------------------------------------------------
BACKS_OF = {"np": ("naive", "numpy", "torch", "jax"), "torch": ("torch",), "jax": ("jax",)}


def pure_random(seed, tier):
    """Evaluate several results of one program in a random order, repeatedly, and look at everything again."""
    q = random.Random(seed)
    lib = q.choice(["np", "np", "np", "torch"] + (["jax"] if q.random() < 0.3 else []))
    p = gen.general(seed, libs=[lib], lays=["C", "C", "F", "neg", "view", "bc", "ro"] if lib == "np" else ["C"], p_rec=0.05, dims=[0, 1, 2, 3, 3])
    r = plan.run_plan(p)
    if r.aborted:
        return r
    backs = [b for b in BACKS_OF[lib] if b != "jax" or lib == "jax" or q.random() < 0.25]
    evs = [(h, b) for h in p["evals"] for b in backs] * 2
    q.shuffle(evs)
    for k, (h, b) in enumerate(evs[:10]):
        r.eval(h, b)
        if k % 3 == 1:
            r.reread()
    r.reread()
    r.label = lib
    return r


def p_alias(on, r):
    """Programs whose result could share storage with their inputs or with temporaries."""
    n = r.randint(1, 4)
    v, w, A = iota(on, r, n), iota(on, r, n), iota(on, r, n, n)
    c = r.randrange(14)
    if c == 0:
        return [v, on.array(lambda i: v[i] + w[i]), on.array(lambda i: v[i])]
    if c == 1:
        return [on.array(lambda i, j: A[j, i], sz=(n, n)), on.array(lambda i, j: A[i, j] * 2.0 + 1.0, sz=(n, n))]
    if c == 2:
        return on.array(lambda i: (v[i] * 2.0 + w[i]) * (v[i] * 2.0) - w[i])
    if c == 3:
        return on.fold(v, lambda t, a: on.array(lambda i: a[i] + w[i] + v[t], sz=n), r.randint(0, 3))
    if c == 4:
        return on.fold(v, lambda t, a: a, r.randint(0, 2))
    if c == 5:
        return [on.where(v[0] > 0.0, v, w), on.array(lambda i: v[i + 1] + w[i], sz=n)]
    if c == 6:
        return on.let(v, lambda x: on.array(lambda i: x[i] + x[0], sz=n))
    if c == 7:
        t = on.array(lambda i: v[i] * w[i])
        return [on.array(lambda i: t[i] + (t[i] - 1.0) * t[i], sz=n), t]
    if c == 8:
        return on.reduce(A, on.arr([0.0] * n), lambda x, y: on.array(lambda j: x[j] + y[j]))
    if c == 9:
        return [on.reduce(A, on.arr([float("-inf")] * n), lambda x, y: on.array(lambda j: x[j].max(y[j]))), A]
    if c == 10:
        return on.array(lambda i: on.fold(v, lambda t, a: on.array(lambda j: a[j] + A[i, j], sz=n), 2), sz=2)
    if c == 11:
        return [on.concat(v, w), on.array(lambda i: -v[i] + 1.0)]
    if c == 12:
        k = on.arr([0, 1, -2, 3][:n], dt="i")
        return [on.array(lambda i: k[i] * 2 + i), on.array(lambda i: (i + 1) * (i + k[i]) + i, sz=n), on.array(lambda i: i + k[i])]
    b = on.arr([True, False, True, True][:n], dt="b")
    return [on.array(lambda i: ~b[i] | (v[i] > 0.0)), on.array(lambda i: on.where(b[i], v[i] * 2.0, w[i] + v[i]) + v[i])]


def pure_motif(seed, tier):
    r = random.Random(seed)
    fams = [p_alias, p_alias, motifs.fold_vector, motifs.red_batch, motifs.std_concat, motifs.fold_pattern, motifs.ix_matrix]
    f = fams[seed % len(fams)]
    on = online.program(f, r)
    if not on.aborted:
        hs = on.roots[:5]
        evs = [(h, b) for h in hs for b in ("naive", "numpy", "torch")] * 2 + [(h, "jax") for h in hs[:1] if r.random() < 0.3]
        r.shuffle(evs)
        for k, (h, b) in enumerate(evs[:14]):
            on.eval(h.id, b)
            if r.random() < 0.25:
                on.reread()
        on.reread()
    on.label = f.__name__
    return on


# --- environments and scopes (C18) ---------------------------------------------
def env_value(r, t, back, dims):
    k = t[-1]
    sh = [dims[q] for q in range(len(t) - 1)]
    n = int(np.prod(sh)) if sh else 1
    a = np.array([num(r, k) for _ in range(n)], dtype={"f": float, "i": int, "b": bool}[k]).reshape(sh)
    v = a
    if back == "torch" and r.random() < 0.7:
        v = torch.from_numpy(a.copy())
    elif back == "jax" and r.random() < 0.7:
        v = jnp.asarray(a)
    return a, v


class EnvRun(On):
    """Evaluations under environments; self.arrays keeps what the user passed."""

    def eval_env(self, h, back, env, extra=(), via=None):
        """env: handle -> (numpy array, kind, the object passed)."""
        e = {v: (a, k) for v, (a, k, _) in env.items()}
        real = {self.vars[v]: o for v, (_, _, o) in env.items()}
        real.update(extra)
        keys, vals = list(real), list(real.values())
        copies = [to_numpy(x).copy() for x in vals]
        obj = self.ein(self.objs[h])
        try:
            r = via(obj, real) if via else obj.eval(env=real, backend=back)
            out, a = observe(r)
        except Exception as ex:
            if back == "jax" and plan.jax_unsupported(ex):
                self.unsup["jax-dynamic"] += 1
                return None
            out, a, r = self.fail(ex), None, None
        ev = {"ev": "eval", "h": h, "back": back, "env": [{"h": v, "v": spec_value(q, k)} for v, (q, k) in e.items()], "out": out}
        same = list(real) == keys and all(x is y for x, y in zip(real.values(), vals)) and \
            all(np.array_equal(to_numpy(x), c, equal_nan=c.dtype.kind == "f") for x, c in zip(vals, copies))
        if not same:
            ev["envchanged"] = True
        self.events.append(ev)
        if a is not None:
            self.raw[len(self.events)] = a
            self.results.append((len(self.events), r, a.copy()))
        return r


def env_program(on, r):
    """A program with 1..3 free variables.  Returns (handles, {var: type})."""
    ts_ = [r.choice(["f", "i", "vf", "vf", "vi", "vvf", "b"]) for _ in range(r.randint(1, 3))]
    vs = [on.var(t) for t in ts_]
    def scal(x, t, *idx):
        for q in range(len(t) - 1):
            x = x[idx[q % len(idx)] if idx else 0]
        return x if t[-1] == "f" else x.float() if t[-1] == "i" else on.where(x, 1.0, -1.0)
    c = r.randrange(9)
    mix = lambda *idx: functools.reduce(lambda p, q: p * 0.5 + q, [scal(v, t, *idx) for v, t in zip(vs, ts_)])
    n = r.randint(0, 3)
    if c == 0:
        out = [mix()]
    elif c == 1:
        out = [on.array(lambda i: mix(i) + i.float(), sz=n)]
    elif c == 2:
        out = [on.fold(0.0, lambda t, a: a * 0.5 + mix(t), n)]
    elif c == 3:
        out = [on.let(mix(), lambda x: x * x + scal(vs[0], ts_[0]))]
    elif c == 4:     # a let whose bound value mentions variables, inside loops
        out = [on.array(lambda i: on.let(mix(i), lambda x: on.fold(x, lambda t, a: a * 0.5 + x + scal(vs[-1], ts_[-1], t), 2)), sz=n)]
    elif c == 5:     # nested lets
        out = [on.let(mix(), lambda x: on.let(x + 1.0, lambda y: x * y - scal(vs[0], ts_[0])))]
    elif c == 6:     # a let-bound vector
        out = [on.let(on.array(lambda i: mix(i), sz=2), lambda w: on.array(lambda i: w[i] + w[1 - i] * scal(vs[0], ts_[0], i), sz=3))]
    elif c == 7:     # some results mention fewer variables
        out = [scal(vs[0], ts_[0]), mix(), on.array(lambda i: scal(vs[-1], ts_[-1], i), sz=n)]
    else:            # shared subterm under two different binders
        x = mix()
        out = [on.array(lambda i: x + i.float(), sz=n), on.fold(x, lambda t, a: a * 0.5 + x, 2), x * x]
    return out, dict(zip([v.id for v in vs], ts_))


def env_history(seed, tier):
    r = random.Random(seed)
    on = EnvRun()
    on.roots = []
    on.label = "env"
    try:
        hs, vs = env_program(on, r)
    except Abort:
        on.aborted = True
        return on
    for _ in range(r.randint(2, 5)):
        h = r.choice(hs).id
        back = r.choice(["naive", "numpy", "numpy", "torch"] + (["jax"] if r.random() < 0.25 else []))
        dims = [r.randint(0, 3) if r.random() < 0.3 else r.randint(1, 3) for _ in range(2)]
        env = {}
        for v, t in vs.items():
            a, o = env_value(r, t, back, dims)
            env[v] = (a, t[-1], o)
        if r.random() < 0.25:      # forget one
            env.pop(r.choice(list(env)))
        extra = {}
        if r.random() < 0.3:       # bindings nobody asked for
            extra = {ein.symbols.Variable(): np.array(7.0) for _ in range(2)}
        on.eval_env(h, back, env, extra)
    on.reread()
    return on


def rewrites(seed, tier):
    """inline, outline and substitution preserve the value of a program with lets."""
    from ein.midend import lining, substitution
    from ein.backend import BACKENDS
    r = random.Random(seed)
    if seed % 2:
        on = EnvRun()
        on.roots, on.label = [], "rewrite"
        try:
            hs, vs = env_program(on, r)
        except Abort:
            on.aborted = True
            return on
        h = r.choice(hs).id
        dims = [r.randint(1, 3), r.randint(1, 3)]
        env = {v: (*(lambda p: (p[0], t[-1], p[1]))(env_value(r, t, "numpy", dims)),) for v, t in vs.items()}
    else:
        fams = [w_shared, w_scope, w_deep, motifs.fold_nested, motifs.std_where, l_scopes, l_scopes, l_scopes]
        f = fams[(seed // 2) % len(fams)]
        on = online.program(f, r)
        on.__class__ = EnvRun
        on.label = "rewrite " + f.__name__
        if on.aborted or not on.roots:
            return on
        h, env, vs = on.roots[0].id, {}, {}
    def rewriting(name):
        def via(obj, real):
            e = obj.expr
            if name == "inline":
                e = lining.inline(e)
            elif name == "renames":
                e = lining.inline(e, only_renames=True)
            elif name == "outline":
                e = lining.outline(e)
            elif name == "inline outline":
                e = lining.inline(lining.outline(e))
            elif name == "outline twice":
                e = lining.outline(lining.outline(e))
            elif name == "substitute":     # constants for the variables
                subs = {v: phi.Const(phi.Value(a)) for v, a in real.items()}
                e = substitution.substitute(e, subs)
                return BACKENDS[back](e, {})
            elif name == "rename":
                new = {v: ein.symbols.Variable() for v in real}
                types = {v: phi.type_from_ndarray(a) if hasattr(phi, "type_from_ndarray") else ts.type_from_ndarray(a) for v, a in real.items()}
                e = substitution.substitute(e, {v: phi.variable(new[v], types[v]) for v in real})
                return BACKENDS[back](e, {new[v]: a for v, a in real.items()})
            return BACKENDS[back](e, real)
        return via
    for name in r.sample(["inline", "renames", "outline", "inline outline", "outline twice", "substitute", "rename"], 4):
        back = r.choice(["numpy", "naive"])
        on.eval_env(h, back, env, via=rewriting(name))
        on.events[-1]["via"] = name
    return on


def l_scopes(on, r):
    """Lets nested in loops, loops nested in lets, equal names nowhere shared."""
    n = r.randint(1, 3)
    v, w = iota(on, r, n), arr(on, r, "f", n)
    c = r.randrange(9)
    if c == 0:
        return on.array(lambda i: on.let(v[i] * 2.0, lambda x: on.array(lambda j: x + w[j], sz=n)), sz=n)
    if c == 1:
        return on.let(v, lambda x: on.let(on.array(lambda i: x[i] + 1.0, sz=n), lambda y: on.array(lambda i: x[i] * y[n - 1 - i], sz=n)))
    if c == 2:
        return on.fold(0.0, lambda t, a: on.let(a * 0.5 + v[t], lambda x: x * x - a), n)
    if c == 3:     # the same body under two binders
        body = lambda i: on.let(v[i] + 1.0, lambda x: x * x)
        return on.array(lambda i: body(i) + on.fold(0.0, lambda t, a: a * 0.5 + body(t), n), sz=n)
    if c == 4:     # bound but unused
        return on.let(on.array(lambda i: v[i], sz=n), lambda x: on.array(lambda i: w[i], sz=n))
    if c == 5:     # a let of a let
        return on.let(on.let(v[0], lambda x: x + 1.0), lambda y: on.array(lambda i: y * w[i], sz=n))
    if c == 6:     # let-bound index expression
        return on.array(lambda i: on.let(i + 1, lambda k: v[k] + w[k - 1]), sz=n)
    if c == 7:     # let-bound in a reduction
        return on.reduce(v, 0.0, lambda x, y: on.let(x + y, lambda z: z))
    x = on.let(v[0] + 1.0, lambda x: x * x)     # one let shared by two loops
    return on.array(lambda i: on.fold(x, lambda t, a: a * 0.5 + x * v[i], 2) + x, sz=n)


def scope_motif(seed, tier):
    r = random.Random(seed)
    on = online.program(l_scopes, r)
    if not on.aborted:
        online.evaluate(on, ("naive", "numpy", "torch") if seed % 5 else ALL)
    on.label = "l_scopes"
    return on


# --- staged functions (C12) ------------------------------------------------------
class FnRun(EnvRun):
    """Calls of staged functions.  Their bodies are written with X handles and
    logged when (and only when) the library traces them."""

    def __init__(self):
        super().__init__()
        self.roots, self.label = [], "functions"
        self.fns = {}
        self.key = None
        self.tracing = None
        self.args_seen = []

    def define(self, name, body, types=None):
        """body(on, *handles) -> handle; types: declared signature, as e.g. ("vf", "i")"""
        def py(*args):
            self.events.append({"ev": "trace", "f": name, "key": self.key})
            syms = []
            for a in args:
                t = plan.type_of(a)
                self.sym(self.nb + 1, "var", a, t)
                syms.append(self.handle())
            h = body(self, *syms)
            self.tracing = (self.key, [s.id for s in syms], h.id)
            return h.obj
        py.__name__ = name
        f = ein.function(py) if types is None else ein.frontend.functions.Function(py, types=[_T[t] for t in types])
        self.fns[name] = (f, types)

    def emit(self, op, a, x, thunk, b=(), sz=(), t=online.NONE, hidden=False):
        # inside of a traced body the library's own exception has to come through
        err = []
        def keep():
            try:
                return thunk()
            except Exception as e:
                err.append(e)
                raise
        try:
            return super().emit(op, a, x, keep, b, sz, t, hidden)
        except Abort:
            if err and not isinstance(err[0], Abort):
                raise err[0]
            raise

    def call(self, name, args, back, how="method", boom=False):
        """args: list of (numpy array, kind, object)"""
        f, types = self.fns[name]
        ty = ["v" * a.ndim + k for a, k, _ in args]
        self.key = "%s|%s|%s" % (name, ",".join(ty), back)
        self.tracing = None
        n0 = len(self.events)
        plan.BOOM[0] = boom
        try:
            objs = [o for _, _, o in args]
            r = f(*objs) if how == "call" else getattr(f, back)(*objs)
            out, a = observe(r)
        except Exception as e:
            if back == "jax" and plan.jax_unsupported(e):
                out, a, r = None, None, None
                self.unsup["jax-dynamic"] += 1
            else:
                out, a, r = self.fail(e), None, None
        finally:
            plan.BOOM[0] = False
        started = any(e["ev"] == "trace" for e in self.events[n0:])
        if self.tracing:
            key, syms, h = self.tracing
            self.events.append({"ev": "traced", "key": key, "syms": syms, "h": h})
        if out is None:
            return None
        self.events.append({"ev": "call", "key": self.key, "args": [spec_value(q, k) for q, k, _ in args],
                            "mismatch": types is not None and list(types) != ty,
                            "refused": bool(started and not self.tracing), "boom": boom, "back": back, "out": out})
        if a is not None:
            self.raw[len(self.events)] = a
            self.results.append((len(self.events), r, a.copy()))
        return r


def b_axpy(on, x, y):
    return on.array(lambda i: x[i] * 2.0 + y[i])


def b_scale(on, x, k):
    return on.array(lambda i: x[i] * (k if plan.type_of(k.obj)["k"] == "f" else k.float()))


def b_poly(on, x):
    """Different programs for different types."""
    t = plan.type_of(x.obj)
    if t["k"] == "f":
        return x * x - 1.0
    if t["k"] == "i":
        return x * x - 1
    if t["k"] == "b":
        return ~x
    if t["e"]["k"] == "v":
        return on.array(lambda j, i: x[i, j] if t["e"]["e"]["k"] != "b" else ~x[i, j])
    if t["e"]["k"] == "b":
        return on.array(lambda i: ~x[i])
    return on.array(lambda i: x[i] + x[i])


def b_sum(on, x):
    return on.fold(0.0, lambda i, a: a + x[i] * x[i])


def b_loop(on, x, n):
    return on.fold(x, lambda t, a: on.array(lambda i: a[i] * 0.5 + t.float(), sz=x.size()), n)


def b_tick(on, x):
    return on.array(lambda i: on.ext("e_tick", x[i]) * 2.0)


def b_sub(on, x, y):
    return x - y


def b_matmul(on, a, b):
    return on.array(lambda i, j: on.fold(0.0, lambda t, s: s + a[i, t] * b[t, j]))


def b_sizes(on, x):
    return on.array(lambda i: i + x.size(), sz=x.size() + 1)


def b_pick(on, x, i):
    return x[i]


def b_const(on, x):
    c = on.arr([1.0, 2.0, 3.0])
    return on.array(lambda i: c[i] + x)


def b_wrong(on, x, y):
    return x + y          # refused when the kinds differ


BODIES = {  # name: (body, typical argument types)
    "axpy": (b_axpy, [("vf", "vf")]), "scale": (b_scale, [("vf", "f"), ("vf", "i")]),
    "poly": (b_poly, [("f",), ("i",), ("b",), ("vf",), ("vi",), ("vb",), ("vvf",), ("vvi",)]), "sum": (b_sum, [("vf",)]),
    "loop": (b_loop, [("vf", "i")]), "tick": (b_tick, [("vf",)]), "sub": (b_sub, [("f", "f"), ("i", "i")]),
    "matmul": (b_matmul, [("vvf", "vvf")]), "sizes": (b_sizes, [("vf",), ("vi",), ("vb",)]), "pick": (b_pick, [("vf", "i"), ("vi", "i"), ("vvf", "i")]),
    "const": (b_const, [("f",)]), "wrong": (b_wrong, [("f", "f"), ("i", "i"), ("f", "i"), ("i", "f")]),
}


def fn_arg(r, t, dims, lib):
    k = t[-1]
    sh = dims[:len(t) - 1]
    n = int(np.prod(sh)) if sh else 1
    a = np.array([num(r, k) for _ in range(n)], dtype={"f": float, "i": int, "b": bool}[k]).reshape(sh)
    if r.random() < 0.15 and a.ndim:
        a = a[::-1]
    elif r.random() < 0.15 and a.ndim == 2:
        a = np.asfortranarray(a)
    o = a
    if lib == "torch":
        o = torch.from_numpy(a.copy())
    elif lib == "jax":
        o = jnp.asarray(a)
    return a, k, o


def functions(seed, tier):
    r = random.Random(seed)
    on = FnRun()
    names = r.sample(sorted(BODIES), r.randint(1, 3))
    if r.random() < 0.3:
        names.append(names[0] + "2")      # another function with the same body
    for nm in names:
        body, sigs = BODIES[nm.rstrip("2")]
        on.define(nm, body, r.choice(sigs) if r.random() < 0.25 else None)
    memo = []
    use_jax = r.random() < 0.25
    for _ in range(r.randint(3, 8)):
        nm = r.choice(names)
        sigs = BODIES[nm.rstrip("2")][1]
        back = r.choice(["numpy", "numpy", "torch"] + (["jax"] if use_jax else []))
        c = r.random()
        if memo and c < 0.2:      # the same call again, perhaps after the user changed an array
            nm, args, back = r.choice(memo)
            if r.random() < 0.5:
                new = []
                for a, k, o in args:
                    if isinstance(o, np.ndarray) and o.flags.writeable and o.size:
                        o.reshape(-1)[:] = 0 if o.base is None and o.flags.c_contiguous else o.reshape(-1)
                        if o.base is None and o.flags.c_contiguous:
                            o.reshape(-1)[0] = num(r, k)
                        new.append((o.copy(), k, o))
                    else:
                        new.append((a, k, o))
                args = new
        else:
            sig = r.choice(sigs)
            d = [r.randint(0, 3), r.randint(0, 3)]
            args = [fn_arg(r, t, d if r.random() < 0.85 else [r.randint(0, 3), r.randint(0, 3)],
                           "np" if back == "numpy" else r.choice(["np", back])) for t in sig]
            if nm.startswith("matmul"):
                q = r.randint(0, 3)
                args = [fn_arg(r, "vvf", [d[0], q], args[0][2].__class__ is torch.Tensor and "torch" or "np"), fn_arg(r, "vvf", [q, d[1]], "np")]
        how = "method"
        if back in ("numpy", "torch") and r.random() < 0.3 and (any(isinstance(o, torch.Tensor) for _, _, o in args) == (back == "torch")):
            how = "call"
        args = [(to_numpy(o).copy(), k, o) for _, k, o in args]
        on.call(nm, args, back, how, boom=nm.startswith("tick") and r.random() < 0.3)
        memo.append((nm, args, back))
    on.reread()
    return on


def fn_history(cases, seed, tier):
    """The histories of calls of spec/MCFunction.tla, each of a function of its own."""
    r = random.Random(seed)
    on = FnRun()
    on.label = "function histories"
    for k, c in enumerate(cases):
        nm = "%s_%d" % (c["body"], k)
        on.define(nm, BODIES[c["body"]][0], tuple(c["decl"]) or None)
        for q in c["calls"]:
            lib = "np" if q["back"] == "numpy" else r.choice(["np", q["back"]])
            args = [fn_arg(r, t, [q["n"], r.randint(0, 3)], lib) for t in q["sig"]]
            how = "call" if (q["back"] == "numpy" or lib == "torch") and r.random() < 0.5 else "method"
            on.call(nm, [(to_numpy(o).copy(), t, o) for _, t, o in args], q["back"], how, boom=q["boom"])
    on.reread()
    return on


# --- constants and symbols that look alike (C13) ---------------------------------
NEAR = [
    [("py", "i", [1]), ("py", "f", [1.0]), ("py", "b", [True])],
    [("py", "i", [0]), ("py", "f", [0.0]), ("py", "b", [False]), ("py", "z", [-0.0])],
    [("py", "f", [0.0]), ("py", "z", [-0.0])],
    [("py", "f", [1.0]), ("py", "f", [1.0 + 2**-40])],
    [("np", "f", [0.0, 1.0]), ("np", "i", [0, 1]), ("np", "b", [False, True]), ("np", "f4", [0.0, 1.0])],
    [("np", "f", [1.0, 2.0]), ("np", "f", [2.0, 1.0]), ("np", "f", [1.0, 2.0, 0.0])],
    [("np", "i", [1, 2]), ("np", "i4", [1, 2]), ("np", "i2", [1, 2])],
    [("np", "f", [0.0, 0.0]), ("np", "i", [0, 0]), ("np", "f", [0.0, 0.0, 0.0]), ("np", "i", [0, 0, 0])],
    [("np", "f", []), ("np", "i", []), ("np", "b", [])],
    [("np", "i", [1]), ("np", "b", [True])],
]


def near_const(on, spec, raw=False):
    lib, dt, d = spec[:3]
    if lib == "py":
        if dt == "z":       # negative zero has no rational; the specification keeps it symbolic
            on.objs[on.nb + 1] = obj = d[0] if raw else wrap(d[0])
            on.log(None, "const", [], [], [], {"s": "x", "k": "f", "o": "negzero", "a": [], "z": 1}, {"k": "f"}, on.good(obj))
            return on.handle()
        if dt == "f" and d == [0.0]:   # signed as well
            on.objs[on.nb + 1] = obj = d[0] if raw else wrap(d[0])
            on.log(None, "const", [], [], [], {"s": "x", "k": "f", "o": "poszero", "a": [], "z": 1}, {"k": "f"}, on.good(obj))
            return on.handle()
        return on.c(d[0], raw)
    return on.arr(d, dt=dt, sh=spec[3] if len(spec) > 3 else [len(d)], lib=lib)


def to_f(on, x, t):
    return x if t[0] in "fz" else x.float() if t[0] == "i" else on.where(x, 1.0, 0.25)


def near(on, r):
    """Look-alike constants side by side, each used in look-alike terms."""
    grp = list(r.choice(NEAR))
    r.shuffle(grp)
    grp = grp[:3] if r.random() < 0.7 else grp
    return near_terms(on, r, grp, r.randrange(5))


def const_case(case):
    """The constants and uses of spec/MCConst.tla."""
    def f(on, r):
        num_ = lambda k, v: bool(v) if k == "b" else -0.0 if k == "z" else float(v) if k[0] == "f" else int(v)
        return near_terms(on, r, [(g["lib"], g["dt"], [num_(g["dt"], v) for v in g["d"]], list(g["sh"])) for g in case["cs"]], case["use"])
    return f


def const_cases(cases, seed, tier):
    out = []
    for k, c in enumerate(cases):
        r = random.Random(seed * 64 + k)
        on = online.program(const_case(c), r)
        if not on.aborted:
            online.evaluate(on, ("naive", "numpy", "torch") if r.random() < 0.96 else ALL)
        on.label = "constants"
        out.append(on)
    return out


def near_terms(on, r, grp, c):
    cs = [near_const(on, g, raw=r.random() < 0.3) for g in grp]
    n = 3
    v = iota(on, r, n)
    rank = lambda g: 0 if g[0] == "py" else len(g[3]) if len(g) > 3 else 1
    def scal(h, g, i):
        if rank(g) and 0 in (g[3] if len(g) > 3 else [len(g[2])]):
            return (h.size() + (2 if g[1][0] == "i" else 3 if g[1] == "b" else 4)).float()
        for _ in range(rank(g)):
            h = h[i]
        return to_f(on, h, g[1])
    dens = any(g[1] == "z" for g in grp)
    def term(h, g, x, i):
        s = scal(h, g, i)
        if dens and rank(g) == 0:
            return on.where(s.recip() > 0.0, 1.0, -1.0) * x
        return s * x
    if any(rank(g) and 0 in (g[3] if len(g) > 3 else [len(g[2])]) for g in grp) and c == 2:
        return [on.array(lambda i: to_f(on, h[i], g[1])) for h, g in zip(cs, grp) if rank(g) == 1] + [term(h, g, v[1], 1) for h, g in zip(cs, grp)]
    if c == 0:
        return on.array(lambda i: sum((term(h, g, v[i], i) * (3.0 ** k) for k, (h, g) in enumerate(zip(cs, grp))), on.c(0.0)), sz=n)
    if c == 1:
        return on.fold(0.0, lambda t, a: a * 0.5 + functools.reduce(lambda p, q: p * 3.0 + q, [term(h, g, v[t], t) for h, g in zip(cs, grp)]), n)
    if c == 2:
        return [on.array(lambda i: term(h, g, v[i], i), sz=n) for h, g in zip(cs, grp)]
    if c == 3:
        vs = [on.array(lambda i: term(h, g, v[i], i), sz=n) for h, g in zip(cs, grp)]
        return on.array(lambda i: functools.reduce(lambda p, q: p * 3.0 + q, [w[i] for w in vs]), sz=n)
    return functools.reduce(lambda p, q: p * 3.0 + q, [term(h, g, v[1], 1) for h, g in zip(cs, grp)])


def shaped(on, r):
    """The same data under different shapes."""
    d = [r.choice([0.0, 1.0, 2.0]) for _ in range(6)] if r.random() < 0.7 else [1.0] * 6
    shs = r.sample([[6], [2, 3], [3, 2], [1, 6], [6, 1], [1, 2, 3], [2, 1, 3]], r.randint(2, 4))
    k = r.choice(["f", "i"])
    cs = [on.arr([int(x) if k == "i" else x for x in d], dt=k, sh=s) for s in shs]
    out = []
    tot = None
    for h, s in zip(cs, shs):
        e = h
        for q in range(len(s)):
            e = e[r.randint(0, 2)]
        e = e + (h.size(len(s) - 1) if k == "i" else h.size(len(s) - 1).float())
        out.append(e)
        tot = e if tot is None else tot * (3 if k == "i" else 3.0) + e
    return [tot, cs[0], cs[1]]


def big(on, r):
    """Arrays too long to be compared element by element."""
    n = r.choice([1023, 1024, 1025, 1100])
    k = r.choice(["f", "i"])
    base = [q % 7 for q in range(n)]
    out, ps = [], [0, 5, n - 1, n // 2]
    cs = []
    for q in range(r.randint(2, 3)):
        d = list(base)
        d[r.choice(ps)] = 9 + q
        cs.append(on.arr([float(x) for x in d] if k == "f" else d, dt=k, sh=[n] if r.random() < 0.8 else [n, 1]))
    idx = on.arr(ps, dt="i")
    def at(h, i):
        h = h[i]
        return h[0] if plan.type_of(h.obj)["k"] == "v" else h
    three = 3.0 if k == "f" else 3
    return [on.array(lambda i: functools.reduce(lambda p, q: p * three + q, [at(h, idx[i]) for h in cs])),
            on.array(lambda i: at(cs[0], idx[i]) - at(cs[1], idx[i]))]


def alike_symbols(on, r):
    """Binders with identical bodies and look-alike symbols."""
    n = r.randint(1, 3)
    v = iota(on, r, n)
    A = iota(on, r, n, n)
    c = r.randrange(9)
    if c == 0:
        return on.array(lambda i: on.array(lambda j: v[i] * 3.0 - v[j], sz=n), sz=n)
    if c == 1:
        return on.array(lambda i, j: A[i, j] * 3.0 - A[j, i], sz=(n, n))
    if c == 2:
        return on.fold(0.0, lambda s, a: a * 3.0 + on.fold(a, lambda t, b: b * 0.5 + v[t] - v[s], n), n)
    if c == 3:
        f = lambda k: on.array(lambda i: v[i] * k, sz=n)
        p, q = f(2.0), f(3.0)
        return on.array(lambda i, j: p[i] - q[j], sz=(n, n))
    if c == 4:
        return on.reduce(on.array(lambda i: on.tup(v[i], i), sz=n), on.tup(0.0, 0), lambda x, y: on.tup(x.proj(0) + y.proj(0), y.proj(1).max(x.proj(1))))
    if c == 5:
        p = on.fold(1.0, lambda t, a: a * 0.5 + v[t], n)
        q = on.fold(2.0, lambda t, a: a * 0.5 + v[t], n)
        return p - q * 3.0
    if c == 6:
        x, y = on.array(lambda i: i, sz=n), on.array(lambda i: i, sz=n + 1)
        return on.concat(x, y)
    if c == 7:
        g = lambda: on.array(lambda i: on.fold(0.0, lambda t, a: a + A[i, t] * v[t], n), sz=n)
        p, q = g(), g()
        return on.array(lambda i, j: p[i] * 3.0 - q[j], sz=(n, n))
    return on.array(lambda i: on.array(lambda j: on.array(lambda k: A[i, j] - A[k, i] * 3.0 + A[j, k], sz=n), sz=n), sz=n)


def const_motif(seed, tier):
    r = random.Random(seed)
    fams = [near, near, shaped, alike_symbols, near]
    f = fams[seed % len(fams)] if seed % 23 else big
    on = online.program(f, r)
    if not on.aborted:
        online.evaluate(on, ("naive", "numpy", "torch") if r.random() < 0.75 else ALL)
    on.label = f.__name__
    return on


def const_history(seed, tier):
    """Programs built one after another around arrays that come, go and change."""
    r = random.Random(seed)
    on = On()
    on.roots, on.label = [], "const_history"
    n = r.randint(1, 3)
    lib = r.choice(["np", "np", "torch", "np"])
    keep = None
    cur = None
    try:
        for step in range(r.randint(3, 7)):
            c = r.random()
            k = r.choice("fi") if keep is None else keep
            data = [num(r, k) for _ in range(n)]
            if cur is not None and lib == "np" and c < 0.4:      # the user changes the array in place and builds anew
                k = "f" if cur.dtype.kind == "f" else "i"
                cur[:] = np.array([num(r, k) for _ in range(n)], dtype=cur.dtype)
                obj = cur
            else:
                obj = np.array(data, dtype=float if k == "f" else int)
                if lib == "torch":
                    obj = torch.from_numpy(obj)
                elif r.random() < 0.5:
                    cur = obj
            w = wrap(obj)
            on.objs[on.nb + 1] = w
            on.log(None, "const", [], [], [], spec_value(to_numpy(obj), k), {"k": "v", "e": {"k": k}}, on.good(w))
            v = on.handle()
            one = 2.0 if k == "f" else 2
            out = [lambda: on.array(lambda i: v[i] * one + v[0]), lambda: on.fold(one, lambda i, a: a + v[i]), lambda: v[n - 1] + v[0]][r.randrange(3)]()
            b = r.choice(["numpy", "numpy", "naive", "torch"]) if lib == "np" else "torch"
            on.eval(out.id, b, keep=False)
            # drop every reference, so that addresses can be used again
            for q in range(1, on.nb + 1):
                on.objs[q] = None
            del w, v, out, obj
    except Abort:
        on.aborted = True
    return on
