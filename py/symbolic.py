"""Numerical comparison of the symbolic terms TLC leaves open.

Each term is evaluated with a running error bound, generous enough to cover
any order of evaluation; a comparison inside the bound makes the term
unconstrained.
"""
import math

U = 2e-13


class Open(Exception):
    """The number is not determined (rounding decides, or it overflows)."""


def val(x):
    """-> (number, bound on the error any implementation may make)"""
    s = x["s"]
    if s == "i":
        return x["v"], 0
    if s == "b":
        return bool(x["v"]), 0
    if s == "f":
        n, d = x["v"]
        if d == 0:
            raise Open()
        return n / d, 0.0
    if s != "x":
        raise Open()
    if x["o"] in ("negzero", "poszero"):
        return (-0.0 if x["o"] == "negzero" else 0.0), 0.0
    try:
        v, e = term(x["o"], x["a"], x["k"])
    except (OverflowError, ZeroDivisionError, ValueError) as ex:
        raise Open() from ex
    if x["k"] == "i":
        if abs(v) >= 2**62:
            raise Open()
        return int(v), 0
    if x["k"] == "f":
        if math.isinf(v) and e == 0 and x["o"] == "recip":
            return v, e
        if math.isinf(v) or math.isnan(v) or abs(v) > 1e280 or e > 1e-3 * (abs(v) + 1e-6) + 1e-3:
            raise Open()
        return v, e
    return v, 0


def term(o, a, k):
    if o == "where":
        c, _ = val(a[0])
        return val(a[1] if c else a[2])
    xs = [val(q) for q in a]
    (p, ep) = xs[0]
    if len(xs) == 2:
        q, eq = xs[1]
    if o == "neg":
        return -p, ep
    if o == "not":
        return (not p), 0
    if o == "float":
        return float(p), abs(p) * U
    if o == "recip" and a[0].get("o") in ("negzero", "poszero"):
        return math.copysign(math.inf, p), 0.0
    if o == "recip":
        if abs(p) <= 4 * ep or p == 0:
            raise Open()
        r = 1.0 / p
        return r, abs(r) * U + ep / (abs(p) * (abs(p) - ep))
    if o == "exp":
        r = math.exp(p)
        return r, r * (math.expm1(min(ep, 1.0)) + U)
    if o in ("sin", "cos"):
        r = math.sin(p) if o == "sin" else math.cos(p)
        if abs(p) > 1e6:
            raise Open()
        return r, ep + U
    if o == "add" or o == "sub":
        if o == "sub":
            q = -q
        r = p + q
        return r, (0 if k == "i" else ep + eq + U * (abs(p) + abs(q)))
    if o == "mul":
        r = p * q
        return r, (0 if k == "i" else abs(p) * eq + abs(q) * ep + ep * eq + U * abs(r))
    if o == "mod":
        if q == 0:
            raise Open()
        return p % q, 0
    if o == "pow":
        if p <= 0:
            raise Open()
        r = p ** q
        if ep >= p / 2:
            raise Open()
        rel = 2 * abs(q) * ep / p + eq * abs(math.log(p)) + U * (1 + abs(q * math.log(p)))
        return r, abs(r) * rel * 2
    if o in ("min", "max"):
        return (min if o == "min" else max)(p, q), max(ep, eq)
    if o in ("lt", "le", "eq", "ne"):
        d = p - q
        tol = (ep + eq) * 4
        if tol and abs(d) <= tol:
            raise Open()
        return {"lt": d < 0, "le": d <= 0, "eq": d == 0, "ne": d != 0}[o], 0
    if o in ("and", "or"):
        return (p and q) if o == "and" else (p or q), 0
    raise AssertionError(o)


def agrees(x, got):
    """Does the observed number agree with the term?  None if undetermined."""
    try:
        v, e = val(x)
    except Open:
        return None
    except RecursionError:
        return None
    if x["k"] == "b":
        return bool(got) == bool(v)
    if x["k"] == "i":
        return int(got) == v
    return abs(float(got) - v) <= 8 * e + 1e-12 * abs(v) + 1e-290


def show(x):
    s = x["s"]
    if s == "f":
        n, d = x["v"]
        return str(n / d) if d else "%sinf" % ("-" if n < 0 else "")
    if s in "ib":
        return str(x["v"])
    if s == "x":
        return x["o"] + "(" + ", ".join(show(q) for q in x["a"]) + ")"
    return s
