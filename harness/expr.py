"""Evaluates the symbolic expressions of specs/Expr.tla in high precision,
with a running bound on the rounding error a direct evaluation in a floating
point type of unit roundoff eps would make.  Knows no law of its own."""
import math
import sys
from scipy import special
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import mpmath  # noqa: E402  (pure Python)
from mpmath import mp, mpf  # noqa: E402
sys.path.pop()
mp.dps = 40


class Val(object):
    """v: value; e: error bound in units of eps."""
    __slots__ = ("v", "e")

    def __init__(self, v, e):
        self.v, self.e = v, e


def _ev(t, env, memo):
    k = id(t)
    if k in memo:
        return memo[k]
    op = t[0]
    if op == "int":
        r = Val(mpf(t[1]), mpf(0))
    elif op == "rat":
        r = Val(mpf(t[1]) / mpf(t[2]), abs(mpf(t[1]) / mpf(t[2])))
    elif op == "pi":
        r = Val(mp.pi, mp.pi)
    elif op == "var":
        x = env[t[1]]
        r = x if isinstance(x, Val) else Val(mpf(float(x)) if not isinstance(x, mpf) else x, mpf(0))
    else:
        a = [_ev(s, env, memo) for s in t[1:]]
        if op == "add":
            v = a[0].v + a[1].v
            r = Val(v, a[0].e + a[1].e + abs(v))
        elif op == "sub":
            v = a[0].v - a[1].v
            r = Val(v, a[0].e + a[1].e + abs(v))
        elif op == "mul":
            v = a[0].v * a[1].v
            r = Val(v, a[0].e * abs(a[1].v) + a[1].e * abs(a[0].v) + abs(v))
        elif op == "div":
            v = a[0].v / a[1].v
            r = Val(v, a[0].e / abs(a[1].v) + a[1].e * abs(v / a[1].v) + abs(v))
        elif op == "neg":
            r = Val(-a[0].v, a[0].e)
        elif op == "abs":
            r = Val(abs(a[0].v), a[0].e)
        elif op == "sign":
            r = Val(mp.sign(a[0].v), mpf(0))
        elif op == "log":
            v = mp.log(a[0].v)
            # relative error of the argument, and the function's own
            r = Val(v, a[0].e / abs(a[0].v) + abs(v) + 1)
        elif op == "exp":
            v = mp.exp(a[0].v)
            r = Val(v, v * (a[0].e + 1))
        elif op == "tanh":
            v = mp.tanh(a[0].v)
            r = Val(v, (1 - v * v) * a[0].e + abs(v))
        elif op == "lgamma":
            v = mp.loggamma(a[0].v)
            r = Val(v, abs(mp.digamma(a[0].v)) * (a[0].e + abs(a[0].v)) + abs(v) + 1)
        elif op == "digamma":
            v = mp.digamma(a[0].v)
            r = Val(v, abs(mp.psi(1, a[0].v)) * (a[0].e + abs(a[0].v)) + abs(v) + 1)
        elif op == "sqrt":
            v = mp.sqrt(a[0].v)
            r = Val(v, a[0].e / (2 * v) + v if v else a[0].e)
        elif op == "max":
            r = max(a, key=lambda z: z.v)
        else:
            raise RuntimeError("unknown operation %r" % (op,))
    memo[k] = r
    return r


def ev(t, env):
    """(value, error bound in units of eps), as floats."""
    r = _ev(t, env, {})
    return float(r.v), float(r.e)


def evv(t, env):
    """The Val itself, to be passed on in the environment of another expression."""
    return _ev(t, env, {})


def value(t, env):
    return float(_ev(t, env, {}).v)


def _fast(t, env, memo):
    """_ev in ordinary double precision: (value, error bound)."""
    k = id(t)
    if k in memo:
        return memo[k]
    op = t[0]
    if op == "int":
        r = (float(t[1]), 0.)
    elif op == "rat":
        r = (t[1] / t[2], abs(t[1] / t[2]))
    elif op == "pi":
        r = (math.pi, math.pi)
    elif op == "var":
        r = (float(env[t[1]]), 0.)
    else:
        a, ea = _fast(t[1], env, memo)
        if len(t) > 2:
            b, eb = _fast(t[2], env, memo)
        if op == "add":
            r = (a + b, ea + eb + abs(a + b))
        elif op == "sub":
            r = (a - b, ea + eb + abs(a - b))
        elif op == "mul":
            r = (a * b, ea * abs(b) + eb * abs(a) + abs(a * b))
        elif op == "div":
            v = a / b
            r = (v, ea / abs(b) + eb * abs(v / b) + abs(v))
        elif op == "neg":
            r = (-a, ea)
        elif op == "abs":
            r = (abs(a), ea)
        elif op == "sign":
            r = (float((a > 0) - (a < 0)), 0.)
        elif op == "log":
            v = math.log(a)
            r = (v, ea / abs(a) + abs(v) + 1)
        elif op == "exp":
            v = math.exp(a)
            r = (v, v * (ea + 1))
        elif op == "lgamma":
            v = math.lgamma(a)
            r = (v, abs(float(special.digamma(a))) * (ea + abs(a)) + abs(v) + 1)
        else:
            raise ValueError(op)
    memo[k] = r
    return r


def ev_for(t, env, eps):
    """ev(), in double precision where the type under test is much coarser."""
    if eps > 1e-9:
        try:
            v, e = _fast(t, env, {})
            if math.isfinite(v) and math.isfinite(e):
                return v, e
        except (ValueError, OverflowError, ZeroDivisionError):
            pass
    return ev(t, env)
