"""Vectorised (numpy) evaluation of specs/Expr.tla expressions, with the
special functions the sampling laws need.  Used where many samples are
transformed; ordinary double precision is enough there."""
import numpy as np
from scipy import special as sp


def ev(t, env):
    op = t[0]
    if op == "int":
        return float(t[1])
    if op == "rat":
        return float(t[1]) / float(t[2])
    if op == "pi":
        return np.pi
    if op == "var":
        return env[t[1]]
    a = [ev(s, env) for s in t[1:]]
    with np.errstate(all="ignore"):
        if op == "add":
            return a[0] + a[1]
        if op == "sub":
            return a[0] - a[1]
        if op == "mul":
            return a[0] * a[1]
        if op == "div":
            return a[0] / a[1]
        if op == "neg":
            return -a[0]
        if op == "abs":
            return np.abs(a[0])
        if op == "sign":
            return np.sign(a[0])
        if op == "log":
            return np.log(a[0])
        if op == "exp":
            return np.exp(a[0])
        if op == "sqrt":
            return np.sqrt(a[0])
        if op == "tanh":
            return np.tanh(a[0])
        if op == "max":
            return np.maximum(a[0], a[1])
        if op == "min":
            return np.minimum(a[0], a[1])
        if op == "lgamma":
            return sp.gammaln(a[0])
        if op == "digamma":
            return sp.digamma(a[0])
        if op == "ncdf":
            return sp.ndtr(a[0])
        if op == "gammap":
            return sp.gammainc(a[0], a[1])
        if op == "betai":
            return sp.betainc(a[0], a[1], a[2])
    raise RuntimeError("unknown operation %r" % (op,))
