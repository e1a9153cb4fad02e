"""Replays specs/LogExp.tla into zhusuan.utils.log_sum_exp / log_mean_exp."""
import numpy as np
from zsenv import tf, session
from zhusuan.utils import log_sum_exp, log_mean_exp
import expr

CODE = {99999: np.inf, -99999: -np.inf}


def run(batch):
    bad = []
    groups = {}
    for c in batch:
        f = c["cfg"]
        groups.setdefault((tuple(f["shape"]), tuple(f["axes"]), f["keep"], f["fn"], f["form"]), []).append(c)
    cnt = {"cells": 0}
    for (sh, axes, keep, fn, form), cs in groups.items():
        nd = len(sh)
        ax = {"none": None, "int": axes[0] - 1 if axes else None, "list": [a - 1 for a in axes],
              "neg": tuple(a - 1 - nd for a in reversed(axes))}[form]
        for dt, eps in ((tf.float32, 2 ** -23.), (tf.float64, 2 ** -52.)):
            with tf.Graph().as_default(), session() as sess:
                try:
                    x = tf.placeholder(dt, None if len(cs) % 2 else list(sh))
                    kw = {"keepdims": True} if keep else {}
                    if form != "none":
                        kw["axis"] = ax
                    y = (log_sum_exp if fn == "sum" else log_mean_exp)(x, **kw)
                    for c in cs:
                        v = np.array([CODE.get(t, float(t)) for t in c["tab"]]).reshape(sh)
                        got = sess.run(y, {x: v})
                        m = judge(c, got, eps, cnt)
                        if m:
                            bad.append({"msg": "log_%s_exp of %s, axis %s, keepdims %s, %s: %s" % (
                                fn, v.tolist(), ax, keep, dt.name, m), "case": [c]})
                            break
                except Exception as e:
                    bad.append({"msg": "log_%s_exp of shape %s, axis %s, keepdims %s: %s %s" % (
                        fn, sh, ax, keep, type(e).__name__, str(e)[:400]), "case": cs[:1]})
    return {"bad": bad[:8], "n": len(batch), "count": cnt}


def judge(c, got, eps, cnt):
    if list(got.shape) != c["out"]:
        return "shape %s, should be %s" % (got.shape, c["out"])
    big = max([abs(t) for t in c["tab"] if t not in CODE] or [0])
    for g, r in zip(got.reshape(-1), c["res"]):
        cnt["cells"] += 1
        if r[0] in ("pinf", "ninf"):
            if g != (np.inf if r[0] == "pinf" else -np.inf):
                return "%r, should be %s" % (g, r[0])
            continue
        w = expr.value(r, {})
        if not abs(g - w) <= 8 * eps * (big + abs(w) + 1):
            return "%r, should be %r" % (g, w)
