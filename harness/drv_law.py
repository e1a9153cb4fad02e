"""Replays specs/DistLaw.tla: log densities at the points the specification
chooses, all points of one law and size evaluated in one tensor."""
import numpy as np
from zsenv import tf, zs, session
import expr
import dist_common as dc


def frac(p, q):
    if q == 0:
        return 10. ** p
    return float(p) / float(q)


def group(batch):
    gs = {}
    for c in batch:
        env = {n: frac(p, q) for n, p, q in c["env"]}
        # scalar parameters are shared by the points of one distribution object
        key = (c["law"], c["R"], c["K"], env.get("temperature"), env.get("n_experiments"))
        if c["law"] in ("Multinomial", "Multinomial.raw"):
            key += (sum(env["x%d" % (k + 1)] for k in range(c["K"])),)
        gs.setdefault(key, []).append((c, env))
    return gs


def arrays(law, R, K, pts, fdt):
    """parameters and given of all points, stacked along one batch axis"""
    par, N = {}, len(pts)
    c0 = pts[0][0]
    for name, kind in c0["params"]:
        if kind == "s":
            par[name] = fdt(pts[0][1][name])
        elif kind == "n":
            par[name] = None
        elif kind == "b":
            par[name] = np.array([e[name] for _, e in pts], dtype=fdt)
        elif kind == "v":
            par[name] = np.array([[e["%s%d" % (name, k + 1)] for k in range(K)] for _, e in pts], dtype=fdt)
        else:
            r, s = {"m": (K, K), "rk": (R, K), "rr": (R, R)}[kind]
            par[name] = np.array([[[e.get("%s%d%d" % (name, i + 1, j + 1), 0.) for j in range(s)]
                                   for i in range(r)] for _, e in pts], dtype=fdt)
    if law == "MatrixVariateNormalCholesky":
        x = np.array([[[e["x%d%d" % (i + 1, j + 1)] for j in range(K)] for i in range(R)] for _, e in pts])
    elif law == "OnehotCategorical":
        x = np.array([np.eye(K)[int(e["x"])] for _, e in pts])
    elif "x1" in pts[0][1]:
        x = np.array([[e["x%d" % (k + 1)] for k in range(K)] for _, e in pts])
        if law in ("Dirichlet", "Concrete", "ExpConcrete"):
            x = x / x.sum(-1, keepdims=True)
        if law == "ExpConcrete":
            x = np.log(x)
    else:
        x = np.array([e["x"] for _, e in pts])
    if "n_experiments" in par:
        if law == "Binomial":
            par["n_experiments"] = int(pts[0][1]["n_experiments"])
        else:
            par["n_experiments"] = int(x[0].sum())
    return par, x


def env_at(law, R, K, c, par, x, i):
    """the density's variables, as the floating point values the code was given"""
    case = {"law": law, "K": K, "R": R, "params": [(n, k, None) for n, k in c["params"]],
            "value": [] if x.ndim == 1 else list(x.shape[1:]), "gbatch": [len(x)]}
    arrs = {n: (np.asarray(v) if v is not None else None) for n, v in par.items()}
    e = dc.env_of(case, arrs, x, [i, i, i])
    for n, k in c["params"]:
        if k == "n":
            e[n] = par[n]
    return e


def mild(c, env):
    """points where half precision does not overflow on the way"""
    if abs(env.get("logstd", 0)) > 1 or env.get("std", 1) < .4 or env.get("scale", 1) < .4:
        return False
    return all(abs(v) <= 8 and (v == 0 or abs(v) >= 1. / 8) for v in env.values()) and \
        c["law"] not in ("MultivariateNormalCholesky", "MatrixVariateNormalCholesky", "Categorical", "Dirichlet")


def run(batch):
    bad, n, cmp_ = [], 0, 0
    with tf.Graph().as_default():
        todo = []
        for gi, (key, pts) in enumerate(sorted(group(batch).items(), key=str)):
            law, R, K = key[:3]
            n += len(pts)
            for fdt in (np.float32, np.float64, np.float16):
                ps = pts if fdt != np.float16 else [p for p in pts if mild(*p)]
                if not ps:
                    continue
                par, x = arrays(law, R, K, ps, fdt)
                if "n_experiments" in par and par["n_experiments"] == 0:
                    continue
                sdts = [None]
                if law in dc.DISCRETE:
                    # every sample type
                    sdts = [tf.int32, tf.float32, tf.int64, tf.float64, tf.int16, tf.float16]
                    if law == "Categorical":
                        sdts = sdts[:4]      # documented to take only these
                    if fdt != np.float32:
                        sdts = sdts[gi % 2::2]
                for sdt in sdts:
                    lbl = "%s (%s%s, event %dx%d)" % (law, fdt.__name__, ", samples " + sdt.name if sdt else "", R, K)
                    xs = x.astype(sdt.as_numpy_dtype if sdt else fdt)
                    try:
                        d = dc.make(law, par, 0, sdt)
                        todo.append((lbl, law, R, K, ps, par, xs, fdt, d.log_prob(xs), d.prob(xs), d))
                    except Exception as e:
                        bad.append({"msg": "%s: %s: %s" % (lbl, type(e).__name__, str(e)[:400]), "case": [ps[0][0]]})
        with session(rewrite=False) as sess:
            outs = sess.run([(t[8], t[9]) for t in todo])
    for (lbl, law, R, K, ps, par, xs, fdt, _, _, d), (lp, pr) in zip(todo, outs):
        if lp.dtype != fdt or pr.dtype != fdt:
            bad.append({"msg": "%s: log_prob has dtype %s, prob %s, the parameters %s" % (
                lbl, lp.dtype, pr.dtype, fdt.__name__), "case": [ps[0][0]]})
        if lp.shape != (len(ps),):
            bad.append({"msg": "%s: log_prob of %d points has shape %s" % (lbl, len(ps), lp.shape), "case": [ps[0][0]]})
            continue
        eps = float(np.finfo(fdt).eps)
        for i, (c, _) in enumerate(ps):
            cmp_ += 2
            e = env_at(law, R, K, c, par, xs.astype(np.float64) if law in dc.DISCRETE else xs, i)
            got = float(lp[i])
            sup = c["sup"]
            # rounding to the type may move a boundary point: decide on the values given
            if law == "Uniform":
                sup = e["minval"] <= e["x"] < e["maxval"]
            if not sup:
                if got != -np.inf or float(pr[i]) != 0.:
                    bad.append({"msg": "%s at %s: outside the support, log_prob %r, prob %r" % (
                        lbl, e, got, float(pr[i])), "case": [c]})
                continue
            want, err = expr.ev(c["ld"], e)
            tol = 32 * eps * (err + abs(want)) + 1e-37
            if not abs(got - want) <= tol:
                bad.append({"msg": "%s at %s: log_prob is %r, the law says %r (tolerance %.1e)" % (
                    lbl, {k: float(v) for k, v in e.items()}, got, want, tol), "case": [c]})
                continue
            tiny = float(np.finfo(fdt).tiny)
            wp = float(expr.mp.exp(want)) if want < 700 else np.inf
            if wp < float(np.finfo(fdt).max) and not abs(float(pr[i]) - wp) <= wp * np.expm1(min(tol + 8 * eps, 1.)) * 2 + 2 * tiny:
                bad.append({"msg": "%s at %s: prob is %r, the law says %r" % (lbl, e, float(pr[i]), wp), "case": [c]})
    return {"bad": bad, "n": n, "count": {"densities_compared": cmp_}}
