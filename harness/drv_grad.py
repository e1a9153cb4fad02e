"""Replays specs/DistLaw.tla for gradients: of the log density (the derivative
the specification computes), of samples (implicit derivatives in terms of the
sample), and of the log density of the distribution's own samples."""
import re
import numpy as np
from zsenv import tf, zs, session
import expr
import dist_common as dc
from drv_law import group, arrays, env_at

F = np.float64


def entry(a, var, name, i):
    """gradient entry for variable `var` of parameter (or x) `name`, batch member i"""
    idx = var[len(name):]
    if a.ndim == 0:
        return a
    if idx == "":
        return a[i]
    return a[(i,) + tuple(int(k) - 1 for k in idx)]


def pname(var, names):
    best = [n for n in names if var.startswith(n) and re.fullmatch(r"\d*", var[len(n):])]
    return max(best, key=len)


def run(batch):
    bad, n, cmp_ = [], 0, 0
    with tf.Graph().as_default():
        tf.set_random_seed(11)
        todo = []
        for gi, (key, pts) in enumerate(sorted(group(batch).items(), key=str)):
            law, R, K = key[:3]
            c0 = pts[0][0]
            n += len(pts)
            par, x = arrays(law, R, K, pts, F)
            if "n_experiments" in par and par["n_experiments"] == 0:
                continue
            if law not in dc.DISCRETE:
                x = x.astype(F)
            # not differentiable at the kink / outside the support
            keep = [i for i, (c, e) in enumerate(pts) if c["sup"] and not (law == "Laplace" and e["x"] == e["loc"])]
            if not keep:
                continue
            pts = [pts[i] for i in keep]
            x = x[keep]
            par = {k: (v[keep] if isinstance(v, np.ndarray) and v.ndim else v) for k, v in par.items()}
            N = len(pts)
            names = [p for p, kind in c0["params"] if kind != "n"]
            tp = {p: (tf.constant(v) if p in names else v) for p, v in par.items()}
            rng = np.random.RandomState(gi + N)
            vshape = x.shape
            w = rng.uniform(-1, 1, size=vshape)
            for rep in ([True, False] if c0["rep"] else [None]):
                for path in ([False, True] if c0["path"] else [None]):
                    kw = {}
                    if rep is not None:
                        kw["is_reparameterized"] = rep
                    if path is not None:
                        kw["use_path_derivative"] = path
                    lbl = "%s %s" % (law, kw)
                    d = dc.make(law, tp, 0, None, **kw)
                    if bool(d.is_reparameterized) != bool(rep):
                        bad.append({"msg": "%s: is_reparameterized is %r" % (lbl, d.is_reparameterized), "case": [c0]})
                    if bool(d.use_path_derivative) != bool(path):
                        bad.append({"msg": "%s: use_path_derivative is %r" % (lbl, d.use_path_derivative), "case": [c0]})
                    if d.is_continuous != (law not in dc.DISCRETE):
                        bad.append({"msg": "%s: is_continuous is %r" % (lbl, d.is_continuous), "case": [c0]})
                    xt = tf.constant(x if law not in dc.DISCRETE else x.astype(d.dtype.as_numpy_dtype))
                    # one density is asked for through log_prob, the other through prob
                    lp = d.log_prob(xt)
                    targets = [tp[p] for p in names] + ([xt] if law not in dc.DISCRETE else [])
                    f = {"g1": tf.gradients(lp, targets)}
                    pr = d.prob(xt)
                    f["p"] = pr
                    f["gp"] = tf.gradients(pr, targets)
                    if c0["sample"]:
                        s = d.sample() if (gi + bool(rep)) % 2 else tf.squeeze(d.sample(1), 0)
                        f["s"] = s
                        if law in dc.DISCRETE:
                            f["g2"] = tf.gradients(tf.cast(s, tf.float64) * w, [tp[p] for p in names])
                            f["g3"] = tf.gradients(d.log_prob(s), [tp[p] for p in names])
                        else:
                            f["g2"] = tf.gradients(s * w, [tp[p] for p in names])
                            f["g3"] = tf.gradients(d.log_prob(s), [tp[p] for p in names])
                    todo.append((lbl, law, R, K, pts, par, x, w, names, rep, path, f))
        none = lambda l: [t if t is not None else tf.constant(np.nan) for t in l]
        with session(rewrite=False) as sess:
            outs = sess.run([{k: (none(v) if isinstance(v, list) else v) for k, v in t[-1].items()} for t in todo])
    for (lbl, law, R, K, pts, par, x, w, names, rep, path, f), out in zip(todo, outs):
        N, c0 = len(pts), pts[0][0]
        dv, jac = dict(c0["dv"]), c0["jac"]
        xvars = [v for v in dv if re.fullmatch(r"x\d*", v)]
        grads = {}

        def get(kind, k):
            """gradient array or zeros when there is none"""
            if f[kind][k] is None:
                return None
            return np.asarray(out[kind][k])

        def compare(what, name, var, kind, k, wants, alts=None):
            """wants: per batch member (value, error); scalar parameters take the sum"""
            nonlocal cmp_
            a = get(kind, k)
            isscalar = dict(c0["params"]).get(name) == "s"
            if isscalar:
                sw, se = sum(v for v, _ in wants), sum(abs(v) + e for v, e in wants)
                rows = [(None, sw, se)]
            else:
                rows = [(i, q[0], abs(q[0]) + q[1]) for i, q in enumerate(wants) if q is not None]
            for i, v, e in rows:
                cmp_ += 1
                got = 0. if a is None else float(a if isscalar else entry(a, var, name, i))
                tol = 1e-13 * e * 64 + 1e-200
                ok = abs(got - v) <= tol
                if not ok and alts is not None and i is not None:
                    ok = abs(got - alts[i][0]) <= 1e-13 * 64 * (abs(alts[i][0]) + alts[i][1])
                if not ok:
                    bad.append({"msg": "%s: gradient of %s with respect to %s (member %s) is %s, the specification "
                                "says %r; parameters %s, value %s" % (
                                    lbl, what, var, i, "None" if a is None else repr(got), v,
                                    {k2: np.asarray(v2).tolist() for k2, v2 in par.items()} if N < 3 else "...",
                                    x[i].tolist() if i is not None else "..."),
                                "case": [pts[i or 0][0]]})
                    return False
            return True
        envs = [env_at(law, R, K, c, par, x, i) for i, (c, _) in enumerate(pts)]
        targets = names + (["x"] if law not in dc.DISCRETE else [])

        def zero(env):
            return 0., 0.
        # 1. log_prob and prob at a constant value
        for k, name in enumerate(targets):
            vs = [v for v in dv if v == name or (v.startswith(name) and v[len(name):].isdigit())]
            if law in ("Categorical", "OnehotCategorical") and name == "logits":
                vs = ["logits%d" % (q + 1) for q in range(K)]
            for v in vs:
                t = dv[v]
                if path and name != "x":
                    wants = [(0., 0.)] * N
                elif law == "Categorical":
                    # logits_x is the logit of the category itself
                    wants = []
                    for e in envs:
                        a, b = expr.ev(t, e)
                        hit = 1. if int(e["x"]) + 1 == int(v[6:]) else 0.
                        wants.append((a + hit, b + 1.))
                else:
                    wants = [expr.ev(t, e) for e in envs]
                if not compare("log_prob", name, v, "g1", k, wants):
                    break
                ps = np.asarray(out["p"], dtype=float)
                if dict(c0["params"]).get(name) != "s" or N == 1:
                    if not compare("prob", name, v, "gp", k, [(float(p) * a, float(p) * (b + abs(a)) * 4) for p, (a, b) in zip(ps, wants)]):
                        break
        if "s" not in f:
            continue
        # 2. samples
        s = np.asarray(out["s"])
        if law not in dc.DISCRETE and not np.all(np.isfinite(s)):
            bad.append({"msg": "%s: sample is not finite" % lbl, "case": [c0]})
            continue
        senv = []
        try:
            senv = [env_at(law, R, K, c, par, s, i) for i, (c, _) in enumerate(pts)]
        except Exception as e:
            bad.append({"msg": "%s: sample of shape %s" % (lbl, s.shape), "case": [c0]})
            continue
        edges = [bool((law in ("BinConcrete", "Concrete") and (np.any(s[i] < 1e-6) or np.any(s[i] > 1 - 1e-6))) or
                   (law == "Laplace" and abs(s[i] - par["loc"][i]) < 1e-9)) for i in range(N)]
        fold = law.startswith("FoldNormal")
        for k, name in enumerate(names):
            pvars = sorted({p for p, _, _ in jac if pname(p, names) == name}) or (
                [v for v in dv if v.startswith(name) and (v == name or v[len(name):].isdigit())])
            for pv in pvars:
                w2, w2b, w3, w3b = [], [], [], []
                for i, e in enumerate(senv):
                    res = []
                    if edges[i]:
                        # a saturated sample: nothing is demanded of this member
                        w2.append(None); w2b.append(None); w3.append(None); w3b.append(None)
                        continue
                    for sg in ((1., -1.) if fold else (1.,)):
                        e = dict(e, sgn=sg)
                        tot = err = tot3 = err3 = 0.
                        if rep:
                            for p_, xv, tree in jac:
                                if p_ != pv:
                                    continue
                                a, b = expr.ev(tree, e)
                                wi = float(entry(w, xv, "x", i))
                                tot += wi * a
                                err += abs(wi) * (b + abs(a))
                                dx, dxe = expr.ev(dv[xv], e)
                                tot3 += dx * a
                                err3 += abs(dx) * (b + abs(a)) + dxe * abs(a)
                        if not path and pv in dv:
                            if law == "Categorical":
                                a, b = expr.ev(dv[pv], e)
                                a += 1. if int(e["x"]) + 1 == int(pv[6:]) else 0.
                            else:
                                a, b = expr.ev(dv[pv], e)
                            tot3 += a
                            err3 += b + abs(a) + 1
                        res.append(((tot, err), (tot3, err3)))
                    w2.append(res[0][0]); w2b.append(res[-1][0])
                    w3.append(res[0][1]); w3b.append(res[-1][1])
                if any(edges) and dict(c0["params"]).get(name) == "s":
                    continue
                if not compare("a sample", name, pv, "g2", k, w2, w2b if fold else None):
                    break
                if pv in dv or law == "Categorical":
                    if not compare("the log density of its own sample", name, pv, "g3", k,
                                   [q and (q[0], q[1] * 50) for q in w3],
                                   [q and (q[0], q[1] * 50) for q in w3b] if fold else None):
                        break
    return {"bad": bad, "n": n, "count": {"gradients_compared": cmp_}}
