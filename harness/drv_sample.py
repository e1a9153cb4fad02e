"""Replays specs/DistSample.tla: draws many samples from the code and tests
them against the law, the support and the independence the specification
states.  Thresholds are 7 standard deviations (about 1e-11 per comparison)."""
import itertools
import os
import numpy as np
from zsenv import tf, zs, session, Noise
import expr
import npexpr
import dist_common as dc

SIG = 7.
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"


def regime(rng, case, fdt):
    out = {}
    for name, kind, shape in case["params"]:
        if kind == "n":
            out[name] = dc.NEXP
            continue
        a = np.asarray(dc.param(rng, case["law"], name, shape, np.float64))
        if case["regime"] == "low":
            if name in ("alpha", "beta", "rate", "std", "scale", "temperature"):
                a = a * .35
            if name in ("logits", "mean", "loc"):
                a = a - 1.5 * (name == "logits") - .5
        elif case["regime"] == "edge" and name == "logits":
            edge = np.array([110., -110.] if kind == "b" else [0., -110., 60., -110.])
            a = edge[rng.randint(len(edge), size=a.shape)]
        elif case["regime"] == "high":
            if name in ("alpha", "rate", "std", "scale", "beta"):
                a = a * 6.
            if name == "temperature":
                a = a * 2.5
            if name in ("logits", "mean", "loc", "minval", "maxval"):
                a = a * 1.7 + (1. if name != "logits" else 0.)
        out[name] = a.astype(fdt)
    return out


def outcomes(case, par, m):
    """all values of a discrete law (up to negligible mass), as arrays"""
    law, K = case["law"], case["K"]
    if law == "Bernoulli":
        return [0, 1]
    if law == "Poisson":
        return list(range(0, 60))
    if law == "Binomial":
        return list(range(dc.NEXP + 1))
    if law == "Categorical":
        return list(range(K))
    if law == "OnehotCategorical":
        return [tuple(int(v) for v in np.eye(K)[k]) for k in range(K)]
    return [c for c in itertools.product(range(dc.NEXP + 1), repeat=K) if sum(c) == dc.NEXP]


def support(case, par, s, members):
    """None or a description of a sample outside the support; s: [n, batch..., value...]"""
    what = case["support"]
    if not np.all(np.isfinite(s)):
        return "a sample is not finite: %r" % s[~np.isfinite(s)][:3].tolist()
    k = what[0]
    if k == "nonneg" and np.any(s < 0):
        return "negative sample %r" % float(s.min())
    if k == "unit" and (np.any(s < 0) or np.any(s > 1)):
        return "sample outside [0, 1]: %r" % float(s.min() if s.min() < 0 else s.max())
    if k == "between":
        f = s.reshape((s.shape[0], -1))
        for o, m in enumerate(members):
            lo, hi = par["minval"].reshape(-1)[m[0]], par["maxval"].reshape(-1)[m[1]]
            if np.any(f[:, o] < lo) or np.any(f[:, o] > hi):
                return "sample outside [%r, %r]" % (lo, hi)
    if k in ("upto", "uptoN", "count", "sum", "sumN"):
        if np.any(s < 0) or np.any(s != np.round(s)):
            return "sample is not a count: %r" % s.reshape(-1)[:4].tolist()
        if k in ("upto", "uptoN") and np.any(s > (what[1] if k == "upto" else dc.NEXP)):
            return "sample %r too large" % float(s.max())
        if k in ("sum", "sumN") and np.any(s.sum(-1) != (1 if k == "sum" else dc.NEXP)):
            return "counts do not add up to %s" % (1 if k == "sum" else dc.NEXP)
    if k == "simplex" and (np.any(s < 0) or np.any(np.abs(s.sum(-1) - 1) > 1e-2 if s.dtype == np.float16 else np.abs(s.sum(-1) - 1) > 2e-5)):
        return "sample is not on the simplex (sum %r)" % float(s.sum(-1).reshape(-1)[0])
    if k == "logsimplex":
        t = np.exp(s.astype(np.float64)).sum(-1)
        if np.any(np.abs(t - 1) > (2e-2 if s.dtype == np.float16 else 5e-5)):
            return "exp(sample) is not on the simplex (sum %r)" % float(t.reshape(-1)[0])
    return None


def corr(a, b):
    a, b = a - a.mean(0), b - b.mean(0)
    d = np.sqrt((a * a).mean(0) * (b * b).mean(0))
    return (a * b).mean(0) / np.where(d > 0, d, 1.)


def test(case, par, s, fail):
    """s: [n] + batch + value, float64"""
    n = s.shape[0]
    B = len(case["members"])
    vr = len(case["value"])
    flat = s.reshape((n, B) + s.shape[s.ndim - vr:] if vr else (n, B))
    cols = []         # one standardised column per batch member and transform
    for o, m in enumerate(case["members"]):
        # parameters of this member as scalars, sample entries as vectors
        g = flat[:1, o]
        env = dc.env_of(dict(case, gbatch=[1]), par, np.zeros_like(g), [m[0], m[1], 0])
        env = {k: (float(v) if not k.startswith("x") else v) for k, v in env.items()}
        if vr == 0:
            env["x"] = flat[:, o]
        elif vr == 1:
            for k in range(case["K"]):
                env["x%d" % (k + 1)] = flat[:, o, k]
        else:
            for i in range(case["R"]):
                for j in range(case["K"]):
                    env["x%d%d" % (i + 1, j + 1)] = flat[:, o, i, j]
        if case["discrete"]:
            tot = 0.
            keys = flat[:, o].astype(np.int64)
            for out in outcomes(case, par, m):
                e2 = dict(env)
                if vr == 0:
                    e2["x"] = out
                    if case["law"] == "Categorical":
                        e2["logits_x"] = env["logits%d" % (out + 1)]
                    hits = (keys == out)
                else:
                    for k in range(case["K"]):
                        e2["x%d" % (k + 1)] = out[k]
                    hits = np.all(keys == np.array(out), -1)
                p = np.exp(npexpr.ev(case["ld"], e2))
                tot += p
                c = hits.sum()
                if n * p > 60 and abs(c - n * p) > SIG * np.sqrt(n * p * (1 - p)) + 1e-9:
                    fail("batch member %d: outcome %r drawn %d times of %d, its mass is %.5f" % (o, out, c, n, p))
                if n * p < 1e-9 and c:
                    fail("batch member %d: outcome %r of mass %.2g was drawn" % (o, out, p))
            if abs(tot - 1) > 1e-6:
                raise RuntimeError("masses of %s add up to %r" % (case["law"], tot))
            fl = flat[:, o].reshape(n, -1)
            cols.append(fl[:, 0])
        else:
            us = []
            for name, t in case["transforms"]:
                u = np.asarray(npexpr.ev(t, env))
                if case["law"] == "Concrete" and 0 < np.isnan(u).mean() < .05:
                    continue    # two coordinates underflowed to 0: their ratio is unknown
                if np.any(np.isnan(u)):
                    fail("batch member %d: transform %s of a sample is not a number" % (o, name))
                    return
                edges = np.linspace(0, 1, 21)
                h, _ = np.histogram(u, edges)
                p = 1. / 20
                z = (h - n * p) / np.sqrt(n * p * (1 - p))
                if np.abs(z).max() > SIG:
                    b = int(np.abs(z).argmax())
                    fail("batch member %d: transform %s should be uniform, but %d of %d samples fall into "
                         "(%.2f, %.2f)" % (o, name, h[b], n, edges[b], edges[b + 1]))
                zm = (u.mean() - .5) * np.sqrt(12 * n)
                if abs(zm) > SIG:
                    fail("batch member %d: transform %s should be uniform, its mean is %.4f" % (o, name, u.mean()))
                us.append(u)
            if case["indep"]:
                for i in range(len(us)):
                    for j in range(i):
                        r = corr(us[i], us[j]) * np.sqrt(n)
                        r2 = corr(np.abs(us[i] - .5), np.abs(us[j] - .5)) * np.sqrt(n)
                        if max(abs(r), abs(r2)) > SIG:
                            fail("batch member %d: coordinates %s and %s of a sample are dependent "
                                 "(correlation %.3f)" % (o, case["transforms"][i][0], case["transforms"][j][0],
                                                         r / np.sqrt(n)))
            cols += us[:1]
    # independence over sample indices and batch members
    for i, a in enumerate(cols):
        for lag in (1, 2, n // 2):
            r = corr(a[lag:], a[:-lag]) * np.sqrt(n - lag)
            if abs(r) > SIG:
                fail("samples %d apart are dependent (correlation %.3f)" % (lag, r / np.sqrt(n - lag)))
        for j in range(i):
            r = corr(a, cols[j]) * np.sqrt(n)
            r2 = corr(np.abs(a - np.median(a)), np.abs(cols[j] - np.median(cols[j]))) * np.sqrt(n)
            if max(abs(r), abs(r2)) > SIG:
                fail("batch members %d and %d are dependent (correlation %.3f)" % (j, i, r / np.sqrt(n)))


LEVELS = {np.float32: [0., 1. - 2. ** -23, 2. ** -23, .5], np.float64: [0., 1. - 2. ** -52, 2. ** -52, .5],
          np.float16: [0., 1. - 2. ** -10, 2. ** -10, .5]}


def run(case):
    bad = []
    law = case["law"]
    rng = np.random.RandomState(abs(hash((law, case["regime"], str(case["batch"]), case["K"]))) % (2 ** 31))

    def mkfail(lbl):
        def fail(msg):
            if len(bad) < 6:
                bad.append({"msg": "%s (%s parameters, batch %s, K=%d) %s: %s" % (
                    law, case["regime"], case["batch"], case["K"], lbl, msg), "case": case})
        return fail
    N = 120000 if THOROUGH else 12000
    cmpd = 0
    with tf.Graph().as_default():
        tf.set_random_seed(int(os.environ.get("VERIF_SEED", "1")) * 1000 + 3)
        for fi, fdt in enumerate((np.float32, np.float64)):
            par = regime(rng, case, fdt)
            kw = {}
            if law in dc.DISCRETE:
                kw["dtype"] = [tf.int32, tf.float32, tf.int64][(len(case["batch"]) + fi) % 3]
            feeds = {}
            tp = {}
            for k, v in par.items():
                if fi and isinstance(v, np.ndarray):
                    tp[k] = tf.placeholder(v.dtype, None)   # nothing known statically
                    feeds[tp[k]] = v
                else:
                    tp[k] = v
            d = dc.make(law, tp, 0, **kw)
            nn = N if fi == 0 else N // 2
            s = d.sample(nn if fi == 0 else tf.constant(nn))
            s2 = d.sample(nn if fi == 0 else tf.constant(nn))
            s1 = d.sample()
            with session() as sess:
                a, a2, a1 = sess.run([s, s2, s1], feeds)
                b = sess.run(s, feeds)
            f = mkfail(fdt.__name__)
            want = tuple([nn] + case["batch"] + case["value"])
            if a.shape != want:
                f("samples have shape %s" % (a.shape,))
                continue
            for arr in (a, b, a1[None]):
                msg = support(case, par, arr, case["members"])
                if msg:
                    f(msg)
            if bad:
                continue
            # another run, and another call, draw anew
            for other, what in ((b, "two runs of one sample"), (a2, "two sample() calls")):
                fa, fo = a.reshape(nn, -1).astype(np.float64), other.reshape(nn, -1).astype(np.float64)
                if np.array_equal(fa, fo) and (fa.std(0) > 0).any():
                    f("%s are identical" % what)
                    continue
                r = np.abs(corr(fa, fo)).max() * np.sqrt(nn)
                if r > SIG:
                    f("%s are dependent (correlation %.3f)" % (what, r / np.sqrt(nn)))
            test(case, par, a.astype(np.float64), f)
            cmpd += nn
        # the extreme values of the uniform random source
        for fdt in (np.float32, np.float64, np.float16):
            if fdt == np.float16 and law in ("Categorical", "MultivariateNormalCholesky", "Dirichlet",
                                             "MatrixVariateNormalCholesky", "Gamma", "InverseGamma", "Beta"):
                continue
            par = regime(rng, case, fdt)
            lv = LEVELS[fdt]

            def noise(kind, op, call, shape, args):
                n = int(np.prod(shape)) if shape else 1
                if kind == "uniform":
                    return np.array([lv[(i + i // 4) % 4] for i in range(n)]).reshape(shape)
                if kind == "normal":
                    return np.array([[0., 6., -6.][i % 3] for i in range(n)]).reshape(shape)
                if kind == "gamma":
                    return np.broadcast_to(args[0], shape) * np.array([[1., .25, 3.][i % 3] for i in range(n)]).reshape(shape)
                if kind == "poisson":
                    return np.arange(n).reshape(shape) % 5
                return np.arange(n).reshape(shape) % args[0].shape[-1]
            with Noise(noise):
                d = dc.make(law, par, 0)
                s = d.sample(8)
            with session() as sess:
                a = sess.run(s)
            msg = support(case, par, a, case["members"])
            if msg:
                mkfail("%s, extreme draws" % fdt.__name__)(msg)
            if case["regime"] == "edge" and law == "Bernoulli":
                # whatever is drawn, an outcome without mass does not come up
                lg = par["logits"] * 20
                with Noise(noise):
                    s = dc.make(law, dict(par, logits=lg), 0).sample(8)
                with session() as sess:
                    a = sess.run(s)
                if np.any(a != (lg > 0)):
                    mkfail("%s, extreme draws" % fdt.__name__)(
                        "logits %r: the outcome without mass is drawn" % float(lg.reshape(-1)[0]))
    return {"bad": bad, "n": 1, "count": {"samples_tested": cmpd}}
