"""Replays specs/Hmc.tla: HMC with its adaptations over histories of flags.
After each iteration the harness compares what the specification's programs
give with what the code reports, and goes on from the values observed."""
import numpy as np
from zsenv import tf, zs, session, Noise
from prog import Chains

HYPER = {  # eps0, gamma, t0, kappa, delta, decay, s
    "plain": dict(eps0=.5, gamma=.5, t0=10., kappa=.75, delta=.8, decay=.9, s=1.),
    "stiff": dict(eps0=.25, gamma=1., t0=3., kappa=.6, delta=.65, decay=.75, s=6.),
    "loose": dict(eps0=1., gamma=.3, t0=20., kappa=.9, delta=.9, decay=.99, s=.3),
    "paper": dict(eps0=.1, gamma=.05, t0=100., kappa=.75, delta=.8, decay=.99, s=1.),
}
LAYOUT = {"c3": (3,), "c2x2": (2, 2), "c1": (1,), "c5": (5,)}
X = np.array([.5, -1.], dtype=np.float32)


def run(batch):
    bad, n, cnt = [], 0, {}
    groups = {}
    for c in batch:
        f = c["cfg"]
        groups.setdefault((f["given"], f["n"], f["hyper"], f["lay"]), []).append(c)
    for k, cs in sorted(groups.items()):
        b = group(k, cs, cnt)
        bad += b
        n += len(cs)
    return {"bad": bad[:8], "n": n, "count": cnt}


def group(key, cases, cnt):
    given, nleap, hyper, lay = key
    hp, ch = HYPER[hyper], LAYOUT[lay]
    bad = []
    cur = {}

    def noise(kind, op, call, shape, args):
        r = np.random.RandomState((cur["seed"] * 1009 + cur["it"] * 31 + op) % (2 ** 31))
        v = r.randn(*shape) if kind == "normal" else r.rand(*shape)
        if kind == "normal" and abs(v).min() < .05:
            v = np.where(abs(v) < .05, .05, v)
        cur["draws"].append((kind, v.astype(np.float32)))
        return v

    with tf.Graph().as_default(), Noise(noise):
        fs = tf.placeholder(tf.bool, [])
        fm = tf.placeholder(tf.bool, [])
        mci = tf.placeholder(tf.int32, [])
        xs = tf.placeholder(tf.float32, [2])
        kw = {}
        if given != "none":
            kw["adapt_step_size"] = fs
        if given == "both":
            kw.update(adapt_mass=fm, mass_collect_iters=mci, mass_decay=hp["decay"])
        lat = {"a": tf.Variable(tf.zeros(ch + (2,)), trainable=False), "b": tf.Variable(tf.zeros(ch + (1,)), trainable=False)}

        def log_joint(o):
            a, b = o["a"], o["b"]
            e = -(.5 * o["s"] * tf.square(a - o["x"]) + .125 * tf.square(b)) - tf.log(1. + tf.exp(a * b))
            return tf.reduce_sum(e, -1)
        model = log_joint
        if nleap % 2:
            # the same target given as a net
            @zs.meta_bayesian_net()
            def net():
                bn = zs.BayesianNet()
                bn.normal("a", tf.zeros(ch + (2,)), std=1., group_ndims=1)
                bn.normal("b", tf.zeros(ch + (1,)), std=1., group_ndims=1)
                bn.normal("x", tf.zeros(ch + (2,)), std=1., group_ndims=1)
                bn.deterministic("s", tf.constant(hp["s"]))
                return bn
            model = net()
            model.log_joint = lambda bn: log_joint({k: bn[k] for k in "abxs"})
        hmc = zs.HMC(step_size=hp["eps0"], n_leapfrogs=nleap, target_acceptance_rate=hp["delta"], gamma=hp["gamma"],
                     t0=hp["t0"], kappa=hp["kappa"], **kw)
        op, info = hmc.sample(model, {"x": xs} if nleap % 2 else {"x": xs, "s": tf.constant(hp["s"])}, lat)
        init = tf.global_variables_initializer()
        fetch = {"op": op, "s": info.samples, "a": info.acceptance_rate, "p": info.init_momentum,
                 "h0": info.orig_hamiltonian, "h1": info.hamiltonian, "l0": info.orig_log_prob,
                 "l1": info.log_prob, "eps": info.updated_step_size}
        with session(threads=1 + len(cases) % 3) as sess:
            for ci, c in enumerate(cases):
                sess.run(init)
                rs = np.random.RandomState(ci + 17)
                q = {"a": rs.randn(*(ch + (2,))).astype(np.float32), "b": rs.randn(*(ch + (1,))).astype(np.float32)}
                for k in q:
                    lat[k].load(q[k], sess)
                env = dict(x=X.astype(np.float64), s=hp["s"], ewt=0., decay=hp["decay"], eps=np.float32(hp["eps0"]),
                           gamma=hp["gamma"], t0=hp["t0"], kappa=hp["kappa"], delta=hp["delta"], mu=10 * hp["eps0"],
                           step=0., hbar=0., lbar=np.log(hp["eps0"]))
                for k in q:
                    s = (1,) * len(ch) + q[k].shape[len(ch):]
                    env["mean_" + k], env["var_" + k] = np.zeros(s), np.ones(s)
                m = Chains(len(ch))
                for i, h in enumerate(c["hist"]):
                    cur.update(seed=ci, it=i, draws=[])
                    out = sess.run(fetch if h["asked"] else {"op": op}, {fs: h["step"], fm: h["mass"], mci: c["cfg"]["mci"], xs: X})
                    qn = sess.run(lat)
                    cnt["iterations"] = cnt.get("iterations", 0) + 1
                    msg = check(m, c, h, env, q, out, qn, cur["draws"])
                    if msg in ("ambiguous", "degenerate"):
                        cnt[msg] = cnt.get(msg, 0) + 1
                        break
                    if msg:
                        fl = "".join("sS"[x["step"]] + "mM"[x["mass"]] + " " for x in c["hist"][:i + 1])
                        bad.append({"msg": "adaptations given: %s, mass from iteration %d, %d leapfrogs, %s, chains %s, flags %s"
                                    "(capital: on), iteration %d: %s" % (given, c["cfg"]["mci"], nleap, hyper, ch, fl, i + 1, msg),
                                    "case": [c]})
                        break
                    q = {k: qn[k] for k in q}
                if len(bad) > 3:
                    break
    return bad


def close(a, b, tol):
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def check(m, c, h, env, q, out, qn, draws):
    """without info (a blind iteration) only the variables are seen: the rest follows the
    programs, so later comparisons allow for what single precision may have made of it"""
    P = c["prog"]
    seen = "a" in out
    if seen:
        env["blind"] = env.get("blind", 0) // 2
    else:
        env["blind"] = env.get("blind", 0) + 1
    lax = 1 + 2 * env["blind"]
    for k in q:
        env["q_" + k] = q[k].astype(np.float64)
    if h["collect"]:
        m.run(P["collect"], env)
    if h["usemass"] == "var" and min(env["var_a"].min(), env["var_b"].min()) < 1e-6:
        return "degenerate"     # one point, or chains that never moved: there is no variance to invert
    m.run(P[h["usemass"]], env)
    # which draw became the momentum of which latent variable
    z = {}
    nz = [v for k, v in draws if k == "normal"]
    for k in q:
        cand = [v for v in nz if v.shape == q[k].shape]
        if len(cand) != 1:
            return "%d momentum draws of the shape of %s" % (len(cand), k)
        z[k] = cand[0]
        env["z_" + k] = z[k].astype(np.float64)
    m.run(P["momentum"], env)
    for k in q:
        w = env["p_" + k]
        if not seen:
            continue
        if not close(out["p"][k], w, lax * 2e-4 * (1e-3 + np.abs(w))):
            r = (out["p"][k] / z[k]) ** 2
            return "the momentum of %s was drawn with mass %s, the specification says %s" % (
                k, r.reshape(-1)[:4].tolist(), np.broadcast_to(env["m_" + k], r.shape).reshape(-1)[:4].tolist())
        env["p_" + k] = out["p"][k].astype(np.float64)
    amb = []

    def hook(e):
        if abs(e["near"]) < 2e-4:
            amb.append(1)
    if h["search"]:
        m.run(P["search"], env, hook)
        if amb:
            return "ambiguous"
    used = float(env["eps"])
    m.run(P["leapfrog"], env)
    scale = 1 + np.abs(env["h0"]) + np.abs(env["h1"])
    blown = ~np.isfinite(scale) | (scale > 300)
    if not seen:
        if np.any(blown & ~(env["acc"] < 1e-6)):
            return "degenerate"     # energies beyond single precision, and yet the move may be taken
        us = [v for k, v in draws if k == "uniform"]
        if len(us) != 1 or us[0].shape != np.shape(env["acc"]):
            return "acceptance draws of shapes %s for chains of shape %s" % ([u.shape for u in us], np.shape(env["acc"]))
        if np.any(np.abs(us[0] - env["acc"]) < 1e-3 * lax):
            return "ambiguous"
        out = dict(out, h0=env["h0"], l0=env["lp0"], a=env["acc"], l1=np.where(us[0] < env["acc"], env["lp1"], env["lp0"]),
                   s=qn, eps=None)
    tol = np.where(blown, np.inf, lax * 1e-4 * np.where(np.isfinite(scale), scale, 1) * (1 + used))
    if not close(out["h0"], env["h0"], lax * 2e-5 * (1 + np.abs(env["h0"]))):
        return "orig_hamiltonian %s, should be %s" % (out["h0"].tolist(), env["h0"].tolist())
    if not close(out["l0"], env["lp0"], lax * 2e-5 * (1 + np.abs(env["lp0"]))):
        return "orig_log_prob %s, should be %s" % (out["l0"].tolist(), env["lp0"].tolist())
    if not close(out["a"], env["acc"], np.where(blown, 1e-3, tol)):
        return "moving with step size %.6g gives acceptance rates %s, reported are %s" % (
            used, env["acc"].tolist(), out["a"].tolist())
    us = [v for k, v in draws if k == "uniform"]
    if len(us) != 1 or us[0].shape != out["a"].shape:
        return "acceptance draws of shapes %s for chains of shape %s" % ([u.shape for u in us], out["a"].shape)
    u, a = us[0], np.asarray(out["a"])
    for k, ck in (("a", "ca"), ("b", "cb")):
        d = q[k].ndim - a.ndim
        yes = (u < a)[(Ellipsis,) + (None,) * d]
        w = np.where(yes, env[ck], q[k])
        t2 = np.where(blown[(Ellipsis,) + (None,) * d], np.inf, lax * 2e-4 * (1 + np.abs(w)))
        if not close(qn[k], w, t2):
            return "with step size %.6g chains should be at %s = %s, they are at %s" % (used, k, w.tolist(), qn[k].tolist())
        if not np.array_equal(qn[k], out["s"][k]):
            return "info.samples[%s] are not the values of the variable" % k
    for name, w, got in (("log_prob", np.where(u < a, env["lp1"], env["lp0"]), out["l1"]),):
        if not close(got, w, np.where(blown & (u < a), np.inf, lax * 5e-4 * (1 + np.abs(w)))):
            return "info.%s is %s, should be %s" % (name, np.asarray(got).tolist(), w.tolist())
    env["acc"] = np.asarray(out["a"], np.float64)
    if h["fresh"]:
        m.run(P["fresh"], env)
    rel = 1e-6
    if h["after"] != "keep":
        m.run(P[h["after"]], env)
        env["err"] = rel = 4e-6 * (4 + np.sqrt(env["step"]) / env["gamma"])
    if out["eps"] is None:
        env["rel"] = (env.get("rel", 0) + 1e-4) * 1.5
        return None
    want, got = float(env["eps"]), float(out["eps"])
    rel, env["rel"] = rel + env.get("rel", 0), env.get("rel", 0) / 2 if h["after"] == "tune" else env.get("rel", 0)
    if not (np.isfinite(got) and got > 0):
        return "the step size became %r" % got
    if not abs(got - want) <= rel * want:
        return "the step size became %.7g, %s gives %.7g" % (got, {"tune": "dual averaging", "average": "the average",
                                                                   "keep": "no adaptation"}[h["after"]], want)
    env["eps"] = np.float64(got)
