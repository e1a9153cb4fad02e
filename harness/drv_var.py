"""Replays specs/Variational.tla into the variational objectives."""
import os
import warnings
import numpy as np
from zsenv import tf, zs, session
import expr
from prog import Chains

COEF = {"z": (.5, .25, 1.), "w": (-.25, .75, -2.)}   # ACoef, BCoef, CCoef of the specification


class Lin(zs.distributions.Distribution):
    """value: a given table (plus phi eps if reparameterised); log density: a polynomial of the value"""

    def __init__(self, value, logp, rep=False):
        self.v, self.f = tf.convert_to_tensor(value), logp
        super(Lin, self).__init__(dtype=tf.float32, param_dtype=tf.float32, is_continuous=True,
                                  is_reparameterized=rep, use_path_derivative=False, group_ndims=0)

    def _value_shape(self):
        return tf.constant([], tf.int32)

    def _get_value_shape(self):
        return tf.TensorShape([])

    def _batch_shape(self):
        return tf.shape(self.v)

    def _get_batch_shape(self):
        return self.v.get_shape()

    def _sample(self, n_samples):
        return tf.expand_dims(self.v if self.is_reparameterized else tf.stop_gradient(self.v), 0) + \
            tf.zeros(tf.stack([n_samples] + [1] * self.v.get_shape().ndims))

    def _log_prob(self, given):
        return self.f(given)

    def _prob(self, given):
        return tf.exp(self.f(given))


def place(tab, c):
    """[S][B] -> the shape of the tensors of the case"""
    f = c["cfg"]
    a = np.array(tab, dtype=np.float32).reshape([c["S"], c["B"]])
    if f["axis"] == "none":
        return a.reshape(f["rest"])
    k = len(f["sdims"])
    a = a.reshape(list(f["sdims"]) + list(f["rest"]))
    return np.moveaxis(a, range(k), range(f["at"], f["at"] + k))


def axis_of(c):
    f = c["cfg"]
    nd = len(f["sdims"]) + len(f["rest"])
    if f["axis"] == "none":
        return None
    ax = [f["at"] + i for i in range(len(f["sdims"]))]
    if f["axis"] == "neg":
        ax = [a - nd for a in ax]
    return ax if len(ax) > 1 else ax[0]


def known(a, c, feeds):
    """a constant, or (a third of the cases) a tensor of which TensorFlow knows the rank but not all sizes"""
    f = c["cfg"]
    h = f["at"] + f["seed"] + len(f["rest"]) + f["nl"] + (f["axis"] == "neg")
    a = np.asarray(a, np.float32)
    if h % 3:
        return tf.constant(a)
    p = tf.placeholder(tf.float32, [None if (h + i) % 2 or h % 2 else d for i, d in enumerate(a.shape)])
    feeds[p] = a
    return p


def build(c, ph, feeds):
    """the objective of the case"""
    f = c["cfg"]
    names = ["z", "w"][:f["nl"]]
    ax = axis_of(c)
    val, logq = {}, {}
    for i, n in enumerate(names):
        v = known(place(c["base"][i], c), c, feeds)
        if f["rep"]:
            v = v + ph["phi_" + n] * place(c["eps"][i], c)
        val[n] = v
        logq[n] = (lambda g, n=n: ph["phi_" + n] * COEF[n][0] * g + COEF[n][2])
    xt = np.array(c["x"], dtype=np.float32).reshape(f["rest"])
    x = xt
    if f["axis"] != "none":
        x = xt.reshape(f["rest"][:f["at"]] + [1] * len(f["sdims"]) + f["rest"][f["at"]:])
    x = tf.constant(x)
    zeros = tf.zeros_like(known(place(c["base"][0], c), c, feeds))

    def terms(z, w, x):
        t = {"z": ph["theta"] * COEF["z"][1] * z, "x": .5 * x * z + ph["off"] + zeros}
        if w is not None:
            t["w"] = ph["theta"] * COEF["w"][1] * w + .5 * z * w
        return t
    observed = {"x": x}
    if f["set"] == "override":
        observed["z"] = tf.constant(place(c["o"], c))
    if f["model"] == "fn":
        def model(o):
            assert set(o) >= set(names) | {"x"}, "the log joint is called with %s" % sorted(o)
            return sum(terms(o["z"], o.get("w"), o["x"]).values())
    else:
        @zs.meta_bayesian_net()
        def net():
            bn = zs.BayesianNet()
            zz = bn.stochastic("z", Lin(zeros, lambda g: terms(g, None, x)["z"]))
            ww = None
            if f["nl"] == 2:
                ww = bn.stochastic("w", Lin(zeros, lambda g: terms(zz.tensor, g, x)["w"]))
            bn.deterministic("extra", zz * 2.)
            bn.stochastic("x", Lin(zeros, lambda g: terms(zz.tensor, None, g)["x"]))
            return bn
        model = net()
    kw = {}
    if f["q"] == "dict" and f["set"] not in ("neither",):
        ns = names if f["set"] != "missing" else names[:1]
        kw["latent"] = {n: (val[n], logq[n](val[n])) for n in ns}
    elif f["set"] != "neither":
        qn = zs.BayesianNet(observed={"u": tf.ones_like(zeros)} if f["set"] in ("mixed", "dangling") else None)
        if f["set"] in ("mixed", "dangling"):
            # an observed and a deterministic node of the posterior are no latent variables
            qn.stochastic("u", Lin(zeros, lambda g: 100. * g))
            qn.deterministic("h", tf.ones_like(zeros))
        for n in (names if f["set"] != "missing" else names[:1]):
            qn.stochastic(n, Lin(val[n], logq[n], f["rep"]))
        kw["variational"] = qn
    if f["set"] == "both":
        kw["latent"] = {"z": (val["z"], logq["z"](val["z"]))}
    if f["set"] == "notnet":
        kw["variational"] = {"z": val["z"]}
    v = zs.variational
    if f["obj"] == "elbo":
        return v.elbo(model, observed, axis=ax, **kw), observed
    if f["obj"] == "iw":
        mk = v.importance_weighted_objective if c["cfg"]["seed"] % 2 else v.iw_objective
        return mk(model, observed, axis=ax, **kw), observed
    if f["obj"] == "isll":
        if "variational" in kw:
            kw["proposal"] = kw.pop("variational")
        return zs.is_loglikelihood(model, observed, axis=ax, **kw), observed
    return v.klpq(model, observed, axis=ax, **kw), observed


def run(batch):
    bad, cnt = [], {"gradients": 0, "values": 0, "refusals": 0}
    for c in batch:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m = one(c, cnt)
        if m:
            f = c["cfg"]
            bad.append({"msg": "%s%s of %s model, posterior given as %s (%s), %d latent, samples %s, other axes %s, axis %s%s: %s" % (
                f["obj"], "" if f["est"] == "value" else "." + f["est"], f["model"], f["q"], f["set"], f["nl"], f["sdims"],
                f["rest"], axis_of(c), ", baseline" if f["baseline"] else "", m), "case": [c]})
    return {"bad": bad[:8], "n": len(batch), "count": cnt}


def near(got, want, err):
    return abs(got - want) <= 2e-6 * (err + abs(want)) + 1e-5


def one(c, cnt):
    f = c["cfg"]
    with tf.Graph().as_default():
        pn = ["phi_z", "phi_w", "theta", "psi"]
        ph = {k: tf.Variable(0., name=k) for k in pn}
        ph["off"] = tf.placeholder(tf.float32, [])
        dec = f["decay"] / 5.
        try:
            feeds = {}
            obj, obs = build(c, ph, feeds)
            res = {}
            if f["est"] == "value":
                res["value"] = obj if f["seed"] % 2 else tf.convert_to_tensor(obj)
            elif f["est"] == "sgvb":
                res["cost"] = obj.sgvb()
            elif f["est"] == "reinforce":
                kw = {}
                if f["decay"] != 4:
                    kw["decay"] = dec
                if not f["reduce"]:
                    kw["variance_reduction"] = False
                if f["baseline"]:
                    xb = np.array(c["x"], dtype=np.float32).reshape(f["rest"]) + 1.
                    if f["axis"] != "none":
                        xb = xb.reshape(f["rest"][:f["at"]] + [1] * len(f["sdims"]) + f["rest"][f["at"]:])
                    kw["baseline"] = ph["psi"] * tf.constant(xb)
                    res["cost"], res["bcost"] = obj.reinforce(**kw)
                else:
                    res["cost"] = obj.reinforce(**kw)
                res["value"] = obj
            elif f["est"] == "vimco":
                res["cost"] = obj.vimco()
                res["value"] = obj
            else:
                res["cost"] = obj.importance() if f["seed"] % 2 else obj.rws()
            ps = [k for k in pn if k != "phi_w" or f["nl"] == 2]
            for k in ("cost", "bcost"):
                if k in res:
                    g = tf.gradients(res[k], [ph[p] for p in ps])
                    res["d" + k] = [tf.zeros([]) if x is None else x for x in g]
            if f["obj"] in ("elbo", "iw") and f["est"] == "value" and f["model"] == "meta" and not c["error"]:
                # the net of the objective holds the model with these observations
                for n, t in obs.items():
                    if not obj.bn.nodes[n].is_observed():
                        return "%s of the objective's net is not observed" % n
            with session(threads=1 + f["seed"] % 4) as sess:
                sess.run(tf.global_variables_initializer())
                env = {"decay": dec, "bias": 0., "mm": 0., "dk": 1.}
                m = Chains(0)
                rs = np.random.RandomState(f["seed"] + 5)
                for it in range(c["iters"] if f["est"] == "reinforce" and f["reduce"] else 1):
                    vals = {"phi_z": 1. + .5 * it, "phi_w": -1. - .25 * it, "theta": 2. - .5 * it, "psi": .5 + it, "off": 1. + 2 * it * (-1) ** it}
                    for k in pn:
                        ph[k].load(vals[k], sess)
                    env.update(vals)
                    out = sess.run(res, {**feeds, ph["off"]: vals["off"]})
                    if c["error"]:
                        return "accepted, should be refused"
                    msg = compare(c, env, out, ps, cnt)
                    if msg:
                        return ("iteration %d: " % (it + 1) if it else "") + msg
                    if c["moving"]:
                        m.run(c["moving"], env)
        except Exception as e:
            if c["error"]:
                cnt["refusals"] += 1
                return None
            return "%s: %s" % (type(e).__name__, str(e)[:500])


def compare(c, env, out, ps, cnt):
    f = c["cfg"]
    if "value" in out:
        got = np.asarray(out["value"])
        if list(got.shape) != f["rest"]:
            return "the value has shape %s" % (got.shape,)
        for b, t in enumerate(c["value"]):
            w, err = expr.ev(t, env)
            cnt["values"] += 1
            if not near(float(got.reshape(-1)[b]), w, err):
                return "value %r at position %d, the definition gives %r" % (float(got.reshape(-1)[b]), b, w)
    if f["est"] == "sgvb":
        for b, t in enumerate(c["value"]):
            w, err = expr.ev(t, env)
            if not near(-float(np.asarray(out["cost"]).reshape(-1)[b]), w, err):
                return "cost %r at position %d, the objective is %r" % (float(np.asarray(out["cost"]).reshape(-1)[b]), b, w)
    if "cost" in out and list(np.shape(out["cost"])) != f["rest"]:
        return "the cost has shape %s" % (np.shape(out["cost"]),)
    for key, grads in (("dcost", c["grads"]), ("dbcost", c["basegrads"])):
        if key not in out:
            continue
        for p, g in zip(ps, out[key]):
            w, err = expr.ev(grads[p], env)
            cnt["gradients"] += 1
            if not near(float(g), w, err + 20):
                return "gradient of the %s with respect to %s is %r, the estimator is %r" % (
                    "cost" if key == "dcost" else "baseline cost", p, float(g), w)
    if "bcost" in out:
        got = np.asarray(out["bcost"])
        if list(got.shape) != f["rest"]:
            return "the baseline cost has shape %s" % (got.shape,)
        for b, t in enumerate(c["basecost"]):
            w, err = expr.ev(t, env)
            if not near(float(got.reshape(-1)[b]), w, err):
                return "baseline cost %r, should be %r" % (float(got.reshape(-1)[b]), w)
