"""Replays specs/Builders.tla: calls the builder with the arguments of the
behaviour and compares the node with the distribution built by keyword."""
import hashlib
import json
import warnings
import numpy as np
from zsenv import tf, zs, session
import dist_common as dc
from dist_common import D

R, K = 3, 2
B = (2, 3)
TAIL = {"b": (), "s": (), "v": (K,), "m": (K, K), "rk": (R, K), "rr": (R, R)}
# a parameter entry (or value) for which the density is not finite
BAD = {"Normal.std": ("std", 0.), "FoldNormal.std": ("std", 0.), "Normal.logstd": ("logstd", -800.),
       "FoldNormal.logstd": ("logstd", -800.), "Uniform": ("maxval", None), "Gamma": ("alpha", 0.),
       "InverseGamma": ("beta", 0.), "Beta": ("beta", 0.), "Poisson": ("rate", 0.), "Binomial": ("x", -1.),
       "Laplace": ("scale", 0.), "BinConcrete": ("x", 0.), "Dirichlet": ("alpha", 0.), "Concrete": ("x", 0.),
       "ExpConcrete": ("temperature", 0.), "MultivariateNormalCholesky": ("cov_tril", 0.),
       "MatrixVariateNormalCholesky": ("v_tril", 0.)}


def run(batch):
    bad, cnt = [], {"nodes": 0}
    warnings.simplefilter("ignore")
    with tf.Graph().as_default():
        todo = []
        for c in batch:
            o = One(c)
            try:
                o.build()
            except Exception as e:
                o.fail("refused with %s: %s" % (type(e).__name__, str(e)[:300]))
            todo.append(o)
        with session(rewrite=False) as sess:
            for o in todo:
                if not o.bad:
                    o.check(sess)
                bad += o.bad
                cnt["nodes"] += 1
    return {"bad": bad[:10], "n": len(batch), "count": cnt}


class One(object):
    def __init__(self, c):
        self.c, self.bad = c, []
        self.rng = np.random.RandomState(int(hashlib.sha1(json.dumps(c, sort_keys=True).encode()).hexdigest()[:8], 16))

    def fail(self, msg):
        c = self.c
        g = {k: v for k, v in c["given"].items() if v != "-"}
        self.bad.append({"msg": "%s %s (%s) with %s: %s" % (c["api"], c["name"], c["law"], g, msg), "case": [c]})

    def values(self, poison):
        c, rng = self.c, self.rng
        law = c["law"]
        fdt = np.dtype("float32" if any(c["defaulted"].values()) or rng.randint(2) else "float64")
        par = {}
        for name, k in c["params"]:
            if k == "n":
                par[name] = None if law == "Multinomial.free" else dc.NEXP
                continue
            shape = (() if k == "s" else B) + TAIL[k]
            a = dc.param(rng, law, name, shape, fdt)
            if law.endswith(".raw"):
                a = (a + rng.uniform(.5, 1.)).astype(fdt)  # not normalised: normalising would show
            if poison and BAD[law][0] == name:
                a = np.array(a)
                v = BAD[law][1]
                a[(-1,) * a.ndim] = par["minval"][(-1,) * a.ndim] if v is None else v
            par[name] = a
        x = dc.value(rng, law, B + {0: (), 1: (K,), 2: (R, K)}[c["vrank"]], K)
        if law == "Uniform" and any(c["defaulted"].values()):
            x = rng.uniform(.05, .95, size=B)
        if poison and BAD[law][0] == "x":
            x = np.array(x, dtype=float)
            x[(-1,) * x.ndim] = BAD[law][1]
        return par, x, fdt

    def call(self, par, x, fdt, tag):
        """-> node, reference distribution, observed value (array)"""
        c = self.c
        g, law, api = c["given"], c["law"], c["api"]
        base = c["node"]["class"]
        pos, kw, ref = [], {}, {}
        style = self.rng.randint(2)
        tens = {n: (tf.constant(a) if isinstance(a, np.ndarray) else a) for n, a in par.items()}
        npos = 0
        for n, k in c["params"]:
            if c["defaulted"].get(n):
                ref[n] = tf.constant({"mean": 0., "minval": 0., "maxval": 1.}[n], tf.float32)
                style = 0
                continue
            ref[n] = tens[n]
            if style and not (base in ("Normal", "FoldNormal") and npos >= 1):
                pos.append(tens[n])
                npos += 1
            else:
                kw[n] = tens[n]
        if c["node"]["normalize"] == "no":
            kw["normalize_logits"] = ref["normalize_logits"] = False
        elif g["normalize_logits"] != "-":
            kw["normalize_logits"] = True
        YN = {"yes": True, "no": False}
        for o in ("is_reparameterized", "use_path_derivative", "check_numerics"):
            if g[o] != "-":
                kw[o] = ref[o] = YN[g[o]]
        if g["dtype"] != "-":
            kw["dtype"] = getattr(tf, g["dtype"])
        if base in dc.DISCRETE or law in dc.DISCRETE:
            ref["dtype"] = getattr(tf, c["node"]["dtype"])
        G = {"0": 0, "1": 1, "2": 2}
        if g["group_ndims"] != "-":
            kw["group_ndims"] = tf.constant(1) if g["group_ndims"] == "tensor1" else G[g["group_ndims"]]
        self.group = 1 if c["node"]["group"] == "tensor1" else G[c["node"]["group"]]
        ref["group_ndims"] = self.group
        N = {"1": 1, "3": 3}
        self.n = None
        nkw = {}
        if g["n_samples"] != "-":
            nkw["n_samples"] = tf.constant(2) if g["n_samples"] == "tensor2" else N[g["n_samples"]]
            self.n = 2 if g["n_samples"] == "tensor2" else N[g["n_samples"]]
        d = getattr(D, base)(**ref)
        self.sdt = d.dtype
        x = np.asarray(x).astype(self.sdt.as_numpy_dtype)
        name = "n" + tag
        obs = {name: tf.constant(x)} if c["node"]["observed"] else {}
        order = list(dict(kw, **nkw).items())
        if self.rng.randint(2):
            order.reverse()
        allkw = dict(order)
        if api == "alone":
            node = getattr(zs, c["name"])(name, *pos, **allkw)
        else:
            bn = zs.BayesianNet(observed=obs)
            if api == "method":
                node = getattr(bn, c["name"])(name, *pos, **allkw)
            elif api == "plain":
                node = bn.stochastic(name, getattr(D, c["name"])(*pos, **kw), **nkw)
            else:
                with bn:
                    node = getattr(zs, c["name"])(name, *pos, **allkw)
            if bn[name] is not node:
                self.fail("net[%r] is not the node" % name)
        self.name = name
        return node, d, x

    def build(self):
        c = self.c
        self.par, x, self.fdt = self.values(False)
        self.node, self.ref, self.x = self.call(self.par, x, self.fdt, "a")
        n = self.node
        w = c["node"]
        self.stat = {"class": (type(n.dist).__name__, w["class"]), "dtype": (n.dtype, self.ref.dtype),
                     "dist.dtype": (n.dist.dtype, self.ref.dtype), "name": (n.name, self.name),
                     "param_dtype": (n.dist.param_dtype, self.ref.param_dtype),
                     "is_reparameterized": (bool(n.dist.is_reparameterized), w["rep"] == "yes"),
                     "use_path_derivative": (bool(n.dist.use_path_derivative), w["path"] == "yes"),
                     "is_continuous": (bool(n.dist.is_continuous), w["continuous"]),
                     "is_observed": (bool(n.is_observed()), w["observed"]),
                     "batch shape": (n.dist.get_batch_shape().as_list(), self.ref.get_batch_shape().as_list())}
        for k, (got, want) in self.stat.items():
            if got != want:
                self.fail("%s is %s, should be %s" % (k, got, want))
        self.fetch = {"group": tf.convert_to_tensor(n.dist.group_ndims)}
        if w["observed"] or c["draws"]:
            self.fetch["value"] = n.tensor
            self.fetch["log"] = n.cond_log_p
            self.fetch["reflog"] = self.ref.log_prob(n.tensor)
        gx = tf.constant(self.x)
        self.fetch["at"] = n.dist.log_prob(gx)
        self.fetch["refat"] = self.ref.log_prob(gx)
        self.poison = None
        if c["checks"] and not c["defaulted"].get(BAD[c["law"]][0]) and not any(c["defaulted"].values()):
            par, x, fdt = self.values(True)
            node, _, x = self.call(par, x, fdt, "b")
            self.poison = node.dist.log_prob(tf.constant(x))

    def check(self, sess):
        c, w = self.c, self.c["node"]
        try:
            r = sess.run(self.fetch)
        except Exception as e:
            return self.fail("running it fails with %s: %s" % (type(e).__name__, str(e)[:300]))
        if int(r["group"]) != self.group:
            self.fail("group_ndims is %s" % r["group"])
        if "value" in r:
            bshape = tuple(self.ref.get_batch_shape().as_list())
            full = bshape + {0: (), 1: (K,), 2: (R, K)}[c["vrank"]]
            if w["observed"]:
                if not np.array_equal(r["value"], self.x):
                    self.fail("value is not the observation")
            else:
                want = full if self.n is None else (self.n,) + full
                if r["value"].shape != want:
                    self.fail("value has shape %s, should be %s" % (r["value"].shape, want))
            same(self, "cond_log_p", r["log"], r["reflog"])
        same(self, "log_prob", r["at"], r["refat"])
        if self.poison is not None:
            try:
                sess.run(self.poison)
                err = False
            except Exception:
                err = True
            if err != (w["check"] == "yes"):
                self.fail("a non-finite density is %s" % ("refused" if err else "accepted"))


def same(o, what, got, want):
    if got.shape != want.shape:
        return o.fail("%s has shape %s, should be %s" % (what, got.shape, want.shape))
    if not np.allclose(got, want, rtol=1e-5, atol=1e-5, equal_nan=True):
        o.fail("%s is %s, should be %s" % (what, got.reshape(-1)[:4], want.reshape(-1)[:4]))
