"""Replays specs/Observe.tla: gives observations to nets, in every form and way,
and looks at what became of them."""
import warnings
import numpy as np
from zsenv import tf, zs, session
from zhusuan.distributions.base import Distribution
from zhusuan.framework.bn import StochasticTensor

DT = {"i": np.int32, "f": np.float32, "d": np.float64}


class Probe(Distribution):
    """log density: the sum of the value's entries, each plus 10 * (batch index + 1)"""

    def __init__(self, dt, batch, value):
        self.b, self.v = tuple(batch), tuple(value)
        self.w = (10. * (np.arange(int(np.prod(self.b, dtype=int))) + 1)).reshape(self.b + (1,) * len(self.v))
        super(Probe, self).__init__(tf.as_dtype(DT[dt]), tf.float64, dt != "i", False)

    def _value_shape(self):
        return tf.constant(self.v, dtype=tf.int32)

    def _get_value_shape(self):
        return tf.TensorShape(self.v)

    def _batch_shape(self):
        return tf.constant(self.b, dtype=tf.int32)

    def _get_batch_shape(self):
        return tf.TensorShape(self.b)

    def _sample(self, n_samples):
        return tf.zeros(tf.concat([[n_samples], self.batch_shape, self.value_shape], 0), self.dtype)

    def _log_prob(self, given):
        x = tf.cast(given, tf.float64) + tf.constant(self.w + np.zeros(self.b + self.v))
        return tf.reduce_sum(x, list(range(-len(self.v), 0))) if self.v else x


def builtin(dt, batch, value, pick):
    D = zs.distributions
    f = np.float64 if dt == "d" else np.float32
    full = tuple(batch) + tuple(value)
    if dt == "i":
        if not value:
            return [lambda: D.Bernoulli(tf.zeros(full), dtype=tf.int32),
                    lambda: D.Poisson(tf.ones(full), dtype=tf.int32),
                    lambda: D.Binomial(tf.zeros(full), 9, dtype=tf.int32)][pick % 3]()
        if len(value) == 1:
            return [lambda: D.OnehotCategorical(tf.zeros(full), dtype=tf.int32),
                    lambda: D.Multinomial(tf.zeros(full), 9, dtype=tf.int32),
                    lambda: D.UnnormalizedMultinomial(tf.zeros(full), dtype=tf.int32)][pick % 3]()
        return None
    if not value:
        return [lambda: D.Normal(tf.zeros(full, f), std=tf.ones([], f)),
                lambda: D.Gamma(tf.ones(full, f), tf.ones([], f)),
                lambda: D.Laplace(tf.zeros([], f), tf.ones(full, f)),
                lambda: D.FoldNormal(tf.zeros(full, f), logstd=tf.zeros(full, f)),
                lambda: D.Uniform(tf.zeros([], f), 99. * tf.ones(full, f))][pick % 5]()
    if len(value) == 1:
        k = value[0]
        return [lambda: D.Dirichlet(tf.ones(full, f)),
                lambda: D.ExpConcrete(tf.ones([], f), tf.zeros(full, f)),
                lambda: D.MultivariateNormalCholesky(
                    tf.zeros(full, f), tf.eye(k, batch_shape=list(batch), dtype=f))][pick % 3]()
    return D.MatrixVariateNormalCholesky(tf.zeros(full, f), tf.eye(value[0], batch_shape=list(batch), dtype=f),
                                         tf.eye(value[1], batch_shape=list(batch), dtype=f))


class Case(object):
    def __init__(self, c):
        self.c, self.law, self.way = c, c["law"], c["way"]
        self.pick = sum(map(ord, repr(c)))
        self.feeds, self.todo, self.bad = {}, [], []

    def say(self, msg, *a):
        self.bad.append(msg % a)

    def hold(self, t):
        o, a = t["obs"], np.array(t["data"], dtype=DT[t["obs"]["dt"]]).reshape(t["obs"]["shape"])
        f = o["form"]
        if f == "number":
            return int(a) if o["dt"] == "i" else float(a)
        if f == "list":
            return a.tolist() if self.pick % 2 else tuple(a.tolist())
        if f == "array":
            return a if self.pick % 3 or a.shape else a.dtype.type(a)
        if f == "tensor":
            return tf.constant(a)
        if f == "variable":
            return tf.Variable(a)
        if f == "node":
            d = Probe(o["dt"], (), o["shape"])
            return StochasticTensor(None, "elsewhere", d, observation=a)
        p = tf.placeholder(a.dtype, {"known": a.shape, "rank": [None] * a.ndim, "nothing": None}[o["static"]])
        self.feeds[p] = a
        return p

    def dist(self, k):
        law = self.law
        own = (self.pick + k) % 3 == 0
        d = builtin(law["dt"], law["batch"], law["value"], self.pick // 7 + k) if own else None
        return d or Probe(law["dt"], law["batch"], law["value"])

    def build(self):
        c, tries, way = self.c, self.c["tries"], self.way
        self.obs = {t["name"]: self.hold(t) for t in tries}
        self.dists = {t["name"]: self.dist(k) for k, t in enumerate(tries)}
        self.node, self.err = {}, {}
        z = Probe("f", (), ())
        z.w = np.zeros(())      # log density of its draw: 0

        def attempt(name, fn):
            try:
                self.node[name] = fn()
            except Exception as e:
                self.err[name] = e

        if way == "observe":
            @zs.meta_bayesian_net()
            def model():
                bn = zs.BayesianNet()
                bn.stochastic("z", z)
                for t in tries:
                    attempt(t["name"], lambda: bn.stochastic(t["name"], self.dists[t["name"]]))
                return bn
            bn = model().observe(**self.obs)
        elif way == "ctor":
            bn = zs.BayesianNet(observed=self.obs)
            bn.stochastic("z", z)
            for t in tries:
                attempt(t["name"], lambda: bn.stochastic(t["name"], self.dists[t["name"]]))
        elif way == "free":
            bn = zs.BayesianNet()
            bn.stochastic("z", z)
            for t in tries:
                attempt(t["name"], lambda: StochasticTensor(None, t["name"], self.dists[t["name"]],
                                                            observation=self.obs[t["name"]]))
        else:
            full = tuple(self.law["batch"]) + tuple(self.law["value"])
            other = {t["name"]: np.ones(full, DT[self.law["dt"]]) for t in tries if t["under"]}
            bn = zs.BayesianNet(observed=self.obs if way == "legacy-ctor" else other)
            with bn:
                StochasticTensor(None, "z", z)
                for t in tries:
                    kw = {"observation": self.obs[t["name"]]} if way == "legacy-arg" else {}
                    attempt(t["name"], lambda: StochasticTensor(None, t["name"], self.dists[t["name"]], **kw))
        self.bn = bn
        self.inspect(z)

    def later(self, what, tensor, shape=None, data=None, fails=False):
        self.todo.append((what, tensor, shape, data, fails))

    def inspect(self, z):
        c, bn = self.c, self.bn
        for t in c["tries"]:
            n, out = t["name"], t["out"]
            if out == "refused":
                if n not in self.err:
                    self.say("the observation of %s was accepted", n)
                elif not isinstance(self.err[n], (ValueError, TypeError)):
                    self.say("refused with %r", self.err[n])
                continue
            if n in self.err:
                self.say("the observation of %s was refused: %r", n, self.err[n])
                continue
            node, d = self.node[n], self.dists[n]
            if node.is_observed() is not True:
                self.say("%s is not observed", n)
            if node.dtype != d.dtype or node.tensor.dtype != d.dtype:
                self.say("%s is of type %r", n, node.tensor.dtype)
            if node.name != n or node.dist is not d or node.distribution is not d:
                self.say("%s has another name or distribution", n)
            home = None if self.way == "free" else bn
            if node.bn is not home or node.net is not home:
                self.say("%s does not know its net", n)
            self.later(n, node.tensor, t["obs"]["shape"], t["data"])
            self.later(n + " as a tensor", tf.convert_to_tensor(node), t["obs"]["shape"], t["data"])
            lp = node.cond_log_p
            if self.way != "free" and bn.cond_log_prob(n) is not lp:
                self.later(n + "'s cond_log_prob", bn.cond_log_prob(n), t["dshape"],
                           t["ddata"] if isinstance(d, Probe) else None, out == "late")
            if isinstance(d, Probe):
                self.later(n + "'s density", lp, t["dshape"], t["ddata"], out == "late")
                if out == "kept":
                    self.later(n + "'s old log_prob", node.log_prob(node.tensor), t["dshape"], t["ddata"])
                    self.later(n + "'s old sample", tf.shape(node.sample(4)), None,
                               [4] + list(self.law["batch"]) + list(self.law["value"]))
            else:
                self.later(n + "'s density", lp, t["dshape"], None, out == "late")
                if out == "kept":
                    a = np.array(t["data"], dtype=d.dtype.as_numpy_dtype).reshape(t["obs"]["shape"])
                    self.later(n + "'s density", lp, None, d.log_prob(tf.constant(a)))
                    self.later(n + "'s old log_prob", node.log_prob(a), None, lp)
                    self.later(n + "'s old prob", node.prob(a), None, d.prob(a))
        if sorted(bn.nodes) != sorted(c["net"]):
            self.say("the net has the nodes %s", sorted(bn.nodes))
        probes = all(isinstance(self.dists[t["name"]], Probe) for t in c["tries"] if t["out"] == "kept")
        j = c["joint"]
        if j["kind"] != "skip" and (probes or self.way == "free"):
            try:
                lj = bn.log_joint()
            except Exception as e:
                if j["kind"] != "fails":
                    self.say("log_joint() raised %r", e)
            else:
                if j["kind"] == "fails":
                    self.later("joint", lj, fails=True)
                else:
                    self.later("joint", lj, j["shape"], j["data"])
        self.later("z", bn["z"].tensor, [], [0])
        # a name is taken if and only if a node was made
        for t in c["tries"]:
            try:
                bn.deterministic(t["name"], tf.constant(77.))
                free = True
            except ValueError:
                free = False
            if free != (t["name"] not in c["net"]):
                self.say("afterwards the name %s is %s", t["name"], "free" if free else "taken")

    def run(self, sess):
        sess.run(tf.global_variables_initializer())
        good = [x for x in self.todo if not x[4]]
        try:
            vals = sess.run([x[1] for x in good], self.feeds)
            wants = sess.run([x[3] if isinstance(x[3], tf.Tensor) else tf.constant(0) for x in good], self.feeds)
        except Exception as e:
            self.say("running the graph failed: %s: %s", type(e).__name__, str(e)[:300])
            vals = wants = []
        for (what, _, shape, data, _), v, w in zip(good, vals, wants):
            if isinstance(data, tf.Tensor):
                data = w
            if shape is not None and list(np.shape(v)) != list(shape):
                self.say("%s has shape %s, not %s", what, list(np.shape(v)), shape)
            elif data is not None and not np.array_equal(
                    np.asarray(v, float), np.asarray(data, float).reshape(np.shape(v)), equal_nan=True):
                self.say("%s is %s, not %s", what, np.asarray(v).tolist(), np.asarray(data).tolist())
        for x in self.todo:
            if x[4]:
                try:
                    v = sess.run(x[1], self.feeds)
                except tf.errors.InvalidArgumentError:
                    continue
                except Exception as e:
                    self.say("%s failed with %s", x[0], type(e).__name__)
                    continue
                self.say("%s of an observation whose shape does not fit ran and gave shape %s", x[0], np.shape(v))


def run(batch):
    bad, cnt = [], {"kept": 0, "refused": 0, "late": 0, "values_compared": 0}
    warnings.simplefilter("ignore")
    for c in batch:
        with tf.Graph().as_default():
            x = Case(c)
            x.build()
            with session(rewrite=False) as sess:
                x.run(sess)
        for t in c["tries"]:
            cnt[t["out"]] += 1
        cnt["values_compared"] += len(x.todo)
        for m in x.bad[:3]:
            bad.append({"msg": "%s, law %s, observations %s: %s" % (
                c["way"], c["law"], [(t["name"], t["obs"], t["out"]) for t in c["tries"]], m), "case": [c]})
    try:
        zs.BayesianNet.get_context()
        bad.append({"msg": "a net is still open after everything"})
    except RuntimeError:
        pass
    return {"bad": bad[:12], "n": len(batch), "count": cnt}
