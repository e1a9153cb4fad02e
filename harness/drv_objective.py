"""Replays histories of specs/Objective.tla into the variational objectives."""
import itertools
import warnings
from zsenv import tf, np, zs, session
from drv_bn import Probe

QD = {"z": 4, "w": 5, "v": 6}
MD = {"z": 1, "w": 2, "v": 3, "x": 7}
PARENT = {"w": "z", "x": "z"}
S = 2      # samples; they are all equal, so that means over them are the value itself


COUNT = itertools.count()


class Run(object):
    def __init__(self, c):
        self.c, self.h = c, c["h"]
        self.form = sum(map(ord, str([(e["op"], e.get("k"), e.get("what")) for e in self.h])))
        obs = {n: v for n, v in c["cfg"]["qobs"].items() if v != -1}
        self.q = zs.BayesianNet(observed={n: tf.fill([S], float(v)) for n, v in obs.items()})
        self.qnode, self.probes, self.model_probes = {}, [], []
        self.objs, self.checks, self.bad, self.calls = [], [], [], 0
        self.metas = {}

    def fail(self, i, msg):
        self.bad.append({"msg": "event %d %r of %s: %s" % (i + 1, self.h[i], self.c["cfg"]["model"], msg), "case": [self.c]})

    def node(self, n, seen, net, d, probes):
        p = seen.get(PARENT.get(n))
        p = tf.zeros([S]) if p is None else p
        pr = Probe(d, p, repar=bool(self.form % 2))
        probes.append(pr)
        return net.stochastic(n, pr)

    def meta(self, lj):
        if lj not in self.metas:
            @zs.meta_bayesian_net(scope="m%d" % lj)
            def build():
                self.calls += 1
                bn, seen = zs.BayesianNet(), {}
                for n in ("z", "w", "v", "x"):
                    if n in self.c["cfg"]["model"]:
                        seen[n] = self.node(n, seen, bn, MD[n], self.model_probes)
                bn.deterministic("out", tf.constant(1.))
                return bn
            m = build()
            if lj:
                m.log_joint = lambda bn: tf.constant(7000.) + sum(bn.cond_log_prob(
                    [n for n in ("z", "w", "v", "x") if n in self.c["cfg"]["model"]]))
            self.metas[lj] = m
        return self.metas[lj]

    def fn(self, i, want):
        def log_joint(obs):
            self.calls += 1
            if set(obs) != want:
                self.fail(i, "the log joint is called with %s, not %s" % (sorted(obs), sorted(want)))
            tot = tf.zeros([S])
            for n in self.c["cfg"]["model"]:
                if n in obs:
                    p = obs.get(PARENT.get(n)) if PARENT.get(n) in self.c["cfg"]["model"] else None
                    tot += MD[n] * (obs[n] + (0. if p is None else p))
            return tot
        return log_joint

    def make(self, i, e):
        obs = {n: tf.fill([S], float(v)) for n, v in e["obs"].items() if v != -1}
        lat = {n: x for n, x in self.qnode.items() if not x.is_observed()}
        kw = {}
        if e["by"] == "net":
            kw["variational"] = self.q
        elif self.form % 3:
            names = sorted(lat)
            kw["latent"] = dict(zip(names, self.q.query(names, outputs=True, local_log_prob=True)))
        else:
            kw["latent"] = {n: (x.tensor, x.cond_log_p) for n, x in lat.items()}
        model = self.fn(i, set(obs) | set(lat)) if e["mk"] == "fn" else self.meta(int(e["mk"] == "metalj"))
        v = zs.variational
        mk = {"elbo": v.elbo, "iw": v.importance_weighted_objective, "klpq": v.klpq}[e["kind"]]
        o = mk(model, obs, axis=[0, -1][self.form % 2] if e["kind"] != "iw" else 0, **kw)
        self.objs.append({"o": o, "obs": obs, "model": model, "kw": kw, "e": e, "bn": None})

    def ask(self, i, e):
        r = self.objs[e["k"] - 1]
        o, w = r["o"], e["what"]

        def get():
            if w == "bn":
                return o.bn
            if w == "variational":
                return o.variational
            if w == "meta_bn":
                return o.meta_bn
            if w == "joint":
                return o.bn if o.bn is None else o.bn.log_joint()
            if w == "node":
                n = o.bn[e["n"]]
                if not n.is_observed():
                    self.fail(i, "the node is not observed in the objective's net")
                return tf.convert_to_tensor(n)
            if w == "value":
                return [lambda: o + 0., lambda: tf.identity(o), lambda: tf.convert_to_tensor(o)][self.form % 3]()
            if w == "tensor":
                return o.tensor
            if w == "reinforce":
                k = self.form % 3
                # its moving mean is a tf.get_variable of the surrounding scope
                with tf.variable_scope("r%d" % next(COUNT)):
                    x = o.reinforce(**[{}, {"variance_reduction": False}, {"baseline": tf.zeros([S])}][k])
                return x[0] + x[1] if isinstance(x, tuple) else x
            return getattr(o, w)()
        try:
            t = get()
        except Exception as x:
            if e["e"] != "err":
                self.fail(i, "raised %s: %s" % (type(x).__name__, str(x)[:300]))
            return
        if e["e"] == "err":
            self.fail(i, "answered, should be refused")
        elif e["e"] == "none":
            if t is not None:
                self.fail(i, "is %r, should be None: there is no net" % (t,))
        elif e["e"] == "same":
            if w == "bn":
                if r["bn"] is not None and t is not r["bn"]:
                    self.fail(i, "is another net than before")
                r["bn"] = t
                if not isinstance(t, zs.BayesianNet):
                    self.fail(i, "is %r" % (t,))
            elif w == "variational":
                if t is not r["kw"].get("variational"):
                    self.fail(i, "is not the posterior given")
            elif t is not (None if r["e"]["mk"] == "fn" else r["model"]):
                self.fail(i, "is not the model given")
        else:
            self.checks.append((i, t, float(e["v"]) if e["e"] == "val" else None))

    def go(self):
        for i, e in enumerate(self.h):
            if e["op"] == "grow":
                self.qnode[e["n"]] = self.node(e["n"], self.qnode, self.q, QD[e["n"]], self.probes)
            elif e["op"] == "make":
                self.make(i, e)
            elif e["op"] == "alter":
                r = self.objs[e["k"] - 1]
                if e["what"] == "observed":
                    r["obs"][e["n"]] = tf.fill([S], 4321.)
                else:
                    r["kw"]["latent"][e["n"]] = (tf.fill([S], 4321.), tf.fill([S], 99.))
            else:
                self.ask(i, e)
        if self.c["runs"] >= 0 and self.calls != self.c["runs"]:
            self.fail(len(self.h) - 1, "the models were evaluated %d times, not %d" % (self.calls, self.c["runs"]))
        if any(p.draws > 1 for p in self.probes):
            self.fail(len(self.h) - 1, "a node of the posterior was sampled twice")
        if self.c["runs"] >= 0 and any(p.draws for p in self.model_probes):
            self.fail(len(self.h) - 1, "a node of the model was sampled although it has a value")


def run(batch):
    bad = []
    warnings.simplefilter("ignore")
    with tf.Graph().as_default():
        rs = []
        for c in batch:
            r = Run(c)
            r.go()
            rs.append(r)
        with session(rewrite=False) as sess:
            sess.run(tf.global_variables_initializer())
            got = sess.run([[t for _, t, _ in r.checks] for r in rs])
        for r, vs in zip(rs, got):
            for (i, _, want), v in zip(r.checks, vs):
                if want is not None and (np.size(v) == 0 or not np.all(np.abs(v - want) <= 0.5 + 1e-3 * abs(want))):
                    # terms are whole numbers, most of them of three digits; an estimator may
                    # round in the exponent, so an answer may be off by ulps of the log weight
                    r.fail(i, "is %s, the specification says %r" % (np.asarray(v).tolist(), want))
            bad += r.bad
    return {"bad": bad[:8], "n": len(batch), "count": {"answers": sum(len(r.checks) for r in rs)}}
