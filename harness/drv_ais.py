"""Replays specs/Ais.tla: one AIS.run per case, with a session that notes the
chains after every run of the graph; the estimate must be the weight of the
path the chains took, and every annealing move one HMC transition at its
temperature."""
import numpy as np
from zsenv import tf, zs, session, Noise
from zhusuan.evaluation import AIS
from prog import Chains

LAYOUT = {"c3n2": ((3,), (2,)), "c4": ((4,), ()), "c1n3": ((1,), (3,)), "c2n1": ((2,), (1,))}
X = np.array([.5, -1.])


class Spy(object):
    """a session that notes, per run, the draws made and the chains after it"""

    def __init__(self, sess, lat, nz):
        self.sess, self.lat, self.nz, self.log = sess, lat, nz, []

    def run(self, *a, **kw):
        k = len(self.nz.log)
        out = self.sess.run(*a, **kw)
        draws = self.nz.log[k:]
        self.log.append((draws, self.sess.run(self.lat)))
        return out

    def __getattr__(self, n):
        return getattr(self.sess, n)


def run(c):
    f = c["cfg"]
    cch, nd = LAYOUT[f["lay"]]
    ch = cch + nd
    rs = np.random.RandomState(len(str(c["path"])) + f["n"] * 7 + f["leap"])
    env = dict(x=X, s=np.array(.8), c=np.array({"unit": 1.7, "huge": 300., "tiny": -300.}[f["off"]]), eps=.3)
    env["loc_a"], env["sc_a"] = np.array([.2, -.4]), np.array([.8, 1.2])
    env["loc_b"], env["sc_b"] = np.array([.1]), np.array([1.5])
    # values the code sees are single precision
    for k in env:
        env[k] = np.asarray(env[k], np.float32).astype(np.float64)

    def noise(kind, op, call, shape, args):
        if kind == "uniform" and tuple(shape) == ch:
            return rs.rand(*shape) * (0. if f["draw"] == "all" else 1.)
        if kind == "uniform":
            return rs.rand(*shape) * .96 + .02
        return rs.randn(*shape)
    adapt_on = f["leap"] == 1 and f["draw"] == "some" and f["adapt"] > 0
    with tf.Graph().as_default(), Noise(noise) as nz:
        def f32(k):
            return tf.constant(env[k].astype(np.float32))
        xs = tf.placeholder(tf.float32, [2])
        n_data = list(nd)

        @zs.meta_bayesian_net()
        def prior():
            bn = zs.BayesianNet()
            for k, d in (("a", 2), ("b", 1)):
                loc, sc = f32("loc_" + k) + tf.zeros(n_data + [d]), f32("sc_" + k) + tf.zeros(n_data + [d])
                bn.stochastic(k, zs.distributions.Laplace(loc, sc, group_ndims=1), n_samples=cch[0])
            return bn

        def joint(o):
            a, b = o["a"], o["b"]
            if f["kind"] == "same":
                def lap(v, k):
                    return tf.reduce_sum(-tf.abs(v - f32("loc_" + k)) / f32("sc_" + k) - tf.log(2 * f32("sc_" + k)), -1)
                return lap(a, "a") + lap(b, "b") + f32("c")
            e = -(.5 * f32("s") * tf.square(a - o["x"]) + .125 * tf.square(b)) - tf.log(1. + tf.exp(a * b))
            return tf.reduce_sum(e, -1) + f32("c")
        observed = {"x": xs} if f["kind"] == "other" else {}
        target = joint
        if f["kind"] == "other" and f["leap"] > 1:
            @zs.meta_bayesian_net()
            def net():
                bn = zs.BayesianNet()
                bn.normal("a", tf.zeros(ch + (2,)), std=1., group_ndims=1)
                bn.normal("b", tf.zeros(ch + (1,)), std=1., group_ndims=1)
                bn.normal("x", tf.zeros(ch + (2,)), std=1., group_ndims=1)
                return bn
            target = net()
            target.log_joint = lambda bn: joint({k: bn[k] for k in "abx"})
        lat = {"b": tf.Variable(tf.zeros(ch + (1,))), "a": tf.Variable(tf.zeros(ch + (2,)))}
        pm = prior()
        if observed:
            # the proposal is a function of the observed values too, here a constant one
            class P(object):
                def observe(self, **kw):
                    kw.pop("x", None)
                    return pm.observe(**kw)
            pm2 = P()
        else:
            pm2 = pm
        hmc = zs.HMC(step_size=.3, n_leapfrogs=f["leap"], adapt_step_size=True if adapt_on else None)
        ais = AIS(target, pm2, hmc, observed, lat, n_temperatures=f["n"], n_adapt=f["adapt"])
        with session(threads=2) as sess:
            sess.run(tf.global_variables_initializer())
            spy = Spy(sess, lat, nz)
            got = ais.run(spy, feed_dict={xs: X})
    # the path of the chains
    events = []
    for draws, after in spy.log:
        # draws of the proposal: uniform, of the shape of a latent variable (the acceptance draws have that of the chains)
        isinit = {v.shape for k, _, _, v in draws if k == "uniform"} >= {ch + (2,), ch + (1,)}
        mom = [v for k, _, _, v in draws if k == "normal"]
        if isinit and mom:
            return [{"msg": "one run of the graph both draws from the proposal and moves the chains"}]
        if isinit:
            events.append(("init", after, None))
        elif mom:
            events.append(("move", after, draws))
    kinds = [e[0] for e in events]
    if kinds != c["path"]:
        return [{"msg": "%d temperatures, n_adapt %d: the run makes %s, should make %s" % (f["n"], f["adapt"], kinds, c["path"])}]
    m = Chains(len(ch))
    temps = [float(m.ev(t, env)) for t in c["temps"]]
    if not (abs(temps[0]) < 1e-12 and abs(temps[-1] - 1) < 1e-12 and all(a < b for a, b in zip(temps, temps[1:]))):
        raise RuntimeError("schedule %s" % temps)
    ev = events[f["adapt"] + 1:]
    lw = np.zeros(ch)
    for k in range(f["n"]):
        before, (_, after, draws) = ev[k][1], ev[k + 1]
        env.update(a=before["a"].astype(np.float64), b=before["b"].astype(np.float64), T=temps[k + 1], Tp=temps[k])
        m.run(c["inc"], env)
        lw = lw + env["inc"]
        if adapt_on:
            continue
        nm = {v.shape: v for kd, _, _, v in draws if kd == "normal"}
        env["pa"], env["pb"] = nm[ch + (2,)].astype(np.float64), nm[ch + (1,)].astype(np.float64)
        u = [v for kd, _, _, v in draws if kd == "uniform"]
        m.run(c["move"], env)
        acc = np.exp(np.minimum(env["h0"] - env["h1"], 0))
        sure_yes, sure_no = u[0] < acc - 1e-3, u[0] > acc + 1e-3
        for n, cn in (("a", "ca"), ("b", "cb")):
            new, old = env[cn], before[n]
            d = np.abs(after[n] - new).max(-1) < 3e-4 * (1 + np.abs(new).max())
            s = np.abs(after[n] - old).max(-1) < 1e-6
            if not np.all(np.where(sure_yes, d, np.where(sure_no, s, d | s))):
                return [{"msg": "transition %d of %d (temperature %.4f, %s) is not an HMC step at that temperature: %s went from %s to %s, "
                         "proposal %s, acceptance %s" % (k + 1, f["n"], temps[k + 1], f["kind"], n, old.tolist(), after[n].tolist(),
                                                         new.tolist(), acc.tolist())}]
    mx = lw.max(0)
    want = float(np.mean(np.log(np.mean(np.exp(lw - mx), 0)) + mx))
    if f["kind"] == "same" and abs(want - float(env["c"])) > 1e-9:
        raise RuntimeError("weights of a proportional proposal: %r" % want)
    if not (np.ndim(got) == 0 and abs(float(got) - want) <= 1e-4 * (1 + np.abs(lw).max()) * 2):
        return [{"msg": "%s, %d temperatures, n_adapt %d, chains %s: estimate %r, the path's weights give %r" % (
            f["kind"], f["n"], f["adapt"], ch, got, want)}]
    return []
