"""Replays specs/Misuse.tla: uses of samplers and nets with at most one fault."""
import warnings
from zsenv import tf, np, zs, session
from zhusuan.evaluation import AIS

D = 3


def latent(form, i, shape):
    z = np.linspace(-.5, .5, int(np.prod(shape))).reshape(shape).astype(np.float32) + .1 * i
    if form == "variable":
        return tf.Variable(z)
    if form == "tensor":
        return tf.constant(z)
    if form == "array":
        return z
    if form == "number":
        return 0.5
    if form == "placeholder":
        return tf.placeholder_with_default(z, z.shape)
    return tf.identity(tf.Variable(z))


def switch(v):
    return {"absent": None, "true": True, "false": False, "number": 1.5, "text": "yes"}.get(v) if v != "fed" \
        else tf.placeholder_with_default(True, [])


def use_sampler(c):
    f, (kind, arg) = c["cfg"], c["fault"]
    names = ["a", "b"][:f["nlat"]]
    # "part": one chain axis whose length is only known when the graph runs
    shape = [D] if f["chains"] == "none" else [2, D]
    lat = {}
    for i, n in enumerate(names):
        form = arg if kind == "latent%d" % (i + 1) else "variable"
        lat[n] = latent(form, i, shape)
    params = {"mean": tf.zeros(shape) if f["chains"] != "part" else
              tf.placeholder_with_default(np.zeros(shape, np.float32), [None, D])}

    def fn(obs):
        r = sum(-tf.reduce_sum(tf.square(obs[n] - params["mean"]), -1) for n in names) + obs["y"]
        return tf.placeholder_with_default(r, None) if kind == "rank" else r

    @zs.meta_bayesian_net()
    def net():
        bn = zs.BayesianNet()
        m = params["mean"]
        for n in names:
            bn.normal(n, mean=m, std=1., group_ndims=1)
        bn.normal("y", mean=tf.reduce_sum(m, -1), std=1.)
        return bn
    model = fn if f["model"] == "fn" else net()
    observed = {"y": tf.reduce_sum(tf.zeros_like(params["mean"]), -1)}
    e = f["entry"]
    if e in ("hmc", "ais"):
        kw = {"step_size": .1, "n_leapfrogs": 2.5 if kind == "leapfrogs" else 2}
        for key, val in (("adapt_step_size", f["step"] if kind != "switch" else arg),
                         ("adapt_mass", f["mass"] if kind != "mass" else arg)):
            if val != "absent":
                kw[key] = switch(val)
        h = zs.HMC(**kw)
        if e == "hmc":
            return h.sample(model, observed, lat)[0], lat
        if f["model"] == "meta" and kind == "rank":
            model = fn

        @zs.meta_bayesian_net()
        def prior():
            bn = zs.BayesianNet()
            for n in names:
                bn.normal(n, mean=params["mean"], std=2., group_ndims=1)
            return bn
        pr = prior()
        if kind == "rank":
            pr.log_joint = lambda bn: tf.placeholder_with_default(tf.reduce_sum(bn["a"], -1), None)
        a = AIS(model, pr, h, observed, lat, n_temperatures=2, n_adapt=1)
        return a, lat
    s = {"sgld": lambda: zs.SGLD(.01), "psgld": lambda: zs.PSGLD(.01),
         "sghmc1": lambda: zs.SGHMC(.01, second_order=False), "sghmc2": lambda: zs.SGHMC(.01, n_iter_resample_v=2),
         "sgnht": lambda: zs.SGNHT(.01)}[e]()
    return s.sample(model, observed, lat)[0], lat


def use_net(c):
    f, (kind, arg) = c["cfg"], c["fault"]

    @zs.meta_bayesian_net()
    def net():
        bn = zs.BayesianNet()
        x = bn.normal("x", mean=tf.zeros([2]), std=1.)
        bn.normal("y", mean=x, std=1.)
        bn.deterministic("d", x * 2.)
        return bn
    m = net()
    if f["entry"] == "logjoint":
        m.log_joint = {"zero": 0, "number": 3., "tensor": tf.constant(1.), "text": "lj", "list": [lambda b: 1.]}.get(
            arg, lambda bn: tf.constant(5.))
        return m.observe(y=tf.ones([2])).log_joint(), None
    bn = m.observe()
    ok = ["x", ["x", "y"], ("y", "x")][len(f["way"]) % 3] if f["way"] != "item" else "x"
    name = {"number": 3, "none": None, "bytes": b"x", "node": bn["x"], "tensor": tf.constant("x"),
            "within": ["x", 3], "nested": [["x"], "y"], "unknown": "q"}.get(arg, ok)
    if kind == "kind":
        name = "d"
    w = f["way"]
    if w == "get":
        r = bn.get(name)
    elif w == "item":
        r = bn[name]
    elif w == "cond":
        r = bn.cond_log_prob(name)
    elif w == "local":
        r = bn.local_log_prob(name)
    elif w == "outputs":
        r = bn.outputs(name)
    elif w == "queryboth":
        r = bn.query(name, outputs=True, local_log_prob=True)
    else:
        r = bn.query(name) if kind == "options" else bn.query(name, outputs=True)
    return [tf.convert_to_tensor(t) for q in (r if isinstance(r, (list, tuple)) else [r])
            for t in (q if isinstance(q, (list, tuple)) else [q])], None


def one(c, cnt):
    with tf.Graph().as_default():
        try:
            op, lat = (use_net if c["cfg"]["entry"] in ("logjoint", "lookup") else use_sampler)(c)
        except Exception as e:
            if not c["refused"]:
                return "refused with %s: %s" % (type(e).__name__, str(e)[:300])
            cnt["refused"] += 1
            return None
        if c["refused"]:
            return "accepted"
        cnt["accepted"] += 1
        try:
            with session(rewrite=False) as sess:
                sess.run(tf.global_variables_initializer())
                if isinstance(op, AIS):
                    if not np.isfinite(op.run(sess, {})):
                        return "the estimate is not finite"
                else:
                    sess.run(op)
                for n, v in (lat or {}).items():
                    if not np.all(np.isfinite(sess.run(v))):
                        return "%s is not finite after one run" % n
        except Exception as e:
            return "fails when run, with %s: %s" % (type(e).__name__, str(e)[:300])


def run(batch):
    bad, cnt = [], {"refused": 0, "accepted": 0}
    warnings.simplefilter("ignore")
    for c in batch:
        m = one(c, cnt)
        if m:
            bad.append({"msg": "%r, fault %s: %s" % (c["cfg"], " ".join(c["fault"]), m), "case": [c]})
    return {"bad": bad[:8], "n": len(batch), "count": cnt}
