"""Replays specs/Standin.tla: Implicit and Empirical."""
import warnings
import numpy as np
from zsenv import tf, zs, session
from zhusuan.legacy.distributions import special

DT = {"i": np.int32, "f": np.float32, "d": np.float64}
ANY, INF = -777, 999999


def run(batch):
    warnings.simplefilter("ignore")
    bad, cnt = [], {}
    for c in batch:
        cnt[c["answer"]] = cnt.get(c["answer"], 0) + 1
        with tf.Graph().as_default():
            m = one(c)
        if m:
            bad.append({"msg": "%s %s: %s" % (c["ask"], c["cfg"], m), "case": [c]})
    return {"bad": bad[:10], "n": len(batch), "count": cnt}


def one(c):
    cfg = c["cfg"]
    a = (np.arange(int(np.prod(cfg["shape"], dtype=int))) + 1).reshape(cfg["shape"]).astype(DT[cfg["dt"]])
    vs = None if cfg["vr"] < 0 else c["value"]
    pick = sum(map(ord, repr(c)))
    if pick % 3 == 0 and vs is not None:
        vs = tf.TensorShape(vs)
    feeds = {}

    def hold(x):
        return tf.constant(x)
    g = cfg["group"] if pick % 2 else tf.constant(cfg["group"])
    kw = dict(value_shape=vs, group_ndims=g)
    cont = {"default": None, "yes": True, "no": False}[cfg["cont"]]
    bshape = c["batch"]
    if c["ask"] == "node":
        obs = a + 5
        bn = zs.BayesianNet(observed={"x": obs} if cfg["nodein"] == "observed" else None)
        with bn:
            node = (zs.Implicit("x", hold(a), **kw) if cfg["kind"] == "implicit" else
                    zs.Empirical("x", DT[cfg["dt"]], bshape, is_continuous=cont, **kw))
        if bn["x"] is not node or node.name != "x":
            return "the net does not have the node"
        if node.is_observed() != (cfg["nodein"] == "observed"):
            return "is_observed() is %r" % node.is_observed()
        d = node.dist
        ask = lambda: node.tensor
    else:
        d = (special.Implicit(hold(a), **kw) if cfg["kind"] == "implicit" else
             special.Empirical(DT[cfg["dt"]], bshape, is_continuous=cont, **kw))
        given = np.broadcast_to(a, tuple(cfg["lead"]) + a.shape).copy()
        flat = given.reshape((-1, a.size))
        for k in cfg["off"]:
            flat[-1, k] += 1 + k
        ask = {"sample": lambda: d.sample(), "sample1": lambda: d.sample(1), "sample3": lambda: d.sample(3),
               "prob": lambda: d.prob(hold(given)), "log_prob": lambda: d.log_prob(hold(given))}[c["ask"]]
    # what the law says of itself
    if d.dtype != tf.as_dtype(DT[cfg["dt"]]):
        return "its type is %r" % d.dtype
    if bool(d.is_continuous) != c["continuous"]:
        return "is_continuous is %r" % d.is_continuous
    if d.is_reparameterized:
        return "is_reparameterized is %r" % d.is_reparameterized
    if vs is not None:
        if d.get_value_shape().as_list() != c["value"]:
            return "its value shape is %s" % d.get_value_shape()
        if d.get_batch_shape().as_list() != bshape:
            return "its batch shape is %s" % d.get_batch_shape()
    try:
        t = ask()
        with session(rewrite=False) as sess:
            v = sess.run(t, feeds)
    except Exception as e:
        if c["answer"] == "refused" and isinstance(e, (ValueError, TypeError)):
            return None
        return "raised %s: %s" % (type(e).__name__, str(e)[:200])
    if c["answer"] == "refused":
        return "gave a value of shape %s" % (np.shape(v),)
    if c["answer"] == "density":
        if list(np.shape(v)) != list(c["pshape"]):
            return "has shape %s, not %s" % (list(np.shape(v)), c["pshape"])
        want = np.array(c["p"], float)
        known = want != ANY
        want = np.where(want == INF, np.inf, want)
        if c["ask"] == "log_prob":
            with np.errstate(divide="ignore", invalid="ignore"):
                want = np.log(want)
        got = np.asarray(v, float).reshape(-1)
        if not np.array_equal(got[known], want[known]):
            return "is %s, not %s" % (got.tolist(), want.tolist())
        return None
    want = {"tensor": a, "tensor1": a[None], "observation": a + 5}[c["answer"]]
    if np.shape(v) != want.shape or not np.array_equal(v, want):
        return "is %s, not %s" % (np.asarray(v).tolist(), want.tolist())
