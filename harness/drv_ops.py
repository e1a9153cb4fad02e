"""Replays specs/NodeOps.tla: expressions over nodes."""
import operator
import warnings
from zsenv import tf, np, zs, session
from zhusuan.distributions.base import Distribution
from zhusuan.utils import TensorArithmeticMixin

DT = {"i": tf.int32, "f": tf.float32, "b": tf.bool, "d": tf.float64}
NP = {"i": np.int32, "f": np.float32, "b": np.bool_, "d": np.float64}
OPS = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "truediv": operator.truediv,
       "floordiv": operator.floordiv, "mod": operator.mod, "pow": operator.pow, "lt": operator.lt,
       "le": operator.le, "gt": operator.gt, "ge": operator.ge, "and": operator.and_, "or": operator.or_,
       "xor": operator.xor, "neg": operator.neg, "abs": abs, "invert": operator.invert,
       "first": lambda t: t[0], "last": lambda t: t[-1], "rev": lambda t: t[::-1]}
SYM = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "floordiv": "//", "mod": "%", "pow": "**", "lt": "<",
       "le": "<=", "gt": ">", "ge": ">=", "and": "&", "or": "|", "xor": "^"}


class Fixed(Distribution):
    """draws the given value"""

    def __init__(self, t):
        self.t, self.draws = t, 0
        super(Fixed, self).__init__(t.dtype, tf.float32, True, False)

    def _value_shape(self):
        return tf.constant([], dtype=tf.int32)

    def _get_value_shape(self):
        return tf.TensorShape([])

    def _batch_shape(self):
        return tf.shape(self.t)

    def _get_batch_shape(self):
        return self.t.get_shape()

    def _sample(self, n_samples):
        self.draws += 1
        return tf.expand_dims(tf.identity(self.t), 0)

    def _log_prob(self, given):
        return tf.zeros(tf.shape(given), dtype=tf.float32)


class Mixed(TensorArithmeticMixin):
    def __init__(self, t):
        self.tensor = t


def _convert(v, dtype=None, name=None, as_ref=False):
    if dtype and not dtype.is_compatible_with(v.tensor.dtype):
        raise ValueError("type mismatch")
    return v.tensor


tf.register_tensor_conversion_function(Mixed, _convert)


def num(p, q):
    return float(p) / q if q else float("nan") if p == 0 else float("inf") * p


def same(g, w):
    g, w = np.asarray(g), np.asarray(w)
    return g.shape == w.shape and bool(((g == w) | ((g != g) & (w != w))).all())


def raw(e):
    """the numbers of a leaf as numpy"""
    v = [num(p, q) for p, q in e["v"]]
    a = np.array(v).astype(NP[e["ty"]])
    return a[0] if len(v) == 1 else a


def leaf(e, k, i):
    kind, a = e["f"], raw(e)
    if kind == "py":
        return a.item()
    if kind == "np":
        return a
    if kind == "list":
        return a.tolist()
    if kind == "tensor":
        return tf.constant(a)
    if kind == "mix":
        return Mixed(tf.constant(a))
    bn_obs = {"x%d" % i: a} if kind == "obs" else None
    if kind == "obj":
        # one latent value 0 with log q = 0: the objective is the log joint
        val = float(a)
        lat = {"z": [tf.constant(0.), tf.constant(0.)]}
        if k % 2:
            return zs.variational.elbo(lambda o: tf.constant(val) + o["z"], observed={}, latent=lat)
        return zs.variational.iw_objective(lambda o: tf.constant([val, val]) + o["z"], observed={},
                                           latent={"z": [tf.constant([0., 0.]), tf.constant([0., 0.])]}, axis=0)
    bn = zs.BayesianNet(observed=bn_obs)
    return bn.stochastic("x%d" % i, Fixed(tf.constant(a)))


def text(prog):
    st = []
    for e in prog:
        if e["op"] == "leaf":
            st.append("%s(%s)" % (e["f"], ",".join("%g" % num(p, q) for p, q in e["v"])))
        elif e["op"] == "bin":
            b, a = st.pop(), st.pop()
            st.append("(%s %s %s)" % (a, SYM[e["f"]], b))
        else:
            st.append("%s(%s)" % (e["f"], st.pop()))
    return " ".join(st)


def evaluate(prog, k):
    st, first, nodes = [], None, []
    for i, e in enumerate(prog):
        if e["op"] == "leaf":
            n = leaf(e, k, i)
            if e["f"] in ("node", "obs", "obj"):
                nodes.append(n)
                if first is None:
                    first = (n, e)
            st.append(n)
        elif e["op"] == "bin":
            b = st.pop()
            a = st.pop()
            st.append(OPS[e["f"]](a, b))
        else:
            st.append(OPS[e["f"]](st.pop()))
    return st[-1], first, nodes


def misc(c, node, e, k, sess):
    """what holds for any node"""
    out, a = c["out"], raw(e)
    msgs = []

    def need(ok, msg):
        if not ok:
            msgs.append(msg)

    def refused(f, types=(TypeError,)):
        try:
            f()
        except types:
            return True
        except Exception as ex:
            return "raised %s" % type(ex).__name__
        return False
    t = node.tensor
    if out == "identity":
        need((node == node) is True and (node != node) is False, "a node is not equal to itself")
        need((node == t) is False, "a node equals another object")
        need(node in [node] and node in {node: 1} and hash(node) == hash(node), "a node cannot be found in a collection")
        twin = Mixed(t)
        need((node == twin) is False and node not in [twin], "a node equals another node of the same value")
        need(len({node, twin, node}) == 2, "a set of two nodes has %d elements" % len({node, twin, node}))
    elif out == "nobool":
        need(refused(lambda: bool(node)) is True, "truth value: %s" % refused(lambda: bool(node)))
        need(refused(lambda: 1 if node else 0) is True, "truth value accepted")
        need(refused(lambda: not node) is True, "negation accepted")
    elif out == "noiter":
        need(refused(lambda: iter(node)) is True, "iteration accepted")
        need(refused(lambda: list(node)) is True, "iteration accepted")
        need(refused(lambda: [x for x in node]) is True, "iteration accepted")
    elif out == "shape":
        if hasattr(node, "get_shape"):
            need(tuple(node.get_shape().as_list()) == a.shape, "shape %s" % node.get_shape())
            need(node.dtype == DT[e["ty"]], "dtype %s" % node.dtype)
            need(tuple(node.shape.as_list()) == a.shape, "shape %s" % node.shape)
    elif out == "convert":
        r = tf.convert_to_tensor(node)
        need(r.dtype == DT[e["ty"]] and same(sess.run(r), a), "conversion gives %s" % r)
        need(same(sess.run(tf.convert_to_tensor(node, dtype=DT[e["ty"]])), a), "conversion to its own type")
        wrong = tf.float32 if e["ty"] != "f" else tf.int32
        need(refused(lambda: tf.convert_to_tensor(node, dtype=wrong), (ValueError, TypeError)) is True, "conversion to another type accepted")
    elif out == "function":
        r = [tf.identity(node), tf.stack([node, node]), tf.tile(tf.reshape(node, [1, -1]), [2, 1]),
             tf.where(tf.constant(True), tf.identity(node), node), tf.expand_dims(node, 0), tf.concat([tf.reshape(node, [-1]), tf.reshape(node, [-1])], 0),
             tf.cast(node, tf.float64)]
        want = [a, np.stack([a, a]), np.tile(a.reshape(1, -1), [2, 1]), a, a[None], np.concatenate([a.reshape(-1)] * 2), a.astype(np.float64)]
        for g, w in zip(sess.run(r), want):
            need(same(g, w), "as an argument of a function: %s instead of %s" % (g, w))
    elif out == "fetch":
        g1 = sess.run(node)
        g2 = sess.run([node, t])
        g3 = sess.run({"a": node, "b": [node]})
        for g in (g1, g2[0], g2[1], g3["a"], g3["b"][0]):
            need(same(g, a), "session.run gives %s" % (g,))
    return msgs


def run(batch):
    warnings.simplefilter("ignore")
    bad, n, cnt = [], 0, 0
    runs = []
    with tf.Graph().as_default():
        for c in batch:
            n += 1
            k = sum(map(ord, str([(e["op"], e["f"]) for e in c["prog"]])))
            try:
                r, first, nodes = evaluate(c["prog"], k)
            except Exception as e:
                if c["out"] != "err":
                    bad.append({"msg": "%s: raised %s: %s" % (text(c["prog"]), type(e).__name__, str(e)[:200]), "case": [c]})
                elif not isinstance(e, (TypeError, ValueError)):
                    bad.append({"msg": "%s: refused by %s: %s" % (text(c["prog"]), type(e).__name__, str(e)[:200]), "case": [c]})
                continue
            if c["out"] == "err":
                bad.append({"msg": "%s: accepted, gives %s" % (text(c["prog"]), r), "case": [c]})
                continue
            runs.append((c, k, r, first))
        with session(rewrite=False) as sess:
            sess.run(tf.global_variables_initializer())
            plain = [x for x in runs if x[0]["out"] == "run"]
            for c, k, r, _ in plain:
                if not isinstance(r, tf.Tensor):
                    bad.append({"msg": "%s: the result is a %s" % (text(c["prog"]), type(r).__name__), "case": [c]})
            plain = [x for x in plain if isinstance(x[2], tf.Tensor)]
            got = sess.run([x[2] for x in plain])
            todo = [(c, r, g) for (c, k, r, _), g in zip(plain, got)]
            for c, k, r, first in runs:
                if c["out"] == "feed":
                    node, e = first
                    v = raw(dict(e, v=c["fed"]))
                    try:
                        todo.append((c, r, sess.run(r, {node: v})))
                    except Exception as ex:
                        bad.append({"msg": "%s with %s fed: raised %s: %s" % (text(c["prog"]), v, type(ex).__name__, str(ex)[:200]), "case": [c]})
                elif c["out"] not in ("run",):
                    try:
                        for m in misc(c, r, c["prog"][0], k, sess):
                            bad.append({"msg": "%s %s: %s" % (text(c["prog"]), c["out"], m), "case": [c]})
                        cnt += 1
                    except Exception as ex:
                        bad.append({"msg": "%s %s: raised %s: %s" % (text(c["prog"]), c["out"], type(ex).__name__, str(ex)[:200]), "case": [c]})
            for c, r, g in todo:
                cnt += 1
                w = np.array([num(p, q) for p, q in c["v"]]).astype(NP[c["ty"]])
                w = w[0] if len(w) == 1 else w
                dt = tf.convert_to_tensor(r).dtype
                if getattr(dt, "base_dtype", dt) != DT[c["ty"]]:
                    bad.append({"msg": "%s: type %s instead of %s" % (text(c["prog"]), dt, DT[c["ty"]]), "case": [c]})
                elif not same(g, w):
                    bad.append({"msg": "%s (%s): %s instead of %s" % (text(c["prog"]), c["out"], g, w), "case": [c]})
    return {"bad": bad, "n": n, "count": {"values_compared": cnt}}
