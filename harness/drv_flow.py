"""Replays specs/Flow.tla into zhusuan.transform."""
import re
from zsenv import tf, np, session
from zhusuan.transform import planar_normalizing_flow, inv_autoregressive_flow, linear_ar
import expr
from expr import mp, mpf

EPS = 2.0 ** -24


def deal(c):
    """weights per step, inputs, hidden inputs, log probabilities"""
    f, names, it = c["cfg"], c["weights"], iter(c["nums"])
    u = float(f["unit"][0]) / f["unit"][1]
    W = [{n: next(it) * u for n in names} for _ in range(f["n"])]
    rows = int(np.prod(f["lead"]))
    R = []
    for r in range(rows):
        z = [next(it) * .5 for _ in range(f["d"])]
        lp = next(it) * .75
        h = [next(it) * .5 for _ in range(f["d"])] if f["hid"] else None
        R.append((z, lp, h))
    return W, R


class Beyond(Exception):
    """beyond the range of float32"""


def program(c, W, row):
    """runs the equations of the specification for one row"""
    z, lp, h = row
    d = c["cfg"]["d"]
    z = list(z)
    total = expr.Val(mpf(lp), mpf(0))
    err = mpf(0)
    for w in W:
        env = dict(w)
        env.update({"z%d" % (i + 1): z[i] for i in range(d)})
        if h:
            env.update({"h%d" % (i + 1): h[i] for i in range(d)})
        try:
            ld = expr.evv(c["logdet"], env)
            sh = expr.evv(c["short"], env)
        except (ZeroDivisionError, ValueError, OverflowError):
            raise Beyond()
        if isinstance(sh.v, mpf) and abs(sh.v) > 60:
            raise Beyond()
        if not isinstance(ld.v, mpf) or not isinstance(sh.v, mpf) or \
                abs(ld.v - sh.v) > mpf(10) ** -12 * (1 + abs(ld.v)):
            raise RuntimeError("specification disagrees with itself: %s %s" % (ld.v, sh.v))
        err += sh.e + abs(total.v)
        total = expr.Val(total.v - ld.v, err)
        z = [expr.evv(e, env) for e in c["map"]]
    return [x if isinstance(x, expr.Val) else expr.Val(mpf(x), mpf(0)) for x in z], total


def assign(c, sess, W, vs):
    """gives the flow's variables the weights of the specification"""
    d, kind = c["cfg"]["d"], c["cfg"]["kind"]
    roles = ("b", "u", "w") if kind == "planar" else ("m", "s")
    groups = {r: [] for r in roles}
    for v in vs:
        nm = v.name.split("/")[-1].split(":")[0]
        for r in roles:
            if re.search(r"(^|_)%s(_|$)" % r, nm):
                groups[r].append(v)
    if any(len(groups[r]) != len(W) for r in roles) or len({id(v) for g in groups.values() for v in g}) != len(vs):
        # names tell nothing: the order of creation
        k = len(roles)
        groups = {r: vs[i::k] for i, r in enumerate(roles)}
    for t, w in enumerate(W):
        for r in roles:
            if kind == "planar":
                a = [w[r + str(i + 1)] for i in range(1 if r == "b" else d)]
            else:
                a = [w["%s%d_%d" % (r, i + 1, j + 1)] for i in range(d) for j in range(d)]
            v = groups[r][t]
            v.load(np.array(a, dtype=np.float32).reshape(v.get_shape().as_list()), sess)


class Net(object):
    """the user's autoregressive network, with weights chosen by the id it is given"""

    def __init__(self, c, W, Wt):
        self.c, self.W, self.Wt = c, W, Wt

    def __call__(self, name, id, z, hidden):
        d, kind = self.c["cfg"]["d"], self.c["cfg"]["kind"]
        w = self.Wt[id]
        mask = np.triu(np.ones((d, d), dtype=np.float32), 1)
        zz = tf.reshape(z, [-1, d])
        m = tf.matmul(zz, w["m"] * mask) + w["c"]
        s = tf.matmul(zz, w["s"] * mask) + w["f"]
        m, s = tf.reshape(m, tf.shape(z)), tf.reshape(s, tf.shape(z))
        if hidden is not None:
            m = m + hidden
        return m, (s if kind == "gru" else tf.exp(s))


def one(c, k, bad):
    f = c["cfg"]
    W, R = deal(c)
    d, lead, kind = f["d"], list(f["lead"]), f["kind"]
    x = np.array([r[0] for r in R], dtype=np.float32).reshape(lead + [d])
    lp = np.array([r[1] for r in R], dtype=np.float32).reshape(lead)
    hid = np.array([r[2] for r in R], dtype=np.float32).reshape(lead + [d]) if f["hid"] else None
    n = f["n"]
    fault = f["fault"]
    if fault == "iters":
        n = float(n)
    elif fault == "rank1":
        x, lp = x.reshape(-1, d)[0], lp.reshape(-1)[0]
        hid = None if hid is None else hid.reshape(-1, d)[0]
    elif fault == "logrank":
        lp = lp[None] if k % 2 else lp[0]
    elif fault == "lead":
        lp = np.concatenate([lp, lp[..., :1]], -1)
    elif fault == "lead1":
        lp = lp[..., :1]
    feed = {}

    def arg(a, shape):
        if f["mode"] == "known":
            return [lambda: tf.constant(a), lambda: a.tolist() if np.ndim(a) else float(a), lambda: a][k % 3]()
        p = tf.placeholder(tf.float32, shape)
        feed[p] = a
        return p
    st = [None] * (len(np.shape(x)) - 1) + [None if fault == "lastdim" else d]
    with tf.Graph().as_default():
        try:
            xt, lt = arg(x, st), arg(lp, None)
            if isinstance(xt, tf.Tensor) is False:
                xt = tf.constant(xt, dtype=tf.float32) if not fault == "none" or k % 2 else xt
            ht = None if hid is None else arg(hid, st)
            Wt = None
            if kind == "planar":
                z, l = planar_normalizing_flow(xt, lt, n)
            elif kind.startswith("linear"):
                kw = {"update": "gru"} if kind == "linear.gru" else ({} if k % 2 else {"update": "normal"})
                z, l = inv_autoregressive_flow(xt, ht, lt, linear_ar, n, **kw)
            else:
                Wt = [{r: tf.constant([[w["%s%d_%d" % (r, i + 1, j + 1)] for j in range(d)] for i in range(d)],
                                      dtype=tf.float32) for r in "ms"} for w in W]
                for wt, w in zip(Wt, W):
                    wt.update({r: tf.constant([w[r + str(i + 1)] for i in range(d)], dtype=tf.float32) for r in "cf"})
                z, l = inv_autoregressive_flow(xt, ht, lt, Net(c, W, Wt), n, update=kind)
            vs = tf.trainable_variables()
            want_grad = fault == "none" and n and len(R) <= 2 and isinstance(xt, tf.Tensor) and k % 4 == 0 and f["unit"][0] <= 2
            grads = []
            if want_grad:
                cz = np.arange(1, x.size + 1, dtype=np.float32).reshape(x.shape) * .5
                cl = np.arange(1, lp.size + 1, dtype=np.float32).reshape(lp.shape)
                obj = tf.reduce_sum(cz * z) + tf.reduce_sum(cl * l)
                grads = tf.gradients(obj, [xt])
                if any(g is None for g in grads):
                    bad.append({"msg": "%s: no gradient flows from the results to the samples" % f})
                    return 0
            with session(rewrite=False) as sess:
                sess.run(tf.global_variables_initializer())
                if kind in ("planar", "linear", "linear.gru") and fault == "none":
                    if len(vs) != n * (3 if kind == "planar" else 2):
                        bad.append({"msg": "%s: %d trainable variables for %d steps" % (f, len(vs), n)})
                        return 0
                    assign(c, sess, W, vs)
                gz, gl, gg = sess.run([z, l, grads], feed)
        except Exception as e:
            if not c["refused"]:
                bad.append({"msg": "%s weights %s: raised %s: %s" % (f, W, type(e).__name__, str(e)[:300])})
            return 1
        if c["refused"]:
            bad.append({"msg": "%s: accepted" % f})
            return 1
        ss = [t.get_shape() for t in (z, l)]
    for s, g in zip(ss, (gz, gl)):
        if not s.is_compatible_with(g.shape):
            bad.append({"msg": "%s: static shape %s of a result of shape %s" % (f, s, g.shape)})
    if gz.shape != x.shape or gl.shape != lp.shape:
        bad.append({"msg": "%s: results of shapes %s, %s for inputs %s, %s" % (f, gz.shape, gl.shape, x.shape, lp.shape)})
        return 1
    cnt = 0
    for r, row in enumerate(R):
        try:
            zs_, tot = program(c, W, row)
        except Beyond:
            continue
        if max(abs(q.v) for q in zs_) > 1e15:
            continue
        for i, (w, g) in enumerate(zip(zs_ + [tot], list(gz.reshape(-1, d)[r]) + [gl.reshape(-1)[r]])):
            tol = float(8 * EPS * w.e) + 1e-6
            if tol > .05 * (1 + abs(float(w.v))):
                continue
            cnt += 1
            if not abs(float(g) - float(w.v)) <= tol:
                bad.append({"msg": "%s weights %s input %s: %s is %r, the specification has %r (tolerance %.2g)" % (
                    f, W, row, "coordinate %d" % (i + 1) if i < d else "log probability", float(g), float(w.v), tol)})
                return cnt
    if want_grad:
        h = mpf(10) ** -12
        for r, row in enumerate(R):
            def objective(zr):
                zo, t = program(c, W, (zr, row[1], row[2]))
                return sum(mpf(float(a)) * q.v for a, q in zip(cz.reshape(-1, d)[r], zo)) + mpf(float(cl.reshape(-1)[r])) * t.v
            try:
                z0, _ = program(c, W, row)
            except Beyond:
                continue
            if max(q.e * EPS / (1 + abs(q.v)) for q in z0) > 1e-3 or max(abs(q.v) for q in z0) > 1e6:
                continue
            for i in range(d):
                up, dn = [mpf(q) for q in row[0]], [mpf(q) for q in row[0]]
                up[i] += h
                dn[i] -= h
                w = float((objective(up) - objective(dn)) / (2 * h))
                g = float(gg[0].reshape(-1, d)[r][i])
                cnt += 1
                if not abs(w - g) <= 1e-2 * (1 + abs(w)) + 1e-3 * max(abs(float(q)) for q in gg[0].ravel()):
                    bad.append({"msg": "%s weights %s input %s: gradient of the results along coordinate %d is %r, the map has %r" % (
                        f, W, row, i + 1, g, w)})
                    return cnt
    return cnt


def run(batch):
    bad, n, cnt = [], 0, 0
    for c in batch:
        k = len(bad)
        cnt += one(c, sum(c["nums"]) % 12 if len(set(c["nums"])) > 1 else
                   sum(map(ord, str(sorted(c["cfg"].items())))) % 12, bad)
        for b in bad[k:]:
            b["case"] = [c]
        n += 1
    return {"bad": bad, "n": n, "count": {"values_compared": cnt}}
