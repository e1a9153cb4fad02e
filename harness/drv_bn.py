"""Replays histories of specs/BayesNet.tla into zhusuan's model-building API."""
from zsenv import tf, np, zs, session
from zhusuan.distributions.base import Distribution
from zhusuan.framework.bn import StochasticTensor
import itertools


class Probe(Distribution):
    """A user-defined distribution: its k-th draw is 100*k + 7*d + parent, its
    log density is d * (value + parent).  All entries of a draw are equal, so that
    the specification's numbers stand for tensors of every shape."""

    def __init__(self, d, parent, dtype=tf.float32, continuous=True, repar=False):
        self.d, self.draws = d, 0
        self.parent = tf.cast(parent, tf.float32)
        super(Probe, self).__init__(dtype, tf.float32, continuous, repar)

    def _value_shape(self):
        return tf.constant([], dtype=tf.int32)

    def _get_value_shape(self):
        return tf.TensorShape([])

    def _batch_shape(self):
        return tf.shape(self.parent)

    def _get_batch_shape(self):
        return self.parent.get_shape()

    def _sample(self, n_samples):
        self.draws += 1
        v = tf.cast(tf.constant(100. * self.draws + 7. * self.d) + self.parent, self.dtype)
        return tf.tile(tf.expand_dims(v, 0), tf.concat([[n_samples], tf.ones([tf.rank(v)], tf.int32)], 0))

    def _log_prob(self, given):
        return float(self.d) * (tf.cast(given, tf.float32) + self.parent)


class Sub(StochasticTensor):
    """what an old-style user's own node class looks like"""


class ModelFailure(Exception):
    pass


class Run(object):
    def __init__(self, h, form):
        self.h, self.i, self.form = h, 0, form
        self.nets, self.made, self.dists, self.metas = {}, {}, {}, {}
        self.cx = []
        self.checks = []      # (event, tensor, expected)
        self.bad = []

    def dtype(self, n):
        """the sample type of the node called n in this history"""
        by = 0 if any(e["op"] == "share" for e in self.h) else 5 * ord(n)
        return [tf.float32, tf.float32, tf.int32, tf.float64][(self.form + by) % 4]

    def obs(self, o):
        out = {}
        for k, (n, v) in enumerate(sorted(o.items())):
            if v == -1:
                continue
            f, t = (self.form * 5 + k * 3 + ord(n)) % 7, self.dtype(n)
            py = int(v) if t.is_integer else float(v)
            if f == 0:
                out[n] = py
            elif f == 1:
                out[n] = t.as_numpy_dtype(v)
            elif f == 2:
                out[n] = np.array(v, dtype=t.as_numpy_dtype)
            elif f == 3:
                out[n] = tf.constant(py, dtype=t)
            elif f == 4:
                out[n] = int(v)
            elif f == 5:
                out[n] = tf.Variable(py, dtype=t)
            else:
                # a node of a net of its own
                with_nothing = StochasticTensor(None, "elsewhere", Probe(1, tf.constant(0.), t), observation=py) \
                    if not self.cx else tf.constant(py, dtype=t)
                out[n] = with_nothing
        return out

    def probe(self, ev):
        """the distribution of a new node, and how many samples it is asked for"""
        x = self.form * 3 + (ev["v"] or 999) * 7
        d = Probe(ev["v"] or 999, self.parent(ev), self.dtype(ev["n"]), continuous=bool(x % 3), repar=bool(x % 2))
        return d, [None, 2, 1, "t", None, "v", None][x % 7]

    def n_samples(self, k):
        return (tf.constant(2) if k == "t" else tf.placeholder_with_default(2, []) if k == "v" else k)

    def meta(self, m):
        # one meta net per kind - observed again by its own model when the history
        # nests - or one per (kind, nesting level), reused by later observe() calls
        key = (m, len(self.frames) if self.form % 4 < 2 else 0)
        if key not in self.metas:
            if self.form % 2:
                @zs.meta_bayesian_net()
                def build(run):
                    return run.body()
                mb = build(self)
            else:
                @zs.meta_bayesian_net(scope="s%d_%d" % key)
                def build(run=None):
                    return run.body()
                mb = build(run=self)
            if m == 2:
                mb.log_joint = lambda bn: tf.constant(7000.)
            self.metas[key] = mb
        return self.metas[key]

    def body(self):
        """Runs inside observe(): consumes events up to the matching end/raise."""
        while self.i < len(self.h):
            ev = self.h[self.i]
            self.i += 1
            if ev["op"] == "end":
                return self.nets[ev["b"]]
            if ev["op"] == "raise":
                raise ModelFailure()
            self.step(ev)
        raise StopRun()

    def top(self):
        self.frames = []
        try:
            while self.i < len(self.h):
                ev = self.h[self.i]
                self.i += 1
                self.step(ev)
        except StopRun:
            pass
        return self.i == len(self.h) and not self.bad

    def fail(self, ev, msg):
        self.bad.append({"msg": "event %d %r: %s" % (self.i, ev, msg)})

    def want(self, ev, fn):
        """fn() yields tensor(s); compare with what the event demands."""
        try:
            r = fn()
        except Exception as e:
            if ev["e"] != "err":
                self.fail(ev, "raised %s: %s" % (type(e).__name__, str(e)[:200]))
            elif not isinstance(e, (ValueError, TypeError, KeyError)):
                self.fail(ev, "raised %s: %s" % (type(e).__name__, str(e)[:200]))
            return None
        if ev["e"] == "err":
            self.fail(ev, "accepted, the specification wants an error")
            return None
        if ev["e"] == "val":
            self.checks.append((self.i, ev, r, ev["v"]))
        elif ev["e"] == "vals":
            if len(r) != len(ev["v"]):
                self.fail(ev, "got %d results for %d names" % (len(r), len(ev["v"])))
            else:
                for t, v in zip(r, ev["v"]):
                    self.checks.append((self.i, ev, t, v))
        return r

    def parent(self, ev):
        if not ev["p"]:
            return tf.constant(0.)
        names = list(self.order[ev["b"]])
        t = self.made[(ev["b"], names[ev["p"] - 1])]
        # use the node the way a model does: as an argument of a tensor operation
        if t.dtype != tf.float32:
            t = tf.cast(t, tf.float32)
        return [lambda: t * 1., lambda: tf.identity(t), lambda: 0. + t,
                lambda: tf.convert_to_tensor(t)][self.form % 4]()

    order = None

    def audit(self, fin):
        """What the nets answer once the history is over."""
        for b, want in enumerate(fin, 1):
            if b not in self.nets:
                continue
            net = self.nets[b]
            ev = {"op": "afterwards", "b": b, "e": "val"}
            for v in want["joint"]:
                self.want(dict(ev, op="afterwards joint", v=v), net.log_joint)
            for k in want["nodes"]:
                n = k["name"]
                if k["kind"] == "s":
                    self.want(dict(ev, op="afterwards cond_log_prob", n=n, v=k["term"]), lambda: net.cond_log_prob(n))
                    if bool(self.made[(b, n)].is_observed()) != k["obs"]:
                        self.fail(dict(ev, op="afterwards is_observed", n=n), "is not %r" % k["obs"])
                self.want(dict(ev, op="afterwards value", n=n, v=k["val"]), lambda: tf.convert_to_tensor(net[n]))

    def step(self, ev):
        op, b, n = ev["op"], ev["b"], ev["n"]
        if self.order is None:
            self.order = {}
        if op == "net":
            o = self.obs(ev["o"])
            self.nets[b] = zs.BayesianNet(observed=o) if (o or self.form % 3 == 0) else zs.BayesianNet()
            self.order[b] = []
        elif op in ("stoch", "legacy"):
            d, k = self.probe(ev)
            kw = {} if k is None else {"n_samples": self.n_samples(k)}

            def mk():
                if op == "stoch":
                    return self.nets[b].stochastic(n, d, **kw)
                return (Sub if self.form % 3 else StochasticTensor)(None, n, d, **kw)
            if ev["e"] == "err":
                self.want(ev, mk)
                return
            r = self.want(ev, mk)
            if r is None:
                raise StopRun()
            self.made[(b, n)] = r
            self.dists[(b, n)] = (d, r)
            self.order[b].append(n)
        elif op == "share":
            first = self.made[(b, ev["m"])]
            _ = first.tensor
            d = self.dists[(b, ev["m"])][0]
            node = self.nets[b].stochastic(n, d)
            self.made[(b, n)] = node
            self.dists[(b, n)] = (d, node)
            self.order[b].append(n)
            self.want(ev, lambda: tf.convert_to_tensor(node))
        elif op == "det":
            t = None
            if ev["e"] != "err":
                p = self.parent(ev)
                t = tf.constant(float(ev["v"])) + p - tf.stop_gradient(p) if ev["p"] else tf.constant(float(ev["v"]))
                if ev["p"]:
                    # value is 1000 + (d-1) + parent's value
                    t = tf.constant(1000. + (ev["_d"] - 1)) + p
            r = self.want(ev, lambda: self.nets[b].deterministic(n, tf.constant(-5.) if t is None else t))
            if ev["e"] == "err":
                return
            if r is None:
                raise StopRun()
            self.made[(b, n)] = r
            self.order[b].append(n)
        elif op == "read":
            if ev["m"] == 3:
                self.want(ev, lambda: tf.convert_to_tensor(self.made[(b, n)]))
            else:
                r = self.want(ev, lambda: self.nets[b][n] if ev["m"] == 1 else self.nets[b].get(n))
                if r is not None and ev["e"] == "val":
                    if isinstance(r, StochasticTensor) and r is not self.made[(b, n)]:
                        self.fail(ev, "lookup returns another node than the one created under that name")
                    elif isinstance(r, StochasticTensor) and (r.name != n or r.bn is not self.nets[b]):
                        self.fail(ev, "node knows itself as %r in another net" % r.name)
        elif op == "isobs":
            r = self.made[(b, n)].is_observed()
            if bool(r) != bool(ev["v"]):
                self.fail(ev, "is_observed() is %r" % (r,))
        elif op == "clp":
            self.want(ev, lambda: self.nets[b].cond_log_prob(n))
        elif op == "clpmany":
            names = [n, ev["m"]]
            self.want(ev, lambda: self.nets[b].cond_log_prob(names if self.form % 2 else tuple(names)))
        elif op == "getmany":
            names = [n, ev["m"]]
            self.want(ev, lambda: self.nets[b].get(tuple(names) if self.form % 2 else names))
        elif op == "joint":
            self.want(ev, lambda: self.nets[b].log_joint())
        elif op == "setitem":
            def f():
                self.nets[b][n] = tf.constant(1.)
            self.want(ev, f)
        elif op == "begin":
            mb = self.meta(ev["m"])
            o = self.obs(ev["o"])
            start = self.i
            self.frames.append(ev)
            try:
                r = mb.observe(**o)
            except ModelFailure:
                last = self.h[self.i - 1]
                if last["op"] != "raise":
                    self.fail(last, "failure of an inner model surfaced here")
                    raise StopRun()
            else:
                last = self.h[self.i - 1]
                if last["op"] != "end":
                    self.fail(last, "observe() returned although its model function failed")
                    raise StopRun()
                if r is not self.nets[last["b"]]:
                    self.fail(last, "observe() did not return the net its model function returned")
            finally:
                self.frames.pop()
        elif op == "enter":
            self.nets[b].__enter__()
            self.cx.append(self.nets[b])
        elif op == "leave":
            self.cx.pop().__exit__(None, None, None)
        else:
            raise RuntimeError(op)


class StopRun(BaseException):
    pass


def annotate(h):
    """number the distributions/deterministic nodes as the specification does"""
    d = 0
    for ev in h:
        if ev["op"] in ("stoch", "legacy", "det") and ev["e"] != "err":
            d += 1
            ev["_d"] = d
    return h


def run(batch):
    bad, n = [], 0
    g = tf.Graph()
    with g.as_default():
        runs = []
        for case in batch:
            h = annotate(case["h"])
            form = sum(map(ord, str([(e["op"], e["n"], e["v"]) for e in h]))) % 12
            r = Run(h, form)
            if r.top():
                r.audit(case["fin"])
            while r.cx:
                r.cx.pop().__exit__(None, None, None)
            runs.append((case, r))
            n += 1
        # whatever a history leaves behind must not leak into the next one
        try:
            zs.BayesianNet.get_context()
            bad.append({"msg": "a net is still the current context after all histories ended"})
        except RuntimeError:
            pass
        flat = [(case, r, c) for case, r in runs for c in r.checks]
        with session() as sess:
            sess.run(tf.global_variables_initializer())
            got = sess.run([c[2] for _, _, c in flat])
        for (case, r, (i, ev, _, want)), v in zip(flat, got):
            if np.size(v) == 0 or not np.all(np.asarray(v) == want):
                r.bad.append({"msg": "event %d %r: the code gives %r, the specification %r" % (
                    i, ev, v, want)})
        for case, r in runs:
            allowed = {}
            for (b, nm), (d, node) in r.dists.items():
                allowed.setdefault(id(d), [d, 0, []])
                allowed[id(d)][1] += not node.is_observed()
                allowed[id(d)][2].append("%s of net %d" % (nm, b))
            for d, k, who in allowed.values():
                if d.draws > k:
                    r.bad.append({"msg": "%s: sampled %d times, not at most %d" % (" and ".join(who), d.draws, k)})
            for x in r.bad:
                x["case"] = [case]
                bad.append(x)
    return {"bad": bad, "n": n, "count": {"values_compared": len(flat)}}
