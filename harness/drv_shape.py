"""Replays specs/DistShape.tla: shapes, broadcasting and grouping of
distributions, with shapes known statically, partially or not at all."""
import hashlib
import json
import numpy as np
from zsenv import tf, zs, session
import expr
import dist_common as dc
from dist_common import D

ERR = [-1]


def hold(a, mode, feeds, h):
    """array -> tensor whose static shape is known / partly known / unknown"""
    a = np.asarray(a)
    if mode == "static":
        return tf.constant(a)
    if mode == "unknown":
        p = tf.placeholder(a.dtype, shape=None)
    else:
        shp = [None if (h >> i) & 1 else d for i, d in enumerate(a.shape)]
        p = tf.placeholder(a.dtype, shape=shp)
    feeds[p] = a
    return p


class One(object):
    def __init__(self, case):
        self.case = case
        self.bad, self.fetch, self.post = [], [], []
        h = int(hashlib.sha1(json.dumps(case["law"] + str(case["given"]) + str(case["params"]) + case["mode"]
                                        + str(case["g"])).encode()).hexdigest()[:8], 16)
        self.h = h
        self.rng = np.random.RandomState(h)
        self.feeds, self.seen = {}, {}

    def fail(self, msg):
        c = self.case
        self.bad.append({"msg": "%s params %s given %s group_ndims %s shapes %s: %s" % (
            c["law"], [(p[0], p[2]) for p in c["params"]], c["given"], c["g"], c["mode"], msg), "case": [c]})

    def build(self):
        c, rng = self.case, self.rng
        law, mode = c["law"], c["mode"]
        self.fdt = np.float64 if self.h % 3 == 0 else np.float32
        self.arr = {}
        tens = {}
        for i, (name, kind, shape) in enumerate(c["params"]):
            if kind == "n":
                self.arr[name] = dc.NEXP
                tens[name] = dc.NEXP if mode == "static" or self.h % 2 else hold(
                    np.int32(dc.NEXP), mode, self.feeds, 0)
            else:
                self.arr[name] = dc.param(rng, law, name, shape, self.fdt)
                # one known and one unknown parameter is a configuration of its own
                m = "static" if (mode == "partial" and (self.h >> (i + 3)) % 4 == 0) else mode
                tens[name] = hold(self.arr[name], m, self.feeds, self.h >> (5 + i))
        # several draws: which entries of values are used must not matter
        self.x = dc.value(rng, law, c["given"], c["K"])
        sdt = None
        if law in dc.DISCRETE:
            opts = [tf.int32, tf.float32, tf.int64, tf.float64] if law == "Categorical" else \
                [tf.int32, tf.float32, tf.int64, tf.float64, tf.int16]
            sdt = opts[(self.h >> 4) % len(opts)]
            self.x = self.x.astype(sdt.as_numpy_dtype)
        else:
            self.x = self.x.astype(self.fdt)
        gnd = c["g"]
        if mode != "static" and self.h % 5 == 0:
            gnd = hold(np.int32(gnd), "static" if self.h % 2 else "unknown", self.feeds, 0)
        self.d = dc.make(law, tens, gnd, sdt)
        given = hold(self.x, mode if (self.h >> 9) % 3 else "static", self.feeds, self.h >> 12)
        return given

    def add(self, what, tensor, check):
        self.fetch.append(tensor)
        self.post.append((what, check, tensor))

    def go(self):
        """builds everything; returns True if it is to be run"""
        c = self.case
        must_fail = c["batch"] == ERR
        try:
            given = self.build()
        except Exception as e:
            if not must_fail:
                self.fail("constructing raised %s: %s" % (type(e).__name__, str(e)[:300]))
            return False
        d = self.d
        static = False
        if not must_fail:
            gb, gv = d.get_batch_shape(), d.get_value_shape()
            self.static("get_batch_shape()", gb, c["batch"], static)
            self.static("get_value_shape()", gv, c["value"], static)
            self.add("batch_shape", d.batch_shape, lambda v: list(v) == c["batch"] or self.fail(
                "batch_shape is %s, the specification says %s" % (list(v), c["batch"])))
            self.add("value_shape", d.value_shape, lambda v: list(v) == c["value"] or self.fail(
                "value_shape is %s, the specification says %s" % (list(v), c["value"])))
        if c["sample"] != ERR:
            ns = None if c["ns"] == 0 else c["ns"]
            if ns and c["mode"] != "static" and self.h % 2:
                ns = hold(np.int32(ns), ["static", "unknown"][(self.h >> 2) % 2], self.feeds, 0)
            try:
                s = d.sample() if ns is None and self.h % 2 else d.sample(ns)
            except Exception as e:
                self.fail("sample raised %s: %s" % (type(e).__name__, str(e)[:300]))
                return False
            self.static("sample", s.get_shape(), c["sample"], static)
            self.add("sample", s, lambda v: list(v.shape) == c["sample"] or self.fail(
                "sample has shape %s, the specification says %s" % (list(v.shape), c["sample"])))
            if s.dtype != d.dtype:
                self.fail("sample has dtype %s, the distribution says %s" % (s.dtype, d.dtype))
        err = c["out"] == ERR
        try:
            lp, pr = d.log_prob(given), d.prob(given)
        except Exception as e:
            if not err:
                self.fail("log_prob/prob raised %s: %s" % (type(e).__name__, str(e)[:300]))
            return not must_fail and False
        if err:
            self.expect_error = (lp, pr)
            return True
        self.static("log_prob", lp.get_shape(), c["out"], False)
        self.static("prob", pr.get_shape(), c["out"], False)
        self.add("log_prob", lp, lambda v: self.density(v, False))
        self.add("prob", pr, lambda v: self.density(v, True))
        return True

    expect_error = None

    def static(self, what, ts, want, exact):
        if not ts.is_compatible_with(want):
            self.fail("static shape of %s is %s, the specification says %s" % (what, ts, want))
        elif exact and ts.as_list() != want:
            self.fail("static shape of %s is only known as %s (%s)" % (what, ts, want))

    def density(self, v, isprob):
        c = self.case
        if list(v.shape) != c["out"]:
            self.fail("%s has shape %s, the specification says %s" % (
                "prob" if isprob else "log_prob", list(v.shape), c["out"]))
            return
        v = np.asarray(v).reshape(-1)
        eps = np.finfo(self.fdt).eps
        for o, members in enumerate(c["members"]):
            tot = err = 0.
            for m in members:
                m = tuple(m)
                if m not in self.seen:
                    self.seen[m] = expr.ev_for(c["ld"], dc.env_of(c, self.arr, self.x, m), eps)
                a, e = self.seen[m]
                tot += a
                err += e + abs(a)
            tol = 24 * eps * err
            if isprob:
                want, tol = np.exp(tot), np.exp(tot) * tol
            else:
                want = tot
            if not abs(float(v[o]) - want) <= tol + 1e-37:
                self.fail("entry %d of %s is %r, the specification says %r (tolerance %.1e)" % (
                    o, "prob" if isprob else "log_prob", float(v[o]), want, tol))
                return


def run(batch):
    bad, n, nerr = [], 0, 0
    with tf.Graph().as_default():
        tf.set_random_seed(7)
        runs = []
        for case in batch:
            o = One(case)
            ok = o.go()
            runs.append((o, ok))
            n += 1
        with session(rewrite=False) as sess:
            normal = [o for o, ok in runs if ok and o.expect_error is None and not o.bad]
            for o, ok in runs:
                if ok and o.expect_error is not None:
                    nerr += 1
                    for t in o.expect_error:
                        try:
                            v = sess.run(t, o.feeds)
                            o.fail("accepted (result shape %s), the specification says these shapes do not fit" % (
                                list(np.shape(v)),))
                        except (tf.errors.InvalidArgumentError, ValueError):
                            pass
            fetches = [o.fetch for o in normal]
            feeds = {}
            for o in normal:
                feeds.update(o.feeds)
            try:
                vals = sess.run(fetches, feeds)
            except Exception:
                vals = None
            for i, o in enumerate(normal):
                if vals is not None:
                    vs = vals[i]
                else:
                    try:
                        vs = sess.run(o.fetch, o.feeds)
                    except Exception as e:
                        o.fail("running raised %s: %s" % (type(e).__name__, str(e)[:300]))
                        continue
                for (what, check, t), v in zip(o.post, vs):
                    check(v)
                    if not t.get_shape().is_compatible_with(np.shape(v)):
                        o.fail("%s: static shape %s, run-time shape %s" % (what, t.get_shape(), np.shape(v)))
        for o, ok in runs:
            bad += o.bad
    return {"bad": bad, "n": n, "count": {"error_cases_run": nerr}}
