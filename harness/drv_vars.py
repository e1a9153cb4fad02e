"""Replays specs/Vars.tla: which variables repeated calls use."""
import warnings
from zsenv import tf, np, zs, session


class Run(object):
    def __init__(self, case):
        self.c, self.inv, self.ths, self.got, self.bad, self.inner = case, 0, [], [], [], None

    def weight(self, kind):
        self.inv += 1
        if kind == "new":
            return tf.Variable(100. * self.inv, name="w")
        return tf.get_variable("w", shape=[], initializer=tf.constant_initializer(100. * self.inv))

    def make(self, ev):
        run, kind, arg = self, ev["kind"], float(ev["arg"])

        def model(offset, times=1.):
            w = run.weight(kind)
            bn = zs.BayesianNet()
            bn.deterministic("w", w * times + offset)
            bn.normal("x", 0., std=1.)
            run.got.append((w, bn))
            if run.inner is not None:
                t, run.inner = run.inner, None
                run.call(t, -1)
            return bn

        def function(offset):
            w = run.weight(kind)
            run.got.append((w, w + offset))
            return w + offset
        if ev["sort"] == "fun":
            dec = zs.reuse_variables(ev["scope"]) if ev["arg"] % 2 else zs.reuse(ev["scope"])
            return ("fun", dec(function), arg)
        scope = ev["scope"] or None
        form = (ev["arg"] + len(ev["scope"])) % 3
        if form == 0:
            mb = zs.MetaBayesianNet(model, args=[arg], scope=scope, reuse_variables=ev["reuse"])
        elif form == 1:
            mb = zs.meta_bayesian_net(scope=scope, reuse_variables=ev["reuse"])(model)(arg, times=1.)
        else:
            mb = zs.meta_bayesian_net(scope, ev["reuse"])(model)(offset=arg)
        return ("meta", mb, arg)

    def call(self, t, o):
        sort, th, arg = self.ths[t - 1]
        if sort == "fun":
            return th(arg)
        return th.observe(**({} if o == -1 else {"x": float(o)}))

    def go(self):
        for i, ev in enumerate(self.c["h"]):
            n = len(self.got)
            try:
                if ev["op"] == "make":
                    self.ths.append(self.make(ev))
                elif ev["op"] == "call":
                    r = self.call(ev["t"], ev["o"])
                    if self.ths[ev["t"] - 1][0] == "meta" and self.got and r is not self.got[-1][1]:
                        self.bad.append("event %d: observe() did not return the net of its model" % (i + 1))
                else:
                    self.inner = ev["u"]
                    self.call(ev["t"], -1)
            except ValueError as e:
                if ev["e"] != "err":
                    self.bad.append("event %d %s: raised ValueError: %s" % (i + 1, ev, str(e)[:200]))
                    return
                del self.got[n:]
                continue
            except Exception as e:
                self.bad.append("event %d %s: raised %s: %s" % (i + 1, ev, type(e).__name__, str(e)[:200]))
                return
            if ev["e"] == "err":
                self.bad.append("event %d %s: accepted" % (i + 1, ev))
                return


def one(c):
    with tf.Graph().as_default():
        r = Run(c)
        r.go()
        if r.bad:
            return r.bad
        if len(r.got) != len(c["calls"]):
            return ["%d calls built something, %d expected" % (len(r.got), len(c["calls"]))]
        vs = tf.global_variables()
        if len(vs) != c["nvar"]:
            return ["the history makes %d variables (%s) instead of %d" % (len(vs), [v.name for v in vs], c["nvar"])]
        with session() as sess:
            sess.run(tf.global_variables_initializer())
            out = [g[1]["w"] if hasattr(g[1], "get") else g[1] for g in r.got]
            for k, w in enumerate(c["calls"]):
                if w["o"] != -1:
                    x = r.got[k][1].get("x")
                    if not x.is_observed() or sess.run(x) != w["o"]:
                        return ["call %d: its observation did not arrive" % (k + 1)]
                elif hasattr(r.got[k][1], "get") and r.got[k][1].get("x").is_observed():
                    return ["call %d: observed although nothing was given" % (k + 1)]
            want = [c["vinit"][w["v"] - 1] + w["arg"] for w in c["calls"]]
            got = [float(x) for x in sess.run(out)]
            if got != want:
                return ["initial values seen by the calls %s instead of %s" % (got, want)]
            # and each call follows its own variable when that changes
            for v in range(1, c["nvar"] + 1):
                mine = [g[0] for g, w in zip(r.got, c["calls"]) if w["v"] == v]
                if mine:
                    sess.run(mine[0].assign(7000. + v))
            want = [7000 + w["v"] + w["arg"] for w in c["calls"]]
            got = [float(x) for x in sess.run(out)]
            if got != want:
                return ["values after assigning the variables %s instead of %s" % (got, want)]
    return []


def run(batch):
    warnings.simplefilter("ignore")
    bad = []
    for c in batch:
        for m in one(c):
            bad.append({"msg": "%s: %s" % ([(e["op"], e.get("scope"), e.get("reuse"), e.get("t"), e.get("u")) for e in c["h"]], m), "case": [c]})
    return {"bad": bad, "n": len(batch)}
