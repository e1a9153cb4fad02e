"""Replays specs/Sgmcmc.tla: runs the sampler, compares every run with the
specification's program from the state observed before it.  Which of the
normal draws of a run played which part is found by trying them."""
import itertools
import os
import numpy as np
from zsenv import tf, zs, session, Noise
from prog import Chains

HYPER = {
    "plain": dict(lr=.04, alpha=.25, beta=0., extra=.1, rate=1., s=1., decay=.9, tiny=1e-3, feed=False),
    "fed": dict(lr=.02, alpha=.4, beta=.15, extra=.3, rate=.5, s=2., decay=.75, tiny=.05, feed=True),
    "default": dict(lr=.03, alpha=.25, beta=0., extra=0., rate=1., s=1.5, decay=.9, tiny=1e-3, feed=False),
}
#          shape of chains, shape of the data of a and of b
LAYOUT = {"c2": ((2,), (2,), (1,)), "c1": ((1,), (3,), (1,)), "c2x2": ((2, 2), (2,), (1,)), "same": ((2,), (1,), (1,)),
          "none": ((), (2,), (1,))}


def run(c):
    f = c["cfg"]
    hp = HYPER[f["hyper"]]
    ch, da, db = LAYOUT[f["lay"]]
    alg = f["alg"]
    shp = {"a": ch + da, "b": ch + db}
    rs = np.random.RandomState(len(c["draws"]) * 13 + f["n"] + len(alg) + ord(alg[-1]))
    T = len(c["draws"])

    def noise(kind, op, call, shape, args):
        # the same draw whatever the order in which the graph happens to run
        v = np.random.RandomState(1000003 * op + 101 * call + f["n"] + len(c["draws"])).randn(*shape)
        return np.where(np.abs(v) < .05, .2, v)
    with tf.Graph().as_default(), Noise(noise) as nz:
        fp = {k: (tf.placeholder(tf.float32, []) if hp["feed"] else hp[k]) for k in ("lr", "alpha", "beta", "extra", "rate")}
        xs = tf.placeholder(tf.float32, da)
        lat = {"b": tf.Variable(rs.randn(*shp["b"]).astype(np.float32)), "a": tf.Variable(rs.randn(*shp["a"]).astype(np.float32))}

        def log_joint(o):
            a, b = o["a"], o["b"]
            e = -(.5 * hp["s"] * tf.square(a - o["x"]) + .125 * tf.square(b)) - tf.log(1. + tf.exp(a * b))
            return tf.reduce_sum(e, -1)
        n = f["n"] if f["n"] else (None if T % 2 else 0)
        if alg == "SGLD":
            sg = zs.SGLD(fp["lr"])
        elif alg == "PSGLD":
            sg = zs.PSGLD(fp["lr"]) if f["hyper"] in ("plain", "default") else zs.PSGLD(
                fp["lr"], preconditioner="rms",
                preconditioner_hparams=zs.PSGLD.RMSPreconditioner.HParams(decay=hp["decay"], epsilon=hp["tiny"]))
        elif alg[:5] == "SGHMC":
            kw = {} if f["hyper"] == "default" else dict(friction=fp["alpha"], variance_estimate=fp["beta"])
            if not (f["hyper"] == "default" and f["n"] == 20):
                kw["n_iter_resample_v"] = n
            if not (f["hyper"] == "default" and alg == "SGHMC2"):
                kw["second_order"] = alg == "SGHMC2"
            sg = zs.SGHMC(fp["lr"], **kw)
        else:
            kw = {} if f["hyper"] == "default" else dict(variance_extra=fp["extra"], tune_rate=fp["rate"])
            if not (f["hyper"] == "default" and f["n"] == 0):
                kw["n_iter_resample_v"] = n
            if not (f["hyper"] == "default" and alg == "SGNHT2v"):
                kw.update(second_order=alg[5] == "2", use_vector_alpha=alg[6] == "v")
            sg = zs.SGNHT(fp["lr"], **kw)
        op, info = sg.sample(log_joint, {"x": xs}, lat)
        if set(info._fields) != set(c["infos"]):
            return [{"msg": "%s: info has %s, documented are %s" % (alg, info._fields, c["infos"])}]
        fetch = {"op": op}
        for k in c["infos"]:
            fetch[k] = getattr(info, k)
        with session(threads=[1, 4, 8][T % 3]) as sess:
            lrs = hp["lr"]
            feed = {p: hp[k] for k, p in fp.items() if hp["feed"]}
            sess.run(tf.global_variables_initializer(), feed)
            q = sess.run(lat)
            env = dict(hp)
            for k in "ab":
                env["aux_" + k] = np.zeros(shp[k])
                env["al_" + k] = np.full(shp[k] if alg[-1] == "v" else (), hp["extra"])
            m = Chains(len(ch))
            # momenta drawn at initialisation
            starts = [dict()]
            if c["momentum"]:
                starts = [dict(zip("ab", p)) for p in itertools.permutations([v for k, _, _, v in nz.log if k == "normal"], 2)
                          if p[0].shape == shp["a"] and p[1].shape == shp["b"]]
                if not starts:
                    return [{"msg": "%s: no initial momenta drawn" % alg}]
            envs = []
            for s in starts:
                e = dict(env)
                for k in s:
                    e["v_" + k] = s[k].astype(np.float64) * np.sqrt(hp["lr"])
                envs.append(e)
            # the momenta are not seen, only followed: their rounding errors (and what the
            # dynamics make of them) are followed too, in the second of each pair
            envs = [(e, nudge(e, e)) for e in envs]
            for i in range(T):
                x = rs.randn(*da).astype(np.float32)
                if hp["feed"]:
                    lrs = hp["lr"] * (1 + .5 * np.sin(i))
                    feed[fp["lr"]] = lrs
                feed[xs] = x
                k0 = len(nz.log)
                out = sess.run(fetch if c["asked"][i] else {"op": op}, feed)
                qn = sess.run(lat)
                ds = [v for k, _, _, v in nz.log[k0:] if k == "normal"]
                good, why = [], None
                for pair in envs:
                    for ds2 in roles(ds, shp, c["draws"][i]):
                        two = []
                        for e0 in pair:
                            e = dict(e0, x=x.astype(np.float64), lr=float(np.float32(lrs)))
                            for k in "ab":
                                e["q_" + k] = q[k].astype(np.float64)
                            for k, d in ds2.items():
                                e[k] = d.astype(np.float64)
                            if c["draws"][i]:
                                m.run(c["resample"], e)
                            m.run(c["update"], e)
                            two.append(e)
                        msg = compare(two[0], two[1], out, qn, c["infos"], alg)
                        if msg is None:
                            good.append(two)
                        else:
                            why = why or msg
                if not good:
                    return {"bad": [{"msg": "%s, %s, layout %s, n_iter_resample_v %s, run %d (momenta drawn anew: %s): %s" % (
                        alg, f["hyper"], f["lay"], n, i + 1, c["draws"][i], why or "no draws of the right shapes")}], "n": 1}
                envs = []
                for e, e1 in good[:2]:
                    e1 = nudge(e, e1)
                    if "alpha" in out:
                        for k in "ab":
                            e["al_" + k] = e1["al_" + k] = out["alpha"][k].astype(np.float64)
                    envs.append((e, e1))
                q = qn
                if any(slack(e, e1, n2) > .02 for e, e1 in envs for n2 in ("q_a", "q_b")):
                    # numerically out of hand (negative friction): nothing left to compare
                    return {"bad": [], "n": 1, "count": {"runs": i + 1, "cut short": 1}}
    return {"bad": [], "n": 1, "count": {"runs": T}}


def nudge(e, e1):
    """one more run's rounding error on everything that is followed but not seen"""
    e1 = dict(e1)
    for k in e1:
        if k[:2] in ("v_", "au", "al") and isinstance(e1[k], np.ndarray):
            d = e1[k] - e[k]
            e1[k] = e1[k] + 2e-7 * (np.abs(e[k]) + .1) * np.where(d < 0, -1, 1)
    return e1


def slack(e, e1, k):
    return float(np.max(np.abs(np.asarray(e1[k]) - np.asarray(e[k])), initial=0.))


def roles(ds, shp, fresh):
    """assignments of the draws of a run to the parts they may play"""
    parts = ["z_a", "z_b"] + (["r_a", "r_b"] if fresh else [])
    for p in itertools.permutations(ds, len(parts)):
        if all(v.shape == shp[k[-1]] for k, v in zip(parts, p)):
            yield dict(zip(parts, p))


def compare(e, e1, out, qn, infos, alg):
    for k in "ab":
        w = np.asarray(e["q_" + k])
        for what, got in (("variable", qn[k]), ("info.q", out["q"][k] if "q" in out else qn[k])):
            if got.shape != w.shape or not np.allclose(got, w, rtol=3e-5, atol=3e-5 + 8 * slack(e, e1, "q_" + k)):
                return "%s %s is %s, the update gives %s" % (what, k, got.reshape(-1)[:6].tolist(), w.reshape(-1)[:6].tolist())
        for what, key in (("mean_k", "k_"), ("alpha", "al_")):
            if what in out:
                w, got = np.asarray(e[key + k]), np.asarray(out[what][k])
                if got.shape != w.shape or not np.allclose(got, w, rtol=1e-4, atol=3e-5 + 8 * slack(e, e1, key + k)):
                    return "info.%s[%s] is %s, the update gives %s" % (what, k, got.tolist(), w.tolist())
    return None
