"""Replays specs/HmcExact.tla into HMC.sample: momenta and acceptance draws are
those of the behaviour, every iteration's chains and info must be the exact
numbers of the specification."""
import json
import zlib
import numpy as np
from zsenv import tf, zs, session, Noise

INFO = [("s", "samples"), ("a", "acceptance_rate"), ("p", "init_momentum"), ("h0", "orig_hamiltonian"), ("h1", "hamiltonian"),
        ("l0", "orig_log_prob"), ("l1", "log_prob"), ("eps", "updated_step_size")]
NONFIN = {"none": 0., "nan": np.nan, "inf": np.inf, "ninf": -np.inf}


def shapes(lay, nc, d):
    ch = {"c": (nc,), "1c": (1, nc), "c1": (nc, 1), "22": (2, nc // 2), "s": ()}[lay[0]]
    data = {"vec": [("z", (d,))], "split": [("x", ()), ("y", (d - 1,))],
            "mat": [("x", (1,)), ("y", (d - 1, 1))], "row": [("z", (1, d))],
            "three": [("b", (1, 1)), ("a", (1,)), ("z", ())]}[lay[1]]
    if lay[1] == "three":
        data = data[:d]
    return ch, data


def pack(vals, ch, data):
    """[chain][coord] -> {latent: array}"""
    a = np.asarray(vals, dtype=np.float64)
    out, k = {}, 0
    for name, s in data:
        n = int(np.prod(s)) if s else 1
        out[name] = a[:, k:k + n].reshape(ch + s)
        k += n
    return out


def run(batch):
    bad, n = [], 0
    groups = {}
    for c in batch:
        key = (str(c["cfg"]["lay"]), tuple(c["cfg"]["eps"]), len(c["q0"]), len(c["q0"][0]), c["sc"])
        groups.setdefault(key, []).append(c)
    for key, cases in sorted(groups.items()):
        bad += group(cases)
        n += len(cases)
        if len(bad) > 8:
            break
    return {"bad": bad[:8], "n": n, "count": {"iterations": sum(len(c["hist"]) for c in batch)}}


def group(cases):
    bad = []
    c0 = cases[0]
    nc, d, sc = len(c0["q0"]), len(c0["q0"][0]), float(c0["sc"])
    lay, eps = c0["cfg"]["lay"], c0["cfg"]["eps"]
    ch, data = shapes(lay, nc, d)
    cur = {}

    def noise(kind, op, call, shape, args):
        if kind == "uniform":
            u = np.array([{0: 1 - 2. ** -24, -1: 0.}.get(h["lev"], np.exp(-h["lev"] / 8.)) for h in cur["h"]])
            cur["u"] += 1
            return u.reshape(ch) if shape == ch else u[:1].reshape([1] * len(shape)) * np.ones(shape)
        p = pack([h["p"] for h in cur["h"]], ch, data)
        for name, s in data:
            if tuple(shape) == ch + s:
                return p[name]
        first = p[data[0][0]].reshape(-1)
        return np.resize(first, shape)

    with tf.Graph().as_default(), Noise(noise):
        kp = tf.placeholder(tf.float32, [d])
        mp = tf.placeholder(tf.float32, [d])
        wp = tf.placeholder(tf.float32, [])
        wl = tf.placeholder(tf.float32, [])
        nl = tf.placeholder(tf.int32, [])
        lat = {nm: tf.Variable(tf.zeros(ch + s), name=nm, trainable=False) for nm, s in data}

        def log_joint(obs):
            q = tf.concat([tf.reshape(obs[nm], ch + (-1,)) for nm, _ in data], -1)
            lp = -.5 * tf.reduce_sum(obs["K"] * tf.square(q - obs["M"]), -1)
            if d >= 2:
                lp = lp - obs["w"] * q[..., 0] * q[..., 1]
            x = tf.stop_gradient(q[..., 0])
            return lp + tf.where(x > float(c0["wallat"]), obs["wall"] + tf.zeros_like(x), tf.zeros_like(x))
        hmc = zs.HMC(step_size=float(eps[0]) / eps[1], n_leapfrogs=nl)
        op, info = hmc.sample(log_joint, {"K": kp, "M": mp, "w": wp, "wall": wl}, lat)
        init = tf.global_variables_initializer()
        sets = {nm: (tf.placeholder(tf.float32), v) for nm, v in lat.items()}
        setop = [tf.assign(v, tf.reshape(ph, v.get_shape())) for ph, v in sets.values()]
        with session(threads=1 + len(cases) % 3) as sess:
            for c in cases:
                cf = c["cfg"]
                crc = zlib.crc32(json.dumps([c["q0"], c["hist"]], sort_keys=True).encode())
                feed = {kp: cf["K"], mp: cf["M"], wp: cf["w"], nl: cf["n"], wl: NONFIN[cf["wall"]]}
                sess.run(init)
                q0 = pack(c["q0"], ch, data)
                sess.run(setop, {sets[k][0]: q0[k] / sc for k in sets})
                for i, h in enumerate(c["hist"]):
                    cur["h"], cur["u"] = h, 0
                    # what a run is asked for must not matter: everything, nothing but the update, or one thing
                    mode = (crc + i) % 4
                    some = INFO if mode < 2 else [] if mode == 2 else [INFO[(crc + i) // 4 % len(INFO)]]
                    out = sess.run(dict({k: getattr(info, f) for k, f in some}, op=op), feed)
                    qv = sess.run(lat)
                    msg = compare(c, h, out, qv, ch, data, sc)
                    if msg:
                        bad.append({"msg": "layout %s, %d leapfrogs of %d/%d, iteration %d: %s" % (
                            lay, cf["n"], eps[0], eps[1], i + 1, msg), "case": [c]})
                        break
    return bad


def compare(c, h, out, qv, ch, data, sc):
    unit = 2. * sc * sc
    want = pack([x["q"] for x in h], ch, data)
    p = pack([x["p"] for x in h], ch, data)
    for name, _ in data:
        w = want[name] / sc
        for what, got in (("variable", qv[name]), ("info.samples", out["s"][name] if "s" in out else qv[name])):
            if got.shape != w.shape or not np.allclose(got, w, rtol=1e-5, atol=1e-5):
                return "%s %s is %s, the transition gives %s (accepted: %s)" % (
                    what, name, got.reshape(-1).tolist(), w.reshape(-1).tolist(), [x["acc"] for x in h])
        if "p" in out and (out["p"][name].shape != w.shape or not np.allclose(out["p"][name], p[name], atol=1e-6)):
            return "info.init_momentum[%s] is %s, drawn was %s" % (name, out["p"][name].tolist(), p[name].tolist())
    e = lambda k: np.array([x[k] for x in h], dtype=np.float64).reshape(ch) / unit
    fin = np.array([x["fin"] for x in h]).reshape(ch)
    acc = np.array([x["acc"] for x in h]).reshape(ch)
    h0, h1 = e("h0"), e("h1")
    a = np.where(fin, np.exp(-np.maximum(h1 - h0, 0)), 0.)
    tol = 2e-5 * (1 + np.abs(h0) + np.abs(h1))

    def close(name, got, w, mask=None):
        got = np.asarray(got)
        if got.shape != w.shape:
            return "info.%s has shape %s, there are %s chains" % (name, got.shape, w.shape)
        ok = np.abs(got - w) <= tol
        if mask is not None:
            ok = ok | ~mask
        if not ok.all():
            return "info.%s is %s, the transition gives %s" % (name, got.tolist(), w.tolist())
    for name, got, w, mask in (("acceptance_rate", out.get("a"), a, None), ("orig_hamiltonian", out.get("h0"), h0, None),
                               ("orig_log_prob", out.get("l0"), e("lp0"), None), ("log_prob", out.get("l1"), e("lp1"), None),
                               ("hamiltonian", out.get("h1"), h1, acc)):
        m = None if got is None else close(name, got, w, mask)
        if m:
            return m
    ep = float(c["cfg"]["eps"][0]) / c["cfg"]["eps"][1]
    if "eps" in out and abs(float(out["eps"]) - ep) > 1e-6 * ep:
        return "the step size became %r, no adaptation was asked for" % float(out["eps"])
