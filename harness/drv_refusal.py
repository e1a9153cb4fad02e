"""Replays specs/Refusal.tla: spoils one thing about a valid call of a
distribution and looks for the error."""
import hashlib
import json
import warnings
import numpy as np
from zsenv import tf, session
import dist_common as dc
from dist_common import D

R, K, B = 3, 2, 2
# batch parts of a factor that do not fit the mean's batch (B,) (for "fromunit": (1,))
BATCH = {"batch": (B + 1,), "unit": (1,), "fromunit": (B,), "wider": (3, B), "wider1": (1, B), "narrower": ()}
TAIL = {"b": (), "s": (), "v": (K,), "m": (K, K), "rk": (R, K), "rr": (R, R)}


def run(batch):
    bad, cnt = [], {"refused": 0, "accepted": 0}
    for c in batch:
        warnings.simplefilter("ignore")
        for q in c["asked"]:
            m = one(c, q, cnt)
            if m:
                bad.append({"msg": "%s (%s, parameters %s%s), %s: %s %s" % (
                    c["law"], c["cfg"]["float"], c["cfg"]["mode"], ", check_numerics" if c["cfg"]["check"] else "",
                    ": ".join(c["fault"]), q, m), "case": [c]})
    return {"bad": bad[:10], "n": len(batch), "count": cnt}


def one(c, query, cnt):
    fed = c["cfg"]["mode"] != "known"
    want = query in c["refused"]
    feeds = {}
    try:
        with tf.Graph().as_default():
            t = build(c, query, fed, feeds)
            with session(rewrite=False) as sess:
                sess.run(t, feeds)
    except BuildError as e:
        raise RuntimeError(str(e))
    except Exception as e:
        if isinstance(e, (AssertionError,)):
            pass
        if want:
            cnt["refused"] += 1
            return None
        return "refused with %s: %s" % (type(e).__name__, str(e)[:400])
    if want:
        return "accepted"
    cnt["accepted"] += 1


class BuildError(Exception):
    pass


def build(c, query, fed, feeds):
    law, (kind, arg) = c["law"], c["fault"]
    base = law.split(".")[0]
    fdt = np.dtype(c["cfg"]["float"])
    odt = np.dtype("float64" if fdt == np.float32 else "float32")
    rng = np.random.RandomState(int(hashlib.sha1(json.dumps(c, sort_keys=True).encode()).hexdigest()[:8], 16))

    def hold(a, force_fed=None):
        a = np.asarray(a)
        if not fed:
            return tf.constant(a)
        p = tf.placeholder(a.dtype, None if c["cfg"]["mode"] == "fed" else [None] * a.ndim)
        feeds[p] = a
        return p
    K_ = 1 if kind == "categories" else K
    par = {}
    for name, k in c["params"]:
        if k == "n":
            if law == "Multinomial.free":
                par[name] = None
                continue
            v = dc.NEXP
            if kind == "count":
                v = {"zero": 0, "negative": -3, "vector": np.array([2, 2], np.int32), "vector1": np.array([2], np.int32), "float": 2.5}[arg]
            par[name] = v if (isinstance(v, (int, float)) and not fed) else hold(np.int32(v))
            continue
        tail = {"v": (K_,)}.get(k, TAIL[k])
        shape = (() if k == "s" else (B,)) + tail
        if kind == "rank" and name == arg:
            shape = {"v": (), "m": (K,), "rk": (K,), "rr": (R,), "s": (2,)}[k]
        if kind == "mismatch" and name == arg:
            shape = {"b": (B + 1,), "m": (B, K + 1, K + 1), "rr": (B, R + 1, R + 1)}[k]
        if kind == "unitrank" and name == arg:
            shape = (1,)
        if name == arg and kind in BATCH:
            shape = BATCH[kind] + tail
        if kind == "oblong" and name == arg:      # square factors only
            shape = (B,) + tail[:-1] + (tail[-1] + 1,)
        if kind == "fromunit" and name == c["params"][0][0]:
            shape = (1,) + tail
        if kind in ("rank", "oblong") and name == arg and k in ("m", "rr"):
            a = np.full(shape, .7)
        else:
            a = dc.param(rng, law, name, shape, fdt)
        if kind == "numerics" and arg.startswith(name + "="):
            v = arg.split("=")[1]
            a = np.array(a)
            i = (-1,) * a.ndim
            a[i] = par["_min"].reshape(-1)[-1] if v == "minval" else float(v)
        par["_min"] = a
        dt = fdt
        if kind == "intdtype" and name == arg:
            dt = np.int32
        if kind == "otherdtype" and name == arg:
            dt = odt
        par[name] = hold(a.astype(dt))
    par.pop("_min", None)
    kw = {}
    if c["cfg"]["check"]:
        kw["check_numerics"] = True
    sdt = fdt
    if law in dc.DISCRETE:
        sdt = np.dtype("int32")
        if kind == "sdtype":
            kw["dtype"] = getattr(tf, arg)
            sdt = kw["dtype"].as_numpy_dtype if arg not in ("string", "bool", "complex64", "uint8") else np.dtype("int32")
        if kind == "numerics":
            kw["dtype"], sdt = tf.float32, np.dtype("float32")
    if law.endswith(".raw"):
        kw["normalize_logits"] = False
    kw["group_ndims"] = 0
    if kind == "group":
        if arg == "negative":
            kw["group_ndims"] = hold(np.int32(-1)) if fed else -1
        elif arg == "vector":
            kw["group_ndims"] = hold(np.array([1, 1], np.int32))
        elif arg == "vector1":
            kw["group_ndims"] = hold(np.array([1], np.int32))
        elif arg == "fraction":
            kw["group_ndims"] = hold(np.float32(.5)) if fed else .5
        else:
            kw["group_event_ndims"] = 1
    args = []
    if kind == "stdspec":
        if arg == "both":
            par["std" if "logstd" in par else "logstd"] = hold(np.full((B,), .5, fdt))
        elif arg == "neither":
            par = {"mean": par["mean"]}
        else:
            args = [par.pop("mean"), par.pop("std", None) if "std" in par else par.pop("logstd")]
    d = getattr(D, base)(*args, **dict(par, **kw))
    if query == "sample":
        n = 2
        if kind == "nsamples":
            n = hold(np.array([2, 2][:2 if arg == "vector" else 1], np.int32)) if arg != "fraction" else (hold(np.float32(1.5)) if fed else 1.5)
        return d.sample(n)
    vt = {0: (), 1: (K_,), 2: (R, K)}[c["vrank"]]
    x = dc.value(rng, law, (B,) + vt, K_ if K_ > 1 else 1)
    if kind == "given":
        x = dc.value(rng, law, (B + 1,) + vt, K)
        if arg == "value":
            x = dc.value(rng, law, (B,) + vt[:-1] + (K + 1,), K + 1)
    if kind == "numerics" and arg.startswith("x="):
        x = np.array(x, dtype=float)
        x[(-1,) * x.ndim] = float(arg[2:])
    return d.log_prob(hold(np.asarray(x).astype(sdt)))
