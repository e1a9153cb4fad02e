"""Replays specs/Ess.tla into zhusuan.diagnostics."""
import warnings
import numpy as np
import zsenv  # noqa: F401
from zhusuan import diagnostics
import expr

TRANSFORM = {"id": (1., 0.), "shift": (1., 256.), "scale": (.125, 0.), "neg": (-4., -32.)}


def near(a, b):
    return abs(a - b) <= 1e-9 * abs(b)


def run(batch):
    bad, cnt = [], {"known": 0}
    warnings.simplefilter("ignore")
    for c in batch:
        f = c["cfg"]
        m, b = TRANSFORM[f["scale"]]
        x = np.array(c["chains"], dtype=np.float64).T * m + b
        keep = x.copy()
        stan = [expr.value(t, {}) for t in c["stan"]]
        lag0 = [expr.value(t, {}) for t in c["lag0"]]
        got1 = [float(diagnostics.effective_sample_size_1d(x[f["burn"]:, d])) for d in range(x.shape[1])]
        got = float(diagnostics.effective_sample_size(x, **({} if f["burn"] == 100 else {"burn_in": f["burn"]})))
        msg, find = None, None
        if not (x == keep).all():
            msg = "the chain was changed"
        elif all(near(g, w) for g, w in zip(got1, stan)) and near(got, min(stan)):
            continue
        elif all(near(g, w) for g, w in zip(got1, lag0)) and near(got, min(lag0)):
            find = "ess-lag0"
            msg = "effective sample sizes %r count lag 0, Stan's are %r" % (got1, stan)
        else:
            msg = "effective sample sizes %r (minimum reported %r) of the chain; from the autocorrelations %r" % (got1, got, stan)
        r = {"msg": "chain %s burn_in %d (%s): %s" % (c["chains"], f["burn"], f["scale"], msg), "case": [c]}
        if find:
            r["finding"] = find
        bad.append(r)
    seen = [b for b in bad if b.get("finding")]
    other = [b for b in bad if not b.get("finding")]
    return {"bad": other[:8] + seen, "n": len(batch), "count": cnt}
