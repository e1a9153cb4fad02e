"""Builds zhusuan distributions for the laws named in specs/Laws.tla and
chooses parameter and value entries inside the domains of the laws."""
import numpy as np
from zsenv import tf, zs

D = zs.distributions
DISCRETE = {"Bernoulli", "Poisson", "Binomial", "Categorical", "OnehotCategorical",
            "UnnormalizedMultinomial", "UnnormalizedMultinomial.raw", "Multinomial",
            "Multinomial.free", "Multinomial.raw"}
MATRIX = {"cov_tril", "u_tril", "v_tril"}
NEXP = 4


def entry(rng, law, name):
    """one parameter entry, in the domain of the law"""
    if name in ("mean", "loc"):
        return rng.uniform(-1.5, 1.5)
    if name in ("std", "scale"):
        return rng.uniform(.4, 2.)
    if name == "logstd":
        return rng.uniform(-.9, .7)
    if name == "minval":
        return rng.uniform(-3., -2.)
    if name == "maxval":
        return rng.uniform(2., 3.)
    if name in ("alpha", "beta"):
        return rng.uniform(.6, 3.)
    if name == "rate":
        return rng.uniform(.5, 4.)
    if name == "temperature":
        return rng.uniform(.4, 1.5)
    if name == "logits":
        return rng.uniform(-1.5, 1.5)
    raise RuntimeError(name)


def param(rng, law, name, shape, dtype):
    shape = tuple(shape)
    if name in MATRIX:
        a = rng.uniform(-.8, .8, size=shape)
        a = np.tril(a, -1)
        n = min(shape[-1], shape[-2])
        for i in range(n):
            a[..., i, i] = rng.uniform(.6, 1.6, size=shape[:-2])
        return a.astype(dtype)
    out = np.empty(shape)
    for i in np.ndindex(*shape):
        out[i] = entry(rng, law, name)
    if law.endswith(".raw") and name == "logits" and shape:
        # "already normalised", so that the density is the law's (per slice up to scale)
        out = out - np.log(np.sum(np.exp(out), -1, keepdims=True))
    return out.astype(dtype)


def value(rng, law, shape, K):
    """a value in the support"""
    shape = tuple(shape)
    if law in ("Normal.std", "Normal.logstd", "Laplace", "MultivariateNormalCholesky",
               "MatrixVariateNormalCholesky"):
        return rng.uniform(-2., 2., size=shape)
    if law in ("FoldNormal.std", "FoldNormal.logstd", "Gamma", "InverseGamma"):
        return rng.uniform(.1, 3., size=shape)
    if law == "Uniform":
        return rng.uniform(-1.9, 1.9, size=shape)
    if law in ("Beta", "BinConcrete"):
        return rng.uniform(.05, .95, size=shape)
    if law == "Bernoulli":
        return rng.randint(0, 2, size=shape)
    if law == "Poisson":
        return rng.randint(0, 6, size=shape)
    if law == "Binomial":
        return rng.randint(0, NEXP + 1, size=shape)
    if law == "Categorical":
        return rng.randint(0, K, size=shape)
    if law == "OnehotCategorical":
        return np.eye(K)[rng.randint(0, K, size=shape[:-1])]
    if "Multinomial" in law:
        out = np.empty(shape)
        for i in np.ndindex(*shape[:-1]):
            out[i] = rng.multinomial(NEXP, np.ones(K) / K)
        return out
    z = rng.uniform(.2, 1., size=shape)
    z = z / z.sum(-1, keepdims=True)
    return np.log(z) if law == "ExpConcrete" else z


def make(law, params, group_ndims=0, dtype=None, **kw):
    """the distribution object; params: name -> tensor or array"""
    base = law.split(".")[0]
    cls = getattr(D, base)
    kw = dict(kw)
    if group_ndims is not None:
        kw["group_ndims"] = group_ndims
    if dtype is not None and law in DISCRETE:
        kw["dtype"] = dtype
    p = dict(params)
    if law == "Multinomial.free":
        p["n_experiments"] = None
    if base == "UnnormalizedMultinomial":
        p.pop("n_experiments", None)
    if law.endswith(".raw"):
        kw["normalize_logits"] = False
    return cls(**dict(p, **kw))


def env_of(case, arrays, given, member):
    """variables of the density expression for one batch member: case["params"] gives
    <<name, kind, shape>>, member <<index into 1st, 2nd batch, index into given's batch>>"""
    env = {}
    vr = len(case["value"])
    K = case["K"]
    nb = 0
    for pos, (name, kind, shape) in enumerate(case["params"]):
        a = arrays[name]
        if kind == "s":
            env[name] = a.reshape(())[()]
            continue
        if kind == "n":
            env[name] = a
            continue
        idx = member[min(pos, 1)]
        if kind == "b":
            env[name] = a.reshape(-1)[idx]
        elif kind == "v":
            row = a.reshape(-1, K)[idx]
            for k in range(K):
                env["%s%d" % (name, k + 1)] = row[k]
        else:
            m = a.reshape((-1,) + a.shape[-2:])[idx]
            for i in range(m.shape[0]):
                for j in range(m.shape[1]):
                    env["%s%d%d" % (name, i + 1, j + 1)] = m[i, j]
    gi = member[2]
    if vr:
        given = np.broadcast_to(given, tuple(case["gbatch"]) + tuple(case["value"]))
    if vr == 0:
        env["x"] = given.reshape(-1)[gi]
        if case["law"] == "Categorical":
            env["logits_x"] = env["logits%d" % (int(env["x"]) + 1)]
    elif vr == 1:
        row = given.reshape(-1, K)[gi]
        for k in range(K):
            env["x%d" % (k + 1)] = row[k]
    else:
        m = given.reshape((-1,) + given.shape[-2:])[gi]
        for i in range(m.shape[0]):
            for j in range(m.shape[1]):
                env["x%d%d" % (i + 1, j + 1)] = m[i, j]
    return env
