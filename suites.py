"""Which specification suites decide which property (read by check.py)."""
LEVEL = "model_checking"
PROPS = {}


def prop(pid, suites, rule="", assumptions=(), level=LEVEL):
    PROPS[pid] = {"suites": suites, "rule": rule, "assumptions": list(assumptions), "level": level}


BN_INV = ["TypeOK", "UniqueNames", "DrawnOnce", "JointFresh", "ObservedExactly", "StackScoped", "Emit"]


def bn_suite(name, focus, bfs_len, sim_len, sim_num, names='{"a", "b"}', budget_q=2600, budget_t=20000, maxbn=2,
             depth=2, need=(), more=()):
    f = "{" + ", ".join('"%s"' % x for x in focus) + "}"
    g = "{" + ", ".join('"%s"' % x for x in focus + list(more)) + "}"
    out = []
    if bfs_len:
        out.append({"name": name + "_bfs", "module": "BayesNet", "driver": "drv_bn",
                    "consts": {"Names": names, "MaxBN": maxbn, "MaxDepth": depth, "HistLen": bfs_len,
                               "Focus": f, "EmitOn": "TRUE", "AllObs": "FALSE"},
                    "consts_thorough": {"HistLen": bfs_len + 1},
                    "invariants": BN_INV, "properties": ["Stable"], "budget_quick": budget_q,
                    "budget_thorough": budget_t, "batch": 30, "need_actions": need,
                    "strata": lambda c: tuple(e["op"] + e["e"] for e in c["h"])})
    if sim_len:
        out.append({"name": name + "_sim", "module": "BayesNet", "driver": "drv_bn",
                    "consts": {"Names": '{"a", "b", "c"}', "MaxBN": 4, "MaxDepth": 3, "HistLen": sim_len,
                               "Focus": g, "EmitOn": "TRUE", "AllObs": "TRUE"},
                    "invariants": BN_INV, "coverage": False,
                    "simulate": {"num": sim_num, "depth": sim_len + 1},
                    "simulate_thorough": {"num": sim_num * 12}, "batch": 10,
                    "budget_quick": budget_q // 3, "budget_thorough": budget_t})
    return out


prop("C01", bn_suite("value", ["net", "stoch", "share", "det", "read", "clp", "frame"], 4, 14, 1500, more=["legacy", "joint", "many"]))
prop("C02", bn_suite("scope", ["net", "stoch", "read", "frame"], 5, 18, 1500, more=["legacy"]))
prop("C03", bn_suite("joint", ["net", "stoch", "share", "det", "clp", "joint", "frame"], 4, 14, 1500, more=["legacy", "many"])
     + bn_suite("grow", ["net", "stoch", "share", "joint", "frame"], 5, 0, 0, maxbn=1, depth=1)
     + bn_suite("old", ["net", "stoch", "legacy", "joint", "many"], 5, 0, 0, maxbn=1, depth=1, budget_q=1500))
prop("C04", bn_suite("names", ["net", "stoch", "det", "read", "many", "set", "clp"], 4, 12, 1500)
     + bn_suite("legacy", ["net", "stoch", "read", "joint", "legacy"], 5, 14, 1500))


# ---------------------------------------------------------------- distributions
def tset(*xs):
    return "{" + ", ".join('"%s"' % x for x in xs) + "}"


UNIV = tset("Normal.std", "Normal.logstd", "FoldNormal.std", "FoldNormal.logstd", "Laplace",
            "Uniform", "Gamma", "InverseGamma", "Beta", "Bernoulli", "Poisson", "Binomial",
            "BinConcrete", "Categorical")
MULTI = tset("OnehotCategorical", "UnnormalizedMultinomial", "UnnormalizedMultinomial.raw",
             "Multinomial", "Multinomial.free", "Multinomial.raw", "Dirichlet", "Concrete",
             "ExpConcrete", "MultivariateNormalCholesky", "MatrixVariateNormalCholesky")
ALL_LAWS = UNIV[:-1] + ", " + MULTI[1:]
SHAPE_INV = ["Sound", "Symmetric", "Covers", "Emit"]


def rel(a, b):
    """how two shapes meet when they broadcast"""
    if a == [-1] or b == [-1]:
        return "err"
    n = max(len(a), len(b))
    x, y = [0] * (n - len(a)) + list(a), [0] * (n - len(b)) + list(b)
    r = []
    if len(a) != len(b):
        r.append("<" if len(a) < len(b) else ">")
    for i, j in zip(x, y):
        if i and j and i != j:
            r.append("x" if i > 1 and j > 1 else "1" if i == 1 else "n")
    return "".join(sorted(set(r)))


def SHAPE_KEY(c):
    ps = [p[2] for p in c["params"] if p[1] == "b"]
    pr = rel(ps[0], ps[1]) if len(ps) == 2 else ""
    return (c["law"], c["mode"], pr, rel(c["batch"], c["gbatch"]), c["out"] == [-1])


prop("C05", [
    {"name": "shape_bfs", "module": "DistShape", "driver": "drv_shape", "batch": 25,
     "consts": {"Lws": ALL_LAWS, "Dims": "{1, 2}", "MaxB": 2, "MaxG": 2,
                "Modes": tset("static", "unknown", "partial"), "Ks": "{2}"},
     "consts_thorough": {"Dims": "{1, 2, 3}"},
     "invariants": SHAPE_INV, "strata": SHAPE_KEY, "budget_quick": 2600, "budget_thorough": 20000,
     "need_actions": ["PickB1", "PickB2", "PickG", "PickRest"]},
    {"name": "shape_sim", "module": "DistShape", "driver": "drv_shape", "batch": 25, "coverage": False,
     "consts": {"Lws": ALL_LAWS, "Dims": "{1, 2, 3}", "MaxB": 3, "MaxG": 4,
                "Modes": tset("static", "unknown", "partial"), "Ks": "{2, 3}"},
     "invariants": SHAPE_INV, "strata": SHAPE_KEY, "simulate": {"num": 1500, "depth": 7},
     "simulate_thorough": {"num": 20000}, "budget_quick": 900, "budget_thorough": 16000},
])

LAW_INV = ["NoIdle", "Emit"]
LAW_KEY = lambda c: (c["law"], c["R"], c["K"], c["sup"])
prop("C06", [
    {"name": "univ_bfs", "module": "DistLaw", "driver": "drv_law", "batch": 400,
     "consts": {"Lws": UNIV, "Sizes": "{<<2, 1>>, <<2, 2>>, <<2, 3>>}", "Rich": "TRUE", "Grads": "FALSE"},
     "invariants": LAW_INV, "strata": LAW_KEY, "budget_quick": 6000, "budget_thorough": 60000,
     "need_actions": ["Fix", "Finish"]},
])
prop("C07", [
    {"name": "multi_bfs", "module": "DistLaw", "driver": "drv_law", "batch": 400,
     "consts": {"Lws": MULTI.replace(', "MatrixVariateNormalCholesky"', ""), "Sizes": "{<<2, 1>>, <<2, 2>>, <<1, 2>>}", "Rich": "FALSE", "Grads": "FALSE"},
     "invariants": LAW_INV, "strata": LAW_KEY, "budget_quick": 4000, "budget_thorough": 40000},
    {"name": "multi_sim", "module": "DistLaw", "driver": "drv_law", "batch": 400, "coverage": False,
     "consts": {"Lws": MULTI, "Sizes": "{<<2, 2>>, <<2, 3>>, <<1, 3>>, <<3, 2>>, <<3, 3>>, <<3, 1>>}",
                "Rich": "TRUE", "Grads": "FALSE"},
     "invariants": LAW_INV, "strata": LAW_KEY, "simulate": {"num": 2500, "depth": 45},
     "simulate_thorough": {"num": 40000}, "budget_quick": 4000, "budget_thorough": 40000},
])

GRAD_LAWS = ALL_LAWS
prop("C09", [
    {"name": "grad_univ", "module": "DistLaw", "driver": "drv_grad", "batch": 60,
     "consts": {"Lws": UNIV, "Sizes": "{<<2, 2>>, <<2, 3>>}", "Rich": "FALSE", "Grads": "TRUE"},
     "invariants": LAW_INV, "strata": LAW_KEY, "budget_quick": 700, "budget_thorough": 8000},
    {"name": "grad_multi", "module": "DistLaw", "driver": "drv_grad", "batch": 60, "coverage": False,
     "consts": {"Lws": MULTI, "Sizes": "{<<2, 2>>, <<2, 3>>, <<3, 2>>, <<1, 2>>}", "Rich": "FALSE", "Grads": "TRUE"},
     "invariants": LAW_INV, "strata": LAW_KEY, "simulate": {"num": 900, "depth": 45},
     "simulate_thorough": {"num": 9000}, "budget_quick": 900, "budget_thorough": 9000},
])

LAYS = "{<<<<3>>, <<3>>>>, <<<<3>>, <<>>>>, <<<<>>, <<2>>>>, <<<<1, 3>>, <<2, 1>>>>, <<<<2, 2>>, <<2, 2>>>>, <<<<>>, <<>>>>, <<<<2, 1, 2>>, <<2, 1, 2>>>>, <<<<1, 2, 1>>, <<2>>>>}"
prop("C08", [
    {"name": "sample", "module": "DistSample", "driver": "drv_sample",
     "consts": {"Lws": ALL_LAWS, "Layouts": LAYS, "Regimes": tset("mild", "low", "high", "edge"), "Ks": "{2, 3}", "R": 2},
     "invariants": ["NotBlind", "Emit"], "strata": lambda c: (c["law"], c["regime"]),
     "budget_quick": 170, "budget_thorough": 2000},
])

HM_INV = ["OffMeansConstant", "NeverAdapted", "Counts", "OneBefore", "EmitProg", "Emit"]
HM_GRP = lambda c: (c["cfg"]["given"], c["cfg"]["n"], c["cfg"]["hyper"], c["cfg"]["lay"])
HM_KEY = lambda c: (c["cfg"]["given"], c["cfg"]["mci"], tuple((h["step"], h["mass"]) for h in c["hist"][:3]))

HX = {"Kset": "{1, 2}", "Mset": "{0, 1}", "Wset": "{0, 1}", "Q0set": "{-1, 0, 2}", "Pset": "{-1, 0, 2}",
      "Levels": "{-1, 0, 1, 9}", "WallAt": 2}
HX_INV = ["Reversible", "Metropolis", "StaysFinite", "Emit"]
HX_GRP = lambda c: (c["cfg"]["lay"], c["cfg"]["eps"])
HX_KEY = lambda c: (c["cfg"]["n"], tuple(c["cfg"]["eps"]), c["cfg"]["wall"], str(c["cfg"]["lay"]),
                    tuple((x["acc"], x["fin"]) for h in c["hist"] for x in h))
prop("C10", [
    {"name": "exact_bfs", "module": "HmcExact", "driver": "drv_hmc_exact", "batch": 120,
     "consts": dict(HX, Sc=64, NChains=1, NCoord=2, Eps="{<<1, 1>>, <<2, 1>>, <<1, 2>>}", Ns="{1, 2}", Iters=1,
                    Walls=tset("none", "nan", "inf", "ninf"), Layouts='{<<"s", "split">>}', Kset="{1}", Pset="{-1, 2}",
                    Q0set="{0, 2}"),
     "consts_thorough": {"Kset": "{1, 2}", "Pset": "{-1, 0, 2}"},
     "group": HX_GRP, "invariants": HX_INV, "strata": HX_KEY, "budget_quick": 600, "budget_thorough": 6000,
     "need_actions": ["Target", "Start", "Draw", "Run", "Finish"]},
    {"name": "exact_sim", "module": "HmcExact", "driver": "drv_hmc_exact", "batch": 20, "coverage": False,
     "consts": dict(HX, Sc=64, NChains=2, NCoord=3, Eps="{<<1, 1>>, <<2, 1>>, <<1, 2>>}", Ns="{1, 2, 3, 5}", Iters=2,
                    Walls=tset("none", "nan", "inf", "ninf"),
                    Layouts='{<<"c", "vec">>, <<"c", "split">>, <<"1c", "split">>, <<"c1", "mat">>, <<"c", "mat">>, <<"c", "three">>, <<"c", "row">>}'),
     "group": HX_GRP, "invariants": HX_INV, "strata": HX_KEY, "simulate": {"num": 700, "depth": 16}, "simulate_thorough": {"num": 9000},
     "budget_quick": 700, "budget_thorough": 9000},
    {"name": "exact_sim4", "module": "HmcExact", "driver": "drv_hmc_exact", "batch": 12, "coverage": False,
     "consts": dict(HX, Sc=64, NChains=4, NCoord=2, Eps="{<<1, 1>>, <<2, 1>>}", Ns="{1, 2, 4}", Iters=4,
                    Walls=tset("none", "nan"), Layouts='{<<"c", "vec">>, <<"22", "split">>, <<"c", "split">>, <<"22", "row">>}'),
     "group": HX_GRP, "invariants": HX_INV, "strata": HX_KEY, "simulate": {"num": 250, "depth": 40}, "simulate_thorough": {"num": 4000},
     "budget_quick": 250, "budget_thorough": 4000},
    {"name": "general", "module": "Hmc", "driver": "drv_hmc", "batch": 4, "group": HM_GRP, "coverage": False,
     "consts": {"Given": tset("none", "both"), "MassFrom": "{3}", "Leaps": "{1, 2, 3, 6}",
                "Hyper": tset("plain", "stiff", "loose"),
                "Layouts": tset("c3", "c2x2", "c1", "c5"), "Iters": 20, "Switches": 1, "Asks": tset("all")},
     "simulate": {"num": 200, "depth": 40}, "simulate_thorough": {"num": 3000},
     "invariants": HM_INV, "budget_quick": 48, "budget_thorough": 1500, "strata": HM_GRP},
    {"name": "far", "module": "Hmc", "driver": "drv_hmc", "batch": 2, "group": HM_GRP, "coverage": False,
     "consts": {"Given": tset("none"), "MassFrom": "{3}", "Leaps": "{12, 25, 40}", "Hyper": tset("plain", "paper"),
                "Layouts": tset("c3", "c2x2"), "Iters": 4, "Switches": 0, "Asks": tset("all")},
     "simulate": {"num": 30, "depth": 10}, "simulate_thorough": {"num": 300},
     "invariants": HM_INV, "budget_quick": 12, "budget_thorough": 150, "strata": HM_GRP},
])

prop("C11", [
    {"name": "adapt_bfs", "module": "Hmc", "workers": 1, "driver": "drv_hmc", "batch": 40, "group": HM_GRP, "strata": HM_KEY,
     "consts": {"Given": tset("none", "step", "both"), "MassFrom": "{0, 1, 2, 3}", "Leaps": "{2}", "Hyper": tset("plain"),
                "Layouts": tset("c3"), "Iters": 5, "Switches": 5, "Asks": tset("all")},
     "consts_thorough": {"Iters": 6, "Switches": 6}, "invariants": HM_INV, "budget_quick": 500, "budget_thorough": 6000,
     "need_actions": ["Iterate", "Switch", "Finish"]},
    {"name": "adapt_sim", "module": "Hmc", "driver": "drv_hmc", "batch": 8, "group": HM_GRP, "strata": HM_KEY,
     "consts": {"Given": tset("step", "both"), "MassFrom": "{2, 5, 10}", "Leaps": "{1, 3}",
                "Hyper": tset("plain", "stiff", "loose", "paper"),
                "Layouts": tset("c3", "c2x2", "c1"), "Iters": 30, "Switches": 6, "Asks": tset("all")}, "coverage": False,
     "consts_thorough": {"Iters": 60},
     "simulate": {"num": 400, "depth": 100}, "simulate_thorough": {"num": 3000},
     "invariants": HM_INV, "budget_quick": 130, "budget_thorough": 2000},
    # iterations that ask for nothing but the update: what they do must not depend on what is asked
    {"name": "adapt_blind", "module": "Hmc", "driver": "drv_hmc", "batch": 8, "group": HM_GRP, "strata": HM_KEY,
     "consts": {"Given": tset("step", "both"), "MassFrom": "{0, 2, 3}", "Leaps": "{1, 2}", "Hyper": tset("plain", "paper"),
                "Layouts": tset("c3", "c2x2"), "Iters": 9, "Switches": 2, "Asks": tset("some", "last")}, "coverage": False,
     "simulate": {"num": 400, "depth": 30}, "simulate_thorough": {"num": 2000},
     "invariants": HM_INV, "budget_quick": 100, "budget_thorough": 1500},
    # longer than any weight, counter or schedule stays away from its limit
    {"name": "adapt_long", "module": "Hmc", "driver": "drv_hmc", "batch": 1, "workers": 1,
     "consts": {"Given": tset("both"), "MassFrom": "{2}", "Leaps": "{1}", "Hyper": tset("plain", "paper", "loose"),
                "Layouts": tset("c3"), "Iters": 160, "Switches": 2, "Asks": tset("all")}, "coverage": False,
     "consts_thorough": {"Iters": 1100},
     "simulate": {"num": 16, "depth": 200}, "simulate_thorough": {"num": 24, "depth": 1200},
     "invariants": ["EmitProg", "Emit"], "budget_quick": 16, "budget_thorough": 24},
])

AIS_C = {"Offs": tset("unit"), "Kinds": tset("same", "other"), "Draws": tset("all", "some"), "Leaps": "{1, 2}"}
prop("C12", [
    {"name": "weights", "module": "Ais",
     "consts": dict(AIS_C, Temps="{1, 2, 3}", Adapts="{0, 1}", Layouts=tset("c4"), Locs="{1, 2}", Vals="{-1, 0, 2}", Draws=tset("all"), Leaps="{1}"),
     "consts_thorough": {"Temps": "1..5"},
     "invariants": ["SameWeight", "ExactIfProportional", "Path"], "need_actions": ["FromProposal", "Adapt", "Redraw", "Anneal"]},
    {"name": "runs", "module": "Ais", "workers": 1, "driver": "drv_ais",
     "consts": dict(AIS_C, Temps="{1, 2, 3, 5, 9}", Adapts="{0, 1, 3}", Layouts=tset("c3n2", "c4", "c1n3", "c2n1"), Locs="{1}", Vals="{0}", Offs=tset("unit", "huge", "tiny")),
     "consts_thorough": {"Temps": "{1, 2, 3, 4, 5, 6, 8, 13, 21, 40}", "Leaps": "{1, 2, 3}"},
     "invariants": ["SameWeight", "ExactIfProportional", "Path", "Emit"],
     "strata": lambda c: (c["cfg"]["n"], c["cfg"]["kind"], c["cfg"]["adapt"], c["cfg"]["off"]),
     "budget_quick": 160, "budget_thorough": 2000},
])

SG_ALG = tset("SGLD", "PSGLD", "SGHMC1", "SGHMC2", "SGNHT1v", "SGNHT2v", "SGNHT1s", "SGNHT2s")
prop("C13", [
    {"name": "update", "module": "Sgmcmc", "driver": "drv_sg", "workers": 1,
     "consts": {"Algs": SG_ALG, "Periods": "{0, 4}", "Runs": "14", "Hyper": tset("plain", "fed", "default"),
                "Layouts": tset("c2", "c1", "c2x2", "same", "none"), "Asks": tset("all", "op")},
     "consts_thorough": {"Periods": "{0, 1, 2, 4, 7}", "Runs": "60"},
     "invariants": ["Periodic", "Emit"], "strata": lambda c: (c["cfg"]["alg"], c["cfg"]["hyper"], c["cfg"]["lay"], c["cfg"]["ask"]),
     "budget_quick": 300, "budget_thorough": 3000, "need_actions": ["Run", "Finish"]},
])
prop("C14", [
    {"name": "period", "module": "Sgmcmc", "driver": "drv_sg", "workers": 1,
     "consts": {"Algs": SG_ALG.replace('"SGLD", "PSGLD", ', ""), "Periods": "{0, 1, 2, 3, 5, 20, 50, 101}", "Runs": "242",
                "Hyper": tset("plain", "fed", "default"), "Layouts": tset("c2", "c1", "same"), "Asks": tset("some")},
     "consts_thorough": {"Runs": "800", "Periods": "{0, 1, 2, 3, 4, 5, 7, 10, 20, 50, 101, 128, 256}"},
     "invariants": ["Periodic", "Emit"], "strata": lambda c: (c["cfg"]["alg"], c["cfg"]["n"]),
     "budget_quick": 110, "budget_thorough": 800, "need_actions": ["Run", "Finish"]},
    {"name": "threads", "module": "Sgmcmc", "driver": "drv_sg", "workers": 1, "nproc": 3,
     "consts": {"Algs": SG_ALG.replace('"SGLD", "PSGLD", ', ""), "Periods": "{2, 3, 7}", "Runs": "121",
                "Hyper": tset("plain"), "Layouts": tset("c2"), "Asks": tset("some", "op")},
     "invariants": ["Periodic", "Emit"], "budget_quick": 36, "budget_thorough": 36},
    # more runs than any counter that wraps or any period that is forgotten would survive
    {"name": "long", "module": "Sgmcmc", "driver": "drv_sg", "workers": 1,
     "consts": {"Algs": tset("SGHMC1", "SGHMC2", "SGNHT1v", "SGNHT2s"), "Periods": "{0, 3, 300}", "Runs": "1100",
                "Hyper": tset("plain"), "Layouts": tset("c1"), "Asks": tset("some")},
     "consts_thorough": {"Runs": "4200"},
     "invariants": ["Emit"], "budget_quick": 12, "budget_thorough": 12},
])

VAR_KEY = lambda c: (c["cfg"]["obj"], c["cfg"]["est"], c["cfg"]["model"], c["cfg"]["q"], c["cfg"]["set"], c["cfg"]["axis"],
                     c["cfg"]["at"], c["cfg"]["baseline"], c["cfg"]["reduce"], c["cfg"]["decay"], len(c["cfg"]["sdims"]), c["cfg"]["nl"])
VAR = {"Models": tset("fn", "meta"), "Qs": tset("net", "dict"), "NLats": "{1, 2}", "Rests": "{<<>>, <<2>>, <<2, 2>>, <<1, 3>>}",
       "Seeds": "{1, 2, 3}", "Iters": 5}
prop("C15", [
    {"name": "value", "module": "Variational", "driver": "drv_var", "batch": 20, "workers": 1,
     "consts": dict(VAR, Objs=tset("elbo", "iw", "isll", "klpq"), Ests=tset("value"), Sdims="{<<1>>, <<3>>, <<2, 2>>}",
                    Sets=tset("plain", "mixed", "override", "missing", "neither", "both", "notnet"), Seeds="{1, 2}"),
     "consts_thorough": {"Seeds": "1..8", "Sdims": "{<<1>>, <<2>>, <<3>>, <<6>>, <<2, 2>>}"},
     "invariants": ["NoPath", "OneSample", "Emit"], "strata": VAR_KEY, "budget_quick": 900, "budget_thorough": 12000,
     "need_actions": ["Seed"]},
])
C16_INV = ["NoPath", "OneSample", "Emit"]


def grad_suite(name, objs, ests, budget, **kw):
    c = dict(VAR, Objs=objs, Ests=ests, Sdims="{<<1>>, <<3>>}", Sets=tset("plain", "mixed"), Seeds="{2}",
             Rests="{<<>>, <<2>>, <<1, 3>>}")
    c.update(kw)
    return {"name": name, "module": "Variational", "driver": "drv_var", "batch": 6, "workers": 1, "consts": c,
            "consts_thorough": {"Seeds": "1..4", "Sdims": "{<<1>>, <<2>>, <<3>>, <<4>>, <<2, 2>>}", "Iters": 20,
                                "Rests": "{<<>>, <<2>>, <<2, 2>>, <<1, 3>>}"},
            "invariants": C16_INV, "strata": VAR_KEY, "budget_quick": budget, "budget_thorough": budget * 14,
            "need_actions": ["Seed"]}


prop("C16", [
    grad_suite("sgvb", tset("elbo", "iw"), tset("sgvb"), 200, Sdims="{<<1>>, <<3>>, <<2, 2>>}"),
    grad_suite("reinforce", tset("elbo"), tset("reinforce"), 300, Sdims="{<<1>>, <<2>>, <<2, 2>>}"),
    grad_suite("vimco", tset("iw"), tset("vimco"), 240, Sdims="{<<1>>, <<2>>, <<3>>, <<4>>}", Rests="{<<>>, <<2>>}"),
    grad_suite("importance", tset("klpq"), tset("importance"), 200, Sdims="{<<1>>, <<3>>, <<2, 2>>}"),
])

BW_INV = ["Live", "Once", "Ordered", "Behind", "Emit"]
BW_KEY = lambda c: (len(c["ops"]), len(c["seeds"]), len(c["cuts"]), len(c["wanted"]))
prop("C17", [
    {"name": "graph_bfs", "module": "Backward", "driver": "drv_backward", "batch": 200,
     "consts": {"N": 3, "MaxIn": 2, "MaxSeeds": 2, "MaxCuts": 2, "MaxCtl": 1, "MinOps": 3},
     "consts_thorough": {"MaxCtl": 2, "MaxCuts": 3, "MinOps": 1},
     "invariants": BW_INV, "strata": BW_KEY, "budget_quick": 9000, "budget_thorough": 150000,
     "need_actions": ["NewOp", "Ask", "Return", "Finish"]},
    {"name": "graph_sim", "module": "Backward", "driver": "drv_backward", "batch": 200, "coverage": False,
     "consts": {"N": 6, "MaxIn": 2, "MaxSeeds": 2, "MaxCuts": 1, "MaxCtl": 2, "MinOps": 5},
     "consts_thorough": {"N": 7},
     "invariants": BW_INV, "strata": BW_KEY, "simulate": {"num": 600, "depth": 16},
     "simulate_thorough": {"num": 9000}, "budget_quick": 3000, "budget_thorough": 30000},
])

prop("C18", [
    {"name": "short", "module": "Ess", "driver": "drv_ess", "batch": 500,
     "consts": {"Lens": "{3, 4, 5}", "Burns": "{0, 1}", "Vals": "{-1, 0, 2}", "NComp": 1, "Stays": "{1}", "Scales": tset("id")},
     "consts_thorough": {"Lens": "{3, 4, 5, 6, 7}", "Burns": "{0, 1, 2}"},
     "invariants": ["LagZero", "Cauchy", "ShiftFree", "Emit"], "budget_quick": 2000, "budget_thorough": 40000,
     "need_actions": ["Fill", "NextComp"]},
    {"name": "long", "module": "Ess", "driver": "drv_ess", "batch": 60, "coverage": False,
     "consts": {"Lens": "{6, 9, 12, 20}", "Burns": "{0, 1, 5}", "Vals": "{-3, -1, 0, 1, 4}", "NComp": 3,
                "Stays": "{1}", "Scales": tset("id", "shift", "scale", "neg")},
     "simulate": {"num": 700, "depth": 90}, "simulate_thorough": {"num": 9000},
     "invariants": ["LagZero", "Cauchy", "ShiftFree", "Emit"], "budget_quick": 700, "budget_thorough": 9000},
    {"name": "slow", "module": "Ess", "driver": "drv_ess", "batch": 200,
     "consts": {"Lens": "{8, 11}", "Burns": "{0}", "Vals": "{0, 1}", "NComp": 1, "Stays": "{1}", "Scales": tset("id")},
     "consts_thorough": {"Lens": "6..14"},
     "invariants": ["LagZero", "Cauchy", "ShiftFree", "Emit"], "budget_quick": 1500, "budget_thorough": 40000},
    {"name": "sticky", "module": "Ess", "driver": "drv_ess", "batch": 20, "coverage": False,
     "consts": {"Lens": "{24, 40}", "Burns": "{0, 9}", "Vals": "{-1, 0, 1, 2}", "NComp": 2, "Stays": "{1, 4, 10, 17}",
                "Scales": tset("id", "shift", "scale", "neg")},
     "simulate": {"num": 200, "depth": 90}, "simulate_thorough": {"num": 5000},
     "invariants": ["LagZero", "Cauchy", "Emit"], "budget_quick": 200, "budget_thorough": 5000},
    # the documented default of burn_in (100), left out of the call, and more
    {"name": "burnt", "module": "Ess", "driver": "drv_ess", "batch": 20, "coverage": False, "workers": 1,
     "consts": {"Lens": "{7, 16}", "Burns": "{100, 150}", "Vals": "{-1, 0, 1, 2}", "NComp": 2, "Stays": "{1, 4, 10, 17}",
                "Scales": tset("id", "shift")},
     "simulate": {"num": 60, "depth": 400}, "simulate_thorough": {"num": 1000},
     "invariants": ["LagZero", "Cauchy", "Emit"], "budget_quick": 60, "budget_thorough": 1000},
], assumptions=["chains whose autocorrelation is exactly 0 at some lag are left out: rounding decides whether the sum stops there",
                "a constant chain has no autocorrelation and is left out"])

LE_INV = ["Partition", "ShapeFits", "Emit"]
LE_KEY = lambda c: (tuple(c["cfg"]["shape"]), tuple(c["cfg"]["axes"]), c["cfg"]["keep"], c["cfg"]["fn"], c["cfg"]["form"])
prop("C24", [
    {"name": "vector", "module": "LogExp", "driver": "drv_logexp", "batch": 400, "group": LE_KEY, "strata": LE_KEY,
     "consts": {"Shapes": "{<<1>>, <<2>>, <<3>>, <<1, 2>>}", "Entries": "{-99999, -20000, -3, 0, 1, 700, 99999}", "Fns": tset("sum", "mean"), "MaxCells": 0},
     "consts_thorough": {"Shapes": "{<<1>>, <<2>>, <<3>>, <<4>>, <<2, 2>>, <<1, 3>>}"},
     "invariants": LE_INV, "budget_quick": 6000, "budget_thorough": 60000, "need_actions": ["Fill", "Finish"]},
    {"name": "tensor", "module": "LogExp", "driver": "drv_logexp", "batch": 100, "group": LE_KEY, "strata": LE_KEY, "coverage": False,
     "consts": {"Shapes": "{<<2, 3>>, <<3, 2>>, <<2, 1, 3>>, <<2, 2, 2>>, <<3, 2, 2, 1>>}",
                "Entries": "{-99999, -20000, -200, -90, -3, -1, 0, 1, 2, 50, 89, 90, 700, 20000, 99999}", "Fns": tset("sum", "mean"), "MaxCells": 0},
     "simulate": {"num": 2500, "depth": 20}, "simulate_thorough": {"num": 40000},
     "invariants": LE_INV, "budget_quick": 2500, "budget_thorough": 40000},
])

prop("C23", [
    {"name": "calls", "module": "Refusal", "driver": "drv_refusal", "batch": 25,
     "consts": {"Lws": ALL_LAWS, "Modes": tset("known", "fed", "rank"), "Floats": tset("float32", "float64")},
     "invariants": ["Fair", "Emit"], "strata": lambda c: (c["law"], tuple(c["fault"])),
     "budget_quick": 5000, "budget_thorough": 20000, "need_actions": ["Spoil"]},
    {"name": "uses", "module": "Misuse", "driver": "drv_misuse", "batch": 20,
     "consts": {"Entries": tset("hmc", "sgld", "psgld", "sghmc1", "sghmc2", "sgnht", "ais", "logjoint", "lookup"), "MaxLat": 2},
     "invariants": ["Whole", "Emit"], "strata": lambda c: (c["cfg"]["entry"], tuple(c["fault"]), c["cfg"]["way"], c["cfg"]["model"], c["cfg"]["mass"]),
     "budget_quick": 900, "budget_thorough": 10000, "need_actions": ["Spoil"]},
])

OBS_INV = ["InNet", "KeptFits", "NothingLossy", "LateOnly", "Emit"]
OBS_KEY = lambda c: tuple([c["way"], c["law"]["dt"], len(c["law"]["value"])]
                          + [(t["obs"]["form"], t["obs"]["dt"], t["obs"]["static"], t["out"], t["under"]) for t in c["tries"][:1]])
OBS = {"Types": tset("i", "f", "d"), "Ways": tset("observe", "ctor", "legacy-ctor", "legacy-arg", "free"),
       "Batches": "{<<>>, <<1>>, <<2>>, <<2, 1>>, <<3, 2>>}", "Values": "{<<>>, <<2>>, <<3, 2>>}"}
prop("C25", [
    {"name": "one", "module": "Observe", "driver": "drv_observe", "batch": 20,
     "consts": dict(OBS, Batches="{<<>>, <<2>>, <<2, 1>>}", Values="{<<>>, <<2>>}",
                    ObsShapes="{<<>>, <<1>>, <<2>>, <<3>>, <<2, 2>>, <<1, 2>>, <<3, 1>>, <<3, 2>>, <<2, 3>>, <<3, 2, 2>>}", MaxTry=1),
     "consts_thorough": {"Batches": OBS["Batches"], "Values": OBS["Values"]},
     "invariants": OBS_INV, "strata": OBS_KEY, "budget_quick": 2400, "budget_thorough": 24000,
     "need_actions": ["ATry", "Close"]},
    {"name": "two", "module": "Observe", "driver": "drv_observe", "batch": 20, "coverage": False,
     "consts": dict(OBS, ObsShapes="{<<>>, <<1>>, <<2>>, <<3>>, <<2, 2>>, <<1, 2>>, <<3, 1>>, <<3, 2>>, <<2, 3>>, <<3, 2, 2>>, <<2, 3, 2>>, <<4, 2, 1>>, <<2, 2, 3, 2>>, <<5, 1, 3, 2>>}", MaxTry=2),
     "simulate": {"num": 1200, "depth": 5}, "simulate_thorough": {"num": 20000},
     "invariants": OBS_INV, "strata": OBS_KEY, "budget_quick": 1200, "budget_thorough": 20000},
])

prop("C26", [
    {"name": "asked", "module": "Standin", "driver": "drv_standin", "batch": 40,
     "consts": {"Kinds": tset("implicit", "empirical"), "Types": tset("i", "f", "d"), "MaxGroup": 2,
                "Shapes": "{<<>>, <<1>>, <<2>>, <<2, 1>>, <<2, 2>>, <<3, 2>>}", "Leads": "{<<>>, <<2>>}"},
     "consts_thorough": {"Shapes": "{<<>>, <<1>>, <<2>>, <<3>>, <<2, 1>>, <<2, 2>>, <<3, 2>>, <<2, 1, 2>>, <<2, 2, 2>>}", "Leads": "{<<>>, <<1>>, <<2>>, <<2, 2>>}"},
     "invariants": ["AtTheTensor", "OneShape", "NeverNegative", "Emit"],
     "strata": lambda c: (c["cfg"]["kind"], c["cfg"]["dt"], c["ask"], c["cfg"]["vr"], c["cfg"]["group"], c["cfg"]["nodein"], len(c["cfg"]["lead"]), min(len(c["cfg"]["off"]), 2)),
     "budget_quick": 2500, "budget_thorough": 20000, "need_actions": ["Ask"]},
])

OBJ_INV = ["Steady", "OneRun", "OneSide", "NeverBare", "Emit"]
OBJ_KEY = lambda c: tuple((e["op"], e.get("kind"), e.get("by"), e.get("mk"), e.get("what"), e.get("e")) for e in c["h"])
OBJ = {"Kinds": tset("elbo", "iw", "klpq"), "ModelSets": '{{"z", "x"}, {"z", "w", "x"}, {"z", "w", "v", "x"}}',
       "QObs": '{<<>>, [z |-> 40], [w |-> 0]}'}
prop("C27", [
    {"name": "short", "module": "Objective", "driver": "drv_objective", "batch": 30,
     "consts": dict(OBJ, HistLen=4, MaxObj=1, ModelSets='{{"z", "x"}, {"z", "w", "x"}}', QObs='{<<>>}'),
     "consts_thorough": {"HistLen": 5, "QObs": OBJ["QObs"]},
     "invariants": OBJ_INV, "properties": ["Frozen"], "strata": OBJ_KEY, "budget_quick": 1800, "budget_thorough": 30000,
     "need_actions": ["Grow", "Make", "Alter", "Ask"]},
    {"name": "long", "module": "Objective", "driver": "drv_objective", "batch": 30, "coverage": False,
     "consts": dict(OBJ, HistLen=16, MaxObj=4),
     "invariants": OBJ_INV, "simulate": {"num": 1000, "depth": 18}, "simulate_thorough": {"num": 30000},
     "budget_quick": 1000, "budget_thorough": 30000},
])

BUILD_INV = ["AsWritten", "OnlyItself", "Covered", "Emit"]
prop("C22", [
    {"name": "calls", "module": "Builders", "driver": "drv_builders", "batch": 40, "view": "View",
     "consts": {"Lws": ALL_LAWS, "Apis": tset("method", "old", "alone", "plain"), "MaxGiven": 2},
     "consts_thorough": {"MaxGiven": 4},
     "invariants": BUILD_INV, "strata": lambda c: (c["api"], c["name"], c["node"]["class"], tuple(sorted(k for k, v in c["given"].items() if v != "-"))),
     "budget_quick": 2000, "budget_thorough": 40000, "need_actions": ["Give", "Call"]},
])


FLOW_INV = ["Triangular", "Lemma", "EmitDef", "Emit"]
FLOW_KEY = lambda c: (c["cfg"]["kind"], c["cfg"]["d"], c["cfg"]["n"], tuple(c["cfg"]["unit"]), c["cfg"]["hid"], c["cfg"]["mode"])
FLOW = {"Kinds": tset("planar", "normal", "gru", "linear", "linear.gru"), "Modes": tset("known", "fed"), "Faults": tset("none")}
prop("C19", [
    {"name": "steps", "module": "Flow", "driver": "drv_flow", "batch": 10, "coverage": False,
     "consts": dict(FLOW, Ds="{1, 2, 3}", Ns="{0, 1, 2, 3}", Leads="{<<1>>, <<2>>, <<2, 2>>, <<1, 3>>, <<2, 1, 2>>}",
                    Units="{<<1, 4>>, <<1, 2>>, <<1, 1>>}", Hiddens="{TRUE, FALSE}", Vals="{-2, -1, 0, 1, 2}"),
     "simulate": {"num": 900, "depth": 120}, "simulate_thorough": {"num": 12000},
     "invariants": FLOW_INV, "strata": FLOW_KEY, "budget_quick": 900, "budget_thorough": 12000},
    {"name": "extreme", "module": "Flow", "driver": "drv_flow", "batch": 10, "coverage": False,
     "consts": dict(FLOW, Kinds=tset("planar"), Ds="{1, 2, 3}", Ns="{1, 2}", Leads="{<<3>>}",
                    Units="{<<2, 1>>, <<3, 1>>, <<17, 3>>, <<11, 1>>}", Hiddens="{FALSE}", Vals="{-2, -1, 0, 1, 2}"),
     "simulate": {"num": 300, "depth": 120}, "simulate_thorough": {"num": 4000},
     "invariants": FLOW_INV, "strata": FLOW_KEY, "budget_quick": 300, "budget_thorough": 4000},
    {"name": "small", "module": "Flow", "driver": "drv_flow", "batch": 40, "workers": 1,
     "consts": dict(FLOW, Kinds=tset("planar", "normal", "gru", "linear"), Ds="{1, 2}", Ns="{1}", Leads="{<<1>>}",
                    Units="{<<1, 2>>}", Hiddens="{FALSE}", Vals="{-1, 2}", Modes=tset("known")),
     "invariants": FLOW_INV, "strata": FLOW_KEY, "budget_quick": 300, "budget_thorough": 4000, "need_actions": ["Fill", "Finish"]},
    {"name": "calls", "module": "Flow", "driver": "drv_flow", "batch": 20, "workers": 1,
     "consts": dict(FLOW, Ds="{1, 2}", Ns="{0, 1, 2}", Leads="{<<1>>, <<2>>, <<2, 3>>, <<3, 1>>}", Units="{<<1, 2>>}",
                    Hiddens="{TRUE, FALSE}", Vals="{1}", Faults=tset("none", "iters", "rank1", "logrank", "lead", "lead1", "lastdim")),
     "invariants": FLOW_INV, "strata": lambda c: (c["cfg"]["kind"], c["cfg"]["fault"], c["cfg"]["mode"]),
     "budget_quick": 500, "budget_thorough": 3000},
], assumptions=["planar steps with w = 0 have no direction and are left out",
                "values beyond 1e15 or whose float32 rounding bound exceeds 5% are not compared"])


OPS_C = {"LeafKinds": tset("node", "obs", "obj", "mix", "tensor", "py", "np", "list"), "Types": tset("i", "f", "b"),
         "Bins": tset("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "lt", "le", "gt", "ge", "and", "or", "xor"),
         "Uns": tset("neg", "abs", "invert"), "Items": tset("first", "last", "rev"),
         "Ends": tset("run", "feed", "fetch", "identity", "nobool", "noiter", "shape", "convert", "function")}
OPS_INV = ["Same", "Floors", "Mirror", "Emit"]
OPS_KEY = lambda c: (c["out"], tuple((e["op"], e["f"], e["ty"]) for e in c["prog"]))
prop("C20", [
    {"name": "one", "module": "NodeOps", "driver": "drv_ops", "batch": 200, "consts": dict(OPS_C, MaxLen=3),
     "invariants": OPS_INV, "strata": OPS_KEY, "budget_quick": 5000, "budget_thorough": 60000,
     "need_actions": ["Push", "Apply2", "Apply1", "Index", "End"]},
    {"name": "deep", "module": "NodeOps", "driver": "drv_ops", "batch": 60, "coverage": False, "consts": dict(OPS_C, MaxLen=9),
     "invariants": OPS_INV, "simulate": {"num": 1500, "depth": 12}, "simulate_thorough": {"num": 30000},
     "strata": lambda c: (c["out"], len(c["prog"])), "budget_quick": 1500, "budget_thorough": 30000},
], assumptions=["& | ^ ~ of integer nodes are left out (the library gives them their logical meaning only)",
                "== and != compare identity, as documented in the code, and are not part of tensor expressions"])

VARS_INV = ["NotShared", "OwnEach", "Counted", "Emit"]
VARS_KEY = lambda c: tuple((e["op"], e.get("scope"), e.get("reuse"), e.get("kind"), e.get("t"), e.get("u"), e["e"]) for e in c["h"])
prop("C21", [
    {"name": "calls_bfs", "module": "Vars", "driver": "drv_vars", "batch": 30,
     "consts": {"HistLen": 4, "MaxTh": 2, "Scopes": tset("", "a"), "Nest": "TRUE"},
     "consts_thorough": {"HistLen": 5}, "properties": ["Kept"],
     "invariants": VARS_INV, "strata": VARS_KEY, "budget_quick": 2000, "budget_thorough": 30000,
     "need_actions": ["Make", "ACall", "ANest"]},
    {"name": "calls_sim", "module": "Vars", "driver": "drv_vars", "batch": 20, "coverage": False,
     "consts": {"HistLen": 11, "MaxTh": 5, "Scopes": tset("", "a", "b", "c"), "Nest": "TRUE"},
     "invariants": VARS_INV, "simulate": {"num": 1200, "depth": 12}, "simulate_thorough": {"num": 20000},
     "budget_quick": 1200, "budget_thorough": 20000},
])
