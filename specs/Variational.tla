---------------------------- MODULE Variational ----------------------------
(* Variational objectives and their gradient estimators.                     *)
(*                                                                           *)
(* A model over x (observed), z and possibly w, and a variational posterior  *)
(* over z (and w) with parameters phi_z, phi_w; theta is a parameter of the  *)
(* model.  s ranges over samples, b over the other batch positions.  All log *)
(* densities are polynomials of the values, so that objectives and gradients *)
(* are exact expressions (Expr.tla), differentiated symbolically.            *)
EXTENDS Expr, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Objs, Ests, Models, Qs, NLats, Sdims, Rests, Seeds, Sets, Iters
VARIABLES cfg, st
vars == <<cfg, st>>

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
S == IF cfg.axis = "none" THEN 1 ELSE Prod(cfg.sdims)
B == Prod(cfg.rest)
NL == cfg.nl
Lats == 1..NL
LName(l) == IF l = 1 THEN "z" ELSE "w"
Phi(l) == Var("phi_" \o LName(l))
Theta == Var("theta")

(* ---- tables of small integers the harness reads from the record ---- *)
Mod5(n) == (n % 5) - 2
Base(l, s, b) == Mod5(cfg.seed * 7 + l * 5 + s * 3 + b * 2 + s * b * l)
EpsT(l, s, b) == Mod5(cfg.seed * 3 + l * 2 + s * s + b * 4 + 1)
XT(b) == Mod5(cfg.seed + 2 * b)
OT(s, b) == Mod5(cfg.seed + s + 3 * b)      \* value of z given by the user as observed
ACoef(l) == IF l = 1 THEN Rat(1, 2) ELSE Rat(-1, 4)
BCoef(l) == IF l = 1 THEN Rat(1, 4) ELSE Rat(3, 4)
CCoef(l) == IF l = 1 THEN Num(1) ELSE Num(-2)

Rep == cfg.rep
(* value of latent l as drawn from the posterior; it depends on phi if reparameterised *)
V(l, s, b) == IF Rep THEN Add(Num(Base(l, s, b)), Mul(Phi(l), Num(EpsT(l, s, b)))) ELSE Num(Base(l, s, b))
(* value the model sees *)
MV(l, s, b) == IF cfg.set = "override" /\ l = 1 THEN Num(OT(s, b)) ELSE V(l, s, b)
LogQ1(l, s, b) == Add(Mul(Phi(l), Mul(ACoef(l), V(l, s, b))), CCoef(l))
LogQ(s, b) == SumE([l \in Lats |-> LogQ1(l, s, b)])
LogP(s, b) ==
  LET z == MV(1, s, b)
      lin == SumE([l \in Lats |-> Mul(BCoef(l), MV(l, s, b))])
      x == Num(XT(b))
      pair == IF NL = 2 THEN Mul(Half, Mul(z, MV(2, s, b))) ELSE Num(0)
  IN Add(Mul(Theta, lin), Add(pair, Add(Mul(Half, Mul(x, z)), Var("off"))))
LogW(s, b) == Sub(LogP(s, b), LogQ(s, b))
Samples == 1..S
Cells == 1..B
Sq1(f(_)) == [s \in Samples |-> f(s)]
MeanS(f(_)) == Div(SumE(Sq1(f)), Num(S))
LMEb(f(_)) == Sub(LSE(Sq1(f)), Ln(Num(S)))

(* ---- values (C15) ---- *)
Elbo(b) == LET g(s) == LogW(s, b) IN MeanS(g)
IW(b) == LET g(s) == LogW(s, b) IN LMEb(g)
Value(b) == IF cfg.obj = "elbo" THEN Elbo(b) ELSE IW(b)

(* ---- gradient estimators (C16): gradient of the surrogate cost summed over b ---- *)
Params == {"phi_z", "theta", "psi"} \cup (IF NL = 2 THEN {"phi_w"} ELSE {})
OverB(f(_)) == SumE([b \in Cells |-> f(b)])
(* self-normalised weight of sample s *)
Wt(s, b) == LET g(t) == LogW(t, b) IN Ex(Sub(LogW(s, b), LSE(Sq1(g))))
(* derivative of the log mean exp of the weights *)
DIW(b, p) == SumE([s \in Samples |-> SMul(Wt(s, b), D(LogW(s, b), p))])
Sgvb(p) == LET g(b) == Neg(IF cfg.obj = "elbo" THEN D(Elbo(b), p) ELSE DIW(b, p)) IN OverB(g)

Baseline(b) == Mul(Var("psi"), Num(XT(b) + 1))
RawSignal(s, b) == IF cfg.baseline THEN Sub(LogW(s, b), Baseline(b)) ELSE LogW(s, b)
Signal(s, b) == IF cfg.reduce THEN Sub(RawSignal(s, b), Var("mm")) ELSE LogW(s, b)
Reinforce(p) ==
  LET g(b) == LET h(s) == Sub(Neg(D(LogP(s, b), p)), SMul(Signal(s, b), D(LogQ(s, b), p))) IN MeanS(h)
  IN OverB(g)
BaseCost(b) == LET h(s) == Mul(Half, Sq(Sub(LogW(s, b), Baseline(b)))) IN MeanS(h)
\* the weights are constants for the baseline: only psi is fitted
BaseGrad(p) == IF p # "psi" THEN Num(0)
   ELSE LET g(b) == LET h(s) == Neg(Mul(Sub(LogW(s, b), Baseline(b)), D(Baseline(b), "psi"))) IN MeanS(h)
        IN OverB(g)
MeanAll(f(_, _)) == Div(SumE([i \in 1..(S * B) |-> f(((i - 1) % S) + 1, ((i - 1) \div S) + 1)]), Num(S * B))
(* moving mean of the signals of the runs so far, corrected for its start at zero *)
Moving == << <<"set", "bc", MeanAll(RawSignal)>>,
             <<"set", "bias", Add(Mul(Var("decay"), Var("bias")), Mul(Sub(Num(1), Var("decay")), Var("bc")))>>,
             <<"set", "dk", Mul(Var("dk"), Var("decay"))>>,
             <<"set", "mm", Div(Var("bias"), Sub(Num(1), Var("dk")))>> >>

(* learning signal of sample s: the objective less the objective with s replaced by the mean of the others *)
Others(s, b) == LET o == [i \in 1..(S - 1) |-> LogW(IF i < s THEN i ELSE i + 1, b)]
                IN Div(SumE(o), Num(S - 1))
VSignal(s, b) == LET f(t) == LogW(t, b)
                     g(t) == IF t = s THEN Others(s, b) ELSE LogW(t, b)
                 IN Sub(LMEb(f), LMEb(g))
Vimco(p) == LET g(b) == Sub(SumE([s \in Samples |-> Neg(SMul(VSignal(s, b), D(LogQ(s, b), p)))]), DIW(b, p)) IN OverB(g)
Importance(p) == LET g(b) == SumE([s \in Samples |-> Neg(SMul(Wt(s, b), D(LogQ(s, b), p)))]) IN OverB(g)
Grad(p) == CASE cfg.est = "sgvb" -> Sgvb(p)
             [] cfg.est = "reinforce" -> Reinforce(p)
             [] cfg.est = "vimco" -> Vimco(p)
             [] cfg.est = "importance" -> Importance(p)
             [] OTHER -> Num(0)

(* ---- what is refused ---- *)
Error == \/ cfg.set \in {"neither", "both", "notnet"}
         \/ cfg.set = "missing" /\ cfg.model = "meta"
         \/ cfg.obj \in {"iw", "isll"} /\ cfg.axis = "none"
         \/ cfg.est = "vimco" /\ S < 2
         \/ cfg.obj = "klpq" /\ cfg.est = "value"
Axes == {"pos", "neg", "none"}
Sensible ==
  /\ (cfg.est = "sgvb" => cfg.obj \in {"elbo", "iw"} /\ cfg.rep)
  /\ (cfg.est = "reinforce" => cfg.obj = "elbo")
  /\ (cfg.est = "vimco" => cfg.obj = "iw")
  /\ (cfg.est = "importance" => cfg.obj = "klpq")
  /\ (cfg.est \in {"reinforce", "vimco", "importance", "value"} => ~cfg.rep)
  /\ (cfg.est # "reinforce" => ~cfg.baseline /\ cfg.reduce /\ cfg.decay = 4)
  /\ (cfg.baseline => cfg.reduce)
  /\ (cfg.est # "value" => cfg.set \in {"plain", "mixed"})
  /\ (cfg.set = "override" => cfg.est = "value")
  /\ (cfg.axis = "none" => cfg.at = 0 /\ Len(cfg.sdims) = 1)
  /\ cfg.at <= Len(cfg.rest)
  /\ (Len(cfg.sdims) > 1 => cfg.est # "vimco")    \* vimco has one sample axis
  /\ (cfg.set \in {"neither", "both", "notnet"} => cfg.q = "net" /\ cfg.at = 0)
  /\ (cfg.set = "missing" => NL = 2)
  /\ (cfg.model = "fn" /\ cfg.set = "missing" => FALSE)
  /\ (cfg.set \in {"mixed", "dangling"} => cfg.q = "net")
Init == /\ cfg \in [obj : Objs, est : Ests, model : Models, q : Qs, nl : NLats, sdims : Sdims, rest : Rests,
                    axis : Axes, at : {0, 1, 2}, seed : {0}, set : Sets, rep : BOOLEAN,
                    baseline : BOOLEAN, reduce : BOOLEAN, decay : {1, 2, 4}]
        /\ Sensible /\ st = "new"
Seed == st = "new" /\ \E k \in Seeds : cfg' = [cfg EXCEPT !.seed = k] /\ st' = "done"
Next == Seed
Spec == Init /\ [][Next]_vars

(* the estimators that do not differentiate through samples give no gradient to phi but through log q *)
NoPath == st = "done" /\ ~Rep /\ ~Error => \A s \in Samples, b \in Cells, l \in Lats :
             IsZero(D(LogP(s, b), "phi_" \o LName(l)))
(* one sample: the importance weighted bound is the evidence lower bound, as expressions of equal summands *)
OneSample == st = "done" /\ S = 1 => Value(1)[1] \in {"div", "sub"}
Case == [cfg |-> cfg, S |-> S, B |-> B, error |-> Error,
   base |-> [l \in Lats |-> [s \in Samples |-> [b \in Cells |-> Base(l, s, b)]]],
   eps |-> [l \in Lats |-> [s \in Samples |-> [b \in Cells |-> EpsT(l, s, b)]]],
   x |-> [b \in Cells |-> XT(b)], o |-> [s \in Samples |-> [b \in Cells |-> OT(s, b)]],
   value |-> IF Error THEN <<>> ELSE [b \in Cells |-> Value(b)],
   grads |-> IF Error \/ cfg.est = "value" THEN <<>> ELSE [p \in Params |-> Grad(p)],
   basecost |-> IF cfg.est = "reinforce" /\ cfg.baseline THEN [b \in Cells |-> BaseCost(b)] ELSE <<>>,
   basegrads |-> IF cfg.est = "reinforce" /\ cfg.baseline THEN [p \in Params |-> BaseGrad(p)] ELSE <<>>,
   moving |-> IF cfg.est = "reinforce" /\ cfg.reduce THEN Moving ELSE <<>>,
   iters |-> Iters]
Emit == st = "done" => CSVWrite("%1$s", <<ToJson(Case)>>, IOEnv.VERIF_OUT)
=============================================================================
