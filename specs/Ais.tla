-------------------------------- MODULE Ais --------------------------------
(* Annealed importance sampling.  A run draws the chains from the proposal,  *)
(* makes n_adapt transitions that do not count, draws the chains anew, and   *)
(* makes one transition per temperature t_1 < ... < t_n = 1 (t_0 = 0).  A    *)
(* chain's weight is the product over k of p_k(z_{k-1}) / p_{k-1}(z_{k-1}),  *)
(* p_k the density at temperature t_k.                                       *)
(*                                                                           *)
(* The first part checks this bookkeeping on all paths of an abstract chain  *)
(* with integer log densities; the second emits the runs the code is         *)
(* compared on, with the weight and the transition as expressions.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils, Expr
CONSTANTS Temps,      \* set of n_temperatures
          Adapts,     \* set of n_adapt
          Kinds,      \* targets: "same" (proposal times a constant), "other"
          Draws,      \* acceptance draws: "all", "some"
          Layouts, Leaps,
          Offs,       \* normalising constants: "unit", beyond what exp can hold ("huge"), below it ("tiny")
          Locs, Vals  \* abstract chain: locations and log densities
VARIABLES cfg, pc, k, z, f, w1, w2, path
vars == <<cfg, pc, k, z, f, w1, w2, path>>

(* tempered log density n * log p_k at location x, for the abstract schedule k/n *)
At(kk, x) == (cfg.n - kk) * f.prior[x] + kk * f.joint[x]
Fs == [prior : [Locs -> Vals], joint : [Locs -> Vals]]
Const == 2
Init == /\ cfg \in [n : Temps, adapt : Adapts, kind : Kinds, draw : Draws, lay : Layouts, leap : Leaps, off : Offs]
        /\ f \in Fs /\ (cfg.kind = "same" => \A x \in Locs : f.joint[x] = f.prior[x] + Const)
        /\ pc = "init" /\ k = 0 /\ z = 0 /\ w1 = 0 /\ w2 = 0 /\ path = <<>>
FromProposal == /\ pc = "init" /\ z' \in Locs /\ pc' = "adapt" /\ k' = 0
                /\ path' = Append(path, "init") /\ UNCHANGED <<cfg, f, w1, w2>>
Adapt == /\ pc = "adapt" /\ k < cfg.adapt /\ z' \in Locs /\ k' = k + 1
         /\ path' = Append(path, "move") /\ UNCHANGED <<cfg, f, w1, w2, pc>>
Redraw == /\ pc = "adapt" /\ k = cfg.adapt /\ z' \in Locs /\ k' = 0 /\ pc' = "anneal"
          /\ w1' = -At(0, z') /\ w2' = 0
          /\ path' = Append(path, "init") /\ UNCHANGED <<cfg, f>>
Anneal == /\ pc = "anneal" /\ k < cfg.n
          /\ k' = k + 1 /\ z' \in Locs
          \* as accumulated during the run, and as the ratio it stands for
          /\ w1' = w1 + At(k + 1, z) - (IF k + 1 < cfg.n THEN At(k + 1, z') ELSE 0)
          /\ w2' = w2 + At(k + 1, z) - At(k, z)
          /\ path' = Append(path, "move")
          /\ pc' = IF k + 1 = cfg.n THEN "done" ELSE "anneal"
          /\ UNCHANGED <<cfg, f>>
Next == FromProposal \/ Adapt \/ Redraw \/ Anneal
Spec == Init /\ [][Next]_vars
SameWeight == pc = "done" => w1 = w2
ExactIfProportional == pc = "done" /\ cfg.kind = "same" => w1 = cfg.n * Const
Path == pc = "done" => Len(path) = cfg.adapt + cfg.n + 2

---------------------------------------------------------------------------
(* the temperatures: a logistic curve from -4 to 4, scaled to start at 0 and end at 1 *)
Sig(kk, n) == Div(Num(1), Add(Num(1), Ex(Mul(Num(-4), Sub(Rat(2 * kk, n), Num(1))))))
Sched(kk, n) == Div(Sub(Sig(kk, n), Sig(0, n)), Sub(Sig(n, n), Sig(0, n)))
(* densities before the sum over data: Laplace proposals of a and b; the joint *)
Lap(x, loc, sc) == Sub(Neg(Div(Abs(Sub(Var(x), Var(loc))), Var(sc))), Ln(Mul(Num(2), Var(sc))))
PriorA(a) == Lap(a, "loc_a", "sc_a")
PriorB(b) == Lap(b, "loc_b", "sc_b")
Other(a, b) == Sub(Neg(Add(Mul(Half, Mul(Var("s"), Sq(Sub(Var(a), Var("x"))))), Mul(Rat(1, 8), Sq(Var(b))))),
                   Ln(Add(Num(1), Ex(Mul(Var(a), Var(b))))))
\* summed over data separately: the sums of a chain's terms
Tempered(lp, lj) == Add(Mul(Sub(Num(1), Var("T")), lp), Mul(Var("T"), lj))
DS(e) == <<"dsum", e>>
Prior(a, b) == Add(DS(PriorA(a)), DS(PriorB(b)))
Joint(a, b) == Add(IF cfg.kind = "same" THEN Prior(a, b) ELSE DS(Other(a, b)), Var("c"))
Red(e, n) == <<"redto", e, Var(n)>>
GA(a, b) == Tempered(Red(D(PriorA(a), a), a), IF cfg.kind = "same" THEN Red(D(PriorA(a), a), a) ELSE Red(D(Other(a, b), a), a))
GB(a, b) == Tempered(Red(D(PriorB(b), b), b), IF cfg.kind = "same" THEN Red(D(PriorB(b), b), b) ELSE Red(D(Other(a, b), b), b))
LogP(a, b) == Tempered(Prior(a, b), Joint(a, b))
S(n, e) == <<"set", n, e>>
Ham(a, b, pa, pb) == Sub(Add(DS(Mul(Half, Sq(Var(pa)))), DS(Mul(Half, Sq(Var(pb))))), LogP(a, b))
Kick(e) == << S("ga", GA("ca", "cb")), S("gb", GB("ca", "cb")),
              S("cpa", Add(Var("cpa"), Mul(e, Var("ga")))), S("cpb", Add(Var("cpb"), Mul(e, Var("gb")))) >>
Drift == << S("ca", Add(Var("ca"), Mul(Var("eps"), Var("cpa")))), S("cb", Add(Var("cb"), Mul(Var("eps"), Var("cpb")))) >>
HalfEps == Mul(Half, Var("eps"))
RECURSIVE Traj(_)
Traj(n) == IF n = 0 THEN <<>> ELSE Drift \o Kick(IF n = 1 THEN HalfEps ELSE Var("eps")) \o Traj(n - 1)
Move == << S("ca", Var("a")), S("cb", Var("b")), S("cpa", Var("pa")), S("cpb", Var("pb")) >>
        \o Kick(HalfEps) \o Traj(cfg.leap)
        \o << S("h0", Ham("a", "b", "pa", "pb")), S("h1", Ham("ca", "cb", "cpa", "cpb")) >>
(* log weight increment at the state before transition k *)
Increment == << S("inc", Sub(Add(Mul(Sub(Num(1), Var("T")), Prior("a", "b")), Mul(Var("T"), Joint("a", "b"))),
                             Add(Mul(Sub(Num(1), Var("Tp")), Prior("a", "b")), Mul(Var("Tp"), Joint("a", "b"))))) >>
Emit == pc = "done" /\ path = path =>
  CSVWrite("%1$s", <<ToJson([cfg |-> cfg, path |-> path,
      temps |-> [j \in 1..(cfg.n + 1) |-> Sched(j - 1, cfg.n)],
      move |-> Move, inc |-> Increment])>>, IOEnv.VERIF_OUT)
=============================================================================
