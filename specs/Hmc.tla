-------------------------------- MODULE Hmc --------------------------------
(* Adaptation of Hamiltonian Monte Carlo.  The state machine below says, for *)
(* every sequence of adaptation flags, what each iteration does: collect for *)
(* the mass or not, which mass it moves with, whether the step size is       *)
(* searched anew, whether it is tuned (afresh or going on) or averaged.      *)
(* What each of these means numerically is the program of that name at the   *)
(* end, assignments of symbolic expressions (Expr.tla) the replay evaluates; *)
(* the gradient is the symbolic derivative of the log joint.                 *)
EXTENDS Expr, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Given,      \* which adaptations the sampler is built with: subset of {"none", "step", "both"}
          MassFrom,   \* set of mass_collect_iters
          Leaps,      \* set of n_leapfrogs
          Hyper,      \* set of names of hyper-parameter sets (harness table of numbers)
          Layouts, Iters,
          Asks,       \* which iterations ask for the info: "all", "some", or only the "last"
          Switches    \* how often the flags may change
VARIABLES cfg, t, collected, tuned, sw, flags, ver, hist, st
vars == <<cfg, t, collected, tuned, sw, flags, ver, hist, st>>

Init ==
  /\ cfg \in [given : Given, mci : MassFrom, n : Leaps, hyper : Hyper, lay : Layouts, ask : Asks]
  /\ (cfg.given # "both" => cfg.mci = CHOOSE m \in MassFrom : \A k \in MassFrom : m <= k)
  /\ t = 0 /\ collected = 0 /\ tuned = 0 /\ sw = 0
  /\ flags \in [step : BOOLEAN, mass : BOOLEAN]
  /\ (cfg.given = "none" => ~flags.step) /\ (cfg.given # "both" => ~flags.mass)
  /\ ver = [eps |-> 0, bar |-> 0, mass |-> 0]
  /\ hist = <<>> /\ st = "run"

Restart(n) == n = 1 \/ (cfg.given = "both" /\ n = cfg.mci)
Iterate ==
  /\ st = "run" /\ t < Iters
  /\ LET n == t + 1
         search == cfg.given # "none" /\ flags.step /\ Restart(n)
         usevar == cfg.given = "both" /\ n >= cfg.mci
         coll == IF flags.mass THEN collected + 1 ELSE collected
         \* no history collected yet: unit mass
         mass == IF usevar /\ coll > 0 THEN "var" ELSE "one"
         after == CASE cfg.given = "none" -> "keep"
                    [] flags.step -> "tune"
                    [] OTHER -> "average"
         mold == IF t >= 1 /\ cfg.given = "both" /\ t >= cfg.mci /\ collected > 0 THEN "var" ELSE "one"
     IN /\ t' = n
        /\ collected' = coll
        /\ tuned' = IF after = "tune" THEN (IF search THEN 1 ELSE tuned + 1) ELSE tuned
        /\ ver' = [eps |-> IF after = "keep" THEN ver.eps
                           ELSE IF after = "tune" THEN n * 2
                           ELSE ver.bar,
                   bar |-> IF after = "tune" THEN n * 2 + 1 ELSE ver.bar,
                   mass |-> IF mass = "var" /\ (flags.mass \/ mold = "one") THEN n ELSE ver.mass]
        /\ hist' = Append(hist, [asked |-> CASE cfg.ask = "all" -> TRUE [] cfg.ask = "last" -> n = Iters [] OTHER -> n % 4 = 1,
                                 step |-> flags.step, mass |-> flags.mass, collect |-> flags.mass,
                                 usemass |-> mass, search |-> search, after |-> after,
                                 fresh |-> search, eps |-> ver'.eps, massv |-> ver'.mass])
  /\ UNCHANGED <<cfg, sw, flags, st>>
Switch ==
  /\ st = "run" /\ sw < Switches /\ t >= 1 /\ t < Iters /\ cfg.given # "none"
  /\ hist[t].step = flags.step /\ hist[t].mass = flags.mass
  /\ \E f \in [step : BOOLEAN, mass : BOOLEAN] :
        f # flags /\ (cfg.given # "both" => ~f.mass) /\ flags' = f
  /\ sw' = sw + 1
  /\ UNCHANGED <<cfg, t, collected, tuned, ver, hist, st>>
Finish == st = "run" /\ t = Iters /\ st' = "done" /\ UNCHANGED <<cfg, t, collected, tuned, sw, flags, ver, hist>>
Next == Iterate \/ Switch \/ Finish
Spec == Init /\ [][Next]_vars

(* a quantity whose adaptation is off stays what it is *)
OffMeansConstant == \A i \in 2..Len(hist) :
   /\ (~hist[i].step /\ ~hist[i - 1].step => hist[i].eps = hist[i - 1].eps)
   /\ (~hist[i].mass /\ (i > cfg.mci \/ cfg.given # "both") => hist[i].massv = hist[i - 1].massv)
(* with no adaptation at all, everything stays as given *)
NeverAdapted == (\A i \in 1..Len(hist) : ~hist[i].step /\ ~hist[i].mass) =>
   ver.eps = 0 /\ ver.mass = 0
(* the recursion has run once per tuned iteration since its last restart *)
Counts ==
   LET starts == {i \in 1..Len(hist) : hist[i].fresh}
       from == IF starts = {} THEN 0 ELSE CHOOSE i \in starts : \A j \in starts : j <= i
   IN /\ tuned = Cardinality({i \in 1..Len(hist) : hist[i].after = "tune" /\ i >= from})
      /\ collected = Cardinality({i \in 1..Len(hist) : hist[i].collect})
OneBefore == \A i \in 1..Len(hist) : (i < cfg.mci \/ cfg.given # "both") => hist[i].usemass = "one"

---------------------------------------------------------------------------
(* the log joint: two latent variables a (chains x 2) and b (chains x 1), observed x and s *)
LJ(a, b) == Sub(Neg(Add(Mul(Half, Mul(Var("s"), Sq(Sub(Var(a), Var("x"))))), Mul(Rat(1, 8), Sq(Var(b))))),
                Ln(Add(Num(1), Ex(Mul(Var(a), Var(b))))))
INSTANCE HmcProg WITH Elem <- LJ, Leapfrogs <- cfg.n
EmitProg == t = 0 => CSVWrite("%1$s", <<ToJson([def |-> <<cfg.n>>, prog |-> Program])>>, IOEnv.VERIF_OUT)
Emit == st = "done" => CSVWrite("%1$s", <<ToJson([ref |-> <<cfg.n>>, cfg |-> cfg, hist |-> hist])>>, IOEnv.VERIF_OUT)
=============================================================================
