------------------------------- MODULE Refusal -------------------------------
(* Which arguments of a distribution are refused.  A behaviour starts from a *)
(* valid call of a law's constructor, spoils at most one thing about it and  *)
(* says which queries (drawing a sample, evaluating the log density) must    *)
(* fail, at construction or at the latest when they are run.                 *)
EXTENDS Laws, Json, CSV, IOUtils
CONSTANTS Lws, Modes, Floats
VARIABLES cfg, fault, st
vars == <<cfg, fault, st>>
law == cfg.law
P == Params(law)
Slots == 1..Len(P)
FSlots == {i \in Slots : P[i][2] # "n"}
Fed == cfg.mode # "known"        \* "fed": nothing is known before the run; "rank": only the ranks are
(* ---- the faults a law can have ---- *)
Discrete == ~Continuous(law)
Checks == Continuous(law) \/ law \in {"Poisson", "Binomial"}    \* laws with check_numerics
Numerics ==
  CASE law \in {"Normal.std", "FoldNormal.std"} -> {"std=0"}
    [] law \in {"Normal.logstd", "FoldNormal.logstd"} -> {"logstd=-800"}
    [] law = "Uniform" -> {"maxval=minval", "x=-9", "x=9"}
    [] law \in {"Gamma", "InverseGamma"} -> {"alpha=0", "beta=0", "x=0"}
    [] law = "Beta" -> {"alpha=0", "beta=0", "x=0", "x=1"}
    [] law = "Poisson" -> {"rate=0", "x=-1"}
    [] law = "Binomial" -> {"x=-1", "x=5"}
    [] law = "Laplace" -> {"scale=0"}
    [] law = "BinConcrete" -> {"temperature=0", "x=0", "x=1"}
    [] law = "Dirichlet" -> {"alpha=0", "x=0"}
    [] law = "Concrete" -> {"temperature=0", "x=0"}
    [] law = "ExpConcrete" -> {"temperature=0"}
    [] law = "MultivariateNormalCholesky" -> {"cov_tril=0"}
    [] law = "MatrixVariateNormalCholesky" -> {"u_tril=0", "v_tril=0"}
    [] OTHER -> {}
Faults ==
  {<<"none", "">>}
  \cup {<<"intdtype", P[i][1]>> : i \in FSlots}
  \cup (IF Cardinality(FSlots) > 1 THEN {<<"otherdtype", P[i][1]>> : i \in FSlots} ELSE {})
  \cup {<<"rank", P[i][1]>> : i \in {j \in Slots : P[j][2] \in {"v", "m", "rk", "rr", "s"}}}
  \cup {<<"unitrank", P[i][1]>> : i \in {j \in Slots : P[j][2] = "s"}}
  \cup (IF TwoBatch(law) THEN {<<"mismatch", P[2][1]>>, <<"mismatch", P[1][1]>>} ELSE {})
  \cup (IF SameBatch(law) THEN {<<"mismatch", P[i][1]>> : i \in 2..Len(P)} \cup {<<b, P[i][1]>> : i \in 2..Len(P), b \in {"batch", "unit", "fromunit", "wider", "wider1", "narrower", "oblong"}} ELSE {})
  \cup (IF \E i \in Slots : P[i][2] = "n" /\ law # "Multinomial.free"
        THEN {<<"count", v>> : v \in {"zero", "negative", "vector", "vector1"} \cup (IF Fed THEN {} ELSE {"float"})} ELSE {})
  \cup (IF Discrete THEN {<<"sdtype", v>> : v \in {"bool", "uint8", "complex64", "string", "int16", "float16", "int64", "float64", "float32"}} ELSE {})
  \cup (IF law \in {"Normal.std", "Normal.logstd", "FoldNormal.std", "FoldNormal.logstd"}
        THEN {<<"stdspec", v>> : v \in {"both", "neither", "positional"}} ELSE {})
  \cup {<<"group", v>> : v \in {"negative", "vector", "vector1", "old", "fraction"}}
  \cup (IF CanSample(law) THEN {<<"nsamples", v>> : v \in {"vector", "vector1", "fraction"}} ELSE {})
  \cup {<<"given", "mismatch">>}
  \cup (IF ValueRank(law) > 0 THEN {<<"given", "value">>} ELSE {})
  \cup (IF law = "Dirichlet" THEN {<<"categories", "">>} ELSE {})
  \cup {<<"numerics", v>> : v \in Numerics}
GoodSampleType(v) == IF law = "Categorical" THEN v \in {"float32", "float64", "int32", "int64"}
                     ELSE v \in {"float16", "float32", "float64", "int16", "int32", "int64"}
Queries == (IF CanSample(law) \/ law = "Multinomial.raw" THEN {"sample"} ELSE {}) \cup {"log_prob"}
Refused ==
  CASE fault[1] = "none" -> {}
    [] fault[1] = "sdtype" -> IF GoodSampleType(fault[2]) THEN {} ELSE Queries
    [] fault[1] = "numerics" -> IF cfg.check THEN {"log_prob"} ELSE {}
    [] fault[1] \in {"given"} -> {"log_prob"}
    [] fault[1] = "group" -> IF fault[2] = "old" THEN Queries ELSE {"log_prob"}
    [] fault[1] = "nsamples" -> {"sample"}
    [] OTHER -> Queries
(* drawing is not asked for where the parameters themselves are out of range, or where the *)
(* fault only concerns the density: constructing may refuse already                        *)
Asked == IF fault[1] = "numerics" \/ (fault[1] = "group" /\ fault[2] # "old") THEN {"log_prob"} ELSE Queries
Init == /\ cfg \in [law : Lws, mode : Modes, float : Floats, check : BOOLEAN]
        /\ (cfg.check => Checks) /\ fault = <<"none", "">> /\ st = "call"
Spoil == st = "call" /\ fault' \in Faults /\ st' = "done" /\ UNCHANGED cfg
Next == Spoil
Spec == Init /\ [][Next]_vars
(* a call with nothing wrong about it is never refused, one fault is enough to be *)
Fair == st = "done" => (fault[1] = "none" => Refused = {}) /\ Refused \subseteq Asked
Case == [law |-> law, cfg |-> cfg, fault |-> fault, params |-> P, refused |-> Refused, asked |-> Asked,
         vrank |-> ValueRank(law)]
Emit == st = "done" => CSVWrite("%1$s", <<ToJson(Case)>>, IOEnv.VERIF_OUT)
=============================================================================
