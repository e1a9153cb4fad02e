------------------------------ MODULE DistLaw ------------------------------
(* Points (parameters, value) at which the log density of a law is demanded, *)
(* over grids of rationals that include the extremes the laws must survive.  *)
(* A behaviour fixes the variables of the law one after the other.           *)
EXTENDS Laws, Json, CSV, IOUtils

CONSTANTS Lws, Sizes, Rich, Grads
VARIABLES law, R, K, todo, env, fin
vars == <<law, R, K, todo, env, fin>>

Z(n) == <<n, 1>>
(* the variables of a law: <<name, class>> in the order they are fixed *)
VecVars(n, c) == [i \in 1..K |-> <<n \o ToString(i), c>>]
TriVars(n, m) == [k \in 1..((m * (m + 1)) \div 2) |->
   LET i == CHOOSE r \in 1..m : (r * (r - 1)) \div 2 < k /\ k <= (r * (r + 1)) \div 2
       j == k - (i * (i - 1)) \div 2
   IN <<n \o ToString(i) \o ToString(j), IF i = j THEN "diag" ELSE "off">>]
MatVars(n, c) == [k \in 1..(R * K) |->
   <<n \o ToString(((k - 1) \div K) + 1) \o ToString(((k - 1) % K) + 1), c>>]
VarsOf ==
  CASE law \in {"Normal.std", "FoldNormal.std"} -> << <<"mean", "real">>, <<"std", "scale">>, <<"x", "realx">> >>
    [] law \in {"Normal.logstd", "FoldNormal.logstd"} -> << <<"mean", "real">>, <<"logstd", "logs">>, <<"x", "realx">> >>
    [] law = "Laplace" -> << <<"loc", "real">>, <<"scale", "scale">>, <<"x", "realx">> >>
    [] law = "Uniform" -> << <<"minval", "lo">>, <<"maxval", "hi">>, <<"x", "unix">> >>
    [] law \in {"Gamma", "InverseGamma"} -> << <<"alpha", "pos">>, <<"beta", "pos">>, <<"x", "posx">> >>
    [] law = "Beta" -> << <<"alpha", "pos">>, <<"beta", "pos">>, <<"x", "unit">> >>
    [] law = "Bernoulli" -> << <<"logits", "logit">>, <<"x", "bit">> >>
    [] law = "Poisson" -> << <<"rate", "pos">>, <<"x", "count">> >>
    [] law = "Binomial" -> << <<"logits", "logit">>, <<"n_experiments", "n">>, <<"x", "upto">> >>
    [] law = "BinConcrete" -> << <<"temperature", "temp">>, <<"logits", "logitc">>, <<"x", "unit">> >>
    [] law = "Categorical" -> VecVars("logits", "logitv") \o << <<"x", "index">> >>
    [] law = "OnehotCategorical" -> VecVars("logits", "logitv") \o << <<"x", "index">> >>
    [] law \in {"UnnormalizedMultinomial", "UnnormalizedMultinomial.raw", "Multinomial", "Multinomial.free",
                "Multinomial.raw"} -> VecVars("logits", "logitv") \o VecVars("x", "cnt")
    [] law = "Dirichlet" -> VecVars("alpha", "posv") \o VecVars("x", "weight")
    [] law \in {"Concrete", "ExpConcrete"} ->
         << <<"temperature", "temp">> >> \o VecVars("logits", "logitv2") \o VecVars("x", "weight")
    [] law = "MultivariateNormalCholesky" ->
         VecVars("mean", "realm") \o TriVars("cov_tril", K) \o VecVars("x", "realm")
    [] law = "MatrixVariateNormalCholesky" ->
         MatVars("mean", "realm") \o TriVars("u_tril", R) \o TriVars("v_tril", K) \o MatVars("x", "realm")

Get(n) == LET k == CHOOSE i \in 1..Len(env) : env[i][1] = n IN <<env[k][2], env[k][3]>>
(* <<n, 0>> stands for 10^n (integers of the model checker are too short for it) *)
Less(a, b) == a[1] * b[2] < b[1] * a[2]
Grid(c) ==
  CASE c = "real" -> {Z(-3), <<1, 2>>, Z(0)} \cup (IF Rich THEN {Z(1000), <<-7, 3>>} ELSE {})
    [] c = "realx" -> {Z(-50), <<-1, 3>>, Z(0), <<3, 2>>, Z(7)} \cup (IF Rich THEN {Z(1001), Z(-2)} ELSE {})
    [] c = "scale" -> {<<1, 8>>, Z(1), <<5, 2>>} \cup (IF Rich THEN {Z(100), <<1, 50>>} ELSE {})
    [] c = "logs" -> {Z(-2), Z(0), <<3, 2>>} \cup (IF Rich THEN {Z(-8), Z(6)} ELSE {})
    [] c = "lo" -> {Z(-2), Z(0), <<1, 2>>}
    [] c = "hi" -> {v \in {<<-1, 2>>, Z(1), Z(3), Z(100)} : Less(Get("minval"), v)}
    [] c = "unix" -> {Get("minval"), Get("maxval"), <<3, 4>>, Z(-3), Z(50), <<-1, 4>>, <<1, 2>>}
    [] c = "pos" -> {<<1, 4>>, Z(1), <<5, 2>>, Z(30)} \cup (IF Rich THEN {<<1, 50>>, Z(200), Z(2)} ELSE {})
    [] c = "posx" -> {<<1, 100>>, <<1, 2>>, Z(1), Z(40)} \cup (IF Rich THEN {Z(3), <<1, 3000>>} ELSE {})
    [] c = "unit" -> {<<1, 1000>>, <<1, 4>>, <<1, 2>>, <<99, 100>>} \cup (IF Rich THEN {<<7, 8>>, <<1, 30000>>} ELSE {})
    [] c = "logit" -> {Z(-80), <<-1, 2>>, Z(0), Z(3), Z(85)} \cup (IF Rich THEN {Z(-5), Z(20), Z(-20), Z(1000), Z(-1000)} ELSE {})
    [] c = "logitc" -> {Z(-5), Z(0), <<3, 2>>, Z(20)}
    [] c = "temp" -> {<<1, 4>>, Z(1), Z(3)} \cup (IF Rich THEN {<<2, 3>>, <<1, 10>>, <<1, 40>>} ELSE {})
    [] c = "bit" -> {Z(0), Z(1)}
    [] c = "count" -> {Z(0), Z(1), Z(2), Z(9), Z(70)} \cup (IF Rich THEN {Z(3), Z(400)} ELSE {})
    [] c = "n" -> {Z(1), Z(2), Z(7), Z(30)}
    [] c = "upto" -> {v \in {Z(0), Z(1), Z(2), Z(5), Z(7), Z(29), Z(30)} : v[1] <= Get("n_experiments")[1]}
    [] c = "index" -> {Z(i) : i \in 0..(K - 1)}
    [] c = "logitv" -> {Z(-2), Z(0), Z(60)} \cup (IF Rich THEN {<<1, 2>>, Z(-70)} ELSE {})
    [] c = "logitv2" -> {Z(-2), Z(0), <<3, 2>>} \cup (IF Rich THEN {Z(12), Z(-150), Z(150)} ELSE {})
    [] c = "cnt" -> {Z(0), Z(1), Z(3)}
    [] c = "posv" -> {<<1, 2>>, Z(1), Z(4)} \cup (IF Rich THEN {Z(50), <<1, 20>>} ELSE {})
    [] c = "weight" -> {Z(1), Z(2), Z(5)} \cup (IF Rich THEN {Z(100)} ELSE {})
    [] c = "realm" -> {Z(-1), Z(0), <<3, 2>>} \cup (IF Rich THEN {Z(4)} ELSE {})
    [] c = "diag" -> {<<1, 2>>, Z(2)} \cup (IF Rich THEN {<<1, 10>>, Z(7), <<20, 0>>} ELSE {})
    [] c = "off" -> {Z(-1), Z(0), <<3, 4>>} \cup (IF Rich THEN {Z(3)} ELSE {})

(* inside the support? (only FoldNormal and Uniform promise a value outside) *)
InSupport ==
  CASE law \in {"FoldNormal.std", "FoldNormal.logstd"} -> ~Less(Get("x"), Z(0))
    [] law = "Uniform" -> ~Less(Get("x"), Get("minval")) /\ Less(Get("x"), Get("maxval"))
    [] OTHER -> TRUE

Init == /\ law \in Lws
        /\ \E s \in Sizes : R = s[1] /\ K = s[2]
        /\ (ValueRank(law) < 2 => R = 2)
        /\ (law = "Dirichlet" => K >= 2)
        /\ (ValueRank(law) = 0 /\ law # "Categorical" => K = 2)
        /\ todo = VarsOf /\ env = <<>> /\ fin = FALSE
Fix == /\ todo # <<>>
       /\ \E v \in Grid(Head(todo)[2]) : env' = Append(env, <<Head(todo)[1], v[1], v[2]>>)
       /\ todo' = Tail(todo) /\ UNCHANGED <<law, R, K, fin>>
Finish == todo = <<>> /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<law, R, K, todo, env>>
Next == Fix \/ Finish
Spec == Init /\ [][Next]_vars

(* ---- what the laws say about themselves ---- *)
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Choose(n - 1, k - 1) + Choose(n - 1, k)
RECURSIVE SumTo(_, _, _, _)
SumTo(n, k, a, b) == (IF k > n THEN 0 ELSE Choose(n, k) * Pow(a, k) * Pow(b, n - k) + SumTo(n, k + 1, a, b))
(* the binomial masses with odds a : b sum to one *)
ASSUME Normalised == \A n \in 1..5 : \A a, b \in 1..3 : SumTo(n, 0, a, b) = Pow(a + b, n)
(* the density mentions every variable that was fixed (no parameter is idle) *)
NoIdle == (env = <<>> /\ law \notin {"Categorical", "OnehotCategorical"}) =>
  \A i \in 1..Len(todo) : Mentions(LogDensity(law, R, K), todo[i][1])
                           \/ (law = "Uniform" /\ todo[i][1] = "x")

Names == [i \in 1..Len(VarsOf) |-> VarsOf[i][1]]
DV == LET e == LogDensity(law, R, K) IN
      [i \in 1..Len(VarsOf) |-> <<VarsOf[i][1], D(e, VarsOf[i][1])>>]
Def == [def |-> <<law, R, K>>, ld |-> LogDensity(law, R, K),
        dv |-> IF Grads THEN DV ELSE <<>>,
        jac |-> IF Grads THEN SampleJac(law, R, K) ELSE <<>>,
        rep |-> HasRep(law), path |-> HasPath(law), sample |-> CanSample(law),
        params |-> Params(law)]
Case == [ref |-> <<law, R, K>>, law |-> law, R |-> R, K |-> K, env |-> env, sup |-> InSupport]
Emit == IF env = <<>> /\ todo # <<>> THEN CSVWrite("%1$s", <<ToJson(Def)>>, IOEnv.VERIF_OUT)
        ELSE fin => CSVWrite("%1$s", <<ToJson(Case)>>, IOEnv.VERIF_OUT)
=============================================================================
