----------------------------- MODULE DistSample -----------------------------
(* The law of samples.  For every law the specification gives transforms of  *)
(* a sample that are uniform on (0,1) (continuous laws: probability integral *)
(* transforms, and for multivariate laws transforms that are independent of  *)
(* one another), or the mass of every outcome (discrete laws), and the       *)
(* support.  A behaviour chooses a law, the layout of its parameter batch    *)
(* and the regime of its parameters, and says which parameter entries each   *)
(* batch member of the samples is governed by; batch members, sample indices *)
(* and runs are independent.                                                 *)
EXTENDS Laws, Shape, Json, CSV, IOUtils
CONSTANTS Lws, Layouts, Regimes, Ks, R
VARIABLES law, lay, reg, K, st
vars == <<law, lay, reg, K, st>>

Phi(a) == <<"ncdf", a>>
GammaP(a, z) == <<"gammap", a, z>>
BetaI(a, b, z) == <<"betai", a, b, z>>
Logistic(a) == Div(Num(1), Add(Num(1), Ex(Neg(a))))

(* uniform transforms <<name, expression>> *)
FoldU(m, s) == Sub(Phi(Div(Sub(x, m), s)), Phi(Div(Sub(Neg(x), m), s)))
U1(e) == << <<"u", e>> >>
Transforms ==
  CASE law = "Normal.std" -> U1(Phi(Div(Sub(x, Var("mean")), Var("std"))))
    [] law = "Normal.logstd" -> U1(Phi(Div(Sub(x, Var("mean")), Ex(Var("logstd")))))
    [] law = "FoldNormal.std" -> U1(FoldU(Var("mean"), Var("std")))
    [] law = "FoldNormal.logstd" -> U1(FoldU(Var("mean"), Ex(Var("logstd"))))
    [] law = "Laplace" -> LET d == Sub(x, Var("loc")) IN
         U1(Add(Half, Mul(Half, Mul(Sgn(d), Sub(Num(1), Ex(Neg(Div(Abs(d), Var("scale")))))))))
    [] law = "Uniform" -> U1(Div(Sub(x, Var("minval")), Sub(Var("maxval"), Var("minval"))))
    [] law = "Gamma" -> U1(GammaP(Var("alpha"), Mul(Var("beta"), x)))
    [] law = "InverseGamma" -> U1(GammaP(Var("alpha"), Div(Var("beta"), x)))
    [] law = "Beta" -> U1(BetaI(Var("alpha"), Var("beta"), x))
    [] law = "BinConcrete" ->
         U1(Logistic(Sub(Mul(Var("temperature"), Sub(Ln(x), Ln(Sub(Num(1), x)))), Var("logits"))))
    [] law \in {"Concrete", "ExpConcrete"} ->
         \* differences of Gumbel variables are logistic
         LET y(i) == IF law = "Concrete" THEN Ln(V("x", i)) ELSE V("x", i) IN
         [i \in 1..(K - 1) |-> <<"pair" \o ToString(i),
            Logistic(Sub(Mul(Var("temperature"), Sub(y(i), y(i + 1))),
                         Sub(V("logits", i), V("logits", i + 1))))>>]
    [] law = "Dirichlet" ->
         \* stick breaking: x_i / (x_i + ... + x_K) are independent Beta variables
         [i \in 1..(K - 1) |-> <<"stick" \o ToString(i),
            BetaI(V("alpha", i), SumE([j \in 1..(K - i) |-> V("alpha", i + j)]),
                  Div(V("x", i), SumE([j \in 1..(K - i + 1) |-> V("x", i + j - 1)])))>>]
    [] law = "MultivariateNormalCholesky" ->
         LET C(i, j) == V2("cov_tril", i, j)
             y == [i \in 1..K |-> Sub(V("x", i), V("mean", i))]
         IN [i \in 1..K |-> <<"z" \o ToString(i), Phi(Solve(C, y, i))>>]
    [] law = "MatrixVariateNormalCholesky" ->
         LET U(i, j) == V2("u_tril", i, j)
             W(i, j) == V2("v_tril", i, j)
             y(c) == [i \in 1..R |-> Sub(V2("x", i, c), V2("mean", i, c))]
             z(r, c) == Solve(W, [k \in 1..K |-> Solve(U, y(k), r)], c)
             pr == Pairs(R, K)
         IN [k \in 1..(R * K) |-> <<"z" \o ToString(k), Phi(z(pr[k][1], pr[k][2]))>>]
    [] OTHER -> <<>>
(* are the transforms of one sample independent of one another? *)
Independent == law \notin {"Concrete", "ExpConcrete"}
(* one draw of several must be as likely as its mass says: outcomes are enumerated by the harness *)
Discrete == ~Continuous(law)
(* the support, as <<what, ...>> checked on every sample *)
Support ==
  CASE law \in {"FoldNormal.std", "FoldNormal.logstd", "Gamma", "InverseGamma"} -> <<"nonneg">>
    [] law = "Uniform" -> <<"between", "minval", "maxval">>
    [] law \in {"Beta", "BinConcrete"} -> <<"unit">>
    [] law \in {"Dirichlet", "Concrete"} -> <<"simplex">>
    [] law = "ExpConcrete" -> <<"logsimplex">>
    [] law = "Bernoulli" -> <<"upto", 1>>
    [] law = "Poisson" -> <<"count">>
    [] law = "Binomial" -> <<"uptoN">>
    [] law = "Categorical" -> <<"upto", K - 1>>
    [] law = "OnehotCategorical" -> <<"sum", 1>>
    [] law = "Multinomial" -> <<"sumN">>
    [] OTHER -> <<"real">>

B1 == lay[1]
B2 == IF TwoBatch(law) THEN lay[2] ELSE lay[1]
Batch == Bcast(B1, B2)
(* the regime "edge": logits so extreme that some outcomes have no mass left *)
Edged == ~Continuous(law) /\ \E i \in 1..Len(Params(law)) : Params(law)[i][1] = "logits"
Init == /\ law \in Lws /\ CanSample(law)
        /\ lay \in Layouts /\ (~TwoBatch(law) => lay[1] = lay[2])
        /\ reg \in Regimes /\ (reg = "edge" => Edged) /\ K \in Ks /\ st = "new"
        /\ (ValueRank(law) = 0 /\ law # "Categorical" => K = CHOOSE k \in Ks : TRUE)
Done == st = "new" /\ st' = "done" /\ UNCHANGED <<law, lay, reg, K>>
Next == Done
Spec == Init /\ [][Next]_vars

Tail3(kind) == CASE kind \in {"b", "s", "n"} -> <<>> [] kind = "v" -> <<K>>
                 [] kind = "m" -> <<K, K>> [] kind = "rk" -> <<R, K>> [] kind = "rr" -> <<R, R>>
ParamShape(i) ==
  LET kind == Params(law)[i][2]
  IN (IF kind \in {"s", "n"} THEN <<>> ELSE IF i = 2 /\ TwoBatch(law) THEN B2 ELSE B1) \o Tail3(kind)
Members == [o \in 1..Prod(Batch) |->
   LET ix == Unravel(o - 1, Batch) IN <<Src(ix, B1), Src(ix, B2), o - 1>>]
(* transforms together see every parameter; a law is not blind to one of them *)
NotBlind == st = "done" /\ Continuous(law) =>
  \A i \in 1..Len(Params(law)) : \E t \in 1..Len(Transforms) :
     LET n == Params(law)[i][1]  k == Params(law)[i][2]
     IN \/ Mentions(Transforms[t][2], n)
        \/ k \in {"v", "m", "rk", "rr"}
Case == [law |-> law, K |-> K, R |-> R, regime |-> reg, discrete |-> Discrete,
         params |-> [i \in 1..Len(Params(law)) |-> <<Params(law)[i][1], Params(law)[i][2], ParamShape(i)>>],
         batch |-> Batch, value |-> IF ValueRank(law) = 0 THEN <<>> ELSE IF ValueRank(law) = 1 THEN <<K>> ELSE <<R, K>>,
         members |-> Members, transforms |-> Transforms, indep |-> Independent, support |-> Support,
         ld |-> IF Discrete THEN LogDensity(law, R, K) ELSE <<>>]
Emit == st = "done" => CSVWrite("%1$s", <<ToJson(Case)>>, IOEnv.VERIF_OUT)
=============================================================================
