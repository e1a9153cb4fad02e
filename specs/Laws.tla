------------------------------- MODULE Laws -------------------------------
(* The probability laws zhusuan's distributions are documented to have.     *)
(* Parameters: mean/std/..., one variable per entry for vectors ("l1".."lK", *)
(* "x1".."xK") and matrices ("c12" = row 1, column 2).                       *)
EXTENDS Expr, FiniteSets, TLC

V(n, i) == Var(n \o ToString(i))
V2(n, i, j) == Var(n \o ToString(i) \o ToString(j))
x == Var("x")
Ln2Pi == Ln(Mul(Num(2), Pi))

NormalLD(m, s) == Sub(Neg(Add(Mul(Half, Ln2Pi), Ln(s))), Mul(Half, Sq(Div(Sub(x, m), s))))
FoldLD(m, s) == Add(NormalLD(m, s),
                    Ln(Add(Num(1), Ex(Neg(Div(Mul(Num(2), Mul(m, x)), Sq(s)))))))
BinConcreteLD ==
  LET t == Var("temperature")  l == Var("logits")  y == Sub(Num(1), x) IN
  Sub(Sub(Add(Ln(t), l), Mul(Add(t, Num(1)), Add(Ln(x), Ln(y)))),
      Mul(Num(2), Ln(Add(Ex(Sub(l, Mul(t, Ln(x)))), Ex(Neg(Mul(t, Ln(y))))))))

Ls(K) == [i \in 1..K |-> V("logits", i)]
Xs(K) == [i \in 1..K |-> V("x", i)]
CountsLD(K, norm) ==
  SumE([i \in 1..K |-> Mul(V("x", i), IF norm THEN Sub(V("logits", i), LSE(Ls(K)))
                                      ELSE V("logits", i))])
MultLD(K, norm) ==
  Add(Sub(LGam(Add(SumE(Xs(K)), Num(1))), SumE([i \in 1..K |-> LGam(Add(V("x", i), Num(1)))])),
      CountsLD(K, norm))
DirichletLD(K) ==
  Add(Sub(LGam(SumE([i \in 1..K |-> V("alpha", i)])), SumE([i \in 1..K |-> LGam(V("alpha", i))])),
      SumE([i \in 1..K |-> Mul(Sub(V("alpha", i), Num(1)), Ln(V("x", i)))]))
(* y: logs of the coordinates; jac: 1 for the law of the coordinates themselves *)
ConcreteLD(K, ys, jac) ==
  LET t == Var("temperature")
      u == [i \in 1..K |-> Sub(V("logits", i), Mul(t, ys[i]))]
  IN Sub(Add(Add(LGam(Num(K)), Mul(Num(K - 1), Ln(t))),
             SumE([i \in 1..K |-> Sub(u[i], Mul(Num(jac), ys[i]))])),
         Mul(Num(K), LSE(u)))

(* z_i of the lower triangular system  C z = y *)
RECURSIVE Solve(_, _, _)
Solve(C(_, _), y, i) ==
  LET prev == [j \in 1..(i - 1) |-> Mul(C(i, j), Solve(C, y, j))]
  IN Div(IF i = 1 THEN y[1] ELSE Sub(y[i], SumE(prev)), C(i, i))
MVNLD(K) ==
  LET C(i, j) == V2("cov_tril", i, j)
      y == [i \in 1..K |-> Sub(V("x", i), V("mean", i))]
  IN Sub(Neg(Add(Mul(Rat(K, 2), Ln2Pi), SumE([i \in 1..K |-> Ln(C(i, i))]))),
         Mul(Half, SumE([i \in 1..K |-> Sq(Solve(C, y, i))])))
MatLD(R, K) ==
  LET U(i, j) == V2("u_tril", i, j)
      W(i, j) == V2("v_tril", i, j)
      y(c) == [i \in 1..R |-> Sub(V2("x", i, c), V2("mean", i, c))]
      a(r, c) == Solve(U, y(c), r)                          \* U^-1 (X - M)
      z(r, c) == Solve(W, [k \in 1..K |-> a(r, k)], c)      \* ... V^-T
      all == [n \in 1..(R * K) |-> Sq(z(((n - 1) \div K) + 1, ((n - 1) % K) + 1))]
  IN Sub(Neg(Add(Mul(Rat(R * K, 2), Ln2Pi),
                 Add(Mul(Num(K), SumE([i \in 1..R |-> Ln(U(i, i))])),
                     Mul(Num(R), SumE([i \in 1..K |-> Ln(W(i, i))]))))),
         Mul(Half, SumE(all)))

(* log density (mass) at x, inside the support; K, R: event sizes *)
LogDensity(law, R, K) ==
  CASE law = "Normal.std"    -> NormalLD(Var("mean"), Var("std"))
    [] law = "Normal.logstd" -> NormalLD(Var("mean"), Ex(Var("logstd")))
    [] law = "FoldNormal.std"    -> FoldLD(Var("mean"), Var("std"))
    [] law = "FoldNormal.logstd" -> FoldLD(Var("mean"), Ex(Var("logstd")))
    [] law = "Laplace" -> Sub(Neg(Ln(Mul(Num(2), Var("scale")))),
                              Div(Abs(Sub(x, Var("loc"))), Var("scale")))
    [] law = "Uniform" -> Neg(Ln(Sub(Var("maxval"), Var("minval"))))
    [] law = "Gamma" -> Sub(Add(Sub(Mul(Var("alpha"), Ln(Var("beta"))), LGam(Var("alpha"))),
                                Mul(Sub(Var("alpha"), Num(1)), Ln(x))), Mul(Var("beta"), x))
    [] law = "InverseGamma" ->
         Sub(Sub(Sub(Mul(Var("alpha"), Ln(Var("beta"))), LGam(Var("alpha"))),
                 Mul(Add(Var("alpha"), Num(1)), Ln(x))), Div(Var("beta"), x))
    [] law = "Beta" ->
         Add(Sub(LGam(Add(Var("alpha"), Var("beta"))), Add(LGam(Var("alpha")), LGam(Var("beta")))),
             Add(Mul(Sub(Var("alpha"), Num(1)), Ln(x)),
                 Mul(Sub(Var("beta"), Num(1)), Ln(Sub(Num(1), x)))))
    [] law = "Bernoulli" -> Sub(Mul(x, Var("logits")), Ln(Add(Num(1), Ex(Var("logits")))))
    [] law = "Poisson" -> Sub(Sub(Mul(x, Ln(Var("rate"))), Var("rate")), LGam(Add(x, Num(1))))
    [] law = "Binomial" ->
         Add(Sub(LGam(Add(Var("n_experiments"), Num(1))),
                 Add(LGam(Add(x, Num(1))), LGam(Add(Sub(Var("n_experiments"), x), Num(1))))),
             Sub(Mul(x, Var("logits")),
                 Mul(Var("n_experiments"), Ln(Add(Num(1), Ex(Var("logits")))))))
    [] law = "BinConcrete" -> BinConcreteLD
    [] law = "Categorical" -> Sub(Var("logits_x"), LSE(Ls(K)))   \* logits_x: the logit of category x
    [] law = "OnehotCategorical" -> CountsLD(K, TRUE)
    [] law = "UnnormalizedMultinomial" -> CountsLD(K, TRUE)
    [] law = "UnnormalizedMultinomial.raw" -> CountsLD(K, FALSE)
    [] law \in {"Multinomial", "Multinomial.free"} -> MultLD(K, TRUE)
    [] law = "Multinomial.raw" -> MultLD(K, FALSE)
    [] law = "Dirichlet" -> DirichletLD(K)
    [] law = "Concrete" -> ConcreteLD(K, [i \in 1..K |-> Ln(V("x", i))], 1)
    [] law = "ExpConcrete" -> ConcreteLD(K, [i \in 1..K |-> V("x", i)], 0)
    [] law = "MultivariateNormalCholesky" -> MVNLD(K)
    [] law = "MatrixVariateNormalCholesky" -> MatLD(R, K)

(* how a reparameterised sample x moves with the parameters: entries
   <<parameter entry, sample entry, d sample / d parameter>>, written in terms of the sample
   itself, so that nothing is said about where the noise comes from.
   "sgn" is the sign of the normal variable a folded normal sample comes from. *)
Del(i, j) == Num(IF i = j THEN 1 ELSE 0)
Pairs(n, m) == [k \in 1..(n * m) |-> <<((k - 1) \div m) + 1, ((k - 1) % m) + 1>>]
LocScaleJac(l, s) == << <<l, "x", Num(1)>>, <<s, "x", Div(Sub(x, Var(l)), Var(s))>> >>
SampleJac(law, R, K) ==
  CASE law = "Normal.std" -> LocScaleJac("mean", "std")
    [] law = "Laplace" -> LocScaleJac("loc", "scale")
    [] law = "Normal.logstd" -> << <<"mean", "x", Num(1)>>, <<"logstd", "x", Sub(x, Var("mean"))>> >>
    [] law = "FoldNormal.std" ->
         << <<"mean", "x", Var("sgn")>>,
            <<"std", "x", Div(Sub(x, Mul(Var("sgn"), Var("mean"))), Var("std"))>> >>
    [] law = "FoldNormal.logstd" ->
         << <<"mean", "x", Var("sgn")>>, <<"logstd", "x", Sub(x, Mul(Var("sgn"), Var("mean")))>> >>
    [] law = "Uniform" ->
         LET w == Sub(Var("maxval"), Var("minval")) IN
         << <<"minval", "x", Div(Sub(Var("maxval"), x), w)>>, <<"maxval", "x", Div(Sub(x, Var("minval")), w)>> >>
    [] law = "BinConcrete" ->
         LET q == Div(Mul(x, Sub(Num(1), x)), Var("temperature")) IN
         << <<"logits", "x", q>>,
            <<"temperature", "x", Neg(Mul(q, Sub(Ln(x), Ln(Sub(Num(1), x)))))>> >>
    [] law \in {"Concrete", "ExpConcrete"} ->
         LET isx == law = "Concrete"
             p(i) == IF isx THEN V("x", i) ELSE Ex(V("x", i))
             lp(i) == IF isx THEN Ln(V("x", i)) ELSE V("x", i)
             f(i) == IF isx THEN V("x", i) ELSE Num(1)
             ent == SumE([j \in 1..K |-> Mul(p(j), lp(j))])
             pr == Pairs(K, K)
         IN [k \in 1..(K * K) |-> <<"logits" \o ToString(pr[k][2]), "x" \o ToString(pr[k][1]),
               Mul(f(pr[k][1]), Div(Sub(Del(pr[k][1], pr[k][2]), p(pr[k][2])), Var("temperature")))>>]
            \o [i \in 1..K |-> <<"temperature", "x" \o ToString(i),
               Neg(Mul(f(i), Div(Sub(lp(i), ent), Var("temperature"))))>>]
    [] law = "MultivariateNormalCholesky" ->
         LET C(i, j) == V2("cov_tril", i, j)
             y == [i \in 1..K |-> Sub(V("x", i), V("mean", i))]
             low == SelectSeq(Pairs(K, K), LAMBDA ij : ij[2] <= ij[1])
         IN [i \in 1..K |-> <<"mean" \o ToString(i), "x" \o ToString(i), Num(1)>>]
            \o [k \in 1..Len(low) |-> <<"cov_tril" \o ToString(low[k][1]) \o ToString(low[k][2]),
                                       "x" \o ToString(low[k][1]), Solve(C, y, low[k][2])>>]
    [] law = "MatrixVariateNormalCholesky" ->
         LET U(i, j) == V2("u_tril", i, j)
             W(i, j) == V2("v_tril", i, j)
             yc(c) == [i \in 1..R |-> Sub(V2("x", i, c), V2("mean", i, c))]
             yr(r) == [j \in 1..K |-> Sub(V2("x", r, j), V2("mean", r, j))]
             pr == Pairs(R, K)
             us == SelectSeq([k \in 1..(R * R * K) |-> <<((k - 1) \div (R * K)) + 1,
                       (((k - 1) \div K) % R) + 1, ((k - 1) % K) + 1>>], LAMBDA t : t[2] <= t[1])
             vs == SelectSeq([k \in 1..(K * K * R) |-> <<((k - 1) \div (R * K)) + 1,
                       (((k - 1) \div R) % K) + 1, ((k - 1) % R) + 1>>], LAMBDA t : t[2] <= t[1])
             nm(n, i, j) == n \o ToString(i) \o ToString(j)
         IN [k \in 1..(R * K) |-> <<nm("mean", pr[k][1], pr[k][2]), nm("x", pr[k][1], pr[k][2]), Num(1)>>]
            \o [k \in 1..Len(us) |-> <<nm("u_tril", us[k][1], us[k][2]), nm("x", us[k][1], us[k][3]),
                                      Solve(U, yc(us[k][3]), us[k][2])>>]
            \o [k \in 1..Len(vs) |-> <<nm("v_tril", vs[k][1], vs[k][2]), nm("x", vs[k][3], vs[k][1]),
                                      Solve(W, yr(vs[k][3]), vs[k][2])>>]
    [] OTHER -> <<>>
HasRep(law) == law \in {"Normal.std", "Normal.logstd", "FoldNormal.std", "FoldNormal.logstd", "Laplace",
   "Uniform", "BinConcrete", "Concrete", "ExpConcrete", "MultivariateNormalCholesky",
   "MatrixVariateNormalCholesky"}
HasPath(law) == HasRep(law) /\ law # "Uniform"

(* parameters in constructor order: <<name, kind>>; kind says which axes follow the batch
   axes: "b" none, "s" scalar without batch, "v" K, "m" K x K, "rk" R x K, "rr", "n" an int *)
Params(law) ==
  CASE law \in {"Normal.std", "FoldNormal.std"} -> << <<"mean", "b">>, <<"std", "b">> >>
    [] law \in {"Normal.logstd", "FoldNormal.logstd"} -> << <<"mean", "b">>, <<"logstd", "b">> >>
    [] law = "Laplace" -> << <<"loc", "b">>, <<"scale", "b">> >>
    [] law = "Uniform" -> << <<"minval", "b">>, <<"maxval", "b">> >>
    [] law \in {"Gamma", "InverseGamma", "Beta"} -> << <<"alpha", "b">>, <<"beta", "b">> >>
    [] law = "Bernoulli" -> << <<"logits", "b">> >>
    [] law = "Poisson" -> << <<"rate", "b">> >>
    [] law = "Binomial" -> << <<"logits", "b">>, <<"n_experiments", "n">> >>
    [] law = "BinConcrete" -> << <<"temperature", "s">>, <<"logits", "b">> >>
    [] law \in {"Categorical", "OnehotCategorical", "UnnormalizedMultinomial",
                "UnnormalizedMultinomial.raw"} -> << <<"logits", "v">> >>
    [] law \in {"Multinomial", "Multinomial.free", "Multinomial.raw"} ->
         << <<"logits", "v">>, <<"n_experiments", "n">> >>
    [] law = "Dirichlet" -> << <<"alpha", "v">> >>
    [] law \in {"Concrete", "ExpConcrete"} -> << <<"temperature", "s">>, <<"logits", "v">> >>
    [] law = "MultivariateNormalCholesky" -> << <<"mean", "v">>, <<"cov_tril", "m">> >>
    [] law = "MatrixVariateNormalCholesky" ->
         << <<"mean", "rk">>, <<"u_tril", "rr">>, <<"v_tril", "m">> >>

UnivLaws == {"Normal.std", "Normal.logstd", "FoldNormal.std", "FoldNormal.logstd", "Laplace",
             "Uniform", "Gamma", "InverseGamma", "Beta", "Bernoulli", "Poisson", "Binomial",
             "BinConcrete", "Categorical"}
MultiLaws == {"OnehotCategorical", "UnnormalizedMultinomial", "UnnormalizedMultinomial.raw",
              "Multinomial", "Multinomial.free", "Multinomial.raw", "Dirichlet", "Concrete",
              "ExpConcrete", "MultivariateNormalCholesky", "MatrixVariateNormalCholesky"}
AllLaws == UnivLaws \cup MultiLaws
ValueRank(law) == IF law \in UnivLaws THEN 0
                  ELSE IF law = "MatrixVariateNormalCholesky" THEN 2 ELSE 1
(* several parameters whose batch axes broadcast against one another *)
TwoBatch(law) == Len(Params(law)) = 2 /\ Params(law)[1][2] = "b" /\ Params(law)[2][2] = "b"
(* parameters whose batch axes must agree exactly *)
SameBatch(law) == law \in {"MultivariateNormalCholesky", "MatrixVariateNormalCholesky"}
CanSample(law) == law \notin {"UnnormalizedMultinomial", "UnnormalizedMultinomial.raw",
                              "Multinomial.free", "Multinomial.raw"}
Continuous(law) == law \notin {"Bernoulli", "Poisson", "Binomial", "Categorical",
     "OnehotCategorical", "UnnormalizedMultinomial", "UnnormalizedMultinomial.raw",
     "Multinomial", "Multinomial.free", "Multinomial.raw"}
===========================================================================
