------------------------------ MODULE HmcProg ------------------------------
(* One iteration of Hamiltonian Monte Carlo with adaptation, as programs:    *)
(* assignments of symbolic expressions to names, over two latent variables   *)
(* q_a (chains x data) and q_b (chains x 1).  Elem(a, b) is the log joint    *)
(* before the sum over data.                                                 *)
EXTENDS Expr
CONSTANTS Elem(_, _), Leapfrogs

Set(n, e) == <<"set", n, e>>
Pow(a, b) == <<"pow", a, b>>
Sqrt(a) == <<"sqrt", a>>
Min(a, b) == <<"min", a, b>>
Lt(a, b) == <<"lt", a, b>>
CMean(a) == <<"cmean", a>>       \* mean over the chain axes, kept as axes of size 1
DSum(a) == <<"dsum", a>>         \* sum over the data axes
AMean(a) == <<"amean", a>>       \* mean over everything
RedTo(a, v) == <<"redto", a, Var(v)>> \* summed to the shape of v
FiniteOr0(a, b) == <<"finite0", a, b>> \* a where a and b are finite, else 0
v(n) == Var(n)
one == Num(1)

LogJoint(a, b) == DSum(Elem(a, b))
GradA(a, b) == RedTo(D(Elem(a, b), a), a)
GradB(a, b) == RedTo(D(Elem(a, b), b), b)
Kin(p, m) == DSum(Div(Mul(Half, Sq(v(p))), v(m)))
Ham(a, b, pa, pb) == Add(Neg(LogJoint(a, b)), Add(Kin(pa, "m_a"), Kin(pb, "m_b")))

Collect(l) ==
  << Set("inc_" \o l, Mul(v("w"), Sub(v("q_" \o l), v("mean_" \o l)))),
     Set("mean_" \o l, Add(v("mean_" \o l), CMean(v("inc_" \o l)))),
     Set("var_" \o l, Add(Mul(Sub(one, v("w")), v("var_" \o l)),
                          CMean(Mul(v("inc_" \o l), Sub(v("q_" \o l), v("mean_" \o l)))))) >>
Leap(e1, e2) ==    \* drift by e1, then kick by e2
  << Set("ca", Add(v("ca"), Mul(e1, Div(v("cpa"), v("m_a"))))),
     Set("cb", Add(v("cb"), Mul(e1, Div(v("cpb"), v("m_b"))))),
     Set("ga", GradA("ca", "cb")), Set("gb", GradB("ca", "cb")),
     Set("cpa", Add(v("cpa"), Mul(e2, v("ga")))),
     Set("cpb", Add(v("cpb"), Mul(e2, v("gb")))) >>
FromHere == << Set("ca", v("q_a")), Set("cb", v("q_b")), Set("cpa", v("p_a")), Set("cpb", v("p_b")) >>
HalfOf(e) == Mul(Half, v(e))
RECURSIVE Traj(_, _)
Traj(e, k) == IF k = 0 THEN <<>>
              ELSE Leap(v(e), IF k = 1 THEN HalfOf(e) ELSE v(e)) \o Traj(e, k - 1)
Energy == << Set("h0", Ham("q_a", "q_b", "p_a", "p_b")), Set("h1", Ham("ca", "cb", "cpa", "cpb")),
             Set("lp0", LogJoint("q_a", "q_b")), Set("lp1", LogJoint("ca", "cb")),
             Set("acc", FiniteOr0(Ex(Min(Sub(v("h0"), v("h1")), Num(0))), v("lp1"))) >>
Program == [
  collect |-> << Set("ewt", Add(v("ewt"), one)),
                 Set("w", Div(Sub(one, v("decay")), Sub(one, Pow(v("decay"), v("ewt"))))) >>
              \o Collect("a") \o Collect("b"),
  one |-> << Set("m_a", one), Set("m_b", one) >>,
  var |-> << Set("m_a", Div(one, v("var_a"))), Set("m_b", Div(one, v("var_b"))) >>,
  momentum |-> << Set("p_a", Mul(v("z_a"), Sqrt(v("m_a")))), Set("p_b", Mul(v("z_b"), Sqrt(v("m_b")))) >>,
  \* the step is scaled by 3/2 (2/3 where one step accepts too little) until that changes
  search |-> << Set("last", Num(0)), Set("go", one),
     <<"while", "go",
        FromHere \o Leap(Num(0), HalfOf("eps")) \o Leap(v("eps"), HalfOf("eps")) \o Energy
        \o << Set("low", Lt(AMean(v("acc")), v("delta"))),
              Set("near", Sub(AMean(v("acc")), v("delta"))),
              Set("eps", Mul(v("eps"), <<"if", v("low"), Div(one, Rat(3, 2)), Rat(3, 2)>>)),
              Set("go", <<"eq", v("low"), v("last")>>),
              Set("last", v("low")) >> >> >>,
  leapfrog |-> FromHere \o Leap(Num(0), HalfOf("eps")) \o Traj("eps", Leapfrogs) \o Energy,
  \* Hoffman & Gelman (2014), algorithm 5; mu is the point shrunk towards
  tune |-> << Set("step", Add(v("step"), one)),
              Set("eta", Div(one, Add(v("step"), v("t0")))),
              Set("hbar", Add(Mul(Sub(one, v("eta")), v("hbar")), Mul(v("eta"), Sub(v("delta"), AMean(v("acc")))))),
              Set("leps", Sub(v("mu"), Mul(Div(Sqrt(v("step")), v("gamma")), v("hbar")))),
              Set("rate", Pow(v("step"), Neg(v("kappa")))),
              Set("lbar", Add(Mul(v("rate"), v("leps")), Mul(Sub(one, v("rate")), v("lbar")))),
              Set("eps", Ex(v("leps"))) >>,
  fresh |-> << Set("step", Num(0)), Set("hbar", Num(0)), Set("lbar", Num(0)) >>,
  average |-> << Set("eps", Ex(v("lbar"))) >> ]
=============================================================================
