------------------------------ MODULE Sgmcmc ------------------------------
(* Stochastic gradient MCMC: SGLD, PSGLD, SGHMC and SGNHT (the latter two    *)
(* with a first and a second order integrator, SGNHT with one thermostat per *)
(* coordinate or one per latent variable).  The state machine says which     *)
(* runs draw the momenta anew; the programs (see HmcProg.tla) say what a run *)
(* does to the state.  All right-hand sides read the state before the run    *)
(* unless the algorithm says otherwise.                                      *)
EXTENDS Expr, TLC, Json, CSV, IOUtils
CONSTANTS Algs,     \* subset of AllAlgs
          Periods,  \* set of n_iter_resample_v (0: never)
          Runs, Hyper, Layouts,
          Asks       \* what the runs ask for: "all" info, "some" runs nothing but the update, "op": never info
VARIABLES cfg, t, since, draws, st
vars == <<cfg, t, since, draws, st>>
AllAlgs == {"SGLD", "PSGLD", "SGHMC1", "SGHMC2", "SGNHT1v", "SGNHT2v", "SGNHT1s", "SGNHT2s"}
HasMomentum(a) == a \notin {"SGLD", "PSGLD"}

Init == /\ cfg \in [alg : Algs, n : Periods, hyper : Hyper, lay : Layouts, ask : Asks]
        /\ (~HasMomentum(cfg.alg) => cfg.n = 0)
        /\ t = 0 /\ since = 0 /\ draws = <<>> /\ st = "run"
(* the momenta are drawn anew at the first run and then every n-th *)
Run == /\ st = "run" /\ t < Runs
       /\ LET fresh == cfg.n > 0 /\ (t = 0 \/ since = cfg.n)
          IN /\ draws' = Append(draws, fresh)
             /\ since' = IF fresh THEN 1 ELSE since + 1
       /\ t' = t + 1 /\ UNCHANGED <<cfg, st>>
Finish == st = "run" /\ t = Runs /\ st' = "done" /\ UNCHANGED <<cfg, t, since, draws>>
Next == Run \/ Finish
Spec == Init /\ [][Next]_vars
Periodic == \A i \in 1..Len(draws) : draws[i] = (cfg.n > 0 /\ (i - 1) % cfg.n = 0)

---------------------------------------------------------------------------
v(n) == Var(n)
one == Num(1)
Set(n, e) == <<"set", n, e>>
Sqrt(a) == <<"sqrt", a>>
AMean(a) == <<"amean", a>>
RedTo(e, n) == <<"redto", e, Var(n)>>
(* the log joint before the sum over data, observed x (a minibatch, different in every run) and s *)
LJ(a, b) == Sub(Neg(Add(Mul(Half, Mul(v("s"), Sq(Sub(v(a), v("x"))))), Mul(Rat(1, 8), Sq(v(b))))),
                Ln(Add(one, Ex(Mul(v(a), v(b))))))
Grad(a, b) == << Set("g_a", RedTo(D(LJ(a, b), a), a)), Set("g_b", RedTo(D(LJ(a, b), b), b)) >>
Both(P(_)) == P("a") \o P("b")
Q(l) == "q_" \o l   V1(l) == "v_" \o l  G(l) == "g_" \o l  Z(l) == "z_" \o l  R(l) == "r_" \o l
X(l) == "aux_" \o l   M(l) == "m_" \o l   AL(l) == "al_" \o l   H1(l) == "h_" \o l  DH(l) == "dh_" \o l
lr == v("lr")
Vec == cfg.alg \in {"SGNHT1v", "SGNHT2v"}
MeanK(e) == IF cfg.alg \in {"SGNHT1v", "SGNHT2v"} THEN e ELSE AMean(e)
Kinetic(l) == << Set("k_" \o l, MeanK(Sq(v(V1(l))))) >>

Sgld(l) == << Set(Q(l), Add(v(Q(l)), Add(Mul(Mul(Half, lr), v(G(l))), Mul(Sqrt(lr), v(Z(l)))))) >>
Psgld(l) == << Set(X(l), Add(Mul(v("decay"), v(X(l))), Mul(Sub(one, v("decay")), Sq(v(G(l)))))),
               Set(M(l), Div(one, Add(v("tiny"), Sqrt(v(X(l)))))),
               Set(Q(l), Add(v(Q(l)), Add(Mul(Mul(Mul(Half, lr), v(M(l))), v(G(l))),
                                          Mul(Sqrt(Mul(lr, v(M(l)))), v(Z(l)))))) >>
Resample(l) == << Set(V1(l), Mul(Sqrt(lr), v(R(l)))) >>
HmcNoise(l) == Mul(Sqrt(Mul(Mul(Num(2), Sub(v("alpha"), v("beta"))), lr)), v(Z(l)))
NhtNoise(l) == Mul(Sqrt(Mul(Mul(Num(2), v("extra")), lr)), v(Z(l)))
Sghmc1(l) == << Set(V1(l), Add(Mul(Sub(one, v("alpha")), v(V1(l))), Add(Mul(lr, v(G(l))), HmcNoise(l)))),
                Set(Q(l), Add(v(Q(l)), v(V1(l)))) >>
HalfDrift(l) == << Set(H1(l), Add(v(Q(l)), Mul(Half, v(V1(l))))) >>
Sghmc2(l) == << Set(DH(l), Ex(Mul(Rat(-1, 2), v("alpha")))),
                Set(V1(l), Mul(v(DH(l)), Add(Mul(v(DH(l)), v(V1(l))), Add(Mul(lr, v(G(l))), HmcNoise(l))))),
                Set(Q(l), Add(v(H1(l)), Mul(Half, v(V1(l))))) >>
Sgnht1(l) == << Set(V1(l), Add(Mul(Sub(one, v(AL(l))), v(V1(l))), Add(Mul(lr, v(G(l))), NhtNoise(l)))),
                Set(Q(l), Add(v(Q(l)), v(V1(l)))) >> \o Kinetic(l)
             \o << Set(AL(l), Add(v(AL(l)), Mul(v("rate"), Sub(v("k_" \o l), lr)))) >>
HalfHeat(l) == Kinetic(l) \o << Set(AL(l), Add(v(AL(l)), Mul(Mul(Half, v("rate")), Sub(v("k_" \o l), lr)))) >>
Sgnht2(l) == << Set(DH(l), Ex(Mul(Rat(-1, 2), v(AL(l))))),
                Set(V1(l), Mul(v(DH(l)), Add(Mul(v(DH(l)), v(V1(l))), Add(Mul(lr, v(G(l))), NhtNoise(l))))),
                Set(Q(l), Add(v(H1(l)), Mul(Half, v(V1(l))))) >> \o HalfHeat(l)
Here == Grad("q_a", "q_b")
There == Grad("h_a", "h_b")
Update ==
  CASE cfg.alg = "SGLD" -> Here \o Both(Sgld)
    [] cfg.alg = "PSGLD" -> Here \o Both(Psgld)
    [] cfg.alg = "SGHMC1" -> Here \o Both(Sghmc1) \o Both(Kinetic)
    [] cfg.alg = "SGHMC2" -> Both(HalfDrift) \o There \o Both(Sghmc2) \o Both(Kinetic)
    [] cfg.alg \in {"SGNHT1v", "SGNHT1s"} -> Here \o Both(Sgnht1)
    [] OTHER -> Both(HalfDrift) \o Both(HalfHeat) \o There \o Both(Sgnht2)
Infos == CASE ~HasMomentum(cfg.alg) -> <<"q">>
           [] cfg.alg \in {"SGHMC1", "SGHMC2"} -> <<"q", "mean_k">>
           [] OTHER -> <<"q", "mean_k", "alpha">>
(* which runs ask for the info; the state moves on alike *)
Asked(i) == CASE cfg.ask = "all" -> TRUE [] cfg.ask = "op" -> FALSE [] OTHER -> i % 3 # 2
Emit == st = "done" => CSVWrite("%1$s", <<ToJson([cfg |-> cfg, draws |-> draws, asked |-> [i \in 1..Len(draws) |-> Asked(i)], momentum |-> HasMomentum(cfg.alg),
   resample |-> Both(Resample), update |-> Update, infos |-> Infos])>>, IOEnv.VERIF_OUT)
=============================================================================
