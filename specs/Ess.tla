--------------------------------- MODULE Ess ---------------------------------
(* Effective sample size of chains of small integers, in exact arithmetic.   *)
(* With S the sum of the chain and A(t) = sum (n x_i - S)(n x_{i+t} - S),    *)
(* the autocorrelation of lag t is                                           *)
(*     rho(t) = n A(t) / ((n - t) A(0)) - 1 / (n - 1)                        *)
(* (Stan's estimate from one chain: 1 - (W - acov(t)) / var_plus).           *)
EXTENDS Expr, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Lens, Burns, Vals, NComp, Scales, Stays   \* Stays: how long a chain may stay at a value in one step
VARIABLES cfg, chains, st
vars == <<cfg, chains, st>>
n == cfg.len
RECURSIVE SumS(_)
SumS(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumS(Tail(s))
Sum(x) == SumS(x)
A(x, t) == LET s == Sum(x) IN SumS([i \in 1..(n - t) |-> (n * x[i] - s) * (n * x[i + t] - s)])
(* numerator of rho(t) over the common positive denominator (n-1)(n-t)A(0) *)
RhoNum(x, t) == n * (n - 1) * A(x, t) - (n - t) * A(x, 0)
RhoE(x, t) == Sub(Div(Num(n * A(x, t)), Num((n - t) * A(x, 0))), Div(Num(1), Num(n - 1)))
(* the lags summed: from `from` to the one before the first negative autocorrelation *)
Stop(x) == LET neg == {t \in 0..(n - 1) : RhoNum(x, t) < 0}
           IN IF neg = {} THEN n ELSE CHOOSE t \in neg : \A u \in neg : t <= u
Lags(x, from) == LET k == Stop(x) IN [i \in 1..(IF k > from THEN k - from ELSE 0) |-> RhoE(x, from + i - 1)]
EssE(x, from) == Div(Num(n), Add(Num(1), Mul(Num(2), SumE(Lags(x, from)))))
(* exact zeros among the autocorrelations are left out: rounding decides there *)
Regular(x) == A(x, 0) > 0 /\ \A t \in 0..(n - 1) : RhoNum(x, t) # 0
Body(c) == [i \in 1..n |-> chains[c][cfg.burn + i]]
Total == cfg.len + cfg.burn
Init == /\ cfg \in [len : Lens, burn : Burns, comp : 1..NComp, scale : Scales]
        /\ chains = [c \in 1..cfg.comp |-> <<>>] /\ st = 1
Fill == /\ st <= cfg.comp /\ Len(chains[st]) < Total
        /\ \E v \in Vals, k \in Stays :
             /\ k = 1 \/ Len(chains[st]) + k <= Total
             /\ chains' = [chains EXCEPT ![st] = @ \o [i \in 1..k |-> v]]
        /\ UNCHANGED <<cfg, st>>
NextComp == /\ st <= cfg.comp /\ Len(chains[st]) = Total /\ Regular(Body(st)) /\ st' = st + 1
            /\ UNCHANGED <<cfg, chains>>
Next == Fill \/ NextComp
Spec == Init /\ [][Next]_vars
Done == st = cfg.comp + 1
(* lag 0 always counts: its autocorrelation is positive for three samples or more *)
LagZero == Done /\ n > 2 => \A c \in 1..cfg.comp : RhoNum(Body(c), 0) > 0 /\ Stop(Body(c)) > 0
(* the sum of all autocovariances over all lags is never larger than the variance bound *)
Cauchy == Done => \A c \in 1..cfg.comp : \A t \in 1..(n - 1) : A(Body(c), t) <= A(Body(c), 0)
(* shifting the chain changes no autocovariance *)
ShiftFree == Done => \A c \in 1..cfg.comp : LET x == Body(c)
                y == [i \in 1..n |-> x[i] + 3] IN \A t \in 0..(n - 1) : A(x, t) = A(y, t)
Case == [cfg |-> cfg, chains |-> chains, stan |-> [c \in 1..cfg.comp |-> EssE(Body(c), 1)],
         lag0 |-> [c \in 1..cfg.comp |-> EssE(Body(c), 0)]]
Emit == Done => CSVWrite("%1$s", <<ToJson(Case)>>, IOEnv.VERIF_OUT)
=============================================================================
