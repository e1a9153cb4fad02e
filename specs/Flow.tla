-------------------------------- MODULE Flow --------------------------------
(* Normalizing flows: the map of one step as symbolic equations in the       *)
(* coordinates z1..zd of a row, its log determinant by differentiation, the  *)
(* composition of the steps, and which calls are refused.                    *)
(*                                                                           *)
(* A behaviour picks a flow, then fills in weights, inputs and log           *)
(* probabilities (integers, to be multiplied by cfg.unit) one by one.        *)
EXTENDS Expr, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Kinds,     \* "planar", "normal", "gru", "linear", "linear.gru"
          Ds,        \* sizes of the last axis
          Ns,        \* numbers of steps
          Leads,     \* leading shapes of the samples
          Units,     \* <<p, q>>: weights are multiples of p/q
          Hiddens,   \* hidden input of the autoregressive network given or not
          Modes,     \* "known", "fed": leading shape static or not
          Vals,      \* the integers
          Faults     \* "none" or what is wrong with the call
VARIABLES cfg, nums, done
vars == <<cfg, nums, done>>

(* ------------------------------------------------------------ expressions *)
Nm(p, i) == Var(p \o ToString(i))
Nm2(p, i, j) == Var(p \o ToString(i) \o "_" \o ToString(j))
Tanh(e) == <<"tanh", e>>
Seq1(n, Op(_)) == [i \in 1..n |-> Op(i)]
Dot(d, p, q) == SumE([i \in 1..d |-> Mul(Nm(p, i), Nm(q, i))])
Softplus(e) == Ln(Add(Num(1), Ex(e)))
Sigm(e) == Div(Num(1), Add(Num(1), Ex(Neg(e))))

(* derivative with tanh added to the operations of Expr *)
RECURSIVE DT(_, _)
DT(e, v) == IF e[1] = "tanh" THEN SMul(Sub(Num(1), Sq(e)), DT(e[2], v))
            ELSE IF e[1] \in {"int", "rat", "pi", "var"} THEN D(e, v)
            ELSE CASE e[1] = "add" -> SAdd(DT(e[2], v), DT(e[3], v))
                   [] e[1] = "sub" -> SSub(DT(e[2], v), DT(e[3], v))
                   [] e[1] = "mul" -> SAdd(SMul(DT(e[2], v), e[3]), SMul(e[2], DT(e[3], v)))
                   [] e[1] = "div" -> LET da == DT(e[2], v)
                                          db == DT(e[3], v)
                                      IN SSub(SDiv(da, e[3]), IF IsZero(db) THEN Num(0)
                                              ELSE Div(Mul(e[2], db), Sq(e[3])))
                   [] e[1] = "neg" -> LET da == DT(e[2], v) IN IF IsZero(da) THEN da ELSE Neg(da)
                   [] e[1] = "log" -> SDiv(DT(e[2], v), e[2])
                   [] e[1] = "exp" -> SMul(DT(e[2], v), e)

(* determinant by expansion along the first row, of matrices of expressions *)
Minor(M, d, j) == [a \in 1..(d - 1) |-> [b \in 1..(d - 1) |-> M[a + 1][IF b < j THEN b ELSE b + 1]]]
RECURSIVE Det(_, _)
RECURSIVE DetCols(_, _, _)
DetCols(M, d, j) ==
  IF j > d THEN Num(0)
  ELSE LET t == SMul(M[1][j], Det(Minor(M, d, j), d - 1))
       IN IF j % 2 = 1 THEN SAdd(t, DetCols(M, d, j + 1))
          ELSE SSub(DetCols(M, d, j + 1), t)
Det(M, d) == IF d = 0 THEN Num(1) ELSE IF d = 1 THEN M[1][1] ELSE DetCols(M, d, 1)

(* ------------------------------------------------------------ planar step *)
(* z + tanh(w.z + b) uhat with uhat = u + (m - w.u) w / |w|^2, m = softplus(w.u) - 1 *)
WU(d) == Dot(d, "w", "u")
Mwu(d) == Sub(Softplus(WU(d)), Num(1))
UHat(d, i) == Add(Nm("u", i), Mul(Div(Nm("w", i), Dot(d, "w", "w")), Sub(Mwu(d), WU(d))))
Act(d) == Tanh(Add(Dot(d, "w", "z"), Var("b1")))
PlanarMap(d) == [i \in 1..d |-> Add(Nm("z", i), Mul(UHat(d, i), Act(d)))]
(* the rank-one form of its determinant, by the lemma below *)
PlanarDet(d) == Add(Num(1), Mul(Mwu(d), Sub(Num(1), Sq(Act(d)))))

(* ----------------------------------------------------- autoregressive step *)
(* the network: own coefficients, strictly earlier coordinates, hidden input *)
Earlier(j, p, off) == LET s == [i \in 1..(j - 1) |-> Mul(Nm2(p, i, j), Nm("z", i))]
                      IN IF off = <<>> THEN SumE(s) ELSE IF j = 1 THEN off ELSE Add(SumE(s), off)
Shift(k, h, j) == IF k \in {"linear", "linear.gru"} THEN Earlier(j, "m", <<>>)
                  ELSE Earlier(j, "m", IF h THEN Add(Nm("c", j), Nm("h", j)) ELSE Nm("c", j))
Pre(k, j) == IF k \in {"linear", "linear.gru"} THEN Earlier(j, "s", <<>>) ELSE Earlier(j, "s", Nm("f", j))
(* what the network returns as s: positive for the normal update; the linear
   network always returns the exponential *)
Scale(k, j) == IF k = "gru" THEN Pre(k, j) ELSE Ex(Pre(k, j))
Gate(k, j) == Sigm(Scale(k, j))
Coord(k, h, j) == IF k \in {"normal", "linear"}
                  THEN Add(Mul(Scale(k, j), Nm("z", j)), Shift(k, h, j))
                  ELSE Add(Mul(Gate(k, j), Nm("z", j)), Mul(Sub(Num(1), Gate(k, j)), Shift(k, h, j)))
(* the coordinates are reversed after every step *)
ArMap(k, h, d) == [i \in 1..d |-> Coord(k, h, d + 1 - i)]
ArDet(k, d) == LET g(j) == IF k \in {"normal", "linear"} THEN Scale(k, j) ELSE Gate(k, j)
               IN SumE([j \in 1..d |-> Ln(g(j))])

Map(k, h, d) == IF k = "planar" THEN PlanarMap(d) ELSE ArMap(k, h, d)
Jac(k, h, d) == LET f == Map(k, h, d)
                IN [i \in 1..d |-> [j \in 1..d |-> DT(f[i], "z" \o ToString(j))]]
(* by definition; the reversal changes at most the sign *)
LogDet(k, h, d) == Ln(IF k = "planar" THEN Det(Jac(k, h, d), d) ELSE Abs(Det(Jac(k, h, d), d)))
Short(k, d) == IF k = "planar" THEN Ln(PlanarDet(d)) ELSE ArDet(k, d)

(* names of the weights of one step, in the order the numbers are dealt *)
Names1(d, p) == [i \in 1..d |-> p \o ToString(i)]
Pairs(d, p) == [q \in 1..(d * d) |-> p \o ToString(((q - 1) \div d) + 1) \o "_" \o ToString(((q - 1) % d) + 1)]
Weights(k, d) == CASE k = "planar" -> Names1(d, "w") \o Names1(d, "u") \o <<"b1">>
                   [] k \in {"normal", "gru"} -> Pairs(d, "m") \o Pairs(d, "s") \o Names1(d, "c") \o Names1(d, "f")
                   [] OTHER -> Pairs(d, "m") \o Pairs(d, "s")
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Rows(c) == Prod(c.lead)
RowLen(c) == c.d + 1 + (IF c.hid THEN c.d ELSE 0)
Need(c) == c.n * Len(Weights(c.kind, c.d)) + Rows(c) * RowLen(c)

(* ------------------------------------------------------------ the machine *)
AutoReg(c) == c.kind \in {"normal", "gru"}
Applies(c) == CASE c.fault = "none" -> TRUE
                [] c.fault = "lastdim" -> c.kind \notin {"normal", "gru"}   \* a user's network may not need it
                [] c.fault = "lead1" -> c.lead[Len(c.lead)] > 1
                [] OTHER -> TRUE
Init == /\ cfg \in [kind : Kinds, d : Ds, n : Ns, lead : Leads, unit : Units, hid : Hiddens,
                    mode : Modes, fault : Faults]
        /\ cfg.hid => AutoReg(cfg)
        /\ cfg.fault = "lastdim" => cfg.mode = "fed" /\ cfg.n > 0
        /\ Applies(cfg)
        /\ nums = <<>> /\ done = FALSE
(* a planar step needs a direction: the first coordinate of w is not 0 *)
Zeroable(i) == LET per == Len(Weights(cfg.kind, cfg.d))
               IN ~(cfg.kind = "planar" /\ i < cfg.n * per /\ i % per = 0)
Fill == /\ Len(nums) < Need(cfg)
        /\ \E v \in Vals : /\ v # 0 \/ Zeroable(Len(nums))
                           /\ nums' = Append(nums, v)
        /\ UNCHANGED <<cfg, done>>
Finish == Len(nums) = Need(cfg) /\ ~done /\ done' = TRUE /\ UNCHANGED <<cfg, nums>>
Next == Fill \/ Finish
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------- guarantees of the design *)
(* an autoregressive coordinate depends on itself and earlier ones only, so
   that the determinant is the product of the diagonal *)
Triangular == nums = <<>> /\ AutoReg(cfg) =>
  \A i \in 1..cfg.d : \A j \in (i + 1)..cfg.d : IsZero(DT(Coord(cfg.kind, cfg.hid, i), "z" \o ToString(j)))
(* the determinant lemma the planar flow relies on: det(I + u v') = 1 + v.u,
   on the integers at hand *)
Vec(o, d) == [i \in 1..d |-> nums[o + i]]
RECURSIVE IntDet(_, _)
RECURSIVE IntCols(_, _, _)
IntCols(M, d, j) == IF j > d THEN 0
                    ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * M[1][j] * IntDet(Minor(M, d, j), d - 1) + IntCols(M, d, j + 1)
IntDet(M, d) == IF d = 1 THEN M[1][1] ELSE IntCols(M, d, 1)
RECURSIVE IntSum(_)
IntSum(s) == IF s = <<>> THEN 0 ELSE Head(s) + IntSum(Tail(s))
Lemma == cfg.kind = "planar" /\ Len(nums) = 2 * cfg.d =>
  LET d == cfg.d
      u == Vec(0, d)
      v == Vec(d, d)
      M == [i \in 1..d |-> [j \in 1..d |-> (IF i = j THEN 1 ELSE 0) + u[i] * v[j]]]
  IN IntDet(M, d) = 1 + IntSum([i \in 1..d |-> u[i] * v[i]])

(* ------------------------------------------------------------------ emission *)
Key == <<cfg.kind, cfg.hid, cfg.d>>
EmitDef == nums = <<>> /\ cfg.fault = "none" =>
  CSVWrite("%1$s", <<ToJson([def |-> Key, map |-> Map(cfg.kind, cfg.hid, cfg.d), logdet |-> LogDet(cfg.kind, cfg.hid, cfg.d),
                             short |-> Short(cfg.kind, cfg.d), weights |-> Weights(cfg.kind, cfg.d)])>>, IOEnv.VERIF_OUT)
Emit == done => CSVWrite("%1$s", <<ToJson([ref |-> Key, cfg |-> cfg, nums |-> nums,
                                          refused |-> cfg.fault # "none"])>>, IOEnv.VERIF_OUT)
=============================================================================
