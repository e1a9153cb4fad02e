------------------------------ MODULE Objective ------------------------------
(* The life of variational objectives.  There is one posterior net, to which  *)
(* nodes are added one by one, and there are objectives made from it at       *)
(* various moments, over models that share their nodes' names.  An objective  *)
(* stands for the posterior and the observations as they were when it was     *)
(* made; it evaluates its model once, under the user's observations and       *)
(* otherwise the posterior's one draw of every latent node; and everything    *)
(* asked of it - its value, its costs, its net - reads from that one          *)
(* evaluation, in whatever order and however often it is asked.  An objective *)
(* whose model has a node that is covered by neither is refused, at whatever  *)
(* it is asked, every time.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS HistLen, MaxObj, QObs, ModelSets, Kinds
VARIABLES hist, qn, objs, runs, refused, cfg
vars == <<hist, qn, objs, runs, refused, cfg>>
(* qn: names of the posterior's nodes, in order; objs: the objectives made    *)
(*  [kind, by: net or pairs, mk, lat: latent names it has taken, obs, built]  *)
Names == {"z", "w", "v", "x", "u"}
QNames == <<"z", "w", "v">>
QD == [n \in {"z", "w", "v"} |-> IF n = "z" THEN 4 ELSE IF n = "w" THEN 5 ELSE 6]
MD == [n \in {"z", "w", "v", "x"} |-> CASE n = "z" -> 1 [] n = "w" -> 2 [] n = "v" -> 3 [] OTHER -> 7]
Parent == [n \in {"z", "w", "v", "x"} |-> IF n \in {"w", "x"} THEN "z" ELSE ""]
NoObs == [n \in Names |-> -1]

Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE SumOver(_, _)
SumOver(f(_), S) == IF S = {} THEN 0 ELSE LET n == CHOOSE e \in S : TRUE IN f(n) + SumOver(f, S \ {n})
(* ---- the posterior: values and log densities of its nodes ---- *)
RECURSIVE QVal(_)
QVal(n) == IF cfg.qobs[n] # -1 THEN cfg.qobs[n]
           ELSE 100 + 7 * QD[n] + (IF Parent[n] = "" THEN 0 ELSE QVal(Parent[n]))
QLog(n) == QD[n] * (QVal(n) + (IF Parent[n] = "" THEN 0 ELSE QVal(Parent[n])))
Latents == {n \in Range(qn) : cfg.qobs[n] = -1}
(* ---- an objective ---- *)
Val(o, n) == IF o.obs[n] # -1 THEN o.obs[n] ELSE QVal(n)
Known(o) == o.lat \cup {n \in Names : o.obs[n] # -1}
Covered(o) == o.mk = "fn" \/ cfg.model \subseteq Known(o)
PVal(o, n) == IF Parent[n] = "" \/ Parent[n] \notin (Known(o) \cap cfg.model) THEN 0 ELSE Val(o, Parent[n])
LogP(o) == LET f(n) == MD[n] * (Val(o, n) + PVal(o, n))
           IN SumOver(f, cfg.model \cap Known(o)) + (IF o.mk = "metalj" THEN 7000 ELSE 0)
LogQ(o) == SumOver(QLog, o.lat)

Init == /\ cfg \in [model : ModelSets, qobs : {[n \in Names |-> IF n \in DOMAIN q THEN q[n] ELSE -1] : q \in QObs}]
        /\ hist = <<>> /\ qn = <<>> /\ objs = <<>> /\ runs = 0 /\ refused = FALSE
Room == Len(hist) < HistLen
Log(e) == hist' = Append(hist, e)
(* a node is added to the posterior (z before w before v) *)
Grow == /\ Room /\ Len(qn) < 3
        /\ qn' = Append(qn, QNames[Len(qn) + 1])
        /\ Log([op |-> "grow", n |-> QNames[Len(qn) + 1]])
        /\ UNCHANGED <<objs, runs, refused, cfg>>
Obss == {[NoObs EXCEPT !["x"] = a, !["z"] = b, !["u"] = c] : a \in {-1, 0, 3}, b \in {-1, 50}, c \in {-1, 9}}
Make(kind, by, mk, obs) ==
  /\ Room /\ Len(objs) < MaxObj
  /\ (by = "pairs" => Latents # {})
  /\ (kind # "elbo" => Latents # {})
  /\ objs' = Append(objs, [kind |-> kind, by |-> by, mk |-> mk, lat |-> Latents, obs |-> obs, built |-> FALSE])
  /\ Log([op |-> "make", kind |-> kind, by |-> by, mk |-> mk, obs |-> obs])
  /\ UNCHANGED <<qn, runs, refused, cfg>>
(* the user goes on using the dictionaries that were handed over *)
Alter(k, what, n) ==
  /\ Room /\ k \in 1..Len(objs) /\ (what = "latent" => objs[k].by = "pairs" /\ n \in objs[k].lat)
  /\ ~\E i \in 1..Len(hist) : hist[i].op = "alter" /\ hist[i].k = k
  /\ Log([op |-> "alter", k |-> k, what |-> what, n |-> n])
  /\ UNCHANGED <<qn, objs, runs, refused, cfg>>
Asks(o) == {"bn", "variational", "meta_bn", "joint", "value"}
           \cup (IF o.kind = "klpq" THEN {"importance"} ELSE {"sgvb", "tensor"})
           \cup (IF o.kind = "elbo" THEN {"reinforce"} ELSE {}) \cup (IF o.kind = "iw" THEN {"vimco"} ELSE {})
           \cup (IF o.mk # "fn" THEN {"node"} ELSE {})
Evaluates(o, what) == what \notin {"variational", "meta_bn"} /\ ~(o.mk = "fn" /\ what \in {"bn", "joint"})
                      /\ ~(o.kind = "klpq" /\ what = "value")
Answer(o, what, n) ==
  CASE what \in {"variational", "meta_bn"} -> [e |-> "same", v |-> 0]
    [] o.kind = "klpq" /\ what = "value" -> [e |-> "err", v |-> 0]
    [] ~Covered(o) -> [e |-> "err", v |-> 0]
    [] o.mk = "fn" /\ what \in {"bn", "joint"} -> [e |-> "none", v |-> 0]
    [] what = "bn" -> [e |-> "same", v |-> 0]
    [] what = "joint" -> [e |-> "val", v |-> LogP(o)]
    [] what = "node" -> [e |-> "val", v |-> Val(o, n)]
    [] what \in {"value", "tensor"} -> [e |-> "val", v |-> LogP(o) - LogQ(o)]
    [] what \in {"sgvb", "vimco"} -> [e |-> "val", v |-> LogQ(o) - LogP(o)]
    [] what = "importance" -> [e |-> "val", v |-> -LogQ(o)]
    [] OTHER -> [e |-> "any", v |-> 0]            \* reinforce
Ask(k, what, n) ==
  /\ Room /\ k \in 1..Len(objs)
  /\ LET o == objs[k] a == Answer(o, what, n) IN
       /\ what \in Asks(o) /\ (what = "node" => n \in cfg.model) /\ (what # "node" => n = "z")
       /\ (what = "reinforce" => o.lat # {})
       /\ Log([op |-> "ask", k |-> k, what |-> what, n |-> n, e |-> a.e, v |-> a.v])
       /\ refused' = (refused \/ (a.e = "err" /\ Evaluates(o, what)))
       /\ objs' = [objs EXCEPT ![k].built = @ \/ (Evaluates(o, what) /\ a.e # "err")]
       /\ runs' = runs + (IF ~o.built /\ Evaluates(o, what) /\ a.e # "err" THEN 1 ELSE 0)
  /\ UNCHANGED <<qn, cfg>>
AMake == \E kind \in Kinds, by \in {"net", "pairs"}, mk \in {"meta", "metalj", "fn"}, obs \in Obss : Make(kind, by, mk, obs)
AAlter == \E k \in 1..MaxObj, what \in {"observed", "latent"}, n \in {"z", "x", "w"} : Alter(k, what, n)
AAsk == \E k \in 1..MaxObj, what \in {"bn", "variational", "meta_bn", "joint", "value", "tensor", "importance", "sgvb", "reinforce", "vimco", "node"},
           n \in {"z", "w", "v", "x"} : Ask(k, what, n)
Next == Grow \/ AMake \/ AAlter \/ AAsk
Spec == Init /\ [][Next]_vars

(* ---- the guarantees ---- *)
AsksOf(k, W) == {i \in 1..Len(hist) : hist[i].op = "ask" /\ hist[i].k = k /\ hist[i].what \in W}
(* the same question has the same answer, whatever happens in between *)
Steady == \A k \in 1..Len(objs) : \A i, j \in AsksOf(k, {"value", "tensor", "sgvb", "joint", "importance", "vimco", "bn", "node"}) :
            (hist[i].what = hist[j].what /\ hist[i].n = hist[j].n) => hist[i].e = hist[j].e /\ hist[i].v = hist[j].v
(* one evaluation per objective at most *)
OneRun == runs = Cardinality({k \in 1..Len(objs) : objs[k].built})
(* a cost and the value are two sides of one evaluation *)
OneSide == \A k \in 1..Len(objs) : \A i \in AsksOf(k, {"value", "tensor"}), j \in AsksOf(k, {"sgvb", "vimco"}) :
             hist[i].e = "val" => hist[j].e = "val" /\ hist[i].v = -hist[j].v
(* an uncovered model is never evaluated *)
NeverBare == \A k \in 1..Len(objs) : objs[k].built => Covered(objs[k])
(* what an objective stands for does not move *)
Frozen == [][\A k \in 1..Len(objs) : objs'[k].lat = objs[k].lat /\ objs'[k].obs = objs[k].obs]_vars
Case == [h |-> hist, cfg |-> cfg, runs |-> IF refused THEN -1 ELSE runs]
Emit == (Len(hist) = HistLen /\ \E i \in 1..Len(hist) : hist[i].op = "ask") =>
  CSVWrite("%1$s", <<ToJson(Case)>>, IOEnv.VERIF_OUT)
=============================================================================
