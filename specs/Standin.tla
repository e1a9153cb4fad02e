------------------------------- MODULE Standin -------------------------------
(* The two distributions without a density of their own.  Implicit stands for *)
(* whatever made a given tensor: its one sample is that tensor, and all of    *)
(* its mass lies there.  Empirical stands for data: it can only be observed.  *)
(* A behaviour picks one of them, a tensor and a value to evaluate at, and    *)
(* then asks for one thing.                                                   *)
EXTENDS Shape, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Kinds, Types, Shapes, Leads, MaxGroup
VARIABLES cfg, ask, st
vars == <<cfg, ask, st>>
Inf == 999999      \* the density at the atom of a continuous law
Mixed == -777        \* not settled: an event in which some coordinates agree, of a continuous law

(* vr: the rank of the value shape; -1: no value shape given *)
Init == /\ cfg \in {c \in [kind : Kinds, dt : Types, shape : Shapes, vr : -1..2, group : 0..MaxGroup,
                           lead : Leads, cont : {"default", "yes", "no"}, off : SUBSET (0..3), nodein : {"none", "free", "observed"}] :
                     /\ c.vr <= Len(c.shape)
                     /\ c.group <= Len(c.shape) - (IF c.vr < 0 THEN 0 ELSE c.vr)
                     /\ \A k \in c.off : k < Prod(c.shape)
                     /\ (c.kind = "implicit" => c.cont = "default")
                     /\ (c.kind = "empirical" => c.off = {} /\ c.lead = <<>>)}
        /\ ask = "" /\ st = "made"
VR == IF cfg.vr < 0 THEN 0 ELSE cfg.vr
Batch == SubSeq(cfg.shape, 1, Len(cfg.shape) - VR)
Value == SubSeq(cfg.shape, Len(cfg.shape) - VR + 1, Len(cfg.shape))
Continuous == IF cfg.cont = "default" THEN cfg.dt # "i" ELSE cfg.cont = "yes"
(* the given value: the tensor itself, except at the flat positions in off (of the
   last of the leading copies; the other copies are the tensor itself) *)
NLead == Prod(cfg.lead)
GShape == cfg.lead \o cfg.shape
GivenAgrees(copy, k) == (copy # NLead - 1) \/ (k \notin cfg.off)
VN == Prod(Value)
Agrees(copy, b) == \A v \in 0..(VN - 1) : GivenAgrees(copy, b * VN + v)
(* events: the last group axes of the batch together *)
EShape == SubSeq(Batch, 1, Len(Batch) - cfg.group)
GN == Prod(SubSeq(Batch, Len(Batch) - cfg.group + 1, Len(Batch)))
EventP(copy, e) ==
  LET ag == {i \in 0..(GN - 1) : Agrees(copy, e * GN + i)}
  IN IF Cardinality(ag) = GN THEN (IF Continuous THEN Inf ELSE 1)
     ELSE IF ag # {} /\ Continuous THEN Mixed
     ELSE 0
P == LET n == Prod(EShape) IN [k \in 1..(NLead * n) |-> EventP((k - 1) \div n, (k - 1) % n)]
Asks == {"sample", "sample1", "sample3", "prob", "log_prob", "node"}
Answer(a) ==
  IF cfg.kind = "empirical"
  THEN IF a # "node" THEN "refused"
       ELSE IF cfg.nodein = "observed" THEN "observation" ELSE "refused"
  ELSE CASE a = "sample" -> "tensor"
         [] a = "sample1" -> "tensor1"
         [] a = "sample3" -> "refused"
         [] a = "node" -> IF cfg.nodein = "observed" THEN "observation" ELSE "tensor"
         [] OTHER -> "density"
Ask(a) == /\ st = "made" /\ (a = "node" <=> cfg.nodein # "none")
          /\ ask' = a /\ st' = "done" /\ UNCHANGED cfg
Next == \E a \in Asks : Ask(a)
Spec == Init /\ [][Next]_vars

(* ---- the guarantees ---- *)
AtTheTensor == (cfg.kind = "implicit" /\ cfg.off = {}) => \A k \in 1..Len(P) : P[k] = IF Continuous THEN Inf ELSE 1
OneShape == Len(P) = NLead * Prod(EShape)
NeverNegative == \A k \in 1..Len(P) : P[k] = Mixed \/ P[k] >= 0
Emit == (st = "done") =>
  CSVWrite("%1$s", <<ToJson([cfg |-> cfg, ask |-> ask, answer |-> Answer(ask), batch |-> Batch, value |-> Value,
     continuous |-> Continuous, pshape |-> cfg.lead \o EShape, p |-> P])>>, IOEnv.VERIF_OUT)
=============================================================================
