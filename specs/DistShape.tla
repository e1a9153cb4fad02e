----------------------------- MODULE DistShape -----------------------------
(* Shape algebra of distributions: broadcasting of parameter batches, value  *)
(* shapes, sample shapes, and densities with grouped axes.  A behaviour      *)
(* chooses a law, its parameter shapes, a given shape, group_ndims and how   *)
(* much of this TensorFlow knows statically.  It ends in "done" with what    *)
(* the code must return: shapes, or an error, and for every entry of the     *)
(* result the batch members it is the sum (product) of.                      *)
EXTENDS Laws, Shape, TLC, Json, CSV, IOUtils

CONSTANTS Lws,       \* laws
          Dims,      \* sizes of batch axes
          MaxB,      \* rank of a batch
          MaxG,      \* rank of given's batch part
          Modes,     \* how shapes are known: static, unknown, partial
          Ks         \* event sizes
VARIABLES st, law, K, b1, b2, gb, gv, g, mode, ns
vars == <<st, law, K, b1, b2, gb, gv, g, mode, ns>>

Shapes(n) == ShapesOf(Dims, n)
R == IF K = 2 THEN 3 ELSE 2   \* rows of matrix events, never square: rows and columns must not be mixed up
ValueShape == IF ValueRank(law) = 0 THEN <<>> ELSE IF ValueRank(law) = 1 THEN <<K>> ELSE <<R, K>>
Tail3(kind) == CASE kind \in {"b", "s", "n"} -> <<>> [] kind = "v" -> <<K>>
                 [] kind = "m" -> <<K, K>> [] kind = "rk" -> <<R, K>> [] kind = "rr" -> <<R, R>>
ParamShape(i) ==
  LET kind == Params(law)[i][2]
      bat == IF kind \in {"s", "n"} THEN <<>>
             ELSE IF i = 1 THEN b1
             ELSE IF TwoBatch(law) \/ SameBatch(law) THEN b2 ELSE b1
  IN bat \o Tail3(kind)
Batch == IF TwoBatch(law) THEN Bcast(b1, b2)
         ELSE IF SameBatch(law) THEN (IF b1 = b2 THEN b1 ELSE Err)
         ELSE b1
GivenShape == gb \o gv
Full == Bcast(gb, Batch)                    \* batch part of the broadcast density
OutShape == IF Full = Err \/ g > Len(Full) THEN Err ELSE SubSeq(Full, 1, Len(Full) - g)

(* ---- which batch members an output entry is made of ---- *)
Members ==
  LET full == TLCEval(Full)
      gr == TLCEval(Prod(SubSeq(full, Len(full) - g + 1, Len(full))))
  IN [o \in 1..Prod(OutShape) |->
       [k \in 1..gr |-> LET ix == TLCEval(Unravel((o - 1) * gr + (k - 1), full))
                        IN <<Src(ix, b1), IF TwoBatch(law) \/ SameBatch(law) THEN Src(ix, b2)
                                          ELSE Src(ix, b1), Src(ix, gb)>>]]
SampleShape(n) == (IF n = 0 THEN <<>> ELSE <<n>>) \o Batch \o ValueShape

Init == /\ st = "law" /\ law \in Lws /\ K \in Ks
        /\ b1 = <<>> /\ b2 = <<>> /\ gb = <<>> /\ gv = <<>> /\ g = 0 /\ mode = "" /\ ns = 0
        /\ (ValueRank(law) = 0 /\ law # "Categorical" => K = CHOOSE k \in Ks : TRUE)
PickB1 == /\ st = "law" /\ b1' \in Shapes(MaxB) /\ st' = "b1"
          /\ UNCHANGED <<law, K, b2, gb, gv, g, mode, ns>>
PickB2 == /\ st = "b1" /\ st' = "b2"
          /\ b2' \in (IF TwoBatch(law) THEN Shapes(MaxB)
                      ELSE IF SameBatch(law)   \* equal, or one way of being wrong
                      THEN {b1, <<2>> \o b1} \cup (IF b1 # <<>> THEN {Tail(b1), [b1 EXCEPT ![1] = @ + 1]} ELSE {})
                      ELSE {<<>>})
          /\ UNCHANGED <<law, K, b1, gb, gv, g, mode, ns>>
PickG == /\ st = "b2" /\ st' = "g"
         /\ gb' \in Shapes(MaxG)
         /\ gv' \in {ValueShape} \cup     \* the value axes of given broadcast, too
              (IF SameBatch(law) THEN {[i \in 1..ValueRank(law) |-> 1]} \cup
                                      (IF gb' = <<>> THEN {<<>>} ELSE {}) ELSE {})
         /\ UNCHANGED <<law, K, b1, b2, g, mode, ns>>
PickRest == /\ st = "g" /\ st' = "rest"
            /\ g' \in 0..(Max2(Len(gb), Max2(Len(b1), Len(b2))))
            /\ \E mn \in {<<"static", 0>>, <<"static", 3>>, <<"unknown", 0>>, <<"unknown", 1>>,
                          <<"partial", 3>>} : mn[1] \in Modes /\ mode' = mn[1] /\ ns' = mn[2]
            /\ UNCHANGED <<law, K, b1, b2, gb, gv>>
Finish == st = "rest" /\ st' = "done" /\ UNCHANGED <<law, K, b1, b2, gb, gv, g, mode, ns>>
Next == PickB1 \/ PickB2 \/ PickG \/ PickRest \/ Finish
Spec == Init /\ [][Next]_vars

(* ---- the algebra is sound ---- *)
AllOut == st = "done" /\ OutShape # Err
Sound == AllOut => LET M == TLCEval(Members) IN
  /\ \A o \in 1..Len(M) : \A k \in 1..Len(M[o]) :
        /\ M[o][k][1] \in 0..(Prod(b1) - 1)
        /\ M[o][k][3] \in 0..(Prod(gb) - 1)
  /\ Prod(OutShape) * Prod(SubSeq(Full, Len(Full) - g + 1, Len(Full))) = Prod(Full)
  /\ Bcast(Full, Batch) = Full /\ Bcast(Full, gb) = Full
Symmetric == st = "done" => Bcast(b1, b2) = Bcast(b2, b1)

(* every entry of a parameter is used somewhere *)
Covers == AllOut => LET M == TLCEval(Members)
                     IN {M[o][k][1] : o \in 1..Len(M), k \in 1..Len(M[1])} = 0..(Prod(b1) - 1)

Case == [law |-> law, K |-> K, R |-> R, mode |-> mode, ns |-> ns, g |-> g,
         params |-> [i \in 1..Len(Params(law)) |-> <<Params(law)[i][1], Params(law)[i][2], ParamShape(i)>>],
         given |-> GivenShape, gbatch |-> gb,
         batch |-> Batch, value |-> ValueShape,
         sample |-> IF Batch = Err \/ ~CanSample(law) THEN Err ELSE SampleShape(ns),
         out |-> OutShape,
         members |-> IF OutShape = Err THEN <<>> ELSE Members,
         ref |-> <<law, R, K>>]
Def == [def |-> <<law, R, K>>, ld |-> LogDensity(law, R, K)]
Emit == IF st = "law" THEN CSVWrite("%1$s", <<ToJson(Def)>>, IOEnv.VERIF_OUT)
        ELSE st = "done" => CSVWrite("%1$s", <<ToJson(Case)>>, IOEnv.VERIF_OUT)
=============================================================================
