------------------------------ MODULE Backward ------------------------------
(* get_backward_ops: the operations the seed tensors depend on, in an order  *)
(* in which an operation comes after what it depends on.                     *)
(*                                                                           *)
(* An operation is a record [ins, ctl]: its data inputs are tensors          *)
(* <<op, output>> of earlier operations, its control inputs earlier          *)
(* operations.  An operation with k > 0 data inputs has k outputs, a source  *)
(* has one.  The search walks back from the seeds over data edges whose      *)
(* tensor is not treated as an input, and over control edges.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS N, MaxIn, MaxSeeds, MaxCuts, MaxCtl, MinOps
VARIABLES ops, seeds, cuts, ret, st
vars == <<ops, seeds, cuts, ret, st>>

NOut(o) == IF Len(o.ins) = 0 THEN 1 ELSE Len(o.ins)
Tensors == {<<i, j>> \in (1..Len(ops)) \X (1..MaxIn) : j <= NOut(ops[i])}
Seqs(X, k) == UNION {[1..n -> X] : n \in 0..k}
Uncut(t) == t \notin cuts
DataDeps(i) == {t[1] : t \in {u \in {ops[i].ins[k] : k \in 1..Len(ops[i].ins)} : Uncut(u)}}
Deps(i) == DataDeps(i) \cup ops[i].ctl
SeedOps == {t[1] : t \in {u \in {seeds[k] : k \in 1..Len(seeds)} : Uncut(u)}}
RECURSIVE Close(_)
Close(X) == LET Y == X \cup UNION {Deps(i) : i \in X} IN IF Y = X THEN X ELSE Close(Y)
Wanted == Close(SeedOps)
Done == {ret[k] : k \in 1..Len(ret)}

Init == ops = <<>> /\ seeds = <<>> /\ cuts = {} /\ ret = <<>> /\ st = "build"
NewOp == /\ st = "build" /\ Len(ops) < N
         /\ \E ins \in Seqs(Tensors, MaxIn), ctl \in SUBSET (1..Len(ops)) :
               /\ Cardinality(ctl) <= MaxCtl
               /\ \A k \in 1..Len(ins) : ins[k][1] \notin ctl   \* TensorFlow keeps the data edge only
               /\ ops' = Append(ops, [ins |-> ins, ctl |-> ctl])
         /\ UNCHANGED <<seeds, cuts, ret, st>>
Ask == /\ st = "build" /\ Len(ops) >= MinOps
       /\ \E s \in Seqs(Tensors, MaxSeeds), c \in SUBSET Tensors :
            /\ Cardinality(c) <= MaxCuts
            /\ seeds' = s /\ cuts' = c
       /\ st' = "walk" /\ UNCHANGED <<ops, ret>>
(* any wanted operation whose own dependencies have been returned may be next *)
Return == /\ st = "walk" /\ Done # Wanted
          /\ \E i \in Wanted \ Done : /\ Deps(i) \subseteq Done
                                      \* orders are not enumerated: the least one stands for all of them
                                      /\ \A j \in Wanted \ Done : Deps(j) \subseteq Done => i <= j
                                      /\ ret' = Append(ret, i)
          /\ UNCHANGED <<ops, seeds, cuts, st>>
Finish == st = "walk" /\ Done = Wanted /\ st' = "done" /\ UNCHANGED <<ops, seeds, cuts, ret>>
Next == NewOp \/ Ask \/ Return \/ Finish
Spec == Init /\ [][Next]_vars

Pos(i) == CHOOSE k \in 1..Len(ret) : ret[k] = i
(* an acyclic graph can always be ordered, each operation is returned once *)
Live == st = "walk" => \/ Done = Wanted
                       \/ \E i \in Wanted \ Done : Deps(i) \subseteq Done
Once == Len(ret) = Cardinality(Done)
Ordered == \A i \in Done : \A j \in Deps(i) : j \in Done /\ Pos(j) < Pos(i)
(* nothing behind the cut: what is returned is reachable without passing a cut tensor *)
Behind == st = "done" => (SeedOps = {} => ret = <<>>)
Case == [ops |-> ops, seeds |-> seeds, cuts |-> cuts, wanted |-> Wanted,
         deps |-> [i \in 1..Len(ops) |-> IF i \in Wanted THEN Deps(i) ELSE {}]]
Emit == st = "done" => CSVWrite("%1$s", <<ToJson(Case)>>, IOEnv.VERIF_OUT)
=============================================================================
