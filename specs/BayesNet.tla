------------------------------ MODULE BayesNet ------------------------------
(* The model-building API of zhusuan: BayesianNet, StochasticTensor,         *)
(* MetaBayesianNet.observe and the context stack that carries observations.  *)
(*                                                                           *)
(* A behaviour is a history of API calls.  The state keeps what the design   *)
(* keeps (lazily drawn, memoised samples; a memoised joint density that is   *)
(* dropped when the net grows; a stack of observation frames) and the        *)
(* invariants say what that design is for: one draw per node, no stale       *)
(* joint density, observations that reach exactly the nets built under them, *)
(* unique names.  Every event carries the observation the specification      *)
(* demands, so that a history can be replayed into the code.                 *)
(*                                                                           *)
(* Values are integers.  The d-th distribution made in a history ("probe")   *)
(* gives 100*k + 7*d + (value of its parent) at its k-th draw and has log    *)
(* density  d * (value + parent value).                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Names,      \* node names
          MaxBN,      \* nets in one history
          MaxDepth,   \* nesting of observe()
          HistLen,    \* length of the emitted histories
          Focus,      \* set of enabled action classes
          AllObs,     \* TRUE: every single-name observation map; FALSE: a small set
          EmitOn      \* write the histories of length HistLen

VARIABLES hist, bns, stack, cxs, nd, closed
vars == <<hist, bns, stack, cxs, nd, closed>>

None == -1
NoObs == [n \in Names |-> None]
ObsVals == {0, 5}          \* 0: a falsy observation is still an observation
ObsMaps == IF AllObs
           THEN {NoObs} \cup {[NoObs EXCEPT ![n] = v] : n \in Names, v \in ObsVals}
                \cup {[n \in Names |-> 5]}
           ELSE {NoObs, [NoObs EXCEPT !["a"] = 0], [n \in Names |-> 5]}
Metas == {1, 2}            \* meta 2 overrides the joint density by the constant 7000
Override == 7000

Max(S) == CHOOSE x \in S : \A y \in S : x >= y
NodeIdx(b, n) == {i \in 1..Len(bns[b].nodes) : bns[b].nodes[i].name = n}
Has(b, n) == NodeIdx(b, n) # {}
Node(b, n) == bns[b].nodes[CHOOSE i \in NodeIdx(b, n) : TRUE]

(* the value a node has once it is read *)
DrawVal(node) == 100 * (node.drawn + node.k) + 7 * node.d + node.par
ValOf(node) == IF node.kind = "d" THEN node.val
               ELSE IF node.obs # None THEN node.obs
               ELSE IF node.drawn > 0 THEN node.val
               ELSE DrawVal(node)
Draw(node) == IF node.kind = "s" /\ node.obs = None /\ node.drawn = 0
              THEN [node EXCEPT !.drawn = 1, !.val = DrawVal(node)] ELSE node
Term(node) == node.d * (ValOf(node) + node.par)
RECURSIVE SumTerms(_)
SumTerms(s) == IF s = <<>> THEN 0
               ELSE (IF Head(s).kind = "s" THEN Term(Head(s)) ELSE 0) + SumTerms(Tail(s))
FreshJoint(b) == IF bns[b].meta = 2 THEN Override ELSE SumTerms(bns[b].nodes)

Ev(op, b, n, m, o, p, e, v) ==
  [op |-> op, b |-> b, n |-> n, m |-> m, o |-> o, p |-> p, e |-> e, v |-> v]
Log(ev) == hist' = Append(hist, ev)

TypeOK == /\ Len(bns) <= MaxBN /\ Len(stack) <= MaxDepth

Init == /\ hist = <<>> /\ bns = <<>> /\ stack = <<>> /\ cxs = <<>> /\ nd = 0 /\ closed = {}

Room == Len(hist) < HistLen
(* once a net is built inside observe(), the function must be able to return it: *)
TopFrame == stack[Len(stack)]

NewBN(co) ==
  /\ "net" \in Focus /\ Room /\ Len(bns) < MaxBN
  /\ bns' = Append(bns, [cobs |-> co,
                         lobs |-> IF stack = <<>> THEN NoObs ELSE TopFrame.obs,
                         meta |-> IF stack = <<>> THEN 0 ELSE TopFrame.m,
                         nodes |-> <<>>, cached |-> FALSE, cval |-> 0])
  /\ stack' = IF stack = <<>> THEN stack
              ELSE [stack EXCEPT ![Len(stack)].last = Len(bns) + 1]
  /\ UNCHANGED <<cxs, nd, closed>>
  /\ Log(Ev("net", Len(bns) + 1, "", 0, co, 0, "unit", 0))

ParVal(b, p) == IF p = 0 THEN 0 ELSE ValOf(bns[b].nodes[p])

AddNode(b, node, drawPar) ==
  bns' = [bns EXCEPT ![b].nodes =
            Append(IF drawPar = 0 THEN @ ELSE [@ EXCEPT ![drawPar] = Draw(@)], node),
            ![b].cached = IF node.kind = "s" THEN FALSE ELSE @]

Stoch(b, n, p) ==
  /\ "stoch" \in Focus /\ Room /\ p \in 0..Len(bns[b].nodes)
  /\ IF Has(b, n)
     THEN /\ p = 0 /\ UNCHANGED <<bns, nd>>
          /\ Log(Ev("stoch", b, n, 0, NoObs, p, "err", 0))
     ELSE /\ nd' = nd + 1
          /\ AddNode(b, [name |-> n, kind |-> "s", d |-> nd + 1, drawn |-> 0, val |-> 0,
                         k |-> 1, par |-> ParVal(b, p),
                         obs |-> IF bns[b].lobs[n] # None THEN bns[b].lobs[n]
                                 ELSE bns[b].cobs[n]], p)
          /\ Log(Ev("stoch", b, n, 0, NoObs, p, "unit", nd + 1))
  /\ UNCHANGED <<stack, cxs, closed>>

(* two nodes of one net may follow the very same distribution object: they are still
   two random variables, with a draw and a log density each.  (The model reads the
   first before it makes the second, and the second at once, so that it is settled
   which draw of the distribution belongs to which.) *)
Drawn(b, d) == Cardinality({i \in 1..Len(bns[b].nodes) :
                 bns[b].nodes[i].kind = "s" /\ bns[b].nodes[i].d = d
                 /\ bns[b].nodes[i].obs = None})
Share(b, n, j) ==
  /\ "share" \in Focus /\ Room /\ j \in 1..Len(bns[b].nodes) /\ ~Has(b, n)
  /\ bns[b].nodes[j].kind = "s"
  /\ LET of == bns[b].nodes[j]
         o == IF bns[b].lobs[n] # None THEN bns[b].lobs[n] ELSE bns[b].cobs[n]
         node == Draw([name |-> n, kind |-> "s", d |-> of.d, drawn |-> 0, val |-> 0,
                       k |-> 1 + Drawn(b, of.d), par |-> of.par, obs |-> o])
     IN /\ AddNode(b, node, j)
        /\ Log(Ev("share", b, n, of.name, NoObs, j, "val", ValOf(node)))
  /\ UNCHANGED <<stack, cxs, nd, closed>>

Determ(b, n, p) ==
  /\ "det" \in Focus /\ Room /\ p \in 0..Len(bns[b].nodes)
  /\ IF Has(b, n)
     THEN /\ p = 0 /\ UNCHANGED <<bns, nd>>
          /\ Log(Ev("det", b, n, 0, NoObs, p, "err", 0))
     ELSE /\ nd' = nd + 1
          /\ AddNode(b, [name |-> n, kind |-> "d", d |-> nd + 1, drawn |-> 0, k |-> 1,
                         val |-> 1000 + nd + ParVal(b, p), par |-> 0, obs |-> None], p)
          /\ Log(Ev("det", b, n, 0, NoObs, p, "val", 1000 + nd + ParVal(b, p)))
  /\ UNCHANGED <<stack, cxs, closed>>

DrawAt(b, I) == bns' = [bns EXCEPT ![b].nodes =
                 [i \in 1..Len(bns[b].nodes) |-> IF i \in I THEN Draw(bns[b].nodes[i])
                                                 ELSE bns[b].nodes[i]]]

(* way = 1: net[name]; 2: net.get(name); 3: the .tensor of the node returned at creation *)
Read(b, n, way) ==
  /\ "read" \in Focus /\ Room /\ (way = 3 => Has(b, n))
  /\ IF Has(b, n)
     THEN /\ DrawAt(b, NodeIdx(b, n))
          /\ Log(Ev("read", b, n, way, NoObs, 0, "val", ValOf(Node(b, n))))
     ELSE /\ UNCHANGED bns
          /\ Log(Ev("read", b, n, way, NoObs, 0, "err", 0))
  /\ UNCHANGED <<stack, cxs, nd, closed>>

IsObs(b, n) ==
  /\ "read" \in Focus /\ Room /\ Has(b, n) /\ Node(b, n).kind = "s"
  /\ Log(Ev("isobs", b, n, 0, NoObs, 0, "val", IF Node(b, n).obs = None THEN 0 ELSE 1))
  /\ UNCHANGED <<bns, stack, cxs, nd, closed>>

CondLogP(b, n) ==
  /\ "clp" \in Focus /\ Room
  /\ IF Has(b, n) /\ Node(b, n).kind = "s"
     THEN /\ DrawAt(b, NodeIdx(b, n))
          /\ Log(Ev("clp", b, n, 0, NoObs, 0, "val", Term(Node(b, n))))
     ELSE /\ UNCHANGED bns
          /\ Log(Ev("clp", b, n, 0, NoObs, 0, "err", 0))
  /\ UNCHANGED <<stack, cxs, nd, closed>>

(* several names at once, in the order asked for *)
CondMany(b, n1, n2) ==
  /\ "many" \in Focus /\ Room /\ n1 # n2
  /\ IF Has(b, n1) /\ Has(b, n2) /\ Node(b, n1).kind = "s" /\ Node(b, n2).kind = "s"
     THEN /\ DrawAt(b, NodeIdx(b, n1) \cup NodeIdx(b, n2))
          /\ Log(Ev("clpmany", b, n1, n2, NoObs, 0, "vals",
                    <<Term(Node(b, n1)), Term(Node(b, n2))>>))
     ELSE /\ UNCHANGED bns
          /\ Log(Ev("clpmany", b, n1, n2, NoObs, 0, "err", 0))
  /\ UNCHANGED <<stack, cxs, nd, closed>>
ReadMany(b, n1, n2) ==
  /\ "many" \in Focus /\ Room
  /\ IF Has(b, n1) /\ Has(b, n2)
     THEN /\ DrawAt(b, NodeIdx(b, n1) \cup NodeIdx(b, n2))
          /\ Log(Ev("getmany", b, n1, n2, NoObs, 0, "vals",
                    <<ValOf(Node(b, n1)), ValOf(Node(b, n2))>>))
     ELSE /\ UNCHANGED bns
          /\ Log(Ev("getmany", b, n1, n2, NoObs, 0, "err", 0))
  /\ UNCHANGED <<stack, cxs, nd, closed>>

Joint(b) ==
  /\ "joint" \in Focus /\ Room
  /\ bns[b].meta = 2 \/ \E i \in 1..Len(bns[b].nodes) : bns[b].nodes[i].kind = "s"
  /\ LET val == IF bns[b].cached THEN bns[b].cval ELSE FreshJoint(b)
         dr  == IF bns[b].cached \/ bns[b].meta = 2 THEN {} ELSE 1..Len(bns[b].nodes)
     IN /\ bns' = [bns EXCEPT ![b].nodes =
                     [i \in 1..Len(bns[b].nodes) |-> IF i \in dr THEN Draw(bns[b].nodes[i])
                                                     ELSE bns[b].nodes[i]],
                     ![b].cached = TRUE, ![b].cval = val]
        /\ Log(Ev("joint", b, "", 0, NoObs, 0, "val", val))
  /\ UNCHANGED <<stack, cxs, nd, closed>>

(* a net may not be assigned into: net[name] = x is refused *)
SetItem(b, n) ==
  /\ "set" \in Focus /\ Room
  /\ Log(Ev("setitem", b, n, 0, NoObs, 0, "err", 0))
  /\ UNCHANGED <<bns, stack, cxs, nd, closed>>

(* observe() starts: the model function runs from here to the matching End/Raise *)
Begin(m, o) ==
  /\ "frame" \in Focus /\ Room /\ Len(stack) < MaxDepth
  /\ stack' = Append(stack, [m |-> m, obs |-> o, last |-> 0])
  /\ Log(Ev("begin", 0, "", m, o, 0, "unit", 0))
  /\ UNCHANGED <<bns, cxs, nd, closed>>
End ==
  /\ "frame" \in Focus /\ Room /\ stack # <<>> /\ TopFrame.last # 0
  /\ \A i \in 1..Len(cxs) : cxs[i].f < Len(stack)
  /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
  /\ closed' = closed \cup {TopFrame.last}
  /\ Log(Ev("end", TopFrame.last, "", 0, NoObs, 0, "unit", 0))
  /\ UNCHANGED <<bns, cxs, nd>>
(* the model function raises; whoever called observe() catches it *)
Raise ==
  /\ "frame" \in Focus /\ Room /\ stack # <<>>
  /\ \A i \in 1..Len(cxs) : cxs[i].f < Len(stack)
  /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
  /\ Log(Ev("raise", 0, "", 0, NoObs, 0, "unit", 0))
  /\ UNCHANGED <<bns, cxs, nd, closed>>

(* the old style: "with net:" and free-standing stochastic nodes, which register
   in the innermost open net; their observations come from that net's own dictionary *)
Enter(b) ==
  /\ "legacy" \in Focus /\ Room /\ Len(cxs) < 2 /\ bns[b].lobs = NoObs
  /\ cxs' = Append(cxs, [b |-> b, f |-> Len(stack)])
  /\ Log(Ev("enter", b, "", 0, NoObs, 0, "unit", 0))
  /\ UNCHANGED <<bns, stack, nd, closed>>
Leave ==
  /\ "legacy" \in Focus /\ Room /\ cxs # <<>> /\ cxs[Len(cxs)].f = Len(stack)
  /\ cxs' = SubSeq(cxs, 1, Len(cxs) - 1)
  /\ Log(Ev("leave", cxs[Len(cxs)].b, "", 0, NoObs, 0, "unit", 0))
  /\ UNCHANGED <<bns, stack, nd, closed>>
Legacy(n) ==
  /\ "legacy" \in Focus /\ Room /\ cxs # <<>>
  /\ LET b == cxs[Len(cxs)].b
     IN IF Has(b, n)
        THEN /\ UNCHANGED <<bns, nd>>
             /\ Log(Ev("legacy", b, n, 0, NoObs, 0, "err", 0))
        ELSE /\ nd' = nd + 1
             /\ AddNode(b, [name |-> n, kind |-> "s", d |-> nd + 1, drawn |-> 0, val |-> 0,
                            k |-> 1, par |-> 0, obs |-> bns[b].cobs[n]], 0)
             /\ Log(Ev("legacy", b, n, 0, NoObs, 0, "unit", nd + 1))
  /\ UNCHANGED <<stack, cxs, closed>>

ANet    == \E co \in ObsMaps : NewBN(co)
AStoch  == \E b \in 1..Len(bns) : \E n \in Names : \E p \in {0, Len(bns[b].nodes)} : Stoch(b, n, p)
AShare  == \E b \in 1..Len(bns) : \E n \in Names : Share(b, n, Len(bns[b].nodes))
ADet    == \E b \in 1..Len(bns) : \E n \in Names : \E p \in {0, Len(bns[b].nodes)} : Determ(b, n, p)
ARead   == \E b \in 1..Len(bns) : \E n \in Names : \E w \in 1..3 : Read(b, n, w)
AIsObs  == \E b \in 1..Len(bns) : \E n \in Names : IsObs(b, n)
AClp    == \E b \in 1..Len(bns) : \E n \in Names : CondLogP(b, n)
AMany   == \E b \in 1..Len(bns) : \E n1, n2 \in Names : CondMany(b, n1, n2) \/ ReadMany(b, n1, n2)
AJoint  == \E b \in 1..Len(bns) : Joint(b)
ASet    == \E b \in 1..Len(bns) : \E n \in Names : SetItem(b, n)
ABegin  == \E m \in Metas : \E o \in ObsMaps : Begin(m, o)
AEnd    == End
ARaise  == Raise
AEnter  == \E b \in 1..Len(bns) : Enter(b)
ALeave  == Leave
ALegacy == \E n \in Names : Legacy(n)

Next == ANet \/ AStoch \/ AShare \/ ADet \/ ARead \/ AIsObs \/ AClp \/ AMany \/ AJoint \/ ASet
        \/ ABegin \/ AEnd \/ ARaise \/ AEnter \/ ALeave \/ ALegacy
Spec == Init /\ [][Next]_vars

(* ---- the guarantees, on the design ---- *)
UniqueNames == \A b \in 1..Len(bns) : \A i, j \in 1..Len(bns[b].nodes) :
                 i # j => bns[b].nodes[i].name # bns[b].nodes[j].name
DrawnOnce == \A b \in 1..Len(bns) : \A i \in 1..Len(bns[b].nodes) :
               /\ bns[b].nodes[i].drawn <= 1
               /\ bns[b].nodes[i].obs # None => bns[b].nodes[i].drawn = 0
JointFresh == \A b \in 1..Len(bns) : bns[b].cached => bns[b].cval = FreshJoint(b)
ObservedExactly ==
  \A b \in 1..Len(bns) : \A i \in 1..Len(bns[b].nodes) :
    LET k == bns[b].nodes[i] IN
      k.kind = "s" => (k.obs # None <=> (bns[b].lobs[k.name] # None \/ bns[b].cobs[k.name] # None))
StackScoped == \A b \in 1..Len(bns) : bns[b].lobs # NoObs => bns[b].meta # 0
(* a value never changes, and a net never loses or renames a node *)
Stable == [][ \A b \in 1..Len(bns) : \A i \in 1..Len(bns[b].nodes) :
                /\ bns'[b].nodes[i].name = bns[b].nodes[i].name
                /\ (bns[b].nodes[i].drawn = 1 => bns'[b].nodes[i].val = bns[b].nodes[i].val)
                /\ bns'[b].nodes[i].obs = bns[b].nodes[i].obs
                /\ bns'[b].lobs = bns[b].lobs ]_vars

(* what every net has to answer once the history is over: the joint density,
   then per node its log density, its value and whether it is observed *)
HasJoint(b) == bns[b].meta = 2 \/ \E i \in 1..Len(bns[b].nodes) : bns[b].nodes[i].kind = "s"
Audit == [b \in 1..Len(bns) |->
           [joint |-> IF HasJoint(b) THEN <<FreshJoint(b)>> ELSE <<>>,
            nodes |-> [i \in 1..Len(bns[b].nodes) |->
                        LET k == bns[b].nodes[i]
                        IN [name |-> k.name, kind |-> k.kind, val |-> ValOf(k),
                            term |-> IF k.kind = "s" THEN Term(k) ELSE 0, obs |-> k.obs # None]]]]
Useful == \E b \in 1..Len(bns) : bns[b].nodes # <<>>
Emit == (EmitOn /\ Len(hist) = HistLen /\ Useful)
        => CSVWrite("%1$s", <<ToJson([h |-> hist, fin |-> Audit])>>, IOEnv.VERIF_OUT)
=============================================================================
