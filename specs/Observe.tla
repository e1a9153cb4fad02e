------------------------------- MODULE Observe -------------------------------
(* What happens to one observation on its way into a net.  The net holds an   *)
(* unobserved node z; a behaviour then creates one or two more nodes, each    *)
(* under an observation of some form, type and shape, in one of the ways the  *)
(* library offers, and finally tries every used name once more.  An           *)
(* observation is either kept, exactly as it was given, or refused, and then  *)
(* the net is as if the call had not been made.  Where its shape is only      *)
(* known when the graph runs, a mismatch may show no earlier than that, but   *)
(* it does show.                                                              *)
EXTENDS Shape, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Types,      \* sample types: "i" int32, "f" float32, "d" float64
          Batches, Values, ObsShapes, Ways, MaxTry
VARIABLES law, way, tries, net, st
vars == <<law, way, tries, net, st>>

Forms == {"number", "list", "array", "tensor", "variable", "node", "placeholder"}
Full == law.batch \o law.value
Tail_(s, k) == SubSeq(s, Len(s) - k + 1, Len(s))
Head_(s, k) == SubSeq(s, 1, Len(s) - k)
VR == Len(law.value)

(* ---- observations ---- *)
TypesOf(f) == CASE f \in {"number", "list"} -> {"i", "f"}
                [] f = "array" -> IF law.dt = "i" THEN {"i"} ELSE Types
                [] OTHER -> Types
Statics(f) == IF f = "placeholder" THEN {"known", "rank", "nothing"} ELSE {"known"}
(* the value axes are right, or plainly wrong: stretching a value axis is another matter *)
ShapeInScope(s) == /\ Len(s) >= VR
                   /\ \/ Tail_(s, VR) = law.value
                      \/ \A i \in 1..VR : Tail_(s, VR)[i] # 1 /\ law.value[i] # 1
Observations ==
  UNION {{[form |-> f, dt |-> t, static |-> k, shape |-> s] :
            t \in TypesOf(f), k \in Statics(f),
            s \in {x \in ObsShapes : ShapeInScope(x) /\ (f = "number" => x = <<>>) /\ (f = "list" => x # <<>>)}}
         : f \in Forms}
Data(o, salt) == [k \in 1..Prod(o.shape) |-> salt + 3 * k]

(* ---- the two questions asked of an observation ---- *)
TypeFits(o) == CASE o.form \in {"number", "list"} -> o.dt = "i" \/ law.dt # "i"
                 [] o.form = "array" -> TRUE
                 [] OTHER -> o.dt = law.dt
ShapeFits(o) == Bcast(Full, o.shape) # Err
Outcome(o) == IF ~TypeFits(o) THEN "refused"
              ELSE IF ShapeFits(o) THEN "kept"
              ELSE IF o.static = "known" THEN "refused" ELSE "late"

(* ---- densities: the sum of the value's entries plus 10*(batch index + 1) ---- *)
DShape(o) == Bcast(law.batch, Head_(o.shape, VR))
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
DData(o, salt) ==
  LET sh == DShape(o) vs == Prod(law.value) obsb == Head_(o.shape, VR) dat == Data(o, salt)
  IN [k \in 1..Prod(sh) |->
        LET ix == Unravel(k - 1, sh)
            g == Src(ix, obsb) w == Src(ix, law.batch)
        IN SumTo([j \in 1..vs |-> dat[g * vs + j]], vs) + vs * 10 * (w + 1)]

Init == /\ law \in [dt : Types, batch : Batches, value : Values]
        /\ way \in Ways /\ tries = <<>> /\ net = {"z"} /\ st = "build"
NameOf(k) == <<"x", "y">>[k]
Salt(k) == 7 * k
(* a node is made under an observation *)
Try(o, under) ==
  /\ st = "build" /\ Len(tries) < MaxTry
  /\ under => way = "legacy-arg"
  /\ (way = "free" => Len(tries) = 0)
  /\ tries' = Append(tries, [name |-> NameOf(Len(tries) + 1), obs |-> o, under |-> under,
                             out |-> Outcome(o), data |-> Data(o, Salt(Len(tries) + 1)),
                             dshape |-> IF Outcome(o) = "kept" THEN DShape(o) ELSE Err,
                             ddata |-> IF Outcome(o) = "kept" THEN DData(o, Salt(Len(tries) + 1)) ELSE <<>>])
  /\ net' = IF Outcome(o) = "refused" \/ way = "free" THEN net ELSE net \cup {NameOf(Len(tries) + 1)}
  /\ UNCHANGED <<law, way, st>>
(* ... and everything is looked at *)
Close == /\ st = "build" /\ tries # <<>> /\ st' = "done" /\ UNCHANGED <<law, way, tries, net>>
ATry == \E o \in Observations : \E u \in BOOLEAN : Try(o, u)
Next == Close \/ ATry
Spec == Init /\ [][Next]_vars

(* ---- the guarantees ---- *)
Kept == {k \in 1..Len(tries) : tries[k].out = "kept"}
InNet == net = {"z"} \cup (IF way = "free" THEN {} ELSE {tries[k].name : k \in {j \in 1..Len(tries) : tries[j].out # "refused"}})
KeptFits == \A k \in Kept : /\ Bcast(Full, tries[k].obs.shape) # Err
                            /\ Len(tries[k].data) = Prod(tries[k].obs.shape)
                            /\ Len(tries[k].ddata) = Prod(tries[k].dshape)
NothingLossy == \A k \in Kept : law.dt = "i" => tries[k].obs.dt = "i"
(* an observation the graph cannot judge yet is never refused for its shape *)
LateOnly == \A k \in 1..Len(tries) : tries[k].out = "late" => tries[k].obs.static # "known"
(* the joint density of what is there, where the shapes meet *)
RECURSIVE JShape(_)
JShape(k) == IF k = 0 THEN <<>> ELSE IF k \in Kept THEN Bcast(JShape(k - 1), tries[k].dshape) ELSE JShape(k - 1)
Joint == IF way = "free" THEN [kind |-> "value", shape |-> <<>>, data |-> <<0>>]
         ELSE IF \E k \in 1..Len(tries) : tries[k].out = "late" THEN [kind |-> "fails", shape |-> <<>>, data |-> <<>>]
         ELSE LET sh == JShape(Len(tries))
              IN IF sh = Err THEN [kind |-> "skip", shape |-> <<>>, data |-> <<>>]
                 ELSE [kind |-> "value", shape |-> sh,
                       data |-> [i \in 1..Prod(sh) |->
                          SumTo([k \in 1..Len(tries) |->
                             IF k \in Kept THEN tries[k].ddata[Src(Unravel(i - 1, sh), tries[k].dshape) + 1] ELSE 0],
                             Len(tries))]]
Emit == (st = "done") =>
  CSVWrite("%1$s", <<ToJson([law |-> law, way |-> way, tries |-> tries, net |-> net, joint |-> Joint])>>, IOEnv.VERIF_OUT)
=============================================================================
