-------------------------------- MODULE Vars --------------------------------
(* Which variables the calls of meta nets and of functions under              *)
(* reuse_variables use.  A model asks for one variable "w" (tf.get_variable,  *)
(* or tf.Variable: kind "new"); the history decides whether the call gets an  *)
(* old variable, a new one, or is refused.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS HistLen, MaxTh, Scopes, Nest
VARIABLES hist, ths, nvar, vinit, calls, opened, taken, inv
vars == <<hist, ths, nvar, vinit, calls, opened, taken, inv>>
(* ths: the meta nets and decorated functions made so far                     *)
(*   [sort: "meta" or "fun", scope, reuse, kind, arg, v: its variable or 0]   *)
(* vinit[v]: initial value of variable v; calls: what each successful call    *)
(* has to see; opened: variable scopes ever opened; taken: scope -> variable  *)
None == 0
Init == /\ hist = <<>> /\ ths = <<>> /\ nvar = 0 /\ vinit = <<>> /\ calls = <<>>
        /\ opened = {} /\ taken = {} /\ inv = 0
Room == Len(hist) < HistLen
Ev(op, t, u, o, e) == [op |-> op, t |-> t, u |-> u, o |-> o, e |-> e]
Log(e) == hist' = Append(hist, e)

Make(sort, scope, reuse, kind) ==
  /\ Room /\ Len(ths) < MaxTh
  /\ sort = "fun" => reuse /\ kind = "get" /\ scope # ""
  /\ kind = "new" => ~reuse
  /\ IF reuse /\ scope = ""
     THEN /\ Log([op |-> "make", sort |-> sort, scope |-> scope, reuse |-> reuse, kind |-> kind, arg |-> 0, e |-> "err"])
          /\ UNCHANGED <<ths>>
     ELSE /\ ths' = Append(ths, [sort |-> sort, scope |-> scope, reuse |-> reuse, kind |-> kind,
                                 arg |-> Len(ths) + 1, v |-> None])
          /\ Log([op |-> "make", sort |-> sort, scope |-> scope, reuse |-> reuse, kind |-> kind, arg |-> Len(ths) + 1, e |-> "unit"])
  /\ UNCHANGED <<nvar, vinit, calls, opened, taken, inv>>

(* a call of t succeeds unless it asks for a new variable under a taken name *)
Own(t) == ths[t].reuse
Clash(t) == ~Own(t) /\ ths[t].kind = "get" /\ ths[t].scope \in taken
Fresh(t) == ~Clash(t) /\ (~Own(t) \/ ths[t].v = None)
VarOf(t) == IF Own(t) /\ ths[t].v # None THEN ths[t].v ELSE nvar + 1
(* where a template is first called its scope gets a name of its own: the plain
   one only if no scope of that name was opened before *)
Takes(t) == IF ths[t].kind = "new" THEN {}
            ELSE IF ~Own(t) THEN {ths[t].scope}
            ELSE IF ths[t].v = None /\ ths[t].scope \notin opened THEN {ths[t].scope} ELSE {}

Call(t, o) ==
  /\ Room /\ inv' = inv + 1
  /\ opened' = opened \cup {ths[t].scope}
  /\ (ths[t].sort = "fun" => o = -1)
  /\ IF Clash(t)
     THEN /\ Log(Ev("call", t, 0, o, "err")) /\ UNCHANGED <<ths, nvar, vinit, calls, taken>>
     ELSE /\ nvar' = IF Fresh(t) THEN nvar + 1 ELSE nvar
          /\ vinit' = IF Fresh(t) THEN Append(vinit, 100 * (inv + 1)) ELSE vinit
          /\ ths' = IF Own(t) THEN [ths EXCEPT ![t].v = VarOf(t)] ELSE ths
          /\ taken' = IF Fresh(t) THEN taken \cup Takes(t) ELSE taken
          /\ calls' = Append(calls, [v |-> VarOf(t), arg |-> ths[t].arg, o |-> o])
          /\ Log(Ev("call", t, 0, o, "unit"))

(* t's model function calls u in turn (u: a template under a scope name of its
   own, so that names cannot clash); t has asked for its own variable before *)
Nested(t, u) ==
  /\ Nest /\ Room /\ t # u /\ ths[t].sort = "meta" /\ ~Clash(t)
  /\ ths[u].reuse /\ \A s \in 1..Len(ths) : s # u => ths[s].scope # ths[u].scope
  \* a template that already has its variables may not make new ones underneath
  /\ ths[u].v # None \/ (ths[u].scope \notin opened /\ (Own(t) => ths[t].v = None))
  /\ LET n1 == IF Fresh(t) THEN 1 ELSE 0
         n2 == IF ths[u].v = None THEN 1 ELSE 0
         vt == VarOf(t)
         vu == IF n2 = 1 THEN nvar + n1 + 1 ELSE ths[u].v
     IN /\ inv' = inv + 2
        /\ nvar' = nvar + n1 + n2
        /\ vinit' = vinit \o (IF n1 = 1 THEN <<100 * (inv + 1)>> ELSE <<>>) \o (IF n2 = 1 THEN <<100 * (inv + 2)>> ELSE <<>>)
        /\ ths' = [[ths EXCEPT ![u].v = vu] EXCEPT ![t].v = IF Own(t) THEN vt ELSE None]
        /\ taken' = (IF n1 = 1 THEN taken \cup Takes(t) ELSE taken)
                    \cup (IF n2 = 1 /\ ths[t].scope = "" THEN {ths[u].scope} ELSE {})
        /\ calls' = calls \o <<[v |-> vt, arg |-> ths[t].arg, o |-> -1], [v |-> vu, arg |-> ths[u].arg, o |-> -1]>>
        /\ opened' = opened \cup {ths[t].scope} \cup (IF ths[t].scope = "" THEN {ths[u].scope} ELSE {})
        /\ Log(Ev("nest", t, u, -1, "unit"))

AMake == \E sort \in {"meta", "fun"}, scope \in Scopes, reuse \in BOOLEAN, kind \in {"get", "new"} : Make(sort, scope, reuse, kind)
ACall == \E t \in 1..Len(ths), o \in {-1, 5} : Call(t, o)
ANest == \E t, u \in 1..Len(ths) : Nested(t, u)
Next == AMake \/ ACall \/ ANest
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------ guarantees of the design *)
(* one set of variables per template, shared with nobody *)
NotShared == \A i, j \in 1..Len(ths) : i # j /\ ths[i].v # None => ths[i].v # ths[j].v
(* without reuse every call has its own variable *)
OwnEach == \A a, b \in 1..Len(calls) : a # b /\ calls[a].v = calls[b].v =>
             \E t \in 1..Len(ths) : ths[t].reuse /\ ths[t].v = calls[a].v /\ ths[t].arg = calls[a].arg /\ ths[t].arg = calls[b].arg
Counted == Len(vinit) = nvar /\ \A a \in 1..Len(calls) : calls[a].v \in 1..nvar
(* a template keeps its variable for ever *)
Kept == [][\A t \in 1..Len(ths) : ths[t].v # None => ths'[t].v = ths[t].v]_vars
Emit == Len(hist) = HistLen /\ calls # <<>>
        => CSVWrite("%1$s", <<ToJson([h |-> hist, nvar |-> nvar, vinit |-> vinit, calls |-> calls])>>, IOEnv.VERIF_OUT)
=============================================================================
