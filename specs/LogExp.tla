------------------------------- MODULE LogExp -------------------------------
(* log_sum_exp and log_mean_exp over any axes of a tensor, over the extended *)
(* reals: entries are codes, the integers themselves, PINF and NINF for the  *)
(* infinities.                                                               *)
EXTENDS Expr, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Shapes, Entries, Fns, MaxCells
VARIABLES cfg, tab, st
vars == <<cfg, tab, st>>
PINF == 99999
NINF == -99999

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
N(s) == Prod(s)
(* coordinates of the flat index i (from 0), row major *)
RECURSIVE Coord(_, _)
Coord(i, s) == IF s = <<>> THEN <<>> ELSE LET r == Prod(Tail(s)) IN <<i \div r>> \o Coord(i % r, Tail(s))
Axes == cfg.axes                       \* set of axes (from 1), reduced
Kept == {a \in 1..Len(cfg.shape) : a \notin Axes}
SameCell(i, j) == LET ci == Coord(i, cfg.shape)
                      cj == Coord(j, cfg.shape) IN \A a \in Kept : ci[a] = cj[a]
Idx == 0..(N(cfg.shape) - 1)
(* the cells of the result, each named by its first entry *)
Heads == {i \in Idx : \A j \in Idx : SameCell(i, j) => i <= j}
RECURSIVE Sorted(_)
Sorted(X) == IF X = {} THEN <<>> ELSE LET m == CHOOSE x \in X : \A y \in X : x <= y IN <<m>> \o Sorted(X \ {m})
Group(i) == LET g == Sorted({j \in Idx : SameCell(i, j)}) IN [k \in 1..Len(g) |-> tab[g[k] + 1]]
Finite(g) == SelectSeq(g, LAMBDA x : x # NINF)
Result(g) == IF \E k \in 1..Len(g) : g[k] = PINF THEN <<"pinf">>
             ELSE IF Finite(g) = <<>> THEN <<"ninf">>
             ELSE LET f == Finite(g)
                      \* exp of huge numbers is a number in the evaluator's arithmetic
                      s == LSE([k \in 1..Len(f) |-> Num(f[k])])
                  IN IF cfg.fn = "sum" THEN s ELSE Sub(s, Ln(Num(Len(g))))
OutShape == IF cfg.keep THEN [a \in 1..Len(cfg.shape) |-> IF a \in Axes THEN 1 ELSE cfg.shape[a]]
            ELSE LET k == Sorted(Kept) IN [a \in 1..Len(k) |-> cfg.shape[k[a]]]

Init == /\ \E sh \in Shapes : \E ax \in SUBSET (1..Len(sh)), kp \in BOOLEAN, fn \in Fns, form \in {"none", "int", "list", "neg"} :
              /\ (form = "none" => ax = 1..Len(sh))
              /\ (form = "int" => Cardinality(ax) = 1)
              /\ ax # {} \/ form = "none"
              /\ cfg = [shape |-> sh, axes |-> ax, keep |-> kp, fn |-> fn, form |-> form]
        /\ tab = <<>> /\ st = "fill"
Fill == /\ st = "fill" /\ Len(tab) < N(cfg.shape) /\ \E x \in Entries : tab' = Append(tab, x)
        /\ UNCHANGED <<cfg, st>>
Finish == st = "fill" /\ Len(tab) = N(cfg.shape) /\ st' = "done" /\ UNCHANGED <<cfg, tab>>
Next == Fill \/ Finish
Spec == Init /\ [][Next]_vars
(* the cells partition the entries *)
Partition == st = "fill" /\ tab = <<>> => \A i \in Idx : Cardinality({h \in Heads : SameCell(h, i)}) = 1
ShapeFits == tab = <<>> => Prod(OutShape) = Cardinality(Heads)
Case == [cfg |-> cfg, tab |-> tab, out |-> OutShape,
         res |-> LET h == Sorted(Heads) IN [k \in 1..Len(h) |-> Result(Group(h[k]))]]
Emit == st = "done" => CSVWrite("%1$s", <<ToJson(Case)>>, IOEnv.VERIF_OUT)
=============================================================================
