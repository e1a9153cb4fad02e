------------------------------- MODULE NodeOps -------------------------------
(* Expressions over nodes, tensors, Python numbers, lists and numpy arrays:   *)
(* a program in reverse Polish notation, its type, and its value in exact     *)
(* rational arithmetic.  A node (StochasticTensor, variational objective, or  *)
(* any class built on TensorArithmeticMixin) behaves as its value; operands   *)
(* keep their order; types never mix silently; session.run may fetch it or    *)
(* feed it another value.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS MaxLen,     \* instructions in a program
          LeafKinds,  \* "node", "obs", "obj", "mix", "tensor", "py", "np", "list"
          Types,      \* "i", "f", "b"
          Bins, Uns, Items, Ends
VARIABLES prog, stack, out
vars == <<prog, stack, out>>

(* ---------------------------------------------------- rational arithmetic *)
Absv(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN (IF a = 0 THEN 1 ELSE a) ELSE Gcd(b, a % b)
Q(p, q) == LET s == IF q < 0 THEN -1 ELSE 1
               g == Gcd(Absv(p), Absv(q))
           IN <<(s * p) \div g, (s * q) \div g>>
FloorQ(a) == a[1] \div a[2]            \* TLA+ division rounds down
(* what is not a number is 0/0, the infinities are 1/0 and -1/0 *)
NaN == <<0, 0>>
Inf == <<1, 0>>
Special(a) == a[2] = 0
Sg(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
NegQ(a) == <<-a[1], a[2]>>
AddQ(a, b) == IF a = NaN \/ b = NaN \/ (Special(a) /\ Special(b) /\ a # b) THEN NaN
              ELSE IF Special(a) THEN a ELSE IF Special(b) THEN b
              ELSE Q(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
SubQ(a, b) == AddQ(a, NegQ(b))
MulQ(a, b) == IF Special(a) \/ Special(b) THEN <<Sg(a[1]) * Sg(b[1]), 0>> ELSE Q(a[1] * b[1], a[2] * b[2])
DivQ(a, b) == IF a = NaN \/ b = NaN \/ (Special(a) /\ Special(b)) THEN NaN
              ELSE IF Special(b) THEN <<0, 1>>
              ELSE IF Special(a) THEN <<a[1] * Sg(b[1]), 0>>
              ELSE Q(a[1] * b[2], a[2] * b[1])
FlD(a, b) == Q(FloorQ(DivQ(a, b)), 1)
ModQ(a, b) == SubQ(a, MulQ(b, FlD(a, b)))
RECURSIVE PowN(_, _)
PowN(a, n) == IF n = 0 THEN <<1, 1>> ELSE MulQ(a, PowN(a, n - 1))
PowQ(a, b) == IF b[1] >= 0 THEN PowN(a, b[1]) ELSE DivQ(<<1, 1>>, PowN(a, -b[1]))
LessQ(a, b) == a # NaN /\ b # NaN /\ (IF Special(a) /\ Special(b) THEN a[1] < b[1] ELSE a[1] * b[2] < b[1] * a[2])
LessEqQ(a, b) == LessQ(a, b) \/ (a # NaN /\ a = b)
Bit(x) == IF x THEN <<1, 1>> ELSE <<0, 1>>
On(a) == a[1] # 0

(* numbers the machine represents exactly, small enough for TLC *)
Fine(a) == Special(a) \/ (a[2] \in {1, 2, 4, 8, 16, 32} /\ Absv(a[1]) < 5000)

Arith == {"add", "sub", "mul", "truediv", "floordiv", "mod", "pow"}
Comp == {"lt", "le", "gt", "ge"}
Logic == {"and", "or", "xor"}
App(f, a, b) ==
  CASE f = "add" -> AddQ(a, b) [] f = "sub" -> SubQ(a, b) [] f = "mul" -> MulQ(a, b)
    [] f = "truediv" -> DivQ(a, b) [] f = "floordiv" -> FlD(a, b) [] f = "mod" -> ModQ(a, b)
    [] f = "pow" -> PowQ(a, b)
    [] f = "lt" -> Bit(LessQ(a, b)) [] f = "gt" -> Bit(LessQ(b, a))
    [] f = "le" -> Bit(LessEqQ(a, b)) [] f = "ge" -> Bit(LessEqQ(b, a))
    [] f = "and" -> Bit(On(a) /\ On(b)) [] f = "or" -> Bit(On(a) \/ On(b)) [] f = "xor" -> Bit(On(a) # On(b))
Un(f, a) == CASE f = "neg" -> NegQ(a) [] f = "abs" -> <<Absv(a[1]), a[2]>> [] f = "invert" -> Bit(~On(a))
(* is the operation defined (on the integers where they are integers)? *)
Defined(f, ty, a, b) ==
  CASE f = "truediv" -> b[1] # 0 \/ b = NaN
    [] f \in {"floordiv", "mod", "pow"} /\ (Special(a) \/ Special(b)) -> FALSE
    [] f \in {"floordiv", "mod"} -> b[1] # 0
    [] f = "pow" -> b[2] = 1 /\ Absv(b[1]) <= 3 /\ (b[1] < 0 => a[1] # 0 /\ ty # "i")
    [] OTHER -> TRUE

(* values: one number (a scalar) or two (a vector) *)
At(v, i) == IF Len(v) = 1 THEN v[1] ELSE v[i]
Both(v, w) == IF Len(v) = 1 /\ Len(w) = 1 THEN 1 ELSE 2
AppV(f, v, w) == [i \in 1..Both(v, w) |-> App(f, At(v, i), At(w, i))]
UnV(f, v) == [i \in 1..Len(v) |-> Un(f, v[i])]
ItemV(it, v) == CASE it = "first" -> <<v[1]>> [] it = "last" -> <<v[Len(v)]>> [] it = "rev" -> [i \in 1..Len(v) |-> v[Len(v) + 1 - i]]

(* -------------------------------------------------------------- the values *)
Pool(ty) == CASE ty = "i" -> {<<<<3, 1>>, <<-2, 1>>>>, <<<<2, 1>>, <<5, 1>>>>}
              [] ty = "f" -> {<<<<3, 2>>, <<-2, 1>>>>, <<<<-1, 2>>, <<4, 1>>>>,
                             <<NaN, <<3, 2>>>>, <<Inf, NegQ(Inf)>>}
              [] ty = "b" -> {<<<<1, 1>>, <<0, 1>>>>, <<<<1, 1>>, <<1, 1>>>>}
PyPool(ty) == CASE ty = "i" -> {<<<<1, 1>>>>, <<<<-3, 1>>>>, <<<<2, 1>>>>}
                [] ty = "f" -> {<<<<5, 2>>>>, <<<<-1, 4>>>>}
                [] ty = "b" -> {<<<<1, 1>>>>, <<<<0, 1>>>>}
LeafVals(k, ty) == IF k \in {"py", "obj"} THEN PyPool(ty) ELSE Pool(ty)
LeafOK(k, ty) == CASE k = "obj" -> ty = "f" [] OTHER -> TRUE
Nodey(k) == k \in {"node", "obs", "obj", "mix"}
Weak(k) == k \in {"py", "np", "list"}

(* type of a binary operation, "err" when it is refused, "na" when left out *)
Numeric(t) == t \in {"i", "f", "d"}
Meet(x, y) == IF x.w /\ y.w THEN "na"
              ELSE IF x.w THEN (IF x.ty = y.ty THEN y.ty ELSE IF x.ty = "i" /\ Numeric(y.ty) THEN y.ty
                                ELSE IF x.ty = "f" /\ y.ty = "d" THEN y.ty
                                ELSE IF x.k = "py" /\ x.ty = "f" /\ y.ty = "i" THEN "err" ELSE "na")
              ELSE IF y.w THEN (IF x.ty = y.ty THEN x.ty ELSE IF y.ty = "i" /\ Numeric(x.ty) THEN x.ty
                                ELSE IF y.ty = "f" /\ x.ty = "d" THEN x.ty
                                ELSE IF y.k = "py" /\ y.ty = "f" /\ x.ty = "i" THEN "err" ELSE "na")
              ELSE IF x.ty = y.ty THEN x.ty ELSE "err"
BinType(f, x, y) ==
  LET m == Meet(x, y)
  IN IF f \notin Logic /\ (x.ty = "b" \/ y.ty = "b") THEN "na"   \* arithmetic of truth values is TensorFlow's affair
     ELSE IF m \in {"na", "err"} THEN m
     ELSE IF f \in Logic THEN (IF m = "b" THEN "b" ELSE IF m = "i" THEN "na" ELSE "err")
     ELSE IF f \in Comp THEN "b"
     ELSE IF f = "truediv" /\ m = "i" THEN "d" ELSE m
UnType(f, x) == IF f = "invert" THEN (IF x.ty = "b" THEN "b" ELSE IF x.ty = "i" THEN "na" ELSE "err")
                ELSE IF Numeric(x.ty) THEN x.ty ELSE "err"

(* ------------------------------------------------------------- the machine *)
Init == prog = <<>> /\ stack = <<>> /\ out = "open"
Room == out = "open" /\ Len(prog) < MaxLen
Depth == Len(stack)
Top == stack[Depth]
Under == stack[Depth - 1]
Push == /\ Room /\ Depth < 3
        /\ \E k \in LeafKinds, ty \in Types :
             /\ LeafOK(k, ty)
             /\ \E v \in LeafVals(k, ty) :
                  /\ prog' = Append(prog, [op |-> "leaf", f |-> k, ty |-> ty, v |-> v])
                  /\ stack' = Append(stack, [ty |-> ty, w |-> Weak(k), k |-> k, v |-> v, n |-> Nodey(k)])
        /\ UNCHANGED out
Apply2(f) ==
  /\ Room /\ Depth >= 2
  /\ LET t == BinType(f, Under, Top)
     IN /\ t # "na"
        /\ Under.n \/ Top.n                       \* an operation a node takes part in
        /\ t # "err" => \A i \in 1..2 : Defined(f, t, At(Under.v, i), At(Top.v, i))
        /\ prog' = Append(prog, [op |-> "bin", f |-> f, ty |-> t, v |-> <<>>])
        /\ IF t = "err" THEN out' = "err" /\ UNCHANGED stack
           ELSE LET v == AppV(f, Under.v, Top.v)
                IN /\ \A i \in 1..Len(v) : Fine(v[i])
                   /\ stack' = Append(SubSeq(stack, 1, Depth - 2), [ty |-> t, w |-> FALSE, k |-> "tensor", v |-> v, n |-> FALSE])
                   /\ UNCHANGED out
Apply1(f) ==
  /\ Room /\ Depth >= 1 /\ Top.n
  /\ LET t == UnType(f, Top)
     IN /\ t # "na"
        /\ prog' = Append(prog, [op |-> "un", f |-> f, ty |-> t, v |-> <<>>])
        /\ IF t = "err" THEN out' = "err" /\ UNCHANGED stack
           ELSE /\ stack' = Append(SubSeq(stack, 1, Depth - 1), [ty |-> t, w |-> FALSE, k |-> "tensor", v |-> UnV(f, Top.v), n |-> FALSE])
                /\ UNCHANGED out
Index(it) ==
  /\ Room /\ Depth >= 1 /\ Top.n /\ Len(Top.v) = 2
  /\ prog' = Append(prog, [op |-> "item", f |-> it, ty |-> Top.ty, v |-> <<>>])
  /\ stack' = Append(SubSeq(stack, 1, Depth - 1), [Top EXCEPT !.w = FALSE, !.k = "tensor", !.n = FALSE, !.v = ItemV(it, Top.v)])
  /\ UNCHANGED out
(* how the result is used: "run" (evaluate), "fetch" (hand the node itself to
   session.run), "feed" (run with another value fed for the first node),
   and what has to be refused or hold for any node *)
HasNode == \E i \in 1..Len(prog) : prog[i].op = "leaf" /\ prog[i].f \in {"node", "obs", "obj"}
End(u) ==
  /\ out = "open" /\ Depth = 1 /\ ~Top.w
  /\ CASE u = "run" -> Len(prog) > 1
       [] u = "feed" -> HasNode
       [] OTHER -> Len(prog) = 1 /\ Top.k \in {"node", "obs", "obj"}
  /\ out' = u /\ UNCHANGED <<prog, stack>>
Bin == \E f \in Bins : Apply2(f)
Uny == \E f \in Uns : Apply1(f)
Itm == \E f \in Items : Index(f)
Stop == \E u \in Ends : End(u)
Next == Push \/ Bin \/ Uny \/ Itm \/ Stop
Spec == Init /\ [][Next]_vars

(* a second evaluation of the program, used for fed values: the first node
   takes the other value of its type *)
First == CHOOSE i \in 1..Len(prog) : prog[i].op = "leaf" /\ prog[i].f \in {"node", "obs", "obj"}
           /\ \A j \in 1..(i - 1) : ~(prog[j].op = "leaf" /\ prog[j].f \in {"node", "obs", "obj"})
Fed(i) == CHOOSE v \in LeafVals(prog[i].f, prog[i].ty) : v # prog[i].v
Leaf(i, fed) == IF fed /\ i = First THEN Fed(i) ELSE prog[i].v
RECURSIVE Eval(_, _, _)
Eval(i, st, fed) ==
  IF i > Len(prog) THEN [ok |-> TRUE, v |-> st[Len(st)]]
  ELSE LET e == prog[i]
           n == Len(st)
       IN CASE e.op = "leaf" -> Eval(i + 1, Append(st, Leaf(i, fed)), fed)
            [] e.op = "un" -> Eval(i + 1, Append(SubSeq(st, 1, n - 1), UnV(e.f, st[n])), fed)
            [] e.op = "item" -> Eval(i + 1, Append(SubSeq(st, 1, n - 1), ItemV(e.f, st[n])), fed)
            [] OTHER -> IF \A j \in 1..2 : Defined(e.f, e.ty, At(st[n - 1], j), At(st[n], j))
                        THEN LET v == AppV(e.f, st[n - 1], st[n])
                             IN IF \A j \in 1..Len(v) : Fine(v[j])
                                THEN Eval(i + 1, Append(SubSeq(st, 1, n - 2), v), fed)
                                ELSE [ok |-> FALSE, v |-> <<>>]
                        ELSE [ok |-> FALSE, v |-> <<>>]
Want == Eval(1, <<>>, out = "feed")

(* ------------------------------------------------ guarantees of the machine *)
(* evaluating at once and evaluating the program agree *)
Same == out \notin {"open", "err", "feed"} => Want.ok /\ Want.v = Top.v
(* floor division and remainder fit together, with the divisor's sign *)
Floors == out = "open" /\ Depth = 2 /\ Numeric(Top.ty) /\ Numeric(Under.ty) =>
  \A i \in 1..2 : LET a == At(Under.v, i)
                      b == At(Top.v, i)
                  IN (b[1] # 0 /\ ~Special(a) /\ ~Special(b)) =>
                         (/\ AddQ(MulQ(FlD(a, b), b), ModQ(a, b)) = a
                          /\ (ModQ(a, b)[1] # 0 => (ModQ(a, b)[1] > 0) = (b[1] > 0)))
(* a comparison and its mirror image agree *)
Mirror == out = "open" /\ Depth = 2 => \A i \in 1..2 :
  /\ App("lt", At(Under.v, i), At(Top.v, i)) = App("gt", At(Top.v, i), At(Under.v, i))
  /\ App("le", At(Under.v, i), At(Top.v, i)) = App("ge", At(Top.v, i), At(Under.v, i))
Involved == \E i \in 1..Len(prog) : prog[i].op = "leaf" /\ Nodey(prog[i].f)
Emit == out # "open" /\ Involved /\ (out = "err" \/ Want.ok)
  => CSVWrite("%1$s", <<ToJson([prog |-> prog, out |-> out,
                                ty |-> IF out = "err" THEN "" ELSE Top.ty,
                                fed |-> IF out = "feed" THEN Fed(First) ELSE <<>>,
                                v |-> IF out = "err" THEN <<>> ELSE Want.v])>>, IOEnv.VERIF_OUT)
=============================================================================
