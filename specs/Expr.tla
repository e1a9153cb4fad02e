------------------------------- MODULE Expr -------------------------------
(* Symbolic real expressions, written as tuples, with differentiation.      *)
(* The specification states densities and dynamics in them; the replay      *)
(* harness only evaluates them (harness/expr.py), it knows no law.          *)
EXTENDS Integers, Sequences

Num(n) == <<"int", n>>
Rat(p, q) == <<"rat", p, q>>
Var(n) == <<"var", n>>
Pi == <<"pi">>
Add(a, b) == <<"add", a, b>>
Sub(a, b) == <<"sub", a, b>>
Mul(a, b) == <<"mul", a, b>>
Div(a, b) == <<"div", a, b>>
Neg(a) == <<"neg", a>>
Ln(a) == <<"log", a>>
Ex(a) == <<"exp", a>>
Abs(a) == <<"abs", a>>
Sgn(a) == <<"sign", a>>
LGam(a) == <<"lgamma", a>>
DiGam(a) == <<"digamma", a>>
Sq(a) == Mul(a, a)
Half == Rat(1, 2)

RECURSIVE SumE(_)
SumE(s) == IF Len(s) = 0 THEN Num(0)
           ELSE IF Len(s) = 1 THEN s[1] ELSE Add(s[1], SumE(Tail(s)))
LSE(s) == Ln(SumE([i \in 1..Len(s) |-> Ex(s[i])]))

IsZero(e) == e[1] = "int" /\ e[2] = 0
IsOne(e)  == e[1] = "int" /\ e[2] = 1
SAdd(a, b) == IF IsZero(a) THEN b ELSE IF IsZero(b) THEN a ELSE Add(a, b)
SSub(a, b) == IF IsZero(b) THEN a ELSE IF IsZero(a) THEN Neg(b) ELSE Sub(a, b)
SMul(a, b) == IF IsZero(a) \/ IsZero(b) THEN Num(0)
              ELSE IF IsOne(a) THEN b ELSE IF IsOne(b) THEN a ELSE Mul(a, b)
SDiv(a, b) == IF IsZero(a) THEN Num(0) ELSE Div(a, b)

(* derivative of e with respect to the variable named v *)
RECURSIVE D(_, _)
D(e, v) ==
  CASE e[1] \in {"int", "rat", "pi"} -> Num(0)
    [] e[1] = "var"  -> IF e[2] = v THEN Num(1) ELSE Num(0)
    [] e[1] = "add"  -> SAdd(D(e[2], v), D(e[3], v))
    [] e[1] = "sub"  -> SSub(D(e[2], v), D(e[3], v))
    [] e[1] = "mul"  -> SAdd(SMul(D(e[2], v), e[3]), SMul(e[2], D(e[3], v)))
    [] e[1] = "div"  -> LET da == D(e[2], v)
                            db == D(e[3], v)
                        IN SSub(SDiv(da, e[3]), IF IsZero(db) THEN Num(0)
                                ELSE Div(Mul(e[2], db), Sq(e[3])))
    [] e[1] = "neg"  -> LET da == D(e[2], v) IN IF IsZero(da) THEN da ELSE Neg(da)
    [] e[1] = "log"  -> SDiv(D(e[2], v), e[2])
    [] e[1] = "exp"  -> SMul(D(e[2], v), e)
    [] e[1] = "abs"  -> SMul(Sgn(e[2]), D(e[2], v))
    [] e[1] = "sign" -> Num(0)
    [] e[1] = "lgamma" -> SMul(DiGam(e[2]), D(e[2], v))
RECURSIVE Mentions(_, _)
Mentions(e, v) ==
  IF e[1] \in {"int", "rat", "pi"} THEN FALSE
  ELSE IF e[1] = "var" THEN e[2] = v
  ELSE \E i \in 2..Len(e) : Mentions(e[i], v)
===========================================================================
