------------------------------- MODULE Shape -------------------------------
(* Shapes as sequences, NumPy broadcasting, flat indices. *)
EXTENDS Integers, Sequences
ShapesOf(Dims, n) == UNION {[1..k -> Dims] : k \in 0..n}
Err == <<-1>>
Max2(a, b) == IF a > b THEN a ELSE b
(* NumPy broadcasting *)
DimAt(s, n, i) == IF i <= n - Len(s) THEN 1 ELSE s[i - (n - Len(s))]
Bcast(s, t) ==
  LET n == Max2(Len(s), Len(t))
      ok(i) == DimAt(s, n, i) = DimAt(t, n, i) \/ DimAt(s, n, i) = 1 \/ DimAt(t, n, i) = 1
  IN IF s = Err \/ t = Err THEN Err
     ELSE IF \A i \in 1..n : ok(i)
     THEN [i \in 1..n |-> IF DimAt(s, n, i) = 1 THEN DimAt(t, n, i) ELSE DimAt(s, n, i)]
     ELSE Err
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
RECURSIVE Unravel(_, _)
Unravel(k, s) == IF s = <<>> THEN <<>>
                 ELSE LET rest == Prod(Tail(s)) IN <<k \div rest>> \o Unravel(k % rest, Tail(s))
(* flat index, in a tensor of shape s, of the entry that broadcasts to index ix *)
RECURSIVE Ravel(_, _)
Ravel(ix, s) == IF s = <<>> THEN 0
                ELSE (IF Head(s) = 1 THEN 0 ELSE Head(ix)) * Prod(Tail(s)) + Ravel(Tail(ix), Tail(s))
Src(ix, s) == Ravel(SubSeq(ix, Len(ix) - Len(s) + 1, Len(ix)), s)
=============================================================================
