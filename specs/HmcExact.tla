------------------------------ MODULE HmcExact ------------------------------
(* Hamiltonian Monte Carlo with fixed step size and unit mass, in exact      *)
(* arithmetic.  The log joint of a chain is                                  *)
(*    - sum_i K[i]/2 (q_i - M[i])^2 - w q_1 q_2   (+ a wall: not finite       *)
(*      where q_1 > Wall)                                                    *)
(* so that with momenta and step sizes that are dyadic fractions every       *)
(* quantity is one: all numbers are integers in units of 1/Sc.  An iteration *)
(* draws a momentum and an acceptance level for every chain, integrates the  *)
(* chain n leapfrog steps, and accepts or keeps it.  u = exp(-lev/8).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Sc, NChains, NCoord, Eps, Ns, Kset, Mset, Wset, Q0set, Pset, Levels, Iters, Walls, WallAt, Layouts
\* Eps: set of <<numerator, denominator>>
VARIABLES cfg, q0, q, draw, it, hist, st
vars == <<cfg, q0, q, draw, it, hist, st>>
Chains == 1..NChains
Coord == 1..NCoord
Abs1(a) == IF a < 0 THEN -a ELSE a

(* gradient of the log joint, in units of 1/Sc *)
Grad(c, x) == TLCEval([i \in Coord |->
   - c.K[i] * (x[i] - c.M[i] * Sc)
   - (IF i = 1 /\ NCoord >= 2 THEN c.w * x[2] ELSE IF i = 2 THEN c.w * x[1] ELSE 0)])
(* x + f * y for the fraction f, which must be exact *)
Axpy(x, f, y) == TLCEval([i \in Coord |-> x[i] + (f[1] * y[i]) \div f[2]])
ExactMul(f, y) == \A i \in Coord : (f[1] * y[i]) % f[2] = 0
HalfF(f) == <<f[1], 2 * f[2]>>

(* numbers stay small enough for TLC's integers *)
Bounded(x) == \A i \in Coord : Abs1(x[i]) <= 12 * Sc
(* n leapfrog steps: half kick, (drift, kick) ..., the last kick a half *)
RECURSIVE Steps(_, _, _, _)
Steps(c, x, p, k) ==
  IF k = 0 THEN [q |-> x, p |-> p, ok |-> TRUE]
  ELSE LET x2 == Axpy(x, c.eps, p)
           f  == IF k = 1 THEN HalfF(c.eps) ELSE c.eps
           g  == Grad(c, x2)
           p2 == Axpy(p, f, g)
           r  == Steps(c, x2, p2, k - 1)
       IN IF ~Bounded(x2) \/ ~Bounded(p2) THEN [q |-> x, p |-> p, ok |-> FALSE]
          ELSE [r EXCEPT !.ok = @ /\ ExactMul(c.eps, p) /\ ExactMul(f, g)]
Integrate(c, x, p) ==
  LET g == Grad(c, x)
      r == Steps(c, x, Axpy(p, HalfF(c.eps), g), c.n)
  IN [r EXCEPT !.ok = @ /\ ExactMul(HalfF(c.eps), g)]

RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
(* potential and kinetic energy in units of 1/(2 Sc^2) *)
Pot2(c, x) == Sum([i \in Coord |-> c.K[i] * (x[i] - c.M[i] * Sc) * (x[i] - c.M[i] * Sc)], NCoord)
              + (IF NCoord >= 2 THEN 2 * c.w * x[1] * x[2] ELSE 0)
Kin2(p) == Sum([i \in Coord |-> p[i] * p[i]], NCoord)
Unit == 2 * Sc * Sc
Finite(c, x) == c.wall = "none" \/ x[1] <= WallAt * Sc

(* lev 0: u just below 1; lev -1: u = 0; otherwise u = exp(-lev/8) *)
Accepts(dh, lev) == IF lev = -1 THEN TRUE
                    ELSE IF lev = 0 THEN dh <= 0
                    ELSE 8 * dh < lev * Unit
Clear(dh, lev) == IF lev = -1 THEN dh < 80 * Unit
                  ELSE IF lev = 0 THEN dh <= 0 \/ 64 * dh > Unit
                  ELSE Abs1(8 * dh - lev * Unit) * 16 > Unit
Outcome(c, x, p, r, lev) ==
  LET h0 == Pot2(c, x) + Kin2(p)
      h1 == Pot2(c, r.q) + Kin2(r.p)
      fin == Finite(c, r.q)
      acc == fin /\ Accepts(h1 - h0, lev)
  IN [ok |-> r.ok /\ (fin => Clear(h1 - h0, lev)),
      prop |-> r.q, pp |-> r.p, h0 |-> h0, h1 |-> h1, fin |-> fin, acc |-> acc,
      q |-> IF acc THEN r.q ELSE x]

Init ==
  /\ cfg \in [eps : Eps, n : Ns, w : Wset, wall : Walls, lay : Layouts, K : {<<>>}, M : {<<>>}]
  /\ q0 = <<>> /\ q = <<>> /\ draw = <<>> /\ it = 0 /\ hist = <<>> /\ st = "target"
(* the target, then the starting point of every chain *)
Target == /\ st = "target"
          /\ \E k \in Kset, m \in Mset :
               cfg' = [cfg EXCEPT !.K = Append(@, k), !.M = Append(@, m)]
          /\ st' = IF Len(cfg.K) = NCoord - 1 THEN "start" ELSE "target"
          /\ UNCHANGED <<q0, q, draw, it, hist>>
Start == /\ st = "start"
         /\ \E x \in [Coord -> {a * Sc : a \in Q0set}] : Finite(cfg, x) /\ q0' = Append(q0, x)
         /\ q' = q0'
         /\ st' = IF Len(q0) = NChains - 1 THEN "run" ELSE "start"
         /\ UNCHANGED <<cfg, draw, it, hist>>
Draw == /\ st = "run" /\ it < Iters /\ Len(draw) < NChains
        /\ \E p \in [Coord -> Pset] :
             LET ps == TLCEval([i \in Coord |-> p[i] * Sc])
                 x == q[Len(draw) + 1]
                 r == TLCEval(Integrate(cfg, x, ps))
             IN r.ok /\ \E l \in Levels :
             LET o == TLCEval(Outcome(cfg, x, ps, r, l))
             IN o.ok /\ draw' = Append(draw, [p |-> p, lev |-> l, o |-> o])
        /\ UNCHANGED <<cfg, q0, q, it, hist, st>>
Run == /\ st = "run" /\ Len(draw) = NChains
       /\ q' = [c \in Chains |-> draw[c].o.q]
       /\ hist' = Append(hist, [c \in Chains |->
            [p |-> draw[c].p, lev |-> draw[c].lev, q |-> draw[c].o.q, h0 |-> draw[c].o.h0, h1 |-> draw[c].o.h1,
             fin |-> draw[c].o.fin, acc |-> draw[c].o.acc,
             lp0 |-> -Pot2(cfg, q[c]), lp1 |-> -Pot2(cfg, draw[c].o.q)]])
       /\ it' = it + 1 /\ draw' = <<>> /\ UNCHANGED <<cfg, q0, st>>
Finish == st = "run" /\ it = Iters /\ st' = "done" /\ UNCHANGED <<cfg, q0, q, draw, it, hist>>
Next == Target \/ Start \/ Draw \/ Run \/ Finish
Spec == Init /\ [][Next]_vars

Minus(p) == [i \in Coord |-> -p[i]]
(* integrating back from the proposal with the momentum reversed returns *)
Reversible == \A i \in 1..Len(draw) :
   LET o == draw[i].o
       r == Integrate(cfg, o.prop, Minus(o.pp))
   IN r.ok => r.q = q[i] /\ r.p = Minus([k \in Coord |-> draw[i].p[k] * Sc])
(* a chain is at its old place or at the proposal, and at the old one if the proposal is not finite *)
Metropolis == \A i \in 1..Len(draw) :
   LET o == draw[i].o IN /\ o.q \in {q[i], o.prop}
                         /\ (~o.fin => o.q = q[i] /\ ~o.acc)
                         /\ (o.fin /\ o.h1 <= o.h0 => o.acc)
StaysFinite == \A c \in 1..Len(q) : Finite(cfg, q[c])
Emit == st = "done" => CSVWrite("%1$s", <<ToJson([cfg |-> cfg, sc |-> Sc, wallat |-> WallAt,
   q0 |-> q0, hist |-> hist])>>, IOEnv.VERIF_OUT)
=============================================================================
