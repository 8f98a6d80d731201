------------------------------ MODULE BlackBox ------------------------------
(* The black box that is explained: a sum of parts, every part a polynomial    *)
(* whose terms may be gated by conditions on features, optionally reduced      *)
(* modulo a number (which makes it an arbitrary looking function on the        *)
(* lattice).  Instances and evaluation points live on an integer lattice; the  *)
(* driver embeds the lattice affinely into the reals.                          *)
EXTENDS Integers, Sequences, SequencesExt

SeqSum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)

\* gate <<d, thr, s>>: s = 1: u_d <= thr, s = -1: u_d > thr, s = 0: u_d = thr
GateOpen(g, u) == CASE g[3] = 1  -> u[g[1]] <= g[2]
                    [] g[3] = -1 -> u[g[1]] > g[2]
                    [] OTHER     -> u[g[1]] = g[2]
Gates(t, u) == \A k \in 1..Len(t.g) : GateOpen(t.g[k], u)

Monomial(p, u) == FoldLeft(LAMBDA a, d : IF p[d] = 0 THEN a ELSE a * Pow(u[d], p[d]), 1, [d \in 1..Len(p) |-> d])
TermVal(t, u) == IF t.c # 0 /\ Gates(t, u) THEN t.c * Monomial(t.p, u) ELSE 0

PartVal(part, u) == LET v == FoldLeft(LAMBDA a, t : a + TermVal(t, u), 0, part.t)
                    IN  IF part.m = 0 THEN v ELSE v % part.m
F(m, u) == FoldLeft(LAMBDA a, part : a + PartVal(part, u), 0, m)

\* partial derivative with respect to feature f (parts without modulus only)
TermDer(t, u, f) == IF t.c = 0 \/ t.p[f] = 0 \/ ~Gates(t, u) THEN 0
                    ELSE t.c * t.p[f] * Monomial([t.p EXCEPT ![f] = @ - 1], u)
DF(m, u, f) == FoldLeft(LAMBDA a, part : IF part.m # 0 THEN a
                                         ELSE a + FoldLeft(LAMBDA b, t : b + TermDer(t, u, f), 0, part.t), 0, m)
With(u, f, v) == [u EXCEPT ![f] = v]
=============================================================================
