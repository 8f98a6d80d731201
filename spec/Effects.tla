------------------------------ MODULE Effects ------------------------------
(* Functional specification of the global effects.  Every scenario of the      *)
(* input file is evaluated exactly; the expected observations are emitted for  *)
(* the conformance driver and the design invariants are checked on the way.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils, Rationals, BlackBox, Bins

Scen == JsonDeserialize(IOEnv.SCEN)
VARIABLES id, pc, out
vars == <<id, pc, out>>

Emit(r) == PrintT("@@" \o ToJson(r))
Inside(s) == SelectSeq(s.X, LAMBDA u : s.lo <= u[s.f] /\ u[s.f] <= s.hi)
InsideIdx(s) == SelectSeq([i \in 1..Len(s.X) |-> i], LAMBDA i : s.lo <= s.X[i][s.f] /\ s.X[i][s.f] <= s.hi)

------------------------------- (* PDP, d-PDP *) ------------------------------
Val(s, u) == IF s.der = 1 THEN DF(s.model, u, s.f) ELSE F(s.model, u)
IceRow(s, X, t) == [i \in 1..Len(X) |-> Val(s, With(X[i], s.f, t))]
\* the evenly spaced points used for zero_integral (P = 0: the values of the feature itself)
CenterPoints(s, X) == IF s.P = 0 THEN [k \in 1..Len(X) |-> X[k][s.f]]
                      ELSE [k \in 1..s.P |-> s.lo + (k - 1) * ((s.hi - s.lo) \div (s.P - 1))]
NofCenterPoints(s, X) == IF s.P = 0 THEN Len(X) ELSE s.P
IceIntegral(s, X) == [i \in 1..Len(X) |-> FoldLeft(LAMBDA a, t : a + Val(s, With(X[i], s.f, t)), 0, CenterPoints(s, X))]
SumSq(r) == FoldLeft(LAMBDA a, b : a + b * b, 0, r)
\* mean and variance of a row of integers, over the common denominator n and n*n
RowStat(r) == LET n == Len(r)  t == SeqSum(r) IN [sum |-> t, var |-> n * SumSq(r) - t * t, n |-> n]

PdpOut(s) ==
  LET X == Inside(s)
      ice == [j \in 1..Len(s.xs) |-> IceRow(s, X, s.xs[j])]
      start == IceRow(s, X, s.lo)
      integral == IceIntegral(s, X)
      stat(r) == IF s.sq = 1 THEN RowStat(r) ELSE [sum |-> SeqSum(r), n |-> Len(r)]
      sub(r, c) == [i \in 1..Len(r) |-> r[i] - c[i]]
      mul(r, k, c) == [i \in 1..Len(r) |-> k * r[i] - c[i]]
      P == NofCenterPoints(s, X)
  IN  [rows |-> InsideIdx(s), ice |-> ice, start |-> start, integral |-> integral, P |-> P,
       raw |-> [j \in 1..Len(ice) |-> stat(ice[j])],
       zs  |-> [j \in 1..Len(ice) |-> stat(sub(ice[j], start))],
       zi  |-> IF s.sq = 1 THEN [j \in 1..Len(ice) |-> stat(mul(ice[j], P, integral))] ELSE <<>>]

\* the anchors of centering hold for every ICE curve
PdpSane(s, o) ==
  LET X == Inside(s)
  IN  /\ \A i \in 1..Len(X) : Val(s, With(X[i], s.f, s.lo)) - o.start[i] = 0
      /\ s.sq = 1 => \A i \in 1..Len(X) :
           FoldLeft(LAMBDA a, t : a + (o.P * Val(s, With(X[i], s.f, t)) - o.integral[i]), 0, CenterPoints(s, X)) = 0
      /\ \A j \in 1..Len(s.xs) : s.sq = 1 => o.raw[j].var >= 0 /\ o.zs[j].var >= 0

------------------------------ (* ALE, RHALE *) -------------------------------
\* sum of the local effects of the instances of bin k times `den` (ALE: model differences, den = width)
LocalNum(s, X, lim, i, k) ==
  IF s.der = 1 THEN s.E[i]
  ELSE F(s.model, With(X[i], s.f, lim[k+1])) - F(s.model, With(X[i], s.f, lim[k]))
LocalDen(s, lim, k) == IF s.der = 1 THEN 1 ELSE lim[k+1] - lim[k]

\* s.E, if given, holds the local effects of all instances
WithInside(s) == LET idx == InsideIdx(s)
                 IN  [s EXCEPT !.X = [j \in 1..Len(idx) |-> s.X[idx[j]]],
                               !.E = IF s.der = 0 THEN <<>>
                                     ELSE IF Len(s.E) > 0 THEN [j \in 1..Len(idx) |-> s.E[idx[j]]]
                                     ELSE [j \in 1..Len(idx) |-> DF(s.model, s.X[idx[j]], s.f)]]

AccOut(s0, lim) ==
  LET s == WithInside(s0)
      X == s.X
      K == Len(lim) - 1
      mem == [k \in 1..K |-> Members(X, s.f, lim, k)]
      nums == [k \in 1..K |-> [j \in 1..Len(mem[k]) |-> LocalNum(s, X, lim, mem[k][j], k)]]
      stat == [k \in 1..K |-> RowStat(nums[k])]
      d == [k \in 1..K |-> LocalDen(s, lim, k)]
      nonempty == {k \in 1..K : Len(mem[k]) >= 1}
      two == {k \in 1..K : Len(mem[k]) >= 2}
      defined == nonempty # {} /\ two # {}
  IN  [defined |-> defined, limits |-> lim, n |-> [k \in 1..K |-> Len(mem[k])], d |-> d, members |-> mem,
       sum |-> [k \in 1..K |-> IF mem[k] = <<>> THEN 0 ELSE stat[k].sum],
       var |-> [k \in 1..K |-> IF mem[k] = <<>> THEN 0 ELSE stat[k].var],
       effsrc |-> [k \in 1..K |-> Source(k, nonempty)],
       varsrc |-> [k \in 1..K |-> Source(k, two)],
       parts |-> [j \in 1..Len(s.xs) |-> [k \in 1..K |-> Part(lim, k, s.xs[j])]],
       start |-> [k \in 1..K |-> Part(lim, k, s.lo)],
       integral2 |-> [k \in 1..K |-> TwicePartIntegral(lim, k, s.lo, s.hi)],
       width |-> s.hi - s.lo]

AccSane(s0, o) ==
  LET s == WithInside(s0)
      K == Len(o.limits) - 1
  IN  /\ Increasing(o.limits)
      /\ Covers(s.X, s.f, o.limits)
      /\ SeqSum(o.n) = Len(s.X)                            \* every instance in exactly one bin
      /\ \A k \in 1..K : o.var[k] >= 0
      /\ \A j \in 1..Len(s.xs) :
           /\ s.xs[j] <= o.limits[1] => \A k \in 1..K : o.parts[j][k] = 0
           /\ s.xs[j] >= o.limits[K+1] => \A k \in 1..K : o.parts[j][k] = o.limits[k+1] - o.limits[k]

FixedOut(s) ==
  LET X == Inside(s)
      lim == IF Len(X) = 0 THEN <<>> ELSE FixedOutcome(X, s.f, s.lo, s.hi, s.K, s.minp, s.cat)
  IN  IF lim = <<>> THEN [refused |-> TRUE] ELSE [refused |-> FALSE] @@ AccOut(s, lim)

---------------------------------- (* SHAP *) --------------------------------
\* exact Shapley values with the instances themselves as background, over the common denominator D! * n
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
Mix(u, v, T) == [d \in 1..Len(u) |-> IF d \in T THEN u[d] ELSE v[d]]
\* n times the value of the coalition T for instance u
Worth(s, X, u, T) == FoldLeft(LAMBDA a, v : a + F(s.model, Mix(u, v, T)), 0, X)
Shapley(s, X, u, f) ==
  LET D == Len(u)
      rest == (1..D) \ {f}
      W == [T \in SUBSET (1..D) |-> Worth(s, X, u, T)]
  IN  MapThenSumSet(LAMBDA T : Fact(Cardinality(T)) * Fact(D - 1 - Cardinality(T)) * (W[T \cup {f}] - W[T]), SUBSET rest)
ShapOut(s) ==
  LET X == Inside(s)
      n == Len(X)
  IN  [rows |-> InsideIdx(s), phi |-> [i \in 1..n |-> Shapley(s, X, X[i], s.f)], den |-> Fact(Len(s.X[1])) * n,
       x |-> [i \in 1..n |-> X[i][s.f]],
       \* n times the component of an additive model minus its mean
       comp |-> IF s.additive = 1
                THEN [j \in 1..Len(s.xs) |-> FoldLeft(LAMBDA a, v : a + F(s.model, With(v, s.f, s.xs[j])) - F(s.model, v), 0, X)]
                ELSE <<>>]
ShapSane(s, o) ==
  LET X == Inside(s)
      n == Len(X)
      D == Len(s.X[1])
  IN  \* the values of one instance sum to its output minus the average output (checked for two instances), and the
      \* values of an additive model do not depend on the other features
      /\ \A i \in 1..Min2(n, 2) :
            FoldLeft(LAMBDA a, f : a + Shapley(s, X, X[i], f), 0, [f \in 1..D |-> f])
              = Fact(D) * (n * F(s.model, X[i]) - FoldLeft(LAMBDA a, v : a + F(s.model, v), 0, X))
      /\ s.additive = 1 => \A i \in 1..n :
            o.phi[i] = Fact(D) * FoldLeft(LAMBDA a, v : a + F(s.model, With(v, s.f, X[i][s.f])) - F(s.model, v), 0, X)

\* limits found by the code: judged before they are used
LimitsOut(s) == IF Len(s.limits) < 2 \/ ~Increasing(s.limits) \/ ~Covers(Inside(s), s.f, s.limits) THEN [bad |-> TRUE]
                ELSE [bad |-> FALSE] @@ AccOut(s, s.limits)

------------------------------------------------------------------------------
Result(s) == CASE s.kind = "pdp" -> PdpOut(s)
               [] s.kind = "fixed" -> FixedOut(s)
               [] s.kind = "shap" -> ShapOut(s)
               [] s.kind = "limits" -> LimitsOut(s)
Sane(s, o) == CASE s.kind = "pdp" -> PdpSane(s, o)
                [] s.kind = "fixed" -> o.refused \/ AccSane(s, o)
                [] s.kind = "shap" -> ShapSane(s, o)
                [] s.kind = "limits" -> o.bad \/ AccSane(s, o)

Init == id \in 1..Len(Scen) /\ pc = "todo" /\ out = <<>>
Evaluate == /\ pc = "todo"
            /\ out' = Result(Scen[id])
            /\ pc' = "done"
            /\ UNCHANGED id
Next == Evaluate
Spec == Init /\ [][Next]_vars
Conforms == pc = "done" => /\ Assert(Sane(Scen[id], out), <<"design invariant", id>>)
                           /\ Emit([id |-> id, r |-> out])
=============================================================================
