---------------------------- MODULE Interaction ----------------------------
(* The interaction measures and the object that computes them on demand.       *)
(*                                                                             *)
(* The indices of a scenario are pure functions of its instances and model     *)
(* (Pair, One, Repid).  The object keeps a memo; calls in any order fill it    *)
(* and answer from it.  The invariants: whatever is remembered is the value    *)
(* of the definition, the pairwise index is symmetric, and indices vanish      *)
(* without the interaction they measure.  Every behaviour is emitted with its  *)
(* exact answers and replayed on the code.                                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils, BlackBox

Scen == JsonDeserialize(IOEnv.SCEN)
VARIABLES id, val, memo, hist
vars == <<id, val, memo, hist>>
S == Scen[id]
Emit(r) == PrintT("@@" \o ToJson(r))

------------------------------ (* definitions *) -----------------------------
Dim(s) == Len(s.X[1])
\* the instance v with the features of T taken from u
Mix(u, v, T) == [d \in 1..Len(u) |-> IF d \in T THEN u[d] ELSE v[d]]
\* N times the partial dependence on T at the values of instance u
PD(s, T, u) == FoldLeft(LAMBDA a, v : a + F(s.model, Mix(u, v, T)), 0, s.X)
\* N times the centered row
Centered(r) == LET row == TLCEval(r)  t == TLCEval(SeqSum(row)) IN TLCEval([k \in 1..Len(row) |-> Len(row) * row[k] - t])
CPD(s, T) == Centered([k \in 1..Len(s.X) |-> PD(s, T, s.X[k])])
COut(s) == Centered([k \in 1..Len(s.X) |-> Len(s.X) * F(s.model, s.X[k])])
SumSq(r) == FoldLeft(LAMBDA a, b : a + b * b, 0, r)
\* mean square of a - b - c over the mean square of a: as two sums where they fit, else the rows themselves
Index(s, aa, bb, cc) ==
  LET a == TLCEval(aa)  b == TLCEval(bb)  c == TLCEval(cc) IN
  IF s.sq = 1 THEN [num |-> SumSq([k \in 1..Len(a) |-> a[k] - b[k] - c[k]]), den |-> SumSq(a)]
  ELSE [rest |-> [k \in 1..Len(a) |-> a[k] - b[k] - c[k]], whole |-> a]
Pair(s, i, j) == Index(s, CPD(s, {i, j}), CPD(s, {i}), CPD(s, {j}))
One(s, i) == Index(s, COut(s), CPD(s, {i}), CPD(s, (1..Dim(s)) \ {i}))
\* REPID: rows of the zero_start-centered ICE curves at the 20 midpoints of the axis of feature i
LoOf(s, i) == Min({u[i] : u \in ToSet(s.X)})
HiOf(s, i) == Max({u[i] : u \in ToSet(s.X)})
Axis(s, i) == [k \in 1..20 |-> LoOf(s, i) + (2 * k - 1) * ((HiOf(s, i) - LoOf(s, i)) \div 40)]
Curve(s, i, t) == [k \in 1..Len(s.X) |-> F(s.model, With(s.X[k], i, t)) - F(s.model, With(s.X[k], i, LoOf(s, i)))]
RowVar(r) == LET t == SeqSum(r) IN Len(r) * SumSq(r) - t * t
Repid(s, i) ==
  LET c == [k \in 1..20 |-> Curve(s, i, Axis(s, i)[k])] IN
  IF s.sq = 1 THEN [var |-> [k \in 1..20 |-> RowVar(c[k])]] ELSE [curves |-> c]

Values(s) ==
  IF s.kind = "repid" THEN [pair |-> <<>>, one |-> [i \in 1..Dim(s) |-> IF s.ask[i] = 1 THEN Repid(s, i) ELSE <<>>]]
  ELSE [pair |-> [i \in 1..Dim(s) |-> [j \in 1..Dim(s) |-> IF i = j THEN <<>> ELSE Pair(s, i, j)]],
        one |-> [i \in 1..Dim(s) |-> One(s, i)]]

--------------------------------- (* calls *) --------------------------------
\* a call is <<op, i, j>>; the memo is a set of keys with values
None == "-"
Keys(s) == {<<i, j>> : i, j \in 1..Dim(s)}
Init == /\ id \in 1..Len(Scen)
        /\ val = TLCEval(Values(Scen[id]))
        /\ memo = [k \in Keys(Scen[id]) |-> <<>>]      \* <<i, i>>: one-vs-all index of i
        /\ hist = <<>>
Known(m, k) == m[k] # <<>>
Truth(k) == IF k[1] = k[2] THEN val.one[k[1]] ELSE val.pair[k[1]][k[2]]
Learn(m, K) == [k \in DOMAIN m |-> IF Known(m, k) THEN m[k]
                                   ELSE IF k \in K THEN <<Truth(k)>>
                                   ELSE IF <<k[2], k[1]>> \in K THEN <<Truth(<<k[2], k[1]>>)>> ELSE <<>>]
\* what a call has to know
Pairs == {k \in DOMAIN memo : k[1] < k[2]}
Ones == {k \in DOMAIN memo : k[1] = k[2]}
Needs(c) == CASE c[1] = "pair" -> {<<c[2], c[3]>>}
              [] c[1] = "one" -> {<<c[2], c[2]>>}
              [] c[1] \in {"fitpairs", "plotpairs"} -> Pairs
              [] c[1] \in {"fitones", "plotones"} -> Ones
              [] OTHER -> Pairs \cup Ones
Menu == ToSet(S.menu[Len(hist) + 1])
Call(c) == /\ memo' = Learn(memo, Needs(c))
           /\ hist' = Append(hist, c)
           /\ UNCHANGED <<id, val>>
Next == Len(hist) < Len(S.menu) /\ \E c \in Menu : Call(c)
Spec == Init /\ [][Next]_vars

------------------------------- (* invariants *) -----------------------------
\* whatever was called before, the memo holds the values of the definition
MemoTrue == \A k \in DOMAIN memo : Known(memo, k) => memo[k][1] = Truth(k)
Symmetric == hist = <<>> /\ S.kind = "h" => \A i, j \in 1..Dim(S) : i # j => val.pair[i][j] = val.pair[j][i]
\* no term of the model contains both a feature of A and a feature of B
Uses(t, T) == (\E d \in T : t.p[d] > 0) \/ (\E k \in 1..Len(t.g) : t.g[k][1] \in T)
Separate(m, A, B) == \A k \in 1..Len(m) : \A j \in 1..Len(m[k].t) :
                       IF m[k].m = 0 THEN ~(Uses(m[k].t[j], A) /\ Uses(m[k].t[j], B)) ELSE FALSE
IsZero(v) == IF S.sq = 1 THEN v.num = 0 ELSE \A k \in 1..Len(v.rest) : v.rest[k] = 0
Vanishes == hist = <<>> =>
  IF S.kind = "h"
  THEN \A i, j \in 1..Dim(S) :
         IF i # j THEN Separate(S.model, {i}, {j}) => IsZero(val.pair[i][j])
         ELSE Separate(S.model, {i}, (1..Dim(S)) \ {i}) => IsZero(val.one[i])
  ELSE \A i \in 1..Dim(S) : S.ask[i] = 1 /\ S.sq = 1 /\ Separate(S.model, {i}, (1..Dim(S)) \ {i}) => \A k \in 1..20 : val.one[i].var[k] = 0
Said == /\ hist = <<>> => Emit([id |-> id, val |-> val])
        /\ Len(hist) = Len(S.menu) => Emit([id |-> id, hist |-> hist])
=============================================================================
