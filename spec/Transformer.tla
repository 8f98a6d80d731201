---------------------------- MODULE Transformer ----------------------------
(* One-hot region features: a transformer built once from the splits of every  *)
(* feature and applied to several data sets.  Positions are in half units of   *)
(* the lattice (2 * cell), so that they may lie between two cells.             *)
(* A split is <<feature, position, type>>, type 1: categorical (equal or not), *)
(* 0: numerical (at most or above).                                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils

Scen == JsonDeserialize(IOEnv.SCEN)
VARIABLES id, k, mask, data
vars == <<id, k, mask, data>>
S == Scen[id]
Emit(r) == PrintT("@@" \o ToJson(r))
Dim == Len(S.splits)

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
\* binary digit j (1 = the most significant of n) of c
Bit(c, j, n) == (c \div Pow2(n - j)) % 2
\* a condition <<feature, operator, position>>
Op(sp, b) == IF sp[3] = 1 THEN (IF b = 0 THEN "=" ELSE "!=") ELSE (IF b = 0 THEN "<=" ELSE ">")
Conds(f, c) == LET n == Len(S.splits[f]) IN [j \in 1..n |-> <<S.splits[f][j][1], Op(S.splits[f][j], Bit(c, j, n)), S.splits[f][j][2]>>]
\* all columns, feature by feature
Columns == FoldLeft(LAMBDA a, f : a \o [c \in 1..Pow2(Len(S.splits[f])) |-> [f |-> f, conds |-> Conds(f, c - 1)]], <<>>, [f \in 1..Dim |-> f])
Holds(c, u) == CASE c[2] = "=" -> 2 * u[c[1]] = c[3]
                 [] c[2] = "!=" -> 2 * u[c[1]] # c[3]
                 [] c[2] = "<=" -> 2 * u[c[1]] <= c[3]
                 [] OTHER -> 2 * u[c[1]] > c[3]
On(col, u) == IF \A j \in 1..Len(col.conds) : Holds(col.conds[j], u) THEN 1 ELSE 0

Init == id \in 1..Len(Scen) /\ k = 0 /\ mask = <<>> /\ data = <<>>
\* the result depends on this data set only
Transform ==
  /\ k < Len(S.X)
  /\ k' = k + 1
  /\ LET cols == TLCEval(Columns)  X == S.X[k'] IN
     /\ mask' = TLCEval([i \in 1..Len(X) |-> [c \in 1..Len(cols) |-> On(cols[c], X[i])]])
     /\ data' = TLCEval([i \in 1..Len(X) |-> [c \in 1..Len(cols) |-> IF On(cols[c], X[i]) = 1 THEN X[i][cols[c].f] ELSE 0]])
  /\ UNCHANGED id
Next == Transform
Spec == Init /\ [][Next]_vars

\* in every row exactly one column of every feature is on, and it carries the value
Partition == k > 0 => LET cols == TLCEval(Columns) IN
  \A i \in 1..Len(mask) : \A f \in 1..Dim :
    LET C == {c \in 1..Len(cols) : cols[c].f = f}  on == {c \in C : mask[i][c] = 1} IN
    /\ Cardinality(C) = Pow2(Len(S.splits[f]))
    /\ Cardinality(on) = 1
    /\ \A c \in C : data[i][c] = (IF c \in on THEN S.X[k][i][f] ELSE 0)
Said == k > 0 => Emit([id |-> id, k |-> k, cols |-> Columns, mask |-> mask])
=============================================================================
