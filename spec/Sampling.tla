------------------------------ MODULE Sampling ------------------------------
(* An object is built from N rows of the caller and a limit nof.  It chooses   *)
(* its rows once; everything it does later is about these rows.                *)
(*                                                                             *)
(* The module is used in two ways.  With the free action Choose it is the      *)
(* design (TLC enumerates all choices of small instances and checks the        *)
(* invariants); with a recorded trace s.ev of a real object every event must   *)
(* be a step of the design, and the first that is not is reported.             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Scen == JsonDeserialize(IOEnv.SCEN)
VARIABLES id, l, chosen, bad
vars == <<id, l, chosen, bad>>
S == Scen[id]
Least(a, b) == IF a < b THEN a ELSE b
\* nof = -1 stands for "all"
Size(s) == IF s.nof < 0 THEN s.N ELSE Least(s.nof, s.N)

Distinct(q) == \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
Complete(s, q) == \A i \in 1..Len(q) : q[i] \in 1..s.N
ValidChoice(s, q) == /\ Len(q) = Size(s)
                     /\ Complete(s, q)
                     /\ Distinct(q)
                     /\ Size(s) = s.N => \A i \in 1..s.N : q[i] = i
\* when only the set of rows can be observed
ValidSet(s, q) == Complete(s, q) /\ Cardinality(ToSet(q)) = Size(s)

\* many independent choices of the same proper size: every row can be taken and left out, and no two rows are tied
RandomLooking(s, ds) ==
  LET D == [k \in 1..Len(ds) |-> ToSet(ds[k])]
  IN  \A i, j \in 1..s.N : i # j => \E k \in 1..Len(ds) : i \in D[k] /\ j \notin D[k]

Step(s, e, ch) ==
  CASE e.op = "construct" -> [ok |-> ValidChoice(s, e.rows), ch |-> e.rows]
    [] e.op = "set"       -> [ok |-> ValidSet(s, e.rows), ch |-> e.rows]
    [] e.op = "query"     -> [ok |-> ToSet(e.rows) \subseteq ToSet(ch), ch |-> ch]
    [] e.op = "aligned"   -> [ok |-> e.rows = ch, ch |-> ch]
    [] e.op = "result"    -> [ok |-> e.diff = 0, ch |-> ch]
    [] e.op = "draws"     -> [ok |-> /\ \A k \in 1..Len(e.draws) : ValidChoice(s, e.draws[k])
                                     /\ (Size(s) < s.N /\ Size(s) > 0) => RandomLooking(s, e.draws), ch |-> ch]

Init == id \in 1..Len(Scen) /\ l = 0 /\ chosen = <<>> /\ bad = 0
Trace == /\ S.kind = "trace" /\ bad = 0 /\ l < Len(S.ev)
         /\ l' = l + 1
         /\ LET r == Step(S, S.ev[l'], chosen)
            IN  chosen' = r.ch /\ bad' = IF r.ok THEN 0 ELSE l'
         /\ UNCHANGED id
\* the design: rows are taken one by one
Choose == /\ S.kind = "design" /\ Len(chosen) < Size(S)
          /\ \E i \in 1..S.N : /\ i \notin ToSet(chosen)
                               /\ Size(S) = S.N => i = Len(chosen) + 1
                               /\ chosen' = Append(chosen, i)
          /\ UNCHANGED <<id, l, bad>>
Next == Trace \/ Choose
Spec == Init /\ [][Next]_vars

Design == S.kind = "design" /\ Len(chosen) = Size(S) => ValidChoice(S, chosen) /\ ValidSet(S, chosen)
Emitted == S.kind = "trace" /\ (bad # 0 \/ l = Len(S.ev)) => PrintT("@@" \o ToJson([id |-> id, bad |-> bad]))
=============================================================================
