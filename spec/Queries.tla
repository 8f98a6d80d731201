------------------------------ MODULE Queries ------------------------------
(* What the black box may be asked while an effect is fitted and evaluated.    *)
(* s.q is the set of rows (lattice points) the code asked the model or the     *)
(* Jacobian for; a row that is not a lattice point carries a far away value.   *)
(* The state machine consumes the trace of questions one by one.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils, Rationals, BlackBox, Bins

Scen == JsonDeserialize(IOEnv.SCEN)
VARIABLES id, l, bad
vars == <<id, l, bad>>
S == Scen[id]

Inside(s) == SelectSeq(s.X, LAMBDA u : s.lo <= u[s.f] /\ u[s.f] <= s.hi)
\* u is x with at most feature f replaced
OnlyReplaces(u, x, f) == \A d \in 1..Len(x) : d = f \/ u[d] = x[d]

CenterPoints(s, X) == IF s.P = 0 THEN {X[k][s.f] : k \in 1..Len(X)}
                      ELSE {s.lo + (k - 1) * ((s.hi - s.lo) \div (s.P - 1)) : k \in 1..s.P}
Points(s, X) == ToSet(s.xs) \cup {s.lo} \cup CenterPoints(s, X)

Limits(s, X) == IF Len(X) = 0 THEN <<>> ELSE FixedOutcome(X, s.f, s.lo, s.hi, s.K, s.minp, s.cat)

Allowed(s, X, pts, lim, w, u) ==
  CASE s.kind = "pdp" -> \E i \in 1..Len(X) : OnlyReplaces(u, X[i], s.f) /\ u[s.f] \in pts
    [] s.kind = "ale" -> /\ w = "model"
                         /\ lim # <<>>
                         /\ \E i \in 1..Len(X), k \in 1..Len(lim) - 1 :
                               /\ OnlyReplaces(u, X[i], s.f)
                               /\ BinOf(X[i][s.f], lim) = k
                               /\ u[s.f] \in {lim[k], lim[k+1]}
    [] s.kind = "rhale" -> s.given = 0 /\ w = "jac" /\ \E i \in 1..Len(s.X) : u = s.X[i]

Init == id \in 1..Len(Scen) /\ l = 0 /\ bad = <<>>
Ask == /\ l = 0 /\ l' = 1
       /\ LET X == Inside(S)
              pts == IF S.kind = "pdp" THEN Points(S, X) ELSE {}
              lim == IF S.kind = "ale" THEN Limits(S, X) ELSE <<>>
          IN  bad' = SelectSeq(S.q, LAMBDA q : ~Allowed(S, X, pts, lim, q.w, q.u))
       /\ UNCHANGED id
Next == Ask
Spec == Init /\ [][Next]_vars
Emitted == l = 1 => PrintT("@@" \o ToJson([id |-> id, bad |-> IF bad = <<>> THEN <<>> ELSE <<bad[1]>>, n |-> Len(S.q)]))
=============================================================================
