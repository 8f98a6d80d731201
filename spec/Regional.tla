------------------------------ MODULE Regional -----------------------------
(* A regional effect is the global effect of its regions.  The regions of a    *)
(* fitted tree are walked from the root: the region of a node is the part of   *)
(* its parent's region that satisfies the node's condition.  For every node    *)
(* the specification gives the instances, the axis limits of the feature and   *)
(* (kinds "pdp" and "fixed") the exact effect of Effects.tla on exactly these  *)
(* instances with exactly these limits.  The labels of recorded plots have to  *)
(* spell out the path, at the scaled positions.                                *)
EXTENDS Effects

\* scenario: X, f, nodes (parent, d, op, pos), labels (node, real positions of the path, parsed name), kind, Effects fields
Satisfies(n, u) == LET v == u[n.d] * n.pos[2]  p == n.pos[1] IN
                   CASE n.op = "<=" -> v <= p [] n.op = ">" -> v > p [] n.op = "==" -> v = p [] n.op = "!=" -> v # p [] OTHER -> FALSE
Step(s, regs) == LET k == Len(regs) + 1  n == s.nodes[k] IN
                 IF n.parent = 0 THEN [i \in 1..Len(s.X) |-> i]
                 ELSE IF n.parent >= k THEN <<>>
                 ELSE SelectSeq(regs[n.parent], LAMBDA i : Satisfies(n, s.X[i]))
RECURSIVE Path(_, _)
Path(s, k) == IF s.nodes[k].parent = 0 THEN <<>> ELSE Append(Path(s, s.nodes[k].parent), k)

\* the global problem of a node
Narrow(s, m) ==
  LET X == [j \in 1..Len(m) |-> s.X[m[j]]]
      V == {u[s.f] : u \in ToSet(X)}
  IN  [s EXCEPT !.X = X, !.lo = Min(V), !.hi = Max(V), !.E = IF s.E = <<>> THEN <<>> ELSE [j \in 1..Len(m) |-> s.E[m[j]]]]
NodeOut(s, m) == IF s.kind = "none" \/ m = <<>> THEN <<>>
                 ELSE LET q == Narrow(s, m) IN
                      IF s.kind = "pdp" /\ q.lo = q.hi THEN <<>> ELSE <<Result(q)>>
NodeSane(s, m, o) == IF o = <<>> THEN TRUE ELSE Sane(Narrow(s, m), o[1])

LabelOk(s, l) ==
  LET p == Path(s, l.node) IN
  /\ Len(l.name) = Len(p)
  /\ \A j \in 1..Len(p) : LET x == l.name[j]  n == s.nodes[p[j]] IN
       x[1] = n.d /\ x[2] = n.op /\ Abs(x[3] - l.real[j]) <= 52

\* pc: "walk" builds the regions in out, then out carries everything
RInit == id \in 1..Len(Scen) /\ pc = "walk" /\ out = <<>>
Walk == /\ pc = "walk" /\ Len(out) < Len(Scen[id].nodes)
        /\ out' = Append(out, Step(Scen[id], out))
        /\ UNCHANGED <<id, pc>>
Answer == /\ pc = "walk" /\ Len(out) = Len(Scen[id].nodes)
          /\ pc' = "done"
          /\ out' = [rows |-> out,
                     limits |-> [k \in 1..Len(out) |-> IF out[k] = <<>> THEN <<0, 0>>
                                 ELSE LET V == {Scen[id].X[i][Scen[id].f] : i \in ToSet(out[k])} IN <<Min(V), Max(V)>>],
                     r |-> [k \in 1..Len(out) |-> NodeOut(Scen[id], out[k])],
                     badlabels |-> {j \in 1..Len(Scen[id].labels) : ~LabelOk(Scen[id], Scen[id].labels[j])}]
          /\ UNCHANGED id
RNext == Walk \/ Answer
RSpec == RInit /\ [][RNext]_vars

\* a region is part of its parent's; two children of one node with opposite conditions share nothing
Nested == pc = "walk" => \A k \in 1..Len(out) : Scen[id].nodes[k].parent \in 1..(k-1) =>
             ToSet(out[k]) \subseteq ToSet(out[Scen[id].nodes[k].parent])
Opposite(a, b) == a.d = b.d /\ a.pos = b.pos /\ {a.op, b.op} \in {{"<=", ">"}, {"==", "!="}}
Parted == pc = "walk" => \A j, k \in 1..Len(out) :
             LET a == Scen[id].nodes[j]  b == Scen[id].nodes[k] IN
             (j < k /\ a.parent = b.parent /\ a.parent \in 1..(j-1) /\ Opposite(a, b)) =>
               /\ ToSet(out[j]) \cap ToSet(out[k]) = {}
               /\ ToSet(out[j]) \cup ToSet(out[k]) = ToSet(out[a.parent])
RConforms == pc = "done" =>
   /\ Assert(\A k \in 1..Len(out.rows) : NodeSane(Scen[id], out.rows[k], out.r[k]), <<"design invariant", id>>)
   /\ Emit([id |-> id, rows |-> out.rows, limits |-> out.limits, r |-> out.r, badlabels |-> out.badlabels])
=============================================================================
