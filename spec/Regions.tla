------------------------------ MODULE Regions ------------------------------
(* The tree of subregions of a regional effect and the search that finds it.   *)
(*                                                                             *)
(* A region is a sequence of instances (increasing row numbers).  H gives the  *)
(* heterogeneity of a region (by the global method on its instances; big = 1:  *)
(* too few instances, or the method fails).  The search is a state machine: a  *)
(* level splits every region of the frontier by one candidate, any candidate   *)
(* of maximal weighted drop; TLC follows the recorded tree level by level and  *)
(* judges every step, then the nodes of the full and of the pruned tree.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils, Rationals, Bins

Scen == JsonDeserialize(IOEnv.SCEN)
VARIABLES id, pc, lev, front, sums, bad
vars == <<id, pc, lev, front, sums, bad>>
S == Scen[id]

----------------------------- (* candidates, splits *) ------------------------
Col(s, d) == {s.X[i][d] : i \in 1..Len(s.X)}
\* a candidate is <<feature, numerator, denominator>> of its position
Candidates(s) ==
  UNION {LET d == s.foc[k]  V == Col(s, d)  lo == Min(V)  hi == Max(V) IN
         IF s.types[d] = 1 THEN {<<d, v, 1>> : v \in V}
         ELSE {LET q == Q(2 * s.n * lo + (2 * j + 1) * (hi - lo), 2 * s.n) IN <<d, q[1], q[2]>> : j \in 0..s.n-1}
        : k \in 1..Len(s.foc)}
Holds(s, c, u) == IF s.types[c[1]] = 1 THEN u[c[1]] * c[3] = c[2] ELSE u[c[1]] * c[3] <= c[2]
Left(s, c, m) == SelectSeq(m, LAMBDA i : Holds(s, c, s.X[i]))
Right(s, c, m) == SelectSeq(m, LAMBDA i : ~Holds(s, c, s.X[i]))
RECURSIVE SplitAll(_, _, _)
SplitAll(s, c, fr) == IF fr = <<>> THEN <<>>
                      ELSE <<Left(s, c, Head(fr)), Right(s, c, Head(fr))>> \o SplitAll(s, c, Tail(fr))

All(s) == [i \in 1..Len(s.X) |-> i]
Known(s, m) == \E k \in 1..Len(s.H) : s.H[k].m = m
HOf(s, m) == IF Len(m) < s.minp THEN [big |-> 1, h |-> 0]
             ELSE LET k == CHOOSE j \in 1..Len(s.H) : s.H[j].m = m IN [big |-> s.H[k].big, h |-> s.H[k].h]
\* weighted heterogeneity of a level: weight of the maximally heterogeneous regions, weighted sum of the others, total
\* weight (every region weighs its size plus one)
Weighted(s, fr) ==
  LET hs == [k \in 1..Len(fr) |-> HOf(s, fr[k])]
  IN  [big |-> FoldLeft(LAMBDA a, k : a + IF hs[k].big = 1 THEN Len(fr[k]) + 1 ELSE 0, 0, [k \in 1..Len(fr) |-> k]),
       sum |-> FoldLeft(LAMBDA a, k : a + IF hs[k].big = 1 THEN 0 ELSE (Len(fr[k]) + 1) * hs[k].h, 0, [k \in 1..Len(fr) |-> k]),
       w   |-> FoldLeft(LAMBDA a, m : a + Len(m) + 1, 0, fr)]

CanSplit(s, fr, l) == l < s.depth /\ \A k \in 1..Len(fr) : Len(fr[k]) >= s.minp
NoTree(s) == \/ s.types[s.f] = 1 /\ s.splitcat = 0
             \/ ~CanSplit(s, <<All(s)>>, 0)

------------------------------ (* recorded tree *) ----------------------------
LevelNodes(t, l) == SelectSeq(t, LAMBDA n : n.level = l)
Depth(t) == FoldLeft(LAMBDA a, n : IF n.level > a THEN n.level ELSE a, 0, t)
Rows(s, m) == [k \in 1..Len(m) |-> s.X[m[k]]]
\* the node describes exactly the region m, which it got from its parent by condition c on side j (1: holds, 0: not)
Condition(s, c, j) == IF s.types[c[1]] = 1 THEN IF j = 1 THEN "==" ELSE "!=" ELSE IF j = 1 THEN "<=" ELSE ">"
Describes(s, n, m) == /\ n.rows = Rows(s, m)
                      /\ s.eff = 1 => n.eff = [k \in 1..Len(m) |-> s.effid[m[k]]]
                      /\ n.n = Len(m)
                      /\ Abs(n.w * Len(s.X) - 1000000 * Len(m)) <= Len(s.X)
HeterOk(s, n, m) == LET h == HOf(s, m) IN n.big = h.big /\ (h.big = 0 => Abs(n.h - h.h) <= s.tol)
\* the name of a node: the conditions of its path, positions rounded to two digits
NameOk(n, p) == /\ Len(n.name) = n.level
                /\ n.level > 0 => /\ SubSeq(n.name, 1, n.level - 1) = p.name
                                  /\ LET x == n.name[n.level] IN x[1] = n.d /\ x[2] = n.op /\ Abs(x[3] - n.real) <= 52

----------------------------------- (* steps *) -------------------------------
Say(tags) == bad' = bad \cup tags
\* a wrong heterogeneity, name or choice is reported and the search goes on; a node that is no such region ends it
GoesOn(tags) == \A b \in tags : b[1] \in {"heterogeneity", "name", "best"}
Init == id \in 1..Len(Scen) /\ pc = "start" /\ lev = 0 /\ front = <<>> /\ sums = <<>> /\ bad = {}
Start ==
  /\ pc = "start"
  /\ front' = <<All(S)>>
  /\ IF NoTree(S)
     THEN /\ Say(IF S.none = <<1, 1>> THEN {} ELSE {<<"search", "a tree although there is nothing to split">>})
          /\ sums' = <<>> /\ pc' = "done"
     ELSE IF S.none # <<0, 0>> THEN Say({<<"search", "no tree although the root can be split">>}) /\ sums' = <<>> /\ pc' = "done"
     ELSE LET r == LevelNodes(S.full, 0) IN
          /\ Say(IF Len(r) # 1 THEN {<<"tree", "not one root">>}
                 ELSE (IF Describes(S, r[1], All(S)) /\ r[1].parent = 0 THEN {} ELSE {<<"tree", "the root is not the instances used">>})
                      \cup (IF HeterOk(S, r[1], All(S)) THEN {} ELSE {<<"heterogeneity", "of the root">>})
                      \cup (IF r[1].name = <<>> THEN {} ELSE {<<"name", "of the root">>}))
          /\ sums' = <<Weighted(S, <<All(S)>>)>>
          /\ pc' = IF GoesOn(bad') THEN "search" ELSE "done"
  /\ UNCHANGED <<id, lev>>

Better(a, b, t) == a.big < b.big \/ (a.big = b.big /\ a.sum + t < b.sum)
Level ==
  /\ pc = "search" /\ CanSplit(S, front, lev)
  /\ LET ns == LevelNodes(S.full, lev + 1)
         C == Candidates(S)
         c == IF ns = <<>> THEN <<0, 0, 1>> ELSE <<ns[1].d, ns[1].pos[1], ns[1].pos[2]>>
     IN  IF ns = <<>>
         THEN Say({<<"search", "stopped although every region has enough instances">>}) /\ pc' = "done" /\ UNCHANGED <<lev, front, sums>>
         ELSE IF Len(ns) # 2 * Len(front) \/ c \notin C
         THEN Say({<<"search", "the split is not a candidate">>}) /\ pc' = "done" /\ UNCHANGED <<lev, front, sums>>
         ELSE LET fr == SplitAll(S, c, front)
                  mine == Weighted(S, fr)
                  best == {Weighted(S, SplitAll(S, q, front)) : q \in C}
                  t == S.tol * mine.w
                  ps == LevelNodes(S.full, lev)
              IN  /\ Say((IF \E b \in best : Better(b, mine, t) THEN {<<"best", ToString(<<lev + 1, c>>)>>} ELSE {})
                         \cup UNION {LET n == ns[k]  j == k % 2  p == (k + 1) \div 2 IN
                              (IF /\ Describes(S, n, fr[k])
                                  /\ n.parent > 0 /\ S.full[n.parent] = ps[p]
                                  /\ <<n.d, n.pos[1], n.pos[2]>> = c
                                  /\ n.typ = (IF S.types[c[1]] = 1 THEN "cat" ELSE "cont")
                                  /\ n.op = Condition(S, c, j) THEN {} ELSE {<<"tree", ToString(n.idx)>>})
                              \cup (IF HeterOk(S, n, fr[k]) THEN {} ELSE {<<"heterogeneity", ToString(n.idx)>>})
                              \cup (IF NameOk(n, ps[p]) THEN {} ELSE {<<"name", ToString(n.idx)>>})
                            : k \in 1..Len(ns)})
                  /\ lev' = lev + 1 /\ front' = fr /\ sums' = Append(sums, mine)
                  /\ pc' = IF GoesOn(bad') THEN "search" ELSE "done"
  /\ UNCHANGED id

\* relative drop between two levels exceeds the threshold: surely / possibly (with the tolerance of the recording)
Drops(s, b, a, slack) ==
  \* (b - a) / b > thr  <=>  a/b < 1 - thr
  LET t == s.tol
      an == Max2(0, a.sum - slack * t * a.w)
      bn == b.sum + slack * t * b.w
  IN  IF b.big > 0 THEN slack > 0
      ELSE IF b.sum < -t * b.w THEN slack > 0     \* a spline through residuals may be negative: no relative drop
      ELSE IF a.big > 0 THEN FALSE
      ELSE IF bn <= 0 THEN FALSE
      ELSE FracLess(an * b.w, a.w * bn, s.thr[2] - s.thr[1], s.thr[2])
Surely(s, b, a) == Drops(s, b, a, -1)
Possibly(s, b, a) == Drops(s, b, a, 1)
RECURSIVE Prefix(_, _, _)
Prefix(s, ws, sure) == IF Len(ws) < 2 THEN 0
                       ELSE IF (IF sure THEN Surely(s, ws[1], ws[2]) ELSE Possibly(s, ws[1], ws[2])) THEN 1 + Prefix(s, Tail(ws), sure) ELSE 0
Kept(s, ws) ==   \* <<fewest, most>> levels the pruned tree may keep
  LET h0 == ws[1] IN
  IF h0.big > 0 THEN <<0, 0>>
  ELSE IF h0.sum + s.tol * h0.w < s.small * h0.w THEN <<0, 0>>
  ELSE IF h0.sum - s.tol * h0.w <= s.small * h0.w THEN <<0, Prefix(s, ws, FALSE)>>
  ELSE <<Prefix(s, ws, TRUE), Prefix(s, ws, FALSE)>>

Finish ==
  /\ pc = "search" /\ ~CanSplit(S, front, lev)
  /\ LET k == Kept(S, sums)
         d == Depth(S.pruned)
     IN  Say((IF Depth(S.full) # lev \/ Len(S.full) # 2 ^ (lev + 1) - 1 THEN {<<"search", "deeper than allowed">>} ELSE {})
             \cup (IF d < k[1] \/ d > k[2] THEN {<<"pruned", ToString(<<d, k>>)>>} ELSE {})
             \cup (IF S.pruned = SelectSeq(S.full, LAMBDA n : n.level <= d) THEN {} ELSE {<<"tree", "the pruned tree is no prefix of the full tree">>})
             \cup (IF \A i \in 1..Len(S.full) : S.full[i].idx = i - 1 THEN {} ELSE {<<"tree", "numbering">>}))
  /\ pc' = "done"
  /\ UNCHANGED <<id, lev, front, sums>>

Next == Start \/ Level \/ Finish
Spec == Init /\ [][Next]_vars

\* the design: every level partitions the instances
Partition == (pc \in {"search", "done"} /\ front # <<>>) =>
   /\ FoldLeft(LAMBDA a, m : a + Len(m), 0, front) = Len(S.X)
   /\ UNION {ToSet(front[k]) : k \in 1..Len(front)} = 1..Len(S.X)
Bounded == lev <= S.depth
Emitted == pc = "done" => PrintT("@@" \o ToJson([id |-> id, bad |-> bad, lev |-> lev]))
=============================================================================
