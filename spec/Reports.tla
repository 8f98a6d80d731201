------------------------------ MODULE Reports ------------------------------
(* The reports of a fitted regional effect as a monitor: the printed lines are *)
(* consumed one by one and compared with the recorded trees.                   *)
(*                                                                             *)
(* Numbers: a decimal is <<i, f>> = i + f/10000 with 0 <= f < 10000; a         *)
(* heterogeneity is [big, h, u]: big = 1 for the maximal one (10^8), h in      *)
(* 1/10000, u in 1/100000 of the largest heterogeneity of the tree.            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils

Scen == JsonDeserialize(IOEnv.SCEN)
VARIABLES id, at, feat, mode, seen, lev, bad
vars == <<id, at, feat, mode, seen, lev, bad>>
S == Scen[id]
AbsI(x) == IF x < 0 THEN -x ELSE x
Huge == 100000000

---------------------------------- (* numbers *) ------------------------------
Norm(i, f) == <<i + (f \div 10000), f % 10000>>
Sub(a, b) == Norm(a[1] - b[1], a[2] - b[2])
\* the printed number p (two digits) is the real number v, rounded
Prints(p, v) == AbsI(p[1] - v[1]) <= 1 /\ AbsI((p[1] - v[1]) * 10000 + p[2] - v[2]) <= 54
HeterOf(n) == IF n.big = 1 THEN <<Huge, 0>> ELSE Norm(0, n.h)
\* weighted heterogeneity of some nodes: Sum n * h / N
Big(ns) == FoldLeft(LAMBDA a, n : a + n.big * n.n, 0, ns)
Level(ns, N) ==
  LET W == Big(ns)
      s == FoldLeft(LAMBDA a, n : a + (1 - n.big) * n.n * n.h, 0, ns)
      r == (Huge % N) * W
      q == (Huge \div N) * W + (r \div N)
  IN  Norm(q, ((r % N) * 10000) \div N + (s \div N))
Fine(ns, N) == FoldLeft(LAMBDA a, n : a + (1 - n.big) * n.n * n.u, 0, ns) \div N
\* printed percentage of the relative drop from level a to level b (nodes)
Percent(l, a, b, N) ==
  LET Wa == Big(a)  Wb == Big(b)  x == Fine(a, N)  y == Fine(b, N) IN
  IF Wa > 0 THEN l.pctok = 1 /\ AbsI(l.pct - (10000 * (Wa - Wb)) \div Wa) <= 40
  ELSE IF Wb > 0 THEN x > 0 => l.pctok = 0 \/ l.pct < -100000
  ELSE IF x < 250 \/ AbsI(x - y) > 210000 THEN TRUE
  ELSE l.pctok = 1 /\ AbsI(l.pct - (10000 * (x - y)) \div x) <= 3 + (30000 * ((x + AbsI(y)) \div 100)) \div (x * (x \div 100))

---------------------------------- (* trees *) --------------------------------
\* S.trees[f] = [none, full, pruned] of feature f (1-based); a node: idx, level, parent, n, w, big, h, u, path
Tree(f) == IF S.important = 1 THEN S.trees[f].pruned ELSE S.trees[f].full
LevelNodes(t, l) == SelectSeq(t, LAMBDA n : n.level = l)
Depth(t) == FoldLeft(LAMBDA a, n : IF n.level > a THEN n.level ELSE a, 0, t)
NameOk(l, n) == Len(l.name) = Len(n.path) /\ \A j \in 1..Len(n.path) :
   LET x == l.name[j]  y == n.path[j] IN x[1] = y[1] /\ x[2] = y[2] /\ AbsI(x[3] - y[3]) <= 52
F == S.features[feat]
Line == S.lines[at]
Is(t) == at <= Len(S.lines) /\ Line.t = t
Complain(tag) == bad' = IF bad = {} THEN {tag} ELSE bad
Keep == UNCHANGED bad

Init == id \in 1..Len(Scen) /\ at = 1 /\ feat = 1 /\ mode = "head" /\ seen = <<>> /\ lev = 0 /\ bad = {}

------------------------------ (* show_partitioning *) ------------------------
\* nearest line above with a smaller indentation
Above == LET J == {j \in 1..Len(seen) : seen[j].level < Line.level} IN IF J = {} THEN 0 ELSE seen[Max(J)].idx + 1
TreeHeadG == S.what = "show" /\ mode = "head" /\ feat <= Len(S.features) /\ Is("tree")
TreeHead ==
  /\ TreeHeadG
  /\ IF Line.f = F THEN Keep ELSE Complain("the tree of another feature")
  /\ mode' = "tree" /\ seen' = <<>> /\ at' = at + 1 /\ UNCHANGED <<id, feat, lev>>
NoTreeG == S.what = "show" /\ mode \in {"tree", "stats"} /\ Is("none")
NoTree ==
  /\ NoTreeG
  /\ IF S.trees[F].none = 1 /\ Line.f = F /\ seen = <<>> THEN Keep ELSE Complain("'no splits' although there is a tree")
  /\ mode' = (IF mode = "tree" THEN "afterempty" ELSE "head")
  /\ feat' = (IF mode = "tree" THEN feat ELSE feat + 1)
  /\ at' = at + 1 /\ UNCHANGED <<id, seen, lev>>
NodeLineG == S.what = "show" /\ mode = "tree" /\ Is("node")
NodeLine ==
  /\ NodeLineG
  /\ LET t == Tree(F)  k == Line.idx + 1 IN
     IF S.trees[F].none = 1 \/ k \notin 1..Len(t) THEN Complain("a node that does not exist")
     ELSE LET n == t[k] IN
          IF \E j \in 1..Len(seen) : seen[j].idx = Line.idx THEN Complain("a node twice")
          ELSE IF Line.level # n.level \/ Above # n.parent THEN Complain("indentation")
          ELSE IF ~NameOk(Line, n) THEN Complain("conditions")
          ELSE IF ~Prints(Line.h, HeterOf(n)) THEN Complain("heterogeneity")
          ELSE IF Line.n # n.n THEN Complain("size")
          ELSE IF AbsI(Line.w * 10000 - n.w) > 5200 THEN Complain("weight")
          ELSE Keep
  /\ seen' = Append(seen, [idx |-> Line.idx, level |-> Line.level])
  /\ at' = at + 1 /\ UNCHANGED <<id, feat, mode, lev>>
StatsG == S.what = "show" /\ mode \in {"tree", "afterempty"} /\ Is("stats")
Stats ==
  /\ StatsG
  /\ IF mode = "tree" /\ (S.trees[F].none = 1 \/ Len(seen) # Len(Tree(F))) THEN Complain("nodes missing")
     ELSE IF Line.f # F THEN Complain("the statistics of another feature") ELSE Keep
  /\ mode' = "stats" /\ lev' = 0 /\ seen' = <<>> /\ at' = at + 1 /\ UNCHANGED <<id, feat>>
LevelLineG == S.what = "show" /\ mode = "stats" /\ Is("level")
LevelLine ==
  /\ LevelLineG
  /\ LET t == Tree(F)  N == t[1].n  a == LevelNodes(t, lev)  b == LevelNodes(t, lev - 1) IN
     IF S.trees[F].none = 1 \/ lev > Depth(t) \/ Line.lev # lev THEN Complain("a level that does not exist")
     ELSE IF ~Prints(Line.h, Level(a, N)) THEN Complain("heterogeneity of a level")
     ELSE IF lev = 0 THEN (IF Line.hasdrop = 0 THEN Keep ELSE Complain("a drop of the root"))
     ELSE IF Line.hasdrop = 0 \/ ~Prints(Line.drop, Sub(Level(b, N), Level(a, N))) THEN Complain("drop")
     ELSE IF ~Percent(Line, b, a, N) THEN Complain("relative drop")
     ELSE Keep
  /\ lev' = lev + 1
  /\ IF lev' > Depth(Tree(F)) THEN mode' = "head" /\ feat' = feat + 1 ELSE UNCHANGED <<mode, feat>>
  /\ at' = at + 1 /\ UNCHANGED <<id, seen>>

----------------------------- (* describe_subregions *) -----------------------
\* a feature without any tree is not mentioned
SkipG == S.what = "describe" /\ mode = "head" /\ feat <= Len(S.features) /\ S.trees[F].none = 1 /\ ~(Is("nosplits") /\ Line.f = F)
Skip ==
  /\ SkipG
  /\ feat' = feat + 1 /\ UNCHANGED <<id, at, mode, seen, lev, bad>>
NoSplitsG == S.what = "describe" /\ mode = "head" /\ feat <= Len(S.features) /\ Is("nosplits") /\ (S.trees[F].none = 0 \/ Line.f = F)
NoSplits ==
  /\ NoSplitsG
  /\ IF (S.trees[F].none = 1 \/ Depth(Tree(F)) = 0) /\ Line.f = F THEN Keep ELSE Complain("'no important splits' although there are")
  /\ feat' = feat + 1 /\ at' = at + 1 /\ UNCHANGED <<id, mode, seen, lev>>
TitleG == S.what = "describe" /\ mode = "head" /\ feat <= Len(S.features) /\ S.trees[F].none = 0 /\ Is("splits")
Title ==
  /\ TitleG
  /\ IF Line.f = F /\ Line.important = S.important /\ Depth(Tree(F)) > 0 THEN Keep ELSE Complain("title")
  /\ mode' = (IF Depth(Tree(F)) > 0 THEN "levels" ELSE "head") /\ feat' = (IF Depth(Tree(F)) > 0 THEN feat ELSE feat + 1)
  /\ lev' = 1 /\ at' = at + 1 /\ UNCHANGED <<id, seen>>
Sizes(ns) == [k \in 1..Len(ns) |-> ns[k].n]
LevelTextG == S.what = "describe" /\ mode = "levels" /\ Is("block")
LevelText ==
  /\ LevelTextG
  /\ LET t == Tree(F)  N == t[1].n  a == LevelNodes(t, lev)  b == LevelNodes(t, lev - 1)  c == a[1].path[lev] IN
     IF Line.d # c[1] \/ Line.typ # a[1].typ THEN Complain("conditioning feature")
     ELSE IF AbsI(Line.pos - c[3]) > 52 THEN Complain("position")
     ELSE IF ~Prints(Line.before, Level(b, N)) \/ ~Prints(Line.after, Level(a, N)) THEN Complain("heterogeneity of a level")
     ELSE IF ~Prints(Line.drop, Sub(Level(b, N), Level(a, N))) THEN Complain("drop")
     ELSE IF ~Percent(Line, b, a, N) THEN Complain("relative drop")
     ELSE IF Line.nbefore # Sizes(b) \/ Line.nafter # Sizes(a) THEN Complain("numbers of instances")
     ELSE Keep
  /\ IF lev + 1 > Depth(Tree(F)) THEN mode' = "head" /\ feat' = feat + 1 ELSE UNCHANGED <<mode, feat>>
  /\ lev' = lev + 1 /\ at' = at + 1 /\ UNCHANGED <<id, seen>>

\* the end of the text, or a line that has no place here
Finished == at > Len(S.lines) /\ mode = "head" /\ (feat > Len(S.features) \/ (S.what = "describe" /\ \A k \in feat..Len(S.features) : S.trees[S.features[k]].none = 1))
CanStep == TreeHeadG \/ NoTreeG \/ NodeLineG \/ StatsG \/ LevelLineG \/ SkipG \/ NoSplitsG \/ TitleG \/ LevelTextG
Steps == TreeHead \/ NoTree \/ NodeLine \/ Stats \/ LevelLine \/ Skip \/ NoSplits \/ Title \/ LevelText
End == /\ mode # "done"
       /\ ~CanStep
       /\ IF Finished THEN Keep ELSE Complain("a line is missing or out of place")
       /\ mode' = "done" /\ UNCHANGED <<id, at, feat, seen, lev>>
Stop == bad # {} /\ mode # "done" /\ mode' = "done" /\ UNCHANGED <<id, at, feat, seen, lev, bad>>
Next == Stop \/ (bad = {} /\ Steps) \/ (bad = {} /\ End)
Spec == Init /\ [][Next]_vars

\* the monitor never prints more nodes than there are
Sound == Len(seen) <= FoldLeft(LAMBDA a, f : a + Len(S.trees[f].full), 1, S.features) \/ bad # {}
Emitted == mode = "done" => PrintT("@@" \o ToJson([id |-> id, bad |-> bad, at |-> at]))
=============================================================================
