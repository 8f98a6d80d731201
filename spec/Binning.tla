------------------------------ MODULE Binning -------------------------------
(* The three binning searches over a grid of K equal cells of one feature.     *)
(*   greedy : step machine, one cell per step; exact ties of positive costs    *)
(*            are the only nondeterminism (rounding decides them in the code)  *)
(*   dp     : best[i] = least cost of a partition of the first i cells         *)
(*   valid  : judgement of an outcome (limits or refusal) observed in the code *)
(*   rank   : the same judgement for arbitrary reals, abstracted to their      *)
(*            ranks (only their order matters) plus fixed-point cell positions *)
(* x: feature values of the instances inside the axis limits, e: their effects *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils, Rationals, BigNat, Bins

Scen == JsonDeserialize(IOEnv.SCEN)
VARIABLES id, pc, i, lims, best, out
vars == <<id, pc, i, lims, best, out>>
S == Scen[id]
Emit(r) == PrintT("@@" \o ToJson(r))

Rows(s) == [k \in 1..Len(s.x) |-> <<s.x[k]>>]
Pos(s, k) == s.lo + k * ((s.hi - s.lo) \div s.K)
In(s, a, b) == SelectSeq([k \in 1..Len(s.x) |-> k], LAMBDA k : Pos(s, a) <= s.x[k] /\ s.x[k] <= Pos(s, b))
Count(s, a, b) == Len(In(s, a, b))
ValidBin(s, a, b) == Count(s, a, b) >= s.minp

\* the cost of the bin of cells a+1..b:  V * width * (100 N - discount * n) / n^2, up to the common factor 1/(100 N)
Cost(s, a, b) ==
  LET idx == In(s, a, b)
      n == Len(idx)
      sum == FoldLeft(LAMBDA acc, k : acc + s.e[k], 0, idx)
      sq == FoldLeft(LAMBDA acc, k : acc + s.e[k] * s.e[k], 0, idx)
  IN  [num |-> BMul(BMul(BFromInt(n * sq - sum * sum), b - a), 100 * Len(s.x) - s.disc * n), n |-> n]
Zero(c) == c.num = <<>>
\* c1 compared with c2 (both bins hold at least one instance)
CmpCost(c1, c2) == BCmp(BMul(BMul(c1.num, c2.n), c2.n), BMul(BMul(c2.num, c1.n), c1.n))

------------------------- (* outcomes before any search *) --------------------
Refuses(s) == IsConstant(Rows(s), 1) \/ Len(s.x) < s.minp
Categorical(s) == IsCategorical(Rows(s), 1, s.cat)
OneBin(s) == Len(s.x) < 2 * s.minp
CatOutcome(s) == LET lim == CategoricalLimits(Rows(s), 1)
                 IN  IF AllBinsHold(Rows(s), 1, lim, s.minp) THEN lim ELSE <<>>
\* With no two instances in any bin no variance is defined at all and the curve does not exist; a refusal is then
\* no statement about the bins.  Sharing(s): two instances certainly share a bin.
Sharing(s) == \/ \E a, b \in 1..Len(s.x) : a < b /\ s.x[a] = s.x[b]
              \/ (~Categorical(s) /\ Len(s.x) > s.K)
              \/ (~Categorical(s) /\ s.kind # "rank" /\ s.method = "fixed" /\
                    LET lim == EqualLimits(s.lo, s.hi, s.K)
                    IN  \E k \in 1..s.K : Len(Members(Rows(s), 1, lim, k)) >= 2)
Searches(s) == ~Refuses(s) /\ ~Categorical(s) /\ ~OneBin(s)

---------------------------------- (* greedy *) ------------------------------
\* what may happen after cell i+1 when the open bin starts at cell `left`: a subset of {"close", "open"}
Decision(s, left, k) ==
  IF k = s.K - 1 THEN {"close"}
  ELSE LET c1 == Cost(s, left, k + 1)
           c2 == Cost(s, left, k + 2)
       IN  IF ~(c1.n >= s.minp /\ c2.n >= s.minp) THEN {"open"}
           ELSE IF c1.n = 0 THEN {"close"}
           ELSE IF Zero(c1) THEN IF Zero(c2) THEN {"open"} ELSE {"close"}
           ELSE LET c == CmpCost(c1, c2)
                IN  IF c = -1 THEN {"close"} ELSE IF c = 1 THEN {"open"} ELSE {"close", "open"}

GreedyStart == /\ pc = "greedy" /\ i < S.K
GreedyClose == /\ GreedyStart
               /\ "close" \in Decision(S, lims[Len(lims)], i)
               /\ lims' = Append(lims, i + 1) /\ i' = i + 1
               /\ UNCHANGED <<id, pc, best, out>>
GreedyOpen  == /\ GreedyStart
               /\ "open" \in Decision(S, lims[Len(lims)], i)
               /\ i' = i + 1
               /\ UNCHANGED <<id, pc, best, out, lims>>
\* the last bin has too few instances: it is merged with the one before it
GreedyMerge == /\ pc = "greedy" /\ i = S.K
               /\ ~ValidBin(S, lims[Len(lims)-1], lims[Len(lims)])
               /\ lims' = SubSeq(lims, 1, Len(lims) - 2) \o <<S.K>>
               /\ pc' = "done" /\ out' = [k \in 1..Len(lims') |-> Pos(S, lims'[k])]
               /\ UNCHANGED <<id, i, best>>
GreedyFinish == /\ pc = "greedy" /\ i = S.K
                /\ ValidBin(S, lims[Len(lims)-1], lims[Len(lims)])
                /\ pc' = "done" /\ out' = [k \in 1..Len(lims) |-> Pos(S, lims[k])]
                /\ UNCHANGED <<id, i, best, lims>>

------------------------------------ (* dp *) --------------------------------
\* fixed-point cost (BigNat, units of 10^-4), or [inf |-> TRUE]
Admissible(s, a, b) == Count(s, a, b) >= Max2(1, s.minp)
FixCost(s, a, b) == LET c == Cost(s, a, b) IN BDiv(BMul(c.num, 10000), c.n * c.n)
Inf == <<-1>>
Less(p, q) == IF p = Inf THEN FALSE ELSE IF q = Inf THEN TRUE ELSE BLess(p, q)
Plus(p, q) == IF p = Inf \/ q = Inf THEN Inf ELSE BAdd(p, q)
MinOf(S0) == CHOOSE p \in S0 : \A q \in S0 : ~Less(q, p)
\* best[k+1] = least cost of a partition of the first k cells
Extend == /\ pc = "dp" /\ i < S.K
          /\ LET cand == {Plus(best[a+1], FixCost(S, a, i + 1)) : a \in {a \in 0..i : best[a+1] # Inf /\ Admissible(S, a, i + 1)}}
             IN  best' = Append(best, IF cand = {} THEN Inf ELSE MinOf(cand))
          /\ i' = i + 1
          /\ UNCHANGED <<id, pc, lims, out>>
RECURSIVE PartitionCost(_, _)
PartitionCost(s, l) == IF Len(l) < 2 THEN <<>>
                       ELSE IF ~Admissible(s, l[1], l[2]) THEN Inf
                       ELSE Plus(FixCost(s, l[1], l[2]), PartitionCost(s, Tail(l)))
\* S.lim: the limits (as grid indices) the code returned
Tolerance(s, c) == BAdd(BFromInt(2 * s.K), IF Len(c) > 3 THEN SubSeq(c, 4, Len(c)) ELSE <<>>)
Judge == /\ pc = "dp" /\ i = S.K
         /\ LET opt == best[S.K + 1]
                cost == PartitionCost(S, S.lim)
            IN  out' = [optimal |-> cost # Inf /\ opt # Inf /\ BLeq(cost, BAdd(opt, Tolerance(S, opt))), opt |-> opt, cost |-> cost]
         /\ pc' = "done"
         /\ UNCHANGED <<id, i, lims, best>>

\* exhaustive cross-check of the recurrence on small grids
AllPartitions(K) == {SortedSeq(T \cup {0, K}) : T \in SUBSET (1..K-1)}
BruteForce(s) == MinOf({PartitionCost(s, l) : l \in AllPartitions(s.K)})

------------------------- (* judgement of observed bins *) -------------------
\* s.refused = 1: the code refused; otherwise s.lim are its limits
Judgement(s) ==
  LET lim == s.lim
      n == Len(lim)
      cat == Categorical(s)
      must == Refuses(s) \/ (cat /\ CatOutcome(s) = <<>>)
              \/ (~cat /\ s.method = "fixed" /\ ~AllBinsHold(Rows(s), 1, EqualLimits(s.lo, s.hi, s.K), s.minp))
  IN  IF s.refused = 1 THEN (IF must \/ ~Sharing(s) THEN <<>> ELSE <<"refused although bins exist">>)
      ELSE IF must THEN <<"bins returned although none are possible">>
      ELSE SelectSeq(<<
        IF n < 2 \/ ~Increasing(lim) THEN "not strictly increasing" ELSE "",
        IF n < 2 \/ ~Covers(Rows(s), 1, lim) THEN "an instance lies outside the bins" ELSE "",
        IF n >= 2 /\ ~AllBinsHold(Rows(s), 1, lim, s.minp) THEN "a bin holds too few instances" ELSE "",
        IF cat /\ lim # CategoricalLimits(Rows(s), 1) THEN "not one bin per value" ELSE "",
        IF ~cat /\ (lim[1] # s.lo \/ lim[n] # s.hi) THEN "does not run from the left to the right axis limit" ELSE "",
        IF ~cat /\ s.method = "fixed" /\ lim # EqualLimits(s.lo, s.hi, s.K) THEN "not the requested equal bins" ELSE "",
        IF ~cat /\ s.method # "fixed" /\ (n - 1 > s.K \/ \E k \in 1..n : (lim[k] - s.lo) % ((s.hi - s.lo) \div s.K) # 0)
          THEN "a limit is not on the initial grid" ELSE "",
        IF ~cat /\ s.method # "fixed" /\ OneBin(s) /\ n # 2 THEN "more than one bin" ELSE "">>, LAMBDA m : m # "")

\* ranks: only the order of the reals; s.cell are the limits as 10^-6 of the axis, s.mid the (doubled) ranks of the
\* midpoints between neighbouring values
RankJudgement(s) ==
  LET lim == s.lim
      n == Len(lim)
      cat == Categorical(s)
      off(k) == Abs(s.cell[k] * s.K - 1000000 * ((s.cell[k] * s.K + 500000) \div 1000000))
  IN  IF Refuses(s) THEN (IF s.refused = 1 THEN <<>> ELSE <<"bins returned although none are possible">>)
      ELSE IF s.refused = 1 THEN (IF cat \/ s.method = "fixed" \/ ~Sharing(s) THEN <<>> ELSE <<"refused although bins exist">>)
      ELSE SelectSeq(<<
        IF n < 2 \/ ~Increasing(lim) THEN "not strictly increasing" ELSE "",
        IF n < 2 \/ ~Covers(Rows(s), 1, lim) THEN "an instance lies outside the bins" ELSE "",
        IF n >= 2 /\ ~AllBinsHold(Rows(s), 1, lim, s.minp) THEN "a bin holds too few instances" ELSE "",
        IF cat /\ n - 1 # Cardinality(Values(Rows(s), 1)) THEN "not one bin per value" ELSE "",
        IF cat /\ \E k \in 1..n-1 : Cardinality({v \in Values(Rows(s), 1) : lim[k] < v /\ v < lim[k+1]}) # 1 THEN "not one value per bin" ELSE "",
        IF ~cat /\ (lim[1] # s.lo \/ lim[n] # s.hi) THEN "does not run from the left to the right axis limit" ELSE "",
        IF ~cat /\ s.method = "fixed" /\ n - 1 # s.K THEN "not the requested number of bins" ELSE "",
        IF ~cat /\ n - 1 > s.K THEN "too many bins" ELSE "",
        IF ~cat /\ \E k \in 1..n : off(k) > 2 * s.K THEN "a limit is not on the grid" ELSE "">>, LAMBDA m : m # "")

-------------------------------------------------------------------------------
Init == /\ id \in 1..Len(Scen) /\ i = 0
        /\ lims = <<0>> /\ best = <<<<>>>>
        /\ pc = IF Scen[id].kind \in {"greedy", "dp"} /\ Searches(Scen[id]) THEN Scen[id].kind ELSE "direct"
        /\ out = <<>>
Direct == /\ pc = "direct"
          /\ pc' = "done"
          /\ out' = CASE S.kind = "valid" -> Judgement(S)
                      [] S.kind = "rank" -> RankJudgement(S)
                      [] OTHER -> IF Refuses(S) THEN <<>>
                                  ELSE IF Categorical(S) THEN CatOutcome(S)
                                  ELSE <<S.lo, S.hi>>
          /\ UNCHANGED <<id, i, lims, best>>
Next == GreedyClose \/ GreedyOpen \/ GreedyMerge \/ GreedyFinish \/ Extend \/ Judge \/ Direct
Spec == Init /\ [][Next]_vars

\* the result of a finished search respects the contract of every binning (C06)
Contract == (pc = "done" /\ S.kind = "greedy" /\ out # <<>> /\ ~Categorical(S)) =>
              /\ Increasing(out) /\ out[1] = S.lo /\ out[Len(out)] = S.hi
              /\ AllBinsHold(Rows(S), 1, out, S.minp)
OpenBinStartsBefore == pc = "greedy" => lims[Len(lims)] <= i
DpIsOptimal == (pc = "dp" /\ i = S.K /\ S.K <= 6) => best[S.K + 1] = BruteForce(S)
DpBounds == pc = "dp" => Len(best) = i + 1
Emitted == pc = "done" => Emit([id |-> id, r |-> [settled |-> Sharing(S), searched |-> Scen[id].kind \in {"greedy", "dp"} /\ Searches(S), out |-> out]])
=============================================================================
