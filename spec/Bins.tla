-------------------------------- MODULE Bins --------------------------------
(* Bins over one feature: limits, membership, statistics, interpolation of     *)
(* empty bins and the accumulated curve.  Positions are lattice integers.      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Rationals

RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                     IN  <<m>> \o SortedSeq(S \ {m})

Values(X, f) == {X[i][f] : i \in 1..Len(X)}
IsCategorical(X, f, catlimit) == Cardinality(Values(X, f)) <= catlimit
IsConstant(X, f) == Cardinality(Values(X, f)) = 1

\* one bin per value, limits midway between neighbours, outer bins symmetric
CategoricalLimits(X, f) ==
  LET v == SortedSeq(Values(X, f))
      n == Len(v)
  IN  [k \in 1..n+1 |-> IF k = 1 THEN v[1] - ((v[2] - v[1]) \div 2)
                        ELSE IF k = n + 1 THEN v[n] + ((v[n] - v[n-1]) \div 2)
                        ELSE v[k-1] + ((v[k] - v[k-1]) \div 2)]
\* the lattice contains the midpoints
CategoricalExact(X, f) == LET v == SortedSeq(Values(X, f))
                          IN  \A k \in 1..Len(v)-1 : (v[k+1] - v[k]) % 2 = 0

EqualLimits(lo, hi, K) == [k \in 1..K+1 |-> lo + (k - 1) * ((hi - lo) \div K)]
EqualExact(lo, hi, K) == (hi - lo) % K = 0

CountClosed(X, f, a, b) == Cardinality({i \in 1..Len(X) : a <= X[i][f] /\ X[i][f] <= b})
AllBinsHold(X, f, lim, minp) == \A k \in 1..Len(lim)-1 : CountClosed(X, f, lim[k], lim[k+1]) >= minp

\* the outcome of Fixed binning: a sequence of limits, or <<>> for a refusal
FixedOutcome(X, f, lo, hi, K, minp, catlimit) ==
  IF IsConstant(X, f) \/ Len(X) < minp THEN <<>>
  ELSE LET lim == IF IsCategorical(X, f, catlimit) THEN CategoricalLimits(X, f) ELSE EqualLimits(lo, hi, K)
       IN  IF AllBinsHold(X, f, lim, minp) THEN lim ELSE <<>>

Increasing(lim) == \A k \in 1..Len(lim)-1 : lim[k] < lim[k+1]
Covers(X, f, lim) == \A i \in 1..Len(X) : lim[1] <= X[i][f] /\ X[i][f] <= lim[Len(lim)]

\* the bin of value v: right of an inner limit belongs to the right bin, the right end to the last bin
BinOf(v, lim) == IF v = lim[Len(lim)] THEN Len(lim) - 1
                 ELSE CHOOSE k \in 1..Len(lim)-1 : lim[k] <= v /\ v < lim[k+1]

Members(X, f, lim, k) == SelectSeq([i \in 1..Len(X) |-> i], LAMBDA i : BinOf(X[i][f], lim) = k)

\* a bin without a statistic takes the linear interpolation, over bin indices, of its nearest neighbours that have
\* one: Source gives the pair <<l, r>> (l = r: the value of that bin alone)
Source(k, def) ==
  IF k \in def \/ def = {} THEN <<k, k>>
  ELSE LET L == {j \in def : j < k}
           R == {j \in def : j > k}
           l == CHOOSE j \in L : \A i \in L : i <= j
           r == CHOOSE j \in R : \A i \in R : i >= j
       IN  IF L = {} THEN <<r, r>> ELSE IF R = {} THEN <<l, l>> ELSE <<l, r>>

\* how much of bin k lies left of x
Part(lim, k, x) == Max2(0, Min2(x - lim[k], lim[k+1] - lim[k]))
\* twice the integral of Part(lim, k, .) over [lo, hi]
TwicePartIntegral(lim, k, lo, hi) ==
  LET a == Max2(lo, lim[k])  b == Min2(hi, lim[k+1])  dx == lim[k+1] - lim[k]
      inner == IF b > a THEN (b - lim[k]) * (b - lim[k]) - (a - lim[k]) * (a - lim[k]) ELSE 0
      outer == IF hi > lim[k+1] THEN 2 * (hi - Max2(lo, lim[k+1])) * dx ELSE 0
  IN  inner + outer
=============================================================================
