------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size as sequences of base 10^4 digits, least         *)
(* significant first, without leading zeros (<<>> is 0).                       *)
EXTENDS Integers, Sequences
LOCAL B == 10000

RECURSIVE BFromInt(_)
BFromInt(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o BFromInt(n \div B)
BShift(s) == IF s = <<>> THEN <<>> ELSE <<0>> \o s

RECURSIVE BAddC(_, _, _)
BAddC(s, t, c) == IF s = <<>> /\ t = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                  ELSE LET v == (IF s = <<>> THEN 0 ELSE s[1]) + (IF t = <<>> THEN 0 ELSE t[1]) + c
                       IN  <<v % B>> \o BAddC(IF s = <<>> THEN <<>> ELSE Tail(s), IF t = <<>> THEN <<>> ELSE Tail(t), v \div B)
BAdd(s, t) == IF s = <<>> THEN t ELSE IF t = <<>> THEN s ELSE BAddC(s, t, 0)

RECURSIVE BMulSmall(_, _, _)
BMulSmall(s, k, c) == IF s = <<>> THEN BFromInt(c)
                      ELSE LET v == s[1] * k + c IN <<v % B>> \o BMulSmall(Tail(s), k, v \div B)
\* s times the integer k (any 32 bit natural)
RECURSIVE BMul(_, _)
BMul(s, k) == IF k = 0 \/ s = <<>> THEN <<>>
              ELSE IF k < 200000 THEN BMulSmall(s, k, 0)
              ELSE BAdd(BShift(BMul(s, k \div B)), BMul(s, k % B))

RECURSIVE BTrim(_)
BTrim(s) == IF s = <<>> THEN <<>> ELSE IF s[Len(s)] = 0 THEN BTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
\* s div k for 0 < k < 200000: long division from the most significant digit
RECURSIVE BDivLoop(_, _, _)
BDivLoop(s, k, r) == IF s = <<>> THEN <<>>
                     ELSE LET v == r * B + s[Len(s)]
                          IN  BDivLoop(SubSeq(s, 1, Len(s) - 1), k, v % k) \o <<v \div k>>
BDiv(s, k) == BTrim(BDivLoop(s, k, 0))

\* -1, 0, 1
RECURSIVE BCmpFrom(_, _, _)
BCmpFrom(s, t, i) == IF i = 0 THEN 0 ELSE IF s[i] < t[i] THEN -1 ELSE IF s[i] > t[i] THEN 1 ELSE BCmpFrom(s, t, i - 1)
BCmp(s, t) == IF Len(s) < Len(t) THEN -1 ELSE IF Len(s) > Len(t) THEN 1 ELSE BCmpFrom(s, t, Len(s))
BLess(s, t) == BCmp(s, t) = -1
BLeq(s, t) == BCmp(s, t) # 1
=============================================================================
