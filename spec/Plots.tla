------------------------------- MODULE Plots --------------------------------
(* A plot as a monitor: the drawn artists are consumed one by one and every    *)
(* one must be what the evaluation of the effect and the requested options     *)
(* call for; at the end nothing may be missing.                                *)
(*                                                                             *)
(* Numbers are fixed point: x-like, y-like and slope-like values each have     *)
(* their own unit (10^-7 of the largest value of the figure).  A scaling is    *)
(* [p, q, m]: std = p/q and mean m in the unit of its axis.                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils, Rationals

Scen == JsonDeserialize(IOEnv.SCEN)
VARIABLES id, at, seen, bad
vars == <<id, at, seen, bad>>
S == Scen[id]
It == S.items[at]
Tol == 40

------------------------------- (* scalings *) -------------------------------
\* drawn value d of the raw value v under the scaling s: d = v * p/q + m
Affine(d, v, s) == Abs((d - s.m) * s.q - v * s.p) <= Tol * (s.p + s.q)
\* without the mean (spreads)
Linear(d, v, s) == Abs(d * s.q - v * s.p) <= Tol * (s.p + s.q)
\* derivatives: d = v * (py/qy) / (px/qx)
Slope(d, v) == Abs(d * (S.sy.q * S.sx.p) - v * (S.sy.p * S.sx.q)) <= Tol * (S.sy.q * S.sx.p + S.sy.p * S.sx.q)
Derivative == S.method = "dpdp"
YOk(d, v) == IF Derivative THEN Slope(d, v) ELSE Affine(d, v, S.sy)
SpreadOk(d, v) == IF Derivative THEN Slope(d, v) ELSE Linear(d, v, S.sy)
XOk(d, v) == Affine(d, v, S.sx)
All(xs, vs, P(_, _)) == Len(xs) = Len(vs) /\ \A k \in 1..Len(xs) : P(xs[k], vs[k])
\* half the height h of a band of the standard error, v the std of N values: h * sqrt(N) = v
RootN == ISqrt(S.N * 100000)          \* 316 * sqrt(N), good to a thousandth
ErrOk(h, v) == LET a == (h \div 1000) * RootN  b == (v \div 1000) * 316
                   s == IF Derivative THEN [p |-> S.sy.p * S.sx.q, q |-> S.sy.q * S.sx.p] ELSE S.sy
               IN  Abs((a \div s.p) - (b \div s.q)) <= (Abs(b \div s.q) \div 200) + RootN + 2

-------------------------------- (* artists *) -------------------------------
Count(t) == Len(SelectSeq(seen, LAMBDA q : q.t = t))
Complain(tag) == bad' = IF bad = {} THEN {tag} ELSE bad
Keep == UNCHANGED bad
Take(r) == seen' = Append(seen, r) /\ at' = at + 1 /\ UNCHANGED id
Plain == Take([t |-> It.t, c |-> {}])
Is(t) == at <= Len(S.items) /\ It.t = t /\ bad = {}
Judge(ok, tag) == IF ok THEN Keep ELSE Complain(tag)

\* all the values of the drawing are numbers
Nan == at <= Len(S.items) /\ It.bad = 1 /\ bad = {} /\ Complain("not a number drawn") /\ Plain
\* the curve runs over the whole axis: n evenly spaced points, or (n = 0) increasing and without gaps
AxisOk == LET x == S.curve.x  n == Len(x) IN
  IF S.n > 0 THEN /\ n = S.n
                  /\ \A k \in 1..n : n > 1 => Abs(x[k] - S.lo - ((k - 1) * ((S.hi - S.lo) \div (n - 1)))) <= Tol + n
  ELSE /\ Abs(x[1] - S.lo) <= Tol /\ Abs(x[n] - S.hi) <= Tol
       /\ \A k \in 1..n - 1 : x[k] < x[k + 1] /\ x[k + 1] - x[k] <= (S.hi - S.lo) \div 8
Curve == /\ Is("curve") /\ It.bad = 0
         /\ IF Count("curve") > 0 THEN Complain("two curves")
            ELSE IF ~AxisOk \/ ~All(It.x, S.curve.x, XOk) THEN Complain("x of the curve")
            ELSE Judge(All(It.y, S.curve.y, YOk), "the curve is not the one eval returns")
         /\ Plain
Mid(lo, hi) == (lo + hi) \div 2
Band == /\ Is("band") /\ It.bad = 0
        /\ IF S.heter \notin {"std", "std_err"} \/ Count("band") > 0 THEN Complain("a band that was not requested")
           ELSE IF ~All(It.x, S.curve.x, XOk) \/ Len(It.lo) # Len(S.curve.y) THEN Complain("x of the band")
           ELSE IF \E k \in 1..Len(It.lo) : ~YOk(Mid(It.lo[k], It.hi[k]), S.curve.y[k]) THEN Complain("the band is not around the curve")
           ELSE Judge(\A k \in 1..Len(It.lo) : LET h == (It.hi[k] - It.lo[k]) \div 2 IN
                        IF S.heter = "std" THEN SpreadOk(h, Abs(S.curve.sd[k])) ELSE ErrOk(h, Abs(S.curve.sd[k])), "height of the band")
        /\ Plain
\* an ICE line: the columns of the ICE matrix it may be
Close(ys, c) == All(ys, S.ice[c], YOk)
Ice == /\ Is("ice") /\ It.bad = 0
       /\ LET C == IF S.heter = "ice" THEN {c \in 1..Len(S.ice) : Close(It.y, c)} ELSE {} IN
          /\ IF S.heter # "ice" THEN Complain("ICE lines that were not requested")
             ELSE IF ~All(It.x, S.curve.x, XOk) THEN Complain("x of an ICE line")
             ELSE Judge(C # {}, "an ICE line is no column of the ICE matrix")
          /\ Take([t |-> IF It.label = 1 THEN "icelabel" ELSE "ice", c |-> C])
\* an instance in the scatter plot
Point == /\ Is("point") /\ It.bad = 0
         /\ LET C == IF S.heter = "shap_values" THEN {c \in 1..Len(S.points) : XOk(It.x, S.points[c][1]) /\ YOk(It.y, S.points[c][2])} ELSE {} IN
            /\ IF S.heter # "shap_values" THEN Complain("points that were not requested")
               ELSE Judge(C # {}, "a point is no instance with its SHAP value")
            /\ Take([t |-> IF It.label = 1 THEN "pointlabel" ELSE "point", c |-> C])
Avg == /\ Is("avg") /\ It.bad = 0
       /\ IF Len(S.avg) = 0 \/ Count("avg") > 0 THEN Complain("an average line that was not requested")
          ELSE Judge(Affine(It.y, S.avg[1], S.sy), "height of the average line")
       /\ Plain
Bar == /\ Is("bar") /\ It.bad = 0
       /\ LET k == Count("bar") + 1 IN
          IF k > Len(S.bins) THEN Complain("too many bars")
          ELSE IF ~XOk(It.l, S.bins[k].l) \/ ~XOk(It.r, S.bins[k].r) THEN Complain("limits of a bar")
          ELSE Judge(Slope(It.h, S.bins[k].e), "height of a bar")
       /\ Plain
Err == /\ Is("err") /\ It.bad = 0
       /\ LET k == Count("err") + 1 IN
          IF S.heter = "none" \/ k > Len(S.bins) THEN Complain("error bars that were not requested")
          ELSE IF Abs(2 * It.x - S.barx[k]) > 2 * Tol + 2 THEN Complain("place of an error bar")
          ELSE IF ~Slope(Mid(It.lo, It.hi), S.bins[k].e) THEN Complain("an error bar is not around the effect of its bin")
          ELSE Judge(Slope((It.hi - It.lo) \div 2, S.bins[k].s), "length of an error bar")
       /\ Plain
Text == /\ Is("text") /\ It.bad = 0
        /\ Judge(\E k \in 1..Len(S.texts) : S.texts[k] = <<It.what, It.s>>, "text: " \o It.what)
        /\ Plain
Limit == /\ Is("limit") /\ It.bad = 0
         /\ LET w == IF It.what = "y" THEN S.ylim ELSE S.dylim IN
            Judge(Len(w) = 0 \/ (Abs(w[1] - It.lo) <= Tol /\ Abs(w[2] - It.hi) <= Tol), "limits of the " \o It.what \o " axis")
         /\ Plain
Other == Is("other") /\ It.bad = 0 /\ Complain("something that was not requested") /\ Plain

\* nothing is missing; lines and points are distinct columns / instances
Twins(c, P(_, _), n) == Cardinality({d \in 1..n : P(c, d)})
SameCol(c, d) == \A j \in 1..Len(S.ice[c]) : Abs(S.ice[c][j] - S.ice[d][j]) <= 4 * Tol
SamePoint(c, d) == Abs(S.points[c][1] - S.points[d][1]) <= 4 * Tol /\ Abs(S.points[c][2] - S.points[d][2]) <= 4 * Tol
Distinct(T, n, P(_, _)) == LET Z == SelectSeq(seen, LAMBDA q : q.t \in T) IN
  \A c \in 1..n : Cardinality({i \in 1..Len(Z) : c \in Z[i].c}) <= Twins(c, P, n)
\* the artist that carries the label is one of the artists or repeats one of them
Number(t, label) == Count(t) = S.shown \/ (Count(label) > 0 /\ Count(t) + Count(label) = S.shown)
Once(t, label, n, P(_, _)) == IF Count(t) = S.shown THEN Distinct({t}, n, P) ELSE Distinct({t, label}, n, P)
Missing ==
  CASE Count("curve") # 1 -> "no curve"
    [] S.heter \in {"std", "std_err"} /\ S.method # "acc" /\ Count("band") # 1 -> "no band"
    [] S.method # "acc" /\ S.heter = "ice" /\ ~Number("ice", "icelabel") -> "number of ICE lines"
    [] S.method # "acc" /\ S.heter = "ice" /\ ~Once("ice", "icelabel", Len(S.ice), SameCol) -> "an ICE curve twice"
    [] S.method = "shap" /\ S.heter = "shap_values" /\ ~Number("point", "pointlabel") -> "number of points"
    [] S.method = "shap" /\ S.heter = "shap_values" /\ ~Once("point", "pointlabel", Len(S.points), SamePoint) -> "an instance twice"
    [] Len(S.avg) # Count("avg") -> "no average line"
    [] S.method = "acc" /\ Count("bar") # Len(S.bins) -> "number of bars"
    [] S.method = "acc" /\ Count("err") # (IF S.heter = "none" THEN 0 ELSE Len(S.bins)) -> "number of error bars"
    [] OTHER -> "nothing"
End == /\ at = Len(S.items) + 1 /\ bad = {}
       /\ IF Missing = "nothing" THEN Keep ELSE Complain(Missing)
       /\ at' = at + 1 /\ UNCHANGED <<id, seen>>

Init == id \in 1..Len(Scen) /\ at = 1 /\ seen = <<>> /\ bad = {}
Next == Nan \/ Curve \/ Band \/ Ice \/ Point \/ Avg \/ Bar \/ Err \/ Text \/ Limit \/ Other \/ End
Spec == Init /\ [][Next]_vars

Finished == bad # {} \/ at = Len(S.items) + 2
Verdict == Finished => PrintT("@@" \o ToJson([id |-> id, bad |-> bad, at |-> at]))
\* the monitor looks at every artist
Looked == Len(seen) <= Len(S.items) /\ (at = Len(S.items) + 2 => Len(seen) = Len(S.items))
=============================================================================
