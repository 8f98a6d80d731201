------------------------------ MODULE Symmetry ------------------------------
(* The same problem written down differently.  The state is a way of writing a *)
(* problem (instances, features and output) down; every action rewrites it:    *)
(* the rows in another order or every row several times, the columns in        *)
(* another order, a column the model does not look at, another unit or origin  *)
(* of a feature, another unit or origin of the output.  The specification says *)
(* how the instances, the questions and every answer carry over.               *)
(*                                                                             *)
(* Small worlds (free = 1): all sequences of rewritings up to s.depth; on each *)
(* the definitions of the effects are evaluated exactly, before and after, and *)
(* must carry over as Weight says.  Chains (free = 0): the given rewritings in *)
(* the given order; the result is emitted for the conformance driver.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils, Rationals, BlackBox, Bins

Scen == JsonDeserialize(IOEnv.SCEN)
VARIABLES id, step, T
vars == <<id, step, T>>
Emit(r) == PrintT("@@" \o ToJson(r))

N(s) == Len(s.X)
D(s) == Len(s.X[1])
\* rows: the base row of every row; cols: the base feature of every column (0: none, the model does not look at it);
\* a base value x of column q is written 2^ue[q] * (x + sh[q]), a base output y is written 2^oe * (y + oc)
Plain(s) == [rows |-> [i \in 1..N(s) |-> i], cols |-> [d \in 1..D(s) |-> d],
             ue |-> [d \in 1..D(s) |-> 0], sh |-> [d \in 1..D(s) |-> 0], oe |-> 0, oc |-> 0]
InsertAt1(q, k, v) == SubSeq(q, 1, k - 1) \o <<v>> \o SubSeq(q, k, Len(q))

\* a rewriting g is <<kind, a, b>>; its arguments speak about the problem as it is written at that moment
Reorder(q, p) == [i \in 1..Len(q) |-> q[p[i]]]
Rewrite(t, g) ==
  CASE g.k = "rows"   -> [t EXCEPT !.rows = Reorder(@, g.p)]
    [] g.k = "repeat" -> [t EXCEPT !.rows = IF g.a = 1 THEN @ \o @ ELSE [i \in 1..2*Len(@) |-> @[(i + 1) \div 2]]]
    [] g.k = "cols"   -> [t EXCEPT !.cols = Reorder(@, g.p), !.ue = Reorder(@, g.p), !.sh = Reorder(@, g.p)]
    [] g.k = "dummy"  -> [t EXCEPT !.cols = InsertAt1(@, g.a, 0), !.ue = InsertAt1(@, g.a, 0), !.sh = InsertAt1(@, g.a, 0)]
    [] g.k = "unit"   -> [t EXCEPT !.ue[g.a] = @ + g.b]
    [] g.k = "origin" -> [t EXCEPT !.sh[g.a] = @ + g.b]
    [] g.k = "outunit" -> [t EXCEPT !.oe = @ + g.b]
    [] g.k = "outorigin" -> [t EXCEPT !.oc = @ + g.b]
Applies(t, g) == CASE g.k = "rows" -> Len(g.p) = Len(t.rows)
                   [] g.k = "cols" -> Len(g.p) = Len(t.cols)
                   [] g.k \in {"unit", "origin"} -> g.a <= Len(t.cols) /\ t.cols[g.a] # 0
                   [] g.k = "dummy" -> g.a <= Len(t.cols) + 1
                   [] OTHER -> TRUE
\* where a base feature stands, and how often every instance is there
Column(t, d) == CHOOSE q \in 1..Len(t.cols) : t.cols[q] = d
Copies(s, t) == Len(t.rows) \div N(s)

Init == id \in 1..Len(Scen) /\ step = 0 /\ T = Plain(Scen[id])
Use(g) == T' = (IF Applies(T, g) THEN Rewrite(T, g) ELSE T) /\ step' = step + 1 /\ UNCHANGED id
Chain == Scen[id].free = 0 /\ step < Len(Scen[id].gens) /\ Use(Scen[id].gens[step + 1])
Free == Scen[id].free = 1 /\ step < Scen[id].depth /\ 
        \E j \in 1..Len(Scen[id].gens) : /\ Applies(T, Scen[id].gens[j])
                                         /\ Scen[id].gens[j].k = "repeat" => Copies(Scen[id], T) = 1
                                         /\ Use(Scen[id].gens[j])
Next == Chain \/ Free
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
\* the base values of a written row, and a base value as it is written
Sane(s, t) ==
  /\ Len(t.ue) = Len(t.cols) /\ Len(t.sh) = Len(t.cols)
  /\ \A d \in 1..D(s) : Cardinality({q \in 1..Len(t.cols) : t.cols[q] = d}) = 1
  /\ \A i \in 1..N(s) : Cardinality({j \in 1..Len(t.rows) : t.rows[j] = i}) = Copies(s, t)
  /\ \A q \in 1..Len(t.cols) : t.cols[q] = 0 => t.ue[q] = 0 /\ t.sh[q] = 0

\* How answers carry over: written = 2^w * (base + c).  f: a base feature
Weight(t, f, quantity) ==
  LET u == t.ue[Column(t, f)] IN
  CASE quantity \in {"output", "ice"}                   -> [w |-> t.oe, c |-> t.oc]
    [] quantity \in {"centered", "spread", "accumulated", "shap", "repid", "heterogeneity"} -> [w |-> t.oe, c |-> 0]
    [] quantity \in {"derivative", "slope"}             -> [w |-> t.oe - u, c |-> 0]
    [] quantity = "point"                               -> [w |-> u, c |-> t.sh[Column(t, f)]]
    [] quantity \in {"hindex", "share", "count"}        -> [w |-> 0, c |-> 0]
Quantities == {"output", "centered", "spread", "accumulated", "shap", "repid", "derivative", "slope", "point", "hindex"}

------------------------- (* small worlds, exactly *) ---------------------------
\* the units of small worlds are whole (exponents 0, 1, ...)
P2(e) == Pow(2, e)
Written(t, q, x) == P2(t.ue[q]) * (x + t.sh[q])
\* a column the model does not look at holds something unrelated
WrittenX(s, t) == [i \in 1..Len(t.rows) |-> [q \in 1..Len(t.cols) |->
                     IF t.cols[q] = 0 THEN (7 * i) % 5 ELSE Written(t, q, s.X[t.rows[i]][t.cols[q]])]]
Back(s, t, u) == [d \in 1..D(s) |-> LET q == Column(t, d) IN (u[q] \div P2(t.ue[q])) - t.sh[q]]
WrittenF(s, t, u) == P2(t.oe) * (F(s.model, Back(s, t, u)) + t.oc)

\* the definitions, for any black box G: sums over the instances (denominators are counts and widths)
Sum(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
SumPd(G(_), X, f, v) == FoldLeft(LAMBDA a, u : a + G(With(u, f, v)), 0, X)
SpreadPd(G(_), X, f, v) == LET r == TLCEval([i \in 1..Len(X) |-> G(With(X[i], f, v))])    \* n^2 times the variance
                           IN  Len(X) * Sum([i \in 1..Len(X) |-> r[i] * r[i]]) - Sum(r) * Sum(r)
SumAle(G(_), X, f, lim, k) == LET m == Members(X, f, lim, k) IN Sum([j \in 1..Len(m) |-> G(With(X[m[j]], f, lim[k+1])) - G(With(X[m[j]], f, lim[k]))])
\* n^2 times the centered partial dependence over two features at an instance, and the parts of the H-index
Pd2(G(_), X, f, g, v) == FoldLeft(LAMBDA a, u : a + G(With(With(u, f, v[f]), g, v[g])), 0, X)
Center(r) == LET t == Sum(r) IN [i \in 1..Len(r) |-> Len(r) * r[i] - t]
HParts(G(_), X, f, g) ==
  LET a == TLCEval(Center([i \in 1..Len(X) |-> Pd2(G, X, f, g, X[i])]))
      b == TLCEval(Center([i \in 1..Len(X) |-> SumPd(G, X, f, X[i][f])]))
      c == TLCEval(Center([i \in 1..Len(X) |-> SumPd(G, X, g, X[i][g])]))
  IN  <<Sum([i \in 1..Len(X) |-> (a[i] - b[i] - c[i]) * (a[i] - b[i] - c[i])]), Sum([i \in 1..Len(X) |-> a[i] * a[i]])>>
\* D! n times the Shapley value, without expanding permutations: the average over all orders of the features
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
Worth(G(_), X, u, C) == FoldLeft(LAMBDA a, v : a + G([d \in 1..Len(u) |-> IF d \in C THEN u[d] ELSE v[d]]), 0, X)
Shapley(G(_), X, u, f) ==
  LET W == TLCEval([C \in SUBSET (1..Len(u)) |-> Worth(G, X, u, C)])
  IN  MapThenSumSet(LAMBDA C : Fact(Cardinality(C)) * Fact(Len(u) - 1 - Cardinality(C)) * (W[C \cup {f}] - W[C]), SUBSET ((1..Len(u)) \ {f}))
\* the instances on the left of the k-th of n cell centres
LeftOf(X, f, k, n) == LET v == Values(X, f)
                          lo == CHOOSE a \in v : \A b \in v : a <= b
                          hi == CHOOSE a \in v : \A b \in v : b <= a
                      IN  {i \in 1..Len(X) : 2 * n * (X[i][f] - lo) <= (2 * k - 1) * (hi - lo)}

CarriesOver(s, t) ==
  LET Y == TLCEval(WrittenX(s, t))
      G(u) == F(s.model, u)
      H(u) == WrittenF(s, t, u)
      c == Copies(s, t)
      n == N(s)
      o == P2(t.oe)
      lim == s.limits
  IN  /\ \A i \in 1..Len(Y) : Back(s, t, Y[i]) = s.X[t.rows[i]] /\ H(Y[i]) = o * (G(s.X[t.rows[i]]) + t.oc)
      /\ \A f \in 1..D(s) :
           LET q == Column(t, f)
               wl == [k \in 1..Len(lim) |-> Written(t, q, lim[k])]
           IN  /\ \A v \in 0..3 :
                    /\ SumPd(H, Y, q, Written(t, q, v)) = o * c * (SumPd(G, s.X, f, v) + n * t.oc)                   \* output
                    /\ SpreadPd(H, Y, q, Written(t, q, v)) = o * o * c * c * SpreadPd(G, s.X, f, v)                  \* spread
                    /\ SumPd(H, Y, q, Written(t, q, v)) - SumPd(H, Y, q, Written(t, q, 0))
                         = o * c * (SumPd(G, s.X, f, v) - SumPd(G, s.X, f, 0))                                       \* centered
               /\ \A k \in 1..Len(lim)-1 :
                    /\ {t.rows[i] : i \in ToSet(Members(Y, q, wl, k))} = ToSet(Members(s.X, f, lim, k))
                    /\ SumAle(H, Y, q, wl, k) = o * c * SumAle(G, s.X, f, lim, k)                                    \* accumulated
                    /\ Part(wl, k, Written(t, q, 2)) = P2(t.ue[q]) * Part(lim, k, 2)
               /\ \A k \in 1..2 : {t.rows[i] : i \in LeftOf(Y, q, k, 2)} = LeftOf(s.X, f, k, 2)                      \* regions
               /\ Shapley(H, Y, Y[1], q) * Fact(D(s)) = o * c * Shapley(G, s.X, s.X[t.rows[1]], f) * Fact(Len(t.cols))   \* shap
               /\ \A g \in 1..D(s) : g # f =>
                    LET a == HParts(H, Y, q, Column(t, g))
                        b == HParts(G, s.X, f, g)
                        m == o * o * c * c * c * c * c
                    IN  a[1] = m * b[1] /\ a[2] = m * b[2]                                                           \* hindex

Carried == /\ Assert(Sane(Scen[id], T), <<"rewriting", id>>)
           /\ Scen[id].free = 1 => Assert(CarriesOver(Scen[id], T), <<"carries over", id, T>>)
           /\ Scen[id].free = 0 /\ step = Len(Scen[id].gens) =>
                Emit([id |-> id, T |-> T, copies |-> Copies(Scen[id], T), col |-> [d \in 1..D(Scen[id]) |-> Column(T, d)],
                      weight |-> [d \in 1..D(Scen[id]) |-> [q \in Quantities |-> Weight(T, d, q)]]])
=============================================================================
