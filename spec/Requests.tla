------------------------------ MODULE Requests ------------------------------
(* What a request means, whatever way it is written.                           *)
(*                                                                             *)
(* Sig(class, method) is the interface of the package: the parameters of every *)
(* call in their order, what leaving one out means (its default) and the kind  *)
(* of its values.  Canon says which written values mean the same (True and     *)
(* 'zero_integral', 'all' and the number of instances, a feature and the list  *)
(* of this feature, the name of a binning method and the method with its       *)
(* documented parameters, ...).  Meaning(w) is the meaning of a written call: *)
(* every parameter with its canonical value.                                   *)
(*                                                                             *)
(* A run writes a program (calls on one object) in two ways, a and b, one      *)
(* parameter at a time: left out, by position or by keyword, in one of the     *)
(* forms of the value.  The invariants say that both ways and the canonical    *)
(* way (all parameters by keyword, one call per feature) mean the same.  The   *)
(* programs are emitted; the code has to answer the three of them alike.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Worlds == JsonDeserialize(IOEnv.SCEN)

----------------------------------------------------------------------------
\* values
Num(n) == [t |-> "n", n |-> n]
Str(s) == [t |-> "s", s |-> s]
Yes == [t |-> "b", b |-> TRUE]
No == [t |-> "b", b |-> FALSE]
Real(s) == [t |-> "f", s |-> s]
Nil == [t |-> "none"]
Ext(s) == [t |-> "x", s |-> s]            \* a thing the driver has: data, model, limits, ...
List(l) == [t |-> "l", l |-> l]
Bin(o, pos, kw) == [t |-> "o", o |-> o, pos |-> pos, kw |-> kw]
Required == [t |-> "req"]

P(n, d, k) == [n |-> n, d |-> d, k |-> k]
Arg(n, v) == [n |-> n, v |-> v]

----------------------------------------------------------------------------
\* the interface
Head2 == <<P("data", Required, "plain"), P("model", Required, "plain")>>
Jac == <<P("model_jac", Nil, "jac")>>
Names == <<P("feature_names", Nil, "auto"), P("target_name", Nil, "auto")>>
Limits == <<P("axis_limits", Nil, "auto")>>
Avg == <<P("avg_output", Nil, "auto")>>
Nof(d) == <<P("nof_instances", d, "nof")>>
Types == <<P("feature_types", Nil, "auto"), P("cat_limit", Num(10), "plain")>>
New(c) ==
  CASE c = "PDP" -> Head2 \o Limits \o Nof(Num(300)) \o Avg \o Names
    [] c = "DerPDP" -> Head2 \o Jac \o Limits \o Nof(Num(300)) \o Avg \o Names
    [] c = "ALE" -> Head2 \o Nof(Str("all")) \o Limits \o Avg \o Names
    [] c = "RHALE" -> Head2 \o Jac \o Nof(Str("all")) \o Limits \o <<P("data_effect", Nil, "effects")>> \o Avg \o Names
    [] c = "ShapDP" -> Head2 \o Limits \o Nof(Num(100)) \o Avg \o Names
    [] c = "RegionalPDP" -> Head2 \o Nof(Num(1000)) \o Limits \o Types \o Names
    [] c = "RegionalDerPDP" -> Head2 \o Jac \o Nof(Num(1000)) \o Limits \o Types \o Names
    [] c = "RegionalALE" -> Head2 \o Nof(Str("all")) \o Limits \o Types \o Names
    [] c = "RegionalRHALE" -> Head2 \o Jac \o <<P("instance_effects", Nil, "effects")>> \o Nof(Str("all")) \o Limits \o Types \o Names
    [] c = "RegionalShapDP" -> Head2 \o Limits \o Nof(Num(100)) \o Types \o Names
    [] c = "HIndex" -> Head2 \o Nof(Num(1000))
    [] c = "REPID" -> Head2 \o <<P("model_jac", Required, "plain"), P("nof_instances", Required, "nof")>>

BinSig(o) ==
  CASE o = "Fixed" -> <<P("nof_bins", Num(100), "plain"), P("min_points_per_bin", Num(10), "plain"), P("cat_limit", Num(15), "plain")>>
    [] o = "Greedy" -> <<P("init_nof_bins", Num(100), "plain"), P("min_points_per_bin", Num(10), "plain"), P("discount", Real("0.3"), "plain"), P("cat_limit", Num(15), "plain")>>
    [] o = "DynamicProgramming" -> <<P("max_nof_bins", Num(20), "plain"), P("min_points_per_bin", Num(10), "plain"), P("discount", Real("0.3"), "plain"), P("cat_limit", Num(15), "plain")>>

Regionals == {"RegionalPDP", "RegionalDerPDP", "RegionalALE", "RegionalRHALE", "RegionalShapDP"}
Pdps == {"PDP", "DerPDP"}
Feats(d) == <<P("features", d, "features")>>
All == Str("all")
Vec == <<P("use_vectorized", Yes, "how")>>
Center(d) == <<P("centering", d, "centering")>>
Points == <<P("points_for_centering", Num(100), "plain")>>
Search == <<P("heter_pcg_drop_thres", Real("0.1"), "plain"), P("heter_small_enough", Real("0.1"), "plain"), P("max_depth", Num(1), "plain"),
            P("nof_candidate_splits_for_numerical", Num(20), "plain"), P("min_points_per_subregion", Num(10), "plain"),
            P("candidate_conditioning_features", All, "foc"), P("split_categorical_features", No, "plain")>>
DefaultBins == Bin("Fixed", <<>>, <<Arg("nof_bins", Num(20)), Arg("min_points_per_bin", Num(0)), Arg("cat_limit", Num(15))>>)
Fit(c) ==
  CASE c \in Pdps -> Feats(All) \o Center(Yes) \o Points \o Vec
    [] c = "ALE" -> Feats(All) \o <<P("binning_method", Str("fixed"), "bins")>> \o Center(Str("zero_integral"))
    [] c = "RHALE" -> Feats(All) \o <<P("binning_method", Str("greedy"), "bins")>> \o Center(No)
    [] c = "ShapDP" -> Feats(All) \o Center(No) \o Points
    [] c \in {"RegionalPDP", "RegionalDerPDP"} -> Feats(All) \o Search \o Center(No) \o Nof(All) \o Points \o Vec
    [] c = "RegionalALE" -> Feats(Required) \o Search \o <<P("binning_method", DefaultBins, "bins")>> \o Center(No)
    [] c = "RegionalRHALE" -> Feats(All) \o Search \o <<P("binning_method", Str("greedy"), "bins")>> \o Center(No)
    [] c = "RegionalShapDP" -> Feats(Required) \o Search \o Center(No) \o Points
    [] c = "HIndex" -> <<P("pairwise_matrix", Yes, "plain"), P("one_vs_all", Yes, "plain")>>
    [] c = "REPID" -> Feats(All)
Feature == <<P("feature", Required, "plain")>>
Node == Feature \o <<P("node_idx", Required, "plain")>>
Eval(c) ==
  CASE c \in Pdps -> Feature \o <<P("xs", Required, "plain"), P("heterogeneity", No, "plain")>> \o Center(No) \o <<P("return_all", No, "plain")>> \o Vec
    [] c \in {"ALE", "RHALE", "ShapDP"} -> Feature \o <<P("xs", Required, "plain"), P("heterogeneity", No, "plain")>> \o Center(No)
    [] c \in Regionals -> Node \o <<P("xs", Required, "plain"), P("heterogeneity", No, "plain")>> \o Center(No)
Heter == <<P("heterogeneity", No, "heter")>>
Scales == <<P("scale_x", Nil, "auto"), P("scale_y", Nil, "auto")>>
RScales == <<P("scale_x_list", Nil, "plain"), P("scale_y", Nil, "auto")>>
ShowAvg == <<P("show_avg_output", No, "plain")>>
YLim == <<P("y_limits", Nil, "plain")>>
DLim == <<P("dy_limits", Nil, "plain")>>
Plot(c) ==
  CASE c \in Pdps -> Feature \o Heter \o Center(No) \o <<P("nof_points", Num(30), "plain")>> \o Scales \o <<P("nof_ice", All, "nof")>> \o ShowAvg \o YLim \o Vec
    [] c \in {"ALE", "RHALE"} -> Feature \o Heter \o Center(No) \o Scales \o ShowAvg \o YLim \o DLim
    [] c = "ShapDP" -> Feature \o Heter \o Center(No) \o <<P("nof_points", Num(30), "plain")>> \o Scales \o <<P("nof_shap_values", All, "nof")>> \o ShowAvg \o YLim
    [] c \in {"RegionalPDP", "RegionalDerPDP", "RegionalShapDP"} -> Node \o Heter \o Center(No) \o RScales \o YLim
    [] c \in {"RegionalALE", "RegionalRHALE"} -> Node \o Heter \o Center(No) \o RScales \o YLim \o DLim
    [] c = "HIndex" -> <<P("interaction_matrix", Yes, "plain"), P("one_vs_all", Yes, "plain")>>
    [] c = "REPID" -> <<>>
Report == <<P("features", Required, "features"), P("only_important", Yes, "plain"), P("scale_x_list", Nil, "plain")>>
Sig(c, m) ==
  CASE m = "new" -> New(c)
    [] m = "fit" -> Fit(c)
    [] m = "eval" -> Eval(c)
    [] m = "plot" -> Plot(c)
    [] m \in {"show_partitioning", "describe_subregions"} -> Report
    [] m = "eval_pairwise" -> <<P("feat_1", Required, "plain"), P("feat_2", Required, "plain")>>
    [] m = "eval_one_vs_all" -> <<P("feat", Required, "plain")>>

----------------------------------------------------------------------------
\* binding the written arguments to the parameters
Has(kw, n) == \E i \in DOMAIN kw : kw[i].n = n
Kw(kw, n) == kw[CHOOSE i \in DOMAIN kw : kw[i].n = n].v
Bound(sig, w) == [i \in DOMAIN sig |->
  IF i <= Len(w.pos) THEN w.pos[i] ELSE IF Has(w.kw, sig[i].n) THEN Kw(w.kw, sig[i].n) ELSE sig[i].d]

\* a binning method: its parameters in full
FullBin(o, pos, kw) ==
  LET sig == BinSig(o) b == Bound(sig, [pos |-> pos, kw |-> kw])
  IN  Bin(o, <<>>, [i \in DOMAIN sig |-> Arg(sig[i].n, b[i])])
\* by name: for a global effect without a minimum, for a regional effect with the parameters of the class
NamedBin(c, s) ==
  LET none == IF c \in Regionals THEN <<>> ELSE <<Arg("min_points_per_bin", Num(0))>>
  IN  CASE s = "greedy" -> FullBin("Greedy", <<>>, none)
        [] s = "dp" -> FullBin("DynamicProgramming", <<>>, none)
        [] s = "fixed" /\ c \in Regionals -> FullBin("Fixed", <<>>, <<>>)
        [] s = "fixed" -> FullBin("Fixed", <<>>, <<Arg("nof_bins", Num(20))>> \o none)

Features(W) == [i \in 1..W.D |-> i - 1]
\* the canonical value of parameter p written as v; W: the world
Canon(W, p, v) ==
  CASE p.k = "features" -> (IF v.t = "n" THEN List(<<v.n>>) ELSE IF v.t = "s" THEN List(Features(W)) ELSE v)
    [] p.k = "centering" -> (IF v = Yes THEN Str("zero_integral") ELSE v)
    [] p.k = "heter" -> (IF v = Yes THEN Str("std") ELSE v)
    [] p.k = "nof" -> (IF v.t = "s" THEN Num(W.N) ELSE IF v.n > W.N THEN Num(W.N) ELSE v)
    [] p.k = "auto" -> (IF v = Nil /\ W.auto = 1 THEN Ext(p.n) ELSE v)
    [] p.k = "how" -> Yes
    [] p.k = "bins" -> (IF v.t = "s" THEN NamedBin(W.cls, v.s) ELSE FullBin(v.o, v.pos, v.kw))
    [] OTHER -> v

AllBut(W, f) == SelectSeq(Features(W), LAMBDA g : g # f)
\* the candidates of the one feature fs: all others
CanonFoc(W, fs, v) == IF v.t = "l" /\ Len(fs) = 1 /\ v.l = AllBut(W, fs[1]) THEN All ELSE v
\* the meaning of a written call: canonical values in the order of the parameters.  The derivatives are the given ones or else the
\* Jacobian at the data
Meaning(W, m, w) ==
  LET sig == Sig(W.cls, m) b == Bound(sig, w)
      given == \E i \in DOMAIN sig : sig[i].k \in {"jac", "effects"} /\ b[i] # Nil
      both == \E i \in DOMAIN sig : sig[i].k = "effects"
  IN  [i \in DOMAIN sig |->
         IF both /\ given /\ sig[i].k = "jac" THEN Nil
         ELSE IF both /\ given /\ sig[i].k = "effects" THEN Ext("effects")
         ELSE IF sig[i].k = "foc" THEN CanonFoc(W, Canon(W, sig[1], b[1]).l, b[i])
         ELSE Canon(W, sig[i], b[i])]

\* the canonical way to write it: everything by keyword, one call per feature
InFull(W, m, mean) ==
  LET sig == Sig(W.cls, m)
      split == \E i \in DOMAIN sig : sig[i].k = "features"
      j == CHOOSE i \in DOMAIN sig : sig[i].k = "features"
      one(f) == [pos |-> <<>>, kw |-> [i \in DOMAIN sig |->
                    Arg(sig[i].n, IF i = j THEN List(<<f>>)
                                  ELSE IF sig[i].k = "foc" /\ mean[i] = All THEN List(AllBut(W, f))
                                  ELSE mean[i])]]
  IN  IF split THEN [q \in DOMAIN mean[j].l |-> one(mean[j].l[q])]
      ELSE <<[pos |-> <<>>, kw |-> [i \in DOMAIN sig |-> Arg(sig[i].n, mean[i])]]>>

----------------------------------------------------------------------------
\* the ways to write one value
\* all ways to write a binning method: k parameters by position, of the others those in s left out
NamesOf(c, v) == {Str(n) : n \in {n \in {"greedy", "dp", "fixed"} : NamedBin(c, n) = v}}
BinForms(c, v) ==
  LET sig == BinSig(v.o)
      val(i) == v.kw[i].v
      rest(k, s) == SelectSeq([i \in 1..Len(sig) - k |-> Arg(sig[k + i].n, val(k + i))], LAMBDA a : a.n \notin s)
      spare(k) == {sig[i].n : i \in {i \in k + 1..Len(sig) : val(i) = sig[i].d}}
  IN  UNION {{Bin(v.o, [i \in 1..k |-> val(i)], rest(k, s)) : s \in SUBSET spare(k)} : k \in 0..Len(sig)}
      \cup NamesOf(c, v)

\* m: the canonical value; sofar: the values the call gives to the parameters before
Forms(W, p, m, sofar) ==
  CASE p.k = "features" -> ({m} \cup (IF Len(m.l) = 1 THEN {Num(m.l[1])} ELSE {}) \cup (IF m.l = Features(W) THEN {All} ELSE {}))
    [] p.k = "centering" -> ({m} \cup (IF m = Str("zero_integral") THEN {Yes} ELSE {}))
    [] p.k = "heter" -> ({m} \cup (IF m = Str("std") THEN {Yes} ELSE {}))
    [] p.k = "nof" -> (IF m = Num(W.N) THEN {m, All, Num(W.N + 1), Num(10 * W.N)} ELSE {m})
    [] p.k = "auto" -> ({m} \cup (IF m = Ext(p.n) THEN {Nil} ELSE {}))
    [] p.k = "how" -> {Yes, No}
    [] p.k = "bins" -> (IF "named" \in DOMAIN W THEN {m} \cup NamesOf(W.cls, m) ELSE BinForms(W.cls, m))    \* (a world about the names)
    [] p.k = "foc" -> ({m} \cup (IF m = All /\ Len(sofar[1].l) = 1 THEN {List(AllBut(W, sofar[1].l[1]))} ELSE {}))
    [] p.k = "jac" -> {Nil, Ext("jac")}
    [] p.k = "effects" -> (IF \E i \in DOMAIN sofar : sofar[i] = Ext("jac") THEN {Nil, Ext("effects")} ELSE {Ext("effects")})
    [] OTHER -> {m}
\* derivatives must be there for a class that takes no effects
FormsOf(W, m, p, c, sofar) == IF p.k = "jac" /\ ~\E i \in DOMAIN Sig(W.cls, m) : Sig(W.cls, m)[i].k = "effects" THEN {Ext("jac")} ELSE Forms(W, p, c, sofar)

----------------------------------------------------------------------------
VARIABLES id, prog, m, want, turn, a, b, va, vb
vars == <<id, prog, m, want, turn, a, b, va, vb>>
Blank == [pos |-> <<>>, kw |-> <<>>, open |-> TRUE]
W == Worlds[id]
sig == Sig(W.cls, m)
Done == Len(prog) = Len(W.steps)

Init == /\ id \in DOMAIN Worlds
        /\ prog = <<>> /\ m = "" /\ want = <<>> /\ turn = "call"
        /\ a = Blank /\ b = Blank /\ va = <<>> /\ vb = <<>>

\* the next call of the program
Call == /\ turn = "call" /\ ~Done
        /\ \E k \in DOMAIN W.steps[Len(prog) + 1] : m' = W.steps[Len(prog) + 1][k]
        /\ want' = <<>> /\ a' = Blank /\ b' = Blank /\ va' = <<>> /\ vb' = <<>>
        /\ turn' = "value"
        /\ UNCHANGED <<id, prog>>

\* what the next parameter means (the world's menu; the default where it has none)
Menu(p) == LET key == m \o "." \o p.n IN IF key \in DOMAIN W.menu THEN W.menu[key] ELSE <<p.d>>
Value == /\ turn = "value" /\ Len(want) < Len(sig)
         /\ LET p == sig[Len(want) + 1] IN \E k \in DOMAIN Menu(p) : 
                want' = Append(want, IF p.k = "foc" THEN CanonFoc(W, want[1].l, Menu(p)[k]) ELSE Canon(W, p, Menu(p)[k]))
         /\ turn' = "a"
         /\ UNCHANGED <<id, prog, m, a, b, va, vb>>

Ways(w, vs) ==
  LET i == Len(want) p == sig[i]
      fs == FormsOf(W, m, p, want[i], IF p.k = "foc" THEN want ELSE vs)
  IN  UNION {
        (IF w.open THEN {[w |-> [w EXCEPT !.pos = Append(@, f)], v |-> f]} ELSE {})
        \cup {[w |-> [w EXCEPT !.kw = Append(@, Arg(p.n, f)), !.open = FALSE], v |-> f]}
        \cup (IF f = p.d THEN {[w |-> [w EXCEPT !.open = FALSE], v |-> f]} ELSE {}) : f \in fs}
        \cup (IF p.d # Required /\ p.k \notin {"jac", "effects"} /\ Canon(W, p, p.d) = want[i] THEN {[w |-> [w EXCEPT !.open = FALSE], v |-> p.d]} ELSE {})
WriteA == /\ turn = "a" /\ \E x \in Ways(a, va) : a' = x.w /\ va' = Append(va, x.v)
          /\ turn' = "b" /\ UNCHANGED <<id, prog, m, want, b, vb>>
WriteB == /\ turn = "b" /\ \E x \in Ways(b, vb) : b' = x.w /\ vb' = Append(vb, x.v)
          /\ turn' = "value" /\ UNCHANGED <<id, prog, m, want, a, va>>

Say == /\ turn = "value" /\ Len(want) = Len(sig)
       /\ prog' = Append(prog, [m |-> m, a |-> [pos |-> a.pos, kw |-> a.kw], b |-> [pos |-> b.pos, kw |-> b.kw],
                                c |-> InFull(W, m, Meaning(W, m, a))])
       /\ turn' = "call"
       /\ UNCHANGED <<id, m, want, a, b, va, vb>>
Next == Call \/ Value \/ WriteA \/ WriteB \/ Say
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* in what is written both ways mean the same, ...
Wanted == LET both == \E i \in DOMAIN sig : sig[i].k = "effects"
          IN  [i \in DOMAIN sig |-> IF both /\ sig[i].k = "jac" THEN Nil ELSE IF both /\ sig[i].k = "effects" THEN Ext("effects")
                                    ELSE IF sig[i].k = "jac" THEN Ext("jac") ELSE want[i]]
Same == (turn = "value" /\ Len(want) = Len(sig)) => Meaning(W, m, a) = Wanted /\ Meaning(W, m, b) = Wanted
\* ... the canonical way means itself and nothing is left to a default, ...
Last == prog[Len(prog)]
Full == (turn = "call" /\ prog # <<>>) =>
          \A q \in DOMAIN Last.c :
             /\ Len(Last.c[q].kw) = Len(sig)
             /\ \A i \in DOMAIN sig : LET x == Last.c[q].kw[i].v IN x # Required /\ (sig[i].k = "features" \/ Canon(W, sig[i], x) = x)
             /\ InFull(W, m, Meaning(W, m, Last.c[q])) = <<Last.c[q]>>
\* ... and the calls for the single features cover the features asked for, in their order
Cover == (turn = "call" /\ prog # <<>> /\ Len(sig) > 0 /\ sig[1].k = "features") =>
           List([q \in DOMAIN Last.c |-> Last.c[q].kw[1].v.l[1]]) = Canon(W, sig[1], Bound(sig, Last.a)[1])
\* written by position: never after a gap
Emitted == (turn = "call" /\ Done) => PrintT("@@" \o ToJson([id |-> id, prog |-> prog]))
=============================================================================
