------------------------------ MODULE Session ------------------------------
(* Histories of calls on one effect object (global or regional).               *)
(*                                                                             *)
(* cfg[f] is what the results of feature f depend on: the configuration (bins, *)
(* centering points, search parameters) given to the last successful fit of f, *)
(* 0 (the defaults) if there was none.  Nothing else a caller does is visible. *)
(* Next to it runs the lazy implementation (args: what is stored per feature,  *)
(* fitted: whether there is something stored, comp: what the stored result was *)
(* computed with) which refits on demand; the invariant Agree says that no     *)
(* observation can tell the two apart.                                         *)
(*                                                                             *)
(* The behaviours, with the expected configuration of every observation, are   *)
(* emitted and replayed on the code.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Setup == JsonDeserialize(IOEnv.SCEN)
Features == 1..Setup.D
Cfgs == 0..Setup.C                  \* 0: fit called without a configuration
Cens == 0..2                        \* none, zero_start, zero_integral
Possible(f, c) == Setup.possible[f][c + 1] = 1
Answers(f, c) == Possible(f, c) /\ Setup.answers[f][c + 1] = 1   \* a fit may end without anything to show
MaxLen == Setup.len
Ops == {Setup.ops[k] : k \in 1..Len(Setup.ops)}      \* kinds of calls of this run
\* 0: the design; broken designs, which the invariants must reject: 1 a refit uses the defaults, 2 a refit keeps the
\* result of the old centering, 3 the arguments of a failed fit are stored
Mutant == Setup.mutant

VARIABLES cfg, args, comp, hist
vars == <<cfg, args, comp, hist>>

None == [fitted |-> FALSE, c |-> 0, cen |-> 0]
Init == /\ cfg = [f \in Features |-> 0]
        /\ args = [f \in Features |-> None]
        /\ comp = [f \in Features |-> [c |-> 0, cen |-> 0]]
        /\ hist = <<>>

Say(o) == hist' = Append(hist, o)
More == Len(hist) < MaxLen

\* one feature of a fit; a successful fit replaces everything stored for the feature
FitOne(st, f, c, cen) ==
  [st EXCEPT !.cfg[f] = c,
             !.args[f] = [fitted |-> TRUE, c |-> c, cen |-> cen],
             !.comp[f] = [c |-> c, cen |-> cen]]
RECURSIVE FitAll(_, _, _, _)
FitAll(st, fs, c, cen) ==
  IF fs = <<>> THEN st
  ELSE IF ~Possible(Head(fs), c)
       THEN [st EXCEPT !.failed = TRUE, !.args[Head(fs)] = IF Mutant = 3 THEN [fitted |-> TRUE, c |-> c, cen |-> cen] ELSE @]
       ELSE FitAll(FitOne(st, Head(fs), c, cen), Tail(fs), c, cen)

FeatureLists == {<<f>> : f \in Features}
                \cup {<<p[1], p[2]>> : p \in {q \in Features \X Features : q[1] # q[2]}}
Fit(fs, c, cen) ==
  LET st == FitAll([cfg |-> cfg, args |-> args, comp |-> comp, failed |-> FALSE], fs, c, cen)
  IN  /\ cfg' = st.cfg /\ args' = st.args /\ comp' = st.comp
      /\ Say([op |-> "fit", fs |-> fs, c |-> c, cen |-> cen, refused |-> st.failed, want |-> cfg'])

\* the lazy implementation: refit when nothing is stored or another centering is asked for
Refit(f, cen) ==
  LET again == ~args[f].fitted \/ (cen # 0 /\ args[f].cen # cen)
      c == IF Mutant = 1 THEN 0 ELSE IF args[f].fitted THEN args[f].c ELSE 0
  IN  IF again /\ Possible(f, c)
      THEN /\ args' = [args EXCEPT ![f] = [fitted |-> TRUE, c |-> c, cen |-> cen]]
           /\ comp' = IF Mutant = 2 /\ comp[f].c # 0 THEN comp
                      ELSE [comp EXCEPT ![f] = [c |-> c, cen |-> cen]]
      ELSE UNCHANGED <<args, comp>>
Observe(op, f, cen) ==
  /\ Refit(f, cen)
  /\ UNCHANGED cfg
  /\ Say([op |-> op, f |-> f, cen |-> cen, refused |-> ~Answers(f, cfg[f]), want |-> cfg])
Report(f) == /\ Refit(f, 0) /\ UNCHANGED cfg
             /\ Say([op |-> "report", f |-> f, refused |-> ~Possible(f, cfg[f]), want |-> cfg])
\* a request outside the documented domain
Bad(k, f) == /\ UNCHANGED <<cfg, args, comp>>
             /\ Say([op |-> "bad", k |-> k, f |-> f, refused |-> TRUE, want |-> cfg])

\* (a simulation evaluates the invariants on all successors: only the chosen behaviour is emitted)
End == Len(hist) = MaxLen /\ Say([op |-> "end", refused |-> FALSE, want |-> cfg]) /\ UNCHANGED <<cfg, args, comp>>
Next == \/ End
        \/ /\ More
           /\ \/ "fit" \in Ops /\ \E fs \in FeatureLists, c \in Cfgs, cen \in Cens : Fit(fs, c, cen)
              \/ "eval" \in Ops /\ \E f \in Features, cen \in Cens : Observe("eval", f, cen)
              \/ "plot" \in Ops /\ \E f \in Features, cen \in Cens : Observe("plot", f, cen)
              \/ "report" \in Ops /\ \E f \in Features : Report(f)
              \/ "bad" \in Ops /\ \E f \in Features, k \in 1..Setup.bad : Bad(k, f)
Spec == Init /\ [][Next]_vars

\* what an observation of feature f with centering cen would be computed from by the implementation
Shown(f, cen) == IF ~args[f].fitted THEN (IF Possible(f, 0) THEN 0 ELSE -1)
                 ELSE IF cen # 0 /\ args[f].cen # cen THEN (IF Mutant = 1 THEN 0 ELSE args[f].c)
                 ELSE comp[f].c
Agree == \A f \in Features, cen \in Cens :
            Shown(f, cen) = IF Possible(f, cfg[f]) THEN cfg[f] ELSE -1
\* what is stored was stored by a successful fit, and the stored result belongs to the stored arguments
Consistent == \A f \in Features : args[f].fitted => /\ comp[f].c = args[f].c /\ comp[f].cen = args[f].cen
                                                    /\ Possible(f, args[f].c)
\* a refused call changes nothing a caller can see, except that the features a fit had finished keep their new fit
RefusalsHarmless == hist # <<>> =>
   LET h == hist[Len(hist)]
       before == IF Len(hist) = 1 THEN [f \in Features |-> 0] ELSE hist[Len(hist) - 1].want
   IN  h.refused => \A f \in Features :
          h.want[f] # before[f] => h.op = "fit" /\ Len(h.fs) > 1 /\ h.fs[1] = f /\ Possible(f, h.c)
Emitted == Len(hist) = MaxLen + 1 => PrintT("@@" \o ToJson([id |-> 1, h |-> SubSeq(hist, 1, MaxLen)]))
=============================================================================
