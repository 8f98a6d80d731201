----------------------------- MODULE Independent -----------------------------
(* Several objects in one process.  What a caller sees of an object is decided  *)
(* by the calls on this object alone; every plot makes one more figure and      *)
(* leaves the others; nothing else of the process changes, except that drawing  *)
(* at random moves the stream of random numbers.                                *)
(*                                                                              *)
(* kind "design": the views (what every object must answer) next to an          *)
(* implementation with one store for all the fits, the open figures, the random *)
(* stream and the settings of the process.  All interleavings up to a length    *)
(* are explored; they are emitted and replayed on the code.  The broken designs *)
(* must be rejected by the invariants: 1 fits are stored per class, 2 a plot    *)
(* draws into the open figure, 3 an eval restarts the random stream, 4 a        *)
(* constructor clears what was stored, 5 a plot leaves a setting changed, 6 a   *)
(* plot closes the figures that are open.                                       *)
(* kind "trace": a recorded interleaving on the code; every answer must be the  *)
(* one the object gives to the same calls alone.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Scen == JsonDeserialize(IOEnv.SCEN)
VARIABLES id, hist, view, store, made, figs, luck, rng, set, l, mem, used, bad
vars == <<id, hist, view, store, made, figs, luck, rng, set, l, mem, used, bad>>
S == Scen[id]
Objects == 1..S.K
Features == 1..S.D
Design == S.kind = "design"
Mutant == S.mutant
Unborn == -1

Init == /\ id \in 1..Len(Scen)
        /\ hist = <<>>
        /\ view = [k \in 1..(Scen[id].K * Scen[id].D) |-> Unborn]
        /\ store = [k \in 1..(Scen[id].K * Scen[id].D) |-> Unborn]
        /\ made = <<>> /\ figs = <<>>
        /\ luck = 0 /\ rng = 0 /\ set = 0
        /\ l = 0 /\ bad = <<>>
        /\ mem = [figs |-> <<>>, set |-> 0]
        /\ used = [o \in 1..Scen[id].K |-> 0]

----------------------------------- (* design *) -------------------------------
At(o, f) == (o - 1) * S.D + f
Key(o, f) == IF Mutant = 1 THEN f ELSE At(o, f)
Born(o) == view[At(o, 1)] # Unborn
Say(h) == hist' = Append(hist, h) /\ UNCHANGED <<id, l, mem, used, bad>>
Draws(o) == luck' = luck + S.random[o] /\ rng' = rng + S.random[o]
Still == UNCHANGED <<luck, rng>>

New(o) ==
  /\ ~Born(o) /\ (o > 1 => Born(o - 1))
  /\ view' = [k \in DOMAIN view |-> IF k \in {At(o, f) : f \in Features} THEN 0 ELSE view[k]]
  /\ store' = [k \in DOMAIN store |-> IF Mutant = 4 \/ k \in {Key(o, f) : f \in Features} THEN 0 ELSE store[k]]
  /\ Draws(o) /\ UNCHANGED <<made, figs, set>>
  /\ Say([op |-> "new", o |-> o])
Fit(o, f, c) ==
  /\ Born(o)
  /\ view' = [view EXCEPT ![At(o, f)] = c]
  /\ store' = [store EXCEPT ![Key(o, f)] = c]
  /\ Still /\ UNCHANGED <<made, figs, set>>
  /\ \E cen \in {(Len(hist) + f) % 3} : Say([op |-> "fit", o |-> o, f |-> f, c |-> c, cen |-> cen])
Eval(o, f, cen) ==
  /\ Born(o)
  /\ UNCHANGED <<view, store, made, figs, set, luck>>
  /\ rng' = IF Mutant = 3 THEN 0 ELSE rng
  /\ Say([op |-> "eval", o |-> o, f |-> f, cen |-> cen])
Plot(o, f, cen) ==
  LET shown == <<o, f, view[At(o, f)], cen>>  drawn == <<o, f, store[Key(o, f)], cen>> IN
  /\ Born(o)
  /\ made' = Append(made, <<shown>>)
  /\ figs' = IF Mutant = 2 /\ figs # <<>> THEN [figs EXCEPT ![Len(figs)] = Append(@, drawn)]
             ELSE IF Mutant = 6 THEN <<<<drawn>>>>
             ELSE Append(figs, <<drawn>>)
  /\ set' = IF Mutant = 5 THEN 1 ELSE set
  /\ Draws(o) /\ UNCHANGED <<view, store>>
  /\ Say([op |-> "plot", o |-> o, f |-> f, cen |-> cen])
Other(op, o, f) ==
  /\ Born(o)
  /\ Still /\ UNCHANGED <<view, store, made, figs, set>>
  /\ Say([op |-> op, o |-> o, f |-> f])
Close == /\ figs # <<>>
         /\ made' = <<>> /\ figs' = <<>>
         /\ Still /\ UNCHANGED <<view, store, set>>
         /\ Say([op |-> "close", o |-> 0])
\* (a simulation evaluates the invariants on all successors: only the chosen behaviour is emitted)
End == /\ Design /\ Len(hist) = S.len
       /\ Still /\ UNCHANGED <<view, store, made, figs, set>>
       /\ Say([op |-> "end", o |-> 0])
Step == /\ Design /\ Len(hist) < S.len
        /\ \/ \E o \in Objects : New(o)
           \/ \E o \in Objects, f \in Features :
                \/ \E c \in 0..S.C : Fit(o, f, c)
                \/ \E cen \in 0..2 : Eval(o, f, cen) \/ Plot(o, f, cen)
                \/ \E op \in {"report", "bad"} : Other(op, o, f)
           \/ Close

Independent == Design => \A o \in Objects, f \in Features : Born(o) => store[Key(o, f)] = view[At(o, f)]
FiguresKept == Design => figs = made
Quiet == Design => rng = luck /\ set = 0

------------------------------------ (* trace *) -------------------------------
\* e: one call on object e.o; e.ans its answer, e.figs the open figures after it, e.set and e.rng the settings and the
\* random stream after it, e.was the random stream before it, e.other what e.rng was when the stream before it was another
\* one, e.plot = 1 for a plot that was answered (2: refused), e.may = 1 if it may draw at random; S.alone[o]: the answers
\* of the same calls on object o without any other object
Verdict(e) ==
  IF e.op = "close" THEN ""
  ELSE IF e.ans # S.alone[e.o][used[e.o] + 1] THEN "answer"
  ELSE IF Len(e.figs) < Len(mem.figs) \/ SubSeq(e.figs, 1, Len(mem.figs)) # mem.figs THEN "earlier figures"
  ELSE IF e.plot = 0 /\ Len(e.figs) # Len(mem.figs) THEN "a figure nobody asked for"
  ELSE IF e.plot = 1 /\ Len(e.figs) = Len(mem.figs) THEN "no new figure"
  ELSE IF e.set # mem.set THEN "settings of the process"
  ELSE IF e.may = 0 /\ e.rng # e.was THEN "random stream moved"
  ELSE IF e.other = e.rng THEN "random stream restarted"
  ELSE ""
Trace == /\ S.kind = "trace" /\ bad = <<>> /\ l < Len(S.ev)
         /\ l' = l + 1
         /\ LET e == S.ev[l'] IN
            /\ bad' = IF l = 0 \/ Verdict(e) = "" THEN <<>> ELSE <<[at |-> l', what |-> Verdict(e)]>>
            /\ mem' = [figs |-> e.figs, set |-> e.set]
            /\ used' = IF l = 0 \/ e.o = 0 THEN used ELSE [used EXCEPT ![e.o] = @ + 1]
         /\ UNCHANGED <<id, hist, view, store, made, figs, luck, rng, set>>

Next == Trace \/ Step \/ End
Spec == Init /\ [][Next]_vars
Emitted == /\ Design /\ Len(hist) = S.len + 1 => PrintT("@@" \o ToJson([id |-> id, h |-> SubSeq(hist, 1, S.len)]))
           /\ S.kind = "trace" /\ (bad # <<>> \/ l = Len(S.ev)) => PrintT("@@" \o ToJson([id |-> id, bad |-> bad]))
=============================================================================
