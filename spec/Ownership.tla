------------------------------ MODULE Ownership ------------------------------
(* Who may write what.  The caller owns the objects it hands over and the       *)
(* arrays it got back; a call may allocate and write memory of the library,     *)
(* never memory of the caller.                                                  *)
(*                                                                              *)
(* kind "design": a small heap.  Cells belong to the caller or to the library,  *)
(* the library may keep references to cells of the caller (views) and copies of *)
(* them, and writes only cells it owns: then every caller cell is unchanged in  *)
(* all reachable states.  With Mutant = 1 it may write through a reference it   *)
(* kept, and the invariant must fail.                                           *)
(* kind "trace": the digests of all objects of the caller after every call of a *)
(* recorded session of the code; the first change is reported.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Scen == JsonDeserialize(IOEnv.SCEN)
VARIABLES id, l, mem, bad, heap, owner, refs, given
vars == <<id, l, mem, bad, heap, owner, refs, given>>
S == Scen[id]
Cells == 1..3

Init == /\ id \in 1..Len(Scen)
        /\ l = 0 /\ mem = <<>> /\ bad = <<>>
        /\ heap = [c \in Cells |-> 0]           \* contents
        /\ owner = [c \in Cells |-> "free"]
        /\ refs = {}                            \* cells the library keeps a reference to
        /\ given = [c \in Cells |-> 0]          \* contents when the caller got or gave the cell

------------------------------------ (* trace *) -------------------------------
\* e.d: digests of all objects known so far, in the order in which they became known; mem: the digests before
Trace == /\ S.kind = "trace" /\ bad = <<>> /\ l < Len(S.ev)
         /\ l' = l + 1
         /\ LET e == S.ev[l']
                changed == {k \in 1..Len(mem) : e.d[k] # mem[k]}
            IN  /\ bad' = IF changed = {} THEN <<>> ELSE <<l', CHOOSE k \in changed : \A j \in changed : k <= j>>
                /\ mem' = e.d
         /\ UNCHANGED <<id, heap, owner, refs, given>>

----------------------------------- (* design *) -------------------------------
Design == S.kind = "design"
Pass(c) == owner[c] = "free" /\ owner' = [owner EXCEPT ![c] = "caller"] /\ given' = [given EXCEPT ![c] = heap[c]]
           /\ UNCHANGED <<heap, refs>>
Keep(c) == owner[c] = "caller" /\ refs' = refs \cup {c} /\ UNCHANGED <<heap, owner, given>>
Alloc(c) == owner[c] = "free" /\ owner' = [owner EXCEPT ![c] = "library"] /\ refs' = refs \cup {c} /\ UNCHANGED <<heap, given>>
Write(c) == /\ c \in refs /\ (owner[c] = "library" \/ S.mutant = 1)
            /\ \E v \in 0..1 : heap' = [heap EXCEPT ![c] = v]
            /\ UNCHANGED <<owner, refs, given>>
\* returning an array makes it the caller's
Return(c) == owner[c] = "library" /\ owner' = [owner EXCEPT ![c] = "caller"] /\ given' = [given EXCEPT ![c] = heap[c]]
             /\ UNCHANGED <<heap, refs>>
Step == Design /\ \E c \in Cells : (Pass(c) \/ Keep(c) \/ Alloc(c) \/ Write(c) \/ Return(c)) /\ UNCHANGED <<id, l, mem, bad>>

Next == Trace \/ Step
Spec == Init /\ [][Next]_vars
CallerUnchanged == Design => \A c \in Cells : owner[c] = "caller" => heap[c] = given[c]
Emitted == S.kind = "trace" /\ (bad # <<>> \/ l = Len(S.ev)) => PrintT("@@" \o ToJson([id |-> id, bad |-> bad]))
=============================================================================
