------------------------------- MODULE Domain -------------------------------
(* The documented domain of the calls: which requests are answered and which   *)
(* are refused.  TLC enumerates the request space; every request is emitted    *)
(* with its verdict and carried out on real objects.                           *)
(* State machine of one request: construct, then (if that was not refused) one *)
(* operation, then (after a refused operation) one probe that must be answered *)
(* as if the refused operation had not been made.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Setup == JsonDeserialize(IOEnv.SCEN)
Method == Setup.method          \* pdp, dpdp, ale, rhale, shap, or the regional ones with a leading r
Regional == Method \in {"rpdp", "rdpdp", "rale", "rrhale", "rshap"}
Binned == Method \in {"ale", "rhale", "rale", "rrhale"}
AleLike == Method \in {"ale", "rale"}

Nofs == {"default", "all", "small", "large", "none", "word", "float", "list"}
Dims == {1, 2, 3}
Limits == IF Regional THEN {"default", "given"} ELSE {"default", "given", "equal", "reversed", "reversed other"}
Centerings == {"default", "False", "True", "zero_start", "zero_integral", "word", "empty", "int", "none", "float"}
Hets == {"default", "False", "True", "std", "std_err", "ice", "shap_values", "word", "empty", "int", "none"}
Binnings == IF ~Binned THEN {"default"}
            ELSE {"default", "fixed", "Fixed", "greedy", "Greedy", "dp", "DP", "word", "int", "class"}
MinPts == IF Regional THEN {"default", "2", "1", "0", "-1"} ELSE {"default"}
Depths == IF Regional THEN {"default", "all", "too deep", "foc", "foc too deep"} ELSE {"default"}
Nodes == IF Regional THEN {"0", "missing", "far", "-1"} ELSE {"default"}

OkNof(n) == n \in {"default", "all", "small", "large"}
OkCentering(c) == c \in {"default", "False", "True", "zero_start", "zero_integral"}
OkHet(h) == h \in {"default", "False", "True", "std", "std_err", "ice", "shap_values"}
OkBinning(b) == b \in (IF AleLike THEN {"default", "fixed", "Fixed"} ELSE {"default", "fixed", "Fixed", "greedy", "Greedy", "dp", "DP"})
OkLimits(l) == l \notin {"equal", "reversed"}
OkMin(m) == m \in {"default", "2"}
OkDepth(d) == d \in {"default", "all", "foc"}
OkNode(n) == n \in {"default", "0"}

Constructions == [nof : Nofs, dim : Dims, limits : Limits]
\* operations in which everything a constructor decides is varied use plain arguments and vice versa
Default == [nof |-> "default", dim |-> 2, limits |-> "default"]
Plain == [op : {"fit", "eval", "evalhet", "plot"}, cen : {"default"}, het : {"default"}, bin : {"default"},
          min : {"default"}, depth : {"default"}, node : {IF Regional THEN "0" ELSE "default"}]
Fits == [op : {"fit"}, cen : Centerings, het : {"default"}, bin : Binnings, min : MinPts, depth : {"default"}, node : {"default"}]
        \cup [op : {"fit"}, cen : {"default", "zero_start"}, het : {"default"}, bin : {"default"}, min : {"default"}, depth : Depths, node : {"default"}]
Evals == [op : {"eval", "evalhet"}, cen : Centerings, het : {"default"}, bin : {"default"}, min : {"default"}, depth : {"default"}, node : Nodes]
Plots == [op : {"plot"}, cen : Centerings, het : Hets, bin : {"default"}, min : {"default"}, depth : {"default"}, node : Nodes]

VARIABLES pc, con, op, verdicts
vars == <<pc, con, op, verdicts>>
Init == /\ pc = "new" /\ verdicts = <<>>
        /\ \/ con \in Constructions /\ op \in Plain
           \/ con = Default /\ op \in (Fits \cup Evals \cup Plots)
Verdict(v) == verdicts' = Append(verdicts, v)
Construct == /\ pc = "new"
             /\ pc' = IF OkNof(con.nof) /\ con.dim = 2 THEN "made" ELSE "refused"
             /\ Verdict(IF pc' = "made" THEN "answered" ELSE "refused")
             /\ UNCHANGED <<con, op>>
OkOp == /\ OkCentering(op.cen) /\ OkHet(op.het) /\ OkBinning(op.bin) /\ OkMin(op.min) /\ OkDepth(op.depth) /\ OkNode(op.node)
\* a fit may take limits that only an evaluation needs
Free == op.op = "fit" /\ ~OkLimits(con.limits)
Operate == /\ pc = "made"
           /\ pc' = IF Free THEN "free" ELSE IF OkOp /\ OkLimits(con.limits) THEN "done" ELSE "op refused"
           /\ Verdict(IF Free THEN "either" ELSE IF pc' = "done" THEN "answered" ELSE "refused")
           /\ UNCHANGED <<con, op>>
Probe == /\ pc \in {"op refused", "free"} /\ pc' = "probed"
         /\ Verdict(IF OkLimits(con.limits) THEN "as before" ELSE "refused")
         /\ UNCHANGED <<con, op>>
Next == Construct \/ Operate \/ Probe
Spec == Init /\ [][Next]_vars
\* every request gets a verdict, and nothing is answered before it is constructed
Sane == /\ pc = "refused" => verdicts = <<"refused">>
        /\ pc \in {"done", "op refused", "free"} => Len(verdicts) = 2 /\ verdicts[1] = "answered"
Emitted == pc \in {"refused", "done", "probed"} => PrintT("@@" \o ToJson([id |-> 1, con |-> con, op |-> op, v |-> verdicts]))
=============================================================================
