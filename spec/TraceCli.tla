------------------------------- MODULE TraceCli -------------------------------
EXTENDS Cli, TraceLib
vars == <<cliVars, l>>
Of(ps) == [d \in {ps[k].ds : k \in 1..Len(ps)} |-> (CHOOSE x \in ToSet(ps) : x.ds = d).c]
TCase == /\ IsOp("case")
         /\ src' = Of(E.src) /\ comp' = Of(E.comp) /\ pics' = {}
\* the user's own doing between runs
TEdit == /\ IsOp("edit")
         /\ src' = Of(E.src) /\ comp' = Of(E.comp) /\ pics' = pics
\* what is on the disk after a run is what the run should have left there, and nothing else
TRun == /\ IsOp("run") /\ Run(E.a, E.o)
        /\ comp' = Of(E.comp)
        /\ pics' = ToSet(E.pics)
        /\ E.others          \* all other files are as they were
TraceInit == src = <<>> /\ comp = <<>> /\ pics = {} /\ l = 1
TraceNext == TCase \/ TEdit \/ TRun
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
