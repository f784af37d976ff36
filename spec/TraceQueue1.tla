------------------------------ MODULE TraceQueue1 ------------------------------
(* What the real queue did.  After every stimulus the driver lets the program *)
(* come to rest and records what is running, pending, finished and waiting.   *)
EXTENDS Queue1, TraceLib
vars == <<qVars, l>>
Set(s) == {s[i] : i \in 1..Len(s)}
Rest == /\ pending' = Set(E.pending) /\ running' = Set(E.running)
        /\ finished' = Set(E.finished) /\ waiting' = E.waiting
        /\ Len(E.running) = Cardinality(running')      \* nothing runs twice
        /\ Len(E.finished) = Cardinality(finished')
TCreate == IsOp("create") /\ E.allowed = E.x /\ Create(E.x)
TRun == IsOp("run") /\ Run(E.x) /\ Rest
TFinish == IsOp("finish") /\ Finish(E.x) /\ Rest
TRunAll == IsOp("runall") /\ RunAll(Set(E.xs)) /\ Rest
TFinishAll == IsOp("finishall") /\ FinishAll(Set(E.xs)) /\ Rest
TWait == IsOp("wait") /\ Wait /\ Rest
\* many functions under the real scheduler: how many ran at once, how often
\* each ran, and how many had finished when Wait came back
TStress == /\ IsOp("stress")
           /\ E.most <= E.slots /\ E.allowed = E.slots
           /\ \A i \in 1..Len(E.ran) : E.ran[i] = 1
           /\ E.seen = Len(E.ran)
           /\ UNCHANGED qVars
TraceInit == QInit /\ l = 1
TraceNext == TCreate \/ TRun \/ TFinish \/ TRunAll \/ TFinishAll \/ TWait \/ TStress
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
