------------------------------ MODULE MC_Queue1 ------------------------------
(* Every history of Depth stimuli.  "finish" names a task by its rank among   *)
(* the running ones.                                                          *)
EXTENDS Queue1, FiniteSetsExt, SequencesExt, Json
CONSTANTS Depth, MaxN, Tasks, Emit
VARIABLE hist
mcVars == <<qVars, hist>>

MCInit == /\ \E k \in 1..MaxN : n = k /\ hist = <<[op |-> "create", x |-> k]>>
          /\ pending = {} /\ running = {} /\ finished = {} /\ waiting = 0
Do(op, x) == Len(hist) <= Depth /\ hist' = Append(hist, [op |-> op, x |-> x])
Used == Cardinality(pending \cup running \cup finished)
MCRun == Used < Tasks /\ Do("run", Used + 1) /\ Run(Used + 1)
Rank(t) == Cardinality({u \in running : u <= t})
MCFinish == \E t \in running : Do("finish", Rank(t)) /\ Finish(t)
\* the k that were submitted first finish at once; k more are submitted at once
First(k) == {t \in running : Rank(t) <= k}
MCFinishAll == \E k \in 2..Cardinality(running) : Do("finishall", k) /\ FinishAll(First(k))
MCRunAll == \E k \in 2..(Tasks - Used) : Do("runall", k) /\ RunAll((Used + 1)..(Used + k))
MCWait == waiting < 2 /\ Do("wait", 0) /\ Wait
MCNext == MCRun \/ MCFinish \/ MCFinishAll \/ MCRunAll \/ MCWait
MCSpec == MCInit /\ [][MCNext]_mcVars

Limit == Cardinality(running) <= n
Once == /\ pending \cap running = {} /\ pending \cap finished = {} /\ running \cap finished = {}
        /\ finished \subseteq 1..Used
\* nobody waits for a slot while one is free, and nobody waits for nothing
Conserving == pending # {} => Cardinality(running) = n
NoHang == waiting > 0 => running # {}
Forward == [][finished \subseteq finished' /\ running \subseteq running' \cup finished']_mcVars
Ops == [i \in 1..Len(hist) |-> hist[i]]
Emitted == (Emit /\ Len(hist) = Depth + 1) => PrintT("@@" \o ToJson(Ops))
=============================================================================
