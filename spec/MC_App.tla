-------------------------------- MODULE MC_App --------------------------------
(***************************************************************************)
(* The pool in which completion jobs run: at most P at once, started in    *)
(* order, one per image; the starter sleeps on a condition variable while  *)
(* all places are taken.  TLC checks that the bound is kept, that every    *)
(* image is done once and that the pool ends.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN, MaxP, Emit
VARIABLES n, P, labs, pc, i, nrun, job, lock, asleep, done
vars == <<n, P, labs, pc, i, nrun, job, lock, asleep, done>>
Jobs == 1..n
Init == /\ n \in 1..MaxN /\ P \in 1..MaxP /\ labs \in [1..n -> 0..1]
        /\ pc = "lock" /\ i = 1 /\ nrun = 0 /\ job = [j \in 1..n |-> "none"]
        /\ lock = 0 /\ asleep = FALSE /\ done = [j \in 1..n |-> 0]
\* the starter (thread -1)
Lock == pc = "lock" /\ i <= n /\ lock = 0 /\ lock' = -1 /\ pc' = "test" /\ UNCHANGED <<n, P, labs, i, nrun, job, asleep, done>>
Wait == pc = "test" /\ nrun >= P /\ lock' = 0 /\ asleep' = TRUE /\ pc' = "sleep" /\ UNCHANGED <<n, P, labs, i, nrun, job, done>>
Wake == pc = "sleep" /\ ~asleep /\ lock = 0 /\ lock' = -1 /\ pc' = "test" /\ UNCHANGED <<n, P, labs, i, nrun, job, asleep, done>>
Go == pc = "test" /\ nrun < P /\ nrun' = nrun + 1 /\ lock' = 0 /\ pc' = "spawn" /\ UNCHANGED <<n, P, labs, i, job, asleep, done>>
Spawn == pc = "spawn" /\ job' = [job EXCEPT ![i] = "run"] /\ i' = i + 1 /\ pc' = "lock" /\ UNCHANGED <<n, P, labs, nrun, lock, asleep, done>>
Join == pc = "lock" /\ i > n /\ (\A j \in Jobs : job[j] = "end") /\ pc' = "over" /\ UNCHANGED <<n, P, labs, i, nrun, job, lock, asleep, done>>
\* the jobs
Work(j) == job[j] = "run" /\ done' = [done EXCEPT ![j] = @ + 1] /\ job' = [job EXCEPT ![j] = "leave"] /\ UNCHANGED <<n, P, labs, pc, i, nrun, lock, asleep>>
Leave(j) == job[j] = "leave" /\ lock = 0 /\ nrun' = nrun - 1 /\ job' = [job EXCEPT ![j] = "signal"] /\ UNCHANGED <<n, P, labs, pc, i, lock, asleep, done>>
Signal(j) == job[j] = "signal" /\ asleep' = FALSE /\ job' = [job EXCEPT ![j] = "end"] /\ UNCHANGED <<n, P, labs, pc, i, nrun, lock, done>>
Next == Lock \/ Wait \/ Wake \/ Go \/ Spawn \/ Join \/ \E j \in Jobs : Work(j) \/ Leave(j) \/ Signal(j)
MCSpec == Init /\ [][Next]_vars /\ WF_vars(Next)

Bound == Cardinality({j \in Jobs : job[j] = "run"}) <= P
Counted == nrun = Cardinality({j \in Jobs : job[j] \in {"run", "leave"}}) + (IF pc = "spawn" THEN 1 ELSE 0)
Once == \A j \in Jobs : done[j] <= 1
AllDone == pc = "over" => \A j \in Jobs : done[j] = 1
Ends == <>(pc = "over")
Emitted == (Emit /\ i = 1 /\ pc = "lock") => PrintT("@@" \o ToJson([labs |-> [j \in 1..n |-> labs[j]], p |-> P]))
=============================================================================
