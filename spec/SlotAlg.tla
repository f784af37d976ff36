-------------------------------- MODULE SlotAlg --------------------------------
(***************************************************************************)
(* The algorithm of conc.SingleQueue step by step: a counter of running    *)
(* functions under a lock, a condition variable, and a wait group.         *)
(* Submitters each run their tasks one after another and then wait.        *)
(* TLC checks over every interleaving that the algorithm keeps the         *)
(* promises of Queue1.                                                     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS N, Submitters, PerSubmitter, Watch

Tasks == Submitters \X (1..PerSubmitter)
VARIABLES lock, k, wg, asleep, spc, next, wpc,
          ast,     \* an onlooker that calls Wait at any time: "idle", "waiting", "back"
          snap     \* what had been submitted when it did
aVars == <<lock, k, wg, asleep, spc, next, wpc, ast, snap>>

Init == /\ lock = FALSE /\ k = 0 /\ wg = 0 /\ asleep = {}
        /\ spc = [s \in Submitters |-> "call"]
        /\ next = [s \in Submitters |-> 1]
        /\ wpc = [t \in Tasks |-> "none"]
        /\ ast = "idle" /\ snap = {}

Cur(s) == <<s, next[s]>>
Goto(s, p) == spc' = [spc EXCEPT ![s] = p]
Call(s) == /\ spc[s] = "call"
           /\ IF next[s] > PerSubmitter THEN Goto(s, "waitall") ELSE Goto(s, "add")
           /\ UNCHANGED <<lock, k, wg, asleep, next, wpc>>
Lock(s) == /\ spc[s] = "lock" /\ ~lock /\ lock' = TRUE /\ Goto(s, "test")
           /\ UNCHANGED <<k, wg, asleep, next, wpc>>
Test(s) == /\ spc[s] = "test"
           /\ IF k >= N
              THEN /\ lock' = FALSE /\ asleep' = asleep \cup {s} /\ Goto(s, "asleep") /\ UNCHANGED k
              ELSE /\ k' = k + 1 /\ lock' = FALSE /\ Goto(s, "spawn") /\ UNCHANGED asleep
           /\ UNCHANGED <<wg, next, wpc>>
\* woken up: the lock has to be taken again
Wake(s) == /\ spc[s] = "asleep" /\ s \notin asleep /\ Goto(s, "lock")
           /\ UNCHANGED <<lock, k, wg, asleep, next, wpc>>
Add(s) == /\ spc[s] = "add" /\ wg' = wg + 1 /\ Goto(s, "lock")
          /\ UNCHANGED <<lock, k, asleep, next, wpc>>
Spawn(s) == /\ spc[s] = "spawn" /\ wpc' = [wpc EXCEPT ![Cur(s)] = "run"]
            /\ next' = [next EXCEPT ![s] = @ + 1] /\ Goto(s, "call")
            /\ UNCHANGED <<lock, k, wg, asleep>>
WaitAll(s) == /\ spc[s] = "waitall" /\ wg = 0 /\ Goto(s, "end")
              /\ UNCHANGED <<lock, k, wg, asleep, next, wpc>>

WGoto(t, p) == wpc' = [wpc EXCEPT ![t] = p]
WRun(t) == /\ wpc[t] = "run" /\ WGoto(t, "lock") /\ UNCHANGED <<lock, k, wg, asleep, spc, next>>
WLock(t) == /\ wpc[t] = "lock" /\ ~lock /\ lock' = TRUE /\ WGoto(t, "dec")
            /\ UNCHANGED <<k, wg, asleep, spc, next>>
WDec(t) == /\ wpc[t] = "dec" /\ k' = k - 1 /\ lock' = FALSE /\ WGoto(t, "signal")
           /\ UNCHANGED <<wg, asleep, spc, next>>
WSignal(t) == /\ wpc[t] = "signal" /\ WGoto(t, "done")
              /\ IF asleep = {} THEN UNCHANGED asleep ELSE \E s \in asleep : asleep' = asleep \ {s}
              /\ UNCHANGED <<lock, k, wg, spc, next>>
WDone(t) == /\ wpc[t] = "done" /\ wg' = wg - 1 /\ WGoto(t, "end")
            /\ UNCHANGED <<lock, k, asleep, spc, next>>

SNext(s) == Call(s) \/ Lock(s) \/ Test(s) \/ Wake(s) \/ Add(s) \/ Spawn(s) \/ WaitAll(s)
WNext(t) == WRun(t) \/ WLock(t) \/ WDec(t) \/ WSignal(t) \/ WDone(t)
\* the tasks that have been counted
Counted == {t \in Tasks : \/ t[2] < next[t[1]]
                          \/ (t[2] = next[t[1]] /\ spc[t[1]] \in {"lock", "test", "asleep", "spawn"})}
ACall == /\ Watch /\ ast = "idle" /\ ast' = "waiting" /\ snap' = Counted
         /\ UNCHANGED <<lock, k, wg, asleep, spc, next, wpc>>
ABack == /\ ast = "waiting" /\ wg = 0 /\ ast' = "back"
         /\ UNCHANGED <<lock, k, wg, asleep, spc, next, wpc, snap>>
AllDone == \A s \in Submitters : spc[s] = "end"
Same == UNCHANGED <<ast, snap>>
Next == \/ \E s \in Submitters : SNext(s) /\ Same
        \/ \E t \in Tasks : WNext(t) /\ Same
        \/ ACall \/ ABack
        \/ AllDone /\ UNCHANGED aVars
Fair == /\ \A s \in Submitters : SF_aVars(Lock(s) /\ Same) /\ WF_aVars(SNext(s) /\ Same)
        /\ \A t \in Tasks : SF_aVars(WLock(t) /\ Same) /\ WF_aVars(WNext(t) /\ Same)
Spec == Init /\ [][Next]_aVars /\ Fair

-----------------------------------------------------------------------------
Limit == Cardinality({t \in Tasks : wpc[t] = "run"}) <= N
Mutex == k >= 0 /\ k <= N
WgOk == wg >= 0
\* a submitter whose Wait came back has all its functions finished
Waited == \A s \in Submitters : spc[s] = "end" =>
            \A i \in 1..PerSubmitter : wpc[<<s, i>>] = "end"
\* so has an onlooker: everything submitted before its call is finished
Onlooker == ast = "back" => \A t \in snap : wpc[t] = "end"
\* no lost wake-up: a sleeper sleeps only while somebody will wake it
NoLost == asleep # {} => \/ k >= N
                         \/ \E t \in Tasks : wpc[t] = "signal"
                         \/ \E s \in Submitters : spc[s] = "asleep" /\ s \notin asleep
                         \/ \E s \in Submitters : spc[s] \in {"lock", "test", "spawn"}
Termination == <>AllDone
=============================================================================
