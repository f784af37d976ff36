-------------------------------- MODULE Queue1 --------------------------------
(***************************************************************************)
(* The concurrency queue as its users see it: at most N submitted          *)
(* functions run at a time, each runs exactly once with its own number,    *)
(* Run comes back once the function has its slot, and Wait comes back once *)
(* everything submitted has finished.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES n,        \* slots
          pending,  \* Run has been called, no slot yet
          running, finished,
          waiting   \* number of Wait calls that have not come back
qVars == <<n, pending, running, finished, waiting>>

QInit == n = 1 /\ pending = {} /\ running = {} /\ finished = {} /\ waiting = 0

Min2(a, b) == IF a <= b THEN a ELSE b
\* Free slots are filled from the pending ones, and when nothing runs every
\* Wait comes back.  The users' code only acts when all that has happened.
Settle(pend, run, fin, wait) ==
  /\ \E S \in SUBSET pend :
        /\ Cardinality(S) = Min2(Cardinality(pend), n - Cardinality(run))
        /\ pending' = pend \ S
        /\ running' = run \cup S
  /\ finished' = fin
  /\ waiting' = IF running' = {} THEN 0 ELSE wait
  /\ UNCHANGED n

Create(slots) == /\ slots > 0 /\ n' = slots
                 /\ pending' = {} /\ running' = {} /\ finished' = {} /\ waiting' = 0
Run(t) == /\ t \notin pending \cup running \cup finished
          /\ Settle(pending \cup {t}, running, finished, waiting)
Finish(t) == /\ t \in running
             /\ Settle(pending, running \ {t}, finished \cup {t}, waiting)
\* several at once
RunAll(T) == /\ T \cap (pending \cup running \cup finished) = {}
             /\ Settle(pending \cup T, running, finished, waiting)
FinishAll(T) == /\ T \subseteq running
                /\ Settle(pending, running \ T, finished \cup T, waiting)
Wait == Settle(pending, running, finished, waiting + 1)
=============================================================================
