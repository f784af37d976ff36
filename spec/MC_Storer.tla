------------------------------- MODULE MC_Storer -------------------------------
(* Every history of up to Depth operations on two tickets; printed so that    *)
(* the driver replays each with the real Storer.                              *)
EXTENDS Storer, Json
CONSTANTS Depth, Nodes, Slots, Emit
VARIABLE hist
mcVars == <<stVars, hist>>

Tick == {0, 1}
Do(op) == Len(hist) < Depth /\ hist' = Append(hist, op)

MCInit == StInit /\ hist = <<>>
MCNew == \E k \in Tick : /\ k = Cardinality(issued) /\ Do([op |-> "new"]) /\ NewTicket(k)
MCStore == \E k \in issued, n \in Nodes, s \in Slots :
             /\ Do([op |-> "store", k |-> k, n |-> n, s |-> s, v |-> Len(hist) + 1])
             /\ \E ok \in BOOLEAN : Store(k, n, s, Len(hist) + 1, ok)
MCDelete == \E k \in issued : Do([op |-> "delete", k |-> k]) /\ Delete(k)
MCReset == \E k \in issued : Do([op |-> "reset", k |-> k]) /\ ResetAll({k})
MCResetAll == Cardinality(issued) = 2 /\ Do([op |-> "resetall"]) /\ ResetAll(issued)
MCPurge == issued # {} /\ Do([op |-> "purge"]) /\ Purge
MCNext == MCNew \/ MCStore \/ MCDelete \/ MCReset \/ MCResetAll \/ MCPurge
MCSpec == MCInit /\ [][MCNext]_mcVars

-----------------------------------------------------------------------------
\* an entry is the last value stored there since the table was last emptied
LastTouch(k, n, s) ==
  LET hits == {i \in 1..Len(hist) :
                 \/ hist[i].op \in {"purge", "resetall"}
                 \/ hist[i].op \in {"delete", "reset"} /\ hist[i].k = k
                 \/ hist[i].op = "store" /\ hist[i].k = k /\ hist[i].n = n /\ hist[i].s = s}
  IN IF hits = {} THEN 0 ELSE CHOOSE i \in hits : \A j \in hits : j <= i
LastWriteWins ==
  \A k \in DOMAIN tables, n \in Nodes, s \in Slots :
     LET i == LastTouch(k, n, s) IN
     IF i > 0 /\ hist[i].op = "store" /\ HasEntry(k, n, s)
     THEN Entry(k, n, s) = hist[i].v
     ELSE IF i > 0 /\ hist[i].op = "store"
          THEN \E j \in 1..(i-1) : hist[j].op = "delete"    \* stored on a dead ticket
          ELSE ~HasEntry(k, n, s)
Tickets == DOMAIN tables \subseteq issued
\* a step changes one table, unless it is a purge or a reset of several
Isolated == [][ (hist'[Len(hist')].op \in {"store", "delete", "reset"}) =>
                \A k \in DOMAIN tables \ {hist'[Len(hist')].k} :
                   k \in DOMAIN tables' /\ tables'[k] = tables[k] ]_mcVars
Emitted == (Emit /\ Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
