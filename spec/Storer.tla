-------------------------------- MODULE Storer --------------------------------
(***************************************************************************)
(* A Storer hands out tickets; every ticket names its own table of entries *)
(* <<node, position>> -> value.  Tables never influence each other.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Functions, TLC

VARIABLES tables,  \* live tickets -> table
          issued   \* tickets handed out since the last purge
stVars == <<tables, issued>>

Empty == [p \in {} |-> 0]
With(t, node, pos, v) == [p \in DOMAIN t \cup {<<node, pos>>} |->
                            IF p = <<node, pos>> THEN v ELSE t[p]]

StInit == tables = Empty /\ issued = {}

\* a new ticket is one that has not been handed out before
NewTicket(k) ==
  /\ k \in Nat /\ k \notin issued
  /\ issued' = issued \cup {k}
  /\ tables' = [j \in DOMAIN tables \cup {k} |-> IF j = k THEN Empty ELSE tables[j]]

\* storing succeeds exactly on live tickets
Store(k, node, pos, v, ok) ==
  /\ ok = (k \in DOMAIN tables)
  /\ tables' = IF ok THEN [tables EXCEPT ![k] = With(@, node, pos, v)] ELSE tables
  /\ UNCHANGED issued

Delete(k) == /\ tables' = Restrict(tables, DOMAIN tables \ {k})
             /\ UNCHANGED issued
ResetAll(K) == /\ K \subseteq issued
               /\ tables' = [j \in DOMAIN tables \cup K |->
                               IF j \in K THEN Empty ELSE tables[j]]
               /\ UNCHANGED issued
Purge == tables' = Empty /\ issued' = {}

-----------------------------------------------------------------------------
(* What can be seen *)
IsLive(k) == k \in DOMAIN tables
HasEntry(k, node, pos) == IsLive(k) /\ <<node, pos>> \in DOMAIN tables[k]
Entry(k, node, pos) == IF HasEntry(k, node, pos) THEN tables[k][<<node, pos>>] ELSE 0
HasNode(k, node) == IsLive(k) /\ \E p \in DOMAIN tables[k] : p[1] = node
=============================================================================
