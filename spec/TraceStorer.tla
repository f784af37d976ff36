------------------------------ MODULE TraceStorer ------------------------------
(* Histories of the real Storer, checked against Storer.                      *)
EXTENDS Storer, TraceLib

vars == <<stVars, l>>

TCase == IsOp("case") /\ tables' = Empty /\ issued' = {}
TNew == IsOp("new") /\ NewTicket(E.k)
TStore == IsOp("store") /\ Store(E.k, E.n, E.s, E.v, E.ok)
TDelete == IsOp("delete") /\ Delete(E.k)
TReset == IsOp("reset") /\ E.res = E.k /\ ResetAll({E.k})
TResetAll == IsOp("resetall") /\ ResetAll({E.ks[i] : i \in 1..Len(E.ks)})
TPurge == IsOp("purge") /\ Purge

\* everything the reading functions say about one ticket
SeenRight(p) ==
  /\ p.live = IsLive(p.k)
  /\ \A i \in 1..Len(p.ents) :
       LET e == p.ents[i] IN
       /\ e.ok = HasEntry(p.k, e.n, e.s) /\ e.ex = e.ok
       /\ e.ok => e.v = Entry(p.k, e.n, e.s)
  /\ \A i \in 1..Len(p.nodes) :
       LET e == p.nodes[i]
           mine == IF IsLive(p.k) THEN {q \in DOMAIN tables[p.k] : q[1] = e.n} ELSE {}
       IN /\ e.ex = HasNode(p.k, e.n) /\ e.ok = e.ex
          /\ {<<e.n, e.vals[j][1], e.vals[j][2]>> : j \in 1..Len(e.vals)}
             = {<<q[1], q[2], tables[p.k][q]>> : q \in mine}
TLook == /\ IsOp("look")
         /\ \A i \in 1..Len(E.probes) : (SeenRight(E.probes[i]) = TRUE)
         /\ UNCHANGED stVars

TraceInit == StInit /\ l = 1
TraceNext == TCase \/ TNew \/ TStore \/ TDelete \/ TReset \/ TResetAll \/ TPurge \/ TLook
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
