------------------------------- MODULE TraceGens -------------------------------
EXTENDS Gens, TraceLib
VARIABLE rows
vars == <<rows, l>>
TCase == IsOp("case") /\ rows' = E.rows
P(e) == [level |-> e.level, k |-> e.k, e2 |-> e.e2, mp |-> e.mp, g |-> e.g, cats |-> e.cats]
TLearn == /\ IsOp("learn") /\ E.kept /\ E.complete /\ E.decomposable /\ E.mass = 1000000
          /\ ToSet(E.scope) = 1..Len(E.cats) /\ Len(E.scope) = Len(E.cats)
          /\ Holds(Fits(E.tree, rows, 1..Len(E.cats), P(E)))
          /\ UNCHANGED rows
TraceInit == rows = <<>> /\ l = 1
TraceNext == TCase \/ TLearn
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
