------------------------------ MODULE TraceRegions ------------------------------
EXTENDS Regions, TraceLib
VARIABLE rows
vars == <<rows, l>>
TCase == IsOp("case") /\ rows' = E.rows
Good(e) == e.kept /\ e.complete /\ e.decomposable /\ e.mass = 1000000
Ones(ns) == \A i \in Of(ns, "sum") : \A j \in 1..Len(ns[i].w) : ns[i].w[j] = 1000000
TDennis == IsOp("dennis") /\ Good(E) /\ Holds(DennisNet(E.net, rows, E.m, E.g, IF E.gd THEN 0 ELSE 1)) /\ UNCHANGED rows
\* a rectangle is what its code says
Coded(e) == \A i \in 1..Len(e.codes) : e.codes[i][1] = e.codes[i][2]
TPoon == IsOp("poon") /\ Good(E) /\ Coded(E) /\ Holds(PoonNet(E.net, rows, E.w, E.h, E.m, E.g, E.r))
         /\ Holds(IF E.raw THEN Ones(E.net) ELSE Weighed(E.net, 0)) /\ UNCHANGED rows
TraceInit == rows = <<>> /\ l = 1
TraceNext == TCase \/ TDennis \/ TPoon
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
