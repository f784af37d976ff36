------------------------------ MODULE TraceGraph ------------------------------
EXTENDS Graph, TraceLib
VARIABLE net
vars == <<net, l>>
TNet == IsOp("net") /\ net' = E.net
Step(p) == Holds(p) /\ E.kept /\ UNCHANGED net
\* drawings for people: kinds, variables and weights
TDot == IsOp("dot") /\ Step(Shows(E.g, net, ShowVar))
TTools == IsOp("tools") /\ Step(E.drawn = 1 /\ E.png /\ Shows(E.g, net, ShowVar))
\* the listing: kinds, moments of leaves and weights
TPrint == IsOp("print") /\ Step(Shows(E.g, net, ShowMoments))
TraceInit == net = <<>> /\ l = 1
TraceNext == TNet \/ TDot \/ TTools \/ TPrint
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
