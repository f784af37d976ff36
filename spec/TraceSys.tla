------------------------------- MODULE TraceSys -------------------------------
EXTENDS Sys, TraceLib
vars == <<sysVars, l>>
Same == UNCHANGED sysVars
TRefresh == IsOp("refresh") /\ Refresh(E.s) /\ E.seed = E.s /\ E.random
TDraw == IsOp("draw") /\ Draw(E.w, E.r)
TShared == IsOp("shared") /\ Holds(Shared(E.alone, E.together)) /\ Same
\* log
TNew == IsOp("case") /\ text' = ("" :> <<>>) /\ sink' = "" /\ verbose' = FALSE /\ seed' = 0 /\ drawn' = <<>> /\ memo' = <<>>
TVerbose == IsOp("verbose") /\ SetVerbose(E.b)
TSetLog == IsOp("setlog") /\ Holds(E.ok = (E.n # "no/such")) /\ SetLog(E.n, E.ok)
TPrint == IsOp("print") /\ Write(E.msg)
TText == IsOp("text") /\ Holds(E.sink = sink /\ \A i \in 1..Len(E.text) :
                                E.text[i][2] = (IF E.text[i][1] \in DOMAIN text THEN text[E.text[i][1]] ELSE <<>>)) /\ Same
\* colours
TScale == IsOp("scale") /\ Holds(E.rgb = HSV(E.h, E.s, E.v)) /\ Same
TTone == IsOp("tone") /\ Holds(Ordered(E.h, E.rgb) /\ Brightest(E.rgb) \in ToSet(E.values)) /\ Same
TColour == IsOp("colour") /\ Holds(E.rgb = E.shown /\ E.rgb = E.drawn) /\ Same
TraceInit == seed = 0 /\ drawn = <<>> /\ memo = <<>> /\ verbose = FALSE /\ sink = "" /\ text = ("" :> <<>>) /\ l = 1
TraceNext == TRefresh \/ TDraw \/ TShared \/ TNew \/ TVerbose \/ TSetLog \/ TPrint \/ TText \/ TScale \/ TTone \/ TColour
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
