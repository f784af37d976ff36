------------------------------- MODULE TraceColl -------------------------------
EXTENDS Coll, TraceLib
vars == <<collVars, l>>
TCase == IsOp("case") /\ kind' = <<>> /\ data' = <<>>
TCreate == IsOp("create") /\ Create(E.kind)
TGive == IsOp("give") /\ Give(E.i, E.x)
TTake == IsOp("take") /\ Take(E.i, E.r)
TBack == IsOp("back") /\ TakeBack(E.i, E.r)
TClear == IsOp("reset") /\ Clear(E.i)
TInvert == IsOp("invert") /\ E.same /\ Invert(E.i)
TShrink == IsOp("shrink") /\ Shrink(E.i)
TLook == IsOp("look") /\ Sees(E.i, E.size, E.empty, E.peek, E.gets)
TraceInit == CollInit /\ l = 1
TraceNext == TCase \/ TCreate \/ TGive \/ TTake \/ TBack \/ TClear \/ TInvert \/ TShrink \/ TLook
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
