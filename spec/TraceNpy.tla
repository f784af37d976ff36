-------------------------------- MODULE TraceNpy --------------------------------
EXTENDS Npy, TraceLib
vars == <<npyVars, l>>
TOpen == IsOp("case") /\ Holds(Opened(E.ndim, E.integer, E.rowmajor, E.cut, E.ok)) /\ Open(E.rows)
TRead == IsOp("read") /\ Read(E.n, E.res)
\* a file that ends too early does not have everything
TAll == IsOp("all") /\ (ReadAll(E.res) \/ (E.cut /\ E.res = Refused /\ Fail /\ UNCHANGED rows))
TBal == IsOp("balanced") /\ Balanced(E.n, E.c, E.res)
TReset == IsOp("reset") /\ E.ok /\ Reset
TraceInit == rows = <<>> /\ pos = 0 /\ loose = FALSE /\ l = 1
TraceNext == TOpen \/ TRead \/ TAll \/ TBal \/ TReset
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
