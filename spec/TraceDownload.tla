---------------------------- MODULE TraceDownload ----------------------------
EXTENDS Download, TraceLib
vars == <<disk, dirs, l>>
AsDisk(ps) == [f \in {ps[i][1] : i \in 1..Len(ps)} |-> ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = f][2]]
TCase == IsOp("case") /\ disk' = AsDisk(E.disk) /\ dirs' = ToSet(E.dirs)
\* after every call, the whole directory is looked at
Seen == disk' = AsDisk(E.disk)
TGet == IsOp("get") /\ Get(E.p, E.ext, E.name, E.c, E.over, E.fault, E.ok, E.asked) /\ Seen
TSet == IsOp("set") /\ Dataset(E.f, E.c, E.fault, E.got) /\ Seen
TPair == IsOp("pair") /\ Pair(E.f1, E.c1, E.fault1, E.f2, E.c2, E.fault2, E.got1, E.got2) /\ Seen
TraceInit == disk = <<>> /\ dirs = {} /\ l = 1
TraceNext == TCase \/ TGet \/ TSet \/ TPair
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
