----------------------------- MODULE TraceImages -----------------------------
EXTENDS Images, TraceLib
VARIABLE src      \* [folders, w, h, max]
vars == <<src, l>>
Same == UNCHANGED src
TCase == IsOp("case") /\ src' = [folders |-> E.folders, w |-> E.w, h |-> E.h, max |-> E.max]
\* the images are left as they were
TPgm == IsOp("pgm") /\ E.kept /\ E.ret = <<src.w, src.h, src.max>>
        /\ Holds(IsData(src.folders, src.w, src.h, src.max + 1, E.vars, E.rows)) /\ Same
TPbm == IsOp("pbm") /\ E.kept /\ Holds(IsData(src.folders, src.w, src.h, 2, E.vars, E.rows)) /\ Same
TPgmEv == IsOp("pgmev") /\ E.kept /\ E.ret = <<src.w, src.h, src.max>>
          /\ Holds(IsEvidence(src.folders, src.w, src.h, src.max + 1, E.starts, E.vars, E.rows)) /\ Same
TPbmEv == IsOp("pbmev") /\ E.kept
          /\ Holds(IsEvidence(src.folders, src.w, src.h, 2, E.starts, E.vars, E.rows)) /\ Same
TFlat == IsOp("flat") /\ E.kept /\ Holds(IsFlat(src.folders[1], src.w, src.h, E.class, E.vars, E.rows)) /\ Same
\* without any image there is nothing to say, and an older data file is left alone
TEmpty == IsOp("empty") /\ E.failed /\ E.kept /\ Same
TraceInit == src = [folders |-> <<>>, w |-> 0, h |-> 0, max |-> 0] /\ l = 1
TraceNext == TCase \/ TPgm \/ TPbm \/ TPgmEv \/ TPbmEv \/ TFlat \/ TEmpty
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
