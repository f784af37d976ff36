------------------------------ MODULE TraceFiles ------------------------------
EXTENDS Files, TraceLib
VARIABLE file
vars == <<file, gen, drawn, l>>
Same == UNCHANGED <<gen, drawn>>
TCase == IsOp("case") /\ file' = E.lines /\ Same
\* reading does not change the file
Kept == E.kept /\ UNCHANGED file
TData == IsOp("data") /\ Holds(WellFormed(file)) /\ E.res = Parsed(file) /\ Kept /\ Same
TDataNL == IsOp("datanl") /\ E.res = ParsedNL(file) /\ Kept /\ Same
TEvidence == IsOp("evidence") /\ E.res = ParsedEvidence(file) /\ Kept /\ Same
TSplit == IsOp("split") /\ Draw(file, E.p, E.q, E.seed, E.res) /\ Kept
TArff == IsOp("arff") /\ E.res = ParsedArff(file) /\ Kept /\ Same
TConvert == IsOp("convert") /\ E.res = Converted(file) /\ Kept /\ Same
TraceInit == file = <<>> /\ GenInit /\ l = 1
TraceNext == TCase \/ TData \/ TDataNL \/ TEvidence \/ TSplit \/ TArff \/ TConvert
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
