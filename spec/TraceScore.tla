------------------------------ MODULE TraceScore ------------------------------
EXTENDS Score, TraceLib
vars == <<spnVars, scVars, l>>
Evs(s) == [i \in 1..Len(s) |-> PairsToFcn(s[i])]
Delta(d) == [p \in {<<d[i][1], d[i][2]>> : i \in 1..Len(d)} |->
              d[CHOOSE i \in 1..Len(d) : <<d[i][1], d[i][2]>> = p][3]]
Same == UNCHANGED spnVars
TBuild == IsOp("build") /\ E.obs = E.net /\ Build(E.net, E.image) /\ scores' = <<>>
TCase == IsOp("case") /\ scores' = <<>> /\ Same
TCreate == IsOp("create") /\ Create /\ Same
TRegister == IsOp("register") /\ Register(E.i, E.p, E.e) /\ Same
TMerge == IsOp("merge") /\ Merge(E.i, E.j) /\ Same
TAdd == IsOp("add") /\ AddUp(E.i, E.j) /\ Same
TClear == IsOp("clear") /\ Clear(E.i) /\ Same
TShow == IsOp("show") /\ Shows(E.i, E.hits, E.misses, E.total, E.conf, E.c) /\ Same
TPrint == IsOp("print") /\ E.file = E.text /\ Prints(E.i, E.hits, E.misses, E.total, E.acc, E.wrong) /\ Same
TEval == /\ IsOp("eval") /\ E.dataafter = E.data /\ E.labelsafter = E.labels /\ E.image = snap
         /\ Evaluate(E.i, Evs(E.data), E.labels, E.v, E.c, E.method, Delta(E.delta)) /\ Same
TraceInit == SPNInit /\ ScoreInit /\ l = 1
TraceNext == TBuild \/ TCase \/ TCreate \/ TRegister \/ TMerge \/ TAdd \/ TClear \/ TShow \/ TPrint \/ TEval
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
