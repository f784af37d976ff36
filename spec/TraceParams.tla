------------------------------ MODULE TraceParams ------------------------------
EXTENDS Params, TraceLib
vars == <<parVars, l>>
TCase == IsOp("case") /\ bound' = Nobody /\ fields' = Nobody
TMake == IsOp("make") /\ Make(E.p, E.opts)
TSet == IsOp("set") /\ SetField(E.p, E.opts)
TBind == IsOp("bind") /\ Bind(E.o, E.p)
TUnbind == IsOp("unbind") /\ Unbind(E.o)
TAsk == IsOp("ask") /\ Ask(E.o, E.p)
TLookup == IsOp("lookup") /\ Lookup(E.o, E.ex, E.found, E.p)
TOptions == IsOp("options") /\ Options(E.p, E.opts)
TKind == IsOp("kind") /\ Kind(E.t, E.method, E.hardness)
TDefault == IsOp("default") /\ E.opts = DefaultP /\ UNCHANGED parVars
\* the same thing done by several goroutines, each on its own nodes: the outcome only
\* depends on each one's own operations
TPar == /\ IsOp("parallel")
        /\ \A i \in 1..Len(E.want) : E.got[i] = E.want[i]
        /\ UNCHANGED parVars
TraceInit == ParInit /\ l = 1
TraceNext == TCase \/ TMake \/ TSet \/ TBind \/ TUnbind \/ TAsk \/ TLookup \/ TOptions \/ TKind \/ TDefault \/ TPar
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
