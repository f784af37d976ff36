-------------------------------- MODULE TraceLeaf --------------------------------
EXTENDS Leaf, TraceLib
vars == <<leaf, l>>
Is(f) == leaf' = f
TDist == IsOp("dist") /\ Is(GivenDist(E.var, E.pr, E.d))
TCount == IsOp("count") /\ Is(Smoothed(E.var, <<E.var>>, E.c))
TScoped == IsOp("scoped") /\ Is(Smoothed(E.var, E.sc, E.c))
TEmpty == IsOp("empty") /\ Is(Uniform(E.var, E.m))
TMean == IsOp("atmean") /\ Is(AtMean(E.var, E.c))
TMode == IsOp("atmode") /\ \E i \in 1..Len(E.c) : IsMode(E.c, i) /\ E.at = i - 1 /\ Is(AtMode(E.var, E.c, i))
TRaw == IsOp("raw") /\ Is(OfValues(E.var, E.x))
TParams == IsOp("params") /\ Is(OfParams(E.var, E.mu4, E.sd4))
\* what is seen, straight after construction and again after encoding and decoding
TSee == IsOp("see") /\ UNCHANGED leaf
        /\ Holds(CASE leaf.kind = "discrete" -> SeenDiscrete(leaf, E.o)
                   [] leaf.kind = "normal" -> SeenNormal(leaf, E.o)
                   [] leaf.kind = "point" -> SeenPoint(leaf, E.o))
TMoments == IsOp("moments") /\ Holds(Moments(leaf, E)) /\ UNCHANGED leaf
TraceInit == LeafInit /\ l = 1
TraceNext == TDist \/ TCount \/ TScoped \/ TEmpty \/ TMean \/ TMode \/ TRaw \/ TParams \/ TSee \/ TMoments
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
