------------------------------ MODULE TraceCluster ------------------------------
EXTENDS Cluster, TraceLib
VARIABLE rows
vars == <<rows, l>>
Sets(cs) == [i \in 1..Len(cs) |-> ToSet(cs[i])]
\* every cluster lists each of its rows once, with the values it has in the data, which is unchanged
Good(e) == e.same /\ e.kept /\ \A i \in 1..Len(e.cs) : Cardinality(ToSet(e.cs[i])) = Len(e.cs[i])
Keep == UNCHANGED rows
TCase == IsOp("case") /\ rows' = E.rows
TDb == IsOp("dbscan") /\ Good(E) /\ Holds(Len(E.cs) = Cardinality(ToSet(Sets(E.cs))) /\ ToSet(Sets(E.cs)) = Dense(rows, E.e2, E.mp)) /\ Keep
TDbData == IsOp("dbscandata") /\ E.kept /\ Holds(SameClusters(rows, E.groups, Dense(rows, E.e2, E.mp))) /\ Keep
TOptics == IsOp("optics") /\ Good(E)
           /\ Holds(LET o == Ordered(rows, E.e2, E.mp)
                        c == Sets(E.cs)
                    IN c[1] = o.noise /\ Len(c) = 1 + Cardinality(o.clusters) /\ {c[k] : k \in 2..Len(c)} = o.clusters)
           /\ Keep
\* k clusters by any k-means; rows may be given as rows
TKm == IsOp("kmeans") /\ Good(E) /\ Len(E.cs) = E.k /\ Holds(Partitions(rows, Sets(E.cs))) /\ Keep
TKmData == IsOp("kmeansdata") /\ E.kept /\ Len(E.groups) = E.k /\ Holds(SameRows(Flat(E.groups), rows)) /\ Keep
TKmF == IsOp("oldkmeansf") /\ Good(E) /\ Len(E.cs) = E.k /\ Holds(Partitions(rows, Sets(E.cs))) /\ Holds(MeanStable(rows, Sets(E.cs))) /\ Keep
TMode == IsOp("kmode") /\ Good(E) /\ Len(E.cs) = E.k /\ Holds(Partitions(rows, Sets(E.cs))) /\ Holds(NoneEmpty(Sets(E.cs)))
         /\ Holds(IF E.small THEN ModeStable(rows, Sets(E.cs)) ELSE MayStay(rows, Sets(E.cs))) /\ Keep
TMedoid == IsOp("kmedoid") /\ Good(E) /\ Holds(Partitions(rows, Sets(E.cs))) /\ Holds(NoneEmpty(Sets(E.cs)))
           /\ Len(E.cs) = (IF Distinct(rows) < E.k THEN Distinct(rows) ELSE E.k)
           /\ Holds(IF E.small THEN MedoidStable(rows, Sets(E.cs)) ELSE PairStable(rows, Sets(E.cs))) /\ Keep
TMetric == IsOp("metric") /\ E.e2 = D2(E.a, E.b) /\ E.f2 = E.e2 /\ E.h = Ham(E.a, E.b) /\ E.hf = E.h /\ Keep
TraceInit == rows = <<>> /\ l = 1
TraceNext == TCase \/ TDb \/ TDbData \/ TOptics \/ TKm \/ TKmData \/ TKmF \/ TMode \/ TMedoid \/ TMetric
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
