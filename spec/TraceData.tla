------------------------------- MODULE TraceData -------------------------------
EXTENDS Data, TraceLib
vars == <<ds, l>>
D(i) == ds[i]
TCase == IsOp("case") /\ ds' = <<E.d>> /\ WellLabelled(E.d)
TCopy == IsOp("copy") /\ E.res = <<CopyOf(D(E.i))>> /\ Give(E.res)
TJoin == IsOp("join") /\ E.res = <<Joined(D(E.i), D(E.j))>> /\ Give(E.res)
TSplit == IsOp("split") /\ E.res = SplitBy(D(E.i), E.j) /\ Give(E.res)
TSubL == IsOp("sublabel") /\ E.res = WithoutLabel(D(E.i), E.j) /\ Give(E.res)
TSubV == IsOp("subvar") /\ E.res = <<WithoutVar(D(E.i), E.j)>> /\ Give(E.res)
TMergeL == IsOp("mergelabel") /\ E.res = <<WithLabelVar(D(E.i), E.j)>> /\ Give(E.res)
TExtract == IsOp("extract") /\ E.lv = E.j /\ E.scope /\ E.res = <<Extracted(D(E.i), E.j)>> /\ Give(E.res)
TWrite == IsOp("write") /\ Write(E.i, E.k, E.v, E.x)
TRelabel == IsOp("relabel") /\ Relabel(E.i, E.k, E.x)
TWriteAll == IsOp("writeall") /\ WriteAll(E.i, E.v, E.x)
TRelabelAll == IsOp("relabelall") /\ RelabelAll(E.i, E.x)
TShuffle == IsOp("shuffle") /\ Shuffled(E.i, E.res[1])
TPartition == IsOp("partition") /\ Holds(IsPartition(Plain(D(E.i).rows), E.p, E.q, E.res)) /\ Give(E.res)
TPartitionL == IsOp("partitionl") /\ Holds(IsLabelPartition(D(E.i), E.c, E.p, E.q, E.res)) /\ Give(E.res)
TDivide == IsOp("divide") /\ Holds(IsDivision(D(E.i), E.n, E.res)) /\ Give(E.res)
TIdentical == IsOp("identical") /\ E.r = SameData(D(E.i), D(E.j)) /\ Queried
TColumn == IsOp("column") /\ E.r = Column(D(E.i), E.v) /\ Queried
TMatrix == IsOp("matrix") /\ Holds(IsMatrix(D(E.i), E.m, E.cols)) /\ Queried
TFromMatrix == IsOp("frommatrix") /\ E.res = <<Plain([i \in 1..Len(E.m) |-> [j \in 1..Len(E.m[i]) |-> <<j-1, E.m[i][j]>>]])>>
               /\ Give(E.res)
\* variables: copies are equal and independent, and survive encoding
TVars == IsOp("vars") /\ E.copy = E.orig /\ E.after = E.orig /\ E.mirror = E.orig /\ E.decoded = E.orig
         /\ E.distinct /\ E.reflected /\ Queried
TLook == IsOp("look") /\ Len(E.all) = Len(ds) /\ \A i \in 1..Len(ds) : E.all[i] = ds[i]
         /\ Queried
TraceInit == DataInit /\ l = 1
TraceNext == \/ TCase \/ TCopy \/ TJoin \/ TSplit \/ TSubL \/ TSubV \/ TMergeL \/ TExtract \/ TWrite \/ TRelabel
             \/ TShuffle \/ TPartition \/ TPartitionL \/ TDivide \/ TIdentical \/ TColumn \/ TMatrix \/ TFromMatrix
             \/ TVars \/ TLook \/ TWriteAll \/ TRelabelAll
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
