-------------------------------- MODULE MC_Data --------------------------------
(* Every history of up to Depth operations on one small labelled dataset.      *)
EXTENDS Data, Json
CONSTANTS Depth, MaxSets, Emit
VARIABLES hist, chosen
mcVars == <<ds, hist, chosen>>
R(a) == <<<<0, a>>, <<1, 1 - a>>>>
Starts == { Labelled(<<R(0), R(1), R(0)>>, <<0, 1, 1>>), Labelled(<<R(1)>>, <<0>>), Labelled(<<R(1), R(0)>>, <<1, 0>>) }
I == {i \in 1..Len(ds) : i > Len(ds) - 3}
MCInit == \E d \in Starts : ds = <<d>> /\ hist = <<>> /\ chosen = d
Do(op, i, j) == Len(hist) < Depth /\ Len(ds) <= MaxSets /\ hist' = Append(hist, <<op, i, j>>) /\ UNCHANGED chosen
MCCopy == \E i \in I : Do("copy", i, 0) /\ Give(<<CopyOf(ds[i])>>)
MCJoin == \E i, j \in I : Do("join", i, j) /\ Give(<<Joined(ds[i], ds[j])>>)
MCSplit == \E i \in I : ds[i].has /\ Do("split", i, 2) /\ Give(SplitBy(ds[i], 2))
MCSubL == \E i \in I, x \in 0..1 : ds[i].has /\ Do("sublabel", i, x) /\ Give(WithoutLabel(ds[i], x))
MCSubV == \E i \in I, x \in 0..1 : Do("subvar", i, x) /\ Give(<<WithoutVar(ds[i], x)>>)
MCMerge == \E i \in I : ds[i].has /\ Do("mergelabel", i, 5) /\ Give(<<WithLabelVar(ds[i], 5)>>)
MCWrite == \E i \in I : Len(ds[i].rows) > 0 /\ Do("write", i, 1) /\ Write(i, 1, 0, 7)
MCRelabel == \E i \in I : ds[i].has /\ Len(ds[i].rows) > 0 /\ Do("relabel", i, 1) /\ Relabel(i, 1, 1)
MCNext == MCCopy \/ MCJoin \/ MCSplit \/ MCSubL \/ MCSubV \/ MCMerge \/ MCWrite \/ MCRelabel
MCSpec == MCInit /\ [][MCNext]_mcVars

Labels == \A i \in 1..Len(ds) : WellLabelled(ds[i])
\* splitting and taking a label out lose nothing
Conserves == \A i \in 1..Len(ds) : ds[i].has =>
   /\ SumOf(Sizes(SplitBy(ds[i], 2))) = Len(ds[i].rows)
   /\ \A x \in 0..1 : SameItems(AllItems(WithoutLabel(ds[i], x)), Items(ds[i]))
   /\ LET e == Extracted(WithLabelVar(ds[i], 5), 5) IN e.labs = ds[i].labs
                                                     /\ e.rows = WithoutVar(ds[i], 5).rows
\* dividing and partitioning is possible at all: some arrangement is right
Proportions == {<<<<1, 1>>, 2>>, <<<<1, 3>>, 4>>, <<<<2, 1, 1>>, 4>>, <<<<1, 0, 1>>, 2>>}
Cut(d, sz) == [i \in 1..Len(sz) |->
    LET from == SumOf(SubSeq(sz, 1, i-1)) IN
    Labelled(SubSeq(d.rows, from + 1, from + sz[i]), SubSeq(d.labs, from + 1, from + sz[i]))]
Cascade(n, p, q) == LET t == [i \in 0..Len(p) |-> (2 * n * SumOf(SubSeq(p, 1, i)) + q) \div (2 * q)]
                    IN [i \in 1..Len(p) |-> t[i] - t[i-1]]
Feasible == hist = <<>> => \A pq \in Proportions :
   IsPartition(chosen, pq[1], pq[2], Cut(chosen, Cascade(Len(chosen.rows), pq[1], pq[2])))
Emitted == (Emit /\ (Len(hist) = Depth \/ Len(ds) > MaxSets)) => PrintT("@@" \o ToJson([start |-> chosen, hist |-> hist]))
=============================================================================
