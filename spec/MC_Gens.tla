-------------------------------- MODULE MC_Gens --------------------------------
(* Every small dataset: the algorithm ends, with a valid network over all      *)
(* variables whose leaves carry exactly the counts of the data, and which is   *)
(* one of those the trace specification allows.                                *)
EXTENDS Gens, Json
CONSTANTS MaxRows, Emit
VARIABLE data
Shapes == {<<2, 2>>, <<3, 2>>, <<2, 2, 2>>}
Code(c, r) == FoldLeft(LAMBDA a, i : a * c[i] + r[i], 0, [i \in 1..Len(c) |-> i])
Row(c) == {r \in [1..Len(c) -> 0..2] : \A i \in 1..Len(c) : r[i] < c[i]}
MCInit == \E c \in Shapes : \E r \in Row(c) : data = [cats |-> c, rows |-> <<r>>]
Grow == /\ Len(data.rows) < MaxRows
        /\ \E r \in {q \in Row(data.cats) : Code(data.cats, Last(data.rows)) <= Code(data.cats, q)} : data' = [data EXCEPT !.rows = Append(@, r)]
MCSpec == MCInit /\ [][Grow]_data
Ps == {[level |-> lv, k |-> 0, e2 |-> e, mp |-> m, g |-> 0, cats |-> data.cats] : lv \in {4, 6}, e \in {0, 1}, m \in {1, 2}}
VS == 1..Len(data.cats)
Sound == \A p \in Ps : LET t == TLCEval(Build(data.rows, VS, p)) IN
            /\ Scope(t) = VS /\ Valid(t)
            /\ Fits(t, data.rows, VS, p)
            /\ Hidden(t, Len(data.rows), VS, [p EXCEPT !.k = Len(data.rows)]) \/ t.k = "sum"
            /\ Explains(t, data.rows, VS, p)
Emitted == Emit => PrintT("@@" \o ToJson(data))
=============================================================================
