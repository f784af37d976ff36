-------------------------------- MODULE MC_Norm --------------------------------
(* Normalisation of every small integer vector.                               *)
EXTENDS Learn, Json
CONSTANTS MaxLen, Neg, Hi, Emit
VARIABLE v
MCInit == v = <<>> /\ SPNInit
MCNext == /\ Len(v) < MaxLen /\ \E x \in (-Neg)..Hi : v' = Append(v, x)
          /\ UNCHANGED spnVars
MCSpec == MCInit /\ [][MCNext]_<<v, spnVars>>
N == Normal(v)
Distribution == Len(v) > 0 => /\ \A i \in 1..Len(v) : N[i] >= 0
                              /\ Dist(SumSeq(N), Unit) <= Len(v)
KeepsOrder == \A i, j \in 1..Len(v) : v[i] <= v[j] => N[i] <= N[j]
KeepsRatio == (Len(v) > 0 /\ MinSeq(v) >= 0 /\ SumSeq(v) > 0) =>
                \A i, j \in 1..Len(v) : Dist(N[i] * v[j], N[j] * v[i]) <= v[i] + v[j]
Emitted == (Emit /\ Len(v) > 0) => PrintT("@@" \o ToJson(v))
=============================================================================
