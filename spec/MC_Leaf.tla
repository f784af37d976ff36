--------------------------------- MODULE MC_Leaf ---------------------------------
(* Every leaf over up to MaxLen values with counts up to MaxCount.             *)
EXTENDS Leaf, Json
CONSTANTS MaxLen, MaxCount, Emit
VARIABLE cnt
mcVars == <<leaf, cnt>>
Counts == UNION {[1..n -> 0..MaxCount] : n \in 1..MaxLen}
MCInit == LeafInit /\ cnt \in Counts
Dist == /\ leaf = Nothing
        /\ leaf' \in {Smoothed(3, <<3>>, cnt), Uniform(3, Len(cnt))}
                     \cup (IF N(cnt) = 0 THEN {} ELSE
                           {GivenDist(3, cnt, N(cnt)), AtMean(3, cnt)} \cup {AtMode(3, cnt, i) : i \in {j \in 1..Len(cnt) : IsMode(cnt, j)}})
        /\ UNCHANGED cnt
MCSpec == MCInit /\ [][Dist]_mcVars
\* a distribution has mass one, and its mode is no less likely than anything else
Mass == leaf.kind = "discrete" => Total(leaf.pr) = leaf.d /\ \A i \in 1..Len(leaf.pr) : leaf.pr[i] <= leaf.pr[Best(leaf)]
\* smoothing keeps the order of the counts and leaves nothing impossible
Smooth == leaf.kind = "discrete" => \/ leaf.pr = cnt
             \/ \A i \in 1..Len(leaf.pr) : leaf.pr[i] > 0
                /\ \A j \in 1..Len(leaf.pr) : leaf.pr[i] > leaf.pr[j] => cnt[i] > cnt[j]
\* the mean lies among the values; only a constant has no variance
Spread == /\ V(cnt) >= 0
          /\ N(cnt) > 0 => /\ M(cnt) >= 0 /\ M(cnt) <= (Len(cnt) - 1) * N(cnt)
                           /\ (V(cnt) = 0) = (Cardinality({i \in 1..Len(cnt) : cnt[i] > 0}) = 1)
Emitted == (Emit /\ leaf = Nothing) => PrintT("@@" \o ToJson(cnt))
=============================================================================
