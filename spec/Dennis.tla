--------------------------------- MODULE Dennis ---------------------------------
(***************************************************************************)
(* Building the region graph: for each cluster of rows, the root is split  *)
(* in two at some place; if a known region is similar to one of the halves *)
(* it is taken instead; new regions are split in turn.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
CONSTANTS Vars, Clusters, TNum, TDen
VARIABLES regions, parts, stack, left
dnVars == <<regions, parts, stack, left>>
VS == 1..Vars
Init == regions = <<VS>> /\ parts = {} /\ stack = <<VS>> /\ left \in 0..(Clusters - 1)
\* |intersection| / |union| > TNum / TDen
Similar(s, t) == Cardinality(s \cap t) * TDen > TNum * Cardinality(s \cup t)
Subst(n, a, b) == LET c == SelectSeq(regions, LAMBDA s : s \subseteq n /\ s # n /\ (Similar(s, a) \/ Similar(s, b)))
                  IN IF c = <<>> THEN <<a, b>> ELSE <<c[1], n \ c[1]>>
Known(s) == s \in ToSet(regions)
Expand == /\ stack # <<>>
          /\ LET n == Head(stack) IN
             \E a \in SUBSET n : a # {} /\ a # n /\
               LET h == Subst(n, a, n \ a)
                   new == SelectSeq(h, LAMBDA s : ~Known(s))
                   again == SelectSeq(new, LAMBDA s : Cardinality(s) > 1)
               IN /\ regions' = regions \o new
                  /\ parts' = parts \cup {<<n, h[1], h[2]>>}
                  /\ stack' = again \o Tail(stack)
          /\ UNCHANGED left
NextCluster == stack = <<>> /\ left > 0 /\ left' = left - 1 /\ stack' = <<VS>> /\ UNCHANGED <<regions, parts>>
Spec == Init /\ [][Expand \/ NextCluster]_dnVars /\ WF_dnVars(Expand \/ NextCluster)
Done == stack = <<>> /\ left = 0
\* regions are distinct; parts split regions in two regions
Sound == /\ Cardinality(ToSet(regions)) = Len(regions)
         /\ \A p \in parts : p[2] \cup p[3] = p[1] /\ p[2] \cap p[3] = {} /\ p[2] # {} /\ p[3] # {} /\ Known(p[1]) /\ Known(p[2]) /\ Known(p[3])
RECURSIVE Reach(_)
Reach(s) == LET t == s \cup UNION {{p[2], p[3]} : p \in {q \in parts : q[1] \in s}} IN IF t = s THEN s ELSE Reach(t)
Splits(s) == {{p[2], p[3]} : p \in {q \in parts : q[1] = s}}
Complete == Done => /\ Reach({VS}) = ToSet(regions)
                    /\ \A s \in ToSet(regions) : Cardinality(s) > 1 => Splits(s) # {}
                    /\ \A s \in ToSet(regions) \ {VS} : Cardinality(Splits(s)) <= 1
                    /\ \A v \in VS : {v} \in ToSet(regions)
                    /\ Cardinality(Splits(VS)) \in 1..Clusters
Ends == <>Done
=============================================================================
