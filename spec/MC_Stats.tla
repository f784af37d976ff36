-------------------------------- MODULE MC_Stats --------------------------------
(* Every sequence of up to MaxLen values 0..Top.                               *)
EXTENDS Stats, Json, TLC
CONSTANTS MaxLen, Top, Emit
VARIABLE x
MCInit == x \in UNION {[1..n -> 0..Top] : n \in 1..MaxLen}
MCSpec == MCInit /\ [][UNCHANGED x]_x
\* the quantiles are the sorted values cut into at most m nonempty runs
Cuts == \A m \in 1..(Len(x) + 2) :
          LET q == Quantiles(x, m) IN
          /\ Len(q) <= m /\ FoldLeft(LAMBDA a, b : a \o b, <<>>, q) = Sorted(x)
          /\ \A i \in 1..Len(q) : q[i] # <<>>
          /\ \A i \in 1..(Len(q)-2) : Len(q[i]) = Len(q[i+1])
\* mean and variance of values are those of their counts
Moments == LET c == [v \in 1..(Top+1) |-> Occurs(x, v-1)] IN
           N(c) = Len(x) /\ M(c) = RawM(x) /\ V(c) = RawV(x) /\ V(c) >= 0
Trims == \A v \in 0..Top : ~ (v \in ToSet(Without(x, v))) /\ Len(Without(x, v)) = Len(x) - Occurs(x, v)
Emitted == Emit => PrintT("@@" \o ToJson(x))
=============================================================================
