--------------------------------- MODULE Stats ---------------------------------
(***************************************************************************)
(* Statistics of counts and of values, in exact integer arithmetic: a      *)
(* quotient is represented by its numerator over a denominator that the    *)
(* arguments determine.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
Total(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Times1(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n-1)

(* counts: c[i] occurrences of the value i-1 *)
N(c) == Total(c)
M(c) == Total([i \in 1..Len(c) |-> (i-1) * c[i]])                    \* mean = M/N
Sq(c) == Total([i \in 1..Len(c) |-> (i-1) * (i-1) * c[i]])
V(c) == N(c) * Sq(c) - M(c) * M(c)                                    \* variance = V/N^2
IsMode(c, i) == i \in 1..Len(c) /\ \A j \in 1..Len(c) : c[j] <= c[i]

(* raw values *)
RawM(x) == Total(x)                                                   \* mean = RawM/Len
RawV(x) == Len(x) * Total([i \in 1..Len(x) |-> x[i] * x[i]]) - RawM(x) * RawM(x)   \* variance = RawV/Len^2

(* quantiles: runs of the sorted values, all as long as the rounded share  *)
(* except for the last, which gets what is left; none is empty             *)
Sorted(x) == SortSeq(x, LAMBDA a, b : a < b)
Share(k, m) == IF k \div m <= 1 THEN 1 ELSE (2*k + m) \div (2*m)
Quantile(x, m, i) == LET k == Len(x)
                         z == Share(k, m)
                         from == (i-1) * z + 1
                         to == IF i = m THEN k ELSE IF i * z < k THEN i * z ELSE k
                     IN SubSeq(Sorted(x), from, to)
Quantiles(x, m) == SelectSeq([i \in 1..m |-> Quantile(x, m, i)], LAMBDA q : q # <<>>)

(* sums with signs *)
SignedSum(k, s) == Total([i \in 1..Len(k) |-> k[i] * s[i]])
Occurs(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in ToSet(s) \cup ToSet(t) : Occurs(s, x) = Occurs(t, x)
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
=============================================================================
