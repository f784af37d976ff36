-------------------------------- MODULE Cluster --------------------------------
(***************************************************************************)
(* Clusterings of a sequence of points (rows of integers): sequences of    *)
(* sets of row numbers.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC
Holds(p) == p = TRUE
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
D2(a, b) == Sum([i \in 1..Len(a) |-> (a[i] - b[i]) * (a[i] - b[i])])
Ham(a, b) == Cardinality({i \in 1..Len(a) : a[i] # b[i]})
Idx(rows) == 1..Len(rows)

\* nothing is lost and nothing is in two clusters
Partitions(rows, cs) == /\ UNION ToSet(cs) = Idx(rows)
                        /\ \A i, j \in 1..Len(cs) : i # j => cs[i] \cap cs[j] = {}

-----------------------------------------------------------------------------
(* Density: a point with at least mp others within distance sqrt(e2) is a  *)
(* core, and is together with all of them                                  *)
Close(rows, e2, i, j) == i # j /\ D2(rows[i], rows[j]) <= e2
Cores(rows, e2, mp) == {i \in Idx(rows) : Cardinality({j \in Idx(rows) : Close(rows, e2, i, j)}) >= mp}
RECURSIVE Grow(_, _)
Grow(edges, s) == LET t == s \cup {e[2] : e \in {f \in edges : f[1] \in s}} IN IF t = s THEN s ELSE Grow(edges, t)
Components(vs, edges) == {Grow(edges, {v}) : v \in vs}
Dense(rows, e2, mp) ==
  LET k == TLCEval(Cores(rows, e2, mp))
      edges == TLCEval({p \in Idx(rows) \X Idx(rows) : (p[1] \in k \/ p[2] \in k) /\ Close(rows, e2, p[1], p[2])})
  IN Components(Idx(rows), edges)

(* OPTICS: the first cluster is noise; every other one is a component of   *)
(* the cores with its borders.  A border goes to the component that is     *)
(* expanded first, or to noise if it is met before any of them.            *)
Ordered(rows, e2, mp) ==
  LET k == TLCEval(Cores(rows, e2, mp))
      edges == TLCEval({p \in k \X k : Close(rows, e2, p[1], p[2])})
      comps == TLCEval(Components(k, edges))
      near(b) == {c \in comps : \E i \in c : Close(rows, e2, i, b)}
      first(b) == CHOOSE c \in near(b) : \A d \in near(b) : Min(c) <= Min(d)
      bord(c) == {b \in Idx(rows) \ k : near(b) # {} /\ first(b) = c /\ Min(c) < b}
      full == {c \cup bord(c) : c \in comps}
  IN [noise |-> Idx(rows) \ UNION full, clusters |-> full]

-----------------------------------------------------------------------------
(* Partitions around centres: no point is nearer to another centre         *)
\* around means, exactly: squared distances over a common denominator.  An empty cluster has its centre at zero.
Tot(rows, c, d) == FoldSet(LAMBDA i, a : a + rows[i][d], 0, c)
Wt(c) == IF c = {} THEN 1 ELSE Cardinality(c)
DistTo(rows, i, c) == Sum([d \in 1..Len(rows[1]) |-> (rows[i][d] * Wt(c) - Tot(rows, c, d)) * (rows[i][d] * Wt(c) - Tot(rows, c, d))])
MeanStable(rows, cs) == \A k \in 1..Len(cs) : \A i \in cs[k] : \A j \in (1..Len(cs)) \ {k} :
     DistTo(rows, i, cs[k]) * Wt(cs[j]) * Wt(cs[j]) <= DistTo(rows, i, cs[j]) * Wt(cs[k]) * Wt(cs[k])
\* around modes
Count(rows, c, d, v) == Cardinality({i \in c : rows[i][d] = v})
Modes(rows, c, d) == LET vs == {rows[i][d] : i \in c}
                         n == TLCEval([v \in vs |-> Count(rows, c, d, v)])
                     IN {v \in vs : \A u \in vs : n[u] <= n[v]}
ModeVectors(rows, c) == LET ms == TLCEval([d \in 1..Len(rows[1]) |-> Modes(rows, c, d)]) IN
                        {f \in [1..Len(rows[1]) -> UNION {ms[d] : d \in 1..Len(rows[1])}] : \A d \in 1..Len(rows[1]) : f[d] \in ms[d]}
\* a choice of centres, one per cluster, such that nobody wants to move
RECURSIVE Picks(_)
Picks(ss) == IF ss = <<>> THEN {<<>>} ELSE {<<x>> \o t : x \in Head(ss), t \in Picks(Tail(ss))}
Stable(rows, cs, centres) == \E m \in Picks(centres) : \A k \in 1..Len(cs) : \A i \in cs[k] : \A j \in 1..Len(cs) :
                                 Ham(m[k], rows[i]) <= Ham(m[j], rows[i])
ModeStable(rows, cs) == Stable(rows, cs, [k \in 1..Len(cs) |-> ModeVectors(rows, cs[k])])
MedoidStable(rows, cs) == Stable(rows, cs, [k \in 1..Len(cs) |-> {rows[i] : i \in cs[k]}])
\* of any size: a choice for any two clusters, such that nobody wants to move between these; for modes, at least, nobody
\* wants to whatever the choices
PairStable(rows, cs) ==
  LET of == TLCEval([k \in 1..Len(cs) |-> {rows[i] : i \in cs[k]}]) IN
  \A k, j \in 1..Len(cs) : k < j =>
    \E a \in of[k], b \in of[j] : /\ \A x \in of[k] : Ham(a, x) <= Ham(b, x)
                                 /\ \A x \in of[j] : Ham(b, x) <= Ham(a, x)
MayStay(rows, cs) ==
  LET ms == TLCEval([k \in 1..Len(cs) |-> [d \in 1..Len(rows[1]) |-> Modes(rows, cs[k], d)]])
      least(k, x) == Cardinality({d \in 1..Len(x) : x[d] \notin ms[k][d]})
      most(k, x) == Cardinality({d \in 1..Len(x) : ms[k][d] # {x[d]}})
  IN \A k \in 1..Len(cs) : \A x \in {rows[i] : i \in cs[k]} : \A j \in 1..Len(cs) : least(k, x) <= most(j, x)
NoneEmpty(cs) == \A k \in 1..Len(cs) : cs[k] # {}
Distinct(rows) == Cardinality({rows[i] : i \in Idx(rows)})

-----------------------------------------------------------------------------
(* Clusters given as the rows themselves                                   *)
Occurs(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameRows(s, t) == Len(s) = Len(t) /\ \A x \in ToSet(s) \cup ToSet(t) : Occurs(s, x) = Occurs(t, x)
RowsOf(rows, c) == [i \in 1..Cardinality(c) |-> rows[SetToSortSeq(c, <)[i]]]
Flat(cs) == FoldLeft(LAMBDA a, b : a \o b, <<>>, cs)
\* the clusters are those of cs in some order
SameClusters(rows, groups, cs) ==
  /\ Len(groups) = Cardinality(cs)
  /\ \A c \in cs : \E g \in 1..Len(groups) : SameRows(RowsOf(rows, c), groups[g])
  /\ \A g \in 1..Len(groups) : \E c \in cs : SameRows(RowsOf(rows, c), groups[g])
=============================================================================
