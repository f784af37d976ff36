-------------------------------- MODULE Regions --------------------------------
(***************************************************************************)
(* Networks built over regions, i.e. sets of variables: a region of one    *)
(* variable has Gaussian leaves, one per quantile of its data; a larger    *)
(* one has sums, whose children are products that split the region in two. *)
(* A network is a sequence of nodes, children first and the root last:     *)
(*   [k |-> "leaf", v, mu, var], [k |-> "prod", ch], [k |-> "sum", ch, w]  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
Qu == INSTANCE Stats
Holds(p) == p = TRUE
Total(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Micro == 10000
Near(a, b, e) == a - b <= e /\ b - a <= e
Column(rows, v) == [r \in 1..Len(rows) |-> rows[r][v]]
GaussFits(x, q) == /\ Near(x.mu * Len(q), Qu!RawM(q) * Micro, Len(q))
                   /\ IF Qu!RawV(q) = 0 THEN Near(x.var * 4, Micro, 4)
                      ELSE Near(x.var * Len(q) * Len(q), Qu!RawV(q) * Micro, Len(q) * Len(q))
Scopes(ns) == FoldLeft(LAMBDA a, n : TLCEval(Append(a, IF n.k = "leaf" THEN {n.v} ELSE UNION {a[c] : c \in ToSet(n.ch)})), <<>>, ns)
Of(ns, k) == {i \in 1..Len(ns) : ns[i].k = k}
Root(ns) == Len(ns)

\* the shape: sums over splits in two
Shaped(ns, sc) ==
  /\ \A i \in 1..Len(ns) : ns[i].k # "leaf" => \A j \in 1..Len(ns[i].ch) : ns[i].ch[j] < i
  /\ \A i \in Of(ns, "prod") : /\ Len(ns[i].ch) = 2 /\ sc[ns[i].ch[1]] \cap sc[ns[i].ch[2]] = {}
                               /\ \A j \in 1..2 : ns[ns[i].ch[j]].k # "prod"
  /\ \A i \in Of(ns, "sum") : /\ Len(ns[i].ch) > 0
                              /\ \A j \in 1..Len(ns[i].ch) : ns[ns[i].ch[j]].k = "prod" /\ sc[ns[i].ch[j]] = sc[i]
Leaves(ns, v) == SortSeq(SetToSeq({i \in Of(ns, "leaf") : ns[i].v = v}), LAMBDA a, b : ns[a].mu < ns[b].mu)
\* all quantiles of each variable, or some of them, each at most once
AllQuantiles(ns, rows, v, g) == LET qs == TLCEval(Qu!Quantiles(Column(rows, v), g))
                                    ls == TLCEval(Leaves(ns, v))
                                IN Len(ls) = Len(qs) /\ \A i \in 1..Len(qs) : GaussFits(ns[ls[i]], qs[i])
SomeQuantiles(ns, rows, v, g) == LET qs == TLCEval(Qu!Quantiles(Column(rows, v), g))
                                     ls == TLCEval(Leaves(ns, v))
                                 IN Len(ls) \in 1..Len(qs) /\ \A i \in 1..Len(ls) : \E j \in 1..Len(qs) : GaussFits(ns[ls[i]], qs[j])
Pair(ns, p) == ToSet(ns[p].ch)
\* the weights are a distribution; one that gradient descent has made small may round to nothing
Weighed(ns, least) == \A i \in Of(ns, "sum") : /\ Len(ns[i].w) = Len(ns[i].ch) /\ \A j \in 1..Len(ns[i].w) : ns[i].w[j] >= least
                                        /\ Near(Total(ns[i].w), 1000000, Len(ns[i].w))

-----------------------------------------------------------------------------
(* Dennis and Ventura: every region but the root has m sums, each a sum    *)
(* over all pairs of nodes of the two halves of each split of the region   *)
Reps(ns, sc, s) == {i \in 1..Len(ns) : ns[i].k # "prod" /\ sc[i] = s}
Halves(ns, sc, i) == {{sc[c] : c \in Pair(ns, p)} : p \in ToSet(ns[i].ch)}
DennisNet(ns, rows, m, g, least) ==
  LET sc == TLCEval(Scopes(ns))
      vs == 1..Len(rows[1])
  IN /\ Shaped(ns, sc) /\ Weighed(ns, least)
     /\ sc[Root(ns)] = vs
     /\ \A v \in vs : AllQuantiles(ns, rows, v, IF g > Len(rows) THEN 1 ELSE g)
     /\ Len(rows[1]) > 1 => ns[Root(ns)].k = "sum"
     /\ \A i \in Of(ns, "sum") :
          /\ Cardinality(Reps(ns, sc, sc[i])) = IF i = Root(ns) THEN 1 ELSE m
          /\ \A j \in Reps(ns, sc, sc[i]) : ToSet(ns[j].ch) = ToSet(ns[i].ch)
          /\ \A h \in Halves(ns, sc, i) :
               \A a, b \in UNION {Reps(ns, sc, s) : s \in h} :
                  sc[a] \cap sc[b] = {} => \E p \in ToSet(ns[i].ch) : Pair(ns, p) = {a, b}

-----------------------------------------------------------------------------
(* Poon and Domingos: regions are rectangles of the image, aligned to the  *)
(* resolution or within one cell of it                                     *)
Rect(w, x1, y1, x2, y2) == {1 + x + y * w : x \in x1..(x2-1), y \in y1..(y2-1)}
Coarse(w, h, r) == {<<x1, y1, x2, y2>> \in (0..w) \X (0..h) \X (0..w) \X (0..h) :
                      x1 < x2 /\ y1 < y2 /\ x1 % r = 0 /\ x2 % r = 0 /\ y1 % r = 0 /\ y2 % r = 0}
Fine(w, h, r) == {<<x1, y1, x2, y2>> \in (0..w) \X (0..h) \X (0..w) \X (0..h) :
                      x1 < x2 /\ y1 < y2 /\ x1 \div r = (x2-1) \div r /\ y1 \div r = (y2-1) \div r}
Rects(w, h, r) == Coarse(w, h, r) \cup Fine(w, h, r)
\* the ways to cut a rectangle in two
Cuts(w, h, r, q) == LET all == Rects(w, h, r)
                        unit == IF q \in Fine(w, h, r) THEN 1 ELSE r
                    IN {<<<<q[1], q[2], x, q[4]>>, <<x, q[2], q[3], q[4]>>>> : x \in {z \in (q[1]+1)..(q[3]-1) : z % unit = 0}}
                       \cup {<<<<q[1], q[2], q[3], y>>, <<q[1], y, q[3], q[4]>>>> : y \in {z \in (q[2]+1)..(q[4]-1) : z % unit = 0}}
PoonNet(ns, rows, w, h, m, g, r) ==
  LET sc == TLCEval(Scopes(ns))
      vs == 1..(w * h)
      rects == TLCEval({Rect(w, q[1], q[2], q[3], q[4]) : q \in Rects(w, h, r)})
  IN /\ Shaped(ns, sc)
     /\ sc[Root(ns)] = vs
     /\ \A v \in vs : SomeQuantiles(ns, rows, v, g)
     /\ \A i \in 1..Len(ns) : sc[i] \in rects
     /\ \A i \in Of(ns, "sum") :
          /\ Cardinality(Reps(ns, sc, sc[i])) <= (IF i = Root(ns) THEN 1 ELSE m)
          /\ Cardinality(ToSet(ns[i].ch)) = Len(ns[i].ch)
          \* an instance adds at most one child to a sum
          /\ Len(ns[i].ch) <= Len(rows)
     /\ \A i, j \in Of(ns, "prod") : i # j => Pair(ns, i) # Pair(ns, j)
=============================================================================
