---------------------------------- MODULE Gens ----------------------------------
(***************************************************************************)
(* The Gens-Domingos structure learner.  Data is a sequence of rows, one   *)
(* value per variable 1..V.  A learned network is a tree:                  *)
(*   [k |-> "leaf", v, c]       counts c of a variable (smoothed by one)   *)
(*   [k |-> "mix", v, gs]       equal mixture of Gaussians of a variable   *)
(*   [k |-> "prod", ch]                                                    *)
(*   [k |-> "sum", n, ch]       child i has the weight n[i] / rows         *)
(* Parameters: significance level, number k of clusters (density clusters  *)
(* of radius sqrt(e2) and density mp if 0), number g of quantiles (counts  *)
(* if 0), categories of the variables.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
Gr == INSTANCE Cluster
Te == INSTANCE Indep WITH rep <- <<>>
Qu == INSTANCE Stats
Holds(p) == p = TRUE
Total(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Asc(s) == SetToSortSeq(s, <)
Micro == 10000

Project(rows, vs) == LET o == Asc(vs) IN [r \in 1..Len(rows) |-> [i \in 1..Len(o) |-> rows[r][o[i]]]]
Pick(rows, c) == LET o == Asc(c) IN [i \in 1..Len(o) |-> rows[o[i]]]
Column(rows, v) == [r \in 1..Len(rows) |-> rows[r][v]]
Counts(rows, v, p) == [a \in 1..p.cats[v] |-> Cardinality({r \in 1..Len(rows) : rows[r][v] = a - 1})]
Vars(rows, vs, p) == LET o == Asc(vs) IN [i \in 1..Len(o) |-> [id |-> o[i], cats |-> p.cats[o[i]], data |-> Column(rows, o[i])]]
Grouped(rows, vs, groups, p) == Te!IsGrouping(Vars(rows, vs, p), p.level, groups)
Alone(rows, vs, p) == Grouped(rows, vs, <<Asc(vs)>>, p)
Dense(rows, vs, p) == Gr!Dense(Project(rows, vs), p.e2, p.mp)
\* only one cluster, or too few rows
Whole(rows, vs, p) == IF p.k > 0 THEN p.k = 1 \/ Len(rows) < p.k ELSE Cardinality(Dense(rows, vs, p)) = 1

RECURSIVE Scope(_)
Scope(t) == IF t.k \in {"leaf", "mix"} THEN {t.v} ELSE UNION {Scope(t.ch[i]) : i \in 1..Len(t.ch)}

-----------------------------------------------------------------------------
(* What a network learned from known rows may be                           *)
Near(a, b, e) == a - b <= e /\ b - a <= e
\* a Gaussian with the moments of a quantile: mean and variance in units of 1/Micro
GaussFits(x, q) == /\ Near(x.mu * Len(q), Qu!RawM(q) * Micro, Len(q))
                   /\ IF Qu!RawV(q) = 0 THEN Near(x.var * 4, Micro, 4)
                      ELSE Near(x.var * Len(q) * Len(q), Qu!RawV(q) * Micro, Len(q) * Len(q))
LeafFits(t, rows, v, p) ==
  IF p.g = 0 THEN t.k = "leaf" /\ t.v = v /\ t.c = Counts(rows, v, p)
  ELSE /\ t.k = "mix" /\ t.v = v
       /\ LET qs == TLCEval(Qu!Quantiles(Column(rows, v), p.g)) IN
          Len(t.gs) = Len(qs) /\ \A i \in 1..Len(qs) : t.gs[i].w = 1 /\ GaussFits(t.gs[i], qs[i])
Factorised(t, rows, vs, p) ==
  /\ t.k = "prod" /\ Len(t.ch) = Cardinality(vs)
  /\ \A v \in vs : \E i \in 1..Len(t.ch) : LeafFits(t.ch[i], rows, v, p)

(* Below a sum over k-means, the rows of each child are not known, only how *)
(* many there are.                                                          *)
RECURSIVE Hidden(_, _, _, _)
Hidden(t, n, vs, p) ==
  CASE t.k = "leaf" -> p.g = 0 /\ vs = {t.v} /\ Len(t.c) = p.cats[t.v] /\ Total(t.c) = n /\ \A i \in 1..Len(t.c) : t.c[i] >= 0
    [] t.k = "mix" -> p.g > 0 /\ vs = {t.v} /\ Len(t.gs) = Len(Qu!Quantiles([i \in 1..n |-> i], p.g)) /\ \A i \in 1..Len(t.gs) : t.gs[i].w = 1
    [] t.k = "prod" -> /\ Len(t.ch) > 1
                       /\ UNION {Scope(t.ch[i]) : i \in 1..Len(t.ch)} = vs
                       /\ \A i, j \in 1..Len(t.ch) : i # j => Scope(t.ch[i]) \cap Scope(t.ch[j]) = {}
                       /\ \A i \in 1..Len(t.ch) : Hidden(t.ch[i], n, Scope(t.ch[i]), p)
    [] t.k = "sum" -> /\ Cardinality(vs) > 1 /\ Len(t.ch) \in 2..p.k /\ n >= p.k
                      /\ Len(t.n) = Len(t.ch) /\ Total(t.n) = n /\ \A i \in 1..Len(t.n) : t.n[i] > 0
                      /\ \A i \in 1..Len(t.ch) : Hidden(t.ch[i], t.n[i], vs, p)
    [] OTHER -> FALSE
\* the rows behind a network of n rows, as far as they can be told: counts, or the total of all values
RECURSIVE Behind(_, _, _, _)
Behind(t, n, v, p) ==
  CASE t.k = "leaf" -> t.c
    [] t.k = "mix" -> LET qs == Qu!Quantiles([i \in 1..n |-> i], p.g) IN <<Total([i \in 1..Len(qs) |-> t.gs[i].mu * Len(qs[i])])>>
    [] t.k = "prod" -> Behind(t.ch[CHOOSE i \in 1..Len(t.ch) : v \in Scope(t.ch[i])], n, v, p)
    [] OTHER -> FoldLeft(LAMBDA a, b : IF a = <<>> THEN b ELSE TLCEval([i \in 1..Len(b) |-> a[i] + b[i]]), <<>>,
                         TLCEval([i \in 1..Len(t.ch) |-> Behind(t.ch[i], t.n[i], v, p)]))
Explains(t, rows, vs, p) ==
  \A v \in vs : LET b == Behind(t, Len(rows), v, p) IN
     IF p.g = 0 THEN b = Counts(rows, v, p) ELSE Near(b[1], Total(Column(rows, v)) * Micro, Len(rows))

RECURSIVE Fits(_, _, _, _), Matches(_, _, _, _, _)
\* the children, in some order, are networks of the clusters
Matches(t, i, cs, rows, p) ==
  IF i > Len(t.ch) THEN cs = {}
  ELSE \E c \in cs : /\ t.n[i] = Cardinality(c) /\ Fits(t.ch[i], Pick(rows, c), Scope(t), p)
                     /\ Matches(t, i + 1, cs \ {c}, rows, p)
Fits(t, rows, vs, p) ==
  IF Cardinality(vs) = 1 THEN LeafFits(t, rows, CHOOSE v \in vs : TRUE, p)
  ELSE /\ t.k \in {"prod", "sum"} /\ Scope(t) = vs
       /\ CASE t.k = "prod" ->
                 \/ /\ Len(t.ch) > 1
                    /\ Grouped(rows, vs, [i \in 1..Len(t.ch) |-> Asc(Scope(t.ch[i]))], p)
                    /\ \A i \in 1..Len(t.ch) : Fits(t.ch[i], rows, Scope(t.ch[i]), p)
                 \/ Factorised(t, rows, vs, p) /\ Alone(rows, vs, p) /\ Whole(rows, vs, p)
            [] OTHER -> /\ Alone(rows, vs, p)
                        /\ IF p.k > 0 THEN Hidden(t, Len(rows), vs, p) /\ Explains(t, rows, vs, p)
                           ELSE Len(t.ch) > 1 /\ Len(t.n) = Len(t.ch) /\ Matches(t, 1, Dense(rows, vs, p), rows, p)

-----------------------------------------------------------------------------
(* The algorithm                                                           *)
Groups(rows, vs, p) ==
  LET vds == Vars(rows, vs, p)
      n == Len(vds)
      dep == {q \in Te!Pairs(n) : Te!GVerdict(Te!Table(vds[q[1]], vds[q[2]]), p.level) = "dependent"}
  IN {{vds[i].id : i \in c} : c \in Te!Components(1..n, dep)}
Leaf(rows, v, p) == [k |-> "leaf", v |-> v, c |-> Counts(rows, v, p)]
RECURSIVE Build(_, _, _)
Build(rows, vs, p) ==
  IF Cardinality(vs) = 1 THEN Leaf(rows, CHOOSE v \in vs : TRUE, p)
  ELSE LET gs == SetToSeq(Groups(rows, vs, p))
           cs == SetToSeq(Dense(rows, vs, p))
       IN IF Len(gs) > 1 THEN [k |-> "prod", ch |-> [i \in 1..Len(gs) |-> Build(rows, gs[i], p)]]
          ELSE IF Len(cs) = 1 THEN [k |-> "prod", ch |-> [i \in 1..Cardinality(vs) |-> Leaf(rows, Asc(vs)[i], p)]]
          ELSE [k |-> "sum", n |-> [i \in 1..Len(cs) |-> Cardinality(cs[i])], ch |-> [i \in 1..Len(cs) |-> Build(Pick(rows, cs[i]), vs, p)]]
RECURSIVE Valid(_)
Valid(t) == CASE t.k = "prod" -> \A i, j \in 1..Len(t.ch) : (i # j => Scope(t.ch[i]) \cap Scope(t.ch[j]) = {}) /\ Valid(t.ch[i])
              [] t.k = "sum" -> \A i, j \in 1..Len(t.ch) : Scope(t.ch[i]) = Scope(t.ch[j]) /\ Valid(t.ch[i])
              [] OTHER -> TRUE
=============================================================================
