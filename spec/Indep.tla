--------------------------------- MODULE Indep ---------------------------------
(***************************************************************************)
(* Disjoint sets, tests of independence on contingency tables, and the     *)
(* partition of variables into groups that are independent of each other.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, IndepTables, TLC
Holds(p) == p = TRUE
Total(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

-----------------------------------------------------------------------------
(* Disjoint sets: rep[x] is the representative of the set of x              *)
VARIABLE rep
UFInit == rep = <<>>
Make == rep' = Append(rep, Len(rep) + 1)
ClassOf(x) == {y \in 1..Len(rep) : rep[y] = rep[x]}
\* joining keeps one of the two representatives; 1 or 2 tells which
Join(x, y, r, w) ==
  IF rep[x] = rep[y] THEN r = 0 /\ w = -1 /\ UNCHANGED rep
  ELSE /\ w \in {1, 2} /\ r = (IF w = 1 THEN rep[x] ELSE rep[y])
       /\ rep' = [z \in 1..Len(rep) |-> IF rep[z] \in {rep[x], rep[y]} THEN r ELSE rep[z]]

-----------------------------------------------------------------------------
(* Contingency tables: t[i][j] joint counts                                 *)
Row(t, i) == Total(t[i])
Col(t, j) == Total([i \in 1..Len(t) |-> t[i][j]])
All(t) == Total([i \in 1..Len(t) |-> Row(t, i)])
DF(t) == (Len(t) - 1) * (Len(t[1]) - 1)
Cells(t) == {<<i, j>> : i \in 1..Len(t), j \in 1..Len(t[1])}
\* likelihood ratio statistic 2 sum o ln(o n/(r c)), in 1/100000
G(t) == LET n == All(t)
            r == [i \in 1..Len(t) |-> Row(t, i)]
            c == [j \in 1..Len(t[1]) |-> Col(t, j)]
            cell(i, j) == LET o == t[i][j] IN IF o = 0 THEN 0 ELSE o * (Ln[o] + Ln[n] - Ln[r[i]] - Ln[c[j]])
        IN 2 * Total([i \in 1..Len(t) |-> Total([j \in 1..Len(t[1]) |-> cell(i, j)])])
\* Pearson statistic n sum o^2/(r c) - n, in 1/100000, by long division
Frac(a, b) == LET q == a \div b
                  r1 == (a % b) * 1000
                  r2 == (r1 % b) * 100
              IN q * 100000 + (r1 \div b) * 100 + r2 \div b
Pearson(t) == LET n == All(t)
                  r == [i \in 1..Len(t) |-> Row(t, i)]
                  c == [j \in 1..Len(t[1]) |-> Col(t, j)]
                  cell(i, j) == LET o == t[i][j] IN IF o = 0 THEN 0 ELSE Frac(o * o * n, r[i] * c[j])
              IN Total([i \in 1..Len(t) |-> Total([j \in 1..Len(t[1]) |-> cell(i, j)])]) - n * 100000
\* the verdict at a level of significance, unless the statistic is within rounding of the critical value
Verdict(t, s, level, slack) ==
  IF DF(t) = 0 THEN "independent"
  ELSE LET d == s - Crit[DF(t)][level] IN
       IF d > slack THEN "dependent" ELSE IF d < -slack THEN "independent" ELSE "either"
Slack(t) == 10 * All(t) + 100
\* a table taken k times over has k times the statistic; one that is the product of its margins has none
IsProduct(t) == \A x \in Cells(t) : t[x[1]][x[2]] * All(t) = Row(t, x[1]) * Col(t, x[2])
TimesVerdict(t, s, k, level) ==
  IF DF(t) = 0 \/ IsProduct(t) THEN "independent"
  ELSE LET d == s - Crit[DF(t)][level] \div k IN
       IF d > Slack(t) THEN "dependent" ELSE IF d < -Slack(t) THEN "independent" ELSE "either"
GVerdict(t, level) == Verdict(t, G(t), level, Slack(t))
PVerdict(t, level) == Verdict(t, Pearson(t), level, Slack(t))

-----------------------------------------------------------------------------
(* Groups of variables: the connected components of dependence              *)
Table(x, y) == [a \in 1..x.cats |-> [b \in 1..y.cats |->
                 Cardinality({k \in 1..Len(x.data) : x.data[k] = a-1 /\ y.data[k] = b-1})]]
RECURSIVE Grow(_, _)
Grow(edges, s) == LET t == s \cup {e[2] : e \in {f \in edges : f[1] \in s}} IN IF t = s THEN s ELSE Grow(edges, t)
Components(vs, edges) == {Grow(edges, {v}) : v \in vs}
Pairs(n) == {p \in (1..n) \X (1..n) : p[1] # p[2]}
IsPartition(sets, vs) == /\ UNION ToSet(sets) = vs
                         /\ \A i, j \in 1..Len(sets) : i # j => sets[i] \cap sets[j] = {}
IsGrouping(vds, level, groups) ==
  LET n == Len(vds)
      vd == TLCEval([p \in {q \in Pairs(n) : q[1] < q[2]} |-> GVerdict(Table(vds[p[1]], vds[p[2]]), level)])
      ver(a, b) == IF a < b THEN vd[<<a, b>>] ELSE vd[<<b, a>>]
      sure == TLCEval({p \in Pairs(n) : ver(p[1], p[2]) = "dependent"})
      may == TLCEval({p \in Pairs(n) : ver(p[1], p[2]) # "independent"})
      id(s) == {vds[i].id : i \in s}
      gs == [k \in 1..Len(groups) |-> ToSet(groups[k])]
  IN /\ \A k \in 1..Len(groups) : Cardinality(gs[k]) = Len(groups[k]) /\ Len(groups[k]) > 0
     /\ IsPartition(gs, id(1..n))
     /\ \A s \in Components(1..n, sure) : \E k \in 1..Len(gs) : id(s) \subseteq gs[k]
     /\ \A k \in 1..Len(gs) : \E s \in Components(1..n, may) : gs[k] \subseteq id(s)
=============================================================================
