-------------------------------- MODULE Score --------------------------------
(***************************************************************************)
(* Classification scores: tables of (predicted, expected) pairs.  A score  *)
(* is a bag of pairs; everything a score reports follows from its bag.     *)
(* Evaluating a network on a dataset registers one pair per instance.      *)
(***************************************************************************)
EXTENDS SPN
VARIABLE scores      \* sequence of bags: <<predicted, expected>> -> count
scVars == <<scores>>

NoPairs == [p \in {} |-> 0]
CountOf(b, p) == IF p \in DOMAIN b THEN b[p] ELSE 0
AddPair(b, p) == [q \in DOMAIN b \cup {p} |-> CountOf(b, q) + IF q = p THEN 1 ELSE 0]
BagPlus(a, b) == [q \in DOMAIN a \cup DOMAIN b |-> CountOf(a, q) + CountOf(b, q)]
RECURSIVE SumOver(_, _)
SumOver(b, S) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN b[p] + SumOver(b, S \ {p})
HitsOf(b) == SumOver(b, {p \in DOMAIN b : p[1] = p[2]})
MissesOf(b) == SumOver(b, {p \in DOMAIN b : p[1] # p[2]})
SizeOf(b) == SumOver(b, DOMAIN b)
ListToBag(s) == FoldLeft(AddPair, NoPairs, s)

ScoreInit == scores = <<>>
Create == scores' = Append(scores, NoPairs)
Register(i, p, e) == scores' = [scores EXCEPT ![i] = AddPair(@, <<p, e>>)]
Merge(i, j) == scores' = [scores EXCEPT ![i] = BagPlus(@, scores[j])]
AddUp(i, j) == scores' = Append(scores, BagPlus(scores[i], scores[j]))
Clear(i) == scores' = [scores EXCEPT ![i] = NoPairs]

\* what a score shows
Shows(i, hits, misses, total, conf, c) ==
  LET b == scores[i] IN
  /\ hits = HitsOf(b) /\ misses = MissesOf(b) /\ total = SizeOf(b)
  /\ Len(conf) = c
  /\ \A x \in 1..c : Len(conf[x]) = c /\ \A y \in 1..c : conf[x][y] = CountOf(b, <<y-1, x-1>>)
  /\ UNCHANGED scVars
\* and prints: wrong is the list of <<expected, got>>, rate the accuracy in units of 10^-5
Prints(i, hits, misses, total, rate, wrong) ==
  LET b == scores[i]
      w == ListToBag([k \in 1..Len(wrong) |-> <<wrong[k][2], wrong[k][1]>>])
      miss == {p \in DOMAIN b : p[1] # p[2]}
  IN /\ hits = HitsOf(b) /\ misses = MissesOf(b) /\ total = SizeOf(b)
     /\ DOMAIN w = miss /\ \A p \in miss : w[p] = b[p]
     /\ total > 0 => LET d == rate * total - hits * 100000 IN d <= total /\ -d <= total
     /\ UNCHANGED scVars

-----------------------------------------------------------------------------
Hide(ev, v) == [x \in DOMAIN ev \ {v} |-> ev[x]]
\* the labels which a MAP state may have
MapLabels(ev, v) ==
  LET h == Hide(ev, v)
      m == MaxVals(net, den, h)[Root(net)]
      ls == UNION {IF net[k].t = "mult" THEN 0..(Len(net[k].tab)-1) ELSE {net[k].val} :
                     k \in {k \in 1..Len(net) : IsLeaf(net[k]) /\ net[k].var = v}}
  IN {x \in ls : MaxVals(net, den, Override(h, v, x))[Root(net)] = m}
\* the most likely labels
PosteriorLabels(ev, v, c) ==
  LET h == Hide(ev, v)
      val == [x \in 0..(c-1) |-> Val(net, den, Override(h, v, x))]
      m == Max({val[x] : x \in 0..(c-1)})
  IN {x \in 0..(c-1) : val[x] = m}

\* what registering the instances may add to a score
Predictions(ev, v, c, method) == IF method = "map" THEN MapLabels(ev, v) ELSE PosteriorLabels(ev, v, c)
\* Rows that expect e and may be predicted as sets[1], sets[2], ...: one choice per row gives counts exactly if there
\* are as many of both, and any labels take no more rows than may be predicted as one of them (Hall).
Chosen(sets, counts) ==
  /\ SumOver(counts, DOMAIN counts) = Len(sets)
  /\ \A T \in SUBSET DOMAIN counts :
       SumOver(counts, T) <= Cardinality({k \in 1..Len(sets) : sets[k] \cap T # {}})
RowSets(evs, labels, v, c, method, e) ==
  LET rows == SelectSeq([k \in 1..Len(evs) |-> k], LAMBDA k : labels[k] = e)
  IN [k \in 1..Len(rows) |-> TLCEval(Predictions(evs[rows[k]], v, c, method))]
Classified(evs, labels, v, c, method, delta) ==
  /\ sound
  /\ Len(labels) = Len(evs)
  /\ \A p \in DOMAIN delta : p[2] \in ToSet(labels)
  /\ \A e \in ToSet(labels) :
        LET ps == {p[1] : p \in {p \in DOMAIN delta : p[2] = e}}
        IN Chosen(TLCEval(RowSets(evs, labels, v, c, method, e)), [x \in ps |-> delta[<<x, e>>]])

Evaluate(i, evs, labels, v, c, method, delta) ==
  /\ Holds(Classified(evs, labels, v, c, method, delta))
  /\ scores' = [scores EXCEPT ![i] = BagPlus(@, delta)]
=============================================================================
