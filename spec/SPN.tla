--------------------------------- MODULE SPN ---------------------------------
(***************************************************************************)
(* A sum-product network as users of the library see it: it is built from  *)
(* sums, products and leaves, it may grow, and it is queried.  Queries do  *)
(* not change it.  Every query is an action whose parameters are the       *)
(* arguments *and the answer*: it is enabled only for right answers.       *)
(***************************************************************************)
EXTENDS Net

VARIABLES net,    \* the network
          den,    \* Den(net)
          sound,  \* IsValid(net): complete and decomposable
          snap,   \* exact image of the network (weights as bit patterns)
          acc,    \* accumulated weight derivatives of a batch
          hard    \* accumulated hard (MAP) edge counts
spnVars == <<net, den, sound, snap, acc, hard>>

Absent == -2      \* no entry in a table

NoCounts(n) == [k \in 1..Len(n) |-> [i \in 1..Len(Kids(n[k])) |-> 0]]

SPNInit == /\ net = <<[t |-> "ind", var |-> 0, val |-> 0]>>
           /\ den = <<0>>
           /\ sound = TRUE
           /\ snap = <<>>
           /\ acc = <<<<>>>>
           /\ hard = <<<<>>>>

SetNet(n) == /\ net' = n
             /\ den' = Den(n)
             /\ sound' = IsValid(n)
             /\ acc' = NoCounts(n)
             /\ hard' = NoCounts(n)

Build(n, image) == WellFormed(n) /\ SetNet(n) /\ snap' = image

(* A sum or product node gets one more child. *)
Grow(k, c, w) ==
  /\ k \in 1..Len(net) /\ c \in 1..(k-1) /\ ~IsLeaf(net[k])
  /\ SetNet([net EXCEPT ![k] =
        IF @.t = "sum" THEN [@ EXCEPT !.ch = Append(@, c), !.w = Append(@, w)]
        ELSE [@ EXCEPT !.ch = Append(@, c)]])
  /\ UNCHANGED snap

(* A weight is overwritten through the weight slice of a sum. *)
SetWeight(k, i, w) ==
  /\ k \in 1..Len(net) /\ net[k].t = "sum" /\ i \in 1..Len(net[k].w)
  /\ SetNet([net EXCEPT ![k].w[i] = w])
  /\ UNCHANGED snap

-----------------------------------------------------------------------------
(* C01: soft inference *)
Infer(k, ev, res) ==
  /\ k \in 1..Len(net)
  /\ res = Vals(net, den, ev)[k]
  /\ UNCHANGED spnVars

\* the table holds the value of every node below k
StoreTable(k, ev, table) ==
  /\ k \in 1..Len(net)
  /\ LET v == Vals(net, den, ev) IN
     \A j \in ReachFrom(net, k) : table[j] = v[j]
  /\ UNCHANGED spnVars

(* C02: MAP *)
MaxValue(k, ev, res) ==
  /\ k \in 1..Len(net)
  /\ res = MaxVals(net, den, ev)[k]
  /\ UNCHANGED spnVars

\* a MAP state assigns exactly the scope, agrees with the evidence and
\* attains the MAP value
GoodState(k, ev, state) ==
  /\ DOMAIN state = Scopes(net)[k]
  /\ \A x \in DOMAIN state \cap DOMAIN ev : state[x] = ev[x]
  /\ MaxVals(net, den, state)[k] = MaxVals(net, den, ev)[k]

ArgMax(k, ev, res, state) ==
  /\ MaxValue(k, ev, res)
  /\ Holds(sound => GoodState(k, ev, state))

StoreMaxTable(k, ev, table, state) ==
  /\ k \in 1..Len(net)
  /\ LET v == MaxVals(net, den, ev) IN
     \A j \in ReachFrom(net, k) : table[j] = v[j]
  /\ Holds(sound => GoodState(k, ev, state))
  /\ UNCHANGED spnVars

\* the nodes met when following picks (a partial function from sums to child
\* positions) down from node k
Induced(k, picks) ==
  FoldLeft(LAMBDA seen, d :
             LET j == k + 1 - d IN
             IF j \notin seen \/ IsLeaf(net[j]) THEN seen
             ELSE IF net[j].t = "prod" THEN seen \cup KidSet(net[j])
             ELSE IF j \in DOMAIN picks THEN seen \cup {net[j].ch[picks[j]]}
             ELSE seen,
           {k}, [d \in 1..k |-> d])

GoodPicks(k, ev, picks) ==
  LET mv == MaxVals(net, den, ev) IN
  /\ \A j \in DOMAIN picks : /\ j \in 1..Len(net)
                             /\ IsArgMaxChild(net, den, mv, j, picks[j])
  /\ sound => DOMAIN picks = {j \in Induced(k, picks) : net[j].t = "sum"}

TraceOfMap(k, ev, picks) ==
  /\ k \in 1..Len(net)
  /\ Holds(GoodPicks(k, ev, picks))
  /\ UNCHANGED spnVars

-----------------------------------------------------------------------------
(* C03: traversals *)
\* order visits every node below k exactly once
Enumerates(k, order) ==
  /\ ToSet(order) = ReachFrom(net, k)
  /\ Len(order) = Cardinality(ToSet(order))

\* where each node is in the order (which has it once)
Places(order) == TLCEval(FoldLeft(LAMBDA f, i : [f EXCEPT ![order[i]] = i], [j \in 1..Len(net) |-> 0], [i \in 1..Len(order) |-> i]))
ChildrenFirst(order) ==
  LET at == Places(order) IN
  \A i \in 1..Len(order) : \A c \in KidSet(net[order[i]]) : at[c] > 0 /\ at[c] < i

TopSort(k, order) ==
  /\ Holds(Enumerates(k, order) /\ ChildrenFirst(order)) /\ UNCHANGED spnVars

\* the sort is told to stop at the stop-th node
TopSortHalted(k, order, stop) ==
  /\ ToSet(order) \subseteq ReachFrom(net, k)
  /\ Len(order) = Cardinality(ToSet(order))
  /\ Len(order) = (IF stop <= Cardinality(ReachFrom(net, k))
                   THEN stop ELSE Cardinality(ReachFrom(net, k)))
  /\ Holds(ChildrenFirst(order))
  /\ UNCHANGED spnVars

\* what a search from k visits when it does not look below skip nodes
Below(k, skip) ==
  FoldLeft(LAMBDA seen, d :
             LET j == k + 1 - d IN
             IF j \in seen /\ j \notin skip THEN TLCEval(seen \cup KidSet(net[j])) ELSE seen,
           {k}, [d \in 1..k |-> d])

ParentFirst(k, order, skip) ==
  /\ Len(order) > 0 /\ order[1] = k
  /\ FoldLeft(LAMBDA a, x : TLCEval([ok |-> a.ok /\ x \in a.met,
                                    met |-> IF x \in skip THEN a.met ELSE a.met \cup KidSet(net[x])]),
              [ok |-> TRUE, met |-> {k}], order).ok

\* the levels at which a parent-first order meets its nodes: one below the
\* highest parent met before.  In a breadth-first order they never decrease
\* (and are then the distances from the start).
Levels(order, skip) ==
  LET far == Len(net) + 1
      f == FoldLeft(LAMBDA a, x :
             IF x \in skip THEN [lv |-> Append(a.lv, a.at[x]), at |-> a.at]
             ELSE LET ks == TLCEval(KidSet(net[x])) IN
                  TLCEval([lv |-> Append(a.lv, a.at[x]),
                           at |-> [j \in 1..Len(net) |-> IF j \in ks /\ a.at[j] > a.at[x] + 1 THEN a.at[x] + 1 ELSE a.at[j]]]),
           [lv |-> <<>>, at |-> [j \in 1..Len(net) |-> IF j = order[1] THEN 0 ELSE far]], order)
  IN f.lv

Search(k, order, skip, stop, breadth) ==
  LET all == Below(k, skip)
      len == IF stop > 0 /\ stop < Cardinality(all) THEN stop ELSE Cardinality(all)
  IN /\ k \in 1..Len(net)
     /\ ToSet(order) \subseteq all
     /\ Len(order) = Cardinality(ToSet(order))
     /\ Len(order) = len
     /\ Holds(ParentFirst(k, order, skip))
     /\ Holds(breadth => LET lv == TLCEval(Levels(order, skip)) IN
                         \A i \in 1..(Len(order)-1) : lv[i] <= lv[i+1])
     /\ UNCHANGED spnVars

CountKinds(k, sums, prods, leaves) ==
  LET below == ReachFrom(net, k)
      cnt(p(_)) == Cardinality({j \in below : p(net[j])})
  IN /\ sums = cnt(LAMBDA n : n.t = "sum")
     /\ prods = cnt(LAMBDA n : n.t = "prod")
     /\ leaves = cnt(LAMBDA n : IsLeaf(n))
     /\ UNCHANGED spnVars

HeightOf(k, h) == k \in 1..Len(net) /\ h = Heights(net)[k] /\ UNCHANGED spnVars

-----------------------------------------------------------------------------
(* C04: scope and validity *)
NoDup(s) == Len(s) = Cardinality(ToSet(s))
ScopeOf(k, sc) ==
  /\ k \in 1..Len(net) /\ NoDup(sc) /\ ToSet(sc) = Scopes(net)[k]
  /\ UNCHANGED spnVars
ScopeTable(k, scs) ==
  /\ LET s == Scopes(net) IN
     \A j \in ReachFrom(net, k) : NoDup(scs[j]) /\ ToSet(scs[j]) = s[j]
  /\ UNCHANGED spnVars
Validity(complete, decomposable) ==
  /\ complete = IsComplete(net) /\ decomposable = IsDecomposable(net)
  /\ UNCHANGED spnVars

-----------------------------------------------------------------------------
(* C05: an image of the network is what it was when it was built *)
SameImage(image) == image = snap /\ UNCHANGED spnVars

-----------------------------------------------------------------------------
(* C07: derivatives *)
Derive(ev, d) ==
  /\ LET v == Vals(net, den, ev) IN d = Derivs(net, den, v)
  /\ UNCHANGED spnVars

WeightGrads(ev) ==
  LET v == Vals(net, den, ev)
      d == Derivs(net, den, v)
  IN [k \in 1..Len(net) |->
        IF net[k].t # "sum" THEN [i \in 1..Len(Kids(net[k])) |-> 0]
        ELSE [i \in 1..Len(net[k].ch) |-> WeightDeriv(net, den, v, d, k, i)]]

\* only sums have entries
SumEntries(t) == [k \in 1..Len(net) |-> IF net[k].t = "sum" THEN t[k] ELSE <<>>]

DeriveWeights(ev, wts) ==
  /\ wts = SumEntries(WeightGrads(ev))
  /\ UNCHANGED spnVars

\* a batch accumulates
DeriveBatch(ev, wts) ==
  /\ LET g == WeightGrads(ev) IN
     acc' = [k \in 1..Len(net) |-> [i \in 1..Len(acc[k]) |-> acc[k][i] + g[k][i]]]
  /\ wts = SumEntries(acc')
  /\ UNCHANGED <<net, den, sound, snap, hard>>

\* one more MAP trace is counted; which one is not determined when there are ties
DeriveHard(ev, counts) ==
  /\ \A k \in 1..Len(net) : Len(counts[k]) = Len(hard[k])
  /\ \A k \in 1..Len(net) : \A i \in 1..Len(hard[k]) :
        counts[k][i] \in {hard[k][i], hard[k][i] + 1}
  /\ LET inc(k) == {i \in 1..Len(hard[k]) : counts[k][i] = hard[k][i] + 1}
         hit == {k \in 1..Len(net) : inc(k) # {}}
     IN /\ \A k \in hit : Cardinality(inc(k)) = 1
        /\ Holds(GoodPicks(Root(net), ev, [k \in hit |-> CHOOSE i \in inc(k) : TRUE]))
  /\ hard' = counts
  /\ UNCHANGED <<net, den, sound, snap, acc>>

\* many MAP traces of the same evidence: whatever way ties went, as many traces
\* leave a node as came to it
Arrived(counts, times) ==
  LET R == Root(net)
      add(f, j) == LET inc(c) == LET per(i) == IF net[j].ch[i] # c THEN 0
                                               ELSE IF net[j].t = "sum" THEN counts[j][i] ELSE f[j]
                                 IN SumSeq([i \in 1..Len(net[j].ch) |-> per(i)])
                   IN IF IsLeaf(net[j]) THEN f
                      ELSE TLCEval([c \in 1..Len(net) |-> f[c] + inc(c)])
  IN FoldLeft(LAMBDA f, d : add(f, R + 1 - d), [c \in 1..Len(net) |-> IF c = R THEN times ELSE 0], [d \in 1..R |-> d])
ManyTraces(ev, times, counts) ==
  sound => LET in == TLCEval(Arrived(counts, times))
               mv == TLCEval(MaxVals(net, den, ev))
           IN \A k \in 1..Len(net) : net[k].t = "sum" =>
                /\ Len(counts[k]) = Len(net[k].ch) /\ SumSeq(counts[k]) = in[k]
                /\ \A i \in 1..Len(net[k].ch) : counts[k][i] > 0 => IsArgMaxChild(net, den, mv, k, i)

Forget == /\ acc' = NoCounts(net) /\ hard' = NoCounts(net)
          /\ UNCHANGED <<net, den, sound, snap>>
=============================================================================
