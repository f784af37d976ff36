--------------------------------- MODULE Net ---------------------------------
(***************************************************************************)
(* The meaning of a sum-product network, in exact integer arithmetic.      *)
(*                                                                         *)
(* A network is a sequence of node records in which every child has a      *)
(* smaller index than its parents; the root is the last node.              *)
(*   sum  : [t |-> "sum",  ch |-> children, w |-> weights, wd |-> d]       *)
(*          weight i is the rational w[i] / 2^d                            *)
(*   prod : [t |-> "prod", ch |-> children]                                *)
(*   ind  : [t |-> "ind",  var |-> x, val |-> v]      indicator [X = v]    *)
(*   mult : [t |-> "mult", var |-> x, tab |-> p, td |-> d]                 *)
(*          Pr(X = v) = p[v+1] / 2^d                                       *)
(* Real values are rationals with a power-of-two denominator.  Node n has  *)
(* denominator 2^Den(net)[n]; every operator below works on numerators.    *)
(* An evidence is a function from a finite set of variables to values; a   *)
(* variable outside its domain is marginalised (sums) or maximised (MAP).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

\* JSON gives maps as sequences of pairs.
PairsToFcn(ps) == [k \in {ps[i][1] : i \in 1..Len(ps)} |->
                     ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = k][2]]
OnePerKey(ps) == \A i, j \in 1..Len(ps) : i # j => ps[i][1] # ps[j][1]
Override(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

\* A predicate used as a guard of an action.  (Without the equation TLC would
\* take every witness of an existential in it as a separate way to do the step.)
Holds(p) == p = TRUE

Pow2(k) == 2^k
IsLeaf(n) == n.t \in {"ind", "mult"}
Kids(n) == IF IsLeaf(n) THEN <<>> ELSE n.ch
KidSet(n) == ToSet(Kids(n))
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
ProdSeq(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
MaxSeq(s) == FoldLeft(LAMBDA a, b : IF b > a THEN b ELSE a, 0, s)

WellFormed(net) ==
  /\ Len(net) > 0
  /\ \A i \in 1..Len(net) :
       LET n == net[i] IN
       /\ n.t \in {"sum", "prod", "ind", "mult"}
       /\ n.t \in {"sum", "prod"} => /\ Len(n.ch) > 0
                                     /\ \A j \in 1..Len(n.ch) : n.ch[j] \in 1..(i-1)
       /\ n.t = "sum" => Len(n.w) = Len(n.ch)

Root(net) == Len(net)

(* Bottom-up evaluation: Up(net, F) is the sequence of F(node, values of   *)
(* the earlier nodes).                                                     *)
Up(net, F(_, _)) == FoldLeft(LAMBDA acc, n : Append(acc, F(n, acc)), <<>>, net)

Den(net) ==
  LET F(n, acc) ==
        CASE n.t = "ind"  -> 0
          [] n.t = "mult" -> n.td
          [] n.t = "prod" -> SumSeq([i \in 1..Len(n.ch) |-> acc[n.ch[i]]])
          [] n.t = "sum"  -> n.wd + MaxSeq([i \in 1..Len(n.ch) |-> acc[n.ch[i]]])
  IN Up(net, F)

(* weight of the i-th child of sum k, as a multiplier of child numerators *)
EdgeNum(net, den, k, i) ==
  LET n == net[k] IN n.w[i] * Pow2(den[k] - n.wd - den[n.ch[i]])

-----------------------------------------------------------------------------
(* Soft values: the network polynomial at every node.                      *)
LeafVal(n, ev) ==
  IF n.t = "ind" THEN (IF n.var \notin DOMAIN ev THEN 1
                       ELSE IF ev[n.var] = n.val THEN 1 ELSE 0)
  ELSE IF n.var \notin DOMAIN ev THEN Pow2(n.td)
       ELSE IF ev[n.var] + 1 \in 1..Len(n.tab) THEN n.tab[ev[n.var] + 1] ELSE 0

Vals(net, den, ev) ==
  LET F(n, acc) ==
        LET k == Len(acc) + 1 IN
        CASE n.t \in {"ind", "mult"} -> LeafVal(n, ev)
          [] n.t = "prod" -> ProdSeq([i \in 1..Len(n.ch) |-> acc[n.ch[i]]])
          [] n.t = "sum"  -> SumSeq([i \in 1..Len(n.ch) |->
                                acc[n.ch[i]] * EdgeNum(net, den, k, i)])
  IN Up(net, F)

Val(net, den, ev) == Vals(net, den, ev)[Root(net)]

-----------------------------------------------------------------------------
(* Max-product values.                                                     *)
LeafMax(n, ev) ==
  IF n.var \in DOMAIN ev THEN LeafVal(n, ev)
  ELSE IF n.t = "ind" THEN 1 ELSE MaxSeq(n.tab)

MaxVals(net, den, ev) ==
  LET F(n, acc) ==
        LET k == Len(acc) + 1 IN
        CASE n.t \in {"ind", "mult"} -> LeafMax(n, ev)
          [] n.t = "prod" -> ProdSeq([i \in 1..Len(n.ch) |-> acc[n.ch[i]]])
          [] n.t = "sum"  -> MaxSeq([i \in 1..Len(n.ch) |->
                                acc[n.ch[i]] * EdgeNum(net, den, k, i)])
  IN Up(net, F)

(* Is child number i of sum k a maximising child, given max values mv?     *)
IsArgMaxChild(net, den, mv, k, i) ==
  /\ net[k].t = "sum"
  /\ i \in 1..Len(net[k].ch)
  /\ mv[net[k].ch[i]] * EdgeNum(net, den, k, i) = mv[k]

-----------------------------------------------------------------------------
(* Structure.                                                              *)
Scopes(net) ==
  LET F(n, acc) == IF IsLeaf(n) THEN {n.var}
                   ELSE UNION {acc[n.ch[i]] : i \in 1..Len(n.ch)}
  IN Up(net, F)

Heights(net) ==
  LET F(n, acc) == IF IsLeaf(n) THEN 0
                   ELSE 1 + MaxSeq([i \in 1..Len(n.ch) |-> acc[n.ch[i]]])
  IN Up(net, F)

\* the nodes reachable from node r, top-down
ReachFrom(net, r) ==
  FoldLeft(LAMBDA acc, d :
             LET k == r + 1 - d IN IF k \in acc THEN TLCEval(acc \cup KidSet(net[k])) ELSE acc,
           {r}, [d \in 1..r |-> d])
Reach(net) == ReachFrom(net, Root(net))

Parents(net, k) == {p \in 1..Len(net) : k \in KidSet(net[p])}

IsComplete(net) ==
  LET sc == Scopes(net) IN
  \A k \in Reach(net) : net[k].t = "sum" =>
     \A i \in 1..Len(net[k].ch) : sc[net[k].ch[i]] = sc[k]

IsDecomposable(net) ==
  LET sc == Scopes(net) IN
  \A k \in Reach(net) : net[k].t = "prod" =>
     \A i, j \in 1..Len(net[k].ch) :
        i # j => sc[net[k].ch[i]] \cap sc[net[k].ch[j]] = {}

IsValid(net) == IsComplete(net) /\ IsDecomposable(net)

-----------------------------------------------------------------------------
(* Derivatives of the root polynomial.  The derivative with respect to     *)
(* node n has denominator 2^(den[root] - den[n]).                          *)
ProdExcept(vals, ch, i) ==
  FoldLeft(LAMBDA a, j : IF j = i THEN a ELSE a * vals[ch[j]], 1,
           [j \in 1..Len(ch) |-> j])

Derivs(net, den, vals) ==
  LET R == Root(net)
      N == Len(net)
      Zero == TLCEval([k \in 1..N |-> IF k = R THEN 1 ELSE 0])
      Push(d, k) ==
        LET n == net[k] IN
        IF IsLeaf(n) THEN d
        ELSE FoldLeft(LAMBDA acc, i :
               LET c == n.ch[i]
                   g == IF n.t = "sum" THEN d[k] * EdgeNum(net, den, k, i)
                        ELSE d[k] * ProdExcept(vals, n.ch, i)
               IN [acc EXCEPT ![c] = @ + g],
               d, [i \in 1..Len(n.ch) |-> i])
  IN FoldLeft(LAMBDA acc, j : Push(acc, N + 1 - j), Zero, [j \in 1..N |-> j])

(* dS/dw for weight i of sum k: denominator 2^den[root] after lifting.     *)
\* (d[k] has 2^(dR-dk), the child value 2^dc; lifted to 2^dR by 2^(dk-dc))
WeightDeriv(net, den, vals, d, k, i) ==
  LET c == net[k].ch[i] IN d[k] * vals[c] * Pow2(den[k] - den[c])
=============================================================================
