-------------------------------- MODULE Graph --------------------------------
(***************************************************************************)
(* Drawings of networks.  A drawing is a sequence of named vertices and a  *)
(* sequence of edges <<from, to, label>>; the label of an edge is its      *)
(* weight in thousandths, -1 for none.  A drawing shows a network if the   *)
(* two unroll to the same tree, the order of children apart: a shared      *)
(* subnetwork may be drawn once or once for every parent.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
Holds(p) == p = TRUE
Bag(s) == {<<s[i], Cardinality({j \in 1..Len(s) : s[j] = s[i]})>> : i \in 1..Len(s)}

IsLeaf(n) == n.t \in {"ind", "mult", "gauss"}
Thousandths(n, i) == (n.w[i] * 1000) \div (2^n.wd)
Edge(n, i) == IF n.t = "sum" THEN Thousandths(n, i) ELSE -1

\* trees: <<kind, what the leaf shows, bag of <<label, tree>> >>
RECURSIVE Tree(_, _, _)
Tree(net, sh, k) ==      \* sh[k] is what leaf k shows
  LET n == net[k] IN
  IF IsLeaf(n) THEN <<"leaf", sh[k], {}>>
  ELSE <<n.t, <<>>, Bag([i \in 1..Len(n.ch) |-> <<Edge(n, i), Tree(net, sh, n.ch[i])>>])>>

\* a drawing: g.v = sequence of [n (name), t, show], g.e = edges
Names(g) == {g.v[i].n : i \in 1..Len(g.v)}
Vertex(g, a) == g.v[CHOOSE i \in 1..Len(g.v) : g.v[i].n = a]
Out(g, a) == SelectSeq(g.e, LAMBDA x : x[1] = a)
Tops(g) == Names(g) \ {g.e[i][2] : i \in 1..Len(g.e)}
\* what can be peeled off from below; everything, if there is no cycle
RECURSIVE Peel(_, _)
Peel(g, S) == LET U == {a \in Names(g) : \A i \in 1..Len(g.e) : g.e[i][1] = a => g.e[i][2] \in S}
              IN IF U \subseteq S THEN S ELSE Peel(g, S \cup U)
WellDrawn(g) ==
  /\ Cardinality(Names(g)) = Len(g.v)
  /\ \A i \in 1..Len(g.e) : g.e[i][1] \in Names(g) /\ g.e[i][2] \in Names(g)
  /\ Cardinality(Tops(g)) = 1
  /\ Peel(g, {}) = Names(g)
RECURSIVE Seen(_, _)
Seen(g, a) == LET x == Vertex(g, a)  es == Out(g, a) IN
  <<x.t, x.show, Bag([i \in 1..Len(es) |-> <<es[i][3], Seen(g, es[i][2])>>])>>

Shows(g, net, Show(_)) ==
  /\ WellDrawn(g)
  /\ Seen(g, CHOOSE a \in Tops(g) : TRUE) =
     Tree(net, TLCEval([k \in 1..Len(net) |-> IF IsLeaf(net[k]) THEN Show(net[k]) ELSE <<>>]), Len(net))

\* what leaves show: their variable, or their moments
ShowVar(n) == <<n.var>>
Hundredths(a, b) == (a * 100000) \div b      \* mean in 1/100000, exact for b a small power of two
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Root(x) == CHOOSE s \in 0..4000 : (s = 0 \/ (2*s - 1) * (2*s - 1) < 4*x) /\ 4*x <= (2*s + 1) * (2*s + 1)
ShowMoments(n) ==
  IF n.t = "ind" THEN <<n.val * 100000, 0>>
  ELSE IF n.t = "gauss" THEN <<n.mu * 25000, n.sd * 250>>     \* given in quarters
  ELSE LET d == 2^n.td
           m == Sum([i \in 1..Len(n.tab) |-> (i-1) * n.tab[i]])
           q == Sum([i \in 1..Len(n.tab) |-> (i-1) * (i-1) * n.tab[i]])
       IN <<Hundredths(m, d), Root(((q * d - m * m) * (1000000 \div d)) \div d)>>
=============================================================================
