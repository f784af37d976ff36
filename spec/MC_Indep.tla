-------------------------------- MODULE MC_Indep --------------------------------
(* Every history of unions over Elems sets, and every contingency table of a   *)
(* few cells.                                                                  *)
EXTENDS Indep, Json
CONSTANTS Elems, Depth, Cell, Emit
VARIABLES hist, tab
mcVars == <<rep, hist, tab>>
None == <<<<0>>>>
Tables == [1..2 -> [1..2 -> 0..Cell]] \cup [1..2 -> [1..3 -> 0..2]] \cup [1..1 -> [1..2 -> 0..Cell]]
MCInit == \/ rep = [i \in 1..Elems |-> i] /\ hist = <<>> /\ tab = None
          \/ rep = <<>> /\ hist = <<>> /\ tab \in {t \in Tables : All(t) > 0}
MCUnion == /\ tab = None /\ Len(hist) < Depth
           /\ \E x, y \in 1..Elems, w \in {-1, 1, 2} : LET r == IF w = -1 THEN 0 ELSE IF w = 1 THEN rep[x] ELSE rep[y] IN
                 Join(x, y, r, w) /\ hist' = Append(hist, <<x, y>>)
           /\ UNCHANGED tab
MCSpec == MCInit /\ [][MCUnion]_mcVars
\* sets stay disjoint and represented by one of their own; unions join exactly what is connected
Edges == {<<h[1], h[2]>> : h \in ToSet(hist)} \cup {<<h[2], h[1]>> : h \in ToSet(hist)}
Disjoint == tab = None => /\ \A x \in 1..Elems : rep[rep[x]] = rep[x]
                          /\ {ClassOf(x) : x \in 1..Elems} = Components(1..Elems, Edges)
\* a statistic is never negative, and zero for a product table
Transposed(t) == [j \in 1..Len(t[1]) |-> [i \in 1..Len(t) |-> t[i][j]]]
Product(t) == \A c \in Cells(t) : t[c[1]][c[2]] * All(t) = Row(t, c[1]) * Col(t, c[2])
Near(a, b, s) == a - b <= s /\ b - a <= s
Statistic == tab # None =>
   /\ G(tab) >= -Slack(tab) /\ Pearson(tab) >= -10
   /\ Product(tab) => Near(G(tab), 0, Slack(tab)) /\ Near(Pearson(tab), 0, 10)
   /\ Near(G(tab), G(Transposed(tab)), Slack(tab)) /\ Near(Pearson(tab), Pearson(Transposed(tab)), 10)
   /\ \A lv \in 1..(Len(Levels)-1) : (GVerdict(tab, lv) = "dependent") => GVerdict(tab, lv + 1) = "dependent"
   /\ (\E i \in 1..Len(tab) : \A k \in 1..Len(tab) : k # i => Row(tab, k) = 0) => \A lv \in 1..Len(Levels) : GVerdict(tab, lv) = "independent" /\ PVerdict(tab, lv) = "independent"
Emitted == Emit => IF tab # None THEN PrintT("@@" \o ToJson([tab |-> tab, hist |-> <<>>]))
                   ELSE Len(hist) = Depth => PrintT("@@" \o ToJson([tab |-> <<>>, hist |-> hist]))
=============================================================================
