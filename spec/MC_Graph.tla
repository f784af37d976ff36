------------------------------- MODULE MC_Graph -------------------------------
(***************************************************************************)
(* The ways the library draws, on all small networks: breadth-first, every *)
(* inner node once per parent, leaves once per parent ("dot") or once per  *)
(* variable ("tools"), or every node once ("print").  Each of them must    *)
(* end with a drawing that shows the network.                              *)
(***************************************************************************)
EXTENDS Graph, Json
CONSTANTS MaxNodes, MaxLeaves, Emit
VARIABLES net, inner, how, queue, g, seen
vars == <<net, inner, how, queue, g, seen>>

Leaves == << [t |-> "ind", var |-> 0, val |-> 1], [t |-> "mult", var |-> 1, tab |-> <<1, 3>>, td |-> 2],
             [t |-> "mult", var |-> 0, tab |-> <<2, 1, 1>>, td |-> 2] >>
Empty == [v |-> <<>>, e |-> <<>>]
Init == /\ \E i \in 1..Len(Leaves) : net = <<Leaves[i]>>
        /\ inner = 0 /\ how = "grow" /\ queue = <<>> /\ g = Empty /\ seen = {}
Fans == UNION {[1..k -> 1..Len(net)] : k \in 1..2}
W == << <<2>>, <<1, 3>> >>
Grow == /\ how = "grow" /\ Len(net) < MaxNodes
        /\ \/ inner = 0 /\ Len(net) < MaxLeaves /\ (\E i \in 1..Len(Leaves) : net' = Append(net, Leaves[i])) /\ UNCHANGED inner
           \/ /\ \E f \in Fans : \/ net' = Append(net, [t |-> "sum", ch |-> f, w |-> W[Len(f)], wd |-> 2])
                                 \/ net' = Append(net, [t |-> "prod", ch |-> f])
              /\ inner' = inner + 1
        /\ UNCHANGED <<how, queue, g, seen>>
RECURSIVE ReachDown(_, _)
ReachDown(S, k) == IF k = 0 THEN S ELSE ReachDown(IF k \in S /\ ~IsLeaf(net[k]) THEN S \cup ToSet(net[k].ch) ELSE S, k - 1)
Rooted == ReachDown({Len(net)}, Len(net)) = 1..Len(net)

Start == /\ how = "grow" /\ Rooted
         /\ how' \in {"dot", "tools", "print"}
         /\ queue' = <<[k |-> Len(net), from |-> "", w |-> -1]>>
         /\ g' = Empty /\ seen' = {} /\ UNCHANGED <<net, inner>>

Name(k) == IF IsLeaf(net[k]) THEN "L" ELSE IF net[k].t = "sum" THEN "S" ELSE "P"
Fresh(k) == Name(k) \o ToString(Len(g.v))
Mark(k) == CASE how = "print" -> "n" \o ToString(k)
             [] how = "tools" /\ IsLeaf(net[k]) -> "v" \o ToString(net[k].var)
             [] OTHER -> Fresh(k)
Vert(k, nm) == [n |-> nm, t |-> IF IsLeaf(net[k]) THEN "leaf" ELSE net[k].t, show |-> IF IsLeaf(net[k]) THEN ShowVar(net[k]) ELSE <<>>]
\* draw what is next in the queue; one vertex and its edge at a time
Draw == /\ how # "grow" /\ queue # <<>>
        /\ LET q == Head(queue)
               nm == Mark(q.k)
               new == nm \notin Names(g)
               kids == IF ~new \/ IsLeaf(net[q.k]) THEN <<>>
                       ELSE [i \in 1..Len(net[q.k].ch) |-> [k |-> net[q.k].ch[i], from |-> nm, w |-> Edge(net[q.k], i)]]
           IN /\ g' = [v |-> IF new THEN Append(g.v, Vert(q.k, nm)) ELSE g.v,
                       e |-> IF q.from = "" THEN g.e ELSE Append(g.e, <<q.from, nm, q.w>>)]
              /\ queue' = Tail(queue) \o kids
        /\ UNCHANGED <<net, inner, how, seen>>
Next == Grow \/ Start \/ Draw
MCSpec == Init /\ [][Next]_vars

Faithful == (how # "grow" /\ queue = <<>>) => Shows(g, net, ShowVar)
Progress == [][how # "grow" /\ how' = how => Len(g'.v) + Len(g'.e) > Len(g.v) + Len(g.e)]_vars
\* a drawing with one edge less, or one label changed, does not show the network
Sharp == (how # "grow" /\ queue = <<>>) =>
  /\ \A i \in 1..Len(g.e) : ~Shows([g EXCEPT !.e = SubSeq(g.e, 1, i-1) \o SubSeq(g.e, i+1, Len(g.e))], net, ShowVar)
  /\ \A i \in 1..Len(g.e) : ~Shows([g EXCEPT !.e[i][3] = @ + 1], net, ShowVar)
Emitted == (Emit /\ how = "grow" /\ Rooted) => PrintT("@@" \o ToJson(net))
=============================================================================
