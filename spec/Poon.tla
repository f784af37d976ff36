---------------------------------- MODULE Poon ----------------------------------
(***************************************************************************)
(* The image learner: each instance goes through all rectangles, small     *)
(* ones first; each chooses one of its sums and adds to it, unless it is   *)
(* there, either a cut into the chosen sums of two smaller rectangles or   *)
(* one of the products that the rectangle already has.                     *)
(***************************************************************************)
EXTENDS Regions, Json
CONSTANTS MaxW, MaxH, Sums, Instances, Emit
VARIABLES w, h, r, kids, chosen, todo, seen
pnVars == <<w, h, r, kids, chosen, todo, seen>>
Area(q) == (q[3] - q[1]) * (q[4] - q[2])
Whole == <<0, 0, w, h>>
Inner == {q \in Rects(w, h, r) : Area(q) > 1}
Order == SortSeq(SetToSeq(Inner), LAMBDA a, b : Area(a) < Area(b))
SumsOf(q) == IF q = Whole THEN 1 ELSE Sums
Init == /\ w \in 1..MaxW /\ h \in 1..MaxH /\ r \in {d \in 1..MaxW : w % d = 0 /\ h % d = 0} /\ w * h > 1
        /\ kids = [q \in Inner |-> [i \in 1..SumsOf(q) |-> {}]]
        /\ chosen = [q \in Rects(w, h, r) |-> 1] /\ todo = Order /\ seen = 0
Fresh(q) == {<<c[1], chosen[c[1]], c[2], chosen[c[2]]>> : c \in Cuts(w, h, r, q)}
Step == /\ todo # <<>>
        /\ LET q == Head(todo) IN
           \E i \in 1..SumsOf(q) : \E d \in Fresh(q) \cup (IF kids[q][i] = {} THEN {} ELSE UNION {kids[q][j] : j \in 1..SumsOf(q)}) :
              kids' = [kids EXCEPT ![q][i] = @ \cup {d}] /\ chosen' = [chosen EXCEPT ![q] = i]
        /\ todo' = Tail(todo) /\ UNCHANGED <<w, h, r, seen>>
NextInstance == /\ todo = <<>> /\ seen < Instances - 1 /\ seen' = seen + 1 /\ todo' = Order
                /\ UNCHANGED <<w, h, r, kids, chosen>>
Spec == Init /\ [][Step \/ NextInstance]_pnVars
\* what the root reaches
IsInner(q) == Area(q) > 1
RECURSIVE Reach(_)
Reach(s) == LET t == s \cup UNION {UNION {{<<d[1], d[2]>>, <<d[3], d[4]>>} : d \in kids[n[1]][n[2]]} : n \in {x \in s : IsInner(x[1])}}
            IN IF t = s THEN s ELSE Reach(t)
\* after each instance, no reachable sum is childless, and the root sees every pixel
Grounded == todo = <<>> => \A n \in Reach({<<Whole, 1>>}) : IsInner(n[1]) => kids[n[1]][n[2]] # {}
Disjoint == \A q \in Inner : \A c \in Cuts(w, h, r, q) : /\ c[1] \in Rects(w, h, r) /\ c[2] \in Rects(w, h, r)
               /\ Rect(w, c[1][1], c[1][2], c[1][3], c[1][4]) \cap Rect(w, c[2][1], c[2][2], c[2][3], c[2][4]) = {}
               /\ Rect(w, c[1][1], c[1][2], c[1][3], c[1][4]) \cup Rect(w, c[2][1], c[2][2], c[2][3], c[2][4]) = Rect(w, q[1], q[2], q[3], q[4])
\* every rectangle but a pixel can be cut
Cuttable == \A q \in Inner : Cuts(w, h, r, q) # {}
Emitted == (Emit /\ seen = 0 /\ todo = Order) => PrintT("@@" \o ToJson([w |-> w, h |-> h, r |-> r]))
=============================================================================
