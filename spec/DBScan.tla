--------------------------------- MODULE DBScan ---------------------------------
(***************************************************************************)
(* The density algorithm step by step: a queue of points, one dequeued at  *)
(* a time; a dense one is joined with its whole neighbourhood and the part *)
(* of it that was not in its cluster is queued; when the queue runs empty, *)
(* all points not yet clustered are queued.  Explored over all small point *)
(* sets: it ends, and with exactly the density components.                 *)
(***************************************************************************)
EXTENDS Cluster, Json
CONSTANTS MaxN, Top, Dim, MaxMp, Emit
VARIABLES rows, e2, mp, queue, rep, vst, vi, done
dbVars == <<rows, e2, mp, queue, rep, vst, vi, done>>
Pts == [1..Dim -> 0..Top]
\* up to order: point sets are taken in nondecreasing order of their first coordinate
Init == /\ \E n \in 1..MaxN : rows \in {r \in [1..n -> Pts] : \A i \in 1..(n-1) : r[i][1] <= r[i+1][1]}
        /\ e2 \in {0, 1, 4} /\ mp \in 1..MaxMp
        /\ queue = <<1>> /\ rep = [i \in Idx(rows) |-> i] /\ vst = {} /\ vi = 1 /\ done = FALSE
Refill(q, seen) == IF q # <<>> THEN <<q, vi>>
                   ELSE LET new == SelectSeq([i \in 1..Len(rows) |-> i], LAMBDA i : i >= vi /\ i \notin seen)
                        IN <<new, IF new = <<>> THEN vi ELSE new[Len(new)] + 1>>
Step == /\ ~done /\ queue # <<>>
        /\ LET p == Head(queue)
               nb == {i \in Idx(rows) : Close(rows, e2, p, i)}
               new == SelectSeq([i \in 1..Len(rows) |-> i], LAMBDA i : i \in nb /\ rep[i] # rep[p])
               dense == Cardinality(nb) >= mp
               joined == {rep[i] : i \in nb} \cup {rep[p]}
               q == Tail(queue) \o IF dense THEN new ELSE <<>>
               seen == IF dense /\ new # <<>> THEN vst \cup {p} \cup ToSet(new) ELSE vst
               r == Refill(q, seen)
           IN /\ rep' = [i \in Idx(rows) |-> IF dense /\ rep[i] \in joined THEN rep[p] ELSE rep[i]]
              /\ vst' = seen /\ queue' = r[1] /\ vi' = r[2]
        /\ UNCHANGED <<rows, e2, mp, done>>
Finish == ~done /\ queue = <<>> /\ done' = TRUE /\ UNCHANGED <<rows, e2, mp, queue, rep, vst, vi>>
Spec == Init /\ [][Step \/ Finish]_dbVars /\ WF_dbVars(Step \/ Finish)
Classes == {{j \in Idx(rows) : rep[j] = rep[i]} : i \in Idx(rows)}
Sound == \A c \in Classes : \E d \in Dense(rows, e2, mp) : c \subseteq d
Right == done => Classes = Dense(rows, e2, mp)
\* larger neighbourhoods and lower densities only join clusters
Monotone == done => /\ \A c \in Dense(rows, e2, mp + 1) : \E d \in Dense(rows, e2, mp) : c \subseteq d
                    /\ \A c \in Dense(rows, e2, mp) : \E d \in Dense(rows, e2 + 1, mp) : c \subseteq d
\* the ordered clusters refine the dense ones, apart from noise, and partition the points
Refines == done => LET o == Ordered(rows, e2, mp) IN
             /\ \A c \in o.clusters : \E d \in Dense(rows, e2, mp) : c \subseteq d
             /\ \A c, d \in o.clusters : c # d => c \cap d = {}
             /\ o.noise \cap Cores(rows, e2, mp) = {}
Ends == <>done
Emitted == (Emit /\ done) => PrintT("@@" \o ToJson([rows |-> rows, e2 |-> e2, mp |-> mp]))
=============================================================================
