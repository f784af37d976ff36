------------------------------- MODULE TraceApp -------------------------------
EXTENDS App, TraceLib
VARIABLE c      \* the job
vars == <<c, l>>
TCase == IsOp("case") /\ c' = E
Step(p) == Holds(p) /\ UNCHANGED c
\* classification; the batch adds its iterations up
TClassify == IsOp("classify") /\ Step(E.learned = 1 /\ E.vars = c.n /\ Classified(c.nets[1], c.rows, E.train, c.ncls, c.p10, E.corrects, E.total))
TBatch == IsOp("batch") /\ Step(
            /\ Len(E.trains) = E.iters
            /\ Len(E.results) = E.iters + 1
            /\ \A k \in 1..E.iters : Classified(c.nets[1], c.rows, E.trains[k], c.ncls, c.p10, E.results[k][1], E.results[k][2])
            /\ E.results[E.iters + 1][1] = SumSeq([k \in 1..E.iters |-> E.results[k][1]])
            /\ E.results[E.iters + 1][2] = SumSeq([k \in 1..E.iters |-> E.results[k][2]]))
\* completion
TTrained == IsOp("trained") /\ Step(Trained(c.rows, c.labs, E.runs) /\ (c.p > 0 => E.most <= c.p) /\ E.vars = c.w * c.h
                                   /\ E.files = 4 * Len(c.rows))
TPicture == IsOp("picture") /\ Step(
              LET net == c.nets[c.netof[E.i]] IN
              Pictures(c.rows[E.i], c.w, c.h, E.typ, c.max, E.f, LAMBDA ev, st : MostProbable(net, ev, st)))
\* completion with a learner of its own: what it learns is not seen
TFiles == IsOp("files") /\ Step(E.files = 4 * Len(c.rows))
OwnPics(i, ps) == \A q \in 1..4 : Pictures(c.rows[i], c.w, c.h, ps[q].typ, c.max, ps[q].f, LAMBDA ev, st : InRange(c.max, st))
TOwn == IsOp("own") /\ Step(\E p \in (IF E.inorder THEN {[i \in 1..Len(c.rows) |-> i]} ELSE Permutations(1..Len(c.rows))) :
              \A i \in 1..Len(c.rows) : OwnPics(p[i], E.pics[i]))
TraceInit == c = <<>> /\ l = 1
TraceNext == TCase \/ TClassify \/ TBatch \/ TTrained \/ TPicture \/ TFiles \/ TOwn
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
