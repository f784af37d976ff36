--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The program, run again and again in one directory.  A dataset is a tree *)
(* of class folders of images, a compiled data file, or both; completing   *)
(* leaves pictures.  A run is given its arguments                          *)
(*   [mode, ds, p, q, iters, w, h, max]                                    *)
(* where p/q is the training share.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
I == INSTANCE Images
A == INSTANCE App
VARIABLES src,      \* dataset |-> [folders, w, h, max], for those that are images
          comp,     \* dataset |-> [vars, rows], for those that are compiled
          pics      \* names of the pictures that are there
cliVars == <<src, comp, pics>>
Holds(p) == p = TRUE
Orientations == {"TOP", "BOTTOM", "LEFT", "RIGHT"}

Modes == {"data", "class", "cmpl"}
Fits(a) == a.mode \in Modes /\ a.p > 0 /\ a.p < a.q /\ a.iters >= 1
\* what a run needs to be there
Ready(a) == IF a.mode = "data" THEN a.ds \in DOMAIN src ELSE a.ds \in DOMAIN comp

\* arguments out of range: nothing happens.  A missing dataset: the run fails.
Refused(a, o) == ~Fits(a) /\ o.results = <<>> /\ UNCHANGED cliVars
Fails(a, o) == Fits(a) /\ ~Ready(a) /\ o.rc # 0 /\ o.results = <<>> /\ UNCHANGED cliVars

\* images to a data file
Converts(a, o) ==
  /\ Fits(a) /\ Ready(a) /\ a.mode = "data" /\ o.rc = 0
  /\ LET s == src[a.ds] d == o.made IN
     /\ Holds(I!IsData(s.folders, s.w, s.h, s.max + 1, d.vars, d.rows))
     /\ comp' = (a.ds :> d) @@ comp
  /\ o.results = <<>> /\ UNCHANGED <<src, pics>>

(* Arguments that reach the learner.  Datasets "m" and "s" consist of copies *)
(* of an image and of its negative (more of these), "m" with both in every   *)
(* class, "s" with a class for each.  Told apart as clusters, one half       *)
(* follows from the other, and the class from the image; as one cluster, or  *)
(* taken for independent, all pixels are as in most of the images.           *)
Apart(a) == a.clusters = "-1" /\ a.eps = "0.5" /\ a.pval \in {"0.0001", "0.5"} /\ a.mp \in {"1", "4"}
AsOne(a) == a.clusters = "1" \/ a.eps = "400" \/ a.pval = "1e-12"
MostOf(rows, x) == LET ones == Cardinality({i \in 1..Len(rows) : rows[i][x + 1] = 1}) IN IF 2 * ones > Len(rows) THEN 1 ELSE 0
Learned(a, row, ev, st) ==
  a.ds = "m" => /\ Apart(a) => st = A!EvOf(row)
                /\ AsOne(a) => \A x \in DOMAIN st : x \in DOMAIN ev \/ st[x] = MostOf(comp[a.ds].rows, x)

\* each iteration tells how many it got right of how many, after how many it learned from; then the sums
Counts(n, a, r) ==
  /\ r.total + r.train = n
  /\ LET e == r.train * a.q - n * a.p IN e <= a.q /\ -e <= a.q
  /\ r.corrects \in 0..r.total
Classifies(a, o) ==
  /\ Fits(a) /\ Ready(a) /\ a.mode = "class" /\ o.rc = 0
  /\ LET n == Len(comp[a.ds].rows)
         all == Len(o.results) IN
     /\ all = a.iters + 1
     /\ Holds(\A k \in 1..a.iters : Counts(n, a, o.results[k]))
     /\ Holds((a.ds = "s" /\ a.p = 9 /\ Apart(a)) => \A k \in 1..a.iters : o.results[k].corrects = o.results[k].total)
     /\ o.results[all].corrects = I!SumOf([k \in 1..a.iters |-> o.results[k].corrects])
     /\ o.results[all].total = I!SumOf([k \in 1..a.iters |-> o.results[k].total])
  /\ UNCHANGED cliVars

\* a picture per image and orientation; those of an earlier run with more images stay
Wanted(a) == {<<i - 1, v>> : i \in 1..Len(comp[a.ds].rows), v \in Orientations}
Image(row) == SubSeq(row, 1, Len(row) - 1)
Shows(a, x) == LET row == Image(comp[a.ds].rows[x.i + 1]) IN
  A!Pictures(row, a.w, a.h, x.typ, a.max, x.f, LAMBDA ev, st : A!InRange(a.max, st) /\ Learned(a, row, ev, st))
Completes(a, o) ==
  /\ Fits(a) /\ Ready(a) /\ a.mode = "cmpl" /\ o.rc = 0 /\ o.results = <<>>
  /\ {<<x.i, x.typ>> : x \in ToSet(o.drawn)} = Wanted(a)
  /\ Holds(\A k \in 1..Len(o.drawn) : Shows(a, o.drawn[k]))
  /\ pics' = pics \cup Wanted(a)
  /\ UNCHANGED <<src, comp>>

Run(a, o) == Refused(a, o) \/ Fails(a, o) \/ Converts(a, o) \/ Classifies(a, o) \/ Completes(a, o)
=============================================================================
