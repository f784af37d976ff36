-------------------------------- MODULE MC_Cli --------------------------------
(* All short histories of runs over a dataset of images ("a"), a compiled    *)
(* one ("b") and one that does not exist ("c"), with a program that does its *)
(* job.                                                                      *)
EXTENDS Cli, Json
CONSTANTS Depth, Emit
VARIABLE hist
mcVars == <<cliVars, hist>>
Folders == <<<< <<0>>, <<1>> >>, << <<1>> >>>>
MCInit == /\ src = ("a" :> [folders |-> Folders, w |-> 1, h |-> 1, max |-> 1])
          /\ comp = ("b" :> [vars |-> << <<0, 2>>, <<1, 2>> >>, rows |-> << <<0, 0>>, <<1, 1>> >>])
          /\ pics = {} /\ hist = <<>>
Args == [mode : {"data", "class", "cmpl", "fly"}, ds : {"a", "b", "c"}, p : {1}, q : {2}, iters : {1}, w : {1}, h : {1}, max : {2}]
        \cup [mode : {"data", "class", "cmpl"}, ds : {"b"}, p : {0, 2, 3}, q : {2}, iters : {1}, w : {1}, h : {1}, max : {2}]
        \cup [mode : {"class", "cmpl"}, ds : {"a", "b"}, p : {1}, q : {2}, iters : {0, 2}, w : {1}, h : {1}, max : {2}]
\* what a right program shows
Rows(f) == I!Concat([k \in 1..Len(f) |-> [i \in 1..Len(f[k]) |-> Append(f[k][i], k - 1)]])
Result(n) == [corrects |-> 1, total |-> n - n \div 2, train |-> n \div 2]
Pic(i, v, x) == LET g == IF v \in {"TOP", "LEFT"} THEN <<x, x, x>> ELSE <<0, 1, 0>>
                    line == <<1, 0, 0>> IN
  [i |-> i, typ |-> v, f |-> [magic |-> "P3", w |-> IF v \in {"TOP", "BOTTOM"} THEN 1 ELSE 2, h |-> IF v \in {"TOP", "BOTTOM"} THEN 2 ELSE 1, max |-> 1, s |-> line \o g]]
Quiet == [rc |-> 0, results |-> <<>>]
Answer(a) ==
  IF ~Fits(a) THEN Quiet
  ELSE IF ~Ready(a) THEN [rc |-> 2, results |-> <<>>]
  ELSE CASE a.mode = "data" -> [rc |-> 0, results |-> <<>>,
                                made |-> [vars |-> <<<<0, 2>>, <<1, Len(src[a.ds].folders)>>>>, rows |-> Rows(src[a.ds].folders)]]
         [] a.mode = "class" -> LET r == Result(Len(comp[a.ds].rows)) IN
              [rc |-> 0, results |-> [k \in 1..a.iters |-> r] \o <<[corrects |-> a.iters, total |-> a.iters * r.total, train |-> 0]>>]
         [] a.mode = "cmpl" -> [rc |-> 0, results |-> <<>>,
              drawn |-> SetToSeq({Pic(i - 1, v, comp[a.ds].rows[i][1]) : i \in 1..Len(comp[a.ds].rows), v \in Orientations})]
MCNext == Len(hist) < Depth /\ \E a \in Args : Run(a, Answer(a)) /\ hist' = Append(hist, a)
MCSpec == MCInit /\ [][MCNext]_mcVars
\* every run is answered; what is refused or fails leaves no trace; only a conversion compiles
Total == \A a \in Args : ENABLED Run(a, Answer(a))
Only == [][ LET a == hist'[Len(hist')] IN
            /\ (~Fits(a) \/ ~Ready(a)) => UNCHANGED cliVars
            /\ comp' # comp => a.mode = "data" /\ DOMAIN comp' = DOMAIN comp \cup {a.ds}
            /\ pics' # pics => a.mode = "cmpl"
            /\ src' = src ]_mcVars
Emitted == (Emit /\ Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
