-------------------------------- MODULE MC_Npy --------------------------------
EXTENDS Npy, Json
CONSTANTS MaxRows, Depth, Emit
VARIABLE hist
mcVars == <<npyVars, hist>>
Row(i, k) == <<i, k>>
MCInit == \E n \in 0..MaxRows : \E f \in [1..n -> 0..1] : rows = [i \in 1..n |-> Row(i, f[i])] /\ pos = 0 /\ loose = FALSE /\ hist = <<>>
Do(op) == Len(hist) < Depth /\ hist' = Append(hist, op)
\* what a right reader would answer: the first classes get the larger shares
QuotaOf(n, c) == [k \in 1..c |-> IF k - 1 < n % c THEN n \div c + 1 ELSE n \div c]
Ideal(n, c) == LET is == Greedy(pos + 1, QuotaOf(n, c)) IN
               IF Len(is) = n THEN Answer([j \in 1..n |-> rows[is[j]]]) ELSE Refused
MCRead == \E n \in 0..3 : Do(<<"read", n, 0>>) /\ Read(n, IF n <= Left THEN Answer(SubSeq(rows, pos+1, pos+n)) ELSE Refused)
MCAll == Do(<<"all", 0, 0>>) /\ ReadAll(IF pos = 0 THEN Answer(rows) ELSE Refused)
MCBal == \E n \in 0..3 : Do(<<"balanced", n, 2>>) /\ Balanced(n, 2, Ideal(n, 2))
MCReset == Do(<<"reset", 0, 0>>) /\ Reset
MCNext == MCRead \/ MCAll \/ MCBal \/ MCReset
MCSpec == MCInit /\ [][MCNext]_mcVars
TypeOK == pos \in 0..Len(rows) /\ loose \in BOOLEAN
\* a balanced read is always answered one way or the other
Answered == \A n \in 0..4, c \in 2..3 : ENABLED Balanced(n, c, Ideal(n, c))
\* nothing is read twice between resets
Forward == [][ pos' >= pos \/ hist'[Len(hist')][1] = "reset" ]_mcVars
Emitted == (Emit /\ Len(hist) = Depth) => PrintT("@@" \o ToJson([rows |-> rows, hist |-> hist]))
=============================================================================
