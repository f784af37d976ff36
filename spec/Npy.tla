--------------------------------- MODULE Npy ---------------------------------
(***************************************************************************)
(* Reading a matrix row by row: all columns but the last are variables,    *)
(* the last one is the label.  A read either gives what was asked for, the *)
(* rows that follow the ones read so far, or an error.  After an error it   *)
(* is open how far the reader has moved, but it has not moved back.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
VARIABLES rows,   \* the matrix
          pos,    \* rows consumed
          loose   \* after an error: or more
npyVars == <<rows, pos, loose>>
Holds(p) == p = TRUE
Min2(a, b) == IF a < b THEN a ELSE b
Lab(r) == r[Len(r)]
Left == Len(rows) - pos
Inst(r) == [j \in 1..(Len(r) - 1) |-> <<j-1, r[j]>>]
Answer(rs) == [ok |-> TRUE, rows |-> [i \in 1..Len(rs) |-> Inst(rs[i])], labs |-> [i \in 1..Len(rs) |-> Lab(rs[i])]]
Refused == [ok |-> FALSE, rows |-> <<>>, labs |-> <<>>]

\* what a file may be: two dimensions, whole numbers, row after row
\* (of a file that ends too early nothing is promised but that it gives no rows it does not have)
Opened(ndim, integer, rowmajor, cut, ok) ==
  (ok => ndim = 2 /\ integer) /\ ((ndim = 2 /\ integer /\ rowmajor /\ ~cut) => ok)
Open(m) == rows' = m /\ pos' = 0 /\ loose' = FALSE
\* where the reader may stand
Places == IF loose THEN pos..Len(rows) ELSE {pos}
Fail == pos' = pos /\ loose' = TRUE
At(p) == pos' = p /\ loose' = FALSE

Read(n, res) ==
  /\ \/ \E p \in Places : n <= Len(rows) - p /\ res = Answer(SubSeq(rows, p + 1, p + n)) /\ At(p + n)
     \/ (loose \/ n > Left) /\ res = Refused /\ Fail
  /\ UNCHANGED rows
\* everything there is; what that means after a partial read is open
ReadAll(res) ==
  /\ \/ \E p \in Places : res = Answer(SubSeq(rows, p + 1, Len(rows))) /\ At(Len(rows))
     \/ (loose \/ pos > 0) /\ res = Refused /\ Fail
  /\ UNCHANGED rows

\* balanced: each of c classes has its share of n, up to one; rows whose class
\* is full are passed over
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Of(k) == Cardinality({i \in (pos+1)..Len(rows) : Lab(rows[i]) = k})
Share(n, c, k, z) == z \in {n \div c, (n + c - 1) \div c}
RECURSIVE Greedy(_, _)
Greedy(i, quota) ==   \* indices taken from row i on, and where the last one is
  IF i > Len(rows) THEN <<>>
  ELSE LET k == Lab(rows[i]) IN
       IF k + 1 \in DOMAIN quota /\ quota[k+1] > 0
       THEN <<i>> \o Greedy(i + 1, [quota EXCEPT ![k+1] = @ - 1])
       ELSE Greedy(i + 1, quota)
Balanced(n, c, res) ==
  /\ IF res.ok
     THEN LET quota == [k \in 1..c |-> Count(res.labs, k-1)] IN
          /\ Holds(Len(res.labs) = n /\ \A k \in 1..c : Share(n, c, k-1, quota[k]))
          /\ \E p \in Places : LET is == TLCEval(Greedy(p + 1, quota)) IN
               /\ Holds(res = Answer([j \in 1..Len(is) |-> rows[is[j]]]))
               /\ At(IF n = 0 THEN p ELSE is[n])
     ELSE \* a class has not enough left for some share it may be given
          /\ Holds(res = Refused /\ (loose \/ \E k \in 0..(c-1) : Of(k) < (n + c - 1) \div c))
          /\ Fail
  /\ UNCHANGED rows
Reset == pos' = 0 /\ loose' = FALSE /\ UNCHANGED rows
=============================================================================
