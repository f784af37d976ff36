-------------------------------- MODULE Images --------------------------------
(***************************************************************************)
(* Folders of images turned into data files.  Each folder is a class; each *)
(* image is one row, its pixels in order, followed by the number of its    *)
(* class.  Neither the classes nor the images of a class have a promised   *)
(* order, except that an evidence file lists them class by class and says  *)
(* where each class begins.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC
Holds(p) == p = TRUE
SumOf(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Times(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameRows(s, t) == Len(s) = Len(t) /\ \A x \in ToSet(s) \cup ToSet(t) : Times(s, x) = Times(t, x)
Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
\* a sequence up to order, and a sequence of those up to order
BagOf(s) == [x \in ToSet(s) |-> Times(s, x)]
SameBags(ss, tt) == LET a == [k \in 1..Len(ss) |-> TLCEval(BagOf(ss[k]))]
                        b == [k \in 1..Len(tt) |-> TLCEval(BagOf(tt[k]))] IN SameRows(TLCEval(a), TLCEval(b))

Declared(w, h, cats) == [i \in 1..(w * h) |-> <<i-1, cats>>]
\* the folders are numbered from 0 in some order; a row ends with the number of its folder
ClassOf(row) == row[Len(row)]
OfLabel(rows, k) == LET mine == SelectSeq(rows, LAMBDA r : ClassOf(r) = k) IN
  [i \in 1..Len(mine) |-> SubSeq(mine[i], 1, Len(mine[i]) - 1)]
IsData(folders, w, h, cats, vars, rows) == LET n == Len(folders) IN
  /\ vars = Append(Declared(w, h, cats), <<w * h, n>>)
  /\ \A i \in 1..Len(rows) : Len(rows[i]) = w * h + 1 /\ ClassOf(rows[i]) \in 0..(n-1)
  /\ SameBags([k \in 1..n |-> OfLabel(rows, k-1)], folders)
IsEvidence(folders, w, h, cats, starts, vars, rows) == LET n == Len(folders) m == Len(rows) IN
  /\ vars = Declared(w, h, cats)
  /\ Len(starts) = n
  /\ LET end == [k \in 1..n |-> IF k < n THEN starts[k+1] ELSE m] IN
     /\ n > 0 => starts[1] = 0
     /\ \A k \in 1..n : starts[k] <= end[k] /\ end[k] <= m
     /\ SameBags([k \in 1..n |-> SubSeq(rows, starts[k] + 1, end[k])], folders)
\* one folder without subfolders; a positive class is appended to each row
IsFlat(images, w, h, class, vars, rows) ==
  /\ vars = Declared(w, h, 2)
  /\ SameRows(rows, [i \in 1..Len(images) |-> IF class > 0 THEN Append(images[i], class) ELSE images[i]])
=============================================================================
