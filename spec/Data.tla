--------------------------------- MODULE Data ---------------------------------
(***************************************************************************)
(* Datasets: sequences of instances, each a sorted sequence of <<variable, *)
(* value>> pairs, with or without labels.  Every operation gives new       *)
(* datasets that share nothing with the old ones; only Shuffle and the     *)
(* user's own writes change a dataset.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC
VARIABLE ds        \* sequence of [rows, labs, has]
Holds(p) == p = TRUE

Plain(rows) == [rows |-> rows, labs |-> <<>>, has |-> FALSE]
Labelled(rows, labs) == [rows |-> rows, labs |-> labs, has |-> TRUE]
Len0(d) == Len(d.rows)
WellLabelled(d) == d.has => Len(d.labs) = Len(d.rows)

DataInit == ds = <<>>
Give(new) == /\ \A i \in 1..Len(new) : WellLabelled(new[i])
             /\ ds' = ds \o new
Queried == UNCHANGED ds

Get(row, v) == row[CHOOSE i \in 1..Len(row) : row[i][1] = v][2]
HasVar(row, v) == \E i \in 1..Len(row) : row[i][1] = v
Drop(row, v) == SelectSeq(row, LAMBDA p : p[1] # v)
\* insert or overwrite, keeping the pairs sorted
Put(row, v, x) == LET r == Drop(row, v) IN
                  SelectSeq(r, LAMBDA p : p[1] < v) \o <<<<v, x>>>> \o SelectSeq(r, LAMBDA p : p[1] > v)

\* what moves together: an instance and its label
Items(d) == [i \in 1..Len(d.rows) |-> <<d.rows[i], IF d.has THEN d.labs[i] ELSE 0>>]
Times(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameItems(s, t) == /\ Len(s) = Len(t)
                   /\ \A x \in ToSet(s) \cup ToSet(t) : Times(s, x) = Times(t, x)
AllItems(parts) == FoldLeft(LAMBDA a, d : a \o Items(d), <<>>, parts)
Where(d, l) == SelectSeq([i \in 1..Len(d.rows) |-> i], LAMBDA i : d.labs[i] = l)
WhereNot(d, l) == SelectSeq([i \in 1..Len(d.rows) |-> i], LAMBDA i : d.labs[i] # l)
Rows(d, is) == [k \in 1..Len(is) |-> d.rows[is[k]]]
Labs(d, is) == [k \in 1..Len(is) |-> d.labs[is[k]]]

-----------------------------------------------------------------------------
CopyOf(d) == d
Joined(d, e) == IF d.has /\ e.has THEN Labelled(d.rows \o e.rows, d.labs \o e.labs) ELSE Plain(d.rows \o e.rows)
SplitBy(d, c) == [l \in 1..c |-> Plain(Rows(d, Where(d, l-1)))]
WithoutLabel(d, l) == << Labelled(Rows(d, WhereNot(d, l)), Labs(d, WhereNot(d, l))),
                         Labelled(Rows(d, Where(d, l)), Labs(d, Where(d, l))) >>
WithoutVar(d, v) == Plain([i \in 1..Len(d.rows) |-> Drop(d.rows[i], v)])
WithLabelVar(d, v) == Plain([i \in 1..Len(d.rows) |-> Put(d.rows[i], v, d.labs[i])])
\* the label is the last variable
Extracted(d, v) == Labelled([i \in 1..Len(d.rows) |-> Drop(d.rows[i], v)], [i \in 1..Len(d.rows) |-> Get(d.rows[i], v)])
SameData(d, e) == d.rows = e.rows /\ ((d.has /\ e.has) => d.labs = e.labs)
Column(d, v) == [i \in 1..Len(d.rows) |-> Get(d.rows[i], v)]

\* proportions p[i]/q
SumOf(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Sizes(parts) == [i \in 1..Len(parts) |-> Len(parts[i].rows)]
IsPartition(d, p, q, parts) ==
  /\ Len(parts) = Len(p)
  /\ SameItems(AllItems(parts), Items(d))
  /\ \A i \in 1..Len(p) : LET e == Len(parts[i].rows) * q - Len(d.rows) * p[i] IN e <= q /\ -e <= q

\* by label: floor of each class' share; what is left over goes to the part
\* that is furthest from its own share
OfClass(d, l) == Cardinality({i \in 1..Len(d.labs) : d.labs[i] = l})
Base(d, c, p, q, i) == SumOf([l \in 1..c |-> (OfClass(d, l-1) * p[i]) \div q])
Off(d, c, p, q, i) == LET e == Base(d, c, p, q, i) * q - Len(d.rows) * p[i] IN IF e < 0 THEN -e ELSE e
Binary(q) == q \in {1, 2, 4, 8, 16}
IsLabelPartition(d, c, p, q, parts) ==
  /\ Len(parts) = Len(p)
  /\ \A i \in 1..Len(parts) : parts[i].has
  /\ SameItems(AllItems(parts), Items(d))
  /\ \E k \in 1..Len(p) :
       \* a proportion that is no binary fraction may be a little less than what it stands for
       /\ Binary(q) => \A j \in 1..Len(p) : Off(d, c, p, q, j) <= Off(d, c, p, q, k)
       /\ \A i \in 1..Len(p), l \in 0..(c-1) :
            LET s == OfClass(d, l) * p[i]
                b == s \div q
                low == IF ~Binary(q) /\ s > 0 /\ s % q = 0 THEN b - 1 ELSE b
            IN IF i = k THEN OfClass(parts[i], l) >= low ELSE OfClass(parts[i], l) \in low..b

IsDivision(d, n, parts) ==
  /\ SameItems(AllItems(parts), Items(d))
  /\ IF n > Len(d.rows) THEN Len(parts) = 1
     ELSE /\ Len(parts) = n
          /\ \A i \in 1..n : LET z == Len(parts[i].rows) - Len(d.rows) \div n IN z \in {0, 1}

Shuffled(i, new) == /\ Holds(SameItems(Items(ds[i]), Items(new))) /\ new.has = ds[i].has
                    /\ ds' = [ds EXCEPT ![i] = new]
\* the user writes to an instance
Write(i, k, v, x) == ds' = [ds EXCEPT ![i].rows[k] = Put(@, v, x)]
\* or to all of them, a different value each
WriteAll(i, v, x) == ds' = [ds EXCEPT ![i].rows = [k \in 1..Len(@) |-> Put(@[k], v, x + k)]]
RelabelAll(i, x) == ds[i].has /\ ds' = [ds EXCEPT ![i].labs = [k \in 1..Len(@) |-> x + k]]
Relabel(i, k, l) == ds[i].has /\ ds' = [ds EXCEPT ![i].labs[k] = l]

-----------------------------------------------------------------------------
(* Matrix form: column j of the matrix is variable cols[j] *)
IsMatrix(d, m, cols) ==
  /\ Len(m) = Len(d.rows)
  /\ Cardinality(ToSet(cols)) = Len(cols)
  /\ \A i \in 1..Len(m) :
       /\ Len(m[i]) = Len(cols)
       /\ ToSet(cols) = {d.rows[i][j][1] : j \in 1..Len(d.rows[i])}
       /\ \A j \in 1..Len(cols) : m[i][j] = Get(d.rows[i], cols[j])
=============================================================================
