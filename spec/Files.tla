-------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* Text data files.  A file is a sequence of lines, each a record          *)
(*   [k |-> kind, v |-> ints, t |-> strings]                               *)
(* kinds: "blank"; "comment"; "var" (v = <<id, categories>>); "row" (v =   *)
(* values); "labels" (v = first instance of each class).  ARFF files have  *)
(* also "relation" (t = <<name>>), "attr" (t = <<name, type, labels...>>), *)
(* "data" and rows of tokens, a token being both a string and its number.  *)
(* A reader takes one line at a time.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC
Holds(p) == p = TRUE

-----------------------------------------------------------------------------
(* .data files: declarations, then rows.  Blank lines mean nothing.         *)
ReaderStart == [vars |-> <<>>, rows |-> <<>>, starts |-> <<>>]
ReadLine(r, ln) ==
  CASE ln.k = "var" -> [r EXCEPT !.vars = Append(@, ln.v)]
    [] ln.k = "row" -> [r EXCEPT !.rows = Append(@, ln.v)]
    [] ln.k = "labels" -> [r EXCEPT !.starts = ln.v]
    [] OTHER -> r
ReadAll(lines) == TLCEval(FoldLeft(ReadLine, ReaderStart, lines))

\* the declarations come first, numbered from 0, and a row has at least a value for each
Kinds(lines, k) == {i \in 1..Len(lines) : lines[i].k = k}
WellFormed(lines) ==
  /\ \A i \in Kinds(lines, "var"), j \in Kinds(lines, "row") : i < j
  /\ LET r == ReadAll(lines) IN
     /\ \A i \in 1..Len(r.vars) : r.vars[i][1] = i - 1
     /\ \A i \in 1..Len(r.rows) : Len(r.rows[i]) >= Len(r.vars)

Pair(row, n) == [j \in 1..n |-> <<j-1, row[j]>>]
\* what the parsers answer: declared variables, instances and what is kept apart
Parsed(lines) == LET r == ReadAll(lines) n == Len(r.vars) IN
  [vars |-> r.vars, rows |-> [i \in 1..Len(r.rows) |-> Pair(r.rows[i], n)], labs |-> <<>>]
ParsedNL(lines) == LET r == ReadAll(lines) n == Len(r.vars) - 1 IN
  [vars |-> SubSeq(r.vars, 1, n), rows |-> [i \in 1..Len(r.rows) |-> Pair(r.rows[i], n)],
   labs |-> [i \in 1..Len(r.rows) |-> r.rows[i][n+1]]]
ParsedEvidence(lines) == [Parsed(lines) EXCEPT !.labs = ReadAll(lines).starts]

-----------------------------------------------------------------------------
(* Random partitions.  gen is the generator: its seed and what it has been  *)
(* used for since; drawn remembers what it chose then.  A partition is a    *)
(* function of the two, so that a run can be repeated from its seed.        *)
VARIABLES gen, drawn
GenInit == gen = [seed |-> -1, uses |-> <<>>] /\ drawn = [x \in {} |-> <<>>]
Memo(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
\* the last variable is the label; the first one numbers the rows, from 0.  The
\* training share is p/q.
IsSplit(lines, p, q, res) ==
  LET all == TLCEval(Parsed(lines)) n == Len(all.rows) nv == Len(all.vars) m == Len(res.test)
      is == TLCEval([i \in 1..m |-> res.test[i][1][2] + 1])
      out == TLCEval(ToSet(is))
      in == TLCEval(SelectSeq([i \in 1..n |-> i], LAMBDA i : i \notin out)) IN
  /\ res.vars = all.vars
  /\ LET e == m * q - n * (q - p) IN e <= q /\ -e <= q
  /\ \A i \in 1..m : is[i] \in 1..n
  /\ Cardinality(out) = m
  /\ \A i \in 1..m : /\ res.test[i] = SubSeq(all.rows[is[i]], 1, nv - 1)
                     /\ res.labs[i] = all.rows[is[i]][nv][2]
  /\ Len(res.labs) = m
  /\ res.train = [k \in 1..(n - m) |-> all.rows[in[k]]]
Draw(lines, p, q, seed, res) ==
  /\ Holds(IsSplit(lines, p, q, res))
  /\ IF seed < 0 THEN UNCHANGED <<gen, drawn>>
     ELSE LET use == <<Len(ReadAll(lines).rows), p, q>>
              uses == IF gen.seed = seed THEN Append(gen.uses, use) ELSE <<use>>
              key == <<seed, uses>>
              what == [i \in 1..Len(res.test) |-> res.test[i][1][2]] IN
          /\ (key \in DOMAIN drawn) => (drawn[key] = what) = TRUE
          /\ gen' = [seed |-> seed, uses |-> uses]
          /\ drawn' = Memo(drawn, key, what)

-----------------------------------------------------------------------------
(* ARFF.  Attributes are numeric, strings or classes.  Numbers stand for    *)
(* themselves, and there are as many categories as the greatest needs; the  *)
(* labels of a class are numbered as declared, those of strings as they     *)
(* come; a class label that is not declared comes after those known.        *)
ArffStart == [name |-> "", attrs |-> <<>>, dicts |-> <<>>, cats |-> <<>>, rows |-> <<>>, data |-> FALSE]
Known(dict, s) == \E i \in 1..Len(dict) : dict[i] = s
CodeOf(dict, s) == (CHOOSE i \in 1..Len(dict) : dict[i] = s) - 1
Token(a, j, tk) ==       \* a reader after token tk = [n, s] of attribute j
  IF a.attrs[j][2] = "numeric"
  THEN [a EXCEPT !.cats[j] = IF tk.n + 1 > @ THEN tk.n + 1 ELSE @]
  ELSE IF Known(a.dicts[j], tk.s) THEN a
  ELSE [a EXCEPT !.dicts[j] = Append(@, tk.s), !.cats[j] = @ + 1]
Value(a, j, tk) == IF a.attrs[j][2] = "numeric" THEN tk.n ELSE CodeOf(a.dicts[j], tk.s)
RECURSIVE Tokens(_, _, _)
Tokens(a, row, j) == IF j > Len(row) THEN a ELSE Tokens(TLCEval(Token(a, j, row[j])), row, j + 1)
ArffLine(a, ln) ==
  CASE ln.k = "relation" -> [a EXCEPT !.name = ln.t[1]]
    [] ln.k = "attr" -> [a EXCEPT !.attrs = Append(@, SubSeq(ln.t, 1, 2)),
                                  !.dicts = Append(@, SubSeq(ln.t, 3, Len(ln.t))),
                                  !.cats = Append(@, Len(ln.t) - 2)]
    [] ln.k = "data" -> [a EXCEPT !.data = TRUE]
    [] ln.k = "tokens" -> LET b == Tokens(a, ln.x, 1) IN
                          [b EXCEPT !.rows = Append(@, [j \in 1..Len(ln.x) |-> <<j-1, Value(b, j, ln.x[j])>>])]
    [] OTHER -> a
Arff(lines) == TLCEval(FoldLeft(ArffLine, ArffStart, lines))
ParsedArff(lines) == LET a == Arff(lines) IN
  [name |-> a.name,
   vars |-> [i \in 1..Len(a.attrs) |-> [id |-> i-1, cats |-> a.cats[i], name |-> a.attrs[i][1]]],
   rows |-> a.rows,
   dicts |-> [i \in 1..Len(a.attrs) |-> IF a.attrs[i][2] = "numeric" THEN <<>> ELSE a.dicts[i]]]
\* the conversion to a .data file (classes only)
Converted(lines) == LET a == Arff(lines) IN
  [vars |-> [i \in 1..Len(a.attrs) |-> <<i-1, a.cats[i]>>],
   rows |-> [i \in 1..Len(a.rows) |-> [j \in 1..Len(a.rows[i]) |-> a.rows[i][j][2]]]]
=============================================================================
