--------------------------------- MODULE App ---------------------------------
(***************************************************************************)
(* The two jobs the program is run for.  Classification: learn from a      *)
(* share of the instances and count for how many of the others the most    *)
(* probable class is the right one.  Completion: for each image, learn     *)
(* from the images of other classes, and for each half of the image draw   *)
(* the image with that half replaced by its most probable values.          *)
(***************************************************************************)
EXTENDS Net
D == INSTANCE Draw

CountIn(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameRows(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : CountIn(a, a[i]) = CountIn(b, a[i])

\* rows are complete: one value per variable, the class last.  What the test
\* set is follows from what was learned from.
EvOf(row) == [x \in 0..(Len(row) - 1) |-> row[x + 1]]
Inputs(row) == [x \in 0..(Len(row) - 2) |-> row[x + 1]]
Best(net, den, row, ncls) ==
  LET v == TLCEval([c \in 0..(ncls-1) |-> Val(net, den, Override(Inputs(row), Len(row) - 1, c))])
      m == Max({v[c] : c \in 0..(ncls-1)})
  IN IF m = 0 THEN 0..ncls ELSE {c \in 0..(ncls-1) : v[c] = m}    \* impossible evidence: open
Surely(net, den, row, ncls) == Best(net, den, row, ncls) = {row[Len(row)]}
Possibly(net, den, row, ncls) == row[Len(row)] \in Best(net, den, row, ncls)

\* how often each row is not in the training set
Left(rows, train, row) == CountIn(rows, row) - CountIn(train, row)
Times(rows, train, P(_)) ==
  FoldSet(LAMBDA row, a : IF P(row) THEN a + Left(rows, train, row) ELSE a, 0, ToSet(rows))
\* the share p10 in tenths, to within one row
Share(n, train, p10) == LET e == 10 * train - p10 * n IN e <= 10 /\ -e <= 10
Classified(net, rows, train, ncls, p10, corrects, total) ==
  LET den == TLCEval(Den(net))
      lo == Times(rows, train, LAMBDA row : Surely(net, den, row, ncls))
      hi == Times(rows, train, LAMBDA row : Possibly(net, den, row, ncls))
  IN /\ \A i \in 1..Len(train) : Left(rows, train, train[i]) >= 0
     /\ total = Len(rows) - Len(train) /\ Share(Len(rows), Len(train), p10)
     /\ corrects \in lo..hi

-----------------------------------------------------------------------------
Others(rows, labs, i) == SelectSeq([j \in 1..Len(rows) |-> <<labs[j] # labs[i], rows[j]>>], LAMBDA x : x[1])
TrainingOf(rows, labs, i) == LET o == Others(rows, labs, i) IN [j \in 1..Len(o) |-> o[j][2]]
\* every image has been learned for, from the right images
Trained(rows, labs, runs) ==
  /\ Len(runs) = Len(rows)
  /\ \A i \in 1..Len(rows) :
       Cardinality({r \in 1..Len(runs) : SameRows(runs[r], TrainingOf(rows, labs, i))}) =
       Cardinality({j \in 1..Len(rows) : SameRows(TrainingOf(rows, labs, j), TrainingOf(rows, labs, i))})

\* without the separating line (before row or column k)
Unlined(f, w, h, typ, k) ==
  LET px == D!Colours(f) IN
  IF D!Across(typ) THEN SubSeq(px, 1, w * k) \o SubSeq(px, w * (k + 1) + 1, w * (h + 1))
  ELSE D!Concat([y \in 1..h |-> LET r == SubSeq(px, (y-1) * (w+1) + 1, y * (w+1)) IN SubSeq(r, 1, k) \o SubSeq(r, k + 2, w + 1)])
Frame(f, w, h, typ, max) ==
  /\ D!Valid(f) /\ f.magic = "P3" /\ f.max = max - 1
  /\ f.w = (IF D!Across(typ) THEN w ELSE w + 1) /\ f.h = (IF D!Across(typ) THEN h + 1 ELSE h)
\* the picture px of image row, completed where typ says, the cut at c
Known(row, w, h, typ, c, px) ==
  \A i \in 1..(w * h) : IF D!Part(typ, w, h, c, i - 1) THEN px[i][1] = 0 /\ px[i][3] = 0 ELSE px[i] = D!Grey(row[i])
Given(row, w, h, typ, c) == [i \in {j \in 0..(w*h-1) : ~D!Part(typ, w, h, c, j)} |-> row[i + 1]]
Cut(typ, w, h) == IF D!Across(typ) THEN {w * (h \div 2), w * ((h + 1) \div 2)} ELSE D!Middles(w)
Pictures(row, w, h, typ, max, f, Good(_, _)) ==
  /\ Frame(f, w, h, typ, max)
  /\ \E k \in D!Middles(IF D!Across(typ) THEN h ELSE w) : \E c \in Cut(typ, w, h) :
        LET px == TLCEval(Unlined(f, w, h, typ, k)) IN
        /\ D!WithLine(px, w, h, typ, k, <<max - 1, 0, 0>>) = D!Colours(f)
        /\ Known(row, w, h, typ, c, px)
        /\ Good(Given(row, w, h, typ, c), [i \in 0..(w*h-1) |-> px[i + 1][2]])
\* the completion is a most probable one
MostProbable(net, ev, state) ==
  LET den == TLCEval(Den(net))  R == Root(net) IN
  /\ \A x \in DOMAIN ev : state[x] = ev[x]
  /\ MaxVals(net, den, state)[R] = MaxVals(net, den, ev)[R]
InRange(max, state) == \A x \in DOMAIN state : state[x] \in 0..(max - 1)
=============================================================================
