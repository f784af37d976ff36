--------------------------------- MODULE Draw ---------------------------------
(***************************************************************************)
(* Images written out, as a reader of the netpbm formats sees them: a      *)
(* magic number, the size, the greatest sample, and the samples.  An image *)
(* is a sequence of w*h pixel values, row by row.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
Holds(p) == p = TRUE
Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Valid(f) == /\ Len(f.s) = f.w * f.h * (IF f.magic = "P3" THEN 3 ELSE 1)
            /\ f.magic \in {"P1", "P2", "P3"}
            /\ \A i \in 1..Len(f.s) : f.s[i] \in 0..f.max
Colours(f) == [i \in 1..(f.w * f.h) |-> SubSeq(f.s, 3*i - 2, 3*i)]
Grey(v) == <<v, v, v>>

IsPBM(im, w, h, f) == Valid(f) /\ f.magic = "P1" /\ f.w = w /\ f.h = h /\ f.s = im
IsPGM(im, w, h, max, f) == Valid(f) /\ f.magic = "P2" /\ f.w = w /\ f.h = h /\ f.max = max /\ f.s = im
IsPPM(im, w, h, max, f) == Valid(f) /\ f.magic = "P3" /\ f.w = w /\ f.h = h /\ f.max = max
                           /\ Colours(f) = [i \in 1..(w * h) |-> Grey(im[i])]

-----------------------------------------------------------------------------
(* Completions: known is the set of pixels that were given.  A red line     *)
(* through the middle separates the two halves.                             *)
Across(typ) == typ \in {"TOP", "BOTTOM"}
\* the picture with a line of c before row (column) k
WithLine(px, w, h, typ, k, c) ==
  IF Across(typ) THEN SubSeq(px, 1, w * k) \o [i \in 1..w |-> c] \o SubSeq(px, w * k + 1, w * h)
  ELSE Concat([y \in 1..h |-> LET r == SubSeq(px, (y-1) * w + 1, y * w) IN
                              SubSeq(r, 1, k) \o <<c>> \o SubSeq(r, k + 1, w)])
Middles(n) == {n \div 2, (n + 1) \div 2}
IsCompletion(px, w, h, typ, max, f) ==
  /\ Valid(f) /\ f.magic = "P3" /\ f.max = max
  /\ f.w = (IF Across(typ) THEN w ELSE w + 1) /\ f.h = (IF Across(typ) THEN h + 1 ELSE h)
  /\ \E k \in Middles(IF Across(typ) THEN h ELSE w) : Colours(f) = WithLine(px, w, h, typ, k, <<max, 0, 0>>)
\* shades of grey where given, of green where completed
Shades(im, known) == [i \in 1..Len(im) |-> IF i - 1 \in known THEN Grey(im[i]) ELSE <<0, im[i], 0>>]
\* bits: blue where given, green where completed
White == <<255, 255, 255>>
Bits(im, known) == [i \in 1..Len(im) |-> IF im[i] # 1 THEN White ELSE IF i - 1 \in known THEN <<0, 0, 255>> ELSE <<0, 255, 0>>]

-----------------------------------------------------------------------------
(* Halves: the half named first, the rest second *)
Part(typ, w, h, k, i) ==      \* is pixel i in the half that typ names, cut at k
  CASE typ = "TOP" -> i < k [] typ = "BOTTOM" -> i >= k
    [] typ = "LEFT" -> i % w < k [] typ = "RIGHT" -> i % w >= k
Cuts(typ, w, h) == IF Across(typ) THEN {(w * h) \div 2, (w * h + 1) \div 2, w * (h \div 2), w * ((h + 1) \div 2)} ELSE Middles(w)
IsHalves(im, typ, w, h, p, q) ==
  \E k \in Cuts(typ, w, h) :
     LET all == [i \in 1..Len(im) |-> <<i-1, im[i]>>] IN
     /\ p = SelectSeq(all, LAMBDA x : Part(typ, w, h, k, x[1]))
     /\ q = SelectSeq(all, LAMBDA x : ~Part(typ, w, h, k, x[1]))
=============================================================================
