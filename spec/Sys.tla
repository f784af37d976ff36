--------------------------------- MODULE Sys ---------------------------------
(***************************************************************************)
(* What every part of the library shares: the random generator, the log,   *)
(* and colours.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
VARIABLES seed,     \* seed of the generator
          drawn,    \* what has been drawn since it was set
          memo,     \* <<seed, drawn>> |-> result, for all that has been seen
          verbose, sink,  \* is anything logged, and where to ("" is standard output)
          text      \* sink |-> what has been written there
sysVars == <<seed, drawn, memo, verbose, sink, text>>
Holds(p) == p = TRUE

\* the result of a draw is a function of the seed and of what was drawn since
Refresh(s) == seed' = s /\ drawn' = <<>> /\ UNCHANGED <<memo, verbose, sink, text>>
Key(what) == <<seed, Append(drawn, what)>>
Allowed(what, r) ==
  CASE what[1] \in {"intn", "wide"} -> Len(r) = 1 /\ r[1] \in 0..(what[2] - 1)
    [] what[1] = "float" -> Len(r) = 1 /\ r[1] \in 0..1073741823        \* in 2^-30
    [] what[1] = "norm" -> Len(r) = 1
    [] what[1] = "colour" -> Len(r) = 3 /\ \A i \in 1..3 : r[i] \in 0..255
    \* m different pairs of [0,u) x [0,v)
    [] what[1] = "comb" -> /\ Len(r) = what[4]
                           /\ Cardinality(ToSet(r)) = Len(r)
                           /\ \A i \in 1..Len(r) : r[i] \in 0..(what[2] * what[3] - 1)
Draw(what, r) ==
  /\ Holds(Allowed(what, r))
  /\ Holds(Key(what) \in DOMAIN memo => memo[Key(what)] = r)
  /\ drawn' = Append(drawn, what)
  /\ memo' = IF Key(what) \in DOMAIN memo THEN memo ELSE memo @@ (Key(what) :> r)
  /\ UNCHANGED <<seed, verbose, sink, text>>
\* drawn by several at once: the same numbers, shared out in some order
Shared(alone, together) ==
  /\ Len(alone) = Len(together)
  /\ \A i \in 1..Len(alone) : Cardinality({j \in 1..Len(alone) : alone[j] = alone[i]}) =
                              Cardinality({j \in 1..Len(together) : together[j] = alone[i]})

-----------------------------------------------------------------------------
SetVerbose(b) == verbose' = b /\ UNCHANGED <<seed, drawn, memo, sink, text>>
\* a log file starts empty; one that cannot be had leaves the log where it is
SetLog(name, ok) ==
  /\ sink' = IF ok THEN name ELSE sink
  /\ text' = IF ok /\ name # "" THEN (name :> <<>>) @@ text ELSE text
  /\ UNCHANGED <<seed, drawn, memo, verbose>>
Write(msg) ==
  /\ text' = IF verbose THEN [text EXCEPT ![sink] = Append(@, msg)] ELSE text
  /\ UNCHANGED <<seed, drawn, memo, verbose, sink>>

-----------------------------------------------------------------------------
(* Colours, from hue (in quarters of sixty degrees), saturation and value  *)
(* (in sixteenths).  Components are 255ths, rounded down.                  *)
Component(num) == (255 * num) \div 1024        \* num in 1/1024
HSV(h, s, v) ==
  LET hh == h % 24
      i == hh \div 4
      f == hh % 4                             \* quarters
      p == v * (16 - s) * 4                   \* v/16 * (1 - s/16), in 1/1024
      q == v * (64 - s * f)                   \* v/16 * (1 - s f / 64)
      t == v * (64 - s * (4 - f))
      w == v * 64
      rgb == CASE i = 0 -> <<w, t, p>> [] i = 1 -> <<q, w, p>> [] i = 2 -> <<p, w, t>>
               [] i = 3 -> <<p, q, w>> [] i = 4 -> <<t, p, w>> [] i = 5 -> <<w, p, q>>
  IN [k \in 1..3 |-> Component(rgb[k])]
\* whatever saturation and value: the order of the components is the hue's
Ordered(h, c) ==
  LET hh == h % 24  i == hh \div 4 IN
  CASE i = 0 -> c[1] >= c[2] /\ c[2] >= c[3] [] i = 1 -> c[2] >= c[1] /\ c[1] >= c[3]
    [] i = 2 -> c[2] >= c[3] /\ c[3] >= c[1] [] i = 3 -> c[3] >= c[2] /\ c[2] >= c[1]
    [] i = 4 -> c[3] >= c[1] /\ c[1] >= c[2] [] i = 5 -> c[1] >= c[3] /\ c[3] >= c[2]
Brightest(c) == Max(ToSet(c))
=============================================================================
