-------------------------------- MODULE MC_Coll --------------------------------
(* Every history of up to Depth operations on one collection of each kind.    *)
EXTENDS Coll, FiniteSets, Json
CONSTANTS Depth, Emit
VARIABLES hist, given, taken, plain
mcVars == <<collVars, hist, given, taken, plain>>

MCInit == /\ \E t \in {"queue", "stack"} : kind = <<t>> /\ hist = <<[op |-> t]>>
          /\ data = <<<<>>>> /\ given = <<>> /\ taken = <<>> /\ plain = TRUE
Do(op) == Len(hist) <= Depth /\ hist' = Append(hist, [op |-> op])
MCGive == Do("give") /\ Give(1, Len(hist)) /\ given' = Append(given, Len(hist)) /\ UNCHANGED <<taken, plain>>
MCTake == /\ NonEmpty(1) /\ Do("take") /\ Take(1, FrontOf(1)) /\ taken' = Append(taken, FrontOf(1))
          /\ UNCHANGED <<given, plain>>
MCBack == /\ NonEmpty(1) /\ kind[1] = "queue" /\ Do("back") /\ TakeBack(1, Last(data[1])) /\ plain' = FALSE
          /\ UNCHANGED <<given, taken>>
MCInvert == NonEmpty(1) /\ Do("invert") /\ Invert(1) /\ plain' = FALSE /\ UNCHANGED <<given, taken>>
MCClear == NonEmpty(1) /\ Do("reset") /\ Clear(1) /\ plain' = FALSE /\ UNCHANGED <<given, taken>>
MCShrink == NonEmpty(1) /\ Do("shrink") /\ Shrink(1) /\ UNCHANGED <<given, taken, plain>>
MCNext == MCGive \/ MCTake \/ MCBack \/ MCInvert \/ MCClear \/ MCShrink
MCSpec == MCInit /\ [][MCNext]_mcVars

IsStrictlyIncr(s) == \A i \in 1..(Len(s)-1) : s[i] < s[i+1]
\* first in, first out
Fifo == (kind[1] = "queue" /\ plain) => taken \o data[1] = given
\* what is on a stack was given in that order, and everything above was taken
Lifo == (kind[1] = "stack" /\ plain) =>
          /\ IsStrictlyIncr(data[1])
          /\ Len(given) = Len(taken) + Len(data[1])
IncrInv == Len(given) >= Len(data[1])
Emitted == (Emit /\ Len(hist) = Depth + 1) => PrintT("@@" \o ToJson([i \in 1..Len(hist) |-> hist[i].op]))
=============================================================================
