--------------------------------- MODULE Coll ---------------------------------
(* Queues and stacks are sequences with agreed ends.  data[1] is the front of *)
(* a queue and the bottom of a stack.                                         *)
EXTENDS Integers, Sequences, SequencesExt, TLC

VARIABLES kind,   \* "queue" or "stack", per collection
          data    \* contents, per collection
collVars == <<kind, data>>

CollInit == kind = <<>> /\ data = <<>>
Reset2(i, s) == data' = [data EXCEPT ![i] = s] /\ UNCHANGED kind

Create(t) == t \in {"queue", "stack"} /\ kind' = Append(kind, t) /\ data' = Append(data, <<>>)
Give(i, x) == Reset2(i, Append(data[i], x))
NonEmpty(i) == data[i] # <<>>
FrontOf(i) == IF kind[i] = "queue" THEN Head(data[i]) ELSE Last(data[i])
Take(i, r) == /\ NonEmpty(i) /\ r = FrontOf(i)
              /\ Reset2(i, IF kind[i] = "queue" THEN Tail(data[i]) ELSE Front(data[i]))
TakeBack(i, r) == /\ kind[i] = "queue" /\ NonEmpty(i) /\ r = Last(data[i])
                  /\ Reset2(i, Front(data[i]))
Clear(i) == Reset2(i, <<>>)
Invert(i) == Reset2(i, Reverse(data[i]))
Shrink(i) == UNCHANGED collVars
Sees(i, size, empty, peek, gets) ==
  /\ size = Len(data[i]) /\ empty = (data[i] = <<>>)
  /\ NonEmpty(i) => peek = FrontOf(i)
  /\ \A j \in 1..Len(gets) : gets[j][1] + 1 \in 1..Len(data[i]) /\ gets[j][2] = data[i][gets[j][1] + 1]
  /\ UNCHANGED collVars
=============================================================================
