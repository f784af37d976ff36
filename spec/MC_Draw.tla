-------------------------------- MODULE MC_Draw --------------------------------
(* Every small size and orientation: what the definitions say hangs together.   *)
EXTENDS Draw, Json
CONSTANTS MaxSide, Emit
VARIABLES w, h, typ
mcVars == <<w, h, typ>>
MCInit == w = 1 /\ h = 1 /\ typ \in {"TOP", "BOTTOM", "LEFT", "RIGHT"}
MCNext == \/ w < MaxSide /\ w' = w + 1 /\ UNCHANGED <<h, typ>>
          \/ h < MaxSide /\ h' = h + 1 /\ UNCHANGED <<w, typ>>
MCSpec == MCInit /\ [][MCNext]_mcVars
Im == [i \in 1..(w * h) |-> <<i, 0, 0>>]
Mark == <<0, 0, 0>>
Ks == Middles(IF Across(typ) THEN h ELSE w)
\* taking the line out gives the image back
Removable == \A k \in Ks : SelectSeq(WithLine(Im, w, h, typ, k, Mark), LAMBDA c : c # Mark) = Im
\* the line is a straight one
Straight == \A k \in Ks : LET z == WithLine(Im, w, h, typ, k, Mark)
                              ww == IF Across(typ) THEN w ELSE w + 1 IN
   {i \in 1..Len(z) : z[i] = Mark} =
   IF Across(typ) THEN {i \in 1..Len(z) : (i-1) \div ww = k} ELSE {i \in 1..Len(z) : (i-1) % ww = k}
\* opposite halves are each other's rest, and sides of even length are cut in equal parts
Opposite == [x \in {"TOP", "BOTTOM", "LEFT", "RIGHT"} |->
              CASE x = "TOP" -> "BOTTOM" [] x = "BOTTOM" -> "TOP" [] x = "LEFT" -> "RIGHT" [] x = "RIGHT" -> "LEFT"]
Halves == \A k \in Cuts(typ, w, h), i \in 0..(w * h - 1) :
   /\ Part(typ, w, h, k, i) # Part(Opposite[typ], w, h, k, i)
   /\ ((IF Across(typ) THEN h ELSE w) % 2 = 0) => 2 * Cardinality({j \in 0..(w * h - 1) : Part(typ, w, h, k, j)}) = w * h
Emitted == Emit => PrintT("@@" \o ToJson([w |-> w, h |-> h, typ |-> typ]))
=============================================================================
