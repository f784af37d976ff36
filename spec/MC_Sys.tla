-------------------------------- MODULE MC_Sys --------------------------------
(* All short histories, with a generator that is an arbitrary function.     *)
EXTENDS Sys, Json
CONSTANTS Depth, Emit
VARIABLES hist, mode
vars == <<sysVars, hist, mode>>
Seeds == {1, 2}
Draws == { <<"intn", 3>>, <<"float">>, <<"comb", 2, 2, 2>> }
\* some generator
Gen(s, d) == LET k == Len(d)  w == d[k] IN
  IF w[1] = "intn" THEN <<(s + k) % 3>> ELSE IF w[1] = "float" THEN <<s * 7 + k>> ELSE <<(s + k) % 2, 2>>
Names == {"a", "b", ""}
Init == /\ seed = 1 /\ drawn = <<>> /\ memo = <<>> /\ verbose = FALSE /\ sink = "" /\ text = ("" :> <<>>)
        /\ hist = <<>> /\ mode \in {"rand", "log"}
Log(o) == hist' = Append(hist, o) /\ UNCHANGED mode
RandOp == /\ mode = "rand"
          /\ \/ \E s \in Seeds : Refresh(s) /\ Log([op |-> "refresh", s |-> s])
             \/ \E w \in Draws : Draw(w, Gen(seed, Append(drawn, w))) /\ Log([op |-> "draw", w |-> w])
LogOp == /\ mode = "log"
         /\ \/ SetVerbose(~verbose) /\ Log([op |-> "verbose", b |-> ~verbose])
            \/ \E n \in Names : SetLog(n, TRUE) /\ Log([op |-> "setlog", n |-> n])
            \/ SetLog("no/such", FALSE) /\ Log([op |-> "setlog", n |-> "no/such"])
            \/ \E k \in {"f", "l"} : Write(<<k, Len(hist)>>) /\ Log([op |-> "print", k |-> k])
Next == Len(hist) < Depth /\ (RandOp \/ LogOp)
MCSpec == Init /\ [][Next]_vars
Function == \A k \in DOMAIN memo : memo[k] = Gen(k[1], k[2])
Silent == [][~verbose => (\A n \in DOMAIN text : n \in DOMAIN text' /\ (text'[n] = text[n] \/ text'[n] = <<>>))]_vars
OneSink == [][\A n \in DOMAIN text : (n # sink /\ n \in DOMAIN text' /\ text'[n] # text[n]) => text'[n] = <<>>]_vars
Hues == hist = <<>> => \A h \in 0..24, s \in 0..16, v \in 0..16 :
          LET c == HSV(h, s, v) IN Ordered(h, c) /\ Brightest(c) = Component(v * 64) /\ (s = 0 => c[1] = c[2] /\ c[2] = c[3])
Emitted == (Emit /\ Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
