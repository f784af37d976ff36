------------------------------ MODULE TraceLearn ------------------------------
EXTENDS Learn, TraceLib
vars == <<spnVars, l>>
Shape(image) == [i \in 1..Len(image) |-> [image[i] EXCEPT !.w = <<>>]]
Evs(s) == [i \in 1..Len(s) |-> PairsToFcn(s[i])]
TBuild == IsOp("build") /\ E.obs = E.net /\ Build(E.net, E.image)
Kept == E.same /\ E.shape = Shape(snap) /\ E.dataafter = E.data
TLearn == /\ IsOp("learn") /\ Kept
          /\ LearnStep(IF E.algo = "auto" THEN Algo(E.hard, E.bs) ELSE E.algo,
                       ToSet(E.y), Evs(E.data), E.eta, E.la, E.b, E.norm, E.after)
\* learning from many instances is learning from one batch after the other
TCompose == /\ IsOp("compose") /\ Kept
            /\ \A k \in 1..Len(E.whole) : \A i \in 1..Len(E.whole[k]) :
                 Dist(E.whole[k][i], E.steps[k][i]) <= 2
            /\ Len(E.whole) = Len(net) /\ Len(E.steps) = Len(net)
            /\ UNCHANGED spnVars
\* one step on weights of any magnitude: the terms of the new weights, in units of 10^-6 of the largest
StepAgrees(s) ==
  LET want == TLCEval([i \in 1..Len(s.old) |-> s.old[i] + s.grad[i] - s.decay[i]]) IN
  IF s.touched THEN Agrees(s.got, want, E.norm, 4)
  ELSE Agrees(s.got, s.old, FALSE, 1)
TLocalStep == /\ IsOp("localstep") /\ E.same /\ E.dataafter = E.data
              /\ Holds(\A k \in 1..Len(E.sums) : StepAgrees(E.sums[k]))
              /\ UNCHANGED spnVars
TNormNet == IsOp("normnet") /\ E.same /\ E.shape = Shape(snap) /\ Holds(NormalizedAs(E.after)) /\ UNCHANGED spnVars
TNormVec == /\ IsOp("normvec")
            /\ Len(E.res) = Len(E.v)
            /\ \A i \in 1..Len(E.res) : Dist(E.res[i], Normal(E.v)[i]) <= 2
            /\ UNCHANGED spnVars
\* weights of any size: shares of the total, in units of 10^-6
TNormReal == /\ IsOp("normreal")
             /\ Len(E.res) = Len(E.share)
             /\ Dist(SumSeq(E.res), Unit) <= Len(E.res) + 1
             /\ Dist(E.over, 0) <= 2                       \* in units of 10^-12
             /\ \A i \in 1..Len(E.res) : E.res[i] >= 0 /\ Dist(E.res[i], E.share[i]) <= 2
             /\ UNCHANGED spnVars
\* a normalised valid network is a distribution
TMass == IsOp("mass") /\ Holds(sound => (Dist(E.mass, Unit) <= 2 /\ Dist(E.none, Unit) <= 2)) /\ UNCHANGED spnVars
TraceInit == SPNInit /\ l = 1
TraceNext == TBuild \/ TLearn \/ TLocalStep \/ TCompose \/ TNormNet \/ TNormVec \/ TNormReal \/ TMass
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
