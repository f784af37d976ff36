------------------------------- MODULE MC_Score -------------------------------
(* Every history of up to Depth bookkeeping operations.                       *)
EXTENDS Score, Json
CONSTANTS Depth, MaxScores, Emit
VARIABLES hist, regs
mcVars == <<spnVars, scVars, hist, regs>>
S == 1..Len(scores)
MCInit == SPNInit /\ scores = <<NoPairs, NoPairs>> /\ hist = <<>> /\ regs = <<0, 0>>
Do(op, i, j) == Len(hist) < Depth /\ hist' = Append(hist, <<op, i, j>>) /\ UNCHANGED spnVars
MCReg == \E i \in S, p \in 0..1 : /\ Do("register", i, p) /\ Register(i, p, 0)
                                  /\ regs' = [regs EXCEPT ![i] = @ + 1]
MCMerge == \E i, j \in S : /\ Do("merge", i, j) /\ Merge(i, j)
                           /\ regs' = [regs EXCEPT ![i] = @ + regs[j]]
MCAdd == \E i, j \in S : /\ Len(scores) < MaxScores /\ Do("add", i, j) /\ AddUp(i, j)
                         /\ regs' = Append(regs, regs[i] + regs[j])
MCClear == \E i \in S : SizeOf(scores[i]) > 0 /\ Do("clear", i, 0) /\ Clear(i) /\ regs' = [regs EXCEPT ![i] = 0]
MCNext == MCReg \/ MCMerge \/ MCAdd \/ MCClear
MCSpec == MCInit /\ [][MCNext]_mcVars
Adds == \A i \in S : HitsOf(scores[i]) + MissesOf(scores[i]) = SizeOf(scores[i])
Counted == \A i \in S : SizeOf(scores[i]) = regs[i]
Emitted == (Emit /\ Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
