------------------------------- MODULE TraceStats -------------------------------
EXTENDS Stats, TraceLib
vars == <<l>>
Holds(p) == p = TRUE
TSumExp == IsOp("logsumexp") /\ E.r = Total(E.ks) /\ E.kept
TPair == IsOp("logsumpair") /\ E.r = Total(E.ks) /\ E.r2 = E.r /\ E.r3 = E.r
TSum == IsOp("logsum") /\ E.r = Total(E.ks)
TProd == IsOp("logprod") /\ E.r = Times1(E.ks) /\ E.id
\* a sum of logarithms with signs: its magnitude and its sign; nothing left over has magnitude zero or sign zero
TSumLog == IsOp("sumlog") /\ E.kept
           /\ LET z == SignedSum(E.ks, E.ss) IN
              Holds(IF z = 0 THEN E.r = 0 \/ E.s = 0 ELSE E.s = (IF z < 0 THEN -1 ELSE 1) /\ E.r = Abs(z))
\* operands k 2^e of which those with the greatest e dwarf the others
Greatest(S) == CHOOSE e \in S : \A f \in S : f <= e
TopSum(ks, es, ss) == LET S == {i \in 1..Len(ks) : ks[i] > 0 /\ ss[i] # 0}
                          top == Greatest({es[i] : i \in S}) IN
  IF S = {} THEN 0 ELSE SignedSum(ks, [i \in 1..Len(ks) |-> IF i \in S /\ es[i] = top THEN ss[i] ELSE 0])
Ones(s) == [i \in 1..Len(s) |-> 1]
TSpread == IsOp("logspread")
  /\ E.r = TopSum(E.ks, E.es, Ones(E.ks))
  /\ LET z == TopSum(E.ks, E.es, E.ss) IN       \* what remains when the greatest cancel out is not in question
     Holds(z # 0 => (E.ssign = (IF z < 0 THEN -1 ELSE 1) /\ E.sr = Abs(z)))
  /\ Len(E.ks) >= 2 => LET k2 == SubSeq(E.ks, 1, 2) IN
        E.p = TopSum(k2, SubSeq(E.es, 1, 2), <<1, 1>>) /\ E.p2 = E.p
\* operands far from one another in size, all of which count
TFine == IsOp("logfine")
  /\ E.r = Total(E.ks) /\ E.lr = E.r /\ E.p = E.ks[1] + E.ks[2] /\ E.p2 = E.p
  /\ LET z == SignedSum(E.ks, E.ss) IN
     Holds(IF z = 0 THEN E.sr = 0 \/ E.ssign = 0 ELSE E.ssign = (IF z < 0 THEN -1 ELSE 1) /\ E.sr = Abs(z))
TApprox == IsOp("approx") /\ E.r = (E.a = E.b \/ Abs(E.a - E.b) < E.eps) /\ E.zero
TMoments == IsOp("moments") /\ E.mean = M(E.c) /\ E.mu = M(E.c) /\ E.sd = V(E.c) /\ E.sigma = V(E.c)
TTrim == IsOp("trim") /\ Holds(SameBag(E.r, Without(E.c, E.x)))
TQuantiles == IsOp("quantiles") /\ E.kept
              /\ LET q == Quantiles(E.x, E.m) IN
                 /\ Len(E.qs) = Len(q)
                 /\ \A i \in 1..Len(q) :
                      /\ E.qs[i].n = Len(q[i])
                      /\ E.qs[i].mu = RawM(q[i])
                      \* a constant quantile is given a deviation of one half
                      /\ E.qs[i].sd = IF RawV(q[i]) = 0 THEN Len(q[i]) * Len(q[i]) ELSE 4 * RawV(q[i])
TraceInit == l = 1
TraceNext == TSumExp \/ TPair \/ TSum \/ TProd \/ TSumLog \/ TSpread \/ TFine \/ TApprox \/ TMoments \/ TTrim \/ TQuantiles
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
