--------------------------------- MODULE Learn ---------------------------------
(***************************************************************************)
(* Learning the weights of a network: one application of the gradient of a *)
(* batch of instances.  New weights are reals; they are given in units of  *)
(* 10^-6.  A parameter such as the learning rate is a pair <<num, den>>.   *)
(***************************************************************************)
EXTENDS SPN

Unit == 1000000

\* num/den in units of 10^-6, by long division (TLC has 32 bits)
DivScaled(num, dn) ==
  LET a == IF num < 0 THEN -num ELSE num
      step(st) == [q |-> st.q * 10 + (st.r * 10) \div dn, r |-> (st.r * 10) % dn]
      res == FoldLeft(LAMBDA st, i : step(st), [q |-> a \div dn, r |-> a % dn], [i \in 1..6 |-> i])
  IN IF num < 0 THEN -res.q ELSE res.q

MinSeq(s) == FoldLeft(LAMBDA a, b : IF b < a THEN b ELSE a, s[1], s)
\* normalisation: negative weights are first moved up to zero; nothing at all
\* becomes the uniform distribution
Shifted(v) == LET m == MinSeq(v) IN IF m < 0 THEN [i \in 1..Len(v) |-> v[i] - m] ELSE v
Normal(v) ==
  LET u == Shifted(v)
      t == SumSeq(u)
  IN IF t = 0 THEN [i \in 1..Len(v) |-> DivScaled(1, Len(v))]
     ELSE [i \in 1..Len(v) |-> DivScaled(u[i], t)]
\* how much an error of one unit in v is worth in Normal(v)
Slack(v) == LET t == SumSeq(Shifted(v)) IN IF t <= 0 THEN Unit ELSE 1 + (Len(v) * Unit) \div t

Dist(a, b) == IF a >= b THEN a - b ELSE b - a
\* got is what the real code has, want is before normalisation
Agrees(got, want, norm, tol) ==
  /\ Len(got) = Len(want)
  /\ IF norm THEN LET n == Normal(want) IN
                  \A i \in 1..Len(got) : Dist(got[i], n[i]) <= tol * Slack(want)
     ELSE \A i \in 1..Len(got) : Dist(got[i], want[i]) <= tol

-----------------------------------------------------------------------------
Weight(k, i) == DivScaled(net[k].w[i], Pow2(net[k].wd))
Decay(k, i, la) == DivScaled(2 * la[1] * net[k].w[i], la[2] * Pow2(net[k].wd))
Sums == {k \in 1..Len(net) : net[k].t = "sum"}
PerEdge(k, F(_)) == [i \in 1..Len(net[k].w) |-> F(i)]
Without(ev, Y) == [x \in DOMAIN ev \ Y |-> ev[x]]

\* sum of the weight derivatives over a batch
TotalGrad(evs) ==
  FoldLeft(LAMBDA g, ev : LET h == WeightGrads(ev) IN
             TLCEval([k \in 1..Len(net) |-> [i \in 1..Len(g[k]) |-> g[k][i] + h[k][i]]]),
           NoCounts(net), evs)

\* soft generative: w + eta/b * dS/dw - 2 lambda w
SoftGen(evs, eta, la, b) ==
  LET g == TotalGrad(evs)
      R == Pow2(den[Root(net)])
      W(k) == PerEdge(k, LAMBDA i : Weight(k, i) + DivScaled(eta[1] * g[k][i], eta[2] * b * R)
                                      - Decay(k, i, la))
  IN [k \in Sums |-> W(k)]

\* soft discriminative: the gradient of log S(Y|X)
SoftDis(evs, Y, eta, la, b) ==
  LET part(ev) ==
        LET g == WeightGrads(ev)
            h == WeightGrads(Without(ev, Y))
            s == Val(net, den, ev)
            z == Val(net, den, Without(ev, Y))
        IN [k \in 1..Len(net) |-> [i \in 1..Len(g[k]) |-> DivScaled(g[k][i], s) - DivScaled(h[k][i], z)]]
      tot == FoldLeft(LAMBDA a, ev : LET p == part(ev) IN
               TLCEval([k \in 1..Len(net) |-> [i \in 1..Len(a[k]) |-> a[k][i] + p[k][i]]]),
               NoCounts(net), evs)
      W(k) == PerEdge(k, LAMBDA i : Weight(k, i) + (eta[1] * tot[k][i]) \div (eta[2] * b)
                                      - Decay(k, i, la))
  IN [k \in Sums |-> W(k)]

-----------------------------------------------------------------------------
(* Hard learning counts the edges of MAP traces; ties may go either way.   *)
Traces(ev) ==
  LET mv == MaxVals(net, den, ev)
      R == Root(net)
      grow(st, j) ==
        IF j \notin st.seen \/ IsLeaf(net[j]) THEN {st}
        ELSE IF net[j].t = "prod" THEN {[st EXCEPT !.seen = @ \cup KidSet(net[j])]}
        ELSE {[seen |-> st.seen \cup {net[j].ch[i]}, picks |-> st.picks \cup {<<j, i>>}] :
                i \in {i \in 1..Len(net[j].ch) : IsArgMaxChild(net, den, mv, j, i)}}
      all == FoldLeft(LAMBDA sts, d : UNION {grow(st, R + 1 - d) : st \in sts},
                      {[seen |-> {R}, picks |-> {}]}, [d \in 1..R |-> d])
  IN {st.picks : st \in all}

Tally(c, picks) == [k \in 1..Len(net) |-> [i \in 1..Len(c[k]) |->
                      c[k][i] + IF <<k, i>> \in picks THEN 1 ELSE 0]]
Tallies(evs) == FoldLeft(LAMBDA cs, ev : {Tally(x[1], x[2]) : x \in cs \X Traces(ev)},
                         {NoCounts(net)}, evs)

\* eta * c / (w b) - 2 lambda w, only on edges that were counted
HardEdge(k, i, c, eta, la, b) ==
  IF c = 0 THEN Weight(k, i)
  ELSE Weight(k, i) + DivScaled(eta[1] * c * Pow2(net[k].wd), eta[2] * net[k].w[i] * b) - Decay(k, i, la)
HardW(k, c, eta, la, b) == PerEdge(k, LAMBDA i : HardEdge(k, i, c[k][i], eta, la, b))
Touched(k, c) == \E i \in 1..Len(c[k]) : c[k][i] # 0

AsBefore(k, got) == \A i \in 1..Len(got) : Dist(got[i], Weight(k, i)) <= 1

HardGenOk(evs, eta, la, b, norm, after) ==
  sound => \E c \in Tallies(evs) : \A k \in Sums :
     IF Touched(k, c) THEN Agrees(after[k], HardW(k, c, eta, la, b), norm, 8)
     ELSE AsBefore(k, after[k])

HardDisOk(evs, Y, eta, la, b, norm, after) ==
  sound => \E c \in Tallies(evs) :
  \E d \in Tallies([i \in 1..Len(evs) |-> Without(evs[i], Y)]) :
     LET x == [k \in 1..Len(net) |-> [i \in 1..Len(c[k]) |-> c[k][i] - d[k][i]]] IN
     \A k \in Sums :
        IF Touched(k, c) \/ Touched(k, d) THEN Agrees(after[k], HardW(k, x, eta, la, b), norm, 8)
        ELSE AsBefore(k, after[k])

SoftOk(want, norm, after) == \A k \in Sums : Agrees(after[k], want[k], norm, 8)

\* what the bound parameters select
Algo(hardType, batch) == IF hardType THEN (IF batch > 1 THEN "HardBGD" ELSE "HardGD")
                         ELSE IF batch > 1 THEN "BGD" ELSE "GD"

NoDecay == <<0, 1>>
Applied(algo, Y, evs, eta, la, b, norm, after) ==
  /\ \A k \in Sums : Len(after[k]) = Len(net[k].w)
  /\ IF Y = {}
     THEN CASE algo = "GD" -> SoftOk(SoftGen(evs, eta, NoDecay, 1), norm, after)
            [] algo = "BGD" -> SoftOk(SoftGen(evs, eta, la, b), norm, after)
            [] algo = "HardGD" -> HardGenOk(evs, eta, la, 1, norm, after)
            [] algo = "HardBGD" -> HardGenOk(evs, eta, la, b, norm, after)
     ELSE CASE algo = "GD" -> SoftOk(SoftDis(evs, Y, eta, la, 1), norm, after)
            [] algo = "BGD" -> SoftOk(SoftDis(evs, Y, eta, la, b), norm, after)
            [] algo = "HardGD" -> HardDisOk(evs, Y, eta, la, 1, norm, after)
            [] algo = "HardBGD" -> HardDisOk(evs, Y, eta, la, b, norm, after)

LearnStep(algo, Y, evs, eta, la, b, norm, after) ==
  /\ Holds(Applied(algo, Y, evs, eta, la, b, norm, after))
  /\ UNCHANGED spnVars

\* NormalizeSPN: every sum is normalised, nothing else changes
NormalizedAs(after) ==
     \A k \in Sums : /\ Len(after[k]) = Len(net[k].w)
                     /\ \A i \in 1..Len(after[k]) :
                          Dist(after[k][i], Normal(net[k].w)[i]) <= 2
=============================================================================
