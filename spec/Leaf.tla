---------------------------------- MODULE Leaf ----------------------------------
(***************************************************************************)
(* Univariate leaf distributions.  A discrete leaf is a sequence of        *)
(* numerators pr over a common denominator; a normal leaf has centre c/n   *)
(* and variance v/n^2, a point mass when v = 0.                            *)
(***************************************************************************)
EXTENDS Stats, TLC
VARIABLE leaf
Holds(p) == p = TRUE
Nothing == [kind |-> "none"]

Discrete(var, sc, pr, d) == [kind |-> "discrete", var |-> var, sc |-> sc, pr |-> pr, d |-> d]
Normal(var, c, v, n) == [kind |-> "normal", var |-> var, sc |-> <<var>>, c |-> c, v |-> v, n |-> n]
Point(var, x) == [kind |-> "point", var |-> var, sc |-> <<var>>, x |-> x]

LeafInit == leaf = Nothing
\* from a distribution, counts (add-one smoothing) or nothing at all (uniform)
GivenDist(var, pr, d) == Discrete(var, <<var>>, pr, d)
Smoothed(var, sc, c) == Discrete(var, sc, [i \in 1..Len(c) |-> c[i] + 1], N(c) + Len(c))
Uniform(var, m) == Discrete(var, <<var>>, [i \in 1..m |-> 1], m)
\* normal leaves, around the mean or the mode, or with given parameters (centre and deviation in quarters)
AtMean(var, c) == IF V(c) = 0 THEN Point(var, M(c) \div N(c)) ELSE Normal(var, M(c), V(c), N(c))
AtMode(var, c, i) == IF V(c) = 0 THEN Point(var, i - 1) ELSE Normal(var, (i-1) * N(c), V(c), N(c))
OfValues(var, x) == IF RawV(x) = 0 THEN Point(var, x[1]) ELSE Normal(var, RawM(x), RawV(x), Len(x))
OfParams(var, mu4, sd4) == IF sd4 = 0 THEN Point(var, mu4 \div 4) ELSE Normal(var, mu4, sd4 * sd4, 4)

Best(f) == CHOOSE i \in 1..Len(f.pr) : \A j \in 1..Len(f.pr) : f.pr[j] <= f.pr[i]
-----------------------------------------------------------------------------
(* What is seen of a leaf.                                                  *)
(* discrete: probabilities times the denominator                            *)
SeenDiscrete(f, o) ==
  /\ o.sc = f.sc /\ o.pr = f.pr /\ o.value = f.pr /\ o.max = f.pr /\ o.argmax = f.pr
  /\ o.state = [i \in 1..Len(f.pr) |-> <<<<f.var, i-1>>>>]
  /\ o.marginal = f.d /\ o.other = f.d
  /\ o.fmax = f.pr[Best(f)] /\ o.fargmax = f.pr[Best(f)]
  /\ \E i \in 1..Len(f.pr) : f.pr[i] = f.pr[Best(f)] /\ o.fstate = <<<<f.var, i-1>>>>
\* moments of a distribution that sums to one
Moments(f, o) == /\ o.mean = M(f.pr) /\ o.mu = M(f.pr)
                 /\ o.sd = V(f.pr) /\ o.sigma = V(f.pr)
(* normal: squared distance to the centre, read off the difference in log   *)
(* density, and the density at the centre against 1/(sigma sqrt(2 pi))      *)
Near(x, c, n) == 2 * Abs(x * n - c) <= n
SeenNormal(f, o) ==
  /\ o.sc = f.sc /\ o.c = f.c /\ o.v = f.v
  /\ o.value = [i \in 1..Len(o.xs) |-> (o.xs[i] * f.n - f.c) * (o.xs[i] * f.n - f.c)]
  /\ o.max = o.value /\ o.argmax = o.value
  /\ o.state = [i \in 1..Len(o.xs) |-> <<<<f.var, o.xs[i]>>>>]
  /\ o.marginal = 1000000 /\ o.other = 1000000
  /\ Abs(o.peak - 1000000) <= 1 /\ Abs(o.apeak - 1000000) <= 1
  /\ Len(o.fstate) = 1 /\ o.fstate[1][1] = f.var /\ Near(o.fstate[1][2], f.c, f.n)
SeenPoint(f, o) ==
  /\ o.sc = f.sc
  /\ o.value = [i \in 1..Len(o.xs) |-> IF o.xs[i] = f.x THEN 1 ELSE 0]
  /\ o.max = o.value /\ o.argmax = o.value
  /\ o.state = [i \in 1..Len(o.xs) |-> <<<<f.var, o.xs[i]>>>>]
  /\ o.marginal = 1000000 /\ o.other = 1000000
  /\ o.peak = 1000000 /\ o.apeak = 1000000
  /\ o.fstate = <<<<f.var, f.x>>>>
=============================================================================
