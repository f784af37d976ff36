-------------------------------- MODULE MC_SPN --------------------------------
(***************************************************************************)
(* All small networks, grown node by node.  TLC checks on every one of     *)
(* them that the definitions of Net have the meaning users rely on         *)
(* (marginalisation, MAP, derivatives), and prints the rooted ones so that *)
(* the driver builds each of them with the real code.                      *)
(***************************************************************************)
EXTENDS SPN, Json

CONSTANTS MaxNodes, MaxLeaves, MaxFan, Emit

Leaf == << [t |-> "ind", var |-> 0, val |-> 0],
           [t |-> "ind", var |-> 0, val |-> 1],
           [t |-> "mult", var |-> 1, tab |-> <<1, 3>>, td |-> 2],
           [t |-> "ind", var |-> 1, val |-> 1] >>
LeafNo(n) == CHOOSE i \in 1..Len(Leaf) : Leaf[i] = n

Weights == << <<2>>, <<1, 2>>, <<2, 1, 3>> >>

VARIABLE inner     \* number of inner nodes so far
mcVars == <<spnVars, inner>>

MCInit == /\ \E i \in 1..Len(Leaf) : net = <<Leaf[i]>>
          /\ den = Den(net) /\ sound = TRUE /\ snap = <<>>
          /\ acc = NoCounts(net) /\ hard = NoCounts(net)
          /\ inner = 0

Fans == UNION {[1..k -> 1..Len(net)] : k \in 1..MaxFan}
Sorted(f) == \A i \in 1..(Len(f)-1) : f[i] <= f[i+1]

AddLeaf == /\ inner = 0 /\ Len(net) < MaxLeaves
           /\ \E i \in LeafNo(net[Len(net)])..Len(Leaf) : SetNet(Append(net, Leaf[i]))
           /\ UNCHANGED <<snap, inner>>
AddSum == /\ \E f \in Fans :
               SetNet(Append(net, [t |-> "sum", ch |-> f, w |-> Weights[Len(f)], wd |-> 0]))
          /\ inner' = inner + 1 /\ UNCHANGED snap
AddProd == /\ \E f \in Fans :
                Sorted(f) /\ SetNet(Append(net, [t |-> "prod", ch |-> f]))
           /\ inner' = inner + 1 /\ UNCHANGED snap

MCNext == Len(net) < MaxNodes /\ (AddLeaf \/ AddSum \/ AddProd)
MCSpec == MCInit /\ [][MCNext]_mcVars

Rooted == Reach(net) = 1..Len(net)

-----------------------------------------------------------------------------
Vars2 == {0, 1}
Evs == UNION {[D -> 0..1] : D \in SUBSET Vars2}
R == Root(net)

WF == WellFormed(net)

\* leaving a variable out is summing over it
Marginal ==
  (sound /\ Rooted) =>
  \A ev \in Evs : \A x \in Scopes(net)[R] \ DOMAIN ev :
     Val(net, den, ev) = Val(net, den, Override(ev, x, 0)) + Val(net, den, Override(ev, x, 1))

\* the MAP value is the best value of a complete state, and at most the soft value
MapIsBest ==
  (sound /\ Rooted) =>
  \A ev \in Evs :
     LET m == MaxVals(net, den, ev)[R] IN
     /\ m <= Val(net, den, ev)
     /\ m = Max({MaxVals(net, den, full)[R] : full \in
                   {f \in [Vars2 -> 0..1] : \A x \in DOMAIN ev : f[x] = ev[x]}})
     /\ \E full \in [Scopes(net)[R] -> 0..1] : GoodState(R, ev, full)

\* dS/dS_n is the rate of change, and the network is linear in each variable
Euler ==
  (sound /\ Rooted) =>
  \A ev \in Evs :
     LET v == Vals(net, den, ev)
         d == Derivs(net, den, v)
     IN \A x \in Scopes(net)[R] :
          v[R] = SumSeq([k \in 1..Len(net) |->
                   IF IsLeaf(net[k]) THEN (IF net[k].var = x THEN d[k] * v[k] ELSE 0) ELSE 0])

\* dS/dw is the change of the value when the weight grows by one
WeightSlope ==
  (sound /\ Rooted) =>
  \A ev \in Evs :
     LET v == Vals(net, den, ev)
         d == Derivs(net, den, v)
     IN \A k \in 1..Len(net) : net[k].t = "sum" =>
          \A i \in 1..Len(net[k].ch) :
             WeightDeriv(net, den, v, d, k, i) =
               Val([net EXCEPT ![k].w[i] = @ + 1], den, ev) - v[R]

\* complete networks give every node of a sum the same scope, and so on
ScopeSound == Scopes(net)[R] = {net[k].var : k \in {j \in Reach(net) : IsLeaf(net[j])}}

-----------------------------------------------------------------------------
\* printed for the driver
Emitted == (Emit /\ Rooted /\ inner > 0) => PrintT("@@" \o ToJson(net))
=============================================================================
