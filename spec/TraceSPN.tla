------------------------------- MODULE TraceSPN -------------------------------
(* Traces of the real network code, checked against the actions of SPN.      *)
EXTENDS SPN, TraceLib

vars == <<spnVars, l>>

Fcn(x) == PairsToFcn(x)

\* what the public accessors show right after building is what was built
Shows(obs, n) == obs = n

TBuild == IsOp("build") /\ Shows(E.obs, E.net) /\ Build(E.net, E.image)
TGrow == IsOp("grow") /\ Grow(E.k, E.c, E.w)
TSetWeight == IsOp("setw") /\ SetWeight(E.k, E.i, E.w)
\* queries leave network and evidence alone
TUntouched == IsOp("untouched") /\ SameImage(E.image)
TInfer == IsOp("infer") /\ E.evafter = E.ev /\ Infer(E.k, Fcn(E.ev), E.res)
TInferY == IsOp("infery") /\ E.evafter = E.ev
           /\ Infer(E.k, Override(Fcn(E.ev), E.y, E.yv), E.res)
TStore == IsOp("store") /\ E.evafter = E.ev /\ E.tkok
          /\ StoreTable(E.k, Fcn(E.ev), E.table)
TMax == IsOp("max") /\ E.evafter = E.ev /\ MaxValue(E.k, Fcn(E.ev), E.res)
TArgMax == IsOp("argmax") /\ E.evafter = E.ev
           /\ ArgMax(E.k, Fcn(E.ev), E.res, Fcn(E.state))
TStoreMap == IsOp("storemap") /\ E.evafter = E.ev /\ E.tkok
             /\ StoreMaxTable(E.k, Fcn(E.ev), E.table, Fcn(E.state))
TTraceMap == IsOp("tracemap") /\ E.evafter = E.ev /\ OnePerKey(E.picks)
             /\ TraceOfMap(E.k, Fcn(E.ev), Fcn(E.picks))
TTopSort == IsOp("topsort") /\ TopSort(E.k, E.order)
TTopHalt == IsOp("tophalt") /\ E.calls = E.order /\ TopSortHalted(E.k, E.order, E.stop)
TSearch == IsOp("search") /\ Search(E.k, E.order, ToSet(E.skip), E.stop, E.breadth)
TCount == IsOp("count") /\ CountKinds(E.k, E.sums, E.prods, E.leaves)
THeight == IsOp("height") /\ HeightOf(E.k, E.h)
TScope == IsOp("scope") /\ ScopeOf(E.k, E.sc)
TScopes == IsOp("scopes") /\ ScopeTable(E.k, E.scs)
TValid == IsOp("valid") /\ Validity(E.complete, E.decomposable)
TDerive == IsOp("derive") /\ Derive(Fcn(E.ev), E.d)
TDeriveW == IsOp("derivew") /\ DeriveWeights(Fcn(E.ev), E.wts)
TDeriveB == IsOp("deriveb") /\ DeriveBatch(Fcn(E.ev), E.wts)
TDeriveH == IsOp("deriveh") /\ DeriveHard(Fcn(E.ev), E.counts)
TDeriveHN == IsOp("derivehn") /\ Holds(ManyTraces(Fcn(E.ev), E.times, E.counts)) /\ UNCHANGED spnVars
TForget == IsOp("forget") /\ Forget

(* Networks with real-valued parameters: the recorded log-values must obey  *)
(* the equation of every node.  Log-values are in units of 10^-4, shares of *)
(* a sum (w_i exp(v_i) / exp(v)) in units of 10^-6.                         *)
NegInf == -2000000000
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
LN2 == 6931
HALFLN2PI == 9189
\* ln of the density at x/2^0 of a normal with mean m/2 and deviation 2^s
GaussLog(x, m, s) ==
  LET q == (2*x - m) * (2*x - m)    \* 4 (x-mu)^2
      e == IF s >= 0 THEN (q * 1250) \div (4^s) ELSE q * 1250 * (4^(-s))
  IN -e - s * LN2 - HALFLN2PI
LocalNode(ns, k) ==
  LET n == ns[k] IN
  CASE n.t = "num"   -> n.num = n.want
    [] n.t = "gauss" -> IF n.set THEN Near(n.v, GaussLog(n.x, n.m, n.s), 5)
                        ELSE Near(n.v, 0, 1)
    [] n.t = "prod"  ->
         IF \E i \in 1..Len(n.ch) : ns[n.ch[i]].v = NegInf THEN n.v = NegInf
         ELSE n.v # NegInf /\ Near(n.v, SumSeq([i \in 1..Len(n.ch) |-> ns[n.ch[i]].v]), Len(n.ch) + 1)
    [] n.t = "sum"   ->
         IF \A i \in 1..Len(n.ch) : n.zero[i] \/ ns[n.ch[i]].v = NegInf THEN n.v = NegInf
         ELSE n.v # NegInf /\ Near(SumSeq(n.sh), 1000000, Len(n.ch) + 2)
    [] n.t = "max"   -> Near(0, Max(ToSet(n.of)), 100)   \* w_i v_i against v, in units of 10^-10
TLocal == /\ IsOp("local")
          /\ Holds(\A k \in 1..Len(E.nodes) : LocalNode(E.nodes, k))
          /\ \A i \in 1..Len(E.roots) : Near(E.roots[i], E.nodes[Len(E.nodes)].v, 1)
          /\ UNCHANGED spnVars

TLocalMap == /\ IsOp("localmap")
             /\ Holds(\A k \in 1..Len(E.nodes) : LocalNode(E.nodes, k))
             /\ \A i \in 1..Len(E.roots) : Near(E.roots[i], E.nodes[Len(E.nodes)].v, 1)
             /\ Holds(\A i \in 1..Len(E.states) : LET s == E.states[i] f == TLCEval(Fcn(s.s)) IN
                  /\ OnePerKey(s.s) /\ DOMAIN f = 0..(E.n - 1)
                  /\ \A j \in 1..Len(E.ev) : f[E.ev[j][1]] = E.ev[j][2]
                  /\ Near(s.v, 0, 1000))             \* in units of 10^-10
             /\ Holds(\A i \in 1..Len(E.picks) : Near(E.picks[i][3], 0, 100))
             /\ UNCHANGED spnVars
\* the derivative of a node is what comes from its parents, in shares of it; the root's is one
TLocalDerive == /\ IsOp("localderive")
                /\ E.nodes[Len(E.nodes)].v = 0
                /\ Holds(\A k \in 1..(Len(E.nodes) - 1) : LET n == E.nodes[k] IN
                     IF n.sh = <<>> THEN n.v = NegInf ELSE n.v # NegInf /\ Near(SumSeq(n.sh), 1000000, Len(n.sh) + 2))
                /\ Holds(\A k \in 1..Len(E.nodes) : \A j \in 1..Len(E.nodes[k].wd) : Near(E.nodes[k].wd[j][1], E.nodes[k].wd[j][2], 1))
                /\ UNCHANGED spnVars
\* the derivatives of several assignments together: each has its share of the total
TLocalBatch == /\ IsOp("localbatch")
               /\ Holds(\A k \in 1..Len(E.edges) : LET n == E.edges[k] IN
                    /\ n.ok
                    /\ IF n.sh = <<>> THEN n.none
                       ELSE ~n.none /\ Near(SumSeq(n.sh), 1000000, Len(n.sh) + 2) /\ \A i \in 1..Len(n.sh) : n.sh[i] >= 0)
               /\ UNCHANGED spnVars
\* how a node combines the values of its children
RECURSIVE MulSeq(_)
MulSeq(s) == IF s = <<>> THEN 1 ELSE Head(s) * MulSeq(Tail(s))
TCompute == /\ IsOp("compute")
            /\ E.sum = SumSeq(E.nums) /\ E.prod = MulSeq(E.nums)
            /\ E.hard = SumSeq([i \in 1..Len(E.nums) |-> E.nums[i] * E.ws[i]])
            /\ UNCHANGED spnVars

(* C05: an image recorded in memory, and what came back from a file *)
TImage == IsOp("image") /\ snap' = E.image /\ UNCHANGED <<net, den, sound, acc, hard>>
TLoaded == IsOp("loaded") /\ SameImage(E.image)
           /\ Len(E.before) = Len(E.after)
           /\ \A i \in 1..Len(E.before) : Near(E.before[i], E.after[i], 1)

TraceInit == SPNInit /\ l = 1
TraceNext == \/ TBuild \/ TGrow \/ TSetWeight \/ TUntouched
             \/ TInfer \/ TInferY \/ TStore
             \/ TMax \/ TArgMax \/ TStoreMap \/ TTraceMap
             \/ TTopSort \/ TTopHalt \/ TSearch \/ TCount \/ THeight
             \/ TScope \/ TScopes \/ TValid
             \/ TDerive \/ TDeriveW \/ TDeriveB \/ TDeriveH \/ TDeriveHN \/ TForget
             \/ TLocal \/ TLocalMap \/ TLocalDerive \/ TLocalBatch \/ TCompute \/ TImage \/ TLoaded
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
