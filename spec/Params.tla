-------------------------------- MODULE Params --------------------------------
(***************************************************************************)
(* Learning parameters are bound to nodes.  A node without a binding gets  *)
(* default parameters, bound to it, when it is asked for them.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Functions, TLC

VARIABLES bound,   \* node -> parameter object
          fields   \* parameter object -> its options
parVars == <<bound, fields>>

\* real-valued options in units of 10^-6; the learning type by its name
DefaultP == [norm |-> TRUE, hw |-> FALSE, sm |-> 10000, lt |-> "SoftGD", eta |-> 100000,
             eps |-> 1000000, bs |-> 0, la |-> 10000, it |-> 4]

Nobody == [x \in {} |-> 0]
ParInit == bound = Nobody /\ fields = Nobody
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Make(p, opts) == p \notin DOMAIN fields /\ fields' = Put(fields, p, opts) /\ UNCHANGED bound
SetField(p, opts) == p \in DOMAIN fields /\ fields' = Put(fields, p, opts) /\ UNCHANGED bound
Bind(o, p) == p \in DOMAIN fields /\ bound' = Put(bound, o, p) /\ UNCHANGED fields
Unbind(o) == bound' = Restrict(bound, DOMAIN bound \ {o}) /\ UNCHANGED fields
\* what a node answers when asked for its parameters
Ask(o, p) ==
  IF o \in DOMAIN bound THEN p = bound[o] /\ UNCHANGED parVars
  ELSE /\ p \notin DOMAIN fields
       /\ fields' = Put(fields, p, DefaultP)
       /\ bound' = Put(bound, o, p)
\* looking things up binds nothing
Lookup(o, ex, found, p) ==
  /\ ex = (o \in DOMAIN bound) /\ found = ex /\ (ex => p = bound[o])
  /\ UNCHANGED parVars
Options(p, opts) == p \in DOMAIN fields /\ opts = fields[p] /\ UNCHANGED parVars

MethodOf(t) == IF t \in {"HardGD", "SoftGD"} THEN "GD" ELSE "EM"
HardnessOf(t) == IF t \in {"HardGD", "HardEM"} THEN "Hard" ELSE "Soft"
Kind(t, method, hardness) == method = MethodOf(t) /\ hardness = HardnessOf(t) /\ UNCHANGED parVars
=============================================================================
