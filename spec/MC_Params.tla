------------------------------- MODULE MC_Params -------------------------------
EXTENDS Params, Json
CONSTANTS Depth, Objs, Emit
VARIABLE hist
mcVars == <<parVars, hist>>
Opts(p) == [DefaultP EXCEPT !.it = p, !.bs = 7]
MCInit == ParInit /\ hist = <<>>
Do(op) == Len(hist) < Depth /\ hist' = Append(hist, op)
NewId == Cardinality(DOMAIN fields) + 1
MCBindNew == \E o \in Objs : /\ Do([op |-> "bindnew", o |-> o])
                             /\ bound' = Put(bound, o, NewId) /\ fields' = Put(fields, NewId, Opts(NewId))
MCShare == \E o, q \in Objs : /\ o # q /\ q \in DOMAIN bound
                              /\ Do([op |-> "share", o |-> o, q |-> q]) /\ Bind(o, bound[q])
MCUnbind == \E o \in Objs : Do([op |-> "unbind", o |-> o]) /\ Unbind(o)
MCAsk == \E o \in Objs : /\ Do([op |-> "ask", o |-> o])
                         /\ Ask(o, IF o \in DOMAIN bound THEN bound[o] ELSE NewId)
MCSet == \E o \in Objs : /\ o \in DOMAIN bound /\ Do([op |-> "set", o |-> o])
                         /\ SetField(bound[o], [fields[bound[o]] EXCEPT !.eta = Len(hist)])
MCNext == MCBindNew \/ MCShare \/ MCUnbind \/ MCAsk \/ MCSet
MCSpec == MCInit /\ [][MCNext]_mcVars

TypeOK == \A o \in DOMAIN bound : bound[o] \in DOMAIN fields
\* asking twice gives the same parameters
Stable == \A o \in DOMAIN bound : ENABLED Ask(o, bound[o])
\* a binding is changed only through its own node
Local == [][ \A o \in DOMAIN bound :
               (o \notin DOMAIN bound' \/ bound'[o] # bound[o]) => hist'[Len(hist')].o = o ]_mcVars
Emitted == (Emit /\ Len(hist) = Depth) => PrintT("@@" \o ToJson(hist))
=============================================================================
