------------------------------- MODULE TraceIndep -------------------------------
EXTENDS Indep, TraceLib
vars == <<rep, l>>
TCase == IsOp("case") /\ rep' = <<>>
TMake == IsOp("make") /\ E.varids = <<E.x>> /\ E.find = E.x /\ E.x = Len(rep) + 1 /\ Make
TUnion == IsOp("union") /\ Join(E.x, E.y, E.r, E.w)
TFind == IsOp("find") /\ E.r = rep[E.x] /\ UNCHANGED rep
TVarids == IsOp("varids") /\ Len(E.ids) = Cardinality(ClassOf(E.x)) /\ ToSet(E.ids) = ClassOf(E.x) /\ UNCHANGED rep
Fits(verdict, r) == verdict = "either" \/ r = (verdict = "independent")
TG == IsOp("gtest") /\ Fits(GVerdict(E.t, E.level), E.r) /\ E.kept /\ UNCHANGED rep
TP == IsOp("chisq") /\ Fits(PVerdict(E.t, E.level), E.r) /\ E.kept /\ UNCHANGED rep
TGTimes == IsOp("gtimes") /\ Fits(TimesVerdict(E.t, G(E.t), E.times, E.level), E.r) /\ UNCHANGED rep
TPTimes == IsOp("ptimes") /\ Fits(TimesVerdict(E.t, Pearson(E.t), E.times, E.level), E.r) /\ UNCHANGED rep
TCDF == IsOp("cdf") /\ E.crit = Crit[E.df][E.level] /\ E.r - Levels[E.level] * 100 \in -20..20 /\ UNCHANGED rep
TGroups == IsOp("groups") /\ Holds(IsGrouping(E.vars, E.level, E.groups)) /\ E.kept /\ UNCHANGED rep
TraceInit == UFInit /\ l = 1
TraceNext == TCase \/ TMake \/ TUnion \/ TFind \/ TVarids \/ TG \/ TP \/ TGTimes \/ TPTimes \/ TCDF \/ TGroups
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
