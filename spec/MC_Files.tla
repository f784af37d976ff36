------------------------------- MODULE MC_Files -------------------------------
(* Every small .data file, read line by line.                                *)
EXTENDS Files, Json
CONSTANTS MaxVars, MaxLines, Emit
VARIABLES lines, rd
mcVars == <<lines, rd, gen, drawn>>
Line(k, v) == [k |-> k, v |-> v]
NV == Len(rd.vars)
Rows == IF NV = 1 THEN {<<0>>, <<1>>} ELSE {[i \in 1..NV |-> IF i = 1 THEN a ELSE b] : a, b \in 0..1}
MCInit == lines = <<>> /\ rd = ReaderStart /\ GenInit
Read(ln) == Len(lines) < MaxLines /\ lines' = Append(lines, ln) /\ rd' = ReadLine(rd, ln) /\ UNCHANGED <<gen, drawn>>
MCBlank == Read(Line("blank", <<>>))
MCVar == NV < MaxVars /\ rd.rows = <<>> /\ \E c \in 2..3 : Read(Line("var", <<NV, c>>))
MCRow == NV > 0 /\ \E r \in Rows : Read(Line("row", r))
MCNext == MCBlank \/ MCVar \/ MCRow
MCSpec == MCInit /\ [][MCNext]_mcVars
\* reading line by line gives what the file means
Meaning == /\ WellFormed(lines)
           /\ rd.vars = [i \in 1..Cardinality(Kinds(lines, "var")) |-> rd.vars[i]]
           /\ Len(rd.rows) = Cardinality(Kinds(lines, "row"))
           /\ Parsed(lines) = Parsed(SelectSeq(lines, LAMBDA x : x.k # "blank"))
\* with and without the label: nothing is lost
Label == rd.vars # <<>> =>
   LET p == Parsed(lines) q == ParsedNL(lines) IN
   /\ Len(q.rows) = Len(p.rows) /\ Len(q.labs) = Len(p.rows)
   /\ \A i \in 1..Len(p.rows) : p.rows[i] = Append(q.rows[i], <<NV - 1, q.labs[i]>>)
Emitted == (Emit /\ rd.vars # <<>> /\ Len(lines) >= MaxLines - 1) => PrintT("@@" \o ToJson([lines |-> lines]))
=============================================================================
