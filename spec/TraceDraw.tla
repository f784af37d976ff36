------------------------------- MODULE TraceDraw -------------------------------
EXTENDS Draw, TraceLib
VARIABLE pic      \* [im, known, w, h, typ, max]
vars == <<pic, l>>
Set(s) == ToSet(s)
TCase == IsOp("case") /\ pic' = [im |-> E.im, known |-> Set(E.known), w |-> E.w, h |-> E.h, typ |-> E.typ, max |-> E.max]
Step(p) == Holds(p) /\ E.kept /\ UNCHANGED pic
TPBM == IsOp("pbm") /\ Step(IsPBM(pic.im, pic.w, pic.h, E.f))
TPGM == IsOp("pgm") /\ Step(IsPGM(pic.im, pic.w, pic.h, pic.max - 1, E.f))
TPPM == IsOp("ppm") /\ Step(IsPPM(pic.im, pic.w, pic.h, pic.max - 1, E.f))
TCmplPGM == IsOp("cmplpgm") /\ Step(IsCompletion(Shades(pic.im, pic.known), pic.w, pic.h, pic.typ, pic.max - 1, E.f))
TCmplPPM == IsOp("cmplppm") /\ Step(IsCompletion(Bits(pic.im, pic.known), pic.w, pic.h, pic.typ, 255, E.f))
THalf == IsOp("half") /\ Step(IsHalves(pic.im, pic.typ, pic.w, pic.h, E.p, E.q))
TraceInit == pic = <<>> /\ l = 1
TraceNext == TCase \/ TPBM \/ TPGM \/ TPPM \/ TCmplPGM \/ TCmplPPM \/ THalf
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
