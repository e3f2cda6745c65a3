---------------------------- MODULE IntMathTrace ----------------------------
EXTENDS IntMath, TraceLib
VARIABLE i
Init == i = 1
Num(x) == MkInt(x.neg, FromBE(x.mag))
Conforms(ev) == Result(ev.f, Num(ev.a), Num(ev.b), Num(ev.r), ev.err)
Next == i <= Len(Trace) /\ Conforms(Trace[i]) = TRUE /\ i' = i + 1
=============================================================================
