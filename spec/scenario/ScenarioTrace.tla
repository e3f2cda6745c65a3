--------------------------- MODULE ScenarioTrace ---------------------------
EXTENDS Scenario, TraceLib
VARIABLE pos
Init == pos = 1
Conforms(ev) ==
  LET r == Eval(IF ev.e = "test" THEN "tests" ELSE "scenario", ev.in) IN
  /\ ~ev.panic
  /\ ev.ok = r.ok
  /\ r.ok => /\ ev.m = r.v
             /\ ev.reok /\ ev.re = ev.m
  /\ (r.ok /\ ev.e = "test") => LET c == Converted(r.v) IN ev.convok = c.ok /\ (c.ok => ev.conv = c.v)
Next == pos <= Len(Trace) /\ Conforms(Trace[pos]) = TRUE /\ pos' = pos + 1
=============================================================================
