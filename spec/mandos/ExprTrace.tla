----------------------------- MODULE ExprTrace -----------------------------
EXTENDS Expr, OJson, TraceLib
VARIABLE i
Init == i = 1
Same(r, ev) == ~ev.panic /\ ev.ok = r.ok /\ (r.ok => ev.out = r.v)
Conforms(ev) ==
  CASE ev.e = "expr" -> Same(Interp(ev.in, ev.files), ev)
    [] ev.e = "tree" -> Same(InterpTree(ev.in, ev.files), ev)
    [] ev.e = "render" -> ~ev.panic /\ Rendered(ev.hint, ev.in, ev.out) /\ RoundTrip(ev.hint, ev.in, ev.out)
    [] ev.e = "oj" -> LET r == Parse(ev.in) IN
                      /\ ~ev.panic /\ ev.ok = r.ok
                      /\ r.ok => ev.tree = r.v /\ Parse(ev.out).ok /\ Parse(ev.out).v = r.v /\ ev.reok /\ ev.retree = r.v
Next == i <= Len(Trace) /\ Conforms(Trace[i]) = TRUE /\ i' = i + 1
=============================================================================
