------------------------------ MODULE GasTrace ------------------------------
(* Recorded configurations. base is the one to which changes are given, used the *)
(* one in force.                                                                 *)
EXTENDS Gas, TraceLib
VARIABLES pos, base, used
Init == pos = 1 /\ base = <<>> /\ used = <<>>
M(ev) == Changed(base, ev.delta)
Seen(ev, m) == ev.cost = Costs(m) /\ ev.ops = Engine(m)
Conforms(ev) ==
  /\ ~ev.panic
  /\ CASE ev.e = "base" -> TRUE
       [] ev.e = "cfg" -> LET m == M(ev) IN ev.ok = Acceptable(m) /\ (ev.ok => Seen(ev, m))
       [] ev.e = "uniform" -> \A s \in Sections : s \in DOMAIN ev.m /\ ev.m[s] = Uniform(ev.v, ev.lock)[s]
       [] ev.e = "host" -> LET m == M(ev) IN ev.ok = Acceptable(m) /\ (ev.ok => Seen(ev, m))
       [] ev.e = "change" -> LET m == M(ev) IN IF Acceptable(m) THEN Seen(ev, m) ELSE Seen(ev, used)
       [] ev.e = "load" -> ev.ok = ev.whole /\ (ev.ok => ev.m = ev.said)
       [] OTHER -> ev.ok /\ Acceptable(ev.m) /\ ev.m = ev.said     \* shipped
Next == /\ pos <= Len(Trace)
        /\ LET ev == Trace[pos] IN
           /\ Conforms(ev) = TRUE
           /\ base' = IF ev.e = "base" THEN ev.m ELSE base
           /\ used' = IF ev.e = "host" /\ ev.ok THEN M(ev) ELSE IF ev.e = "change" /\ Acceptable(M(ev)) THEN M(ev) ELSE used
        /\ pos' = pos + 1
=============================================================================
