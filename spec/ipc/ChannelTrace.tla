---------------------------- MODULE ChannelTrace ----------------------------
(* Recorded uses of real messengers against Channel.  *)
EXTENDS Channel, TraceLib
VARIABLES c, l
Has(e, f) == f \in DOMAIN e
After(e) ==
  CASE e.e = "new" -> Start
    [] e.e = "reset" -> Reset(c)
    [] e.e = "send" -> Send(c, e.side, e.id, e.kind, e.content)
    [] e.e = "recv" -> Receive(c, e.side)
    [] e.e \in Faults -> Fault(c, e.side, e.e, e.i)
Conforms(e) ==
  CASE e.e \in {"new", "reset"} -> TRUE
    [] e.e = "send" -> CanSend(c, e.side)
    [] e.e \in Faults -> CanFault(c, e.side, e.e, e.i)
    [] e.e = "recv" -> IF Accepts(c, e.side)
                       THEN LET f == Head(c.q[1 - e.side])
                            IN e.res = "ok" /\ e.kind = f.kind /\ e.content = f.content
                       ELSE e.res = "error"
    [] OTHER -> FALSE
Init == c = Start /\ l = 1
Next == /\ l <= Len(Trace)
        /\ Conforms(Trace[l]) = TRUE
        /\ c' = After(Trace[l])
        /\ l' = l + 1
View == l
=============================================================================
