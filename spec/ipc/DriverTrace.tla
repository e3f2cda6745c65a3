----------------------------- MODULE DriverTrace -----------------------------
(* Recorded uses of a real driver by several threads, with a real process that *)
(* crashes, hangs and misbehaves on demand: there is an order of the            *)
(* operations, each at some point between its start and its end, in which each *)
(* gets what the driver, alone, would have given it.                           *)
EXTENDS TraceLib, Integers
VARIABLES gas, up, frail, pend, l
(* up: the process runs; frail: it has announced its end (it may be gone).  *)
Waiting == [res |-> "?", text |-> "?"]
R(res, text) == [res |-> res, text |-> text]
Results(what, g) ==
  CASE what \in {"echo", "fail", "dying"} -> R("own", "")
    [] what \in {"crash", "hang", "garbage", "wrong", "waitlong"} -> R("critical", "")
    [] what = "gas" -> R("ok", "")
    [] what = "version" -> R("ok", "gas:" \o ToString(g))
    [] what = "wait" -> R("ok", "")
Failed(what) ==
  CASE what = "gas" -> R("ok", "")
    [] what = "version" -> R("ok", "")
    [] OTHER -> R("critical", "")
Breaks == {"crash", "hang", "garbage", "wrong", "waitlong"}
NewGas(o) == IF o.what = "gas" THEN o.gas ELSE gas
(* The operation takes effect.  *)
Effect(i) ==
  /\ i \in DOMAIN pend /\ pend[i].got = Waiting /\ up
  /\ LET o == pend[i] IN
     /\ gas' = NewGas(o)
     /\ \/ /\ pend' = [pend EXCEPT ![i].got = Results(o.what, NewGas(o))]
           /\ up' = (o.what \notin Breaks)
           /\ frail' = (up' /\ (frail \/ o.what = "dying"))
        \/ /\ frail \/ o.what = "dying"     \* it may be too late for the answer, too
           /\ pend' = [pend EXCEPT ![i].got = Failed(o.what)]
           /\ up' = FALSE /\ frail' = FALSE
  /\ UNCHANGED l
E == Trace[l]
Step ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ CASE E.e = "new" -> pend' = <<>> /\ gas' = 0 /\ up' = FALSE /\ frail' = FALSE
       [] E.e = "clear" -> (~up \/ frail) /\ up' = TRUE /\ frail' = FALSE /\ UNCHANGED <<gas, pend>>
       [] E.e = "ready" -> up /\ UNCHANGED <<gas, up, frail, pend>>
       [] E.e = "start" -> pend' = (E.op :> [what |-> E.what, gas |-> E.gas, got |-> Waiting]) @@ pend /\ UNCHANGED <<gas, up, frail>>
       [] E.e = "end" -> /\ E.op \in DOMAIN pend /\ pend[E.op].got = R(E.res, E.text)
                         /\ pend' = [i \in DOMAIN pend \ {E.op} |-> pend[i]] /\ UNCHANGED <<gas, up, frail>>
       [] OTHER -> FALSE
Init == pend = <<>> /\ gas = 0 /\ up = FALSE /\ frail = FALSE /\ l = 1
Next == Step \/ \E i \in DOMAIN pend : Effect(i)
ASSUME TLCSet(1, 1)
Reached == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
AllAccepted == IF TLCGet(1) - 1 = Len(Trace) THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
               ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
