---------------------------- MODULE SessionTrace ----------------------------
(* Recorded behaviours of one real end of a session against Session; the other  *)
(* end is the driver's.                                                        *)
EXTENDS Session, TraceLib
VARIABLES p, x, l
(* x: what the end has been given and not reacted to yet.  *)
None == [kind |-> "", num |-> 0, st |-> "none", content |-> "", hook |-> ""]
Start(e) == [side |-> e.side, late |-> e.late]
New == [side |-> "node", late |-> FALSE]
VARIABLE c
Pending == x.st # "none"
Over == x.st \in {"cut", "end"}      \* and nothing else will come
(* The node's end. *)
NodeConforms(e) ==
  CASE e.e = "ask" -> p.at = "idle" /\ ~Pending
    [] e.e = "frame" -> p.at = "waiting" /\ ~Pending
    [] e.e = "sent" -> IF p.at = "idle" THEN FALSE
                       ELSE IF p.at = "asked" THEN e.kind = p.req /\ e.num = 1
                       ELSE Pending /\ e.kind \in NodeMay(p, x) /\ e.num = x.num + 1
    [] e.e = "ret" -> /\ p.at = "waiting"
                      /\ CASE e.res = "ok" -> Pending /\ "return" \in NodeMay(p, x) /\ e.kind = x.kind /\ e.content = x.content
                           [] e.res = "error" -> IF Pending THEN c.late \/ "error" \in NodeMay(p, x) ELSE c.late
                           [] OTHER -> FALSE
    [] OTHER -> FALSE
NodeNext(e) ==
  CASE e.e = "ask" -> [NodeAsk(p, e.kind) EXCEPT !.at = "asked"]
    [] e.e = "frame" -> p
    [] e.e = "sent" -> IF p.at = "asked" THEN [p EXCEPT !.at = "waiting"] ELSE NodeAfter(p, x, e.kind)
    [] e.e = "ret" -> NodeAfter(p, x, IF e.res = "ok" THEN "return" ELSE "error")
VmConforms(e) ==
  CASE e.e = "frame" -> p.at \in {"idle", "hooking"} /\ (~Pending \/ (Over /\ e.st = "end"))
    [] e.e = "run" -> p.at = "idle" /\ Pending /\ "run" \in VmMay(p, x) /\ e.kind = x.kind
    [] e.e = "ended" -> p.at = "idle" /\ Pending /\ "end" \in VmMay(p, x)
    [] e.e = "hook" -> p.at = "running"
    [] e.e = "hooked" -> /\ p.at = "hooking" /\ Pending /\ e.fn = p.hook
                         /\ CASE HookGives(p, x) = "answer" -> TRUE
                              [] HookGives(p, x) = "error" -> e.err # ""
                              [] OTHER -> TRUE
    [] e.e = "sent" -> CASE p.at = "idle" -> Pending /\ e.kind \in VmMay(p, x) /\ e.num = x.num + 1
                         [] p.at = "hooking" -> ~Pending /\ e.kind = Asked(p.hook) /\ e.num = p.num
                         [] p.at = "running" -> e.kind = ResponseTo[p.req] /\ e.num = p.num + 1
                         [] OTHER -> FALSE
    [] OTHER -> FALSE
VmNext(e) ==
  CASE e.e = "frame" -> p
    [] e.e = "run" -> VmAfter(p, x, "run")
    [] e.e = "ended" -> VmAfter(p, x, "end")
    [] e.e = "hook" -> VmHook(p, e.fn)
    [] e.e = "hooked" -> VmHooked(p, x)
    [] e.e = "sent" -> CASE p.at = "idle" -> VmAfter(p, x, e.kind)
                         [] p.at = "hooking" -> p
                         [] p.at = "running" -> VmIdle
Reaction(e) == e.e \in {"ret", "ended"} \/ (e.e \in {"run", "hooked", "sent"} /\ ~Over)
Conforms(e) == IF e.e = "new" THEN TRUE
               ELSE IF c.side = "node" THEN NodeConforms(e) ELSE VmConforms(e)
(* Nothing is left without a reaction when the next session starts.  *)
Quiet(e) == e.e # "new" \/ l = 1 \/ (~Pending /\ p.at \in {"idle", "broken", "ended"})
Init == p = NodeIdle /\ x = None /\ l = 1 /\ c = New
Next == /\ l <= Len(Trace)
        /\ Conforms(Trace[l]) = TRUE /\ Quiet(Trace[l]) = TRUE
        /\ LET e == Trace[l] IN
           IF e.e = "new" THEN c' = Start(e) /\ p' = (IF e.side = "node" THEN NodeIdle ELSE VmIdle) /\ x' = None
           ELSE /\ c' = c
                /\ p' = IF c.side = "node" THEN NodeNext(e) ELSE VmNext(e)
                /\ x' = IF e.e = "frame" THEN [kind |-> e.kind, num |-> e.num, st |-> e.st, content |-> e.content, hook |-> ""]
                        ELSE IF Reaction(e) THEN None ELSE x
        /\ l' = l + 1
View == l
=============================================================================
