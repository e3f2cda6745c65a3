----------------------------- MODULE SessionGen -----------------------------
(* Everything the other end may do within bounds, for each end: replayed into   *)
(* the real one.                                                               *)
EXTENDS Session, Integers, TLC, Json, IOUtils
VARIABLES p, h
MaxLen == atoi(IOEnv.LEN)
Side == IOEnv.SIDE
F(kind, off, st) == [a |-> "frame", kind |-> kind, off |-> off, st |-> st]
A(a, kind) == [a |-> a, kind |-> kind, off |-> 0, st |-> ""]
Good0(kinds) == {F(k, 0, "ok") : k \in kinds}
Bad(kinds) == {F(k, o, "ok") : k \in kinds, o \in {0 - 1, 1}} \cup {F(k, 0, s) : k \in kinds, s \in {"garbage", "kind", "cut"}} \cup {F("", 0, "end")}
Sym(f) == [kind |-> f.kind, num |-> p.num + 1 + f.off, st |-> f.st]
AnyHook == "hookrequest"      \* the driver chooses the function
(* node *)
NodeFrames == Good0({AnyHook, "hookresponse", "unknown", Undefined, "ContractCallRequest", "Stop"} \cup {ResponseTo[r] : r \in Requests})
              \cup Bad({AnyHook, ResponseTo[p.req]}) \cup {F("", 0, "late"), F(ResponseTo[p.req], 0, "stall")}
NodeSym(f) == IF f.kind = AnyHook THEN [Sym(f) EXCEPT !.kind = "GetBlockhashRequest"] ELSE Sym(f)
NodeNext ==
  \/ p.at = "idle" /\ \E k \in Requests : p' = NodeAsk(p, k) /\ h' = Append(h, A("ask", k))
  \/ p.at = "waiting" /\ \E f \in NodeFrames :
        /\ h' = Append(h, f)
        /\ \E did \in NodeMay(p, NodeSym(f)) : p' = NodeAfter(p, NodeSym(f), did)
(* VM *)
VmFrames == Good0(Requests \cup {"Stop", "hookresponse", "unknown", Undefined, "ContractResponse", AnyHook}) \cup Bad({"ContractCallRequest", "VersionRequest"})
HookFrames == Good0({"answer", "otheranswer", AnyHook, "unknown", Undefined, "ContractCallRequest", "Stop"}) \cup Bad({"answer"})
HookSym(f) == IF f.kind = "answer" THEN [Sym(f) EXCEPT !.kind = Answer(p.hook)] ELSE Sym(f)
Dead == Len(h) > 0 /\ h[Len(h)].st \in {"cut", "end"}
VmNext ==
  \/ p.at = "idle" /\ \E f \in VmFrames : \E did \in VmMay(p, Sym(f)) : p' = VmAfter(p, Sym(f), did) /\ h' = Append(h, f)
  \/ p.at = "running" /\ ~Dead /\ p' = VmHook(p, "GetBlockhash") /\ h' = Append(h, A("hook", ""))
  \/ p.at = "running" /\ p' = VmIdle /\ h' = Append(h, A("finish", ""))
  \/ p.at = "hooking" /\ \E f \in HookFrames : p' = VmHooked(p, HookSym(f)) /\ h' = Append(h, f)
Init == h = <<>> /\ p = IF Side = "node" THEN NodeIdle ELSE VmIdle
Next == Len(h) < MaxLen /\ IF Side = "node" THEN NodeNext ELSE VmNext
Ends == IF Side = "node" THEN p.at = "broken" \/ (Len(h) = MaxLen /\ p.at = "idle")
        ELSE p.at = "ended" \/ (Len(h) = MaxLen /\ p.at = "idle")
Collect == IF Ends THEN TLCSet(1, Append(TLCGet(1), h)) ELSE TRUE
ASSUME TLCSet(1, <<>>)
Write == ndJsonSerialize(IOEnv.OUT, TLCGet(1)) /\ PrintT(<<"GENERATED", Len(TLCGet(1))>>)
View == h
=============================================================================
