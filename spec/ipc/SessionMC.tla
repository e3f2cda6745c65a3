----------------------------- MODULE SessionMC -----------------------------
(* The driver (ipc/nodepart/arwenDriver.go), the node's end, the VM's end and   *)
(* the process it lives in: any number of hook calls, frames lost or damaged,  *)
(* crashes of the process and expiry of its time at any point.  Each operation  *)
(* ends with its own response, computed with the current gas schedule, or with  *)
(* an error, and leaves a usable driver.                                       *)
EXTENDS Session, Integers, FiniteSets, TLC, IOUtils
MaxOps == atoi(IOEnv.OPS)
MaxHooks == atoi(IOEnv.HOOKS)
MaxFaults == atoi(IOEnv.FAULTS)
Kill == IOEnv.KILL = "1"       \* the driver ends the process after an error (0: a mutant, to see that it matters)
VARIABLES n, v, up, toVm, toNode, op, gas, vgas, hooks, faults, res
vars == <<n, v, up, toVm, toNode, op, gas, vgas, hooks, faults, res>>
Op == op.id
Vm0 == VmIdle @@ [id |-> 0]
NoOp == [id |-> 0, kind |-> "", at |-> "idle"]
F(kind, num, id, g) == [kind |-> kind, num |-> num, st |-> "ok", id |-> id, gas |-> g]
Init == /\ n = NodeIdle /\ v = Vm0 /\ up = TRUE /\ toVm = <<>> /\ toNode = <<>>
        /\ op = NoOp /\ gas = 0 /\ vgas = 0 /\ hooks = 0 /\ faults = 0 /\ res = <<>>
(* A new operation; the process is started again when it has ended.  *)
Start(kind) ==
  /\ op.at = "idle" /\ Len(res) < MaxOps
  /\ LET id == Len(res) + 1
         g == IF kind = "GasScheduleChangeRequest" THEN id ELSE gas
         fresh == ~up
     IN /\ op' = [id |-> id, kind |-> kind, at |-> "busy"]
        /\ gas' = g
        /\ n' = NodeAsk(NodeIdle, kind)
        /\ up' = TRUE
        /\ v' = IF fresh THEN Vm0 ELSE v
        /\ vgas' = IF fresh THEN g ELSE vgas
        /\ toNode' = IF fresh THEN <<>> ELSE toNode
        /\ toVm' = Append(IF fresh THEN <<>> ELSE toVm, F(kind, 1, id, g))
        /\ hooks' = 0 /\ UNCHANGED <<faults, res>>
Error == [err |-> TRUE, mine |-> FALSE, current |-> FALSE]
End(r) == /\ res' = Append(res, r) /\ op' = [op EXCEPT !.at = "idle"]
(* The process receives.  *)
VmReceive ==
  /\ up /\ toVm # <<>> /\ v.at \in {"idle", "hooking"}
  /\ LET f == Head(toVm) IN
     /\ toVm' = Tail(toVm)
     /\ IF v.at = "hooking"
        THEN v' = VmHooked(v, f) /\ UNCHANGED <<up, toNode, vgas>>
        ELSE \E did \in VmMay(v, f) :
               /\ v' = [id |-> f.id] @@ VmAfter(v, f, did)
               /\ up' = (did # "end")
               /\ vgas' = IF did = "run" /\ f.kind = "GasScheduleChangeRequest" THEN f.gas ELSE vgas
               /\ toNode' = IF did \in {"end", "run"} THEN toNode ELSE Append(toNode, F(did, f.num + 1, f.id, vgas))
  /\ UNCHANGED <<n, op, gas, hooks, faults, res>>
VmAsk == /\ up /\ v.at = "running" /\ hooks < MaxHooks
         /\ v' = VmHook(v, "GetBlockhash") /\ hooks' = hooks + 1
         /\ toNode' = Append(toNode, F(Asked("GetBlockhash"), v.num + 1, 0, 0))
         /\ UNCHANGED <<n, up, toVm, op, gas, vgas, faults, res>>
VmAnswer == /\ up /\ v.at = "running"
            /\ v' = Vm0
            /\ toNode' = Append(toNode, F(ResponseTo[v.req], v.num + 1, v.id, vgas))
            /\ UNCHANGED <<n, up, toVm, op, gas, vgas, hooks, faults, res>>
(* The node's end receives.  *)
Fails == /\ n' = NodeIdle /\ End(Error)
         /\ IF Kill THEN up' = FALSE /\ toVm' = <<>> /\ toNode' = <<>> ELSE UNCHANGED <<up, toVm, toNode>>
NodeReceive ==
  /\ op.at = "busy" /\ toNode # <<>>
  /\ LET f == Head(toNode) IN
     \E did \in NodeMay(n, f) :
       IF did = "error" THEN /\ n' = NodeIdle /\ End(Error)
                             /\ IF Kill THEN up' = FALSE /\ toVm' = <<>> /\ toNode' = <<>>
                                ELSE up' = up /\ toVm' = toVm /\ toNode' = Tail(toNode)
       ELSE /\ toNode' = Tail(toNode)
            /\ n' = NodeAfter(n, f, did)
            /\ IF did = "return" THEN End([err |-> FALSE, mine |-> f.id = op.id, current |-> f.gas = gas]) /\ toVm' = toVm
               ELSE toVm' = Append(toVm, F(did, f.num + 1, 0, 0)) /\ UNCHANGED <<op, res>>
            /\ UNCHANGED up
  /\ UNCHANGED <<v, gas, vgas, hooks, faults>>
TimeOut == /\ op.at = "busy" /\ Fails /\ UNCHANGED <<v, gas, vgas, hooks, faults>>
Closed == /\ op.at = "busy" /\ ~up /\ toNode = <<>> /\ Fails /\ UNCHANGED <<v, gas, vgas, hooks, faults>>
Crash == /\ up /\ faults < MaxFaults /\ faults' = faults + 1 /\ up' = FALSE
         /\ UNCHANGED <<n, v, toVm, toNode, op, gas, vgas, hooks, res>>
Drop(q) == Tail(q)
Spoil(q) == <<[Head(q) EXCEPT !.st = "garbage"]>> \o Tail(q)
Fault == /\ faults < MaxFaults /\ faults' = faults + 1
         /\ \/ toVm # <<>> /\ toVm' \in {Drop(toVm), Spoil(toVm)} /\ toNode' = toNode
            \/ toNode # <<>> /\ toNode' \in {Drop(toNode), Spoil(toNode)} /\ toVm' = toVm
         /\ UNCHANGED <<n, v, up, op, gas, vgas, hooks, res>>
Next == \/ \E k \in Requests : Start(k)
        \/ VmReceive \/ VmAsk \/ VmAnswer \/ NodeReceive \/ TimeOut \/ Closed \/ Crash \/ Fault
Spec == Init /\ [][Next]_vars /\ WF_vars(TimeOut)
Own == \A i \in 1 .. Len(res) : res[i].err \/ (res[i].mine /\ res[i].current)
Clean == op.at = "idle" /\ up => toVm = <<>> /\ toNode = <<>>
Ends == [](op.at = "busy" => <>(op.at = "idle"))
=============================================================================
