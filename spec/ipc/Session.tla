------------------------------ MODULE Session ------------------------------
(* The dialogue of an operation (ipc/nodepart/part.go, ipc/arwenpart/part.go).  *)
(* The node asks; the VM may ask the node's hook any number of times, and      *)
(* answers once.  Each end by itself, against whatever the other one sends.    *)
EXTENDS Naturals, Sequences
Hooks == {"NewAddress", "GetStorageData", "GetBlockhash", "LastNonce", "LastRound", "LastTimeStamp", "LastRandomSeed", "LastEpoch",
          "GetStateRootHash", "CurrentNonce", "CurrentRound", "CurrentTimeStamp", "CurrentRandomSeed", "CurrentEpoch",
          "ProcessBuiltInFunction", "GetBuiltinFunctionNames", "GetAllState", "GetUserAccount", "GetCode", "GetShardOfAddress",
          "IsSmartContract", "IsPayable", "SaveCompiledCode", "GetCompiledCode", "ClearCompiledCodes", "GetESDTToken",
          "IsInterfaceNil", "GetSnapshot", "RevertToSnapshot"}
Silent == {"LastNonce", "LastRound", "LastTimeStamp", "LastRandomSeed", "LastEpoch", "GetStateRootHash", "CurrentNonce", "CurrentRound",
           "CurrentTimeStamp", "CurrentRandomSeed", "CurrentEpoch", "GetBuiltinFunctionNames", "GetCode", "GetShardOfAddress",
           "IsSmartContract", "SaveCompiledCode", "GetCompiledCode", "ClearCompiledCodes", "IsInterfaceNil", "GetSnapshot"}  \* hooks without an error
HookRequests == {h \o "Request" : h \in Hooks}
Asked(h) == h \o "Request"
Answer(h) == h \o "Response"
AnswerTo == [k \in HookRequests |-> SubSeq(k, 1, Len(k) - 7) \o "Response"]
Requests == {"ContractCallRequest", "ContractDeployRequest", "GasScheduleChangeRequest", "VersionRequest", "DiagnoseWaitRequest"}
Executed == {"ContractCallRequest", "ContractDeployRequest", "GasScheduleChangeRequest"}
ResponseTo == [k \in Requests |-> CASE k \in {"ContractCallRequest", "ContractDeployRequest"} -> "ContractResponse"
                                    [] k = "GasScheduleChangeRequest" -> "GasScheduleChangeResponse"
                                    [] k = "VersionRequest" -> "VersionResponse"
                                    [] k = "DiagnoseWaitRequest" -> "DiagnoseWaitResponse"]
Undefined == "Undefined"
(* A frame: kind, number, and its state: "ok"; "garbage", "kind" (its header   *)
(* contradicts it), "cut" (incomplete, and the pipe is closed), "stall"       *)
(* (incomplete, nothing follows in time); "end" and "late" are not frames: the *)
(* pipe is closed, nothing arrives in time.                                    *)
Good(p, f) == f.st = "ok" /\ f.num = p.num + 1

(* The node's end.  *)
NodeIdle == [at |-> "idle", num |-> 0, req |-> ""]
NodeAsk(n, kind) == [at |-> "waiting", num |-> 1, req |-> kind]
(* What it may do with what it reads: answer with a message, return the         *)
(* response, or report an error.                                               *)
NodeMay(n, f) ==
  IF ~Good(n, f) THEN {"error"}
  ELSE IF f.kind \in HookRequests THEN {AnswerTo[f.kind]}
  ELSE IF f.kind = ResponseTo[n.req] THEN {"return"}
  ELSE {"error", Undefined}
NodeAfter(n, f, did) ==
  IF did = "return" THEN NodeIdle
  ELSE IF did = "error" THEN [n EXCEPT !.at = "broken"]
  ELSE [n EXCEPT !.num = f.num + 1]

(* The VM's end.  *)
VmIdle == [at |-> "idle", num |-> 0, req |-> "", hook |-> ""]
VmMay(v, f) ==
  IF ~Good(v, f) \/ f.kind = "Stop" THEN {"end"}
  ELSE IF f.kind \in Executed THEN {"run"}
  ELSE IF f.kind \in Requests THEN {ResponseTo[f.kind]}
  ELSE {"end", Undefined}
VmAfter(v, f, did) ==
  CASE did = "end" -> [v EXCEPT !.at = "ended"]
    [] did = "run" -> [v EXCEPT !.at = "running", !.num = f.num, !.req = f.kind]
    [] OTHER -> VmIdle
VmHook(v, h) == [v EXCEPT !.at = "hooking", !.num = @ + 1, !.hook = h]
(* What a hook call gives: the answer, or an error (nothing, if the hook knows  *)
(* no errors).                                                                 *)
HookGives(v, f) == IF Good(v, f) /\ f.kind = Answer(v.hook) THEN "answer"
                   ELSE IF v.hook \in Silent THEN "nothing" ELSE "error"
VmHooked(v, f) == [v EXCEPT !.at = "running", !.num = IF Good(v, f) THEN f.num ELSE @]
=============================================================================
