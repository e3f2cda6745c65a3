----------------------------- MODULE RemoteTrace -----------------------------
(* A node and a VM process that talk over pipes behave as if the node called   *)
(* the VM, and the VM the node's hook, directly: every request arrives as it   *)
(* was made, every hook call reaches the hook as it was made and its answer    *)
(* comes back as it was given, and so does the answer to the request.          *)
EXTENDS TraceLib
VARIABLES s, l
Idle == [at |-> "idle", version |-> ""]
(* what the operation asks of the machine behind the VM's end *)
Executes == {"call", "create", "gas"}
Direct == {"version", "wait"}
ResponseKind(fn) == CASE fn \in {"call", "create"} -> "ContractResponse"
                      [] fn = "gas" -> "GasScheduleChangeResponse"
                      [] fn = "version" -> "VersionResponse"
                      [] fn = "wait" -> "DiagnoseWaitResponse"
Same(a, b) == a.err = b.err /\ (a.err = "" => a.res = b.res)
Conforms(e) ==
  CASE e.e = "new" -> l = 1
    [] e.e = "nreq" -> s.at = "idle"
    [] e.e = "vreq" -> s.at = "asked" /\ s.fn \in Executes /\ e.fn = s.fn /\ e.args = s.args
    [] e.e = "vcall" -> s.at = "running"
    [] e.e = "hook" -> s.at = "calling" /\ e.fn = s.hfn /\ e.args = s.hargs
    [] e.e = "vret" -> s.at = "answered" /\ e.fn = s.hfn /\ Same(e, s)
    [] e.e = "vres" -> s.at = "running"
    [] e.e = "nret" ->
         IF s.at = "asked"
         THEN /\ s.fn \in Direct /\ e.kind = ResponseKind(s.fn) /\ e.err = ""
              /\ s.fn = "version" => e.res = s.version
         ELSE s.at = "done" /\ e.kind = ResponseKind(s.fn) /\ Same(e, s)
    [] e.e = "stopped" -> s.at = "idle"
    [] OTHER -> FALSE
After(e) ==
  CASE e.e = "new" -> [Idle EXCEPT !.version = e.version]
    [] e.e = "nreq" -> [at |-> "asked", version |-> s.version, fn |-> e.fn, args |-> e.args]
    [] e.e = "vreq" -> [s EXCEPT !.at = "running"]
    [] e.e = "vcall" -> [at |-> "calling", version |-> s.version, fn |-> s.fn, args |-> s.args, hfn |-> e.fn, hargs |-> e.args]
    [] e.e = "hook" -> [at |-> "answered", version |-> s.version, fn |-> s.fn, args |-> s.args, hfn |-> e.fn, res |-> e.res, err |-> e.err]
    [] e.e = "vret" -> [at |-> "running", version |-> s.version, fn |-> s.fn, args |-> s.args]
    [] e.e = "vres" -> [at |-> "done", version |-> s.version, fn |-> s.fn, res |-> e.res, err |-> e.err]
    [] e.e \in {"nret", "stopped"} -> [at |-> "idle", version |-> s.version]
Init == s = Idle /\ l = 1
Next == /\ l <= Len(Trace)
        /\ Conforms(Trace[l]) = TRUE
        /\ s' = After(Trace[l])
        /\ l' = l + 1
View == l
=============================================================================
