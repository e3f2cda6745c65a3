-------------------------- MODULE ScenarioRunTrace --------------------------
(* Recorded runs: each event is one step (or a whole test), with what was seen. *)
EXTENDS ScenarioRun, TraceLib
VARIABLES pos, w
Init == pos = 1 /\ w = Start
Pairs(s) == [k \in {s[i][1] : i \in 1 .. Len(s)} |-> (LET i == CHOOSE i \in 1 .. Len(s) : s[i][1] = k IN s[i][2])]
AccSeen(x) == [x EXCEPT !.st = Pairs(@), !.tok = Pairs(@), !.last = Pairs(@), !.roles = Pairs(@)]
Seen(x) == LET a == Pairs(x.a) IN [a |-> [k \in DOMAIN a |-> AccSeen(a[k])], cur |-> x.cur, prev |-> x.prev, hashes |-> x.hashes, mocks |-> x.mocks]
IsTx(s) == s.step \in TxSteps
(* the result, where it is one of the contract's *)
Agrees(o, seen) ==
  /\ o.code = seen.code /\ o.msg = seen.msg /\ o.data = seen.data /\ o.logs = seen.logs /\ o.refund = seen.refund
After(ev) ==
  CASE ev.e = "reset" -> [w |-> Start, ok |-> TRUE, fits |-> TRUE]
    [] ev.e = "test" -> LET d == Eval("tests", ev.in)
                            x == RunTest(d.v[1].test) IN [w |-> x.w, ok |-> x.ok, fits |-> d.ok]
    [] OTHER ->
         LET d == Eval("step", ev.in)
             x == RunStep(w, d.v, ev.checkGas, ev.out.gas, ev.docs)
         IN [w |-> x.w, ok |-> x.ok, fits |-> d.ok /\ (~(IsTx(d.v) /\ ev.ran) \/ Agrees(x.o, ev.out)) /\ (IsTx(d.v) => ev.ran = RunTx(w, d.v.tx, d.v.txId.v).ok)]
Conforms(ev) ==
  LET x == After(ev) IN
  /\ ~ev.panic
  /\ x.fits
  /\ ev.ok = x.ok
  /\ Seen(ev.w) = x.w
Next == /\ pos <= Len(Trace)
        /\ Conforms(Trace[pos]) = TRUE
        /\ w' = Seen(Trace[pos].w)
        /\ pos' = pos + 1
=============================================================================
