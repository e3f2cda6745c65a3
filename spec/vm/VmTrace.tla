------------------------------- MODULE VmTrace -------------------------------
(* A recorded run of the real machine is a behaviour of the specification:    *)
(* every event must be the specification's next step.                         *)
EXTENDS VmEei, TraceLib
VARIABLES i, s, cs, w0

Chk(what, got, want) == IF got = want THEN TRUE ELSE PrintT(<<"MISMATCH", i, what, "recorded", got, "specified", want>>) /\ FALSE
Ev == Trace[i]
TheCfg == Trace[1]
RECURSIVE Fill(_, _)
Fill(b, n) == IF n <= 0 THEN "" ELSE IF n % 2 = 0 THEN LET h == Fill(b, n \div 2) IN h \o h ELSE b \o Fill(b, n - 1)
(* bytes written that equal what was there before cannot be seen: memory held aa, new memory 00 *)
RECURSIVE Trail(_, _, _)
Trail(d, p, ml) ==
  IF d = "" THEN ""
  ELSE LET n == HLen(d) IN IF SubSeq(d, 2 * n - 1, 2 * n) = (IF p + n - 1 < ml THEN "aa" ELSE "00") THEN Trail(SubSeq(d, 1, 2 * n - 2), p, ml) ELSE d
OutPos(f, a) ==                       \* parameters that are result pointers
  CASE f \in {"getSCAddress", "getOwnerAddress", "getFunction", "getCaller", "getCallValue", "getESDTValue", "getESDTTokenName", "getBlockRandomSeed",
              "getStateRootHash", "getPrevBlockRandomSeed", "getOriginalTxHash"} -> <<1>>
    [] f \in {"getExternalBalance", "getBlockHash", "getArgument", "getReturnData", "bigIntGetUnsignedBytes", "bigIntGetSignedBytes"} -> <<2>>
    [] f \in {"storageLoad", "sha256", "keccak256", "ripemd160"} -> <<3>>
    [] f = "storageLoadFromAddress" -> <<4>>
    [] f = "getCallValueTokenName" -> <<1, 2>>
    [] f = "getESDTBalance" -> <<5>>
    [] f = "getESDTTokenData" -> <<6, 7, 8, 9, 10, 12>>
    [] f = "createContract" -> <<6>>
    [] f = "deployFromSourceContract" -> <<5>>
    [] OTHER -> <<>>
Seen(o, f, a, ml) ==
  LET ps == OutPos(f, a) IN [k \in 1 .. Len(ps) |-> IF k > Len(o) THEN "" ELSE Trail(o[k], a[ps[k]], ml)]

(* an answered call *)
Answered(x, v, ev) ==
  /\ Chk("gas", ev.g, Pts(x.s))
  /\ Chk("breakpoint", ev.bp, Bp(x.s))
  /\ Chk("result", IF ev.rq # "" THEN ev.rq ELSE ev.r, IF ev.rq # "" THEN x.q ELSE x.r)
  /\ Chk("written", ev.o, Seen(x.o, v.f, v.a, v.ml))
  /\ Chk("written elsewhere", ev.x, 0)
  /\ Chk("memory", ev.ml2, x.ml)

In(ev) ==
  [caller |-> ev.caller, args |-> ev.args, value |-> ev.value, ct |-> ev.ct, gas |-> ev.gas, locked |-> ev.locked, oth |-> ev.oth, cth |-> ev.cth, gp |-> ev.gp,
   esdt |-> ev.esdt, rcae |-> ev.rcae, rcv |-> ev.rcv, fn |-> ev.fn, ai |-> FALSE]
Begun(ev, w) ==
  LET f == Fresh(w, ev.flags)
  IN IF ev.create THEN TopCreate(f, In(ev), ev.code, ev.meta) ELSE IF ev.fn = nUpgrade THEN TopUpgrade(f, In(ev)) ELSE TopCall(f, In(ev))

----------------------------------------------------------------------------
(* the output of a transaction, without what changes nothing *)
SeenAcc(w, x, gu) ==
  LET chain == Lookup(w, x.a, NoAccount)
      keep == {k \in DOMAIN x.o.st : x.o.st[k] # Lookup(chain.s, k, "")}
  IN [bd |-> x.o.bd, n |-> IF x.o.n <= chain.n THEN 0 ELSE x.o.n, st |-> [k \in keep |-> x.o.st[k]], code |-> x.o.code, meta |-> x.o.meta, dep |-> x.o.dep,
      ot |-> x.o.ot, gu |-> gu]
EmptyAcc == [bd |-> 0, n |-> 0, st |-> NoF, code |-> "", meta |-> "", dep |-> "", ot |-> <<>>, gu |-> 0]
SeenAccs(w, acc, gu) ==
  LET all == [a \in DOMAIN acc |-> SeenAcc(w, [a |-> a, o |-> acc[a]], Lookup(gu, a, 0))]
  IN [a \in {b \in DOMAIN acc : all[b] # EmptyAcc} |-> all[a]]
RecGu(acc) == [a \in DOMAIN acc |-> acc[a].gu]
Ended(t, ev) ==
  LET vo == t.res
      want == SeenAccs(t.w, vo.acc, t.mt.gu)
      got == SeenAccs(t.w, ev.acc, RecGu(ev.acc))
  IN /\ Chk("answer", <<ev.nil, ev.err>>, <<FALSE, FALSE>>)
     /\ Chk("return code", ev.rc, vo.rc)
     /\ IF vo.msg = AnyText THEN TRUE ELSE Chk("message", ev.msg, vo.msg)
     /\ Chk("gas remaining", ev.gas, vo.gas)
     /\ Chk("refund", ev.refund, vo.refund)
     /\ Chk("returned data", ev.rd, vo.ret)
     /\ Chk("logs", ev.logs, vo.logs)
     /\ Chk("accounts", DOMAIN got, DOMAIN want)
     /\ \A a \in DOMAIN want : \A p \in DOMAIN want[a] : Chk(<<"account", a, p>>, got[a][p], want[a][p])
     /\ Chk("malformed", DOMAIN ev \cap {"nilacc", "badaddr"}, {})

(* the world after a transaction *)
Touches(w, a, o) ==
  a \in DOMAIN w \/ (ShardOf(a) = 0 /\ (o.bd # 0 \/ o.code # "" \/ \E k \in DOMAIN o.st : o.st[k] # "" /\ ~Reserved(k)))
ApplyAcc(w, a, o) ==
  LET x == Lookup(w, a, NoAccount)
      st == [k \in {k \in DOMAIN o.st : ~Reserved(k)} |-> o.st[k]] @@ x.s
      new == o.code # ""
  IN [x EXCEPT !.b = @ + o.bd, !.n = MaxI(@, o.n), !.s = [k \in {k \in DOMAIN st : st[k] # ""} |-> st[k]],
               !.c = IF new THEN o.code ELSE @, !.m = IF new THEN o.meta ELSE @, !.o = IF new /\ x.c = "" THEN o.dep ELSE @]
Apply(w, acc) ==
  LET as == {a \in DOMAIN acc : Touches(w, a, acc[a])}
  IN [a \in DOMAIN w \cup as |-> IF a \in as THEN ApplyAcc(w, a, acc[a]) ELSE w[a]]
NormW(w) ==
  [a \in DOMAIN w |-> [w[a] EXCEPT !.s = [k \in {k \in DOMAIN @ : @[k] # ""} |-> @[k]], !.t = [k \in {k \in DOMAIN @ : @[k].v # 0 \/ @[k].meta} |-> @[k]]]]

----------------------------------------------------------------------------
Init == i = 1 /\ s = Fresh(NoF, [v2 |-> TRUE, aot |-> TRUE, dyn |-> TRUE, v3 |-> TRUE, esdt |-> TRUE]) /\ cs = <<>> /\ w0 = NoF

Idle(w) == [s EXCEPT !.pc = "idle", !.w = w, !.biq = <<>>]
Moment(pc) == Chk("moment", IF s.pc = pc THEN pc ELSE "not " \o pc, IF s.pc = pc THEN pc ELSE s.pc)
Bis == IF "bi" \in DOMAIN Ev THEN Chk("protocol functions", Ev.bi, s.biq) ELSE Chk("protocol functions", <<>>, s.biq)
Now0 == [s EXCEPT !.biq = <<>>]

DoCfg == i = 1 /\ Ev.e = "cfg" /\ UNCHANGED <<s, cs, w0>>
DoWorld ==
  /\ Ev.e = "world" /\ Moment("idle")
  /\ IF i = 2 THEN TRUE ELSE (LET a == NormW(s.w) b == NormW(Ev.w)
                IN Chk("accounts of the world", DOMAIN b, DOMAIN a) /\ \A x \in DOMAIN a : \A p \in DOMAIN a[x] : Chk(<<"world", x, p>>, b[x][p], a[x][p]))
  /\ s' = IF i = 2 THEN Idle(Ev.w) ELSE s
  /\ UNCHANGED <<cs, w0>>
DoNonce == Ev.e = "nonce" /\ Moment("idle") /\ s' = [s EXCEPT !.w[Ev.a].n = @ + 1] /\ UNCHANGED <<cs, w0>>
DoTx == Ev.e = "tx" /\ Moment("idle") /\ s' = Begun(Ev, s.w) /\ w0' = s.w /\ cs' = <<>>
DoEnter ==
  /\ Ev.e = "enter" /\ Moment("enter") /\ Bis
  /\ Chk("function", Ev.fn, s.res)
  /\ Chk("code", Ev.code, s.heap[s.rt.inst].code)
  /\ Chk("gas limit", Ev.limit, s.heap[s.rt.inst].lim)
  /\ Chk("gas", Ev.g, Pts(s)) /\ Chk("breakpoint", Ev.bp, Bp(s))
  /\ s' = [Now0 EXCEPT !.pc = "code"] /\ UNCHANGED <<cs, w0>>
DoBurn == Ev.e = "burn" /\ Moment("code") /\ s' = UseGas(s, Ev.n) /\ Chk("gas", Ev.g, Pts(UseGas(s, Ev.n))) /\ UNCHANGED <<cs, w0>>
DoEei ==
  /\ Ev.e = "eei" /\ Moment("code") /\ Bis
  /\ LET x == Eei(s, Ev) IN Answered(x, Ev, Ev) /\ s' = x.s
  /\ UNCHANGED <<cs, w0>>
DoCall == Ev.e = "call" /\ Moment("code") /\ s' = Begin(s, Ev) /\ cs' = Append(cs, Ev) /\ UNCHANGED w0
DoRet ==
  /\ Ev.e = "ret" /\ Moment("ret") /\ Bis
  /\ LET v == Last(cs)
         x == Back([Now0 EXCEPT !.pc = "code", !.res = 0], s.res, v, v.ml)
     IN Chk("call", Ev.f, v.f) /\ Answered(x, v, Ev) /\ s' = x.s
  /\ cs' = Front(cs) /\ UNCHANGED w0
DoLeave ==
  /\ Ev.e = "leave" /\ Moment("code") /\ Bis
  /\ LET oog == Ev.how = "oog"
         t == IF oog THEN SetBp(s, BpGas) ELSE s
     IN /\ Chk("gas", Ev.g, Pts(t)) /\ Chk("breakpoint", Ev.bp, Bp(t))
        /\ oog => Pts(s) > s.heap[s.rt.inst].lim
        /\ s' = Leave(t, IF Ev.how = "ok" THEN "ok" ELSE "trap")
  /\ UNCHANGED <<cs, w0>>
DoPanic ==
  /\ Ev.e = "panic"
  /\ IF s.pc = "panic"
     THEN Chk("panic", <<Ev.f, cs # <<>> /\ Ev.f = Last(cs).f>>, <<Ev.f, TRUE>>) /\ s' = s /\ cs' = Front(cs)
     ELSE Moment("code") /\ Chk("panic", <<Ev.f, Ev.a[1]>>, <<"getBlockHash", 13>>) /\ s' = [Now0 EXCEPT !.pc = "panic"] /\ cs' = cs
  /\ UNCHANGED w0
Live == Chk("instances", Ev.live <= (IF TheCfg.warm THEN 1 ELSE 0), TRUE)
DoDone ==
  /\ Ev.e = "done" /\ Bis
  /\ IF s.pc = "panic"
     THEN /\ cs = <<>> /\ Live
          /\ Chk("answer", <<Ev.nil, Ev.err>>, <<TRUE, TRUE>>)
          /\ s' = Idle(w0)
     ELSE /\ Moment("done") /\ Live
          /\ Ended(s, Ev)
          /\ s' = Idle(IF s.res.rc = 0 THEN Apply(s.w, s.res.acc) ELSE w0)
  /\ UNCHANGED <<cs, w0>>

Step ==
  CASE Ev.e = "cfg" -> DoCfg [] Ev.e = "world" -> DoWorld [] Ev.e = "nonce" -> DoNonce [] Ev.e = "tx" -> DoTx [] Ev.e = "enter" -> DoEnter
    [] Ev.e = "burn" -> DoBurn [] Ev.e = "eei" -> DoEei [] Ev.e = "call" -> DoCall [] Ev.e = "ret" -> DoRet [] Ev.e = "leave" -> DoLeave
    [] Ev.e = "panic" -> DoPanic [] Ev.e = "done" -> DoDone [] OTHER -> FALSE
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step
View == i
=============================================================================
