------------------------------- MODULE VmHost -------------------------------
(* How the machine runs transactions and nested calls. Contract code runs     *)
(* between Enter and Leave; what happens after it is kept as a stack of       *)
(* continuations (s.k), the last one being the next.                          *)
EXTENDS VmCtx

Frame(f, d) == [f |-> f, d |-> d]
Push(s, f, d) == [s EXCEPT !.k = Append(@, Frame(f, d))]
Val(e, vo) == [e |-> e, vo |-> vo]
Ok0 == Val(NoErr, NoVO)
Bad(e) == Val(e, NoVO)
Done(s, vo) == [s EXCEPT !.pc = "done", !.res = vo]
(* contract code begins *)
Enter(s, f) == [s EXCEPT !.pc = "enter", !.res = f]

----------------------------------------------------------------------------
(* protocol functions, by the rules of the recorded world *)
BuiltinFail(s, e) == [s |-> s, e |-> e, o |-> [rem |-> 0, acc |-> NoF, ret |-> <<>>, logs |-> <<>>, refund |-> 0]]
Tok(w, a, key) == IF a \in DOMAIN w THEN Lookup(w[a].t, key, [v |-> 0]) ELSE [v |-> 0]
MoveToken(w, key, from, to, v) ==
  LET src == w[from].t[key]
      w1 == [w EXCEPT ![from].t[key].v = @ - v]
      d == Lookup(w1, to, NoAccount)
  IN IF ShardOf(to) # 0 THEN w1
     ELSE Put(w1, to, [d EXCEPT !.t = Put(@, key, [src EXCEPT !.v = v + (IF key \in DOMAIN d.t THEN d.t[key].v ELSE 0)])])
Enough(w, a, key, v) == a \in DOMAIN w /\ key \in DOMAIN w[a].t /\ w[a].t[key].v >= v
BuiltinCall(s0, inp) ==
  LET cost == Cfg.bi[inp.fn]
      a == inp.args
      rem == inp.gas - cost
      s == [s0 EXCEPT !.biq = Append(@, [caller |-> inp.caller, rcv |-> inp.rcv, fn |-> inp.fn, args |-> a, value |-> inp.value, ct |-> inp.ct,
                                          gas |-> inp.gas, locked |-> inp.locked, oth |-> inp.oth, cth |-> inp.cth, gp |-> inp.gp])]
      bad(n) == BuiltinFail(s, E(n))
      x(d) == XferRec(0, rem, inp.locked, d, inp.ct, inp.caller)
      good(w, send, to, d, log) ==
        [s |-> [s EXCEPT !.w = w], e |-> NoErr,
         o |-> [rem |-> IF send THEN 0 ELSE rem, acc |-> IF send THEN (to :> [NewOA EXCEPT !.ot = <<x(d)>>]) ELSE NoF,
                ret |-> <<>>, logs |-> log, refund |-> 0]]
  IN IF rem < 0 THEN bad("HookGas")
     ELSE CASE inp.fn = nESDT ->
            LET v == HNat(a[2])
                key == TokenKey(a[1], 0)
            IN IF inp.value # 0 \/ Len(a) < 2 \/ (Len(a) >= 2 /\ v = 0) THEN bad("HookArgs")
               ELSE IF ~Enough(s.w, inp.caller, key, v) THEN bad("HookFunds")
               ELSE LET w == MoveToken(s.w, key, inp.caller, inp.rcv, v)
                        log == <<[id |-> nESDT, addr |-> inp.caller, topics |-> <<a[1], a[2]>>, data |-> ""]>>
                    IN IF ShardOf(inp.rcv) = 0
                       THEN IF IsSC(inp.rcv) /\ Len(a) > 2 THEN good(w, TRUE, inp.rcv, CallText(a[3], SubSeq(a, 4, Len(a))), log) ELSE good(w, FALSE, "", "", log)
                       ELSE IF IsSC(inp.caller) THEN good(w, TRUE, inp.rcv, CallText(inp.fn, a), log) ELSE good(w, FALSE, "", "", log)
          [] inp.fn = nNFT ->
            LET n == HNat(a[2])
                v == HNat(a[3])
                key == TokenKey(a[1], n)
                to == a[4]
            IN IF inp.value # 0 \/ Len(a) < 4 \/ inp.caller # inp.rcv THEN bad("HookArgs")
               ELSE IF HLen(to) # 32 \/ to = inp.caller \/ n = 0 THEN bad("HookArgs")
               ELSE IF ~Enough(s.w, inp.caller, key, v) THEN bad("HookFunds")
               ELSE LET w == MoveToken(s.w, key, inp.caller, to, v)
                        log == <<[id |-> nNFT, addr |-> inp.caller, topics |-> <<a[1], to>>, data |-> ""]>>
                    IN IF ShardOf(to) = 0
                       THEN IF IsSC(to) /\ Len(a) > 4 THEN good(w, TRUE, to, CallText(a[5], SubSeq(a, 6, Len(a))), log) ELSE good(w, FALSE, "", "", log)
                       ELSE IF IsSC(inp.caller) THEN good(w, TRUE, to, CallText(inp.fn, [a EXCEPT ![4] = "6e667464617461"]), log) ELSE good(w, FALSE, "", "", log)
          [] inp.fn = "526577617264" ->                              \* Reward
            [s |-> s, e |-> NoErr,
             o |-> [rem |-> rem, acc |-> (inp.caller :> [NewOA EXCEPT !.bd = 5, !.ot = <<XferRec(5, 0, 0, "", Direct, inp.rcv)>>]),
                    ret |-> <<"70616964">>, logs |-> <<>>, refund |-> 3]]
          [] inp.fn = "53617665" ->                                  \* Save
            IF a = <<>> \/ ~OnChain(s, inp.rcv) THEN bad("HookArgs")
            ELSE [s |-> [s EXCEPT !.w[inp.rcv].s = Put(@, Cfg.prefix \o "7361766564", a[1])], e |-> NoErr,
                  o |-> [rem |-> rem, acc |-> NoF, ret |-> <<>>, logs |-> <<>>, refund |-> 0]]
          [] OTHER -> bad("HookBuiltin")

IsEsdtFn(fn) == fn = nESDT \/ fn = nNFT
(* a protocol function called by a contract: [s, e, o, next, inp] *)
HandleBuiltin(s, inp) ==
  LET r == BuiltinCall(s, inp)
      used(t) == UseGas(t, inp.gas)
      recip == IF inp.fn = nNFT /\ inp.caller = inp.rcv THEN inp.args[4] ELSE inp.rcv
      follows == SameShard(inp.caller, recip) /\ IsSC(recip) /\ recip \in DOMAIN r.o.acc /\ Len(r.o.acc[recip].ot) = 1
      x == r.o.acc[recip].ot[1]
      p == IF follows THEN ParseData(x.d) ELSE [ok |-> FALSE, fn |-> "", args |-> <<>>]
      esdt == IF ~IsEsdtFn(inp.fn) THEN <<>>
              ELSE IF inp.fn = nESDT THEN <<[v |-> HNat(inp.args[2]), t |-> inp.args[1], ty |-> 0, n |-> 0]>>
              ELSE <<[v |-> HNat(inp.args[3]), t |-> inp.args[1], ty |-> 1, n |-> HNat(inp.args[2])]>>
      next == IF ~follows THEN inp ELSE [inp EXCEPT !.args = p.args, !.value = 0, !.gas = x.g, !.locked = x.gl, !.rcv = recip, !.fn = p.fn, !.ai = FALSE, !.esdt = esdt, !.rcae = FALSE]
      acc1 == IF follows THEN [a \in DOMAIN r.o.acc |-> [r.o.acc[a] EXCEPT !.ot = <<>>]] ELSE r.o.acc
      note == IsEsdtFn(inp.fn) /\ SameShard(inp.rcv, inp.caller) /\ (inp.fn = nESDT \/ Len(inp.args) = 4)
      to == IF inp.fn = nNFT THEN inp.args[4] ELSE inp.rcv
      acc2 == IF ~note THEN acc1
              ELSE LET old == Lookup(acc1, to, NewOA)
                   IN Put(acc1, to, [old EXCEPT !.ot = Append(@, XferRec(0, 0, 0, CallText(inp.fn, inp.args), inp.ct, inp.caller))])
      o == [r.o EXCEPT !.acc = acc2]
      gas == SSub(SSub(inp.gas, r.o.rem), IF follows THEN x.g ELSE 0)
      s1 == AddBuiltinOut(UseGas(r.s, gas), o)
      vo == [acc |-> [a \in DOMAIN o.acc |-> IF a \in DOMAIN s.out.acc THEN [o.acc[a] EXCEPT !.bd = @ + s.out.acc[a].bd] ELSE o.acc[a]],
             ret |-> o.ret, logs |-> o.logs, rc |-> 0, msg |-> "", refund |-> o.refund, gas |-> r.o.rem]
  IN IF Failed(r.e) THEN [s |-> used(r.s), e |-> r.e, vo |-> NoVO, next |-> FALSE, inp |-> inp]
     ELSE IF follows /\ ~p.ok THEN [s |-> used(r.s), e |-> E("Tokenize"), vo |-> NoVO, next |-> FALSE, inp |-> inp]
     ELSE [s |-> s1, e |-> NoErr, vo |-> vo, next |-> follows, inp |-> next]

----------------------------------------------------------------------------
InitName(fn) == fn = nInit \/ fn = nCtor
CopyHashes(s, inp) ==
  IF ~s.fl.esdt THEN inp
  ELSE [inp EXCEPT !.oth = IF s.rt.in.oth # "" THEN s.rt.in.oth ELSE @, !.cth = IF s.rt.in.cth # "" THEN s.rt.in.cth ELSE @]
UpgradeArgs(s) == [s EXCEPT !.rt.in.args = SubSeq(@, 3, Len(@))]

RECURSIVE Ret(_, _), ExecDest(_, _), NoBuiltin(_, _), Execute(_, _), RunInit(_), HandleAsync(_)

(* a failed execution ends the transaction with an error output *)
TopFail(s, e) == Done(s, ErrOut(s, e))

(* the code of the frame starts its constructor, if it has one *)
RunInit(s) ==
  IF Exports(s.heap[s.rt.inst].code, nInit) THEN Enter(s, nInit) ELSE Ret(s, Ok0)

FinalGas(s) == IF s.fl.v2 /\ Pts(s) > s.mt.gfe THEN E("NotEnoughGas") ELSE NoErr

(* a transaction that calls a contract *)
TopStart(s, inp0) ==
  LET inp == Unlock(inp0)
  IN [AddDelta(InitMt(InitRt(s, inp), inp), inp.rcv, inp.value) EXCEPT !.sa = inp.rcv]
TopCall(s0, inp) ==
  LET s == TopStart(s0, inp)
      c == CodeOf(s, inp.rcv)
      s1 == s
      d == DeductExecution(s1, c.c)
      st == Start(d.s, c.c, FALSE)
      t == st.s
      fn == inp.fn
      e == IF InitName(fn) THEN E("InitFuncCalledInRun")
           ELSE IF fn = nCallBack /\ inp.ct # CallbackCT THEN E("CallBackFuncCalledInRun") ELSE NoErr
      has == Exports(c.c, fn)
  IN IF s.fl.v2 /\ Unlock(inp).gas < Base("GetCode") THEN TopFail(s, E("NotEnoughGas"))
     ELSE IF Failed(c.e) THEN TopFail(s, E("ContractNotFound"))
     ELSE IF Failed(d.e) THEN TopFail(s1, d.e)
     ELSE IF Failed(st.e) THEN TopFail(t, E("ContractInvalid"))
     ELSE IF Failed(e) THEN TopFail(t, e)
     ELSE IF has THEN Enter(Push(t, "topcall", 0), fn)
     ELSE IF inp.ct = CallbackCT THEN LET r == Result(t) IN Done(r.s, r.vo)      \* a callback that nobody handles
     ELSE IF fn = nCallBack THEN TopFail(t, E("NilCallbackFunction"))
     ELSE TopFail(t, E("FuncNotFound"))

(* deployments and upgrades by a transaction *)
Deployment(s, d) ==                       \* d: code, meta, address, deployer
  LET g == DeductDeployment(s, d.code)
      st == Start(g.s, d.code, TRUE)
  IN IF Failed(g.e) THEN TopFail([s EXCEPT !.out.rc = 5], g.e)
     ELSE IF Failed(st.e) THEN TopFail(st.s, E("ContractInvalid"))
     ELSE RunInit(Push(st.s, "topinit", d))
TopCreate(s0, inp, code, meta) ==
  LET n == NewAddress(s0, inp.caller)
      s == TopStart(n.s, [inp EXCEPT !.rcv = n.a])
  IN IF Failed(n.e) THEN TopFail(n.s, n.e)
     ELSE Deployment(s, [code |-> code, meta |-> meta, a |-> n.a, dep |-> inp.caller])
TopUpgrade(s0, inp) ==
  LET s == TopStart(s0, inp)
      a == inp.args
  IN IF Len(a) < 2 THEN TopFail(s, E("InvalidUpgradeArguments"))
     ELSE Deployment(UpgradeArgs(s), [code |-> a[1], meta |-> a[2], a |-> inp.rcv, dep |-> inp.caller])

(* a call of one contract by another *)
ExecDest(s0, inp) ==
  LET s == PushW(s0)
      b == HandleBuiltin(PushOut(s), inp)
  IN IF ~IsBuiltin(inp.fn) THEN NoBuiltin(Push(s, "execdest", FALSE), inp)
     ELSE IF Failed(b.e) THEN LET t == PopW(PopOut(b.s)) IN Ret(t, Val(b.e, ErrOut(t, b.e)))
     ELSE IF b.next THEN NoBuiltin(Push(b.s, "execdest", TRUE), b.inp)
     ELSE Ret(DropW(DropOut(b.s)), Val(NoErr, b.vo))

NoBuiltin(s0, inp0) ==
  LET inp == Unlock(CopyHashes(s0, inp0))
      s1 == [PushBi(s0) EXCEPT !.bi = NoF]
      s2 == [PushOut(s1) EXCEPT !.out = Censor(@)]
      s3 == InitRt(PushRt(s2), inp)
      s4 == InitMt(PushMt(s3), inp)
      s == [PushSa(s4) EXCEPT !.sa = inp.rcv]
      m == MoveValue(s, inp.rcv, inp.caller, inp.value, FALSE)
      t == Push(IF inp.ct # CallbackCT \/ inp.value = 0 THEN m.s ELSE s, "finishdest", 0)
  IN IF (inp.ct # CallbackCT \/ inp.value = 0) /\ Failed(m.e) THEN Ret(t, Bad(m.e)) ELSE Execute(t, inp)

ExecSame(s0, inp0) ==
  LET inp == Unlock(CopyHashes(s0, inp0))
      s == PushW(InitMt(PushMt(InitRt(PushRt(PushOut(PushBi(s0))), inp)), inp))
      m == MoveValue(s, inp.rcv, inp.caller, inp.value, FALSE)
      t == Push(m.s, "execsame", 0)
  IN IF Failed(m.e) THEN Ret(t, Bad(m.e)) ELSE Execute(t, inp)

Execute(s0, inp) ==
  LET s == UseGas(s0, inp.gas)            \* the caller pays all the gas it provides
      c == CodeOf(s, inp.rcv)
      s1 == s
      d == DeductExecution(s1, c.c)
      st == Start(d.s, c.c, inp.ai)
      t == Push(st.s, "exec", 0)
      a == inp.args
      acc == Acc(s, inp.rcv)
      u0 == UpgradeArgs(s)
      ug == DeductDeployment(u0, a[1])
      us == Start(ug.s, a[1], TRUE)
  IN IF InitName(inp.fn) /\ ~inp.ai THEN Ret(s0, Bad(E("InitFuncCalledInRun")))
     ELSE IF inp.fn = nUpgrade THEN
       IF ~OnChain(s, inp.rcv) THEN Ret(s, Bad(E("HookArgs")))
       ELSE IF ~Upgradeable(acc.m) \/ acc.o # inp.caller THEN Ret(s, Bad(E("UpgradeNotAllowed")))
       ELSE IF Len(a) < 2 THEN Ret(s, Bad(E("InvalidUpgradeArguments")))
       ELSE IF Failed(ug.e) THEN Ret([u0 EXCEPT !.out.rc = 5], Bad(ug.e))
       ELSE IF Failed(us.e) THEN Ret(us.s, Bad(E("ContractInvalid")))
       ELSE RunInit(Push(us.s, "upgrade", [code |-> a[1], meta |-> a[2], a |-> inp.rcv, dep |-> inp.caller]))
     ELSE IF Failed(c.e) THEN Ret(s, Bad(c.e))
     ELSE IF Failed(d.e) THEN Ret(s1, Bad(d.e))
     ELSE IF Failed(st.e) THEN Ret(st.s, Bad(st.e))
     ELSE IF Exports(c.c, inp.fn) THEN Enter(t, inp.fn)
     ELSE IF inp.fn = nCallBack THEN Ret(t, Ok0)
     ELSE Ret(t, Bad(E("FuncNotFound")))

(* a contract creates a contract: continues with the address or "" *)
CreateContract(s0, inp, code, meta) ==    \* inp.caller: the creator
  LET d == DeductIndirectDeployment(s0, code)
      n == NewAddress(d.s, inp.caller)
      s == Push(DeployCode(PushOut(n.s), n.a, code, meta, inp.caller), "create", [a |-> n.a, by |-> inp.caller])
      fail(t, e) == Ret(t, [Bad(e) EXCEPT !.vo = [NoVO EXCEPT !.msg = ""]])
  IN IF Failed(d.e) THEN fail(d.s, d.e)
     ELSE IF d.s.rt.ro THEN fail(d.s, E("InvalidCallOnReadOnlyMode"))
     ELSE IF Failed(n.e) THEN fail(n.s, n.e)
     ELSE IF OnChain(n.s, n.a) \/ (n.a \in DOMAIN n.s.out.acc /\ n.s.out.acc[n.a].code # "") THEN fail(n.s, E("DeploymentOverExistingAccount"))
     ELSE ExecDest(s, [inp EXCEPT !.rcv = n.a, !.fn = nInit, !.ai = TRUE])

----------------------------------------------------------------------------
(* asynchronous calls *)
TwoArgEsdt(fn, args) == (fn = nESDT /\ Len(args) = 2) \/ (fn = nNFT /\ Len(args) = 4)
SendFail(s, e) == FailExec(UseGas(s, GasLeft(s)), e)
AsyncInput(s, ac, p) ==
  [NoIn EXCEPT !.caller = s.rt.addr, !.args = p.args, !.value = HNat(ac.val), !.ct = AsyncCT, !.gas = GasLeft(s), !.locked = ac.lock,
               !.oth = s.rt.in.oth, !.cth = s.rt.in.cth, !.gp = s.rt.in.gp] @@ [rcv |-> ac.dest, fn |-> p.fn, ai |-> FALSE]
CodeAt(s, a) == CodeOf(s, a)
HandleAsync(s0) ==
  LET s == SetBp(s0, BpNone)
      ac == s.rt.ac
      p == ParseData(ac.data)
      same == SameShard(s.rt.addr, ac.dest)
      x == Transfer(s, ac.dest, s.rt.addr, ac.gl, ac.lock, HNat(ac.val), ac.data, AsyncCT)
      done == Ok0
  IN IF ~p.ok THEN Ret(s, Bad(E("Tokenize")))
     ELSE IF IsBuiltin(p.fn) /\ ~same THEN ExecDest(Push(s, "async0", 0), AsyncInput(s, ac, p))
     ELSE IF IsBuiltin(p.fn) /\ TwoArgEsdt(p.fn, p.args) /\ s.rt.in.ct = AsyncCT /\ s.rt.in.caller = ac.dest THEN
       Ret(RestoreGas([s EXCEPT !.out.ret = <<ac.data>> \o @], ac.lock), Ok0)
     ELSE IF IsBuiltin(p.fn) \/ ~Failed(CodeAt(s, ac.dest).e) THEN
       ExecDest(Push(s, "async1", [n |-> Len(OA(s, s.rt.addr).ot)]), AsyncInput(s, ac, p))
     ELSE IF Failed(x.e) THEN Ret(SendFail(s, x.e), Bad(x.e))
     ELSE Ret(UseGas(x.s, GasLeft(x.s)), Ok0)

(* value sent back to the caller by the destination, without data *)
BackValue(s, vo, n) ==
  LET ot == IF s.rt.addr \in DOMAIN vo.acc THEN vo.acc[s.rt.addr].ot ELSE <<>>
  IN IF ~s.fl.v3 \/ vo.ret # <<>> \/ ot = <<>> THEN 0
     ELSE IF Len(ot) > n /\ Last(ot).d = "" THEN Last(ot).v ELSE 0
RcBytes(c) == NatHex(c)
CallbackGas(args) ==
  SAdd(Api("AsyncCallStep"), SMul(Base("DataCopyPerByte"), FoldLeft(LAMBDA acc, a : acc + HLen(a), HLen(nCallBack) + Len(args), args)))
Callback(s, vo, e, n) ==
  LET ac == s.rt.ac
      good == ~Failed(e) /\ vo.rc = 0
      args == <<RcBytes(vo.rc)>> \o (IF good THEN vo.ret ELSE <<vo.msg>>)
      p == IF vo.ret # <<>> THEN ParseData(vo.ret[1]) ELSE [ok |-> FALSE, fn |-> "", args |-> <<>>]
      esdt == good /\ vo.ret # <<>> /\ p.ok /\ TwoArgEsdt(p.fn, p.args)
      args2 == IF esdt THEN p.args \o <<nCallBack, RcBytes(vo.rc)>> \o Tail(vo.ret) ELSE args
      lim == SAdd(vo.gas, ac.lock)
      use == CallbackGas(args)
      inp == [NoIn EXCEPT !.caller = ac.dest, !.args = args2, !.value = BackValue(s, vo, n), !.ct = CallbackCT, !.gas = lim - use,
                          !.oth = s.rt.in.oth, !.cth = s.rt.in.cth, !.gp = s.rt.in.gp, !.rcae = ~good] @@ [rcv |-> s.rt.addr, fn |-> IF esdt THEN p.fn ELSE nCallBack, ai |-> FALSE]
  IN IF lim <= use THEN Ret(Push(s, "async2", 0), Val(E("NotEnoughGas"), ErrOut(s, E("NotEnoughGas"))))
     ELSE ExecDest(Push(RestoreGas(s, ac.lock), "async2", 0), inp)
CallbackFailed(s, vo) ==
  Finish(Finish([s EXCEPT !.rt.in.gas = 0, !.out.msg = vo.msg], RcText(vo.rc)), s.rt.in.cth)

(* the answer to an asynchronous call that came as a transaction *)
SendCallback(s) ==
  LET data == At \o HexOfHex(RcText(s.out.rc)) \o FoldLeft(LAMBDA acc, d : acc \o At \o HexOfHex(d), "", s.out.ret)
      x == Transfer(s, s.rt.in.caller, s.rt.addr, GasLeft(s), 0, s.rt.in.value, data, CallbackCT)
  IN IF Failed(x.e) THEN [s |-> SendFail(s, x.e), e |-> x.e] ELSE [s |-> UseGas(x.s, GasLeft(x.s)), e |-> NoErr]

----------------------------------------------------------------------------
(* contract code ended: how = "ok" | "trap" *)
Leave(s, how) ==
  IF how = "ok" THEN Ret(s, Ok0)
  ELSE CASE Bp(s) = BpNone -> Ret(s, Bad(E("ExecutionFailed")))
         [] Bp(s) = BpFail -> Ret(s, Bad(E("ExecutionFailed")))
         [] Bp(s) = BpSignal -> Ret(s, Bad(E("SignalError")))
         [] Bp(s) = BpGas -> Ret(s, Bad(E("NotEnoughGas")))
         [] Bp(s) = BpAsync -> HandleAsync(s)

FinishDest(s, e) ==
  LET r == IF Failed(e) THEN [s |-> s, vo |-> ErrOut(s, e)] ELSE Result(s)
      vo == r.vo
      s1 == PopSa(PopBi(r.s))
      s2 == IF vo.rc = 0 THEN PopMergeOut(PopMergeMt(s1)) ELSE PopOut(PopMt(s1))
      s3 == RestoreGas(PopRt(s2), vo.gas)
  IN Ret(s3, Val(IF Failed(e) THEN e ELSE IF vo.rc # 0 THEN E("ExecutionFailed") ELSE NoErr, vo))

FinishSame(s, e) ==
  LET r == Result(s)
  IN IF Failed(e) \/ s.out.rc # 0 THEN Ret(PopW(PopRt(PopOut(PopMt(PopBi(s))))), Bad(e))
     ELSE Ret(RestoreGas(PopRt(DropW(DropBi(DropOut(PopMergeMt(r.s))))), r.vo.gas), Bad(e))

EeiRet(s, d, v) == [s EXCEPT !.pc = "ret", !.res = [d |-> d, e |-> v.e, vo |-> v.vo]]

Ret(s0, v) ==
  LET fr == Last(s0.k)
      s == [s0 EXCEPT !.k = Front(@)]
      e == v.e
      d == fr.d
  IN CASE fr.f = "topcall" ->
            LET e1 == IF Failed(e) THEN e ELSE FinalGas(s)
                c == SendCallback(s)
                good(t) == LET r == Result(t) IN Done(r.s, r.vo)
            IN IF Failed(e1) THEN TopFail(s, e1)
               ELSE IF s.rt.in.ct = AsyncCT THEN (IF Failed(c.e) THEN TopFail(c.s, c.e) ELSE good(c.s))
               ELSE good(s)
       [] fr.f = "topinit" ->
            LET e1 == IF Failed(e) THEN e ELSE IF Exports(s.heap[s.rt.inst].code, nInit) THEN FinalGas(s) ELSE NoErr
                r == Result(DeployCode(s, d.a, d.code, d.meta, d.dep))
            IN IF Failed(e1) THEN TopFail(s, e1) ELSE Done(r.s, r.vo)
       [] fr.f = "exec" ->
            IF Failed(e) THEN Ret(s, Bad(e)) ELSE IF s.out.rc # 0 THEN Ret(s, Bad(E("ReturnCodeNotOk"))) ELSE Ret(s, Ok0)
       [] fr.f = "upgrade" ->
            LET e1 == IF Failed(e) THEN e ELSE IF Exports(s.heap[s.rt.inst].code, nInit) THEN FinalGas(s) ELSE NoErr
                t == DeployCode(s, d.a, d.code, d.meta, d.dep)
            IN IF Failed(e1) THEN Ret(s, Bad(e1)) ELSE IF t.out.rc # 0 THEN Ret(t, Bad(E("ReturnCodeNotOk"))) ELSE Ret(t, Ok0)
       [] fr.f = "finishdest" -> FinishDest(s, e)
       [] fr.f = "execdest" ->                     \* d: a protocol function came first
            LET t == IF Failed(e) THEN PopW(IF d THEN PopOut(s) ELSE s) ELSE DropW(IF d THEN DropOut(s) ELSE s)
            IN Ret(t, v)
       [] fr.f = "execsame" -> FinishSame(s, e)
       [] fr.f = "create" ->
            IF Failed(e) THEN Ret(PopOut(s), v)
            ELSE Ret(IncreaseNonce(DropOut(s), d.by), [v EXCEPT !.vo = [NoVO EXCEPT !.msg = d.a]])
       [] fr.f = "async0" -> Ret(s, Bad(e))
       [] fr.f = "async1" -> Callback(s, v.vo, e, d.n)
       [] fr.f = "async2" -> IF Failed(e) THEN Ret(CallbackFailed(s, v.vo), Ok0) ELSE Ret(s, Ok0)
       [] fr.f = "eei" -> EeiRet(s, d, v)
=============================================================================
