-------------------------------- MODULE VmCtx --------------------------------
(* The state of the machine and its elementary operations: gas, output,       *)
(* storage, transfers of value, stacks of states.                             *)
(*                                                                            *)
(* State s:                                                                   *)
(*   pc    idle | enter | code | ret | done                                   *)
(*   fl    protocol flags of the transaction: v2, aot, dyn, v3, esdt          *)
(*   w     world: address -> account;   snaps: its saved versions             *)
(*   out   what the transaction does: acc (address -> output account), ret    *)
(*         (returned data), logs, rc, msg, refund;    outst: saved versions   *)
(*   rt    addr, fn, in (input), ro (read-only), inst (running instance), ac  *)
(*         (pending asynchronous call), cs (code size);     rtst: saved ones  *)
(*   mt    igp (gas provided), ic (cost of the code), gfe (gas for            *)
(*         execution), gu (address -> gas used);   mtst: saved ones           *)
(*   sa    storage address, sast;    bi: handle -> big integer, bist          *)
(*   heap  instances: code, pts (gas points used), lim, bp (breakpoint)       *)
(*   k     continuations;   res: result of the last function or transaction   *)
EXTENDS VmBase

Direct == 0
AsyncCT == 1
CallbackCT == 2
EsdtExecCT == 3

BpNone == 0
BpFail == 1
BpAsync == 2
BpSignal == 3
BpGas == 4
MaxInstances == 10

NoIn == [caller |-> "", args |-> <<>>, value |-> 0, ct |-> 0, gas |-> 0, locked |-> 0, oth |-> "", cth |-> "", gp |-> 0, esdt |-> <<>>, rcae |-> FALSE]
NoRt == [addr |-> "", fn |-> "", in |-> NoIn, ro |-> FALSE, inst |-> 0, ac |-> 0, cs |-> 0]
NoOut == [acc |-> NoF, ret |-> <<>>, logs |-> <<>>, rc |-> 0, msg |-> "", refund |-> 0]
NoMt == [igp |-> 0, ic |-> 0, gfe |-> 0, gu |-> NoF]
NewOA == [bd |-> 0, st |-> NoF, code |-> "", meta |-> "", dep |-> "", upd |-> FALSE, n |-> 0, ot |-> <<>>]
NoVO == [acc |-> NoF, ret |-> <<>>, logs |-> <<>>, rc |-> 0, msg |-> "", refund |-> 0, gas |-> 0]

(* the state a transaction starts from: nothing of earlier transactions but the world *)
Fresh(w, fl) ==
  [pc |-> "idle", fl |-> fl, w |-> w, snaps |-> <<>>, out |-> NoOut, outst |-> <<>>, rt |-> NoRt, rtst |-> <<>>, mt |-> NoMt, mtst |-> <<>>,
   sa |-> "", sast |-> <<>>, bi |-> NoF, bist |-> <<>>, heap |-> <<>>, k |-> <<>>, res |-> 0, biq |-> <<>>]


----------------------------------------------------------------------------
(* gas *)
Pts(s) == IF s.rt.inst = 0 THEN 0 ELSE s.heap[s.rt.inst].pts
SetPts(s, p) == IF s.rt.inst = 0 THEN s ELSE [s EXCEPT !.heap[s.rt.inst].pts = p]
UseGas(s, g) == SetPts(s, SAdd(Pts(s), g))
GasLeft(s) == SSub(s.mt.gfe, Pts(s))
RestoreGas(s, g) == IF g <= Pts(s) THEN SetPts(s, SSub(Pts(s), g)) ELSE s
SetBp(s, b) == IF s.rt.inst = 0 THEN s ELSE [s EXCEPT !.heap[s.rt.inst].bp = b]
Bp(s) == s.heap[s.rt.inst].bp
Refund(s, g) == [s EXCEPT !.out.refund = SAdd(@, g)]
PerByte(s, name, n) == UseGas(s, SMul(Base(name), n))

Spent(s) == SAdd(IF s.fl.v2 THEN s.mt.ic ELSE 0, Pts(s))

(* initial cost of code; the gas that remains is for execution *)
DeductCode(s, code, base, per) ==
  LET c == SAdd(base, SMul(HLen(code), Base(per)))
  IN IF c > s.rt.in.gas THEN [s |-> s, e |-> E("NotEnoughGas")]
     ELSE [s |-> [s EXCEPT !.mt.ic = c, !.mt.gfe = s.rt.in.gas - c], e |-> NoErr]
DeductExecution(s, code) == IF s.fl.aot THEN DeductCode(s, code, Base("GetCode"), "AoTPreparePerByte") ELSE DeductCode(s, code, 0, "CompilePerByte")
DeductDeployment(s, code) == DeductCode(s, code, Api("CreateContract"), "CompilePerByte")
DeductIndirectDeployment(s, code) == DeductCode(s, code, 0, "CompilePerByte")

----------------------------------------------------------------------------
(* failures of contract code *)
FailExec(s, e) == SetBp([s EXCEPT !.out.rc = 10, !.out.msg = e.m], BpFail)
WithFault(s, e) == FailExec(UseGas(s, GasLeft(s)), e)          \* all remaining gas is used
SignalErr(s, text) == SetBp([s EXCEPT !.out.rc = 4, !.out.msg = text], BpSignal)

----------------------------------------------------------------------------
(* accounts *)
OA(s, a) == Lookup(s.out.acc, a, NewOA)
SetOA(s, a, x) == [s EXCEPT !.out.acc = Put(@, a, x)]
Touch(s, a) == IF a \in DOMAIN s.out.acc THEN s ELSE SetOA(s, a, NewOA)
OnChain(s, a) == a \in DOMAIN s.w
Acc(s, a) == Lookup(s.w, a, NoAccount)
Balance(s, a) == SAdd(Acc(s, a).b, 0) + OA(s, a).bd
AddDelta(s, a, v) == LET x == OA(s, a) IN SetOA(s, a, [x EXCEPT !.bd = @ + v])

(* code as the machine sees it: deployed in this transaction or on the chain *)
CodeOf(s, a) ==
  IF OA(s, a).code # "" THEN [e |-> NoErr, c |-> OA(s, a).code]
  ELSE IF ~OnChain(s, a) THEN [e |-> E("HookArgs"), c |-> ""]
  ELSE IF s.w[a].c = "" THEN [e |-> E("ContractNotFound"), c |-> ""]
  ELSE [e |-> NoErr, c |-> s.w[a].c]

(* nonce of an account; s: with the nonce remembered *)
NonceOf(s, a) ==
  LET isNew == a \notin DOMAIN s.out.acc
      x == OA(s, a)
  IN IF ~(isNew \/ (x.n = 0 /\ s.fl.v3)) THEN [e |-> NoErr, n |-> x.n, s |-> s]
     ELSE IF ~OnChain(s, a) THEN [e |-> E("HookArgs"), n |-> 0, s |-> Touch(s, a)]
     ELSE [e |-> NoErr, n |-> s.w[a].n, s |-> SetOA(s, a, [x EXCEPT !.n = s.w[a].n])]
IncreaseNonce(s, a) == LET r == NonceOf(s, a) IN SetOA(r.s, a, [OA(r.s, a) EXCEPT !.n = r.n + 1])
NewAddress(s, creator) ==
  LET r == NonceOf(s, creator)
      n == IF ~(IsSC(creator) /\ s.fl.v3) /\ r.n > 0 THEN r.n - 1 ELSE r.n
  IN IF Failed(r.e) THEN [e |-> r.e, a |-> "", s |-> r.s]
     ELSE IF HLen(creator) # 32 THEN [e |-> E("HookArgs"), a |-> "", s |-> r.s]
     ELSE [e |-> NoErr, a |-> NewScAddress(creator, n), s |-> r.s]

----------------------------------------------------------------------------
(* storage *)
Reserved(k) == HHasPrefix(k, Cfg.prefix)
Protected(k) == HHasPrefix(k, sArwen)
Stored(s, a, k) == IF Reserved(k) THEN ChainStorage(s.w, a, k) ELSE Lookup(OA(s, a).st, k, ChainStorage(s.w, a, k))
KeyGas(s, k) == IF HLen(k) > 32 THEN PerByte(s, "DataCopyPerByte", HLen(k) - 32) ELSE s
StUnchanged == 0
StModified == 1
StAdded == 2
StDeleted == 3
SetStorage(s, k, v, machine) ==          \* machine: the machine itself writes, not the contract
  IF s.rt.ro THEN [s |-> s, e |-> NoErr, st |-> StUnchanged]
  ELSE IF Reserved(k) THEN [s |-> s, e |-> E("ReservedKey"), st |-> StUnchanged]
  ELSE IF Protected(k) /\ ~machine THEN [s |-> s, e |-> E("ProtectedKey"), st |-> StUnchanged]
  ELSE
    LET s1 == KeyGas(s, k)
        old == Stored(s, s.sa, k)
        n == HLen(v)
        m == HLen(old)
        x == OA(s1, s.sa)
        s2 == SetOA(s1, s.sa, [x EXCEPT !.st = Put(@, k, v)])
        r(t, c) == [s |-> t, e |-> NoErr, st |-> c]
    IN CASE old = v -> r(PerByte(s1, "DataCopyPerByte", n), StUnchanged)
         [] old # v /\ m = 0 -> r(PerByte(s2, "StorePerByte", n), StAdded)
         [] old # v /\ m > 0 /\ n = 0 -> r(Refund(s2, SMul(Base("ReleasePerByte"), m)), StDeleted)
         [] old # v /\ m > 0 /\ n > m -> r(UseGas(s2, SAdd(SMul(Base("PersistPerByte"), m), SMul(Base("StorePerByte"), n - m))), StModified)
         [] old # v /\ n > 0 /\ n < m -> r(Refund(PerByte(s2, "PersistPerByte", n), SMul(Base("ReleasePerByte"), m - n)), StModified)
         [] old # v /\ n > 0 /\ n = m -> r(s2, StModified)
LoadStorage(s, k) ==
  LET v == Stored(s, s.sa, k)
  IN [s |-> PerByte(KeyGas(s, k), "DataCopyPerByte", HLen(v)), v |-> v]
LoadStorageFrom(s, a, k) ==
  LET s1 == KeyGas(s, k)
      v == Stored(s, a, k)
  IN IF a # s.sa /\ (~OnChain(s, a) \/ ~Readable(s.w[a].m)) THEN [s |-> s1, v |-> ""]
     ELSE [s |-> PerByte(s1, "DataCopyPerByte", HLen(v)), v |-> v]

----------------------------------------------------------------------------
(* transfers of value *)
MoveValue(s, dest, sender, v, check) ==
  IF v < 0 THEN [s |-> s, e |-> E("NegativeValue")]
  ELSE IF v > Balance(s, sender) THEN [s |-> s, e |-> E("InsufficientFunds")]
  ELSE IF (check \/ ~s.fl.esdt) /\ ~IsPayable(s.w, dest) /\ v > 0 /\ ~(s.fl.v3 /\ s.rt.in.ct = AsyncCT) THEN [s |-> s, e |-> E("AccountNotPayable")]
  ELSE [s |-> AddDelta(AddDelta(s, sender, -v), dest, v), e |-> NoErr]
XferRec(v, g, gl, d, ct, sender) == [v |-> v, g |-> g, gl |-> gl, d |-> d, ct |-> ct, s |-> sender]
AddXfer(s, a, t) == LET x == OA(s, a) IN SetOA(s, a, [x EXCEPT !.ot = Append(@, t)])
Transfer(s, dest, sender, g, gl, v, d, ct) ==
  LET r == MoveValue(s, dest, sender, v, g > 0 /\ ct # CallbackCT)
  IN IF Failed(r.e) THEN r ELSE [s |-> AddXfer(r.s, dest, XferRec(v, g, gl, d, ct, sender)), e |-> NoErr]

Finish(s, d) == [s EXCEPT !.out.ret = Append(@, d)]
WriteLog(s, topics, data) ==
  IF s.rt.ro THEN s
  ELSE [s EXCEPT !.out.logs = Append(@, IF topics = <<>> THEN [id |-> "", addr |-> s.rt.addr, topics |-> <<>>, data |-> data]
                                          ELSE [id |-> Head(topics), addr |-> s.rt.addr, topics |-> Tail(topics), data |-> data])]
DeployCode(s, a, code, meta, dep) == LET x == OA(s, a) IN SetOA(s, a, [x EXCEPT !.code = code, !.meta = meta, !.dep = dep, !.upd = TRUE])

----------------------------------------------------------------------------
(* merging the output of a nested execution into that of its caller *)
MergeOA(l, r) ==
  [bd |-> r.bd, st |-> r.st @@ l.st, code |-> IF r.code # "" THEN r.code ELSE l.code, meta |-> IF r.meta # "" THEN r.meta ELSE l.meta,
   dep |-> IF r.dep # "" THEN r.dep ELSE l.dep, upd |-> l.upd \/ r.upd, n |-> MaxI(l.n, r.n),
   ot |-> IF Len(r.ot) > Len(l.ot) THEN l.ot \o SubSeq(r.ot, Len(l.ot) + 1, Len(r.ot)) ELSE l.ot]
MergeAccs(l, r) == [a \in DOMAIN l \cup DOMAIN r |-> IF a \notin DOMAIN r THEN l[a] ELSE IF a \notin DOMAIN l THEN r[a] ELSE MergeOA(l[a], r[a])]
MergeOut(l, r) ==
  [acc |-> MergeAccs(l.acc, r.acc), ret |-> l.ret \o r.ret, logs |-> l.logs \o r.logs, rc |-> r.rc, msg |-> r.msg, refund |-> SAdd(l.refund, r.refund)]
Censor(o) == [o EXCEPT !.ret = <<>>, !.rc = 0, !.msg = "", !.refund = 0, !.logs = <<>>]

(* the output of a protocol function becomes part of that of its caller *)
AddBuiltinOut(s, o) ==
  LET add(l, r) == [l EXCEPT !.bd = @ + r.bd, !.ot = @ \o r.ot]
      acc == [a \in DOMAIN s.out.acc \cup DOMAIN o.acc |->
                IF a \notin DOMAIN o.acc THEN s.out.acc[a] ELSE add(OA(s, a), o.acc[a])]
  IN [s EXCEPT !.out = [acc |-> acc, ret |-> @.ret \o o.ret, logs |-> @.logs \o o.logs, rc |-> 0, msg |-> "", refund |-> SAdd(@.refund, o.refund)]]

----------------------------------------------------------------------------
(* results *)
XferGas(x) == FoldLeft(LAMBDA acc, t : SAdd(acc, SAdd(t.g, t.gl)), 0, x.ot)
AllXferGas(s) == FoldSet(LAMBDA a, acc : SAdd(acc, XferGas(s.out.acc[a])), 0, DOMAIN s.out.acc)
ErrOut(s, e) ==
  [NoVO EXCEPT !.rc = e.rc, !.msg = IF e.n = "SignalError" THEN s.out.msg ELSE IF s.out.msg # "" THEN s.out.msg ELSE e.m]
(* the output of a successful execution: [s, vo] *)
Result(s0) ==
  LET cur == s0.rt.addr
      s == Touch(s0, cur)
      all == AllXferGas(s)
      others == FoldSet(LAMBDA a, acc : IF a = cur THEN acc ELSE SAdd(acc, Lookup(s.mt.gu, a, 0)), 0, DOMAIN s.out.acc)
      used == SSub(SSub(Spent(s), XferGas(OA(s, cur))), SAdd(others, all))
      gu == Put(s.mt.gu, cur, used)
      left == GasLeft(s)
      t == [s EXCEPT !.mt.gu = gu]
      total == SAdd(SAdd(FoldSet(LAMBDA a, acc : SAdd(acc, Lookup(gu, a, 0)), 0, DOMAIN s.out.acc), all), left)
      vo == [acc |-> s.out.acc, ret |-> s.out.ret, logs |-> s.out.logs, rc |-> s.out.rc, msg |-> s.out.msg, refund |-> s.out.refund, gas |-> left]
  IN IF \E a \in DOMAIN gu : a \notin DOMAIN s.out.acc THEN [s |-> t, vo |-> ErrOut(t, EAny("MissingAccount"))]
     ELSE IF s.fl.v2 /\ total # s.mt.igp THEN [s |-> t, vo |-> ErrOut(t, E("GasDoesNotMatch"))]
     ELSE [s |-> t, vo |-> vo]

----------------------------------------------------------------------------
(* saved states *)
PushOut(s) == [s EXCEPT !.outst = Append(@, s.out)]
PopOut(s) == [s EXCEPT !.out = Last(s.outst), !.outst = Front(@)]
PopMergeOut(s) == [s EXCEPT !.out = MergeOut(Last(s.outst), s.out), !.outst = Front(@)]
DropOut(s) == [s EXCEPT !.outst = Front(@)]
PushRt(s) == [s EXCEPT !.rtst = Append(@, s.rt)]
PopRt(s) == [s EXCEPT !.rt = Last(s.rtst), !.rtst = Front(@)]
PushMt(s) == [s EXCEPT !.mtst = Append(@, s.mt)]
PopMt(s) == [s EXCEPT !.mt = Last(s.mtst), !.mtst = Front(@)]
PopMergeMt(s) ==
  LET p == Last(s.mtst)
  IN [s EXCEPT !.mt = [p EXCEPT !.gu = [a \in DOMAIN p.gu \cup DOMAIN s.mt.gu |-> SAdd(Lookup(p.gu, a, 0), Lookup(s.mt.gu, a, 0))]], !.mtst = Front(@)]
PushBi(s) == [s EXCEPT !.bist = Append(@, s.bi)]
PopBi(s) == [s EXCEPT !.bi = Last(s.bist), !.bist = Front(@)]
DropBi(s) == [s EXCEPT !.bist = Front(@)]
PushSa(s) == [s EXCEPT !.sast = Append(@, s.sa)]
PopSa(s) == [s EXCEPT !.sa = Last(s.sast), !.sast = Front(@)]
PushW(s) == [s EXCEPT !.snaps = Append(@, s.w)]
PopW(s) == [s EXCEPT !.w = Last(s.snaps), !.snaps = Front(@)]
DropW(s) == [s EXCEPT !.snaps = Front(@)]

(* the input of a call becomes the running one *)
Vmi(inp) == [caller |-> inp.caller, args |-> inp.args, value |-> inp.value, ct |-> inp.ct, gas |-> inp.gas, locked |-> inp.locked,
             oth |-> inp.oth, cth |-> inp.cth, gp |-> inp.gp, esdt |-> inp.esdt, rcae |-> inp.rcae]
InitMt(s, inp) == [s EXCEPT !.mt = [igp |-> inp.gas, ic |-> 0, gfe |-> inp.gas, gu |-> NoF]]
InitRt(s, inp) == [s EXCEPT !.rt = [@ EXCEPT !.addr = inp.rcv, !.fn = inp.fn, !.in = Vmi(inp)]]
(* gas locked for a callback becomes available to it *)
Unlock(inp) == IF inp.ct = CallbackCT THEN [inp EXCEPT !.gas = SAdd(@, inp.locked), !.locked = 0] ELSE inp

HeapNew(s, code) == [s EXCEPT !.heap = Append(@, [code |-> code, pts |-> 0, lim |-> s.mt.gfe, bp |-> 0]), !.rt.inst = Len(s.heap) + 1]
(* an instance of code for the current address; new: code that is not a contract yet *)
Start(s, code, new) ==
  IF Len(s.rtst) >= MaxInstances THEN [s |-> [s EXCEPT !.rt.inst = 0], e |-> E("MaxInstances")]
  ELSE IF ~Code(code).ok THEN [s |-> [s EXCEPT !.rt.inst = 0], e |-> ESay("CannotInstantiate", Code(code).err)]
  ELSE IF new /\ ~ValidCode(code, s.fl.esdt) THEN [s |-> [s EXCEPT !.rt.inst = 0], e |-> InvalidCode(code, s.fl.esdt)]
  ELSE [s |-> [HeapNew(s, code) EXCEPT !.rt.cs = HLen(code)], e |-> NoErr]
=============================================================================
