----------------------------- MODULE ScenarioRun -----------------------------
(* Running scenarios: what each step does to the blockchain, what a transaction *)
(* results in, and when the checks of accounts and of results pass.             *)
(* Quantities are minimal big-endian bytes. Accounts are by address.            *)
EXTENDS Scenario
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
PutOrDel(f, k, v) == IF v = <<>> THEN Del(f, k) ELSE Put(f, k, v)
Plus2(a, b) == ToBE(Add(FromBE(a), FromBE(b)))
Minus2(a, b) == ToBE(Sub(FromBE(a), FromBE(b)))
Times2(a, b) == ToBE(Mul(FromBE(a), FromBE(b)))
AtLeast(a, b) == Le(FromBE(b), FromBE(a))
One == <<1>>
IsNone(x) == Cardinality(DOMAIN x) = 0
Protected == S("ELROND")
RewardKey == S("ELRONDreward")
IsSC(a) == \A i \in 1 .. 8 : a[i] = 0
NewAcc == [nonce |-> <<>>, bal |-> <<>>, user |-> <<>>, code |-> <<>>, owner |-> <<>>, async |-> <<>>, shard |-> <<>>,
           st |-> <<>>, tok |-> <<>>, last |-> <<>>, roles |-> <<>>]
Start == [a |-> <<>>, cur |-> <<>>, prev |-> <<>>, hashes |-> <<>>, mocks |-> <<>>]
Storage(r) == [st |-> r.st, tok |-> r.tok, last |-> r.last, roles |-> r.roles]
----------------------------------------------------------------------------
(* setState: accounts replace those they name, blocks and hashes are replaced, new addresses are added. *)
StorageOf(list) == FoldLeft(LAMBDA f, e : PutOrDel(f, e.key.v, e.val.v), <<>>, list)
(* the entry of a fungible token (nonce 0) has nothing but a balance *)
TokenIn(i, frozen) ==
  LET fung == i.nonce.v = <<>>
      un(x) == IF fung THEN <<>> ELSE x
  IN [bal |-> i.balance.v, creator |-> un(i.creator.v), roy |-> un(i.royalties.v), hash |-> un(i.hash.v), uri |-> un(i.uri.v),
      attr |-> un(i.attributes.v), frozen |-> frozen]
TokensOf(list) ==
  FoldLeft(LAMBDA f, e :
             FoldLeft(LAMBDA g, i : LET k == <<e.key.v, i.nonce.v>> IN IF i.balance.v = <<>> THEN Del(g, k) ELSE Put(g, k, TokenIn(i, e.val.frozen.v # <<>>)),
                      f, e.val.instances),
           <<>>, list)
LastOf(list) == FoldLeft(LAMBDA f, e : PutOrDel(f, e.key.v, e.val.lastNonce.v), <<>>, list)
RolesOf(list) == FoldLeft(LAMBDA f, e : PutOrDel(f, e.key.v, e.val.roles), <<>>, list)
AccountOf(r) ==
  [nonce |-> r.nonce.v, bal |-> r.balance.v, user |-> r.username.v, code |-> r.code.v, owner |-> r.owner.v, async |-> r.asyncCallData.v,
   shard |-> r.shard.v, st |-> StorageOf(r.storage), tok |-> TokensOf(r.esdt), last |-> LastOf(r.esdt), roles |-> RolesOf(r.esdt)]
Sound(addr, r) == (r.code.v # <<>>) = IsSC(addr)
BlockOf(b) == IF IsNone(b) THEN <<>>
              ELSE [time |-> b.blockTimestamp.v, nonce |-> b.blockNonce.v, round |-> b.blockRound.v, epoch |-> b.blockEpoch.v,
                    seed |-> IF IsNone(b.blockRandomSeed) THEN [i \in 1 .. 48 |-> 0] ELSE b.blockRandomSeed.v]
MockOf(m) == <<m.creatorAddress.v, m.creatorNonce.v, m.newAddress.v>>
WithAccounts(w, list, sound) ==
  FoldLeft(LAMBDA x, e : IF ~x.ok \/ (sound /\ ~Sound(e.key.v, e.val)) THEN [x EXCEPT !.ok = FALSE]
                         ELSE [x EXCEPT !.w.a = Put(@, e.key.v, AccountOf(e.val))],
           [w |-> w, ok |-> TRUE], list)
SetState(w, s) ==
  LET x == WithAccounts(w, s.accounts, TRUE)
      b == [x.w EXCEPT !.prev = BlockOf(s.previousBlockInfo), !.cur = BlockOf(s.currentBlockInfo),
                       !.hashes = [i \in 1 .. Len(s.blockHashes) |-> s.blockHashes[i].v]]
      ms == [i \in 1 .. Len(s.newAddresses) |-> MockOf(s.newAddresses[i])]
  IN IF ~x.ok THEN x
     ELSE IF \E i \in 1 .. Len(ms) : ~IsSC(ms[i][3]) THEN [w |-> b, ok |-> FALSE]
     ELSE [w |-> [b EXCEPT !.mocks = @ \o ms], ok |-> TRUE]
----------------------------------------------------------------------------
(* checkState *)
Fits(c, x) == c.star \/ c.v = x
FitsIfSaid(c, x) == c.un \/ Fits(c, x)
IsProtected(k) == HasPrefix(k, Protected)
StorageFits(c, st) ==
  \/ c.any
  \/ LET said == {c.list[i].key.v : i \in 1 .. Len(c.list)} IN
     /\ \A i \in 1 .. Len(c.list) : IsProtected(c.list[i].key.v) \/ Fits(c.list[i].val, Get(st, c.list[i].key.v, <<>>))
     /\ c.more \/ \A k \in DOMAIN st : k \in said \/ IsProtected(k)
NoInstance == [bal |-> <<>>, creator |-> <<>>, roy |-> <<>>, hash |-> <<>>, uri |-> <<>>, attr |-> <<>>, frozen |-> FALSE]
Held(r, name) == {k \in DOMAIN r.tok : k[1] = name}
InstanceFits(c, t) ==
  /\ Fits(c.balance, t.bal)
  /\ FitsIfSaid(c.creator, t.creator) /\ FitsIfSaid(c.royalties, t.roy) /\ FitsIfSaid(c.hash, t.hash)
  /\ FitsIfSaid(c.uri, t.uri) /\ FitsIfSaid(c.attributes, t.attr)
FrozenFits(c, frozen) == c.un \/ c.star \/ (c.v # <<>>) = frozen
TokenFits(name, c, r) ==
  LET said == {<<name, c.instances[i].nonce.v>> : i \in 1 .. Len(c.instances)} IN
  /\ \A i \in 1 .. Len(c.instances) : InstanceFits(c.instances[i], Get(r.tok, <<name, c.instances[i].nonce.v>>, NoInstance))
  /\ Held(r, name) \subseteq said
  /\ Fits(c.lastNonce, Get(r.last, name, <<>>))
  /\ ToSet(c.roles) = ToSet(Get(r.roles, name, <<>>))
  /\ IF Held(r, name) = {} THEN FrozenFits(c.frozen, FALSE) ELSE \A k \in Held(r, name) : FrozenFits(c.frozen, r.tok[k].frozen)
TokensFit(c, r) ==
  \/ c.any
  \/ LET said == {c.list[i].key.v : i \in 1 .. Len(c.list)} IN
     /\ \A i \in 1 .. Len(c.list) : TokenFits(c.list[i].key.v, c.list[i].val, r)
     /\ c.more \/ ({k[1] : k \in DOMAIN r.tok} \cup DOMAIN r.last \cup DOMAIN r.roles) \subseteq said
AccountFits(c, r) ==
  /\ Fits(c.nonce, r.nonce) /\ Fits(c.balance, r.bal) /\ Fits(c.username, r.user) /\ Fits(c.code, r.code)
  /\ FitsIfSaid(c.owner, r.owner) /\ FitsIfSaid(c.asyncCallData, r.async)
  /\ StorageFits(c.storage, r.st) /\ TokensFit(c.esdt, r)
StateFits(c, w) ==
  /\ \A i \in 1 .. Len(c.list) : c.list[i].key.v \in DOMAIN w.a /\ AccountFits(c.list[i].val, w.a[c.list[i].key.v])
  /\ c.more \/ DOMAIN w.a \subseteq {c.list[i].key.v : i \in 1 .. Len(c.list)}
----------------------------------------------------------------------------
(* The result of a transaction: [code, msg, data, logs, gas, refund].           *)
LogFits(c, l) ==
  /\ Fits(c.address, l.a) /\ Fits(c.identifier, l.id) /\ Fits(c.data, l.data)
  /\ Len(c.topics) = Len(l.topics) /\ \A i \in 1 .. Len(l.topics) : Fits(c.topics[i], l.topics[i])
ResultFits(c, o, checkGas) ==
  /\ c.status.star \/ (~c.status.v.neg /\ c.status.v.mag = o.code)
  /\ Fits(c.message, o.msg)
  /\ Len(c.out) = Len(o.data) /\ \A i \in 1 .. Len(o.data) : Fits(c.out[i], o.data[i])
  /\ Fits(c.refund, o.refund)
  /\ ~checkGas \/ FitsIfSaid(c.gas, o.gas)
  /\ c.logs.star \/ (Len(c.logs.list) = Len(o.logs) /\ \A i \in 1 .. Len(o.logs) : LogFits(c.logs.list[i], o.logs[i]))
----------------------------------------------------------------------------
(* Transactions. The contracts of these scenarios do what their function says:  *)
(* e(cho), s(tore), l(og), p(ay), f(ail), i(nfo), b(urn all gas), init.         *)
Result(code, msg, data, logs) == [code |-> code, msg |-> msg, data |-> data, logs |-> logs, gas |-> <<0>>, refund |-> <<>>]
Fine == <<>>  NotFound == <<1>>  UserError == <<4>>  OutOfGas == <<5>>  OutOfFunds == <<7>>  ExecutionFailed == <<10>>
EditA(w, a, F(_)) == [w EXCEPT !.a = Put(@, a, F(w.a[a]))]
Gain(w, a, v) == [w EXCEPT !.a = Put(@, a, [Get(w.a, a, NewAcc) EXCEPT !.bal = Plus2(@, v)])]
Lose(w, a, v) == [w EXCEPT !.a = Put(@, a, [w.a[a] EXCEPT !.bal = Minus2(@, v)])]
HasSender(t) == t.type \in {"scCall", "scDeploy", "transfer"}
Args(t) == [i \in 1 .. Len(t.arguments) |-> t.arguments[i].v]
StoreAll(w, a, args) ==
  LET F[i \in 0 .. Len(args) \div 2] == IF i = 0 THEN w.a[a].st ELSE PutOrDel(F[i - 1], args[2 * i - 1], args[2 * i])
  IN [w EXCEPT !.a = Put(@, a, [w.a[a] EXCEPT !.st = F[Len(args) \div 2]])]
(* bytes released from storage are refunded, one unit each *)
Released(st, args) ==
  LET F[i \in 0 .. Len(args) \div 2] == IF i = 0 THEN st ELSE PutOrDel(F[i - 1], args[2 * i - 1], args[2 * i])
      R[i \in 0 .. Len(args) \div 2] == IF i = 0 THEN 0 ELSE R[i - 1] + Max({0, Len(Get(F[i - 1], args[2 * i - 1], <<>>)) - Len(args[2 * i])})
  IN ToBE(FromNat(R[Len(args) \div 2]))
HashOf(id) == IF Len(id) >= 32 THEN SubSeq(id, 1, 32) ELSE id \o [i \in 1 .. 32 - Len(id) |-> 46]
(* what a contract does, called in the state after the payment *)
Behave(w, self, caller, t, id) ==
  LET f == t.function.o  args == Args(t)
      esdt == ~IsNone(t.esdt)
      info == <<caller, t.value.v, self, HashOf(id) \o [i \in 1 .. 8 |-> 0],
                IF t.type = "scQuery" THEN S("unlimited") ELSE IF ~esdt THEN <<>> ELSE IF t.esdt.nonce.v = <<>> THEN One ELSE <<2>> >>   \* what moving the tokens cost
              \o (IF esdt THEN <<t.esdt.tokenIdentifier.v, t.esdt.value.v, t.esdt.nonce.v, IF t.esdt.nonce.v = <<>> THEN <<>> ELSE One>> ELSE <<>>)
  IN CASE f = "e" -> [w |-> w, o |-> Result(Fine, <<>>, args, <<>>)]
       [] f = "s" -> [w |-> StoreAll(w, self, args), o |-> [Result(Fine, <<>>, <<>>, <<>>) EXCEPT !.refund = Released(w.a[self].st, args)]]
       [] f = "l" -> [w |-> w, o |-> Result(Fine, <<>>, <<>>,
                        IF args = <<>> THEN <<>>
                        ELSE << [a |-> self, id |-> IF Len(args) > 1 THEN args[2] ELSE <<>>, topics |-> SubSeq(args, 3, Len(args)), data |-> args[1]] >>)]
       [] f = "p" -> (IF AtLeast(w.a[self].bal, args[2])
                      THEN [w |-> Gain(Lose(w, self, args[2]), args[1], args[2]), o |-> Result(Fine, <<>>, <<>>, <<>>)]
                      ELSE [w |-> w, o |-> Result(ExecutionFailed, S("failed transfer (insufficient funds)"), <<>>, <<>>)])
       [] f = "f" -> [w |-> w, o |-> Result(UserError, args[1], <<>>, <<>>)]
       [] f = "i" -> [w |-> w, o |-> Result(Fine, <<>>, info, <<>>)]
       [] f = "b" -> [w |-> w, o |-> Result(OutOfGas, S("not enough gas"), <<>>, <<>>)]
       [] OTHER -> [w |-> w, o |-> Result(NotFound, S("invalid function (not found)"), <<>>, <<>>)]
(* tokens sent along *)
MovesTokens(w, t) ==
  LET k == <<t.esdt.tokenIdentifier.v, t.esdt.nonce.v>>
      s == Get(w.a[t.from.v].tok, k, NoInstance)
      d == IF t.to.v \in DOMAIN w.a THEN Get(w.a[t.to.v].tok, k, NoInstance) ELSE NoInstance
  IN t.esdt.value.v # <<>> /\ AtLeast(s.bal, t.esdt.value.v) /\ ~s.frozen /\ ~d.frozen /\ (k[2] = <<>> \/ t.from.v # t.to.v)
PutTok(f, k, x) == IF x.bal = <<>> THEN Del(f, k) ELSE Put(f, k, x)
WithTokens(w, t) ==
  LET k == <<t.esdt.tokenIdentifier.v, t.esdt.nonce.v>>
      v == t.esdt.value.v
      s == w.a[t.from.v].tok[k]
      w1 == [w EXCEPT !.a = Put(@, t.from.v, [w.a[t.from.v] EXCEPT !.tok = PutTok(@, k, [s EXCEPT !.bal = Minus2(@, v)])])]
      d == Get(w1.a[t.to.v].tok, k, [s EXCEPT !.bal = <<>>])
  IN [w1 EXCEPT !.a = Put(@, t.to.v, [w1.a[t.to.v] EXCEPT !.tok = PutTok(@, k, [d EXCEPT !.bal = Plus2(@, v)])])]
(* A contract is created at the address announced for this creator and nonce.   *)
NewAddressOf(w, from, nonce) ==
  LET is == {i \in 1 .. Len(w.mocks) : w.mocks[i][1] = from /\ w.mocks[i][2] = nonce} IN
  IF is = {} THEN <<>> ELSE w.mocks[Min(is)][3]
(* The state after a transaction, the result, whether it could be run. A failed one changes no storage. *)
Unrun(w) == [w |-> w, ok |-> FALSE, o |-> Result(Fine, <<>>, <<>>, <<>>)]
Ran(w, o) == [w |-> w, ok |-> TRUE, o |-> o]
OrBack(before, x) == IF x.o.code = Fine THEN Ran(x.w, x.o) ELSE Ran(before, x.o)
CallOf(paid, w, self, caller, t, id) ==
  IF self \notin DOMAIN w.a \/ w.a[self].code = <<>> THEN Unrun(paid)
  ELSE LET w1 == IF HasSender(t) THEN Gain(Lose(w, caller, t.value.v), self, t.value.v) ELSE w
       IN OrBack(paid, Behave(w1, self, caller, t, id))
RunTx(w, t, id) ==
  LET cost == Times2(t.gasLimit.v, t.gasPrice.v)
      from == t.from.v
      paid == IF HasSender(t) THEN [w EXCEPT !.a = Put(@, from, [w.a[from] EXCEPT !.nonce = Plus2(@, One), !.bal = Minus2(@, cost)])] ELSE w
      tokens == HasSender(t) /\ ~IsNone(t.esdt)
      sent == IF tokens THEN WithTokens(paid, t) ELSE paid
      new == NewAddressOf(w, from, w.a[from].nonce)
  IN IF HasSender(t) /\ (from \notin DOMAIN w.a \/ ~AtLeast(w.a[from].bal, cost)) THEN Unrun(w)
     ELSE IF tokens /\ ~MovesTokens(paid, t) THEN Unrun(paid)
     ELSE IF HasSender(t) /\ ~AtLeast(sent.a[from].bal, t.value.v) THEN Ran(paid, Result(OutOfFunds, <<>>, <<>>, <<>>))
     ELSE CASE t.type = "transfer" -> Ran(Gain(Lose(sent, from, t.value.v), t.to.v, t.value.v), Result(Fine, <<>>, <<>>, <<>>))
            [] t.type = "validatorReward" ->
                 (IF t.to.v \notin DOMAIN w.a THEN Unrun(w)
                  ELSE LET g == Gain(w, t.to.v, t.value.v) IN
                       Ran([g EXCEPT !.a = Put(@, t.to.v, [g.a[t.to.v] EXCEPT !.st = PutOrDel(@, RewardKey, Plus2(Get(@, RewardKey, <<>>), t.value.v))])],
                           Result(Fine, <<>>, <<>>, <<>>)))
            [] t.type = "scCall" -> CallOf(paid, sent, t.to.v, from, t, id)
            [] t.type = "scQuery" -> CallOf(w, w, t.to.v, t.to.v, t, id)
            [] OTHER ->
                 LET g == Gain(Lose(paid, from, t.value.v), new, t.value.v)
                     c == [g EXCEPT !.a = Put(@, new, [g.a[new] EXCEPT !.code = t.contractCode.v, !.owner = from])]
                 IN Ran(StoreAll(c, new, Args(t)), [Result(Fine, <<>>, <<>>, <<>>) EXCEPT !.refund = Released(c.a[new].st, Args(t))])
----------------------------------------------------------------------------
(* Steps: gas is what a transaction left, where it is known; docs are the files of external steps. *)
Executable(ty) == ty \in {"scCall", "scDeploy", "scQuery"}
RECURSIVE RunSteps(_, _, _, _)
RunStep(w, s, checkGas, gas, docs) ==
  CASE s.step = "setState" -> LET x == SetState(w, s) IN [w |-> x.w, ok |-> x.ok, o |-> Result(Fine, <<>>, <<>>, <<>>)]
    [] s.step = "checkState" -> [w |-> w, ok |-> StateFits(s.accounts, w), o |-> Result(Fine, <<>>, <<>>, <<>>)]
    [] s.step = "dumpState" -> Ran(w, Result(Fine, <<>>, <<>>, <<>>))
    [] s.step = "externalSteps" ->
         (IF ~(\E i \in 1 .. Len(docs) : docs[i].path = s.path) THEN Unrun(w)
          ELSE LET d == docs[CHOOSE i \in 1 .. Len(docs) : docs[i].path = s.path].doc
                   sc == Eval("scenario", d)
               IN IF ~sc.ok THEN Unrun(w) ELSE RunSteps(w, sc.v.steps, sc.v.checkGas, docs))
    [] OTHER ->
         LET x == RunTx(w, s.tx, s.txId.v) IN
         IF ~x.ok THEN x
         ELSE [x EXCEPT !.ok = IsNone(s.expect) \/ ResultFits(s.expect, [x.o EXCEPT !.gas = gas], checkGas)]
RunSteps(w, steps, checkGas, docs) ==
  LET F[i \in 0 .. Len(steps)] ==
        IF i = 0 THEN Ran(w, Result(Fine, <<>>, <<>>, <<>>))
        ELSE LET x == F[i - 1] IN IF ~x.ok THEN x ELSE TLCEval(RunStep(x.w, steps[i], checkGas, <<0>>, docs))
  IN F[Len(steps)]
(* A test starts from nothing; its accounts need not be sound. *)
RunTest(t) ==
  LET w0 == [WithAccounts(Start, t.pre, FALSE).w EXCEPT !.hashes = [i \in 1 .. Len(t.blockHashes) |-> t.blockHashes[i].v]]
      Txs(w, b) ==
        LET F[i \in 0 .. Len(b.transactions)] ==
              IF i = 0 THEN [w |-> w, ok |-> TRUE]
              ELSE LET x == F[i - 1] IN
                   IF ~x.ok THEN x
                   ELSE LET y == RunTx(x.w, b.transactions[i], <<48 + i - 1>>)
                        IN [w |-> y.w, ok |-> y.ok /\ ResultFits(b.results[i], y.o, t.checkGas)]
        IN F[Len(b.transactions)]
      G[i \in 0 .. Len(t.blocks)] == IF i = 0 THEN [w |-> w0, ok |-> TRUE] ELSE LET x == G[i - 1] IN IF ~x.ok THEN x ELSE Txs(x.w, t.blocks[i])
      e == G[Len(t.blocks)]
  IN [e EXCEPT !.ok = @ /\ StateFits(t.postState, e.w)]
=============================================================================
