------------------------------ MODULE Scenario ------------------------------
(* The scenario and test files of mandos: what a JSON document means, and      *)
(* which documents mean nothing.                                               *)
(* Nodes: [k |-> "s", v |-> text, c |-> its bytes], [k |-> "b", v |-> truth],   *)
(* [k |-> "l", v |-> nodes], [k |-> "m", v |-> seq of [key, c, val]].            *)
EXTENDS Expr, FiniteSets, TLC

None == <<>>
Empty == [k |-> "s", v |-> ""]
RECURSIVE Strip(_)
Strip(n) ==
  CASE n.k = "l" -> [k |-> "l", v |-> [i \in 1 .. Len(n.v) |-> Strip(n.v[i])]]
    [] n.k = "m" -> [k |-> "m", v |-> [i \in 1 .. Len(n.v) |-> [key |-> n.v[i].key, val |-> Strip(n.v[i].val)]]]
    [] OTHER -> [k |-> n.k, v |-> n.v]
RECURSIVE BytesOf(_)
BytesOf(n) ==
  LET all(items) == FoldLeft(LAMBDA acc, x : IF acc.ok THEN Join2(acc, BytesOf(x)) ELSE acc, Ok(<<>>), items) IN
  CASE n.k = "s" -> Interp(n.c, <<>>)
    [] n.k = "l" -> all(n.v)
    [] n.k = "m" -> LET s == SortSeq(n.v, LAMBDA a, b : BytesLess(a.c, b.c)) IN all([i \in 1 .. Len(s) |-> s[i].val])
    [] OTHER -> Bad
IsText(n) == n.k = "s"
Star(n) == IsText(n) /\ n.v = "*"
----------------------------------------------------------------------------
(* Values keep the text they were written as (but nothing is nothing, however written). *)
V(bytes, text) == [v |-> bytes, o |-> text]
VB(bytes, text, none) == V(bytes, IF bytes = <<>> THEN none ELSE text)
C(bytes, text, star, un) == [v |-> bytes, o |-> text, star |-> star, un |-> un]
AsText(n) == IF IsText(n) THEN Ok(n.v) ELSE Bad
RawText(n) == IF IsText(n) THEN Ok(V(n.c, n.v)) ELSE Bad   \* texts whose bytes matter
AsBytes(n) == IF ~IsText(n) THEN Bad ELSE LET r == Interp(n.c, <<>>) IN IF r.ok THEN Ok(V(r.v, n.v)) ELSE Bad
AsNat(n) == LET r == AsBytes(n) IN IF r.ok THEN Ok(V(ToBE(FromBE(r.v.v)), n.v)) ELSE Bad
AsU64(n) == LET r == AsNat(n) IN IF r.ok /\ Len(r.v.v) <= 8 THEN r ELSE Bad
AsAddress(n) == LET r == AsBytes(n) IN IF r.ok /\ Len(r.v.v) = 32 THEN r ELSE Bad
AsTree(n) == LET r == BytesOf(n) IN IF r.ok THEN Ok(VB(r.v, Strip(n), Empty)) ELSE Bad
AnyTree(n) == LET r == BytesOf(n) IN IF r.ok THEN Ok(V(r.v, Strip(n))) ELSE Bad
AsBool(n) == IF n.k = "b" THEN Ok(n.v) ELSE Bad
Chk(n, r, text) == IF Star(n) THEN Ok(C(<<>>, text, TRUE, FALSE)) ELSE IF r.ok THEN Ok(C(r.v.v, r.v.o, FALSE, FALSE)) ELSE Bad
CheckNat(n) == Chk(n, AsNat(n), "*")
CheckU64(n) == Chk(n, AsU64(n), "*")
CheckBytes(n) == Chk(n, AnyTree(n), [k |-> "s", v |-> "*"])
(* The status is signed: its bytes are read as two's complement.               *)
Signed(b) == LET x == FromTwos(b) IN [neg |-> x.neg, mag |-> ToBE(x.mag)]
CheckInt(n) == LET r == AsBytes(n) IN
  IF Star(n) THEN Ok(C(Signed(<<>>), "*", TRUE, FALSE)) ELSE IF r.ok THEN Ok(C(Signed(r.v.v), n.v, FALSE, FALSE)) ELSE Bad
----------------------------------------------------------------------------
(* Objects: a field is <<name, type, default>>; other names are errors.         *)
V0 == V(<<>>, "")
T0 == V(<<>>, Empty)
C0 == C(<<>>, "", FALSE, TRUE)
CI0 == C(Signed(<<>>), "", FALSE, TRUE)
CB0 == C(<<>>, Empty, FALSE, TRUE)
Logs0 == [un |-> TRUE, star |-> TRUE, hash |-> "", list |-> <<>>]
Has(n, f) == \E i \in 1 .. Len(n.v) : n.v[i].key = f
At(n, f) == n.v[CHOOSE i \in 1 .. Len(n.v) : n.v[i].key = f].val
Names(fs) == {fs[i][1] : i \in 1 .. Len(fs)}
Only(n, names) == [n EXCEPT !.v = SelectSeq(n.v, LAMBDA e : e.key \in names)]
Extend(r, f, x) == [g \in DOMAIN r \cup {f} |-> IF g = f THEN x ELSE r[g]]
InstF == << <<"nonce", "u64", V0>>, <<"balance", "nat", V0>>, <<"creator", "creator", V0>>, <<"royalties", "royalties", V0>>,
            <<"hash", "bytes", V0>>, <<"uri", "tree", T0>>, <<"attributes", "bytes", V0>> >>
EsdtF == << <<"instances", "insts", None>>, <<"lastNonce", "u64", V0>>, <<"roles", "texts", None>>, <<"frozen", "u64", V0>> >>
CInstF == << <<"nonce", "cu64", C0>>, <<"balance", "cnat", C0>>, <<"creator", "cbytes", CB0>>, <<"royalties", "croyalties", C0>>,
             <<"hash", "cbytes", CB0>>, <<"uri", "cbytes", CB0>>, <<"attributes", "cbytes", CB0>> >>
CEsdtF == << <<"instances", "cinsts", None>>, <<"lastNonce", "cu64", C0>>, <<"roles", "texts", None>>, <<"frozen", "cu64", C0>> >>
AccountF == << <<"comment", "text", "">>, <<"shard", "u64", V0>>, <<"nonce", "u64", V0>>, <<"balance", "nat", V0>>, <<"esdt", "esdts", None>>,
               <<"username", "bytes", V0>>, <<"storage", "storage", None>>, <<"code", "bytes", V0>>, <<"owner", "bytes", V0>>,
               <<"asyncCallData", "rawtext", V0>> >>
CAccountF == << <<"comment", "text", "">>, <<"nonce", "cu64", C0>>, <<"balance", "cnat", C0>>, <<"esdt", "cesdts", [any |-> FALSE, more |-> FALSE, list |-> <<>>]>>,
                <<"username", "cbytes", CB0>>, <<"storage", "cstorage", [any |-> FALSE, more |-> FALSE, list |-> <<>>]>>, <<"code", "cbytes", CB0>>,
                <<"owner", "cbytes", CB0>>, <<"asyncCallData", "cbytes", CB0>> >>
BlockF == << <<"blockTimestamp", "u64", V0>>, <<"blockNonce", "u64", V0>>, <<"blockRound", "u64", V0>>, <<"blockEpoch", "u64", V0>>,
             <<"blockRandomSeed", "seed", None>> >>
NewAddressF == << <<"creatorAddress", "address", V0>>, <<"creatorNonce", "u64", V0>>, <<"newAddress", "address", V0>> >>
LogF == << <<"address", "cbytes", CB0>>, <<"identifier", "cbytes", CB0>>, <<"topics", "cbyteslist", None>>, <<"data", "cbytes", CB0>> >>
ResultF == << <<"out", "cbyteslist", None>>, <<"status", "cint", CI0>>, <<"message", "cbytes", CB0>>, <<"logs", "logs", Logs0>>,
              <<"gas", "cu64", C0>>, <<"refund", "cnat", C0>> >>
TxEsdtF == << <<"tokenIdentifier", "bytes", V0>>, <<"nonce", "u64", V0>>, <<"value", "nat", V0>> >>
TxF == << <<"nonce", "u64", V0>>, <<"from", "address", V0>>, <<"to", "address", V0>>, <<"function", "rawtext", V0>>, <<"value", "nat", V0>>,
          <<"esdt", "txesdt", None>>, <<"arguments", "trees", None>>, <<"contractCode", "bytes", V0>>, <<"gasPrice", "u64", V0>>, <<"gasLimit", "u64", V0>> >>
ExternalF == << <<"step", "text", "">>, <<"comment", "text", "">>, <<"path", "text", "">> >>
SetF == << <<"step", "text", "">>, <<"comment", "text", "">>, <<"accounts", "accounts", None>>, <<"newAddresses", "newaddrs", None>>,
           <<"previousBlockInfo", "block", None>>, <<"currentBlockInfo", "block", None>>, <<"blockHashes", "byteslist", None>> >>
CheckF == << <<"step", "text", "">>, <<"comment", "text", "">>, <<"accounts", "caccounts", None>> >>
DumpF == << <<"step", "text", "">>, <<"comment", "text", "">> >>
ScenarioF == << <<"name", "text", "">>, <<"comment", "text", "">>, <<"checkGas", "bool", TRUE>>, <<"gasSchedule", "schedule", "default">>, <<"steps", "steps", None>> >>
HeaderF == << <<"gasLimit", "nat", V0>>, <<"number", "nat", V0>>, <<"difficulty", "nat", V0>>, <<"timestamp", "u64", V0>>, <<"coinbase", "nat", V0>> >>
BlockOfTestF == << <<"results", "results", None>>, <<"transactions", "testtxs", None>>, <<"blockHeader", "header", None>> >>
TestF == << <<"checkGas", "bool", TRUE>>, <<"pre", "accounts", None>>, <<"blocks", "blocks", None>>, <<"network", "text", "">>,
            <<"blockHashes", "byteslist", None>>, <<"postState", "caccounts", None>> >>
Schedules == {"default", "dummy", "v1", "v2", "v3"}
TxSteps == {"scCall", "scDeploy", "scQuery", "transfer", "validatorReward"}
(* What a transaction of each kind may say.  *)
Forbidden(ty) == CASE ty = "scQuery" -> {"from", "value", "esdt", "gasPrice", "gasLimit"}
                   [] ty = "validatorReward" -> {"from", "esdt", "gasPrice", "gasLimit"}
                   [] OTHER -> {}
Contractual(ty) == ty \in {"scCall", "scDeploy", "scQuery"}

RECURSIVE Eval(_, _)
RecOf(fs, n) ==
  IF n.k # "m" \/ \E i \in 1 .. Len(n.v) : n.v[i].key \notin Names(fs) THEN Bad
  ELSE LET r == TLCEval([i \in 1 .. Len(fs) |-> IF Has(n, fs[i][1]) THEN Eval(fs[i][2], At(n, fs[i][1])) ELSE Ok(fs[i][3])])
           ix(f) == CHOOSE i \in 1 .. Len(fs) : fs[i][1] = f
       IN IF \A i \in 1 .. Len(fs) : r[i].ok THEN Ok([f \in Names(fs) |-> r[ix(f)].v]) ELSE Bad
ListOf(ty, n) ==
  IF n.k # "l" THEN Bad
  ELSE LET r == TLCEval([i \in 1 .. Len(n.v) |-> Eval(ty, n.v[i])]) IN IF \A i \in 1 .. Len(n.v) : r[i].ok THEN Ok([i \in 1 .. Len(n.v) |-> r[i].v]) ELSE Bad
(* entries of an object, as a list; keys are expressions *)
EntriesOf(keyty, ty, n) ==
  IF n.k # "m" THEN Bad
  ELSE LET key(i) == Eval(keyty, [k |-> "s", v |-> n.v[i].key, c |-> n.v[i].c])
           r == TLCEval([i \in 1 .. Len(n.v) |-> [key |-> key(i), val |-> Eval(ty, n.v[i].val)]])
       IN IF \A i \in 1 .. Len(n.v) : r[i].key.ok /\ r[i].val.ok THEN Ok([i \in 1 .. Len(n.v) |-> [key |-> r[i].key.v, val |-> r[i].val.v]]) ELSE Bad
(* the same for checks, where "+" allows more entries *)
Without1(n, f) == [n EXCEPT !.v = SelectSeq(n.v, LAMBDA e : e.key # f)]
CEntriesOf(keyty, ty, n) ==
  IF n.k # "m" THEN Bad
  ELSE LET r == EntriesOf(keyty, ty, Without1(n, "+")) IN IF r.ok THEN Ok([any |-> FALSE, more |-> Has(n, "+"), list |-> r.v]) ELSE Bad
OrAny(keyty, ty, n) == IF Star(n) THEN Ok([any |-> TRUE, more |-> FALSE, list |-> <<>>]) ELSE CEntriesOf(keyty, ty, n)
(* Tokens: a balance, or an object with the fields of one instance and the rest *)
InstDefault(instF) == LET ix(f) == CHOOSE i \in 1 .. Len(instF) : instF[i][1] = f IN [f \in Names(instF) |-> instF[ix(f)][3]]
Token(balance, instF, instTy, restF, n) ==
  IF IsText(n)
  THEN LET b == Eval(balance, n)  rest == RecOf(restF, [k |-> "m", v |-> <<>>]) IN
       IF b.ok THEN Ok([rest.v EXCEPT !.instances = <<[InstDefault(instF) EXCEPT !.balance = b.v]>>]) ELSE Bad
  ELSE IF n.k # "m" THEN Bad
  ELSE LET flat == Only(n, Names(instF))
           other == [n EXCEPT !.v = SelectSeq(n.v, LAMBDA e : e.key \notin Names(instF))]
           first == Eval(instTy, flat)
           rest == RecOf(restF, other)
       IN IF ~first.ok \/ ~rest.ok THEN Bad
          ELSE IF flat.v = <<>> THEN rest ELSE Ok([rest.v EXCEPT !.instances = <<first.v>> \o @])
Transaction(ty, n) ==
  IF n.k # "m" THEN Bad
  ELSE LET deployTo == ty = "scDeploy" /\ Has(n, "to")
           r == RecOf(TxF, IF deployTo THEN Without1(n, "to") ELSE n)
       IN IF ~r.ok \/ (\E f \in Forbidden(ty) : Has(n, f)) THEN Bad
          ELSE IF deployTo /\ ~(IsText(At(n, "to")) /\ At(n, "to").v = "") THEN Bad
          ELSE IF ty \notin {"scCall", "scQuery"} /\ r.v.function.o # "" THEN Bad
          ELSE IF ty = "transfer" /\ r.v.arguments # None THEN Bad
          ELSE IF ty # "scDeploy" /\ r.v.contractCode.v # <<>> THEN Bad
          ELSE Ok(Extend(r.v, "type", ty))
TxStep(ty, n) ==
  LET fs == {"step", "txId", "comment", "tx", "expect"}
      txt(f) == IF Has(n, f) THEN RawText(At(n, f)) ELSE Ok(V0)
  IN IF (\E i \in 1 .. Len(n.v) : n.v[i].key \notin fs) \/ ~Has(n, "tx") THEN Bad
     ELSE LET tx == Transaction(ty, At(n, "tx"))
              ex == IF Has(n, "expect") THEN RecOf(ResultF, At(n, "expect")) ELSE Ok(None)
          IN IF ~tx.ok \/ ~ex.ok \/ ~txt("txId").ok \/ ~txt("comment").ok \/ (Has(n, "expect") /\ ~Contractual(ty)) THEN Bad
             ELSE Ok([step |-> ty, txId |-> txt("txId").v, comment |-> txt("comment").v.o, tx |-> tx.v, expect |-> ex.v])
Step(n) ==
  IF n.k # "m" \/ ~Has(n, "step") \/ ~IsText(At(n, "step")) THEN Bad
  ELSE LET ty == At(n, "step").v IN
  CASE ty = "externalSteps" -> RecOf(ExternalF, n)
    [] ty = "setState" -> RecOf(SetF, n)
    [] ty = "checkState" -> IF Has(n, "accounts") THEN RecOf(CheckF, n) ELSE Bad
    [] ty = "dumpState" -> RecOf(DumpF, n)
    [] ty \in TxSteps -> TxStep(ty, n)
    [] OTHER -> Bad
Block(n) ==                             \* as many results as transactions
  LET r == RecOf(BlockOfTestF, n) IN IF r.ok /\ Len(r.v.results) = Len(r.v.transactions) THEN r ELSE Bad
TestTx(n) == Transaction(IF n.k = "m" /\ Has(n, "to") /\ IsText(At(n, "to")) /\ At(n, "to").v = "" THEN "scDeploy" ELSE "scCall", n)
Test(n) == LET r == RecOf(TestF, n) IN IF r.ok /\ Has(n, "postState") THEN r ELSE Bad
AtMost(r, max) == IF r.ok /\ Le(FromBE(r.v.v), max) THEN r ELSE Bad
FullRoyalties == FromNat(10000)
Eval(ty, n) == TLCEval(
  CASE ty = "text" -> AsText(n)
    [] ty = "rawtext" -> RawText(n)
    [] ty = "texts" -> ListOf("text", n)
    [] ty = "bool" -> AsBool(n)
    [] ty = "u64" -> AsU64(n)
    [] ty = "nat" -> AsNat(n)
    [] ty = "bytes" -> (LET r == AsBytes(n) IN IF r.ok THEN Ok(VB(r.v.v, r.v.o, "")) ELSE Bad)
    [] ty = "byteslist" -> ListOf("bytes", n)
    [] ty = "address" -> AsAddress(n)
    [] ty = "tree" -> AsTree(n)
    [] ty = "trees" -> ListOf("tree", n)
    [] ty = "seed" -> (LET r == AsTree(n) IN IF r.ok /\ Len(r.v.v) = 48 THEN r ELSE Bad)
    [] ty = "cu64" -> CheckU64(n)
    [] ty = "cnat" -> CheckNat(n)
    [] ty = "cint" -> CheckInt(n)
    [] ty = "cbytes" -> CheckBytes(n)
    [] ty = "cbyteslist" -> ListOf("cbytes", n)
    [] ty = "creator" -> AsAddress(n)
    [] ty = "royalties" -> AtMost(AsU64(n), FullRoyalties)
    [] ty = "croyalties" -> AtMost(CheckU64(n), FullRoyalties)
    [] ty = "inst" -> RecOf(InstF, n)
    [] ty = "insts" -> ListOf("inst", n)
    [] ty = "cinst" -> RecOf(CInstF, n)
    [] ty = "cinsts" -> ListOf("cinst", n)
    [] ty = "esdt" -> Token("nat", InstF, "inst", EsdtF, n)
    [] ty = "cesdt" -> Token("cnat", CInstF, "cinst", CEsdtF, n)
    [] ty = "esdts" -> EntriesOf("bytes", "esdt", n)
    [] ty = "cesdts" -> OrAny("bytes", "cesdt", n)
    [] ty = "storage" -> EntriesOf("bytes", "tree", n)
    [] ty = "cstorage" -> OrAny("bytes", "cbytes", n)
    [] ty = "account" -> RecOf(AccountF, n)
    [] ty = "accounts" -> EntriesOf("address", "account", n)
    [] ty = "caccount" -> RecOf(CAccountF, n)
    [] ty = "caccounts" -> CEntriesOf("address", "caccount", n)
    [] ty = "block" -> RecOf(BlockF, n)
    [] ty = "newaddr" -> RecOf(NewAddressF, n)
    [] ty = "newaddrs" -> ListOf("newaddr", n)
    [] ty = "log" -> RecOf(LogF, n)
    [] ty = "logs" -> (IF Star(n) THEN Ok([un |-> FALSE, star |-> TRUE, hash |-> "", list |-> <<>>])
                       ELSE IF IsText(n) THEN Ok([un |-> FALSE, star |-> FALSE, hash |-> n.v, list |-> <<>>])
                       ELSE LET r == ListOf("log", n) IN IF r.ok THEN Ok([un |-> FALSE, star |-> FALSE, hash |-> "", list |-> r.v]) ELSE Bad)
    [] ty = "txesdt" -> RecOf(TxEsdtF, n)
    [] ty = "schedule" -> (IF IsText(n) /\ n.v \in Schedules THEN Ok(n.v) ELSE Bad)
    [] ty = "step" -> Step(n)
    [] ty = "steps" -> ListOf("step", n)
    [] ty = "scenario" -> RecOf(ScenarioF, n)
    [] ty = "result" -> RecOf(ResultF, n)
    [] ty = "results" -> ListOf("result", n)
    [] ty = "testtx" -> TestTx(n)
    [] ty = "testtxs" -> ListOf("testtx", n)
    [] ty = "header" -> RecOf(HeaderF, n)
    [] ty = "testblock" -> Block(n)
    [] ty = "blocks" -> ListOf("testblock", n)
    [] ty = "test" -> Test(n)
    [] ty = "tests" -> (IF n.k # "m" THEN Bad
                        ELSE LET r == TLCEval([i \in 1 .. Len(n.v) |-> Test(n.v[i].val)]) IN
                             IF \A i \in 1 .. Len(n.v) : r[i].ok THEN Ok([i \in 1 .. Len(n.v) |-> [name |-> n.v[i].key, test |-> r[i].v]]) ELSE Bad))
(* A test with one block is a scenario: the accounts are set, the transactions run, the state is checked. *)
Digits10(n) == IF n < 10 THEN SubSeq("0123456789", n + 1, n + 1) ELSE SubSeq("0123456789", n \div 10 + 1, n \div 10 + 1) \o SubSeq("0123456789", (n % 10) + 1, (n % 10) + 1)
Converted(tests) ==
  IF Len(tests) # 1 \/ Len(tests[1].test.blocks) # 1 THEN Bad
  ELSE LET t == tests[1].test
           b == t.blocks[1]
           set == [step |-> "setState", comment |-> "", accounts |-> t.pre, newAddresses |-> None, previousBlockInfo |-> None,
                   currentBlockInfo |-> None, blockHashes |-> t.blockHashes]
           tx(i) == [step |-> b.transactions[i].type, txId |-> V([j \in 1 .. Len(Digits10(i)) |-> 48 + (IF j = Len(Digits10(i)) THEN i % 10 ELSE i \div 10)], Digits10(i)), comment |-> "", tx |-> b.transactions[i], expect |-> b.results[i]]
           chk == [step |-> "checkState", comment |-> "", accounts |-> t.postState]
       IN Ok([name |-> "", comment |-> "", checkGas |-> t.checkGas, gasSchedule |-> "default",
              steps |-> <<set>> \o [i \in 1 .. Len(b.transactions) |-> tx(i)] \o <<chk>>])
=============================================================================
