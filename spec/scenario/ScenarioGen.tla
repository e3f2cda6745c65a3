---------------------------- MODULE ScenarioGen ----------------------------
(* Documents for replay: every object of the format with every pair of its      *)
(* fields, each with every kind of value, right and wrong.                      *)
EXTENDS Scenario, Json, IOUtils
VARIABLES kind, fi, fa, fj, fb
Sx(t) == [k |-> "s", v |-> t]
Bx(b) == [k |-> "b", v |-> b]
Lx(s) == [k |-> "l", v |-> s]
Mx(s) == [k |-> "m", v |-> s]
E(f, n) == [key |-> f, val |-> n]
A1 == "address:a"
Seed == Lx(<<Sx("keccak256:1"), Sx("str:sixteen_bytes_xx")>>)
Trees == <<Sx(""), Sx("str:ab"), Lx(<<Sx("0x01"), Sx("2")>>), Mx(<<E("b", Sx("1")), E("a", Lx(<<Sx("2")>>))>>), Bx(TRUE)>>
Nats == <<Sx(""), Sx("0"), Sx("1,000"), Sx("0x0100000000000000ff"), Sx("x!"), Lx(<<>>)>>
U64s == <<Sx(""), Sx("0"), Sx("7"), Sx("18446744073709551615"), Sx("18446744073709551616")>>
Samples(ty) ==
  CASE ty \in {"text", "rawtext"} -> <<Sx(""), Sx("words"), Lx(<<Sx("x")>>)>>
    [] ty = "texts" -> <<Lx(<<>>), Lx(<<Sx("r1")>>), Lx(<<Sx("r1"), Sx("r2")>>), Sx("r1"), Lx(<<Bx(TRUE)>>)>>
    [] ty = "bool" -> <<Bx(TRUE), Bx(FALSE), Sx("true")>>
    [] ty = "nat" -> Nats
    [] ty = "u64" -> U64s
    [] ty = "bytes" -> <<Sx(""), Sx("str:ab"), Sx("0xg"), Lx(<<Sx("1")>>)>>
    [] ty = "byteslist" -> <<Lx(<<>>), Lx(<<Sx("0x12"), Sx("str:b")>>), Lx(<<Sx("?")>>), Sx("0x12")>>
    [] ty = "address" -> <<Sx(A1), Sx("sc:c"), Sx(""), Sx("0x1234")>>
    [] ty = "creator" -> <<Sx(A1), Sx(""), Sx("0x1234")>>
    [] ty = "tree" -> Trees
    [] ty = "trees" -> <<Lx(<<>>), Lx(<<Sx("1"), Lx(<<Sx("str:a"), Sx("2")>>)>>), Sx("1"), Lx(<<Bx(FALSE)>>)>>
    [] ty = "seed" -> <<Seed, Sx("0x12")>>
    [] ty = "cu64" -> U64s \o <<Sx("*")>>
    [] ty = "cnat" -> Nats \o <<Sx("*")>>
    [] ty = "cint" -> <<Sx(""), Sx("4"), Sx("-1"), Sx("*"), Sx("!")>>
    [] ty = "cbytes" -> Trees \o <<Sx("*")>>
    [] ty = "cbyteslist" -> <<Lx(<<>>), Lx(<<Sx("*"), Sx(""), Sx("5")>>), Sx("*"), Lx(<<Bx(TRUE)>>)>>
    [] ty = "royalties" -> <<Sx(""), Sx("10000"), Sx("10001")>>
    [] ty = "croyalties" -> <<Sx(""), Sx("0"), Sx("10000"), Sx("10001"), Sx("*")>>
    [] ty = "insts" -> <<Lx(<<>>), Lx(<<Mx(<<>>)>>), Lx(<<Mx(<<E("nonce", Sx("3"))>>)>>), Lx(<<Mx(<<E("balance", Sx("3"))>>), Mx(<<E("nonce", Sx("4")), E("uri", Sx("str:u"))>>)>>), Sx("1")>>
    [] ty = "cinsts" -> <<Lx(<<>>), Lx(<<Mx(<<>>)>>), Lx(<<Mx(<<E("uri", Sx("*"))>>)>>), Lx(<<Mx(<<E("balance", Sx("*"))>>), Mx(<<E("nonce", Sx("4")), E("hash", Sx(""))>>)>>), Sx("1")>>
    [] ty = "esdts" -> <<Mx(<<>>), Mx(<<E("str:T", Sx("5"))>>), Mx(<<E("str:T", Mx(<<>>)), E("0x55", Sx(""))>>), Sx("*")>>
    [] ty = "cesdts" -> <<Mx(<<>>), Mx(<<E("str:T", Sx("5"))>>), Mx(<<E("+", Sx(""))>>), Mx(<<E("+", Sx("")), E("0x55", Sx("*"))>>), Sx("*"), Sx("x")>>
    [] ty = "storage" -> <<Mx(<<>>), Mx(<<E("str:k", Sx("5")), E("", Lx(<<Sx("1")>>))>>), Mx(<<E("?", Sx("5"))>>), Sx("*")>>
    [] ty = "cstorage" -> <<Mx(<<>>), Mx(<<E("+", Sx(""))>>), Mx(<<E("str:k", Sx("*")), E("0x01", Sx("")), E("+", Sx("x"))>>), Mx(<<E("str:k", Sx("5"))>>), Mx(<<E("?", Sx("5"))>>), Sx("*"), Sx("y")>>
    [] ty = "logs" -> <<Lx(<<>>), Sx("*"), Sx(""), Sx("0x1234"), Lx(<<Mx(<<>>)>>), Lx(<<Mx(<<E("address", Sx("*"))>>), Mx(<<E("data", Sx("1"))>>)>>), Lx(<<Sx("x")>>), Mx(<<>>), Sx("1")>>
    [] ty = "txesdt" -> <<Mx(<<>>), Mx(<<E("tokenIdentifier", Sx("str:T")), E("nonce", Sx("1")), E("value", Sx("9"))>>), Mx(<<E("name", Sx("T"))>>), Sx("9")>>
    [] ty = "schedule" -> <<Sx("default"), Sx("dummy"), Sx("v1"), Sx("v2"), Sx("v3"), Sx(""), Sx("v4")>>
    [] ty = "accounts" -> <<Mx(<<>>), Mx(<<E(A1, Mx(<<>>)), E("sc:b", Mx(<<E("nonce", Sx("1"))>>))>>), Mx(<<E("", Mx(<<>>))>>), Lx(<<>>)>>
    [] ty = "caccounts" -> <<Mx(<<>>), Mx(<<E(A1, Mx(<<>>)), E("+", Sx(""))>>), Mx(<<E("+", Sx(""))>>), Mx(<<E("0x01", Mx(<<>>))>>), Sx("*")>>
    [] ty = "block" -> <<Mx(<<>>), Mx(<<E("blockNonce", Sx("1"))>>), Sx("")>>
    [] ty = "newaddrs" -> <<Lx(<<>>), Lx(<<Mx(<<>>)>>), Lx(<<Mx(<<E("creatorAddress", Sx(A1)), E("creatorNonce", Sx("1")), E("newAddress", Sx("sc:n"))>>)>>), Mx(<<>>)>>
    [] ty = "steps" -> <<Lx(<<>>), Lx(<<Mx(<<E("step", Sx("dumpState"))>>), Mx(<<E("step", Sx("externalSteps")), E("path", Sx("p"))>>)>>), Lx(<<Mx(<<>>)>>), Lx(<<Mx(<<E("step", Sx("jump"))>>)>>), Mx(<<>>)>>
    [] ty = "results" -> <<Lx(<<>>), Lx(<<Mx(<<>>)>>), Lx(<<Mx(<<E("gas", Sx("*"))>>), Mx(<<E("status", Sx("4"))>>)>>), Mx(<<>>)>>
    [] ty = "testtxs" -> <<Lx(<<>>), Lx(<<Mx(<<>>)>>), Lx(<<Mx(<<E("to", Sx("")), E("contractCode", Sx("str:c"))>>), Mx(<<E("to", Sx(A1)), E("function", Sx("f"))>>)>>), Lx(<<Sx("")>>)>>
    [] ty = "header" -> <<Mx(<<>>), Mx(<<E("number", Sx("1"))>>), Lx(<<>>)>>
    [] ty = "blocks" -> <<Lx(<<>>), Lx(<<Mx(<<>>)>>), Lx(<<Mx(<<>>), Mx(<<>>)>>), Sx("")>>
(* which of them is a right one that says something *)
Good(ty) ==
  CASE ty \in {"bool", "address", "creator", "seed"} -> 1
    [] ty \in {"nat", "u64", "cu64", "cnat", "croyalties", "cinsts", "insts", "cstorage", "newaddrs", "testtxs", "results", "schedule"} -> 3
    [] ty \in {"tree", "cbytes"} -> 4
    [] ty = "logs" -> 6
    [] OTHER -> 2
----------------------------------------------------------------------------
(* no field, an unknown field, or every choice of one or two fields *)
Object(fs, i, a, j, b) ==
  LET x == IF i = 0 THEN <<>> ELSE <<E(fs[i][1], Samples(fs[i][2])[a])>>
      y == IF j = 0 THEN <<>> ELSE <<E(fs[j][1], Samples(fs[j][2])[b])>>
  IN IF i = 0 /\ j = 0 /\ a = 2 THEN Mx(<<E("unknown", Sx("1"))>>) ELSE Mx(x \o y)
With(es, o) == [o EXCEPT !.v = es \o @]
Tail2(fs) == SubSeq(fs, 2, Len(fs))
StepTag(ty) == <<E("step", Sx(ty))>>
Kinds == {"scenario", "external", "set", "check", "dump", "account", "esdt", "inst", "caccount", "cesdt", "cinst", "block", "newaddr", "result", "log",
          "txesdt", "test", "testblock", "header", "testtx"} \cup TxSteps
Base(k) ==
  CASE k = "scenario" -> ScenarioF [] k = "external" -> Tail2(ExternalF) [] k = "set" -> Tail2(SetF) [] k = "check" -> Tail2(CheckF)
    [] k = "dump" -> Tail2(DumpF) [] k = "account" -> AccountF [] k = "esdt" -> InstF \o EsdtF [] k = "inst" -> InstF
    [] k = "caccount" -> CAccountF [] k = "cesdt" -> CInstF \o CEsdtF [] k = "cinst" -> CInstF
    [] k = "block" -> BlockF [] k = "newaddr" -> NewAddressF [] k = "result" -> ResultF [] k = "log" -> LogF [] k = "txesdt" -> TxEsdtF
    [] k = "test" -> TestF [] k = "testblock" -> BlockOfTestF [] k = "header" -> HeaderF [] k = "testtx" -> TxF
    [] OTHER -> TxF
(* the document around an object *)
Steps1(s) == Mx(<<E("steps", Lx(<<s>>))>>)
SetAccount(a) == Steps1(Mx(StepTag("setState") \o <<E("accounts", Mx(<<E(A1, a)>>))>>))
CheckAccount(a) == Steps1(Mx(StepTag("checkState") \o <<E("accounts", Mx(<<E(A1, a)>>))>>))
Expecting(r) == Steps1(Mx(StepTag("scCall") \o <<E("expect", r), E("tx", Mx(<<>>))>>))
TestOf(es) == Mx(<<E("t", Mx(es \o <<E("postState", Mx(<<>>))>>))>>)
TestBlock(es) == TestOf(<<E("blocks", Lx(<<Mx(es)>>))>>)
Wrap(k, o) ==
  CASE k = "scenario" -> o
    [] k = "external" -> Steps1(With(StepTag("externalSteps"), o))
    [] k = "set" -> Steps1(With(StepTag("setState"), o))
    [] k = "check" -> Steps1(With(StepTag("checkState"), o))
    [] k = "dump" -> Steps1(With(StepTag("dumpState"), o))
    [] k = "account" -> SetAccount(o)
    [] k = "esdt" -> SetAccount(Mx(<<E("esdt", Mx(<<E("str:T", o)>>))>>))
    [] k = "inst" -> SetAccount(Mx(<<E("esdt", Mx(<<E("str:T", Mx(<<E("instances", Lx(<<o>>)), E("roles", Lx(<<Sx("r")>>))>>))>>))>>))
    [] k = "caccount" -> CheckAccount(o)
    [] k = "cesdt" -> CheckAccount(Mx(<<E("esdt", Mx(<<E("str:T", o)>>))>>))
    [] k = "cinst" -> CheckAccount(Mx(<<E("esdt", Mx(<<E("str:T", Mx(<<E("instances", Lx(<<o>>)), E("lastNonce", Sx("1"))>>))>>))>>))
    [] k = "block" -> Steps1(Mx(StepTag("setState") \o <<E("currentBlockInfo", o)>>))
    [] k = "newaddr" -> Steps1(Mx(StepTag("setState") \o <<E("newAddresses", Lx(<<o>>))>>))
    [] k = "result" -> Expecting(o)
    [] k = "log" -> Expecting(Mx(<<E("logs", Lx(<<o>>))>>))
    [] k = "txesdt" -> Steps1(Mx(StepTag("transfer") \o <<E("tx", Mx(<<E("esdt", o)>>))>>))
    [] k = "test" -> Mx(<<E("t", o)>>)
    [] k = "testblock" -> TestOf(<<E("blocks", Lx(<<o>>))>>)
    [] k = "header" -> TestBlock(<<E("blockHeader", o)>>)
    [] k = "testtx" -> TestBlock(<<E("transactions", Lx(<<o>>)), E("results", Lx(<<Mx(<<>>)>>))>>)
    [] OTHER -> Steps1(Mx(StepTag(k) \o <<E("tx", o)>>))
Must == fj = 0 \/ (fi < fj /\ fa = Good(Base(kind)[fi][2]) /\ fb = Good(Base(kind)[fj][2]))
IsTest(k) == k \in {"test", "testblock", "header", "testtx"}
Init == /\ kind \in Kinds
        /\ fi \in 0 .. Len(Base(kind))
        /\ fa \in 1 .. (IF fi = 0 THEN 2 ELSE Len(Samples(Base(kind)[fi][2])))
        /\ fj \in (0 .. IF fi = 0 THEN 0 ELSE Len(Base(kind))) \ (IF fi = 0 THEN {} ELSE {fi})
        /\ fb \in 1 .. (IF fj = 0 THEN 1 ELSE Len(Samples(Base(kind)[fj][2])))
Next == UNCHANGED <<kind, fi, fa, fj, fb>>
Doc == Wrap(kind, Object(Base(kind), fi, fa, fj, fb))
Collect == TLCSet(1, Append(TLCGet(1), [test |-> IsTest(kind), must |-> Must, doc |-> Doc]))
ASSUME TLCSet(1, <<>>)
Write == ndJsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
