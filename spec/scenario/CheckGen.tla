------------------------------ MODULE CheckGen ------------------------------
(* Checks for replay: every state of each part of an account with every check   *)
(* of it, every two parts with right and wrong checks, and every result of a     *)
(* transaction with every check of it.                                           *)
EXTENDS Scenario, Json, IOUtils
VARIABLES kind, i, a, b, j, c
Sx(t) == [k |-> "s", v |-> t]
Lx(s) == [k |-> "l", v |-> s]
Mx(s) == [k |-> "m", v |-> s]
E(f, n) == [key |-> f, val |-> n]
O(f, n) == Mx(<<E(f, n)>>)
A1 == "address:a"
B1 == "address:b"
SC == "sc:c"
Code == Sx("0x575354420a4d203120310a45203635203020300a45203733203020300a45203663203020300a45203730203020300a45203636203020300a45203639203020300a45203632203020300a45203639366536393734203020300a230a")
Nowhere == [k |-> "none", v |-> ""]      \* the field is not there
Texts == <<Nowhere, Sx(""), Sx("5"), Sx("6"), Sx("*"), Sx("4,294,967,301")>>
Bs(v) == O("str:T", O("balance", Sx(v)))
Inst(n, x) == Mx(<<E("nonce", Sx(n)), E("balance", Sx("2"))>> \o x)
Rich == <<E("creator", Sx(A1)), E("royalties", Sx("15")), E("hash", Sx("str:h")), E("uri", Sx("str:u")), E("attributes", Sx("str:a"))>>
Two(x, y) == O("str:T", O("instances", Lx(<<x, y>>)))
One1(x) == O("str:T", O("instances", Lx(<<x>>)))
T(es) == O("str:T", Mx(es))
Tokens == <<
  Nowhere, O("str:T", Sx("5")), O("str:T", Sx("0")), O("str:T", Inst("1", Rich)), Two(Inst("0", <<>>), Inst("1", Rich)), Two(Inst("1", Rich), Inst("2", <<>>)),
  T(<<E("balance", Sx("2")), E("lastNonce", Sx("3"))>>), T(<<E("lastNonce", Sx("3"))>>), T(<<E("instances", Lx(<<>>)), E("lastNonce", Sx("3"))>>),
  T(<<E("roles", Lx(<<Sx("r1"), Sx("r2")>>))>>), T(<<E("balance", Sx("2")), E("frozen", Sx("1"))>>), T(<<E("instances", Lx(<<Inst("0", <<>>), Inst("1", Rich)>>)), E("frozen", Sx("true"))>>),
  Mx(<<E("str:T", Sx("5")), E("str:U", Sx("6"))>>), One1(Mx(<<E("nonce", Sx("1"))>>)), Mx(<<E("str:T", Inst("256", Rich)), E("str:U", Inst("1", Rich))>>) >>
Said(f) == LET w == IF f = "creator" THEN <<Sx(A1), Sx(B1)>> ELSE IF f = "royalties" THEN <<Sx("15"), Sx("16")>> ELSE IF f = "hash" THEN <<Sx("str:h"), Sx("str:H")>>
                    ELSE IF f = "uri" THEN <<Sx("str:u"), Lx(<<Sx("str:u"), Sx("1")>>)>> ELSE <<Sx("str:a"), Sx("str:aa")>>
           IN w \o <<Sx("*"), Sx("")>>
MetaFields == <<"creator", "royalties", "hash", "uri", "attributes">>
MetaChecks == FoldLeft(LAMBDA s, f : s \o [k \in 1 .. 4 |-> One1(Inst("1", <<E(f, Said(f)[k])>>))], <<>>, MetaFields)
TokenChecks == MetaChecks \o <<
  Nowhere, Sx("*"), Mx(<<>>), O("str:T", Sx("")), O("str:T", Sx("5")), O("str:T", Sx("*")), O("+", Sx("")), Mx(<<E("str:T", Sx("5")), E("+", Sx(""))>>),
  Mx(<<E("str:U", Sx("6")), E("+", Sx(""))>>), Mx(<<E("str:T", Sx("5")), E("str:U", Sx("6"))>>), Mx(<<E("str:T", Sx("5")), E("str:U", Sx("7"))>>), O("str:U", Sx("6")),
  One1(Inst("0", <<>>)), One1(Inst("1", Rich)), Two(Inst("0", <<>>), Inst("1", Rich)), Two(Inst("1", <<>>), Inst("2", <<>>)), Two(Inst("1", <<>>), Inst("3", <<>>)), One1(Inst("2", <<>>)),
  T(<<E("instances", Lx(<<Mx(<<E("nonce", Sx("1")), E("balance", Sx("*"))>>)>>))>>),
  T(<<E("balance", Sx("*")), E("lastNonce", Sx("3"))>>), T(<<E("balance", Sx("2")), E("lastNonce", Sx("*"))>>), T(<<E("instances", Lx(<<>>)), E("lastNonce", Sx("3"))>>), T(<<E("instances", Lx(<<>>)), E("lastNonce", Sx("2"))>>),
  T(<<E("roles", Lx(<<Sx("r1"), Sx("r2")>>))>>), T(<<E("roles", Lx(<<Sx("r2"), Sx("r1")>>))>>), T(<<E("roles", Lx(<<Sx("r1")>>))>>), T(<<E("roles", Lx(<<Sx("r1"), Sx("r2"), Sx("r3")>>))>>), T(<<E("roles", Lx(<<Sx("r1"), Sx("r3")>>))>>),
  T(<<E("balance", Sx("2")), E("frozen", Sx("1"))>>), T(<<E("balance", Sx("2")), E("frozen", Sx("0"))>>), T(<<E("balance", Sx("2")), E("frozen", Sx("*"))>>), T(<<E("frozen", Sx("1"))>>), T(<<E("frozen", Sx(""))>>),
  T(<<E("instances", Lx(<<Inst("0", <<>>), Inst("1", <<>>)>>)), E("frozen", Sx("true"))>>), T(<<E("instances", Lx(<<Inst("0", <<>>), Inst("1", <<>>)>>)), E("frozen", Sx("false"))>>),
  Mx(<<E("str:T", Inst("256", Rich)), E("+", Sx(""))>>), Mx(<<E("str:T", Inst("256", Rich)), E("str:U", Inst("1", <<>>))>>) >>
Storages == << O("str:xELROND", Sx("5")), Nowhere, O("str:k", Sx("")), O("str:k", Sx("5")), Mx(<<E("str:k", Sx("5")), E("str:l", Sx("6"))>>), Mx(<<E("str:k", Sx("6")), E("str:m", Lx(<<Sx("5"), Sx("6")>>))>>),
  O("str:ELRONDx", Sx("5")), Mx(<<E("str:ELRONDx", Sx("5")), E("str:k", Sx("5"))>>), O("", Sx("5")), O("str:ELRON", Sx("5")), O("str:xELRON", Sx("5")), O("str:ELROND", Sx("5")) >>
StorageChecks == << Nowhere, Sx("*"), Mx(<<>>), O("+", Sx("")), O("str:k", Sx("")), O("str:k", Sx("5")), O("str:k", Sx("6")), O("str:k", Sx("*")), Mx(<<E("str:k", Sx("5")), E("+", Sx(""))>>),
  Mx(<<E("str:k", Sx("*")), E("+", Sx(""))>>), Mx(<<E("str:k", Sx("")), E("+", Sx(""))>>), Mx(<<E("str:l", Sx("6")), E("+", Sx(""))>>), Mx(<<E("str:l", Sx("6")), E("str:k", Sx("5"))>>), Mx(<<E("str:k", Sx("5")), E("str:l", Sx("5"))>>),
  Mx(<<E("str:m", Sx("0x0506")), E("str:k", Sx("6"))>>), O("str:ELRONDx", Sx("6")), O("", Sx("5")), O("", Sx("")), O("str:ELRON", Sx("4")), O("str:n", Sx("")), O("str:xELROND", Sx("4")), O("str:ELROND", Sx("4")) >>
Addrs == <<Nowhere, Sx(A1), Sx(B1), Sx(""), Sx("*")>>
(* parts of accounts: name, states, checks *)
Parts == << <<"nonce", SubSeq(Texts, 1, 3), Texts>>, <<"balance", SubSeq(Texts, 1, 3), Texts>>, <<"username", SubSeq(Texts, 1, 3), Texts>>, <<"asyncCallData", SubSeq(Texts, 1, 3), Texts>>,
            <<"owner", SubSeq(Addrs, 1, 2), Addrs>>, <<"storage", Storages, StorageChecks>>, <<"esdt", Tokens, TokenChecks>>, <<"code", <<Nowhere>>, <<Nowhere, Sx(""), Code, Sx("0x575354"), Sx("*")>> >> >>
With(es, f, n) == IF n.k = "none" THEN es ELSE Append(es, E(f, n))
StepOf(ty, es) == Mx(<<E("step", Sx(ty))>> \o es)
SetThen(as, cs) == <<StepOf("setState", <<E("accounts", Mx(as))>>), StepOf("checkState", <<E("accounts", Mx(cs))>>)>>
(* a right and a wrong check of a state of each part *)
Pair(f) == CASE f \in {"nonce", "balance", "username", "asyncCallData"} -> <<Sx("5"), Sx("5"), Sx("6")>>
             [] f = "owner" -> <<Sx(A1), Sx(A1), Sx(B1)>>
             [] f = "storage" -> <<O("str:k", Sx("5")), O("str:k", Sx("5")), O("str:k", Sx("6"))>>
             [] f = "esdt" -> <<O("str:T", Sx("5")), O("str:T", Sx("5")), O("str:T", Sx("6"))>>
             [] OTHER -> <<Code, Code, Sx("0x575354")>>
(* results: what the contract does, and the parts of what is expected *)
Calls == << <<"e", <<Sx("5"), Sx("str:x")>>>>, <<"e", <<>>>>, <<"f", <<Sx("str:bad")>>>>, <<"l", <<Sx("str:d"), Sx("str:id"), Sx("str:t1"), Sx("str:t2")>>>>, <<"l", <<Sx("str:d"), Sx("str:id")>>>>, <<"l", <<Sx(""), Sx("")>>>>,
            <<"s", <<Sx("str:k"), Sx("str:abc"), Sx("str:k"), Sx("")>>>>, <<"nope", <<>>>>, <<"b", <<>>>> >>
Log(ad, id, ts, d) == Mx(<<E("address", Sx(ad)), E("identifier", Sx(id)), E("topics", Lx(ts)), E("data", Sx(d))>>)
T12 == <<Sx("str:t1"), Sx("str:t2")>>
Expected == <<
  <<"out", <<Nowhere, Lx(<<>>), Lx(<<Sx("5"), Sx("str:x")>>), Lx(<<Sx("5")>>), Lx(<<Sx("5"), Sx("str:x"), Sx("")>>), Lx(<<Sx("str:x"), Sx("5")>>), Lx(<<Sx("*"), Sx("str:x")>>), Lx(<<Sx("*"), Sx("*")>>), Lx(<<Sx("5"), Sx("6")>>), Lx(<<Sx("*")>>)>>>>,
  <<"status", <<Nowhere, Sx(""), Sx("0"), Sx("1"), Sx("4"), Sx("5"), Sx("-1"), Sx("*")>>>>,
  <<"message", <<Nowhere, Sx(""), Sx("*"), Sx("str:bad"), Sx("str:ba"), Sx("str:not enough gas"), Sx("str:invalid function (not found)")>>>>,
  <<"gas", <<Nowhere, Sx(""), Sx("0"), Sx("7"), Sx("*")>>>>,
  <<"refund", <<Nowhere, Sx(""), Sx("3"), Sx("4"), Sx("*")>>>>,
  <<"logs", <<Nowhere, Sx("*"), Lx(<<>>), Lx(<<Log(SC, "str:id", T12, "str:d")>>), Lx(<<Log(A1, "str:id", T12, "str:d")>>), Lx(<<Log(SC, "str:ie", T12, "str:d")>>), Lx(<<Log(SC, "str:id", <<Sx("str:t1")>>, "str:d")>>),
      Lx(<<Log(SC, "str:id", <<Sx("str:t2"), Sx("str:t1")>>, "str:d")>>), Lx(<<Log(SC, "str:id", T12, "str:e")>>), Lx(<<Log(SC, "str:id", T12, "str:d"), Log(SC, "str:id", T12, "str:d")>>),
      Lx(<<Log(SC, "", <<>>, "str:d")>>), Lx(<<Log(SC, "", <<>>, "")>>), Lx(<<Log("*", "*", <<Sx("*"), Sx("*")>>, "*")>>), Lx(<<Log(SC, "str:id", <<>>, "str:d")>>), Lx(<<Log(SC, "str:id", T12 \o <<Sx("*")>>, "str:d")>>), Lx(<<Mx(<<E("address", Sx(SC))>>)>>)>>>> >>
Call(es, f, args) == StepOf("scCall", <<E("txId", Sx("1")), E("tx", Mx(<<E("from", Sx(A1)), E("to", Sx(SC)), E("function", Sx(f)), E("arguments", Lx(args)), E("gasLimit", Sx("100000"))>>)),
                                      E("expect", Mx(es))>>)
TheCalls == <<StepOf("setState", <<E("accounts", Mx(<<E(A1, Mx(<<>>)), E(SC, Mx(<<E("code", Code)>>))>>))>>)>>
(* accounts: which there are, which are checked, more allowed *)
Owned == <<A1, B1, SC>>
Acct(x, v) == E(x, Mx(IF x = SC THEN <<E("nonce", Sx(v)), E("code", Code)>> ELSE <<E("nonce", Sx(v))>>))
Some(X, v) == FoldLeft(LAMBDA s, k : IF k \in X THEN Append(s, Acct(Owned[k], v)) ELSE s, <<>>, <<1, 2, 3>>)
Few == SUBSET {1, 2, 3}
Subsets == SetToSeq(Few)
Init ==
  /\ kind \in {"part", "parts", "accounts", "result", "results"}
  /\ i \in 1 .. (CASE kind \in {"part", "parts"} -> Len(Parts) [] kind = "accounts" -> 8 [] OTHER -> Len(Calls))
  /\ a \in 1 .. (CASE kind = "part" -> Len(Parts[i][2]) [] kind = "parts" -> 2 [] kind = "accounts" -> 8 [] OTHER -> Len(Expected))
  /\ b \in 1 .. (CASE kind = "part" -> Len(Parts[i][3]) [] kind = "parts" -> 2 [] kind = "accounts" -> 3 [] OTHER -> Len(Expected[a][2]))
  /\ j \in 1 .. (CASE kind = "parts" -> Len(Parts) [] kind \in {"accounts", "result"} -> 2 [] kind = "results" -> Len(Expected) [] OTHER -> 1)
  /\ c \in 1 .. (CASE kind = "results" -> Len(Expected[j][2]) [] OTHER -> 1)
  /\ kind \in {"parts"} => i < j
  /\ kind = "results" => a < j
Next == UNCHANGED <<kind, i, a, b, j, c>>
Loose(F) == (IF "logs" \in F THEN <<>> ELSE <<E("logs", Sx("*"))>>) \o (IF "message" \in F THEN <<>> ELSE <<E("message", Sx("*"))>>)
Who(f) == IF f = "code" THEN SC ELSE A1
Steps ==
  CASE kind = "part" ->
         LET p == Parts[i] w == Who(p[1]) IN
         SetThen(<<E(w, Mx(With(IF w = SC THEN <<E("code", Code)>> ELSE <<>>, p[1], p[2][a])))>>, <<E(w, Mx(With(<<>>, p[1], p[3][b])))>>)
    [] kind = "parts" ->
         LET f == Parts[i][1] g == Parts[j][1] w == IF "code" \in {f, g} THEN SC ELSE A1 IN
         SetThen(<<E(w, Mx((IF w = SC /\ g # "code" THEN <<E("code", Code)>> ELSE <<>>) \o <<E(f, Pair(f)[1]), E(g, Pair(g)[1])>>))>>,
                 <<E(w, Mx(<<E(f, Pair(f)[1 + a]), E(g, Pair(g)[1 + b])>>))>>)
    [] kind = "accounts" ->     \* b: which account is wrong
         SetThen(Some(Subsets[i], "5"),
                 FoldLeft(LAMBDA s, k : IF k \in Subsets[a] THEN Append(s, E(Owned[k], Mx(<<E("nonce", Sx(IF k = b /\ j = 2 THEN "6" ELSE "5")), E("code", Sx("*"))>>))) ELSE s, <<>>, <<1, 2, 3>>)
                 \o (IF j = 2 /\ b = 1 THEN <<>> ELSE IF b = 2 THEN <<E("+", Sx(""))>> ELSE <<>>))
    [] kind = "result" -> TheCalls \o <<Call(With(<<>>, Expected[a][1], Expected[a][2][b]), Calls[i][1], Calls[i][2])>>
    [] OTHER -> TheCalls \o <<Call(With(With(Loose({Expected[a][1], Expected[j][1]}), Expected[a][1], Expected[a][2][b]), Expected[j][1], Expected[j][2][c]), Calls[i][1], Calls[i][2])>>
Collect == TLCSet(1, Append(TLCGet(1), [must |-> kind \in {"part", "accounts"}, gas |-> kind # "result" \/ j = 1, steps |-> Steps]))
ASSUME TLCSet(1, <<>>)
Write == ndJsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
