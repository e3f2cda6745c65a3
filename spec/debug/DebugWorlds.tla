---------------------------- MODULE DebugWorlds ----------------------------
(* The debugger: worlds by name in databases; requests make accounts, deploy,   *)
(* upgrade, run and query contracts. Contracts have two versions, A and B, which *)
(* do what their functions say. Quantities are minimal big-endian bytes; texts   *)
(* of requests are as sent.                                                     *)
EXTENDS Text, BigNat, FiniteSets, FiniteSetsExt, TLC
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
PutOrDel(f, k, v) == IF v = <<>> THEN [x \in DOMAIN f \ {k} |-> f[x]] ELSE Put(f, k, v)
Plus2(a, b) == ToBE(Add(FromBE(a), FromBE(b)))
Minus2(a, b) == ToBE(Sub(FromBE(a), FromBE(b)))
AtLeast(a, b) == Le(FromBE(b), FromBE(a))
NoAcc == [bal |-> <<>>, nonce |-> <<>>, code |-> "", owner |-> <<>>, st |-> <<>>]
NameOf(q) == IF q.world = "" THEN "default" ELSE q.world
Place(q) == <<q.db, NameOf(q)>>
World(ws, q) == Get(ws, Place(q), <<>>)
----------------------------------------------------------------------------
(* Which requests are well formed, and what their texts mean. *)
IsDigits(s) == s # <<>> /\ \A i \in 1 .. Len(s) : s[i] \in 48 .. 57
NumberOk(s) == s = <<>> \/ IsDigits(IF s[1] = 43 THEN From(s, 2) ELSE s)
Number(s) == IF s = <<>> THEN <<>> ELSE ToBE(FromDigits(IF s[1] = 43 THEN From(s, 2) ELSE s, 10, 1, <<>>))
Bytes(s) == TLCEval(HexDecode(s))
ArgsOk(q) == \A i \in 1 .. Len(q.args) : HexOk(q.args[i])
ArgsOf(q) == TLCEval([i \in 1 .. Len(q.args) |-> HexDecode(q.args[i])])
CallerOk(q) == q.from # <<>> /\ HexOk(q.from) /\ q.gas # <<>> /\ NumberOk(q.value)
CodeOk(q) == q.code \in {"A", "B", "bad"} /\ HexOk(q.meta)
WellFormed(q) ==
  CASE q.op = "create" -> q.addr # <<>> /\ HexOk(q.addr) /\ NumberOk(q.bal)
    [] q.op = "deploy" -> CallerOk(q) /\ CodeOk(q) /\ ArgsOk(q)
    [] q.op = "upgrade" -> CallerOk(q) /\ CodeOk(q) /\ ArgsOk(q) /\ HexOk(q.to)
    [] OTHER -> CallerOk(q) /\ ArgsOk(q) /\ HexOk(q.to)
(* names which could lead elsewhere may be refused, or be names like any other *)
Plain(name) == \A i \in 1 .. Len(name) : SubSeq(name, i, i) \notin {"/", "\\"}
MetaOf(q) == IF q.meta = <<>> THEN <<1, 0>> ELSE Bytes(q.meta)      \* upgradeable unless told otherwise
DefaultPrice == ToBE(FromDigits(S("200000000000"), 10, 1, <<>>))
----------------------------------------------------------------------------
(* Contracts. Whatever: a message which is not specified.                            *)
Whatever == <<-1>>
Result(code, msg, data) == [code |-> code, msg |-> msg, data |-> data]
Fine == 0  FunctionNotFound == 1  ContractNotFound == 3  UserError == 4  OutOfGas == 5  ContractInvalid == 9  ExecutionFailed == 10
TextOf(code) == CASE code = 0 -> "ok" [] code = 1 -> "function not found" [] code = 3 -> "contract not found" [] code = 4 -> "user error"
                  [] code = 5 -> "out of gas" [] code = 9 -> "contract invalid" [] code = 10 -> "execution failed" [] OTHER -> "?"
Gain(w, a, v) == Put(w, a, [Get(w, a, NoAcc) EXCEPT !.bal = Plus2(@, v)])
Lose(w, a, v) == Put(w, a, [w[a] EXCEPT !.bal = Minus2(@, v)])
Address(b) == [i \in 1 .. 32 |-> IF i <= Len(b) THEN b[i] ELSE 0]
StoreAll(w, a, args) ==
  LET F[i \in 0 .. Len(args) \div 2] == IF i = 0 THEN w[a].st ELSE PutOrDel(F[i - 1], args[2 * i - 1], args[2 * i])
  IN Put(w, a, [w[a] EXCEPT !.st = F[Len(args) \div 2]])
Store(w, self, args) ==
  IF Len(args) % 2 = 1 THEN [w |-> w, o |-> Result(UserError, args[1], <<>>)]
  ELSE [w |-> StoreAll(w, self, args), o |-> Result(Fine, <<>>, <<>>)]
HasCode(w, a) == a \in DOMAIN w /\ w[a].code # ""
Exports(code) == {"e", "s", "g", "p", "f", "i", "q", "c"} \cup (IF code = "A" THEN {"va"} ELSE {"vb"})
RECURSIVE Behave(_, _, _, _, _, _)
Behave(w, self, caller, value, fn, args) ==
  LET fine(data) == [w |-> w, o |-> Result(Fine, <<>>, data)] IN
  IF fn \notin Exports(w[self].code) THEN [w |-> w, o |-> Result(FunctionNotFound, S("invalid function (not found)"), <<>>)]
  ELSE CASE fn = "e" -> fine(args)
         [] fn = "s" -> Store(w, self, args)
         [] fn = "g" -> fine([i \in 1 .. Len(args) |-> Get(w[self].st, args[i], <<>>)])
         [] fn = "p" -> (IF AtLeast(w[self].bal, args[2])
                         THEN [w |-> Gain(Lose(w, self, args[2]), Address(args[1]), args[2]), o |-> Result(Fine, <<>>, <<>>)]
                         ELSE [w |-> w, o |-> Result(ExecutionFailed, S("failed transfer (insufficient funds)"), <<>>)])
         [] fn = "f" -> [w |-> w, o |-> Result(UserError, args[1], <<>>)]
         [] fn = "i" -> fine(<<Address(caller), value, Address(self), Address(w[self].owner)>>)
         [] fn = "q" -> fine([i \in 1 .. Len(args) |-> Get(w, Address(args[i]), NoAcc).bal])
         [] fn \in {"va", "vb"} -> fine(<< <<IF fn = "va" THEN 65 ELSE 66>> >>)
         [] OTHER ->   \* calls another contract (or itself)
              LET to == Address(args[1])
                  f == CASE args[2] = <<101>> -> "e" [] args[2] = <<115>> -> "s" [] args[2] = <<103>> -> "g" [] args[2] = <<118, 97>> -> "va" [] OTHER -> "?"
                  failed == [w |-> w, o |-> Result(ExecutionFailed, Whatever, <<>>)]
              IN IF ~HasCode(w, to) THEN failed
                 ELSE LET x == Behave(w, to, self, <<>>, f, SubSeq(args, 3, Len(args))) IN IF x.o.code = Fine THEN x ELSE failed
Fail(w, code, msg) == [w |-> w, o |-> Result(code, msg, <<>>)]
Kept(before, x) == IF x.o.code = Fine THEN x ELSE [x EXCEPT !.w = before]
Enough(q) == Lt(FromBE(<<1>>), FromBE(q.gas))          \* runs have no gas but for one unit, or plenty
Call(w, q) ==
  LET self == Bytes(q.to) v == Number(q.value) IN
  IF ~HasCode(w, self) THEN Fail(w, ContractNotFound, Whatever)
  ELSE IF ~Enough(q) THEN Fail(w, OutOfGas, Whatever)
  ELSE Kept(w, Behave(Gain(w, self, v), self, Bytes(q.from), v, q.fn, ArgsOf(q)))
(* puts code at an address and runs its initialiser *)
Install(w, a, q) ==
  LET from == Bytes(q.from)
      r == IF a \in DOMAIN w THEN w[a] ELSE [NoAcc EXCEPT !.owner = from]
      w1 == Put(w, a, [r EXCEPT !.code = q.code, !.bal = Plus2(@, Number(q.value))])
  IN IF ~Enough(q) THEN Fail(w, OutOfGas, Whatever)
     ELSE IF q.code = "bad" THEN Fail(w, ContractInvalid, Whatever)
     ELSE Kept(w, Store(w1, a, ArgsOf(q)))
LowByte(n) == IF n = <<>> THEN 0 ELSE n[Len(n)]
NewAddress(w, from) ==
  LET n == w[from].nonce
      b == IF n = <<>> \/ w[from].code # "" THEN LowByte(n) ELSE (LowByte(n) + 255) % 256
  IN [i \in 1 .. 32 |-> IF i <= 10 THEN 0 ELSE IF i <= 14 THEN 17 ELSE IF i <= 29 THEN from[i - 14] ELSE IF i = 30 THEN b ELSE from[i]]
----------------------------------------------------------------------------
(* What a request leads to: [w, o, addr] *)
After(w, q) ==
  CASE q.op = "create" -> [w |-> Put(w, Bytes(q.addr), [NoAcc EXCEPT !.bal = Number(q.bal), !.nonce = q.nonce]), o |-> Result(Fine, <<>>, <<>>)]
    [] q.op = "deploy" -> Install(w, NewAddress(w, Bytes(q.from)), q)
    [] q.op = "upgrade" -> Install(w, Bytes(q.to), q)
    [] q.op = "run" -> Call(w, q)
    [] OTHER -> [Call(w, q) EXCEPT !.w = w]
=============================================================================
