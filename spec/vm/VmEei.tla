-------------------------------- MODULE VmEei --------------------------------
(* The functions contracts call. A call is a record v: f name, a numeric      *)
(* parameters, q the 64-bit ones as hexadecimal text, m the bytes found at    *)
(* the pointers among them, ml size of the memory. The answer is a record:    *)
(* s new state, r result, q 64-bit result, o bytes written at each of the     *)
(* result pointers, ml new size of the memory.                                *)
EXTENDS VmHost, Bitwise, Hashes

R(s, r, o, ml) == [s |-> s, r |-> r, q |-> "", o |-> o, ml |-> ml]
Q(s, q, ml) == [s |-> s, r |-> 0, q |-> q, o |-> <<>>, ml |-> ml]
Fault(s, e, r, ml) == R(WithFault(s, e), r, <<>>, ml)
FaultQ(s, e, q, ml) == Q(WithFault(s, e), q, ml)
N64(n) == HPad(NatHex(n), 8)
Minus1 == "ffffffffffffffff"
Nonneg(n) == IF n < 0 THEN HUGE ELSE n              \* a negative number as an unsigned one

(* reading memory: n bytes at p; bytes beyond its end are zero *)
Ld(ml, p, n, w) ==
  IF n = 0 THEN [e |-> NoErr, d |-> ""]
  ELSE IF p < 0 \/ p > ml THEN [e |-> MemErr("BadBounds"), d |-> ""]
  ELSE IF n < 0 THEN [e |-> MemErr("NegativeLength"), d |-> ""]
  ELSE [e |-> NoErr, d |-> w \o HZeros(n - HLen(w))]
(* writing memory: it may grow, by one page *)
MaxMem(s) == 65536 * Code(s.heap[s.rt.inst].code).max
St(s, ml, p, d) ==
  LET n == HLen(d)
      ml2 == ml + 65536
  IN IF n = 0 THEN [e |-> NoErr, ml |-> ml]
     ELSE IF p < 0 THEN [e |-> E("BadLowerBounds"), ml |-> ml]
     ELSE IF p <= ml - n THEN [e |-> NoErr, ml |-> ml]
     ELSE IF ml2 > MaxMem(s) THEN [e |-> E("Grow"), ml |-> ml]
     ELSE IF p > ml2 - n THEN [e |-> E("BadUpperBounds"), ml |-> ml2]
     ELSE [e |-> NoErr, ml |-> ml2]
(* a list of byte strings, one after the other; w: their lengths and contents *)
RECURSIVE LdList(_, _, _, _, _)
LdList(ml, p, w, k, acc) ==
  IF k > Len(w) THEN [e |-> NoErr, args |-> acc, n |-> FoldLeft(LAMBDA x, y : x + HLen(y), 0, acc)]
  ELSE LET x == Ld(ml, p, w[k][1], w[k][2])
       IN IF Failed(x.e) THEN [e |-> x.e, args |-> <<>>, n |-> 0] ELSE LdList(ml, p + w[k][1], w, k + 1, Append(acc, x.d))
Args(ml, num, lo, do, w) ==
  IF num < 0 THEN [e |-> ESay("NegativeNum", ErrText("NegativeNum") \o "2d" \o HexOfHex(IF num < -2147483647 THEN "2147483648" ELSE ToString(-num)) \o "29"), args |-> <<>>, n |-> 0]
  ELSE IF num >= 536870912 THEN [e |-> ESay("TooMany", ErrText("TooMany") \o HexOfHex(ToString(num)) \o "29"), args |-> <<>>, n |-> 0]
  ELSE IF num > 0 /\ (lo < 0 \/ lo > ml) THEN [e |-> MemErr("BadBounds"), args |-> <<>>, n |-> 0]
  ELSE LdList(ml, do, w, 1, <<>>)

----------------------------------------------------------------------------
(* common forms; v: the call *)
Out(s0, v, cost, k, d, r, rf) ==                    \* writes d at the pointer in parameter k
  LET s == UseGas(s0, cost)
      t == St(s, v.ml, v.a[k], d)
  IN IF Failed(t.e) THEN Fault(s, t.e, rf, t.ml) ELSE R(s, r, <<d>>, t.ml)
Num(s, cost, n, ml) == R(UseGas(s, cost), n, <<>>, ml)
NumQ(s, cost, n, ml) == Q(UseGas(s, cost), N64(n), ml)
FirstEsdt(s) == IF s.rt.in.esdt = <<>> THEN [v |-> 0, t |-> "", ty |-> 0, n |-> 0] ELSE s.rt.in.esdt[1]
Value32(n) == IF n = 0 THEN "" ELSE HPad(NatHex(n), 32)
HasArg(s, k) == k >= 0 /\ k < Len(s.rt.in.args)
Arg(s, k) == s.rt.in.args[k + 1]
BalanceHex(s, a) == NatHex(IF Balance(s, a) < 0 THEN -Balance(s, a) ELSE Balance(s, a))
IsBuiltinData(d) == LET p == ParseData(d) IN p.ok /\ IsBuiltin(p.fn)
Low64(x) == LET m == Trim([k \in 1 .. 8 |-> Dig(x.mag, k)]) IN Hex(Pad(ToBE(IF x.neg /\ m # <<>> THEN Sub(Pow256(8), m) ELSE m), 8))
IsI64(x) == IFitsSigned(x, 8)

(* tokens of accounts *)
ErrTok == "455252544f4b"                           \* a name the recorded world refuses; unknown tokens have empty metadata
Token(s, a, tok, n) ==
  LET key == TokenKey(tok, n)
      has == a \in DOMAIN s.w /\ key \in DOMAIN s.w[a].t
      t == s.w[a].t[key]
      meta == n > 0 /\ has /\ t.meta
  IN [v |-> IF has THEN t.v ELSE 0, p |-> IF has THEN t.p ELSE "", meta |-> IF has THEN meta ELSE TRUE,
      name |-> IF meta THEN t.name ELSE "", hash |-> IF meta THEN t.hash ELSE "", attr |-> IF meta THEN t.attr ELSE "",
      creator |-> IF meta THEN t.creator ELSE "", roy |-> IF meta THEN t.roy ELSE 0, uris |-> IF meta THEN t.uris ELSE <<>>]
LdToken(s0, v) ==                                  \* parameters address, token, nonce: [s, e, t]
  LET s == UseGas(s0, Api("GetExternalBalance"))
      a == Ld(v.ml, v.a[1], 32, v.m[1])
      t == Ld(v.ml, v.a[2], v.a[3], v.m[2])
  IN IF Failed(a.e) THEN [s |-> s, e |-> a.e, t |-> 0]
     ELSE IF Failed(t.e) THEN [s |-> s, e |-> t.e, t |-> 0]
     ELSE IF t.d = ErrTok THEN [s |-> s, e |-> E("HookArgs"), t |-> 0]
     ELSE [s |-> s, e |-> NoErr, t |-> Token(s, a.d, t.d, v.a[4])]
TokenLen(s0, v, F(_)) ==
  LET x == LdToken(s0, v) IN IF Failed(x.e) THEN Fault(x.s, x.e, 0, v.ml) ELSE R(x.s, F(x.t), <<>>, v.ml)

----------------------------------------------------------------------------
(* big integers *)
Bi(s, h) == Lookup(s.bi, h, IZero)
Mk(s, hs) == [s EXCEPT !.bi = [h \in DOMAIN @ \cup ToSet(hs) |-> Lookup(@, h, IZero)]]
SetBi(s, h, x) == [s EXCEPT !.bi = Put(@, h, x)]
BitLen8(x) == IF x.mag = <<>> THEN 0 ELSE IF Last(x.mag) >= 128 THEN Len(x.mag) ELSE Len(x.mag) - 1   \* whole bytes of bits
ExtraGas(s, xs) == FoldLeft(LAMBDA t, x : IF BitLen8(x) > 32 THEN PerByte(t, "DataCopyPerByte", BitLen8(x)) ELSE t, s, xs)
NewHandle(s) == CHOOSE h \in Cardinality(DOMAIN s.bi) .. 2 * Cardinality(DOMAIN s.bi) :
                  h \notin DOMAIN s.bi /\ \A g \in Cardinality(DOMAIN s.bi) .. h - 1 : g \in DOMAIN s.bi
TQuo(a, b) == MkInt(a.neg # b.neg, DivMod(a.mag, b.mag).q)
TRem(a, b) == MkInt(a.neg, DivMod(a.mag, b.mag).r)
EMod(a, b) == LET r == TRem(a, b) IN IF r.neg THEN IAdd(r, IAbs(b)) ELSE r
EDiv(a, b) == LET r == TRem(a, b) q == TQuo(a, b) IN IF ~r.neg THEN q ELSE IF b.neg THEN IAdd(q, IOfNat(<<1>>)) ELSE ISub(q, IOfNat(<<1>>))
BitOp(F(_, _), a, b) == IOfNat(Trim([k \in 1 .. MaxI(Len(a.mag), Len(b.mag)) |-> F(Dig(a.mag, k), Dig(b.mag, k))]))
AndB(x, y) == x & y
OrB(x, y) == x | y
XorB(x, y) == x ^^ y
ShlI(x, n) == IF x.mag = <<>> THEN x ELSE IOfNat([k \in 1 .. n \div 8 |-> 0] \o MulSmall(x.mag, Pow2Small(n % 8)))
ShrI(x, n) == LET k == n \div 8 IN IF k >= Len(x.mag) THEN IZero ELSE IOfNat(DivSmall(SubSeq(x.mag, k + 1, Len(x.mag)), Pow2Small(n % 8)).q)

(* dest := F(a, b): parameters are handles; G decides the error; all: the operands and the old result pay for their size *)
Bin(s0, v, cost, all, G(_, _), F(_, _)) ==
  LET s1 == Mk(UseGas(s0, cost), v.a)
      a == Bi(s1, v.a[2])
      b == Bi(s1, v.a[3])
      s == ExtraGas(s1, IF all THEN <<Bi(s1, v.a[1]), a, b>> ELSE <<a, b>>)
  IN IF G(a, b) # "" THEN Fault(s, E(G(a, b)), 0, v.ml) ELSE R(SetBi(s, v.a[1], F(a, b)), 0, <<>>, v.ml)
Un(s0, v, G(_), F(_)) ==
  LET s1 == Mk(UseGas(s0, Big("BigIntSub")), v.a)
      a == Bi(s1, v.a[2])
      s == ExtraGas(s1, <<Bi(s1, v.a[1]), a>>)
  IN IF G(a) # "" THEN Fault(s, E(G(a)), 0, v.ml) ELSE R(SetBi(s, v.a[1], F(a)), 0, <<>>, v.ml)
Never1(a) == ""
Never(a, b) == ""
DivZero(a, b) == IF b.mag = <<>> THEN "DivZero" ELSE ""
Neg2(a, b) == IF a.neg \/ b.neg THEN "BitwiseNegative" ELSE ""
Shift(s0, v, F(_, _)) ==
  LET s1 == Mk(UseGas(s0, Big("BigIntSub")), <<v.a[1], v.a[2]>>)
      a == Bi(s1, v.a[2])
      s == ExtraGas(s1, <<a>>)
      r == F(a, v.a[3])
  IN IF a.neg \/ v.a[3] < 0 THEN Fault(s, E("ShiftNegative"), 0, v.ml) ELSE R(ExtraGas(SetBi(s, v.a[1], r), <<r>>), 0, <<>>, v.ml)

BigIntCall(s0, v) ==
  LET f == v.f
      a == v.a
      ml == v.ml
      one(cost) == Mk(UseGas(s0, Big(cost)), <<a[1]>>)
      x == Bi(s0, a[1])
      len(d) == HLen(d)
      get(cost, d) ==
        LET s == one(cost)
            t == St(s, ml, a[2], d)
        IN IF Failed(t.e) THEN Fault(s, t.e, 0, t.ml) ELSE R(PerByte(s, "DataCopyPerByte", len(d)), len(d), <<d>>, t.ml)
      set(cost, F(_)) ==
        LET s == UseGas(s0, Big(cost))
            d == Ld(ml, a[2], a[3], v.m[1])
        IN IF Failed(d.e) THEN Fault(s, d.e, 0, ml) ELSE R(PerByte(SetBi(s, a[1], F(d.d)), "DataCopyPerByte", len(d.d)), 0, <<>>, ml)
      fin(cost, d) == R(PerByte(Finish(one(cost), d), "PersistPerByte", len(d)), 0, <<>>, ml)
      arg(cost, F(_)) ==
        LET s == UseGas(s0, Big(cost)) IN R(IF HasArg(s, a[1]) THEN SetBi(s, a[2], F(Arg(s, a[1]))) ELSE s, 0, <<>>, ml)
  IN CASE f = "bigIntNew" -> LET s == UseGas(s0, Big("BigIntNew")) h == NewHandle(s) IN R(SetBi(s, h, HInt(v.q[1])), h, <<>>, ml)
       [] f = "bigIntUnsignedByteLength" -> R(one("BigIntUnsignedByteLength"), len(IntHexU(x)), <<>>, ml)
       [] f = "bigIntSignedByteLength" -> R(one("BigIntSignedByteLength"), len(IntHexS(x)), <<>>, ml)
       [] f = "bigIntGetUnsignedBytes" -> get("BigIntGetUnsignedBytes", IntHexU(x))
       [] f = "bigIntGetSignedBytes" -> get("BigIntGetSignedBytes", IntHexS(x))
       [] f = "bigIntSetUnsignedBytes" -> set("BigIntSetUnsignedBytes", HUInt)
       [] f = "bigIntSetSignedBytes" -> set("BigIntSetSignedBytes", HInt)
       [] f = "bigIntIsInt64" -> R(one("BigIntIsInt64"), IF IsI64(x) THEN 1 ELSE 0, <<>>, ml)
       [] f = "bigIntGetInt64" -> Q(one("BigIntGetInt64"), Low64(x), ml)
       [] f = "bigIntSetInt64" -> R(SetBi(UseGas(s0, Big("BigIntSub")), a[1], HInt(v.q[1])), 0, <<>>, ml)
       [] f = "bigIntAdd" -> Bin(s0, v, Big("BigIntSub"), TRUE, Never, IAdd)
       [] f = "bigIntSub" -> Bin(s0, v, Big("BigIntSub"), TRUE, Never, ISub)
       [] f = "bigIntMul" -> Bin(s0, v, Big("BigIntMul"), TRUE, Never, IMul)
       [] f = "bigIntTDiv" -> Bin(s0, v, Big("BigIntTDiv"), TRUE, DivZero, TQuo)
       [] f = "bigIntTMod" -> Bin(s0, v, Big("BigIntSub"), TRUE, DivZero, TRem)
       [] f = "bigIntEDiv" -> Bin(s0, v, Big("BigIntSub"), TRUE, DivZero, EDiv)
       [] f = "bigIntEMod" -> Bin(s0, v, Big("BigIntSub"), TRUE, DivZero, EMod)
       [] f = "bigIntAbs" -> Un(s0, v, Never1, IAbs)
       [] f = "bigIntNeg" -> Un(s0, v, Never1, INeg)
       [] f = "bigIntNot" -> Un(s0, v, LAMBDA y : IF y.neg THEN "BitwiseNegative" ELSE "", LAMBDA y : ISub(INeg(y), IOfNat(<<1>>)))
       [] f = "bigIntSign" -> R(ExtraGas(one("BigIntSign"), <<x>>), ISign(x), <<>>, ml)
       [] f = "bigIntCmp" -> LET s == Mk(UseGas(s0, Big("BigIntCmp")), a) IN R(ExtraGas(s, <<Bi(s, a[1]), Bi(s, a[2])>>), ICmp(Bi(s, a[1]), Bi(s, a[2])), <<>>, ml)
       [] f = "bigIntAnd" -> Bin(s0, v, Big("BigIntSub"), FALSE, Neg2, LAMBDA y, z : BitOp(AndB, y, z))
       [] f = "bigIntOr" -> Bin(s0, v, Big("BigIntSub"), FALSE, Neg2, LAMBDA y, z : BitOp(OrB, y, z))
       [] f = "bigIntXor" -> Bin(s0, v, Big("BigIntSub"), FALSE, Neg2, LAMBDA y, z : BitOp(XorB, y, z))
       [] f = "bigIntShr" -> Shift(s0, v, ShrI)
       [] f = "bigIntShl" -> Shift(s0, v, ShlI)
       [] f = "bigIntFinishUnsigned" -> fin("BigIntFinishUnsigned", IntHexU(x))
       [] f = "bigIntFinishSigned" -> fin("BigIntFinishSigned", IntHexS(x))
       [] f = "bigIntGetUnsignedArgument" -> arg("BigIntGetUnsignedArgument", HUInt)
       [] f = "bigIntGetSignedArgument" -> arg("BigIntGetSignedArgument", HInt)
       [] f = "bigIntGetCallValue" -> R(SetBi(UseGas(s0, Big("BigIntGetCallValue")), a[1], IOfNat(FromNat(s0.rt.in.value))), 0, <<>>, ml)
       [] f = "bigIntGetESDTCallValue" -> R(SetBi(UseGas(s0, Big("BigIntGetCallValue")), a[1], IOfNat(FromNat(FirstEsdt(s0).v))), 0, <<>>, ml)
       [] f = "bigIntGetExternalBalance" ->
            LET s == UseGas(s0, Big("BigIntGetExternalBalance"))
                d == Ld(ml, a[1], 32, v.m[1])
            IN IF Failed(d.e) THEN Fault(s, d.e, 0, ml) ELSE R(SetBi(Touch(s, d.d), a[2], HUInt(BalanceHex(s, d.d))), 0, <<>>, ml)
       [] f = "bigIntGetESDTExternalBalance" ->
            LET y == LdToken(UseGas(s0, Big("BigIntGetExternalBalance")), v)
            IN IF Failed(y.e) THEN Fault(y.s, y.e, 0, ml) ELSE R(SetBi(y.s, a[5], IOfNat(FromNat(y.t.v))), 0, <<>>, ml)
       [] f = "bigIntStorageStoreUnsigned" ->
            LET s == UseGas(s0, Big("BigIntStorageStoreUnsigned"))
                k == Ld(ml, a[1], a[2], v.m[1])
                s1 == Mk(s, <<a[3]>>)
                t == SetStorage(s1, k.d, IntHexU(Bi(s1, a[3])), FALSE)
            IN IF Failed(k.e) THEN Fault(s, k.e, 0, ml) ELSE IF Failed(t.e) THEN Fault(t.s, t.e, -1, ml) ELSE R(t.s, t.st, <<>>, ml)
       [] f = "bigIntStorageLoadUnsigned" ->
            LET s == UseGas(s0, Big("BigIntStorageLoadUnsigned"))
                k == Ld(ml, a[1], a[2], v.m[1])
                t == LoadStorage(s, k.d)
            IN IF Failed(k.e) THEN Fault(s, k.e, 0, ml) ELSE R(SetBi(t.s, a[3], HUInt(t.v)), len(t.v), <<>>, ml)

----------------------------------------------------------------------------
(* storage *)
StoreCall(s0, v, cost, val, bad) ==                \* key in parameters 1, 2; val: [e, d]
  LET s == UseGas(s0, cost)
      k == Ld(v.ml, v.a[1], v.a[2], v.m[1])
      t == SetStorage(s, k.d, val.d, FALSE)
  IN IF Failed(k.e) THEN Fault(s, k.e, -1, v.ml)
     ELSE IF Failed(val.e) THEN Fault(s, val.e, -1, v.ml)
     ELSE IF Failed(t.e) THEN Fault(t.s, t.e, bad, v.ml)
     ELSE R(t.s, t.st, <<>>, v.ml)
Known(d) == [e |-> NoErr, d |-> d]
LockKey(k) == k \o sTimelock
SetLock(s0, v, d) ==
  LET s == UseGas(s0, Api("Int64StorageStore"))
      k == Ld(v.ml, v.a[1], v.a[2], v.m[1])
      t == SetStorage(s, LockKey(k.d), d, TRUE)
  IN IF Failed(k.e) THEN Fault(s, k.e, -1, v.ml) ELSE IF Failed(t.e) THEN Fault(t.s, t.e, -1, v.ml) ELSE R(t.s, t.st, <<>>, v.ml)
LoadInt(s0, v, signed) ==
  LET s == UseGas(s0, Api("Int64StorageLoad"))
      k == Ld(v.ml, v.a[1], v.a[2], v.m[1])
      t == LoadStorage(s, k.d)
      x == HInt(t.v)
  IN IF Failed(k.e) THEN FaultQ(s, k.e, N64(0), v.ml)
     ELSE IF signed /\ IsI64(x) THEN Q(t.s, Hex(ToTwosLen(x, 8)), v.ml)
     ELSE IF ~signed /\ HLen(HStrip(t.v)) <= 8 THEN Q(t.s, HPad(HStrip(t.v), 8), v.ml)
     ELSE FaultQ(t.s, E("StorageValueOutOfRange"), N64(0), v.ml)
StorageCall(s0, v) ==
  LET f == v.f
      a == v.a
      ml == v.ml
      key == Ld(ml, a[1], a[2], v.m[1])
      load(s, d, k) == LET t == St(s, ml, a[k], d) IN IF Failed(t.e) THEN Fault(s, t.e, -1, t.ml) ELSE R(s, HLen(d), <<d>>, t.ml)
      lock == LoadStorage(UseGas(s0, Api("StorageLoad")), LockKey(key.d))
  IN CASE f = "storageStore" -> StoreCall(s0, v, Api("StorageStore"), Ld(ml, a[3], a[4], v.m[2]), -1)
       [] f = "storageLoadLength" ->
            LET s == UseGas(s0, Api("StorageLoad"))
            IN IF Failed(key.e) THEN Fault(s, key.e, -1, ml) ELSE R(s, HLen(Stored(s, s.sa, key.d)), <<>>, ml)
       [] f = "storageLoad" ->
            LET s == UseGas(s0, Api("StorageLoad"))
                t == LoadStorage(s, key.d)
            IN IF Failed(key.e) THEN Fault(s, key.e, -1, ml) ELSE load(t.s, t.v, 3)
       [] f = "storageLoadFromAddress" ->
            LET s == UseGas(s0, Api("StorageLoad"))
                k == Ld(ml, a[2], a[3], v.m[2])
                d == Ld(ml, a[1], 32, v.m[1])
                t == LoadStorageFrom(s, d.d, k.d)
            IN IF Failed(k.e) THEN Fault(s, k.e, -1, ml) ELSE IF Failed(d.e) THEN Fault(s, d.e, -1, ml) ELSE load(t.s, t.v, 4)
       [] f = "setStorageLock" -> SetLock(s0, v, Hex(ToBE(HInt(v.q[1]).mag)))
       [] f = "clearStorageLock" -> SetLock(s0, v, "")
       [] f = "getStorageLock" ->
            IF Failed(key.e) THEN FaultQ(UseGas(s0, Api("StorageLoad")), key.e, Minus1, ml) ELSE Q(lock.s, Low64(HUInt(lock.v)), ml)
       [] f = "isStorageLocked" ->
            LET x == HInt(Low64(HUInt(lock.v)))
            IN IF Failed(key.e) THEN Fault(UseGas(s0, Api("StorageLoad")), key.e, -1, ml)
               ELSE IF x.neg THEN R(lock.s, -1, <<>>, ml)
               ELSE R(UseGas(lock.s, Api("GetBlockTimeStamp")), IF ILe(x, IOfNat(FromNat(Cfg.block.time))) THEN 0 ELSE 1, <<>>, ml)
       [] f \in {"smallIntStorageStoreUnsigned", "int64storageStore"} -> StoreCall(s0, v, Api("Int64StorageStore"), Known(HStrip(v.q[1])), -1)
       [] f = "smallIntStorageStoreSigned" -> StoreCall(s0, v, Api("Int64StorageStore"), Known(IntHexS(HInt(v.q[1]))), -1)
       [] f \in {"smallIntStorageLoadUnsigned", "int64storageLoad"} -> LoadInt(s0, v, FALSE)
       [] f = "smallIntStorageLoadSigned" -> LoadInt(s0, v, TRUE)

----------------------------------------------------------------------------
(* information about the call and the chain *)
IntArg(s0, v, signed) ==
  LET s == UseGas(s0, Api("Int64GetArgument"))
      d == Arg(s, v.a[1])
      x == HInt(d)
  IN IF ~HasArg(s, v.a[1]) THEN FaultQ(s, E("ArgIndexOutOfRange"), N64(0), v.ml)
     ELSE IF signed /\ IsI64(x) THEN Q(s, Hex(ToTwosLen(x, 8)), v.ml)
     ELSE IF ~signed /\ HLen(HStrip(d)) <= 8 THEN Q(s, HPad(HStrip(d), 8), v.ml)
     ELSE FaultQ(s, E("ArgOutOfRange"), N64(0), v.ml)
sNonceKey == "454c524f4e446e6f6e6365"            \* ELRONDnonce
InfoCall(s0, v) ==
  LET f == v.f
      a == v.a
      ml == v.ml
      in == s0.rt.in
      blk == Cfg.block
      addr == Ld(ml, a[1], 32, v.m[1])
      left(s) == IF f = "getGasLeft" THEN GasLeft(s) ELSE 0
      on(cost, rf, F(_)) == LET s == UseGas(s0, Api(cost)) IN IF Failed(addr.e) THEN Fault(s, addr.e, rf, ml) ELSE F(s)
      hex(n) == NatHex(n)
      ret == s0.out.ret
  IN CASE f = "getGasLeft" -> LET s == UseGas(s0, Api("GetGasLeft")) IN Q(s, N64(GasLeft(s)), ml)
       [] f = "getSCAddress" -> Out(s0, v, Api("GetSCAddress"), 1, s0.rt.addr, 0, 0)
       [] f = "getOwnerAddress" ->
            IF ~OnChain(s0, s0.rt.addr) THEN Fault(UseGas(s0, Api("GetOwnerAddress")), E("HookArgs"), 0, ml)
            ELSE Out(s0, v, Api("GetOwnerAddress"), 1, s0.w[s0.rt.addr].o, 0, 0)
       [] f = "getShardOfAddress" -> on("GetShardOfAddress", 0, LAMBDA s : R(s, ShardOf(addr.d), <<>>, ml))
       [] f = "isSmartContract" -> on("IsSmartContract", 0, LAMBDA s : R(s, IF IsSC(addr.d) THEN 1 ELSE 0, <<>>, ml))
       [] f = "getExternalBalance" -> on("GetExternalBalance", 0, LAMBDA s : Out(Touch(s, addr.d), v, 0, 2, BalanceHex(s, addr.d), 0, 0))
       [] f = "getBlockHash" ->
            Out(s0, v, Api("GetBlockHash"), 2, IF a[1] >= 0 /\ ToString(a[1]) \in DOMAIN blk.hashes THEN blk.hashes[ToString(a[1])] ELSE "", 0, 1)
       [] f = "getArgumentLength" -> Num(s0, Api("GetArgument"), IF HasArg(s0, a[1]) THEN HLen(Arg(s0, a[1])) ELSE -1, ml)
       [] f = "getArgument" ->
            IF ~HasArg(s0, a[1]) THEN Num(s0, Api("GetArgument"), -1, ml) ELSE Out(s0, v, Api("GetArgument"), 2, Arg(s0, a[1]), HLen(Arg(s0, a[1])), -1)
       [] f = "getFunction" -> Out(s0, v, Api("GetFunction"), 1, s0.rt.fn, HLen(s0.rt.fn), -1)
       [] f = "getNumArguments" -> Num(s0, Api("GetNumArguments"), Len(in.args), ml)
       [] f = "getCaller" -> Out(s0, v, Api("GetCaller"), 1, in.caller, 0, 0)
       [] f = "checkNoPayment" ->
            LET s == UseGas(s0, Api("GetCallValue"))
            IN IF in.value > 0 THEN Fault(s, E("NonPayableEgld"), 0, ml) ELSE IF in.esdt # <<>> THEN Fault(s, E("NonPayableEsdt"), 0, ml) ELSE R(s, 0, <<>>, ml)
       [] f = "getCallValue" -> LET d == Value32(in.value) IN Out(s0, v, Api("GetCallValue"), 1, d, HLen(d), -1)
       [] f = "getESDTValue" -> LET d == Value32(FirstEsdt(s0).v) IN Out(s0, v, Api("GetCallValue"), 1, d, HLen(d), -1)
       [] f = "getESDTTokenName" -> LET d == FirstEsdt(s0).t IN Out(s0, v, Api("GetCallValue"), 1, d, HLen(d), -1)
       [] f = "getESDTTokenNonce" -> NumQ(s0, Api("GetCallValue"), FirstEsdt(s0).n, ml)
       [] f = "getESDTTokenType" -> Num(s0, Api("GetCallValue"), FirstEsdt(s0).ty, ml)
       [] f = "getCallValueTokenName" ->
            LET s == UseGas(s0, Api("GetCallValue"))
                x == FirstEsdt(s0)
                d == Value32(IF x.t # "" THEN x.v ELSE in.value)
                t1 == St(s, ml, a[2], x.t)
                t2 == St(s, t1.ml, a[1], d)
            IN IF Failed(t1.e) THEN Fault(s, t1.e, -1, t1.ml)
               ELSE IF Failed(t2.e) THEN [Fault(s, t2.e, -1, t2.ml) EXCEPT !.o = <<"", x.t>>]
               ELSE R(s, HLen(x.t), <<d, x.t>>, t2.ml)
       [] f = "getCurrentESDTNFTNonce" ->
            LET s == UseGas(s0, Api("StorageLoad"))
                k == Ld(ml, a[2], a[3], v.m[2])
                t == LoadStorageFrom(s, addr.d, sNonceKey \o k.d)
            IN IF Failed(addr.e) \/ Failed(k.e) THEN Q(s, N64(0), ml) ELSE Q(t.s, Low64(HUInt(t.v)), ml)
       [] f = "getNumReturnData" -> Num(s0, Api("GetNumReturnData"), Len(ret), ml)
       [] f = "getReturnDataSize" -> Num(s0, Api("GetReturnDataSize"), IF a[1] \in 0 .. Len(ret) - 1 THEN HLen(ret[a[1] + 1]) ELSE 0, ml)
       [] f = "getReturnData" ->
            IF a[1] \notin 0 .. Len(ret) - 1 THEN Num(s0, Api("GetReturnData"), 0, ml)
            ELSE Out(s0, v, Api("GetReturnData"), 2, ret[a[1] + 1], HLen(ret[a[1] + 1]), 0)
       [] f = "getBlockTimestamp" -> NumQ(s0, Api("GetBlockTimeStamp"), blk.time, ml)
       [] f = "getBlockNonce" -> NumQ(s0, Api("GetBlockNonce"), blk.nonce, ml)
       [] f = "getBlockRound" -> NumQ(s0, Api("GetBlockRound"), blk.round, ml)
       [] f = "getBlockEpoch" -> NumQ(s0, Api("GetBlockEpoch"), blk.epoch, ml)
       [] f = "getBlockRandomSeed" -> Out(s0, v, Api("GetBlockRandomSeed"), 1, blk.seed, 0, 0)
       [] f = "getStateRootHash" -> Out(s0, v, Api("GetStateRootHash"), 1, blk.root, 0, 0)
       [] f = "getPrevBlockTimestamp" -> NumQ(s0, Api("GetBlockTimeStamp"), blk.ptime, ml)
       [] f = "getPrevBlockNonce" -> NumQ(s0, Api("GetBlockNonce"), blk.pnonce, ml)
       [] f = "getPrevBlockRound" -> NumQ(s0, Api("GetBlockRound"), blk.pround, ml)
       [] f = "getPrevBlockEpoch" -> NumQ(s0, Api("GetBlockEpoch"), blk.pepoch, ml)
       [] f = "getPrevBlockRandomSeed" -> Out(s0, v, Api("GetBlockRandomSeed"), 1, blk.pseed, 0, 0)
       [] f = "getOriginalTxHash" -> Out(s0, v, Api("GetBlockHash"), 1, in.oth, 0, 0)
       [] f = "smallIntGetUnsignedArgument" -> IntArg(s0, v, FALSE)
       [] f \in {"smallIntGetSignedArgument", "int64getArgument"} -> IntArg(s0, v, TRUE)

----------------------------------------------------------------------------
(* results, logs, value *)
OutputCall(s0, v) ==
  LET f == v.f
      a == v.a
      ml == v.ml
  IN CASE f = "finish" ->
            LET s == UseGas(s0, SAdd(Api("Finish"), SMul(Base("PersistPerByte"), Nonneg(a[2]))))
                d == Ld(ml, a[1], a[2], v.m[1])
            IN IF Failed(d.e) THEN Fault(s, d.e, 0, ml) ELSE R(Finish(s, d.d), 0, <<>>, ml)
       [] f = "smallIntFinishUnsigned" -> R(Finish(UseGas(s0, Api("Int64Finish")), HStrip(v.q[1])), 0, <<>>, ml)
       [] f \in {"smallIntFinishSigned", "int64finish"} -> R(Finish(UseGas(s0, Api("Int64Finish")), IntHexS(HInt(v.q[1]))), 0, <<>>, ml)
       [] f = "signalError" ->
            LET s == UseGas(s0, Api("SignalError"))
                d == Ld(ml, a[1], a[2], v.m[1])
            IN IF Failed(d.e) THEN Fault(s, d.e, 0, ml) ELSE R(SignalErr(s, d.d), 0, <<>>, ml)
       [] f = "writeLog" ->                         \* data, length, topics, number
            LET s == UseGas(s0, SAdd(Api("Log"), SMul(Base("PersistPerByte"), SAdd(SMul(Nonneg(a[4]), 32), Nonneg(a[2])))))
                d == Ld(ml, a[1], a[2], v.m[1])
                bad == IF a[4] > 0 /\ (a[3] < 0 \/ a[4] > HUGE \div 64 \/ a[3] > ml - 32 * (a[4] - 1)) THEN MemErr("BadBounds") ELSE NoErr
                all == v.m[2] \o HZeros(32 * a[4] - HLen(v.m[2]))
                topics == [k \in 1 .. a[4] |-> HSub(all, 32 * (k - 1), 32)]
            IN IF Failed(d.e) THEN Fault(s, d.e, 0, ml)
               ELSE IF a[4] < 0 THEN Fault(s, ESay("NegativeNum", ErrText("NegativeTopics")), 0, ml)
               ELSE IF Failed(bad) THEN Fault(s, bad, 0, ml)
               ELSE R(WriteLog(s, topics, d.d), 0, <<>>, ml)
       [] f = "writeEventLog" ->                    \* number, lengths, topics, data, length
            LET t == Args(ml, a[1], a[2], a[3], v.m[1])
                d == Ld(ml, a[4], a[5], v.m[2])
                s == UseGas(s0, SAdd(Api("Log"), SMul(Base("DataCopyPerByte"), t.n + a[5])))
            IN IF Failed(t.e) THEN Fault(s0, t.e, 0, ml) ELSE IF Failed(d.e) THEN Fault(s0, d.e, 0, ml)
               ELSE R(WriteLog(s, t.args, d.d), 0, <<>>, ml)
       [] f = "transferValue" ->
            LET s == UseGas(s0, Api("TransferValue"))
                to == Ld(ml, a[1], 32, v.m[1])
                val == Ld(ml, a[2], 32, v.m[2])
                s1 == PerByte(s, "PersistPerByte", Nonneg(a[4]))
                d == Ld(ml, a[3], a[4], v.m[3])
                x == Transfer(s1, to.d, s1.rt.addr, 0, 0, HNat(val.d), d.d, Direct)
            IN IF Failed(to.e) THEN Fault(s, to.e, 1, ml) ELSE IF Failed(val.e) THEN Fault(s, val.e, 1, ml)
               ELSE IF Failed(d.e) THEN Fault(s1, d.e, 1, ml)
               ELSE IF IsBuiltinData(d.d) THEN R(s1, 1, <<>>, ml)
               ELSE IF Failed(x.e) THEN Fault(x.s, x.e, 1, ml) ELSE R(x.s, 0, <<>>, ml)
       [] f = "transferESDT" -> R(PerByte(UseGas(s0, Api("TransferValue")), "PersistPerByte", Nonneg(a[7])), 1, <<>>, ml)

EsdtCall(s0, v) ==
  LET f == v.f
      a == v.a
      ml == v.ml
      x == LdToken(s0, v)
      t == x.t
  IN CASE f = "getESDTBalance" ->
            LET d == NatHex(t.v)
                u == St(x.s, ml, a[5], d)
            IN IF Failed(x.e) THEN Fault(x.s, x.e, 0, ml) ELSE IF Failed(u.e) THEN Fault(x.s, u.e, 0, u.ml) ELSE R(x.s, HLen(d), <<d>>, u.ml)
       [] f = "getESDTNFTNameLength" -> TokenLen(s0, v, LAMBDA y : HLen(y.name))
       [] f = "getESDTNFTAttributeLength" -> TokenLen(s0, v, LAMBDA y : HLen(y.attr))
       [] f = "getESDTNFTURILength" -> TokenLen(s0, v, LAMBDA y : IF y.uris = <<>> THEN 0 ELSE HLen(y.uris[1]))
       [] f = "getESDTTokenData" ->        \* value, properties, hash, name, attributes, creator, royalties, uri: parameters 5 to 12
            LET ds == <<t.p, t.hash, t.name, t.attr, t.creator, IF t.uris = <<>> THEN "" ELSE t.uris[1]>>
                ps == <<a[6], a[7], a[8], a[9], a[10], a[12]>>
                step(acc, k) ==             \* acc: [e, ml, n]
                  IF Failed(acc.e) THEN acc
                  ELSE LET u == St(x.s, acc.ml, ps[k], ds[k]) IN [e |-> u.e, ml |-> u.ml, n |-> IF Failed(u.e) THEN acc.n ELSE k]
                w == FoldLeft(step, [e |-> NoErr, ml |-> ml, n |-> 0], <<1, 2, 3, 4, 5, 6>>)
                o == [k \in 1 .. 6 |-> IF k <= w.n THEN ds[k] ELSE ""]
                s1 == SetBi(x.s, a[5], IOfNat(FromNat(t.v)))
                s2 == IF t.meta /\ w.n >= 5 THEN SetBi(s1, a[11], IOfNat(FromNat(t.roy))) ELSE s1
            IN IF Failed(x.e) THEN Fault(x.s, x.e, 0, ml)
               ELSE IF Failed(w.e) THEN [Fault(s2, w.e, 0, w.ml) EXCEPT !.o = o]
               ELSE R(s2, HLen(NatHex(t.v)), o, w.ml)

CryptoCall(s0, v) ==
  LET f == v.f
      a == v.a
      ml == v.ml
      hash(cost, F(_)) ==
        LET s == UseGas(s0, SAdd(Cry(cost), SMul(Base("DataCopyPerByte"), Nonneg(a[2]))))
            d == Ld(ml, a[1], a[2], v.m[1])
            h == Hex(F(Bytes(d.d)))
            t == St(s, ml, a[3], h)
        IN IF Failed(d.e) THEN Fault(s, d.e, 1, ml) ELSE IF Failed(t.e) THEN Fault(s, t.e, 1, t.ml) ELSE R(s, 0, <<h>>, t.ml)
      valid(key, msg, sig) == IF <<f, key, msg, sig>> \in ToSet(Cfg.sigs) THEN 0 ELSE -1     \* signatures are not forged
      verify(cost, klen, slen) ==
        LET s == UseGas(s0, Cry(cost))
            k == Ld(ml, a[1], klen, v.m[1])
            s1 == PerByte(s, "DataCopyPerByte", Nonneg(a[3]))
            d == Ld(ml, a[2], a[3], v.m[2])
            g == Ld(ml, a[4], slen, v.m[3])
        IN IF Failed(k.e) THEN Fault(s, k.e, 1, ml) ELSE IF Failed(d.e) THEN Fault(s1, d.e, 1, ml) ELSE IF Failed(g.e) THEN Fault(s1, g.e, 1, ml)
           ELSE R(s1, valid(k.d, d.d, g.d), <<>>, ml)
  IN CASE f = "sha256" -> hash("SHA256", Sha256)
       [] f = "keccak256" -> hash("Keccak256", Keccak256)
       [] f = "ripemd160" -> hash("Ripemd160", Ripemd160)
       [] f = "verifyBLS" -> verify("VerifyBLS", 96, 48)
       [] f = "verifyEd25519" -> verify("VerifyEd25519", 32, 64)
       [] f = "verifySecp256k1" ->
            LET s == UseGas(s0, Cry("VerifySecp256k1"))
                k == Ld(ml, a[1], a[2], v.m[1])
                s1 == PerByte(s, "DataCopyPerByte", Nonneg(a[4]))
                d == Ld(ml, a[3], a[4], v.m[2])
                g == Ld(ml, a[5], 2, v.m[3])
            IN IF a[2] # 33 /\ a[2] # 65 THEN Fault(s, E("InvalidPublicKeySize"), 1, ml)
               ELSE IF Failed(k.e) THEN Fault(s, k.e, 1, ml) ELSE IF Failed(d.e) THEN Fault(s1, d.e, 1, ml)
               ELSE IF Failed(g.e) THEN Fault(s1, g.e, 1, ml) ELSE R(s1, valid(k.d, d.d, v.m[3]), <<>>, ml)

----------------------------------------------------------------------------
(* asynchronous calls and upgrades end the running code *)
UseGasBounded(s, g) == IF GasLeft(s) <= g THEN [s |-> s, ok |-> FALSE] ELSE [s |-> UseGas(s, g), ok |-> TRUE]
HasCallback(s) == Exports(s.heap[s.rt.inst].code, nCallBack)
LockGas(s) ==
  SAdd(IF s.fl.dyn THEN SMul(s.rt.cs, Base(IF s.fl.aot THEN "AoTPreparePerByte" ELSE "CompilePerByte")) ELSE 0,
       SAdd(Api("AsyncCallStep"), Api("AsyncCallbackGasLock")))
StartAsync(s0, dest, data, val) ==                  \* [s, ok]
  LET b == UseGasBounded(s0, Api("AsyncCallStep"))
      lock == IF HasCallback(s0) \/ ~s0.fl.dyn THEN LockGas(s0) ELSE 0
      c == IF lock = 0 THEN b ELSE UseGasBounded(b.s, lock)
  IN IF ~b.ok THEN b ELSE IF ~c.ok THEN c
     ELSE [s |-> SetBp([c.s EXCEPT !.rt.ac = [dest |-> dest, data |-> data, gl |-> GasLeft(c.s), lock |-> lock, val |-> val]], BpAsync), ok |-> TRUE]
Upgrade(s, gl, dest, code, meta, val, args, ml) ==
  LET b == StartAsync(s, dest, CallText(nUpgrade, <<code, meta>> \o args), val)
  IN IF gl >= 0 /\ gl < SAdd(SMul(2, Api("AsyncCallStep")), Api("AsyncCallbackGasLock")) THEN R(SetBp(s, BpGas), 0, <<>>, ml)
     ELSE R(b.s, 0, <<>>, ml)
AsyncCallF(s0, v) ==
  LET f == v.f
      a == v.a
      ml == v.ml
  IN CASE f = "asyncCall" ->
            LET s == UseGas(s0, Api("AsyncCallStep"))
                to == Ld(ml, a[1], 32, v.m[1])
                val == Ld(ml, a[2], 32, v.m[2])
                s1 == PerByte(s, "DataCopyPerByte", Nonneg(a[4]))
                d == Ld(ml, a[3], a[4], v.m[3])
                b == StartAsync(s1, to.d, d.d, val.d)
            IN IF Failed(to.e) THEN Fault(s, to.e, 0, ml) ELSE IF Failed(val.e) THEN Fault(s, val.e, 0, ml)
               ELSE IF Failed(d.e) THEN Fault(s1, d.e, 0, ml)
               ELSE IF b.ok THEN R(b.s, 0, <<>>, ml) ELSE R(SetBp(b.s, BpGas), 0, <<>>, ml)
       [] f = "upgradeContract" ->       \* dest, gas, value, code, metadata, length of the code, arguments
            LET s == UseGas(s0, Api("CreateContract"))
                val == Ld(ml, a[3], 32, v.m[2])
                c == Ld(ml, a[4], a[6], v.m[3])
                m == Ld(ml, a[5], 2, v.m[4])
                x == Args(ml, a[7], a[8], a[9], v.m[5])
                s1 == PerByte(s, "DataCopyPerByte", x.n)
                to == Ld(ml, a[1], 32, v.m[1])
                s2 == PerByte(s1, "DataCopyPerByte", Nonneg(a[6]))
            IN IF Failed(val.e) THEN Fault(s, val.e, 0, ml) ELSE IF Failed(c.e) THEN Fault(s, c.e, 0, ml) ELSE IF Failed(m.e) THEN Fault(s, m.e, 0, ml)
               ELSE IF Failed(x.e) THEN Fault(s1, x.e, 0, ml) ELSE IF Failed(to.e) THEN Fault(s1, to.e, 0, ml)
               ELSE Upgrade(s2, a[2], to.d, c.d, m.d, val.d, x.args, ml)
       [] f = "upgradeFromSourceContract" ->   \* dest, gas, value, source, metadata, arguments
            LET s == UseGas(s0, Api("CreateContract"))
                val == Ld(ml, a[3], 32, v.m[2])
                src == Ld(ml, a[4], 32, v.m[3])
                m == Ld(ml, a[5], 2, v.m[4])
                x == Args(ml, a[6], a[7], a[8], v.m[5])
                s1 == PerByte(s, "DataCopyPerByte", x.n)
                to == Ld(ml, a[1], 32, v.m[1])
                c == CodeOf(s, src.d)
            IN IF Failed(val.e) THEN Fault(s, val.e, 0, ml) ELSE IF Failed(src.e) THEN Fault(s, src.e, 0, ml) ELSE IF Failed(m.e) THEN Fault(s, m.e, 0, ml)
               ELSE IF Failed(x.e) THEN Fault(s1, x.e, 0, ml) ELSE IF Failed(to.e) THEN Fault(s1, to.e, 0, ml)
               ELSE IF Failed(c.e) THEN Fault(Touch(s1, src.d), c.e, 0, ml)
               ELSE Upgrade(Touch(s1, src.d), a[2], to.d, c.c, m.d, val.d, x.args, ml)

(* functions that return before anything else runs *)
BigIntFns == {"bigIntNew", "bigIntUnsignedByteLength", "bigIntSignedByteLength", "bigIntGetUnsignedBytes", "bigIntGetSignedBytes", "bigIntSetUnsignedBytes",
  "bigIntSetSignedBytes", "bigIntIsInt64", "bigIntGetInt64", "bigIntSetInt64", "bigIntAdd", "bigIntSub", "bigIntMul", "bigIntTDiv", "bigIntTMod", "bigIntEDiv",
  "bigIntEMod", "bigIntAbs", "bigIntNeg", "bigIntNot", "bigIntSign", "bigIntCmp", "bigIntAnd", "bigIntOr", "bigIntXor", "bigIntShr", "bigIntShl",
  "bigIntFinishUnsigned", "bigIntFinishSigned", "bigIntGetUnsignedArgument", "bigIntGetSignedArgument", "bigIntGetCallValue", "bigIntGetESDTCallValue",
  "bigIntGetExternalBalance", "bigIntGetESDTExternalBalance", "bigIntStorageStoreUnsigned", "bigIntStorageLoadUnsigned"}
StorageFns == {"storageStore", "storageLoadLength", "storageLoad", "storageLoadFromAddress", "setStorageLock", "clearStorageLock", "getStorageLock", "isStorageLocked",
  "smallIntStorageStoreUnsigned", "int64storageStore", "smallIntStorageStoreSigned", "smallIntStorageLoadUnsigned", "int64storageLoad", "smallIntStorageLoadSigned"}
OutputFns == {"finish", "smallIntFinishUnsigned", "smallIntFinishSigned", "int64finish", "signalError", "writeLog", "writeEventLog", "transferValue", "transferESDT"}
EsdtFns == {"getESDTBalance", "getESDTNFTNameLength", "getESDTNFTAttributeLength", "getESDTNFTURILength", "getESDTTokenData"}
CryptoFns == {"sha256", "keccak256", "ripemd160", "verifyBLS", "verifyEd25519", "verifySecp256k1"}
AsyncFns == {"asyncCall", "upgradeContract", "upgradeFromSourceContract"}
Eei(s, v) ==
  CASE v.f \in BigIntFns -> BigIntCall(s, v)
    [] v.f \in StorageFns -> StorageCall(s, v)
    [] v.f \in OutputFns -> OutputCall(s, v)
    [] v.f \in EsdtFns -> EsdtCall(s, v)
    [] v.f \in CryptoFns -> CryptoCall(s, v)
    [] v.f \in AsyncFns -> AsyncCallF(s, v)
    [] OTHER -> InfoCall(s, v)

----------------------------------------------------------------------------
(* functions that may run other contracts: Begin, and Back once those ended *)
Now(x) == [x.s EXCEPT !.pc = "ret", !.res = [d |-> [f |-> "now", x |-> [x EXCEPT !.s = 0]], e |-> NoErr, vo |-> NoVO]]
Bound(s, g) == IF g < 0 \/ g > GasLeft(s) THEN GasLeft(s) ELSE g
Inp(s, from, val, g, to, fn, args) ==
  [NoIn EXCEPT !.caller = from, !.args = args, !.value = val, !.gas = Bound(s, g)] @@ [rcv |-> to, fn |-> fn, ai |-> FALSE]
(* destination, value (kv = 0: none), function, arguments; kf, kx: index of the function's and arguments' parameters *)
Indirect(s, v, ka, ma, kv, mv, kf, mf, kx, mx) ==   \* [e, to, val, fn, args, n]
  LET to == Ld(v.ml, v.a[ka], 32, v.m[ma])
      val == IF kv = 0 THEN Known("") ELSE Ld(v.ml, v.a[kv], 32, v.m[mv])
      fn == Ld(v.ml, v.a[kf], v.a[kf + 1], v.m[mf])
      x == Args(v.ml, v.a[kx], v.a[kx + 1], v.a[kx + 2], v.m[mx])
      e == IF Failed(to.e) THEN to.e ELSE IF Failed(val.e) THEN val.e ELSE IF Failed(fn.e) THEN fn.e ELSE x.e
  IN [e |-> e, to |-> to.d, val |-> HNat(val.d), valh |-> HStrip(val.d), fn |-> fn.d, args |-> x.args, n |-> IF Failed(e) THEN 0 ELSE x.n]

Sync(s0, v, c, cost, caller, val, same, ro) ==      \* a call another contract answers at once
  LET s == UseGas(PerByte(s0, "DataCopyPerByte", c.n), cost)
      inp == Inp(s, caller, val, v.a[1], c.to, c.fn, c.args)
      d == [f |-> v.f, ro |-> s.rt.ro]
      t == Push(IF ro THEN [s EXCEPT !.rt.ro = TRUE] ELSE s, "eei", d)
  IN IF Failed(c.e) THEN Now(Fault(s0, c.e, 1, v.ml))
     ELSE IF ~SameShard(s.rt.addr, c.to) THEN Now(Fault(s, E("NotInSameShard"), 1, v.ml))
     ELSE IF v.f # "executeOnDestContext" /\ IsBuiltinData(c.fn) THEN Now(R(s, 1, <<>>, v.ml))
     ELSE IF same /\ IsBuiltin(c.fn) THEN Now(Fault(s, E("BuiltinOnSameContext"), 1, v.ml))
     ELSE IF same THEN ExecSame(t, inp) ELSE ExecDest(t, inp)

(* tokens are moved by the protocol's function, then the destination runs *)
EsdtMove(s, to, tok, n, val, inp) ==                \* val: the bytes of the value; [s, e, gas]
  LET me == s.rt.addr
      sc == IsSC(to)
      same == SameShard(me, to)
      left == GasLeft(s)
      bin == [NoIn EXCEPT !.caller = me, !.gp = s.rt.in.gp, !.ct = IF sc THEN EsdtExecCT ELSE Direct, !.gas = left,
                          !.args = IF n > 0 THEN <<tok, NatHex(n), val, to>> ELSE <<tok, val>>]
             @@ [rcv |-> IF n > 0 THEN me ELSE to, fn |-> IF n > 0 THEN nNFT ELSE nESDT, ai |-> FALSE]
      b == BuiltinCall(s, bin)
      fwd == FoldSet(LAMBDA x, acc : SAdd(acc, FoldLeft(LAMBDA g, t : SAdd(g, t.g), 0, b.o.acc[x].ot)), 0, DOMAIN b.o.acc)
      used == SSub(SSub(left, b.o.rem), fwd)
      s1 == UseGas(b.s, used)
      rest == IF sc THEN inp.gas - used ELSE 0
      s2 == IF sc /\ ~same THEN UseGas(s1, rest) ELSE s1
      ot == IF to \in DOMAIN b.o.acc THEN b.o.acc[to].ot ELSE <<>>
      base == IF n = 0 THEN CallText(nESDT, <<tok, val>>)
              ELSE IF same THEN CallText(nNFT, <<tok, NatHex(n), val, to>>)
              ELSE IF Len(ot) = 1 THEN ot[1].d ELSE CallText(nNFT, <<tok, NatHex(n), val>>)
      d == CallText(base, <<inp.fn>> \o inp.args)
      s3 == AddXfer(s2, to, XferRec(0, IF same THEN 0 ELSE rest, 0, d, Direct, me))
  IN IF Failed(b.e) THEN [s |-> b.s, e |-> b.e, gas |-> 0]
     ELSE IF left < used THEN [s |-> b.s, e |-> E("NotEnoughGas"), gas |-> 0]
     ELSE IF sc /\ used > inp.gas THEN [s |-> s1, e |-> E("NotEnoughGas"), gas |-> 0]
     ELSE IF sc /\ rest > GasLeft(s1) THEN [s |-> s1, e |-> E("NotEnoughGas"), gas |-> 0]
     ELSE [s |-> [s3 EXCEPT !.out.logs = @ \o b.o.logs], e |-> NoErr, gas |-> rest]
EsdtExec(s0, v, n, kg, kf, kx) ==
  LET tok == Ld(v.ml, v.a[2], v.a[3], v.m[2])
      c == Indirect(s0, v, 1, 1, 4, 3, kf, 4, kx, 5)
      s == UseGas(PerByte(s0, "DataCopyPerByte", 2 * c.n), Api("TransferValue"))
      nn == Nonneg(n)
      inp == [Inp(s, s.rt.addr, 0, v.a[kg], c.to, c.fn, c.args) EXCEPT
                !.esdt = <<[v |-> c.val, t |-> tok.d, ty |-> IF n > 0 THEN 1 ELSE 0, n |-> nn]>>]
      m == EsdtMove(PushW(PushOut(s)), c.to, tok.d, nn, c.valh, inp)
      t == Push(m.s, "eei", [f |-> v.f, ro |-> FALSE])
  IN IF Failed(tok.e) THEN Now(Fault(s0, tok.e, 1, v.ml))
     ELSE IF Failed(c.e) THEN Now(Fault(s0, c.e, 1, v.ml))
     ELSE IF Failed(m.e) THEN Now(Fault(DropW(DropOut(m.s)), m.e, 1, v.ml))
     ELSE IF SameShard(s.rt.addr, c.to) /\ IsSC(c.to) THEN ExecDest(t, [inp EXCEPT !.gas = m.gas])
     ELSE Now(R(DropW(DropOut(m.s)), 0, <<>>, v.ml))

ValueExec(s0, v) ==
  LET c == Indirect(s0, v, 1, 1, 2, 2, 4, 3, 6, 4)
      s1 == UseGas(s0, Api("TransferValue"))
      s == UseGas(PerByte(s1, "DataCopyPerByte", c.n), Api("TransferValue"))
      me == s.rt.addr
      g == Nonneg(v.a[3])
      inp == Inp(s, me, c.val, v.a[3], c.to, c.fn, c.args)
      x == Transfer(UseGas(s, g), c.to, me, g, 0, c.val, CallText(c.fn, c.args), Direct)
  IN IF Failed(c.e) THEN Now(Fault(s1, c.e, 1, v.ml))
     ELSE IF IsBuiltin(c.fn) THEN Now(R(s, 1, <<>>, v.ml))
     ELSE IF SameShard(me, c.to) /\ IsSC(c.to) THEN ExecDest(Push(s, "eei", [f |-> v.f, ro |-> FALSE]), inp)
     ELSE IF g > GasLeft(s) THEN Now(Fault(s, E("NotEnoughGas"), 1, v.ml))
     ELSE IF Failed(x.e) THEN Now(Fault(x.s, x.e, 1, v.ml)) ELSE Now(R(x.s, 0, <<>>, v.ml))

Create(s0, v, fromSource) ==
  LET a == v.a
      ml == v.ml
      s == UseGas(s0, Api("CreateContract"))
      val == Ld(ml, a[2], 32, v.m[1])
      c == Ld(ml, a[3], IF fromSource THEN 32 ELSE a[5], v.m[2])
      m == Ld(ml, a[4], 2, v.m[3])
      kx == IF fromSource THEN 6 ELSE 7
      x == Args(ml, a[kx], a[kx + 1], a[kx + 2], v.m[4])
      s1 == PerByte(s, "DataCopyPerByte", x.n)
      src == CodeOf(s1, c.d)
      s2 == IF fromSource THEN Touch(s1, c.d) ELSE s1
      inp == Inp(s2, s2.rt.addr, HNat(val.d), a[1], "", nInit, x.args)
  IN IF Failed(val.e) THEN Now(Fault(s, val.e, 1, ml)) ELSE IF Failed(c.e) THEN Now(Fault(s, c.e, 1, ml)) ELSE IF Failed(m.e) THEN Now(Fault(s, m.e, 1, ml))
     ELSE IF Failed(x.e) THEN Now(Fault(s1, x.e, 1, ml))
     ELSE IF fromSource /\ Failed(src.e) THEN Now(Fault(s2, src.e, 1, ml))
     ELSE CreateContract(Push(s2, "eei", [f |-> v.f, ro |-> FALSE]), inp, IF fromSource THEN src.c ELSE c.d, m.d)

(* Go code calls the machine itself: a failure is its result, not its end *)
Direct0(s, v) ==
  LET x == v.in
      inp == [caller |-> x.caller, args |-> x.args, value |-> x.value, ct |-> x.ct, gas |-> x.gas, locked |-> x.locked, oth |-> x.oth, cth |-> x.cth, gp |-> x.gp,
              esdt |-> x.esdt, rcae |-> x.rcae, rcv |-> x.rcv, fn |-> x.fn, ai |-> FALSE]
      t == Push(s, "eei", [f |-> v.f, ro |-> FALSE])
  IN IF v.f = "HostDest" THEN ExecDest(t, inp)
     ELSE IF IsBuiltin(inp.fn) THEN Now(R(s, 1, <<>>, v.ml))
     ELSE ExecSame(t, inp)

Begin(s, v) ==
  LET f == v.f
      withValue == Indirect(s, v, 2, 1, 3, 2, 4, 3, 6, 4)
      without == Indirect(s, v, 2, 1, 0, 0, 3, 2, 5, 3)
  IN CASE f = "executeOnDestContext" -> Sync(s, v, withValue, Api("ExecuteOnDestContext"), s.rt.addr, withValue.val, FALSE, FALSE)
       [] f = "executeOnDestContextByCaller" -> Sync(s, v, withValue, Api("ExecuteOnDestContext"), s.rt.in.caller, withValue.val, FALSE, FALSE)
       [] f = "executeOnSameContext" -> Sync(s, v, withValue, Api("ExecuteOnSameContext"), s.rt.addr, withValue.val, TRUE, FALSE)
       [] f = "delegateExecution" -> Sync(s, v, without, Api("DelegateExecution"), s.rt.addr, s.rt.in.value, TRUE, FALSE)
       [] f = "executeReadOnly" -> Sync(s, v, without, Api("ExecuteReadOnly"), s.rt.addr, s.rt.in.value, TRUE, TRUE)
       [] f = "transferValueExecute" -> ValueExec(s, v)
       [] f = "transferESDTExecute" -> EsdtExec(s, v, 0, 5, 6, 8)
       [] f = "transferESDTNFTExecute" -> EsdtExec(s, v, v.a[5], 6, 7, 9)
       [] f \in {"HostDest", "HostSame"} -> Direct0(s, v)
       [] f = "createContract" -> Create(s, v, FALSE)
       [] f = "deployFromSourceContract" -> Create(s, v, TRUE)

(* x: what EeiRet left; v: the call; ml: the memory now *)
Back(s, x, v, ml) ==
  LET f == v.f
      e == x.e
  IN CASE x.d.f = "now" -> [x.d.x EXCEPT !.s = s]
       [] f \in {"executeOnDestContext", "executeOnDestContextByCaller", "executeOnSameContext", "delegateExecution"} ->
            IF Failed(e) THEN Fault(s, e, 1, ml) ELSE R(s, 0, <<>>, ml)
       [] f \in {"HostDest", "HostSame"} -> R(s, IF Failed(e) THEN 1 ELSE 0, <<>>, ml)
       [] f = "executeReadOnly" ->
            LET t == [s EXCEPT !.rt.ro = x.d.ro] IN IF Failed(e) THEN Fault(t, e, 1, ml) ELSE R(t, 0, <<>>, ml)
       [] f = "transferValueExecute" -> R(s, IF Failed(e) THEN 1 ELSE 0, <<>>, ml)
       [] f \in {"transferESDTExecute", "transferESDTNFTExecute"} ->
            IF Failed(e) THEN R(PopW(PopOut(s)), 1, <<>>, ml) ELSE R(DropW(DropOut(s)), 0, <<>>, ml)
       [] f \in {"createContract", "deployFromSourceContract"} ->
            IF Failed(e) THEN R(s, 1, <<>>, ml)
            ELSE LET k == IF f = "createContract" THEN 6 ELSE 5
                     t == St(s, ml, v.a[k], x.vo.msg)
                 IN IF Failed(t.e) THEN Fault(s, t.e, 1, t.ml) ELSE R(s, 0, <<x.vo.msg>>, t.ml)
=============================================================================
