------------------------------- MODULE VmBase -------------------------------
(* Data of the virtual machine's specification: byte strings (as hexadecimal  *)
(* text), saturating gas arithmetic, configuration, errors, world accounts.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, BigNat

CONSTANT Cfg            \* gas schedule, error texts, codes, built-in functions, block data

HUGE == 1073741824      \* numbers are bounded: everything from 2^30 up is HUGE, and stays it
SAdd(a, b) == IF a >= HUGE - b THEN HUGE ELSE a + b
SSub(a, b) == IF a >= HUGE THEN HUGE ELSE IF b > a THEN 0 ELSE a - b
SMul(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a >= HUGE \div b THEN HUGE ELSE a * b
SumSeq(q) == FoldLeft(SAdd, 0, q)

NoF == [x \in {} |-> 0]
Put(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE f @@ (k :> v)
Lookup(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
SumF(f) == FoldSet(LAMBDA k, acc : SAdd(acc, f[k]), 0, DOMAIN f)

----------------------------------------------------------------------------
(* bytes as hexadecimal text *)
LOCAL HexVal == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"} |->
  CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7
    [] c = "8" -> 8 [] c = "9" -> 9 [] c \in {"a", "A"} -> 10 [] c \in {"b", "B"} -> 11 [] c \in {"c", "C"} -> 12
    [] c \in {"d", "D"} -> 13 [] c \in {"e", "E"} -> 14 [] c \in {"f", "F"} -> 15]
LOCAL HexChr == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
HLen(h) == Len(h) \div 2
HSub(h, from, n) == SubSeq(h, 2 * from + 1, 2 * (from + n))       \* n bytes, from offset "from" (0-based)
HByte(h, k) == HexVal[SubSeq(h, 2 * k - 1, 2 * k - 1)] * 16 + HexVal[SubSeq(h, 2 * k, 2 * k)]   \* k-th byte, 1-based
HHasPrefix(h, p) == Len(h) >= Len(p) /\ SubSeq(h, 1, Len(p)) = p
ByteHex(b) == HexChr[b \div 16 + 1] \o HexChr[(b % 16) + 1]
Bytes(h) == [k \in 1 .. HLen(h) |-> HByte(h, k)]
Hex(q) == FoldLeft(LAMBDA acc, b : acc \o ByteHex(b), "", q)
RECURSIVE HStrip(_)
HStrip(h) == IF h # "" /\ SubSeq(h, 1, 2) = "00" THEN HStrip(SubSeq(h, 3, Len(h))) ELSE h
RECURSIVE HZeros(_)
HZeros(n) == IF n <= 0 THEN "" ELSE IF n % 2 = 0 THEN LET h == HZeros(n \div 2) IN h \o h ELSE "00" \o HZeros(n - 1)
HPad(h, n) == HZeros(n - HLen(h)) \o h
RECURSIVE HConcat(_)
HConcat(q) == IF q = <<>> THEN "" ELSE Head(q) \o HConcat(Tail(q))
(* the number a big-endian byte string stands for, bounded *)
HNat(h) == LET t == HStrip(h) IN IF HLen(t) > 4 THEN HUGE ELSE FoldLeft(LAMBDA acc, b : IF acc >= 4194304 THEN HUGE ELSE acc * 256 + b, 0, Bytes(t))
RECURSIVE NatHex(_)
NatHex(n) == IF n = 0 THEN "" ELSE NatHex(n \div 256) \o ByteHex(n % 256)      \* minimal big-endian
HInt(h) == FromTwos(Bytes(h))          \* as an unbounded integer, two's complement
HUInt(h) == IOfNat(FromBE(Bytes(h)))   \* unsigned
IntHexU(x) == Hex(ToBE(x.mag))
IntHexS(x) == Hex(ToTwos(x))
IsHexChr(c) == c \in DOMAIN HexVal
(* text "data": hexadecimal digits of the bytes of hexadecimal text *)
LOCAL AscHex(c) == CASE c = "0" -> "30" [] c = "1" -> "31" [] c = "2" -> "32" [] c = "3" -> "33" [] c = "4" -> "34" [] c = "5" -> "35" [] c = "6" -> "36"
                     [] c = "7" -> "37" [] c = "8" -> "38" [] c = "9" -> "39" [] c = "a" -> "61" [] c = "b" -> "62" [] c = "c" -> "63" [] c = "d" -> "64"
                     [] c = "e" -> "65" [] c = "f" -> "66" [] c = " " -> "20"
HexOfHex(h) == FoldLeft(LAMBDA acc, k : acc \o AscHex(SubSeq(h, k, k)), "", [k \in 1 .. Len(h) |-> k])
At == "40"                                                        \* the byte '@'
CallText(fn, args) == fn \o FoldLeft(LAMBDA acc, a : acc \o At \o HexOfHex(a), "", args)

(* call data: function@hex@hex..., or an error *)
LOCAL HexDigitByte(b) == b \in 48 .. 57 \/ b \in 65 .. 70 \/ b \in 97 .. 102
LOCAL DigitVal(b) == IF b <= 57 THEN b - 48 ELSE IF b <= 70 THEN b - 55 ELSE b - 87
LOCAL HexTextOk(q) == Len(q) % 2 = 0 /\ \A k \in 1 .. Len(q) : HexDigitByte(q[k])
LOCAL Unhex(q) == Hex([k \in 1 .. Len(q) \div 2 |-> 16 * DigitVal(q[2 * k - 1]) + DigitVal(q[2 * k])])
ParseData(h) ==
  LET n == HLen(h)
      at == SelectSeq([k \in 1 .. n |-> k], LAMBDA k : SubSeq(h, 2 * k - 1, 2 * k) = At)
      m == Len(at)
      end(j) == IF j > m THEN n + 1 ELSE at[j]                        \* where the j-th token ends
      tok(j) == Bytes(SubSeq(h, 2 * at[j - 1] + 1, 2 * end(j) - 2))
      fn == SubSeq(h, 1, 2 * end(1) - 2)
  IN IF fn = "" \/ \E j \in 2 .. m + 1 : ~HexTextOk(tok(j)) THEN [ok |-> FALSE, fn |-> "", args |-> <<>>]
     ELSE [ok |-> TRUE, fn |-> fn, args |-> [j \in 1 .. m |-> Unhex(tok(j + 1))]]

----------------------------------------------------------------------------
(* names used by the machine, as hexadecimal text *)
nInit == "696e6974"
nCtor == "736f6c69646974792e63746f72"
nCallBack == "63616c6c4261636b"
nUpgrade == "75706772616465436f6e7472616374"
nESDT == "455344545472616e73666572"
nNFT == "455344544e46545472616e73666572"
sArwen == "415257454e40"
sAsync == "4153594e43"
sTimelock == "415257454e4054494d454c4f434b"

Gas(sec, name) == Cfg.gas[sec][name]
Base(name) == Gas("BaseOperationCost", name)
Api(name) == Gas("ElrondAPICost", name)
Big(name) == Gas("BigIntAPICost", name)
Cry(name) == Gas("CryptoAPICost", name)

(* errors and the return codes they are reported with *)
RcOf(n) ==
  CASE n = "SignalError" -> 4
    [] n = "FuncNotFound" -> 1
    [] n = "NonvoidSignature" -> 2
    [] n \in {"InvalidFunction", "InitFuncCalledInRun", "CallBackFuncCalledInRun", "CallBackFuncNotExpected", "InvalidFunctionName"} -> 4
    [] n = "NotEnoughGas" -> 5
    [] n = "ContractNotFound" -> 3
    [] n \in {"ContractInvalid", "MemoryMissing"} -> 9
    [] n \in {"UpgradeFailed", "InvalidUpgradeArguments"} -> 11
    [] n = "InsufficientFunds" -> 7
    [] OTHER -> 10
ErrText(n) == Cfg.errs[n]
E(n) == [n |-> n, m |-> ErrText(n), rc |-> RcOf(n)]
NoErr == [n |-> "", m |-> "", rc |-> 0]
AnyText == "?"                              \* a text that is not specified
ESay(n, m) == [n |-> n, m |-> m, rc |-> RcOf(n)]
EAny(n) == [n |-> n, m |-> AnyText, rc |-> 10]
Failed(e) == e.n # ""
RcText(c) ==                            \* hexadecimal text of the names of return codes
  CASE c = 0 -> "6f6b" [] c = 1 -> "66756e6374696f6e206e6f7420666f756e64"
    [] c = 2 -> "77726f6e67207369676e617475726520666f722066756e6374696f6e"
    [] c = 3 -> "636f6e7472616374206e6f7420666f756e64" [] c = 4 -> "75736572206572726f72"
    [] c = 5 -> "6f7574206f6620676173" [] c = 6 -> "6163636f756e7420636f6c6c6973696f6e"
    [] c = 7 -> "6f7574206f662066756e6473" [] c = 8 -> "63616c6c20737461636b206f766572666c6f77"
    [] c = 9 -> "636f6e747261637420696e76616c6964" [] c = 10 -> "657865637574696f6e206661696c6564"
    [] OTHER -> "756e6b6e6f776e206572726f722c20636f64653a203131"
MemErr(n) == [n |-> n, m |-> "6d656d206c6f61643a20" \o ErrText(n), rc |-> 10]

----------------------------------------------------------------------------
(* accounts of the world: [b balance, n nonce, c code, m metadata, o owner, s storage, t tokens] *)
IsSC(a) == HLen(a) = 32 /\ SubSeq(a, 1, 16) = "0000000000000000"
ShardOf(a) == IF a = "" THEN 0 ELSE HByte(a, HLen(a)) \div 128
SameShard(a, b) == ShardOf(a) = ShardOf(b)
MetaBit(m, k, bit) == HLen(m) = 2 /\ (HByte(m, k) \div bit) % 2 = 1
Upgradeable(m) == MetaBit(m, 1, 1)
Readable(m) == MetaBit(m, 1, 4)
Payable(m) == MetaBit(m, 2, 2)
IsPayable(w, a) == ~IsSC(a) \/ (a \in DOMAIN w /\ Payable(w[a].m))
NoAccount == [b |-> 0, n |-> 0, c |-> "", m |-> "", o |-> "", s |-> NoF, t |-> NoF]
ChainStorage(w, a, k) == IF a \in DOMAIN w THEN Lookup(w[a].s, k, "") ELSE ""
TokenKey(tok, n) == tok \o HPad(NatHex(n), 8)
NewScAddress(creator, nonce) ==        \* the world's rule for addresses of new contracts
  "0000000000000000" \o Cfg.vmtype \o ByteHex((16 * HByte(creator, 11) + nonce + 1) % 256) \o SubSeq(creator, 23, Len(creator))
IsBuiltin(fn) == fn \in DOMAIN Cfg.bi  \* active protocol functions

(* what the machine sees in code *)
Code(c) == IF c \in DOMAIN Cfg.codes THEN Cfg.codes[c] ELSE [ok |-> FALSE, err |-> AnyText, mem |-> FALSE, pages |-> 0, max |-> 0, ex |-> <<>>, im |-> <<>>]
Exports(c, fn) == \E k \in 1 .. Len(Code(c).ex) : Code(c).ex[k].n = fn
IsAscii(h) == \A k \in 1 .. HLen(h) : HByte(h, k) < 128
ReservedName(fn) == IsBuiltin(fn) \/ fn = nUpgrade \/ fn \in ToSet(Cfg.eei)
esdtImports == {"transferESDTExecute", "transferESDTNFTExecute", "transferValueExecute", "getESDTBalance", "getESDTTokenData",
  "getESDTTokenType", "getESDTTokenNonce", "getCurrentESDTNFTNonce", "getESDTNFTNameLength", "getESDTNFTAttributeLength",
  "getESDTNFTURILength", "bigIntGetESDTExternalBalance"}
LOCAL BadName(f) == f = "" \/ HLen(f) >= 256 \/ ~IsAscii(f) \/ ReservedName(f)
InvalidCode(c, esdtEnabled) ==             \* why code may not become a contract
  LET ex == Code(c).ex
      bad == SelectSeq(ex, LAMBDA x : BadName(x.n))
      non == SelectSeq(ex, LAMBDA x : ~x.void)
      says(n, x) == ESay(n, ErrText(n) \o "3a20" \o x.n)
  IN IF ~Code(c).ok THEN ESay("CannotInstantiate", Code(c).err)
     ELSE IF ~Code(c).mem THEN E("MemoryMissing")
     ELSE IF Len(bad) + Len(non) > 1 THEN EAny("NotValid")
     ELSE IF bad # <<>> THEN says("InvalidFunctionName", bad[1]) ELSE IF non # <<>> THEN says("NonvoidSignature", non[1])
     ELSE IF ~esdtEnabled /\ \E k \in 1 .. Len(Code(c).im) : Code(c).im[k] \in esdtImports THEN E("ContractInvalid") ELSE NoErr
(* code that may become a contract *)
ValidCode(c, esdtEnabled) == ~Failed(InvalidCode(c, esdtEnabled))
=============================================================================
