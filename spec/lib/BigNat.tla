------------------------------ MODULE BigNat ------------------------------
(* Arbitrary-precision naturals and integers for TLC, whose own integers     *)
(* have 32 bits.  A natural is a little-endian sequence of base-256 digits   *)
(* without trailing (most significant) zeros; an integer is a record         *)
(* [neg, mag] with neg = FALSE for zero.                                     *)
EXTENDS Integers, Sequences

Zero == <<>>
RECURSIVE TrimN(_, _)
TrimN(s, n) == IF n = 0 THEN <<>> ELSE IF s[n] # 0 THEN SubSeq(s, 1, n) ELSE TrimN(s, n - 1)
Trim(s) == TrimN(s, Len(s))

Rev(s) == [k \in 1 .. Len(s) |-> s[Len(s) + 1 - k]]
FromBE(bytes) == Trim(Rev(bytes))          \* big-endian bytes, leading zeros allowed
ToBE(n) == Rev(n)                          \* minimal big-endian bytes

RECURSIVE FromNat(_)
FromNat(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o FromNat(n \div 256)

Dig(s, k) == IF k <= Len(s) THEN s[k] ELSE 0

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, k) == IF k = 0 THEN 0 ELSE IF a[k] < b[k] THEN -1 ELSE IF a[k] > b[k] THEN 1 ELSE CmpFrom(a, b, k - 1)
Cmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpFrom(a, b, Len(a))
Lt(a, b) == Cmp(a, b) < 0
Le(a, b) == Cmp(a, b) <= 0
NMax(a, b) == IF Lt(a, b) THEN b ELSE a

(* carry/borrow propagation over a sequence of (possibly negative) digit sums *)
RECURSIVE Carry(_, _, _, _)
Carry(s, k, c, acc) ==
  IF k > Len(s)
  THEN IF c = 0 THEN acc ELSE Carry(s, k, c \div 256, Append(acc, c % 256))
  ELSE LET t == s[k] + c IN Carry(s, k + 1, t \div 256, Append(acc, t % 256))
Norm(s) == Trim(Carry(s, 1, 0, <<>>))

MaxI(x, y) == IF x > y THEN x ELSE y
MinI(x, y) == IF x < y THEN x ELSE y
Add(a, b) == Norm([k \in 1 .. MaxI(Len(a), Len(b)) |-> Dig(a, k) + Dig(b, k)])
Sub(a, b) == Norm([k \in 1 .. Len(a) |-> a[k] - Dig(b, k)])        \* requires b <= a

RECURSIVE ConvSum(_, _, _, _, _)
ConvSum(a, b, k, i, acc) ==                 \* sum of a[i]*b[k+1-i]
  IF i > MinI(k, Len(a)) THEN acc ELSE ConvSum(a, b, k, i + 1, acc + a[i] * b[k + 1 - i])
Mul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE Norm([k \in 1 .. (Len(a) + Len(b) - 1) |-> ConvSum(a, b, k, MaxI(1, k + 1 - Len(b)), 0)])
MulSmall(a, m) == Norm([k \in 1 .. Len(a) |-> a[k] * m])
AddSmall(a, m) == IF a = <<>> THEN FromNat(m) ELSE Norm([a EXCEPT ![1] = @ + m])

Pow256(n) == [k \in 1 .. n + 1 |-> IF k = n + 1 THEN 1 ELSE 0]
RECURSIVE Pow2(_)
Pow2Small(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 16 [] n = 5 -> 32 [] n = 6 -> 64 [] OTHER -> 128
Pow2(n) == [k \in 1 .. (n \div 8) + 1 |-> IF k = (n \div 8) + 1 THEN Pow2Small(n % 8) ELSE 0]

(* Long division, most significant digit first: remainder fits one more digit *)
RECURSIVE QDigit(_, _, _, _)
QDigit(r, b, lo, hi) ==                     \* largest q in lo..hi with q*b <= r
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2 IN IF Le(MulSmall(b, m), r) THEN QDigit(r, b, m, hi) ELSE QDigit(r, b, lo, m - 1)
RECURSIVE DivR(_, _, _, _, _)
DivR(a, b, k, r, q) ==
  IF k = 0 THEN [q |-> Trim(q), r |-> r]
  ELSE LET r1 == Trim(<<a[k]>> \o r)
           d  == IF Lt(r1, b) THEN 0 ELSE QDigit(r1, b, 1, 255)
       IN DivR(a, b, k - 1, IF d = 0 THEN r1 ELSE Sub(r1, MulSmall(b, d)), <<d>> \o q)
DivMod(a, b) == DivR(a, b, Len(a), <<>>, <<>>)     \* requires b # 0

(* decimal text (bytes) *)
RECURSIVE DivSmallR(_, _, _, _, _)
DivSmallR(a, m, k, r, q) ==
  IF k = 0 THEN [q |-> Trim(q), r |-> r]
  ELSE LET t == r * 256 + a[k] IN DivSmallR(a, m, k - 1, t % m, <<t \div m>> \o q)
DivSmall(a, m) == DivSmallR(a, m, Len(a), 0, <<>>)
RECURSIVE DecR(_, _)
DecR(a, acc) == IF a = <<>> THEN acc ELSE LET d == DivSmall(a, 10) IN DecR(d.q, <<48 + d.r>> \o acc)
ToDec(a) == IF a = <<>> THEN <<48>> ELSE DecR(a, <<>>)
RECURSIVE FromDigits(_, _, _, _)
FromDigits(s, base, k, acc) ==                     \* digits already known to be valid
  IF k > Len(s) THEN acc ELSE FromDigits(s, base, k + 1, AddSmall(MulSmall(acc, base), s[k] - 48))

RECURSIVE ToSmall(_, _)
ToSmall(s, k) == IF k > Len(s) THEN 0 ELSE s[k] + 256 * ToSmall(s, k + 1)
ToNat(s) == ToSmall(s, 1)                          \* requires value < 2^31

Pad(s, n) == [k \in 1 .. n |-> IF k <= n - Len(s) THEN 0 ELSE s[k - (n - Len(s))]]  \* left-pad big-endian bytes to n

----------------------------------------------------------------------------
(* Integers *)
MkInt(neg, mag) == [neg |-> neg /\ mag # <<>>, mag |-> mag]
IZero == MkInt(FALSE, <<>>)
IOfNat(m) == MkInt(FALSE, m)
INeg(x) == MkInt(~x.neg, x.mag)
IAbs(x) == MkInt(FALSE, x.mag)
ISign(x) == IF x.mag = <<>> THEN 0 ELSE IF x.neg THEN -1 ELSE 1
IAdd(x, y) ==
  IF x.neg = y.neg THEN MkInt(x.neg, Add(x.mag, y.mag))
  ELSE IF Le(y.mag, x.mag) THEN MkInt(x.neg, Sub(x.mag, y.mag)) ELSE MkInt(y.neg, Sub(y.mag, x.mag))
ISub(x, y) == IAdd(x, INeg(y))
IMul(x, y) == MkInt(x.neg # y.neg, Mul(x.mag, y.mag))
ICmp(x, y) ==
  CASE ~x.neg /\ ~y.neg -> Cmp(x.mag, y.mag)
    [] x.neg /\ y.neg -> Cmp(y.mag, x.mag)
    [] x.neg -> -1
    [] OTHER -> 1
ILe(x, y) == ICmp(x, y) <= 0

(* two's complement *)
AllOnes(n) == [k \in 1 .. n |-> 255]
Compl(be) == [k \in 1 .. Len(be) |-> 255 - be[k]]
IFitsSigned(x, n) == IF x.neg THEN Le(x.mag, Pow2(8 * n - 1)) ELSE x.mag = <<>> \/ (n > 0 /\ Lt(x.mag, Pow2(8 * n - 1)))
ToTwosLen(x, n) ==                                  \* requires IFitsSigned(x, n)
  IF ~x.neg THEN Pad(ToBE(x.mag), n)
  ELSE Pad(ToBE(Sub(Pow256(n), x.mag)), n)
RECURSIVE MinLen(_, _)
MinLen(x, n) == IF IFitsSigned(x, n) THEN n ELSE MinLen(x, n + 1)
ToTwos(x) == IF x.mag = <<>> THEN <<>> ELSE ToTwosLen(x, MinLen(x, MaxI(1, Len(x.mag) - 1)))
FromTwos(be) ==
  IF be = <<>> THEN IZero
  ELSE IF be[1] < 128 THEN IOfNat(FromBE(be))
  ELSE MkInt(TRUE, Sub(Pow256(Len(be)), FromBE(be)))
=============================================================================
