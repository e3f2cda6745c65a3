-------------------------------- MODULE Text --------------------------------
(* Text as sequences of byte values. *)
EXTENDS Integers, Sequences, SequencesExt
LOCAL Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
LOCAL CodeOf(c) == 31 + (CHOOSE k \in 1 .. Len(Printable) : SubSeq(Printable, k, k) = c)
S(str) == [k \in 1 .. Len(str) |-> CodeOf(SubSeq(str, k, k))]

HasPrefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
HasSuffix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
From(s, k) == SubSeq(s, k, Len(s))
DropPrefix(s, p) == From(s, Len(p) + 1)
Without(s, chars) == SelectSeq(s, LAMBDA c : c \notin chars)
IndexOf(s, from, c) == SelectInSubSeq(s, from, Len(s), LAMBDA x : x = c)   \* 0 if absent
RECURSIVE Split(_, _)
Split(s, c) == LET k == SelectInSeq(s, LAMBDA x : x = c)
               IN IF k = 0 THEN <<s>> ELSE <<SubSeq(s, 1, k - 1)>> \o Split(From(s, k + 1), c)
RECURSIVE TrimRight(_, _)
TrimRight(s, c) == IF s = <<>> \/ s[Len(s)] # c THEN s ELSE TrimRight(SubSeq(s, 1, Len(s) - 1), c)

IsHexDigit(c) == c \in 48 .. 57 \/ c \in 65 .. 70 \/ c \in 97 .. 102
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
HexDigit(v) == IF v < 10 THEN 48 + v ELSE 87 + v
HexOk(s) == Len(s) % 2 = 0 /\ \A k \in 1 .. Len(s) : IsHexDigit(s[k])
HexDecode(s) == [k \in 1 .. Len(s) \div 2 |-> 16 * HexVal(s[2 * k - 1]) + HexVal(s[2 * k])]
HexEncode(b) == [k \in 1 .. 2 * Len(b) |-> HexDigit(IF k % 2 = 1 THEN b[(k + 1) \div 2] \div 16 ELSE b[k \div 2] % 16)]

RECURSIVE BytesLessFrom(_, _, _)
BytesLessFrom(a, b, k) ==
  IF k > Len(b) THEN FALSE
  ELSE IF k > Len(a) THEN TRUE
  ELSE IF a[k] # b[k] THEN a[k] < b[k]
  ELSE BytesLessFrom(a, b, k + 1)
BytesLess(a, b) == BytesLessFrom(a, b, 1)              \* lexicographic
=============================================================================
