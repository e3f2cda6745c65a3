-------------------------------- MODULE Expr --------------------------------
(* Scenario (mandos) value expressions: text -> bytes, or an error.          *)
EXTENDS BigNat, Text, Hashes

Ok(v) == [ok |-> TRUE, v |-> v]
Bad == [ok |-> FALSE, v |-> <<>>]

pFile == S("file:")      pKeccak == S("keccak256:")
pStr == S("str:")        pTicks == S("``")     pQuotes == S("''")
pAddr == S("address:")   pSc == S("sc:")
tTrue == S("true")       tFalse == S("false")
pBig == S("biguint:")    pNested == S("nested:")
FixedU == << <<S("u64:"), 8>>, <<S("u32:"), 4>>, <<S("u16:"), 2>>, <<S("u8:"), 1>> >>
FixedI == << <<S("i64:"), 8>>, <<S("i32:"), 4>>, <<S("i16:"), 2>>, <<S("i8:"), 1>> >>
Plus == 43  Minus == 45  Comma == 44  Underscore == 95  Bar == 124  Hash == 35

(* ---- numbers ---- *)
Digits(s, base) ==                       \* optional sign, then at least one digit; negative values are errors
  LET signed == s # <<>> /\ s[1] \in {Plus, Minus}
      d == IF signed THEN From(s, 2) ELSE s
  IN IF d = <<>> \/ \E k \in 1 .. Len(d) : d[k] < 48 \/ d[k] >= 48 + base THEN Bad
     ELSE LET n == FromDigits(d, base, 1, <<>>)
          IN IF signed /\ s[1] = Minus /\ n # <<>> THEN Bad ELSE Ok(ToBE(n))
Unsigned(s) ==                           \* minimal bytes; hexadecimal keeps the digits as written
  LET clean == Without(s, {Underscore, Comma})
  IN IF HasPrefix(s, S("0x")) \/ HasPrefix(s, S("0X"))
     THEN LET h == From(s, 3)
              e == IF Len(h) % 2 = 1 THEN <<48>> \o h ELSE h
          IN IF HexOk(e) THEN Ok(HexDecode(e)) ELSE Bad
     ELSE IF HasPrefix(s, S("0b")) \/ HasPrefix(s, S("0B")) THEN Digits(From(clean, 3), 2)
     ELSE Digits(clean, 10)
UnsignedFixed(s, width) ==
  LET r == Unsigned(s) IN IF ~r.ok \/ Len(r.v) > width THEN Bad ELSE Ok(Pad(r.v, width))
Number(s, width) ==                      \* width 0: shortest form
  IF s = <<>> THEN Bad
  ELSE IF s[1] \in {Plus, Minus}
  THEN LET r == Unsigned(From(s, 2))
           x == MkInt(s[1] = Minus, FromBE(r.v))
       IN IF ~r.ok THEN Bad
          ELSE IF width = 0 THEN Ok(ToTwos(x))
          ELSE IF IFitsSigned(x, width) THEN Ok(ToTwosLen(x, width)) ELSE Bad
  ELSE IF width = 0 THEN Unsigned(s) ELSE UnsignedFixed(s, width)
WithLength(b) == Pad(ToBE(FromNat(Len(b))), 4) \o b

(* ---- addresses: a name padded with '_', optionally ending in a shard byte ---- *)
Fill(name, zeros) == [k \in 1 .. 32 |-> IF k <= zeros THEN 0 ELSE IF k - zeros <= Len(name) THEN name[k - zeros] ELSE Underscore]
Address(s, zeros) ==
  LET t == Split(s, Hash)
  IN CASE Len(t) = 1 -> Ok(Fill(t[1], zeros))
       [] Len(t) = 2 -> IF Len(t[2]) = 2 /\ HexOk(t[2]) THEN Ok([Fill(t[1], zeros) EXCEPT ![32] = HexDecode(t[2])[1]]) ELSE Bad
       [] OTHER -> Bad

(* ---- expressions; files: sequence of [path, data] ---- *)
FileData(files, path) ==
  LET k == SelectInSeq(files, LAMBDA f : f.path = path) IN IF k = 0 THEN Bad ELSE Ok(files[k].data)
FixedOf(s, table) == SelectInSeq(table, LAMBDA e : HasPrefix(s, e[1]))
Join2(a, b) == IF a.ok /\ b.ok THEN Ok(a.v \o b.v) ELSE Bad

RECURSIVE Interp(_, _)
Interp(s, files) ==
  IF s = <<>> THEN Ok(<<>>)
  ELSE IF HasPrefix(s, pFile) THEN FileData(files, DropPrefix(s, pFile))
  ELSE IF HasPrefix(s, pKeccak)
       THEN LET r == Interp(DropPrefix(s, pKeccak), files) IN IF r.ok THEN Ok(Keccak256(r.v)) ELSE Bad
  ELSE LET parts == Split(s, Bar) IN
  IF Len(parts) > 1 THEN FoldLeft(LAMBDA acc, p : IF acc.ok THEN Join2(acc, Interp(p, files)) ELSE acc, Ok(<<>>), parts)
  ELSE IF s = tFalse THEN Ok(<<>>)
  ELSE IF s = tTrue THEN Ok(<<1>>)
  ELSE IF HasPrefix(s, pStr) THEN Ok(DropPrefix(s, pStr))
  ELSE IF HasPrefix(s, pTicks) THEN Ok(DropPrefix(s, pTicks))
  ELSE IF HasPrefix(s, pQuotes) THEN Ok(DropPrefix(s, pQuotes))
  ELSE IF HasPrefix(s, pAddr) THEN Address(DropPrefix(s, pAddr), 0)
  ELSE IF HasPrefix(s, pSc) THEN Address(DropPrefix(s, pSc), 8)
  ELSE LET u == FixedOf(s, FixedU)  i == FixedOf(s, FixedI) IN
  IF u > 0 THEN UnsignedFixed(DropPrefix(s, FixedU[u][1]), FixedU[u][2])
  ELSE IF i > 0 THEN Number(DropPrefix(s, FixedI[i][1]), FixedI[i][2])
  ELSE IF HasPrefix(s, pBig) THEN LET r == Unsigned(DropPrefix(s, pBig)) IN IF r.ok THEN Ok(WithLength(r.v)) ELSE Bad
  ELSE IF HasPrefix(s, pNested) THEN LET r == Interp(DropPrefix(s, pNested), files) IN IF r.ok THEN Ok(WithLength(r.v)) ELSE Bad
  ELSE Number(s, 0)

(* Trees: [k |-> "s", v |-> text], [k |-> "b"], [k |-> "l", v |-> seq], [k |-> "m", v |-> seq of [key, val]]; *)
(* lists concatenate their items, objects their values in the order of the keys. *)
RECURSIVE InterpTree(_, _)
InterpTree(t, files) ==
  LET all(items) == FoldLeft(LAMBDA acc, x : IF acc.ok THEN Join2(acc, InterpTree(x, files)) ELSE acc, Ok(<<>>), items) IN
  CASE t.k = "s" -> Interp(t.v, files)
    [] t.k = "l" -> all(t.v)
    [] t.k = "m" -> LET sorted == SortSeq(t.v, LAMBDA a, b : BytesLess(a.key, b.key)) IN all([k \in 1 .. Len(sorted) |-> sorted[k].val])
    [] OTHER -> Bad

----------------------------------------------------------------------------
(* Human-readable forms of bytes *)
IsPrintable(b) == b # <<>> /\ \A k \in 1 .. Len(b) : b[k] \in 32 .. 126
Hex(b) == S("0x") \o HexEncode(b)
Shown(b, form) ==          \* may `form` be the hint-less rendering of b?
  IF b = <<>> THEN form = <<>>
  ELSE IF IsPrintable(b) THEN form = Hex(b) \o S(" (str:") \o b \o S(")")
  ELSE IF Len(b) < 15 THEN form = Hex(b) \o S(" (") \o ToDec(FromBE(b)) \o S(")")
  ELSE HasPrefix(form, Hex(b) \o S(" (str:\"")) /\ HasSuffix(form, S("\")"))
RenderedAddress(b, form) ==
  IF Len(b) # 32 THEN Shown(b, form)
  ELSE LET zeros == \A k \in 1 .. 8 : b[k] = 0
           body == IF zeros THEN From(b, 9) ELSE b
           pre == IF zeros THEN pSc ELSE pAddr
       IN form = IF b[32] = Underscore THEN pre \o TrimRight(body, Underscore)
                 ELSE pre \o TrimRight(SubSeq(body, 1, Len(body) - 1), Underscore) \o <<Hash>> \o HexEncode(<<b[32]>>)
Rendered(hint, b, form) ==
  CASE hint = "number" -> form = ToDec(FromBE(b))
    [] hint = "str" -> form = pStr \o b
    [] hint = "address" -> RenderedAddress(b, form)
    [] hint = "code" -> form = (IF b = <<>> THEN <<>> ELSE IF Len(b) > 10 THEN Hex(SubSeq(b, 1, 10)) \o S("...") ELSE Hex(b))
    [] hint = "none" -> Shown(b, form)
(* Forms that are expressions denote the original value *)
RoundTrip(hint, b, form) ==
  LET r == Interp(form, <<>>) IN
  CASE hint = "number" -> r.ok /\ FromBE(r.v) = FromBE(b)
    [] hint = "str" -> (\E k \in 1 .. Len(b) : b[k] = Bar) \/ (r.ok /\ r.v = b)
    [] hint = "address" -> Len(b) # 32 \/ (\E k \in 1 .. 31 : b[k] \in {Bar, Hash}) \/ (r.ok /\ r.v = b)
    [] hint = "code" -> Len(b) > 10 \/ (r.ok /\ r.v = b)
    [] OTHER -> TRUE
=============================================================================
