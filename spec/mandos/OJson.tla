-------------------------------- MODULE OJson --------------------------------
(* Ordered JSON: documents made of strings (kept verbatim, escapes included),  *)
(* booleans, lists and objects.  Parse is the grammar; PrintDoc one rendering.    *)
EXTENDS Integers, Sequences, SequencesExt, Text

Quote == 34  Back == 92  LB == 91  RB == 93  LC == 123  RC == 125  Com == 44  Col == 58
IsWs(c) == c \in {32, 10, 13, 9}
Fail == [ok |-> FALSE, p |-> 0, v |-> [k |-> "none"]]
Got(v, p) == [ok |-> TRUE, p |-> p, v |-> v]            \* p: next position

SkipWs(t, p) == LET q == SelectInSubSeq(t, p, Len(t), LAMBDA c : ~IsWs(c)) IN IF p > Len(t) \/ q = 0 THEN Len(t) + 1 ELSE q
At(t, p) == IF p <= Len(t) THEN t[p] ELSE -1
RECURSIVE StrEnd(_, _)
StrEnd(t, p) ==                                          \* position of the closing quote, 0 if none
  IF p > Len(t) THEN 0
  ELSE IF t[p] = Quote THEN p
  ELSE IF t[p] = Back THEN StrEnd(t, p + 2)
  ELSE StrEnd(t, p + 1)
Str(t, p) == LET e == StrEnd(t, p + 1) IN IF e = 0 THEN Fail ELSE Got([k |-> "s", v |-> SubSeq(t, p + 1, e - 1)], e + 1)
IsDelim(c) == c \in {RB, RC, Com} \/ IsWs(c)
WordEnd(t, p) == LET q == SelectInSubSeq(t, p, Len(t), IsDelim) IN IF q = 0 THEN Len(t) + 1 ELSE q
Word(t, p) ==
  LET e == WordEnd(t, p)  w == SubSeq(t, p, e - 1)
  IN IF w = S("true") THEN Got([k |-> "b", v |-> TRUE], e) ELSE IF w = S("false") THEN Got([k |-> "b", v |-> FALSE], e) ELSE Fail
PutNew(kvs, key, val) == IF \E j \in 1 .. Len(kvs) : kvs[j].key = key THEN kvs ELSE Append(kvs, [key |-> key, val |-> val])

RECURSIVE Value(_, _)
RECURSIVE Items(_, _, _)
RECURSIVE Pairs(_, _, _)
Value(t, p0) ==
  LET p == SkipWs(t, p0)  c == At(t, p) IN
  CASE c = -1 -> Fail
    [] c = Quote -> Str(t, p)
    [] c = LB -> IF At(t, SkipWs(t, p + 1)) = RB THEN Got([k |-> "l", v |-> <<>>], SkipWs(t, p + 1) + 1) ELSE Items(t, p + 1, <<>>)
    [] c = LC -> IF At(t, SkipWs(t, p + 1)) = RC THEN Got([k |-> "m", v |-> <<>>], SkipWs(t, p + 1) + 1) ELSE Pairs(t, p + 1, <<>>)
    [] OTHER -> Word(t, p)
Items(t, p, acc) ==
  LET r == Value(t, p) IN
  IF ~r.ok THEN Fail
  ELSE LET q == SkipWs(t, r.p)  acc2 == Append(acc, r.v) IN
    IF At(t, q) = Com THEN Items(t, q + 1, acc2)
    ELSE IF At(t, q) = RB THEN Got([k |-> "l", v |-> acc2], q + 1)
    ELSE Fail
Pairs(t, p0, acc) ==
  LET p == SkipWs(t, p0) IN
  IF At(t, p) # Quote THEN Fail
  ELSE LET key == Str(t, p) IN
  IF ~key.ok THEN Fail
  ELSE LET q == SkipWs(t, key.p) IN
  IF At(t, q) # Col THEN Fail
  ELSE LET r == Value(t, q + 1) IN
  IF ~r.ok THEN Fail
  ELSE LET e == SkipWs(t, r.p)  acc2 == PutNew(acc, key.v.v, r.v) IN   \* a repeated key keeps its first value
    IF At(t, e) = Com THEN Pairs(t, e + 1, acc2)
    ELSE IF At(t, e) = RC THEN Got([k |-> "m", v |-> acc2], e + 1)
    ELSE Fail
Parse(t) == LET r == Value(t, 1) IN IF r.ok /\ SkipWs(t, r.p) = Len(t) + 1 THEN r ELSE Fail

(* A compact rendering, for the model's own round-trip theorem *)
Q(s) == <<Quote>> \o s \o <<Quote>>
RECURSIVE PrintDoc(_)
Sep(parts) == IF parts = <<>> THEN <<>> ELSE FoldLeft(LAMBDA acc, x : acc \o <<Com, 32>> \o x, parts[1], Tail(parts))
PrintDoc(v) ==
  CASE v.k = "s" -> Q(v.v)
    [] v.k = "b" -> IF v.v THEN S("true") ELSE S("false")
    [] v.k = "l" -> <<LB>> \o Sep([j \in 1 .. Len(v.v) |-> PrintDoc(v.v[j])]) \o <<RB>>
    [] v.k = "m" -> <<LC>> \o Sep([j \in 1 .. Len(v.v) |-> Q(v.v[j].key) \o <<Col>> \o PrintDoc(v.v[j].val)]) \o <<RC>>
=============================================================================
