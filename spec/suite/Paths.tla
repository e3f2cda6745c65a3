------------------------------- MODULE Paths -------------------------------
(* Slash-separated paths as sequences of bytes, and shell patterns.          *)
EXTENDS Text
Slash == 47  Star == 42  Quest == 63
Dot == S(".")  DotDot == S("..")
JoinParts(parts) == IF parts = <<>> THEN <<>> ELSE FoldLeft(LAMBDA acc, c : acc \o <<Slash>> \o c, parts[1], Tail(parts))
Clean(p) ==                              \* the shortest path of the same meaning
  IF p = <<>> THEN Dot ELSE
  LET rooted == p[1] = Slash
      add(acc, c) == IF c = <<>> \/ c = Dot THEN acc
                     ELSE IF c # DotDot THEN Append(acc, c)
                     ELSE IF acc # <<>> /\ acc[Len(acc)] # DotDot THEN SubSeq(acc, 1, Len(acc) - 1)
                     ELSE IF rooted THEN acc ELSE Append(acc, c)
      out == JoinParts(FoldLeft(add, <<>>, Split(p, Slash)))
  IN IF rooted THEN <<Slash>> \o out ELSE IF out = <<>> THEN Dot ELSE out
LastSlash(p) == IF \E k \in 1 .. Len(p) : p[k] = Slash THEN CHOOSE k \in 1 .. Len(p) : p[k] = Slash /\ \A j \in k + 1 .. Len(p) : p[j] # Slash ELSE 0
Dir(p) == Clean(SubSeq(p, 1, LastSlash(p)))
Join(a, b) == IF a = <<>> /\ b = <<>> THEN <<>> ELSE IF a = <<>> THEN Clean(b) ELSE IF b = <<>> THEN Clean(a) ELSE Clean(a \o <<Slash>> \o b)
RECURSIVE Matches(_, _)
Matches(pat, s) ==                       \* * and ? stand for characters other than slashes
  IF pat = <<>> THEN s = <<>>
  ELSE IF pat[1] = Star THEN Matches(Tail(pat), s) \/ (s # <<>> /\ s[1] # Slash /\ Matches(pat, Tail(s)))
  ELSE s # <<>> /\ (pat[1] = s[1] \/ (pat[1] = Quest /\ s[1] # Slash)) /\ Matches(Tail(pat), Tail(s))
RECURSIVE PartsLess(_, _)
PartsLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN BytesLess(a[1], b[1]) ELSE PartsLess(Tail(a), Tail(b))
WalkBefore(a, b) == PartsLess(Split(a, Slash), Split(b, Slash))      \* the order in which a directory is walked
=============================================================================
