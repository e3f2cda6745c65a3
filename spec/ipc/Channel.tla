------------------------------ MODULE Channel ------------------------------
(* Two messengers over a pair of pipes that may lose, repeat, reorder, damage  *)
(* or cut what they carry (ipc/common).  Each side has one number for the      *)
(* whole dialogue: incremented by what it sends, and what it receives must     *)
(* bear the next one.                                                          *)
EXTENDS Naturals, Sequences
Sides == {0, 1}
Start == [n |-> [s \in Sides |-> 0],          \* the number of the last message sent or received
          q |-> [s \in Sides |-> <<>>],       \* frames of s on their way
          cut |-> [s \in Sides |-> FALSE]]    \* nothing will follow the frames of s
Frame(c, s, id, kind, content) == [id |-> id, nonce |-> c.n[s] + 1, kind |-> kind, content |-> content, st |-> "ok"]
CanSend(c, s) == ~c.cut[s]
Send(c, s, id, kind, content) ==
  [c EXCEPT !.n[s] = @ + 1, !.q[s] = Append(@, Frame(c, s, id, kind, content))]
RemoveAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Faults == {"drop", "dup", "swap", "garbage", "kind", "cut"}
CanFault(c, s, what, i) == /\ ~c.cut[s] /\ i \in 1 .. Len(c.q[s])
                           /\ what = "swap" => i < Len(c.q[s])
Damage(f, st) == [f EXCEPT !.st = st]
Fault(c, s, what, i) ==
  LET q == c.q[s] IN
  CASE what = "drop" -> [c EXCEPT !.q[s] = RemoveAt(q, i)]
    [] what = "dup" -> [c EXCEPT !.q[s] = SubSeq(q, 1, i) \o SubSeq(q, i, Len(q))]
    [] what = "swap" -> [c EXCEPT !.q[s] = [q EXCEPT ![i] = q[i + 1], ![i + 1] = q[i]]]
    [] what = "garbage" -> [c EXCEPT !.q[s][i].st = "garbage"]
    [] what = "kind" -> [c EXCEPT !.q[s][i].st = "kind"]
    [] what = "cut" -> [c EXCEPT !.q[s] = SubSeq(q, 1, i - 1) \o <<Damage(q[i], "cut")>>, !.cut[s] = TRUE]
(* What side s gets when it asks for the next message.  *)
Waiting(c, s) == c.q[1 - s] # <<>>
Accepts(c, s) == Waiting(c, s) /\ LET f == Head(c.q[1 - s]) IN f.st = "ok" /\ f.nonce = c.n[s] + 1
Receive(c, s) ==
  IF ~Waiting(c, s) THEN c        \* time expires, or the pipe is closed: an error
  ELSE LET f == Head(c.q[1 - s])
           d == [c EXCEPT !.q[1 - s] = Tail(@)]
       IN IF Accepts(c, s) THEN [d EXCEPT !.n[s] = f.nonce] ELSE d
(* A new dialogue.  *)
Reset(c) == [c EXCEPT !.n = [s \in Sides |-> 0]]
=============================================================================
