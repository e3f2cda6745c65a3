------------------------------ MODULE DebugGen ------------------------------
(* Every history of LEN requests, of a few kinds, to two worlds, the first of    *)
(* which has an account and a contract. u0, u1 stand for accounts, c0, c1 for    *)
(* the contracts they deploy first.                                             *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
LEN == atoi(IOEnv.LEN)
VARIABLE h
R(op, w) == [Op |-> op, Via |-> "direct", World |-> w, DB |-> 0, Gas |-> 10000000, From |-> "u0", To |-> "c0", Addr |-> "", Balance |-> "",
             Nonce |-> 0, Value |-> "", Fn |-> "", Code |-> "", How |-> "hex", Args |-> <<>>]
Fn(op, w, fn, args) == [R(op, w) EXCEPT !.Fn = fn, !.Args = args]
Of(w) ==
  << [R("create", w) EXCEPT !.Addr = "u0", !.Balance = "7", !.Nonce = 1],
     [R("create", w) EXCEPT !.Addr = "c0", !.Balance = "5"],
     [R("deploy", w) EXCEPT !.Code = "A", !.Args = <<"80", "01">>],
     [R("deploy", w) EXCEPT !.Code = "B", !.Args = <<"80">>],
     [R("upgrade", w) EXCEPT !.Code = "B", !.Value = "2", !.Args = <<"81", "02">>],
     [R("upgrade", w) EXCEPT !.Code = "bad"],
     Fn("run", w, "s", <<"80", "03">>),
     Fn("run", w, "s", <<"81", "">>),
     Fn("run", w, "f", <<"61">>),
     [Fn("run", w, "p", <<"u1", "01">>) EXCEPT !.Value = "3"],
     [Fn("run", w, "s", <<"80", "04">>) EXCEPT !.Gas = 0],
     [Fn("run", w, "s", <<"80", "05">>) EXCEPT !.Gas = 1],
     Fn("query", w, "s", <<"80", "06">>),
     Fn("query", w, "p", <<"u1", "01">>) >>
Worlds == {"w1", "w2"}
First == << Of("w1")[1], Of("w1")[3] >>
Init == h = <<>>
Next == Len(h) < LEN /\ \E w \in Worlds : \E i \in 1 .. Len(Of(w)) : h' = Append(h, Of(w)[i])
Collect == IF Len(h) = LEN THEN TLCSet(1, Append(TLCGet(1), First \o h)) ELSE TRUE
ASSUME TLCSet(1, <<>>)
Write == ndJsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
