------------------------------- MODULE WorldGen -------------------------------
(* All short histories of writes, creations, snapshots, reverts, commits and     *)
(* rollbacks: that a revert restores what was taken is checked of the            *)
(* specification, and the histories are replayed into the real one (OUT).        *)
EXTENDS World, Integers, Json, IOUtils
VARIABLES w, h, past
MaxLen == atoi(IOEnv.LEN)
Addr == <<"aa", "cc">>
V == "0" \o ToString(Len(h) + 1)
Out(x) == [a |-> x, deployer |-> "", nonce |-> <<>>, code |-> <<>>, st |-> << <<"01", V>> >>, data |-> "", hasdelta |-> FALSE, hasbal |-> FALSE]
Step(a, x, i) == [a |-> a, x |-> x, i |-> i, v |-> V]
Do(s, v) == h' = Append(h, s) /\ w' = v /\ past' = IF Len(v.snaps) < Len(past) THEN SubSeq(past, 1, Len(v.snaps))
                                                      ELSE IF Len(v.snaps) > Len(past) THEN Append(past, Taken(v)) ELSE past
Init == w = SetAcc(Start, "aa", NewAccount) /\ h = <<>> /\ past = <<>>
Next ==
  /\ Len(h) < MaxLen
  /\ \/ \E x \in {1, 2} : Do(Step("update", Addr[x], 0), ApplyOut(w, Out(Addr[x])))
     \/ \E x \in {1, 2} : Known(w, Addr[x]) /\ Do(Step("save", Addr[x], 0), Save(w, Addr[x], "01", V))
     \/ Do(Step("backup", "", 0), Backup(w))
     \/ \E i \in 0 .. Len(w.snaps) : Do(Step("revert", "", i), Revert(w, i))
     \/ Do(Step("commit", "", 0), Commit(w))
     \/ Do(Step("rollback", "", 0), Rollback(w))
(* Snapshots never change once taken, and reverting gives what was taken.  *)
Kept == w.snaps = past
Exact == Len(h) > 0 /\ h[Len(h)].a = "revert" /\ h[Len(h)].i < Len(w.snaps)
         => \A x \in DOMAIN w.a : w.a[x].s = IF x \in DOMAIN w.snaps[Len(w.snaps)] THEN w.snaps[Len(w.snaps)][x] ELSE EmptyStorage
Interesting == Len(h) = MaxLen /\ \E i \in 1 .. Len(h) : h[i].a \in {"revert", "rollback"}
Collect == IF Interesting THEN TLCSet(1, Append(TLCGet(1), h)) ELSE TRUE
ASSUME TLCSet(1, <<>>)
Write == ndJsonSerialize(IOEnv.OUT, TLCGet(1)) /\ PrintT(<<"GENERATED", Len(TLCGet(1))>>)
=============================================================================
