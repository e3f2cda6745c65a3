-------------------------------- MODULE World --------------------------------
(* The modelled blockchain of scenarios and debugging (mock/world): accounts,   *)
(* their storage and tokens, snapshots of the storage, and what is asked of it. *)
(* Nonces and gas are naturals (BigNat), balances are integers.                 *)
EXTENDS BigNat, Hashes, Text, FiniteSets, TLC
Nothing == <<>>
Mag(be) == FromBE(be)
Z(x) == MkInt(x.neg, FromBE(x.mag))
----------------------------------------------------------------------------
(* Functions as sets of pairs, from JSON lists of pairs.  *)
FromPairs(s) == [k \in {s[i][1] : i \in 1 .. Len(s)} |-> (CHOOSE i \in 1 .. Len(s) : s[i][1] = k)]
Pairs(s) == LET f == FromPairs(s) IN [k \in DOMAIN f |-> s[f[k]][2]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
(* An empty value is no value.  *)
PutOrDel(f, k, v) == IF v = "" THEN Del(f, k) ELSE Put(f, k, v)
----------------------------------------------------------------------------
EmptyStorage == [st |-> <<>>, tok |-> <<>>, roles |-> <<>>, last |-> <<>>]
(* bytes of code are sequences of numbers, other bytes are hexadecimal texts   *)
NewAccount == [ex |-> TRUE, nonce |-> Zero, bal |-> IZero, s |-> EmptyStorage, code |-> <<>>, hash |-> "", meta |-> "",
               owner |-> "", user |-> "", shard |-> 0, sc |-> FALSE, async |-> "", reward |-> IZero]
Start == [a |-> <<>>, snaps |-> <<>>, err |-> FALSE, mocks |-> <<>>, cur |-> Nothing, prev |-> Nothing, hashes |-> <<>>,
          root |-> "", comp |-> <<>>, created |-> ""]
Known(w, x) == x \in DOMAIN w.a
SetAcc(w, x, r) == [w EXCEPT !.a = Put(@, x, r)]
EditAcc(w, x, F(_)) == SetAcc(w, x, F(w.a[x]))
Set(f, k, v) == [f EXCEPT ![k] = v]
HexText(b) == LET d == HexEncode(b)
                  t == "0123456789abcdef"
                  ch(c) == SubSeq(t, HexVal(c) + 1, HexVal(c) + 1)
                  F[i \in 0 .. Len(d)] == IF i = 0 THEN "" ELSE F[i - 1] \o ch(d[i])
              IN F[Len(d)]
HashOf(code) == HexText(Sha256(code))
Permissive == "0502"
WithCode(r, code) == [r EXCEPT !.code = code, !.hash = HashOf(code), !.sc = TRUE]
----------------------------------------------------------------------------
(* The output of an execution, applied.                                        *)
(* o = [a, deployer, nonce, code, st (pairs), data, hasdelta, delta, hasbal, bal]  *)
ApplyStorage(s, ups) ==
  LET F[i \in 0 .. Len(ups)] == IF i = 0 THEN s.st ELSE PutOrDel(F[i - 1], ups[i][1], ups[i][2])
  IN [s EXCEPT !.st = F[Len(ups)]]
ApplyOut(w, o) ==
  LET r0 == IF Known(w, o.a) THEN w.a[o.a] ELSE [NewAccount EXCEPT !.owner = o.deployer]
      n  == Mag(o.nonce)
      r1 == [r0 EXCEPT !.ex = TRUE,
                       !.bal = IF o.hasdelta THEN IAdd(@, Z(o.delta)) ELSE IF o.hasbal THEN Z(o.bal) ELSE @,
                       !.nonce = NMax(@, n),
                       !.s = ApplyStorage(@, o.st)]
      r2 == IF o.code = <<>> THEN r1 ELSE [WithCode(r1, o.code) EXCEPT !.meta = Permissive]
      r3 == IF o.data = "" THEN r2 ELSE [r2 EXCEPT !.async = o.data]
  IN SetAcc(w, o.a, r3)
ApplyOuts(w, outs, dels) ==
  LET F[i \in 0 .. Len(outs)] == IF i = 0 THEN w ELSE ApplyOut(F[i - 1], outs[i])
      G[i \in 0 .. Len(dels)] == IF i = 0 THEN F[Len(outs)] ELSE [G[i - 1] EXCEPT !.a = Del(@, dels[i])]
  IN G[Len(dels)]
----------------------------------------------------------------------------
(* Snapshots hold the storage of all accounts.  *)
Taken(w) == [x \in DOMAIN w.a |-> w.a[x].s]
Backup(w) == [w EXCEPT !.snaps = Append(@, Taken(w))]
Latest(w) == Len(w.snaps) - 1
CanRevert(w, i) == i >= 0 /\ i < Len(w.snaps)
(* Accounts which did not exist had no storage.  *)
Restored(w, t) == [w EXCEPT !.a = [x \in DOMAIN @ |-> [@[x] EXCEPT !.s = IF x \in DOMAIN t THEN t[x] ELSE EmptyStorage]]]
Revert(w, i) == IF CanRevert(w, i) THEN [Restored(w, w.snaps[i + 1]) EXCEPT !.snaps = SubSeq(@, 1, i + 1)] ELSE w
Commit(w) == [w EXCEPT !.snaps = <<>>]
Rollback(w) == IF CanRevert(w, 0) THEN Commit(Revert(w, 0)) ELSE w
(* Writing through an account also takes a snapshot, after the write.  *)
Save(w, x, k, v) == Backup(EditAcc(w, x, LAMBDA r : [r EXCEPT !.s.st = PutOrDel(@, k, v)]))
----------------------------------------------------------------------------
(* Tokens: t = [v, ty, nonce, name, more, props] by storage key without its prefix.    *)
NoToken(key) == [v |-> IZero, ty |-> 0, nonce |-> Zero, name |-> key, more |-> "", props |-> ""]
TokenOf(w, x, key) == IF Known(w, x) THEN Get(w.a[x].s.tok, key, NoToken(key)) ELSE NoToken(key)
SetToken(w, x, key, t) == EditAcc(w, x, LAMBDA r : [r EXCEPT !.s.tok = Put(@, key, t)])
SetTokenValue(w, x, key, v) == SetToken(w, x, key, [TokenOf(w, x, key) EXCEPT !.v = v])
SetRoles(w, x, name, rs) == EditAcc(w, x, LAMBDA r : [r EXCEPT !.s.roles = Put(@, name, rs)])
SetLast(w, x, name, n) == EditAcc(w, x, LAMBDA r : [r EXCEPT !.s.last = IF n = Zero THEN Del(@, name) ELSE Put(@, name, n)])
(* Payment of gas before a transaction.  *)
Gas(limit, price) == IOfNat(Mul(limit, price))
CanPay(w, x, limit, price) == Known(w, x) /\ ILe(Gas(limit, price), w.a[x].bal)
Pay(w, x, limit, price) == EditAcc(w, x, LAMBDA r : [r EXCEPT !.nonce = Add(@, <<1>>), !.bal = ISub(@, Gas(limit, price))])
----------------------------------------------------------------------------
(* Addresses (64 hexadecimal digits).  *)
Contract(x) == SubSeq(x, 1, 16) = "0000000000000000"
Generated(c, low) == "00000000000000000000" \o "11111111" \o SubSeq(c, 1, 30) \o low \o SubSeq(c, 61, 64)
NewAddress(w, c, n, low) ==
  LET m == {i \in 1 .. Len(w.mocks) : w.mocks[i].c = c /\ w.mocks[i].n = n}
  IN IF m = {} THEN Generated(c, low) ELSE w.mocks[CHOOSE i \in m : \A j \in m : i <= j].a
IsContract(w, x) == IF Known(w, x) THEN w.a[x].sc ELSE Contract(x)
(* the second byte of the metadata has the bit of payable contracts *)
PayableMeta(m) == Len(m) = 4 /\ SubSeq(m, 4, 4) \in {"2", "3", "6", "7", "a", "b", "e", "f"}
Payable(w, x) == IF ~Known(w, x) THEN TRUE ELSE ~w.a[x].sc \/ PayableMeta(w.a[x].meta)
ShardOf(w, x) == IF Known(w, x) THEN w.a[x].shard ELSE 0
(* The hash of the nth block: hashes are listed from the current block back.   *)
BlockHash(w, n, now) ==
  IF Lt(now, n) THEN "error"
  ELSE LET d == Sub(now, n) IN IF Len(d) > 2 \/ ToNat(d) >= Len(w.hashes) THEN "error" ELSE w.hashes[ToNat(d) + 1]
=============================================================================
