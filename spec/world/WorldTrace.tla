------------------------------ MODULE WorldTrace ------------------------------
(* Recorded histories of the real modelled blockchain against World.  Every     *)
(* event carries the complete state after it, so whatever else changed shows.   *)
EXTENDS World, TraceLib
VARIABLES w, l
Has(e, f) == f \in DOMAIN e
(* A recorded account.  *)
Tok(t) == [v |-> Z(t.v), ty |-> t.ty, nonce |-> Mag(t.nonce), name |-> t.name, more |-> t.more, props |-> t.props]
Storage(r) == [st |-> Pairs(r.st), tok |-> LET p == Pairs(r.tok) IN [k \in DOMAIN p |-> Tok(p[k])],
               roles |-> Pairs(r.roles), last |-> LET p == Pairs(r.last) IN [k \in DOMAIN p |-> Mag(p[k])]]
Acc(r) == [ex |-> r.ex, nonce |-> Mag(r.nonce), bal |-> Z(r.bal), s |-> Storage(r), code |-> r.code, hash |-> r.hash, meta |-> r.meta,
           owner |-> r.owner, user |-> r.user, shard |-> r.shard, sc |-> r.sc, async |-> r.async, reward |-> Z(r.reward)]
Accs(s) == LET p == Pairs(s) IN [k \in DOMAIN p |-> Acc(p[k])]
(* tk: key of a token = its name and its nonce *)
KeyOf(e) == e.name \o HexText(ToBE(Mag(e.nonce)))
Here(e) == Known(w, e.a)
Failing(e) == w.err
TokOrNone(e) == TokenOf(w, e.a, KeyOf(e))
After(e) ==
  CASE e.e = "new" -> Start
    [] e.e = "clear" -> [Start EXCEPT !.err = w.err, !.root = w.root, !.created = w.created]
    [] e.e = "put" -> SetAcc(w, e.a, Acc(e.r))
    [] e.e = "create" -> SetAcc(w, e.a, NewAccount)
    [] e.e = "createsc" -> SetAcc(w, e.a, [WithCode([NewAccount EXCEPT !.owner = e.owner], e.code) EXCEPT !.meta = "0002"])
    [] e.e \in {"delete", "remove"} -> [w EXCEPT !.a = Del(@, e.a)]
    [] e.e = "update" -> ApplyOuts(w, e.outs, e.dels)
    [] e.e = "ubal" -> IF Here(e) THEN EditAcc(w, e.a, LAMBDA r : [r EXCEPT !.bal = Z(e.v)]) ELSE w
    [] e.e = "udelta" -> IF Here(e) THEN EditAcc(w, e.a, LAMBDA r : [r EXCEPT !.bal = IAdd(@, Z(e.v))]) ELSE w
    [] e.e = "before" -> IF CanPay(w, e.a, Mag(e.limit), Mag(e.price)) THEN Pay(w, e.a, Mag(e.limit), Mag(e.price)) ELSE w
    [] e.e = "backup" -> Backup(w)
    [] e.e = "revert" -> Revert(w, e.i)
    [] e.e = "commit" -> Commit(w)
    [] e.e = "rollback" -> Rollback(w)
    [] e.e = "save" -> Save(w, e.a, e.k, e.v)
    [] e.e = "settok" -> IF e.v.neg THEN w ELSE SetTokenValue(w, e.a, KeyOf(e), Z(e.v))
    [] e.e = "setdata" -> SetToken(w, e.a, KeyOf(e), Tok(e.t))
    [] e.e = "setroles" -> SetRoles(w, e.a, e.name, e.roles)
    [] e.e = "setlast" -> SetLast(w, e.a, e.name, Mag(e.nonce))
    [] e.e \in {"addbal", "subbal"} ->
         LET b == IF e.e = "addbal" THEN IAdd(w.a[e.a].bal, Z(e.v)) ELSE ISub(w.a[e.a].bal, Z(e.v))
         IN IF b.neg THEN w ELSE EditAcc(w, e.a, LAMBDA r : [r EXCEPT !.bal = b])
    [] e.e = "reward" -> EditAcc(w, e.a, LAMBDA r : [r EXCEPT !.reward = IAdd(@, Z(e.v))])
    [] e.e = "claim" -> IF e.from = w.a[e.a].owner THEN EditAcc(w, e.a, LAMBDA r : [r EXCEPT !.reward = IZero]) ELSE w
    [] e.e = "chown" -> IF e.from = w.a[e.a].owner /\ Len(e.to) = Len(e.a) THEN EditAcc(w, e.a, LAMBDA r : [r EXCEPT !.owner = e.to]) ELSE w
    [] e.e = "user" -> EditAcc(w, e.a, LAMBDA r : [r EXCEPT !.user = e.v])
    [] e.e = "incnonce" -> EditAcc(w, e.a, LAMBDA r : [r EXCEPT !.nonce = Add(@, Mag(e.v))])
    [] e.e = "seterr" -> [w EXCEPT !.err = e.on]
    [] e.e = "mocks" -> [w EXCEPT !.mocks = [i \in 1 .. Len(e.m) |-> [c |-> e.m[i].c, n |-> Mag(e.m[i].n), a |-> e.m[i].a]]]
    [] e.e = "blocks" -> [w EXCEPT !.cur = e.cur, !.prev = e.prev, !.hashes = e.hashes, !.root = e.root]
    [] e.e = "newaddr" -> IF w.err THEN w ELSE [w EXCEPT !.created = NewAddress(w, e.c, Mag(e.n), e.low)]
    [] e.e = "savecomp" -> [w EXCEPT !.comp = Put(@, e.k, e.v)]
    [] e.e = "clearcomp" -> [w EXCEPT !.comp = <<>>]
    [] e.e \in {"q", "qb", "qt", "full", "qc", "snap"} -> w
----------------------------------------------------------------------------
OkIf(e, c) == e.res = IF c THEN "ok" ELSE "error"
Zeroes == [nonce |-> <<>>, round |-> <<>>, time |-> <<>>, epoch |-> <<>>, seed |-> ""]
Info(b) == IF b = Nothing THEN Zeroes ELSE b
(* Everything asked about an address.  *)
Query(e) ==
  LET r == IF Here(e) THEN w.a[e.a] ELSE NewAccount
  IN /\ \A i \in 1 .. Len(e.st) : e.st[i][2] = IF w.err THEN "error" ELSE Get(r.s.st, e.st[i][1], "")
     /\ e.shard = ShardOf(w, e.a)
     /\ e.sc = IsContract(w, e.a)
     /\ e.payable = Payable(w, e.a)
     /\ e.exists = Here(e)
     /\ e.user = IF w.err \/ ~Here(e) THEN "error" ELSE "ok"
     /\ ~w.err /\ Here(e) => /\ Mag(e.nonce) = r.nonce /\ Z(e.bal) = r.bal /\ e.code = r.code /\ e.getcode = r.code
                             /\ e.hash = r.hash /\ e.meta = r.meta /\ e.owner = r.owner /\ e.name = r.user
     /\ e.all = IF Here(e) THEN "ok" ELSE "error"
     /\ Here(e) => Pairs(e.state) = r.s.st
     /\ (e.bycode = "none" <=> ~Here(e) \/ r.hash = "")
     /\ e.bycode # "none" => \E x \in DOMAIN w.a : w.a[x].hash = r.hash /\ HexText(w.a[x].code) = e.bycode
BlockQuery(e) ==
  LET c == Info(w.cur)  p == Info(w.prev)
  IN /\ e.cur = c /\ e.prev = p /\ e.root = w.root
     /\ \A i \in 1 .. Len(e.at) : e.at[i][2] = IF w.err THEN "error" ELSE BlockHash(w, Mag(e.at[i][1]), Mag(c.nonce))
TokQuery(e) ==
  LET t == TokOrNone(e)
  IN IF w.err THEN e.res = "error"
     ELSE e.res = "ok" /\ Tok(e.t) = t /\ Here(e) => (Z(e.bal) = t.v)
(* All tokens of an account, by name.  *)
SplitName(k, t) == LET n == HexText(ToBE(t.nonce)) IN
  IF t.nonce = Zero THEN k
  ELSE IF Len(n) > Len(k) \/ SubSeq(k, Len(k) - Len(n) + 1, Len(k)) # n THEN "bad" ELSE SubSeq(k, 1, Len(k) - Len(n))
Full(e) ==
  LET s == w.a[e.a].s
      nm(k) == SplitName(k, s.tok[k])
      held == {k \in DOMAIN s.tok : ~s.tok[k].v.neg /\ s.tok[k].v.mag # <<>>}
      names == {nm(k) : k \in held} \cup {n \in DOMAIN s.roles : s.roles[n] # <<>>} \cup DOMAIN s.last
      all == Pairs(e.full)
      got == [n \in {n \in DOMAIN all : all[n].inst # <<>> \/ all[n].roles # <<>> \/ all[n].last # <<>>} |-> all[n]]
  IN IF \E k \in DOMAIN s.tok : nm(k) = "bad" THEN e.res = "error"
     ELSE /\ e.res = "ok"
          /\ DOMAIN got = names
          /\ \A n \in names :
               /\ got[n].id = n
               /\ got[n].roles = Get(s.roles, n, <<>>)
               /\ Mag(got[n].last) = Get(s.last, n, Zero)
               /\ Len(got[n].inst) = Cardinality({k \in held : nm(k) = n})
               /\ {[v |-> Z(got[n].inst[i].v), nonce |-> Mag(got[n].inst[i].nonce), more |-> got[n].inst[i].more, props |-> got[n].inst[i].props] : i \in 1 .. Len(got[n].inst)}
                  = {[v |-> s.tok[k].v, nonce |-> s.tok[k].nonce, more |-> IF s.tok[k].nonce = Zero THEN "" ELSE s.tok[k].more, props |-> s.tok[k].props] : k \in {k \in held : nm(k) = n}}
          /\ {e.keys[i] : i \in 1 .. Len(e.keys)} = DOMAIN s.tok /\ Len(e.keys) = Cardinality(DOMAIN s.tok)
Conforms(e) ==
  CASE e.e \in {"new", "clear", "put", "create", "createsc", "delete", "backup", "reward", "user", "incnonce", "seterr", "mocks", "blocks", "savecomp", "clearcomp"} -> TRUE
    [] e.e \in {"update", "setroles", "setlast", "setdata", "save", "commit"} -> e.res = "ok"
    [] e.e \in {"ubal", "udelta", "remove"} -> OkIf(e, Here(e))
    [] e.e = "before" -> OkIf(e, CanPay(w, e.a, Mag(e.limit), Mag(e.price)))
    [] e.e = "revert" -> OkIf(e, CanRevert(w, e.i))
    [] e.e = "rollback" -> OkIf(e, CanRevert(w, 0))
    [] e.e = "snap" -> e.res = Latest(w)
    [] e.e = "settok" -> OkIf(e, ~e.v.neg)
    [] e.e = "addbal" -> OkIf(e, ~IAdd(w.a[e.a].bal, Z(e.v)).neg)
    [] e.e = "subbal" -> OkIf(e, ~ISub(w.a[e.a].bal, Z(e.v)).neg)
    [] e.e = "claim" -> OkIf(e, e.from = w.a[e.a].owner) /\ (e.res = "ok" => Z(e.v) = w.a[e.a].reward)
    [] e.e = "chown" -> OkIf(e, e.from = w.a[e.a].owner /\ Len(e.to) = Len(e.a))
    [] e.e = "newaddr" -> IF w.err THEN e.res = "error" ELSE e.res = NewAddress(w, e.c, Mag(e.n), e.low) /\ e.created = e.res
    [] e.e = "q" -> Query(e)
    [] e.e = "qb" -> BlockQuery(e)
    [] e.e = "qt" -> TokQuery(e)
    [] e.e = "full" -> Full(e)
    [] e.e = "qc" -> e.res = Get(w.comp, e.k, "none")
    [] OTHER -> FALSE
(* The state recorded after the event is the specified one.  *)
Same(v, e) == Has(e, "post") => Accs(e.post) = v.a
Init == w = Start /\ l = 1
Next == /\ l <= Len(Trace)
        /\ Conforms(Trace[l]) = TRUE
        /\ w' = After(Trace[l])
        /\ Same(w', Trace[l]) = TRUE
        /\ l' = l + 1
View == l
=============================================================================
