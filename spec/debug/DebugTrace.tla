----------------------------- MODULE DebugTrace -----------------------------
(* Recorded requests to the real debugger, alone or several at once: there is   *)
(* an order of those sent at once in which each gets what it got.               *)
EXTENDS DebugWorlds, TraceLib
VARIABLES ws, l, done
Ascii(s) == \A i \in 1 .. Len(s) : s[i] < 128
MsgFits(q, msg, got) == msg = Whatever \/ msg = got \/ (q.via = "http" /\ ~Ascii(msg))
Replies(q, x) ==
  LET r == q.res IN
  IF q.op = "create" THEN r.acc.addr = Bytes(q.addr) /\ r.acc.bal = [neg |-> FALSE, mag |-> Number(q.bal)] /\ r.acc.nonce = q.nonce
  ELSE /\ ~r.err
       /\ r.code = x.o.code /\ r.text = TextOf(x.o.code)
       /\ MsgFits(q, x.o.msg, r.msg)
       /\ r.data = x.o.data
       /\ r.from = Bytes(q.from) /\ r.value = [neg |-> FALSE, mag |-> Number(q.value)]
       /\ q.op \in {"deploy", "upgrade"} /\ r.code = Fine => r.ccode = q.code /\ r.cmeta = MetaOf(q)
       /\ r.gas = q.gas /\ r.price = IF q.price = <<>> THEN DefaultPrice ELSE q.price
(* a creator unknown to the world: it depends on what runs have looked at *)
Unknown(w, q) == q.op = "deploy" /\ Bytes(q.from) \notin DOMAIN w
Known(w, q) == IF Unknown(w, q) THEN Put(w, Bytes(q.from), NoAcc) ELSE w
Fits(w, q) ==
  \/ ~q.res.ok /\ ~q.res.crash /\ (~WellFormed(q) \/ ~Plain(q.world) \/ ~Plain(q.out))
  \/ /\ q.res.ok /\ WellFormed(q)
     /\ \/ Unknown(w, q) /\ ~q.res.err /\ q.res.code = ExecutionFailed
        \/ LET v == Known(w, q) IN
           /\ Replies(q, After(v, q))
           /\ q.op = "deploy" /\ q.res.code = Fine => q.res.addr = NewAddress(v, Bytes(q.from))
Changed(w, q) == IF ~q.res.ok \/ (Unknown(w, q) /\ q.res.code # Fine) THEN w ELSE After(Known(w, q), q).w
E == Trace[l]
(* the outcome of a request sent alone is kept where it says *)
Filed(q) == q.out = "" \/ ~Plain(q.out) \/ ~q.res.ok \/ q.res.kept
(* a world whose files cannot be read is refused, not taken for an empty one *)
Refused(q) == ~q.res.ok /\ ~q.res.crash
Init == ws = <<>> /\ l = 1 /\ done = {}
Next ==
  /\ l <= Len(Trace)
  /\ IF E.e = "new" THEN ws' = <<>> /\ l' = l + 1 /\ done' = {}
     ELSE IF E.e = "spoiled" THEN Refused(E.r[1]) /\ l' = l + 1 /\ UNCHANGED <<ws, done>>
     ELSE \E i \in 1 .. Len(E.r) \ done :
            /\ Len(E.r) = 1 => Filed(E.r[i])
            /\ Fits(World(ws, E.r[i]), E.r[i]) = TRUE
            /\ ws' = Put(ws, Place(E.r[i]), TLCEval(Changed(World(ws, E.r[i]), E.r[i])))
            /\ IF Cardinality(done) + 1 = Len(E.r) THEN l' = l + 1 /\ done' = {} ELSE l' = l /\ done' = done \cup {i}
ASSUME TLCSet(1, 1)
Reached == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
AllAccepted == IF TLCGet(1) - 1 = Len(Trace) THEN PrintT(<<"ACCEPTED", Len(Trace)>>)
               ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
