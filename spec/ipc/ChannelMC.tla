------------------------------ MODULE ChannelMC ------------------------------
(* All behaviours of a channel within bounds: what is accepted is what was     *)
(* sent, in order, once, and nothing is skipped silently.  The behaviours are  *)
(* also replayed into the real messengers (OUT).                               *)
EXTENDS Channel, Integers, FiniteSets, TLC, Json, IOUtils
VARIABLES c, h, got, sent, err, turn
MaxSends == atoi(IOEnv.SENDS)
MaxFaults == atoi(IOEnv.FAULTS)
MaxLen == atoi(IOEnv.LEN)
Count(P(_)) == Cardinality({i \in 1 .. Len(h) : P(h[i])})
A(a, s, i) == [a |-> a, side |-> s, i |-> i]
Init == c = Start /\ h = <<>> /\ got = [s \in Sides |-> <<>>] /\ sent = <<>> /\ err = [s \in Sides |-> FALSE] /\ turn = <<0, FALSE>>
(* The sides take turns: one speaks after it has accepted the last thing the other one said.  *)
DoSend(s) == /\ turn[1] = s \/ turn[2]
             /\ turn' = <<s, FALSE>>
             /\ Count(LAMBDA x : x.a = "send") < MaxSends /\ CanSend(c, s)
             /\ c' = Send(c, s, Len(sent) + 1, "k", Len(sent) + 1)
             /\ sent' = Append(sent, [side |-> s, nonce |-> c.n[s] + 1])
             /\ h' = Append(h, A("send", s, 0)) /\ UNCHANGED <<got, err>>
DoFault(s) == \E w \in Faults, i \in 1 .. Len(c.q[s]) :
             /\ Count(LAMBDA x : x.a \in Faults) < MaxFaults /\ CanFault(c, s, w, i)
             /\ c' = Fault(c, s, w, i)
             /\ h' = Append(h, A(w, s, i)) /\ UNCHANGED <<got, err, sent, turn>>
(* An empty pipe is read only after a loss.  *)
DoRecv(s) == /\ \/ Waiting(c, s)
                \/ ~err[s] /\ (c.cut[1 - s] \/ \E i \in 1 .. Len(h) : h[i].a = "drop")
             /\ c' = Receive(c, s)
             /\ got' = IF Accepts(c, s) THEN [got EXCEPT ![s] = Append(@, Head(c.q[1 - s]).id)] ELSE got
             /\ err' = IF Accepts(c, s) THEN err ELSE [err EXCEPT ![s] = TRUE]
             /\ turn' = IF Accepts(c, s) /\ s # turn[1] /\ Head(c.q[1 - s]).id = Len(sent) THEN <<turn[1], TRUE>> ELSE turn
             /\ h' = Append(h, A("recv", s, 0)) /\ UNCHANGED sent
Next == Len(h) < MaxLen /\ \E s \in Sides : DoSend(s) \/ DoFault(s) \/ DoRecv(s)
(* What s accepted was sent by the other one, in that order, each once.  *)
InOrder == \A s \in Sides : \A i \in 1 .. Len(got[s]) :
             /\ sent[got[s][i]].side = 1 - s
             /\ i > 1 => got[s][i - 1] < got[s][i]
(* The other side's messages before an accepted one were accepted, or an error was reported.  *)
NoGap == \A s \in Sides : ~err[s] => \A i \in 1 .. Len(got[s]) :
           \A k \in 1 .. got[s][i] : sent[k].side = 1 - s => \E j \in 1 .. i : got[s][j] = k
Interesting == Len(h) > 0 /\ h[Len(h)].a = "recv" /\ (Len(h) = MaxLen \/ Count(LAMBDA x : x.a = "send") = MaxSends)
Collect == IF Interesting THEN TLCSet(1, Append(TLCGet(1), h)) ELSE TRUE
ASSUME TLCSet(1, <<>>)
Write == ndJsonSerialize(IOEnv.OUT, TLCGet(1)) /\ PrintT(<<"GENERATED", Len(TLCGet(1))>>)
=============================================================================
