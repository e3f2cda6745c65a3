---------------------------- MODULE CryptoTrace ----------------------------
EXTENDS Crypto, TraceLib
VARIABLE i
vars == <<keys, signed, points, i>>
Init == CInit /\ i = 1
LE(b) == Trim(b)                                    \* scalars are encoded little-endian
PointScalar(ev) ==
  CASE ev.op = "mul" -> LE(ev.a)
    [] ev.op = "add" -> Mod(Add(LE(ev.a), LE(ev.b)))
    [] ev.op = "sub" -> Mod(Add(LE(ev.a), FNeg(LE(ev.b))))
    [] ev.op = "neg" -> FNeg(LE(ev.a))
    [] ev.op = "mulmul" -> Mod(Mul(LE(ev.a), LE(ev.b)))
    [] ev.op = "null" -> <<>>
    [] ev.op = "base" -> <<1>>
    [] ev.op \in {"clone", "set", "unmarshal"} -> LE(ev.a)
Step(ev) ==
  CASE ev.e = "hash" -> ~ev.panic /\ Hash(ev.alg, ev.in, ev.out)
    [] ev.e = "key" -> NewKey(ev.scheme, ev.id, ToSet(ev.forms))
    [] ev.e = "sign" -> Sign(ev.scheme, ev.id, ev.msg, ev.sig)
    [] ev.e = "verify" -> ~ev.panic /\ Verify(ev.scheme, ev.key, ev.msg, ev.sig, ev.ok)
    [] ev.e = "scalar" -> ~ev.panic /\ ev.ok /\ Scalar(ev.op, LE(ev.a), LE(ev.b), LE(ev.r))
    [] ev.e = "decode" -> ~ev.panic /\ ev.ok = Decodes(ev.a) /\ (ev.ok => LE(ev.r) = LE(SubSeq(ev.a, 1, 32))) /\ UNCHANGED cvars
    [] ev.e = "point" -> ~ev.panic /\ ev.ok /\ Point(ev.g, PointScalar(ev), ev.ser)
    [] ev.e = "equal" -> ~ev.panic /\ ev.ok /\ ev.r = (LE(ev.a) = LE(ev.b)) /\ UNCHANGED cvars
Next == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
=============================================================================
