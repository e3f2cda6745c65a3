------------------------------- MODULE Crypto -------------------------------
(* The cryptographic primitives offered to contracts.                         *)
(*  hashes:     the standard functions, written out in Hashes                 *)
(*  signatures: an ideal signature scheme: verification accepts exactly what  *)
(*              was signed, by the key that signed it                         *)
(*  BLS12-381:  scalars are integers modulo the group order, points are       *)
(*              multiples of the generator (a bijection scalar -> encoding)   *)
EXTENDS BigNat, Hashes, FiniteSets

VARIABLES keys,     \* set of [scheme, id, form]: encodings of public keys
          signed,   \* set of [scheme, id, msg, sig]
          points    \* set of [g, s, ser]: known encodings of multiples of the generators
cvars == <<keys, signed, points>>
CInit == keys = {} /\ signed = {} /\ points = {}

HashOf(alg, m) == CASE alg = "sha256" -> Sha256(m) [] alg = "keccak256" -> Keccak256(m) [] alg = "ripemd160" -> Ripemd160(m)
Hash(alg, m, out) == out = HashOf(alg, m) /\ UNCHANGED cvars

NewKey(scheme, id, forms) ==
  keys' = keys \cup {[scheme |-> scheme, id |-> id, form |-> f] : f \in forms} /\ UNCHANGED <<signed, points>>
Sign(scheme, id, m, sig) ==
  signed' = signed \cup {[scheme |-> scheme, id |-> id, msg |-> m, sig |-> sig]} /\ UNCHANGED <<keys, points>>
(* a DER signature ends where its header says; what follows is not part of it *)
Core(scheme, sig) == IF scheme = "secp256k1" /\ Len(sig) >= 2 /\ Len(sig) >= sig[2] + 2 THEN SubSeq(sig, 1, sig[2] + 2) ELSE sig
Valid(scheme, form, m, sig) ==
  /\ scheme = "bls" => m # <<>>
  /\ \E k \in keys : k.scheme = scheme /\ k.form = form
        /\ \E x \in signed : x.scheme = scheme /\ x.id = k.id /\ x.msg = m /\ x.sig = Core(scheme, sig)
Verify(scheme, form, m, sig, accepted) == accepted = Valid(scheme, form, m, sig) /\ UNCHANGED cvars

(* ---- the scalar field ---- *)
Order == FromBE(<<115, 237, 167, 83, 41, 157, 125, 72, 51, 57, 216, 8, 9, 161, 216, 5, 83, 189, 164, 2, 255, 254, 91, 254, 255, 255, 255, 255, 0, 0, 0, 1>>)
Mod(n) == DivMod(n, Order).r
FNeg(a) == IF a = <<>> THEN <<>> ELSE Sub(Order, a)
ScalarOp(op, a, b, r) ==       \* a, b reduced; is r the result?
  /\ Lt(r, Order)
  /\ CASE op = "add" -> r = Mod(Add(a, b))
       [] op = "sub" -> r = Mod(Add(a, FNeg(b)))
       [] op = "mul" -> r = Mod(Mul(a, b))
       [] op = "neg" -> r = FNeg(a)
       [] op = "one" -> r = <<1>>
       [] op = "zero" -> r = <<>>
       [] op \in {"set", "clone", "bytes"} -> r = a
       [] op = "int" -> r = a
       [] op = "div" -> IF b = <<>> THEN TRUE ELSE Mod(Mul(r, b)) = a
       [] op = "inv" -> IF b = <<>> THEN TRUE ELSE Mod(Mul(r, b)) = <<1>>
Scalar(op, a, b, r) == ScalarOp(op, a, b, r) /\ UNCHANGED cvars
Decodes(b) == Len(b) >= 32 /\ Lt(Trim(SubSeq(b, 1, 32)), Order)     \* the encoding is the first 32 bytes

(* ---- points ---- *)
Known(g, s) == {p \in points : p.g = g /\ p.s = s}
Point(g, s, ser) ==
  /\ \A p \in points : p.g = g => ((p.s = s) <=> (p.ser = ser))
  /\ points' = points \cup {[g |-> g, s |-> s, ser |-> ser]}
  /\ UNCHANGED <<keys, signed>>
=============================================================================
