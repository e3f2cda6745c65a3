------------------------------ MODULE IntMath ------------------------------
(* The saturating integer helpers (package math): the exact result when it   *)
(* is representable in the type, the nearest bound otherwise.                *)
EXTENDS BigNat

MaxOf(type) == CASE type = "uint64" -> IOfNat(Sub(Pow256(8), <<1>>))
                 [] type = "int64"  -> IOfNat(Sub(Pow2(63), <<1>>))
                 [] type = "int"    -> IOfNat(Sub(Pow2(63), <<1>>))
                 [] type = "int32"  -> IOfNat(Sub(Pow2(31), <<1>>))
MinOf(type) == CASE type = "uint64" -> IZero
                 [] type = "int64"  -> MkInt(TRUE, Pow2(63))
                 [] type = "int"    -> MkInt(TRUE, Pow2(63))
                 [] type = "int32"  -> MkInt(TRUE, Pow2(31))
InType(x, type) == ILe(MinOf(type), x) /\ ILe(x, MaxOf(type))
Saturate(x, type) == IF ICmp(x, MaxOf(type)) > 0 THEN MaxOf(type) ELSE IF ICmp(x, MinOf(type)) < 0 THEN MinOf(type) ELSE x

Exact(op, a, b) == CASE op = "add" -> IAdd(a, b) [] op = "sub" -> ISub(a, b) [] op = "mul" -> IMul(a, b)

(* helper name -> <<operation, type, reports an error>> *)
Helper == [AddUint64 |-> <<"add", "uint64", FALSE>>, AddUint64WithErr |-> <<"add", "uint64", TRUE>>,
           AddInt64 |-> <<"add", "int64", FALSE>>, SubUint64 |-> <<"sub", "uint64", FALSE>>,
           MulUint64 |-> <<"mul", "uint64", FALSE>>, MulUint64WithErr |-> <<"mul", "uint64", TRUE>>,
           AddInt32 |-> <<"add", "int32", FALSE>>, AddInt32WithError |-> <<"add", "int32", TRUE>>,
           SubInt |-> <<"sub", "int", FALSE>>]

(* What a call may return: result r, error flag e *)
Result(f, a, b, r, e) ==
  LET h == Helper[f] IN
  LET x == Exact(h[1], a, b) IN
  IF h[3]
  THEN e = ~InType(x, h[2]) /\ (~e => r = x)
  ELSE ~e /\ r = Saturate(x, h[2])
=============================================================================
