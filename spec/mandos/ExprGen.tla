------------------------------ MODULE ExprGen ------------------------------
(* Inputs enumerated from the grammar: every prefix with every operand, alone,  *)
(* concatenated, nested; and all short token sequences for ordered JSON.        *)
EXTENDS Expr, OJson, TLC, Json, IOUtils, FiniteSets
VARIABLE x
Pre == <<"", "file:", "keccak256:", "str:", "``", "''", "address:", "sc:", "u64:", "u32:", "u16:", "u8:", "i64:", "i32:",
              "i16:", "i8:", "biguint:", "nested:", "+", "-", "nested:keccak256:", "keccak256:nested:", "i8:-", "i8:+", "i16:-", "u8:+", "nested:-", "biguint:-">>
Operands == <<"", "0", "1", "7", "127", "128", "129", "255", "256", "32767", "32768", "32769", "65535", "65536", "2147483647", "2147483648", "2147483649",
              "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616",
              "1_000", "1,0_0", "_1", "_", "0x", "0x0", "0xf", "0X0fF", "0x00ff00", "0x1g", "0x12_34", "0b", "0b0", "0b1", "0B1111_1111", "0b100000000", "0b2",
              "0b-1", "-0", "--1", "++1", "+-1", "-+1", "00012", "1 ", " 1", "12a", "true", "false", "truex", "a", "abc", "a#05", "#ff", "a#5", "a#0g", "a#05#06",
              "12345678901234567890123", "123456789012345678901234", "1234567890123456789012345678901", "12345678901234567890123456789012xyz", "a.bin", "none", "_a_", "1e3", "1.5">>
NOps == Len(Operands)
PreOp(n) == {<<p, o>> : p \in 1 .. Len(Pre), o \in 1 .. NOps}
E1 == {S(Pre[p[1]]) \o S(Operands[p[2]]) : p \in PreOp(0)}
Joined == {S(Pre[p]) \o S(Operands[o]) \o <<Bar>> \o S(Pre[q]) \o S("12") : p \in 1 .. Len(Pre), o \in {1, 8, 50}, q \in 1 .. Len(Pre)}
Toks == <<"\"a\"", "true", "{", "}", "[", "]", ",", ":", " ", "\"b\\\\\"", "x">>
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN {<<>>} ELSE LET r == Seqs(n - 1) IN r \cup {Append(s, t) : s \in {q \in r : Len(q) = n - 1}, t \in 1 .. Len(Toks)}
Depth == atoi(IOEnv.DEPTH)
TokText(s) == FoldLeft(LAMBDA acc, t : acc \o S(Toks[t]), <<>>, s)
Out == SetToSeq({[e |-> "expr", in |-> s] : s \in E1 \cup Joined})
OutJ == SetToSeq({[e |-> "oj", in |-> TokText(s)] : s \in Seqs(Depth)})
Init == /\ x = 0
        /\ ndJsonSerialize(IOEnv.OUT, Out) /\ ndJsonSerialize(IOEnv.OUTJ, OutJ)
        /\ PrintT(<<"GENERATED", Len(Out), Len(OutJ)>>)
Next == FALSE /\ UNCHANGED x
=============================================================================
