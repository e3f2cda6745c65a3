------------------------------- MODULE GasGen -------------------------------
(* Changes for replay: every operation without a cost, and with costs at every   *)
(* bound; every section missing.                                                 *)
EXTENDS Gas, Json, IOUtils
VARIABLES s, i, k
Kinds == << <<-1>>, <<>>, <<1>>, <<255, 255, 255, 255>>, <<1, 0, 0, 0, 0>>, <<1, 0, 0, 0, 7>>, <<255, 255, 255, 255, 255, 255, 255, 255>> >>
Init == s \in Sections /\ i \in 0 .. Len(NameSeq(s)) /\ k \in 1 .. (IF i = 0 THEN 1 ELSE Len(Kinds))
Next == UNCHANGED <<s, i, k>>
Collect == TLCSet(1, Append(TLCGet(1), [s |-> s, n |-> IF i = 0 THEN "" ELSE NameSeq(s)[i], v |-> Kinds[k]]))
ASSUME TLCSet(1, <<>>)
Write == ndJsonSerialize(IOEnv.OUT, TLCGet(1))
=============================================================================
