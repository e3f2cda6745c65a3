-------------------------------- MODULE Gas --------------------------------
(* Gas configurations: which are accepted, and what they make everything cost.  *)
(* Costs are minimal big-endian bytes; a configuration is a record of records.  *)
EXTENDS GasTables, Naturals, Sequences, SequencesExt, FiniteSets, TLC
Sections == {"BaseOperationCost", "ElrondAPICost", "EthAPICost", "BigIntAPICost", "CryptoAPICost", "WASMOpcodeCost"}
Unmetered == "LocalsUnmetered"
NameSeq(s) ==
  CASE s = "BaseOperationCost" -> BaseOperationCostOps [] s = "ElrondAPICost" -> ElrondAPICostOps [] s = "EthAPICost" -> EthAPICostOps
    [] s = "BigIntAPICost" -> BigIntAPICostOps [] s = "CryptoAPICost" -> CryptoAPICostOps [] OTHER -> Append(Instructions, Unmetered)
NamesOf == [s \in Sections |-> ToSet(NameSeq(s))]
(* the engine's costs have 32 bits, all others 64 *)
Room(s) == IF s = "WASMOpcodeCost" THEN 4 ELSE 8
Cost(m, s, n) == IF s \in DOMAIN m THEN (IF n \in DOMAIN m[s] THEN m[s][n] ELSE <<>>) ELSE <<>>
Acceptable(m) == \A s \in Sections : \A n \in NamesOf[s] : Cost(m, s, n) # <<>> /\ Len(Cost(m, s, n)) <= Room(s)
Costs(m) == [s \in Sections |-> [n \in NamesOf[s] |-> m[s][n]]]
Engine(m) == [i \in 1 .. Len(Instructions) |-> m["WASMOpcodeCost"][Instructions[i]]]
(* the same cost for everything but the lock of callbacks and the locals *)
Uniform(v, lock) == [s \in Sections |-> [n \in NamesOf[s] |-> IF n = "AsyncCallbackGasLock" THEN lock ELSE IF n = Unmetered THEN <<100>> ELSE v]]
(* a change of a configuration: <<section, name, cost>>; no name is the whole section, cost <<-1>> is none *)
Change(m, d) ==
  LET s == d[1] n == d[2] IN
  IF n = "" THEN [x \in DOMAIN m \ {s} |-> m[x]]
  ELSE LET old == IF s \in DOMAIN m THEN m[s] ELSE <<>>
           new == IF d[3] = <<-1>> THEN [x \in DOMAIN old \ {n} |-> old[x]] ELSE [x \in DOMAIN old \cup {n} |-> IF x = n THEN d[3] ELSE old[x]]
       IN [x \in DOMAIN m \cup {s} |-> IF x = s THEN new ELSE m[x]]
Changed(m, ds) == FoldLeft(Change, m, ds)
(* the text of a configuration: sections of lines "name = number"; only whole numbers are costs *)
=============================================================================
