VMT = "explicit TLA+ specification of the machine (spec/vm); recorded runs of the real machine are checked by TLC to be its behaviours"
def vm(p, note): c(p, VMT, note + " Programs, worlds, gas and schedules are seeded random; the WebAssembly engine is a stand-in whose instructions only use gas.")
vm("V01", "Gas of every event, frame and output is compared with the specification's, for random call trees, failures, asynchronous calls and deployments.")
vm("V02", "Every output of a failed transaction is compared completely, including code and message.")
vm("V03", "Call trees up to depth 5 with success and failure at every node; all getters and the final output are compared.")
vm("V04", "Every load, store result, lock and storage update is compared, across nested calls, failures and transactions.")
vm("V05", "Read-only calls nested in all other kinds of calls and failures.")
vm("V06", "Balances, transfers and refusals are compared at every read and in the output; the world after each run too.")
vm("V07", "Same-shard, cross-shard, built-in and token asynchronous calls and callbacks, all flags.")
vm("V08", "Deployments, upgrades and creations by contracts with valid and invalid code.")
vm("V09", "Every entry of code is an event: function, code and gas limit are compared; odd names, call types and targets.")
vm("V10", "One in three API calls has boundary pointers, lengths or indices; all memory is compared before and after.")
vm("V11", "Histories with failures, panics, instance limits, epochs and schedules that change; warm instances under the mixed profile.")
vm("V12", "All getters at random points of random call trees.")
vm("V13", "Results computed by spec/lib/BigNat.tla for all handles read back.")
vm("V14", "Every API call's gas compared under random schedules in which every operation has its own price; accepted and rejected schedule changes.")
vm("V15", "A ledger of fungible and non-fungible tokens is part of the specification.")
vm("V17", "Codes with random sets of exports and built-in function sets.")
IPCT = "explicit TLA+ specification of the protocol (spec/ipc): TLC explores it exhaustively, generates the behaviours replayed into the real code, and checks that recorded traces are behaviours of it"
c("I01", IPCT, "Every behaviour of two messengers up to a bounded length with dropped, repeated, altered and inserted frames, and long random histories over both marshalizers; contents by digest.")
c("I02", IPCT, "Random calls of every hook with values of every type across real pipes, and whole runs of the real machine behind the pipes checked against spec/vm.")
c("I03", IPCT, "Every sequence of frames up to a bounded length at both ends, and concurrent callers of a real driver with real processes, restarts, errors and deaths; 30 s without progress counts as waiting forever.")
WT = "explicit TLA+ specification of the modelled blockchain (spec/world): TLC explores it, generates the histories replayed into the real code, and checks recorded traces to be its behaviours"
c("W01", WT, "Random sequences of outputs, queries, token calls, gas payments and block set-ups on random worlds; the whole state of every account is compared after each change.")
c("W02", WT, "Every history of snapshots, writes, creations, reverts, commits and rollbacks up to a bounded length, and long random ones; the storage of every account is compared.")
ST = "explicit TLA+ specification of the meaning of scenario documents (spec/scenario): TLC enumerates documents which the real parser and writer process, and checks what they recorded against the meaning the specification assigns"
c("M03", ST, "Documents with every field and pair of fields of every object, right and wrong values (27 k, thorough: all of them), and random whole scenarios and tests.")
c("M04", ST, "Every state of each part of an account or result against every check of it, every two parts right and wrong (11 k documents, thorough: all of them), and random checks of random blockchains, right and spoiled; the verdict is compared.")
GT = "explicit TLA+ specification of gas configurations (spec/config): TLC enumerates the faults of every operation, the real code processes them, and TLC checks what it recorded against the specification"
c("G02", GT, "Every single fault (missing, zero, extreme values) of every operation, random maps and texts, and histories of schedule changes of real hosts; every table and every instruction's price in the engine is compared.")
DT = "explicit TLA+ specification of the debugger's worlds (spec/debug): TLC enumerates histories of requests which the real debugger serves, and checks recorded requests to be a behaviour of it, ordering those sent at once"
c("D01", DT, "Every history of two (thorough: three) requests of 14 kinds to two worlds after a deployment, and random histories over databases and worlds, directly and over HTTP, alone and at once, well formed or not; every answer is compared.")
c("M06", ST, "Random scenarios, external steps and tests on random blockchains with scripted contracts; the whole blockchain, the result and the verdict are compared after every step.")
c("M07", "explicit TLA+ specification of suites and file resolution (spec/suite): TLC enumerates trees, runs and resolver histories which the real code performs, and checks what was recorded against the specification", "71 k runs (trees x paths x suffixes x exclusions x replacements) and resolver histories, one in twenty (thorough: all); what the executor was given, the verdict and the counts are compared.")
