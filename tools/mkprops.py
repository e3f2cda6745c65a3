import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=None
    P.append(d)
H="arwen/host/"; C="arwen/contexts/"; E="arwen/elrondapi/"
p("V01","Gas is conserved across every execution",
 "For every contract call, deployment or upgrade that ends with return code Ok, the gas remaining plus the gas used reported for all output accounts plus the gas limit and locked gas of all outgoing transfers equals exactly the gas provided (plus the gas that was locked for it, for a callback). A contract never runs past its gas limit, gas left unused by a nested call returns to its caller, and a failed execution reports zero gas remaining.",
 ["inputs","programs"],"every input, contract program (sequence of API calls and nested calls), gas limit and gas schedule",
 "The VM packages' tests do not link here at all; upstream tests sample a few contracts and gas limits, never every interleaving of nested, failed and out-of-gas calls.",
 [C+"metering.go",H+"execution.go",C+"output.go",C+"runtime.go"],
 [("gas state stack and merge",C+"metering.go"),("restore of unused gas",H+"execution.go finishExecuteOnDestContext"),("final balance check",C+"metering.go checkGas")],
 [("points used","gas spent on the running instance","wasmer instance"),("gasUsedByAccounts","gas attributed per account",C+"metering.go")],["VMOutput.GasRemaining","OutputAccount.GasUsed","OutputTransfers.GasLimit/GasLocked"])
p("V02","A failed execution produces no effects",
 "Whenever a top-level call, deployment or upgrade does not succeed (contract error, out of gas, missing function, invalid code, insufficient funds, failed bounds check), the returned output has a return code other than Ok that matches the cause, and contains no output accounts, storage updates, transfers, logs, return data, gas remaining or gas refund. A message signalled by the contract is the return message.",
 ["inputs","programs"],"every failing execution: any cause, at any point of any contract program, at any nesting depth",
 "Failure can strike after any prefix of effects; tests sample a handful of prefixes and do not link here.",
 [C+"output.go",H+"execution.go",H+"arwen.go",H+"asyncCall.go"],
 [("error output construction",C+"output.go CreateVMOutputInCaseOfError"),("breakpoint handling",H+"breakpoint*.go")],None,["VMOutput"])
p("V03","Nested calls are isolated and roll back on failure",
 "When a contract calls another contract (on the destination's context or on its own context), a nested call that fails leaves the caller's storage, balances, transfers, logs, return data, arguments and big integers exactly as they were before the call (only gas is consumed), and a nested call that succeeds adds its effects to the caller's in chronological order. A contract called on its own context never sees the caller's return data, big integers or memory; after the call the caller continues with its own address, caller, value, arguments and read-only mode.",
 ["inputs","programs"],"every tree of nested calls, with success or failure at every node and any API calls in between",
 "The property quantifies over call trees; tests run fixed parent/child contracts and do not link here.",
 [H+"execution.go",C+"output.go",C+"runtime.go",C+"bigint.go",C+"storage.go",C+"blockchain.go",E+"elrondei.go"],
 [("context state stacks","PushState/PopSetActiveState/PopMergeActiveState/PopDiscard of all contexts"),("output censoring",C+"output.go CensorVMOutput")],None,["VMOutput","values returned by API calls after the nested call"])
p("V04","Storage reads return the latest write; updates report the final values",
 "A contract reading its storage obtains the value most recently written to that key in the same transaction (by any non-failed call on that account), or the persisted value if there is none; store operations report unchanged, added, modified or deleted accordingly. After success, the storage updates of each account carry, for every written key, the final value under that key, and no contract ever changes another account's storage, or keys under the protocol's or the VM's protected prefixes. Reading another account's storage yields data only if that account's code metadata marks it readable.",
 ["inputs","programs","histories"],"every sequence of store/load calls on any keys and values, interleaved with nested calls that succeed or fail, over any persisted state",
 "Unit tests use a mocked host and a few keys; combinations with nested calls and rollbacks are not reached.",
 [C+"storage.go",C+"output.go",E+"elrondei.go",E+"smallIntOps.go",E+"bigIntOps.go","arwen/helpers.go"],
 [("storage update cache",C+"storage.go getStorageFromAddressUnmetered/SetStorage"),("protected key checks",C+"storage.go")],None,["OutputAccount.StorageUpdates","API return values"])
p("V05","Read-only execution changes nothing",
 "While a contract executes in read-only mode, including in any contract it calls from there, no storage write, event log or contract creation takes effect, while reads and value transfers behave as usual. When the read-only call returns, successful or not, the caller is back in the mode it was in before the call.",
 ["inputs","programs"],"every program run in a read-only call, nested to any depth and entered from read-only or normal mode",
 "No test nests read-only calls or mixes them with failures; the host tests do not link here.",
 [E+"elrondei.go",C+"storage.go",C+"output.go",C+"runtime.go",H+"execution.go"],
 [("read-only flag",C+"runtime.go"),("guards",C+"storage.go SetStorage, "+C+"output.go WriteLog, "+H+"execution.go CreateNewContract")],None,["VMOutput","getter API results"])
p("V06","Value transfers conserve balances and never overdraw",
 "The balance changes in the output of a successful execution sum to the call value that came with the transaction; each transfer moves exactly its value from the sender contract to the recipient. No transfer with a negative value, or with a value above the sender's current balance (persisted balance plus changes made so far), ever takes effect, and a value sent with a call that fails stays with the sender; balances that contracts read always include changes made so far in the transaction.",
 ["inputs","programs"],"every sequence of transfers, value-carrying nested calls, failures and balance reads, for all amounts",
 "Tests check fixed amounts on mocked hosts; conservation is a whole-history invariant.",
 [C+"output.go",C+"blockchain.go",H+"execution.go",E+"elrondei.go",E+"bigIntOps.go"],
 [("funds check and delta update",C+"output.go TransferValueOnly"),("balance including deltas",C+"blockchain.go GetBalanceBigInt")],None,["OutputAccount.BalanceDelta","OutputTransfers","getExternalBalance"])
p("V07","Every asynchronous call is answered by exactly one callback",
 "An asynchronous call to a contract in the same shard runs the destination with the remaining gas and then the caller's callback exactly once, with the return code and either the returned data or the error message as arguments; if the destination fails its effects are rolled back, and if the callback fails its effects are rolled back without failing the transaction. An asynchronous call to an account without local code leaves the shard as exactly one transfer carrying the data, value, remaining gas and locked gas; a contract executed by an asynchronous call from another shard answers with exactly one callback transfer carrying its return code and data. Gas locked for the callback is available to the callback and to nothing else.",
 ["inputs","programs"],"every caller/destination/callback program pair, outcome of each, value, data, and gas limit",
 "Tests pin specific contracts and do not link here; the protocol branches on code existence, shard, built-in names, gas and failure of either side.",
 [H+"asyncCall.go",H+"breakpoint.go",C+"runtime.go",C+"metering.go",E+"elrondei.go"],
 [("async breakpoint handling",H+"asyncCall.go handleAsyncCallBreakpoint"),("gas locking",C+"metering.go ComputeGasLockedForAsync")],None,["VMOutput","callback arguments and gas"])
p("V08","Contracts are created and upgraded only as allowed, with the given code",
 "A successful deployment yields an output account at the address the blockchain assigned, holding exactly the given code, metadata and deployer, after running the code's init function once if it has one; code that is invalid, or whose init fails, is never part of the output. From a contract, a deployment onto an existing account is refused, and an upgrade takes effect only if the target is upgradeable and the caller is its owner. Only accounts created or upgraded in the execution carry code in the output.",
 ["inputs","programs"],"every deploy/upgrade, direct or from a contract at any depth, valid or invalid code, any init outcome, any metadata and ownership",
 "Tests check a few deployments with mocks; failure interleavings and permissions are not enumerated.",
 [H+"execution.go",C+"output.go",C+"blockchain.go",C+"runtime.go",E+"elrondei.go"],
 [("code deployment",H+"execution.go performCodeDeployment, CreateNewContract, executeUpgrade"),("permission check",H+"execution.go checkUpgradePermission"),("code update tracking",C+"output.go DeployCode/removeNonUpdatedCode")],None,["OutputAccount.Code/CodeMetadata/CodeDeployerAddress"])
p("V09","Only callable functions of a contract can be entered",
 "An external or inter-contract call enters exactly the exported function it names, on the code of the contract it names. The init function is never entered by a call, only by deployment or upgrade, and a transaction enters the callback function only as an asynchronous callback; a transaction naming any of these otherwise, a call of a function that is not exported, or of an account without code fails with the matching return code and runs no contract code.",
 ["inputs","programs"],"every function name, call type, target account and nesting position",
 "Tests try a few names at top level only, and do not link here.",
 [H+"execution.go",C+"runtime.go",H+"asyncCall.go"],
 [("entry checks",H+"execution.go verifyAllowedFunctionCall, execute"),("export lookup",C+"runtime.go GetFunctionToCall")],None,["VMOutput.ReturnCode","functions entered"])
p("V10","API calls touch only the contract's memory, for any pointers and lengths",
 "For every API call and every combination of integer arguments, the call reads and writes only inside the linear memory of the calling contract: data is read as stored (zero-filled past the end), results are written exactly at the given offset (growing memory by at most one page), and nothing else in memory changes. Out-of-range offsets, negative lengths or invalid indices fail the execution or return an error value; they never crash the VM or disturb other accounts.",
 ["inputs","programs"],"every API function with every 32/64-bit argument value and every memory size and content",
 "Tests call API functions with valid pointers only and do not link here.",
 [C+"runtime.go",E+"elrondei.go",E+"bigIntOps.go",E+"smallIntOps.go","arwen/cryptoapi/cryptoei.go","arwen/helpers.go","wasmer/memory.go"],
 [("bounds-checked memory access",C+"runtime.go MemLoad/MemStore/MemLoadMultiple"),("fault reporting","arwen/helpers.go WithFault")],None,["contract memory before/after each API call","API return values","VMOutput"])
p("V11","Executions leave no residue in the VM",
 "The result of an execution depends only on its input, the blockchain state, the gas schedule and the activation epochs: running it on a VM that has executed anything before (successes, failures, panics, nested-call failures, other gas schedules) gives the same output, gas and API results as on a new VM. Panics raised while executing a contract are reported as an error of that execution and leave the VM usable; epoch-activated features follow the current epoch at every execution.",
 ["histories","programs","fault_sequences"],"every history of executions, including ones ended by a panic at any point or hitting the instance limit, with gas schedule and epoch changes in between",
 "Tests use a fresh host per case; residue shows only over histories.",
 [H+"arwen.go",H+"execution.go",C+"runtime.go",C+"output.go",C+"blockchain.go",C+"metering.go",C+"bigint.go",C+"storage.go"],
 [("state reset",H+"arwen.go InitState/ClearContextStateStack"),("panic recovery",H+"arwen.go TryCatch")],None,["VMOutput","API results"])
p("V12","Contracts see exactly the call they were given",
 "Inside every contract frame, the API reports exactly the caller, own address, owner (as recorded on chain), call value, ESDT value, function name, arguments, transaction hash, block data and return data of previous nested calls that the transaction or the calling contract supplied, whatever was executed before in the same transaction.",
 ["inputs","programs"],"every call input and every position in every call tree",
 "Tests check single getters against mocks; mixing with nested calls is not covered and does not link here.",
 [E+"elrondei.go",E+"smallIntOps.go",E+"bigIntOps.go",C+"runtime.go",C+"blockchain.go",H+"execution.go"],
 [("runtime state stack",C+"runtime.go PushState/PopSetActiveState/SetVMInput"),("argument extraction",E+"elrondei.go getArgumentsFromMemory")],None,["API return values and memory writes"])
p("V13","Big integer operations compute exact results",
 "Every big integer API operation (new, set, get, add, sub, mul, truncated and Euclidean division and modulo, abs, neg, sign, cmp, bitwise and, or, xor, not, shifts, byte conversions signed and unsigned, storage and argument variants, finish) yields the mathematically exact result in the destination handle, for handles aliased in any way, and changes no other handle. Division by zero, bitwise operations on negative numbers and negative shifts fail the execution.",
 ["inputs","programs"],"all operand values and sizes, all handle aliasings and sequences of operations",
 "Tests cover a few handles through the context only; arithmetic over unbounded inputs is not sampled.",
 [E+"bigIntOps.go",C+"bigint.go","vendor math/big conversions (twos package)"],
 [("handle table",C+"bigint.go GetOne/GetTwo/GetThree/Put"),("operations",E+"bigIntOps.go")],None,["bytes returned by the get/finish API"])
p("V14","Every API call charges the gas its schedule prescribes",
 "Every API call consumes exactly the base cost configured for that operation plus the configured per-byte costs of the data it copies, stores or releases, under the gas schedule in force for that execution; gas arithmetic saturates instead of wrapping. After a gas schedule change the next execution uses the new costs, while an invalid schedule (a missing or zero cost) is rejected and leaves the previous one in force.",
 ["inputs","programs","configurations"],"every API function, data size and gas schedule, and every sequence of schedule changes",
 "Tests set all costs to 1 or 0, so swapped or missing charges are invisible.",
 [E+"elrondei.go",E+"bigIntOps.go",E+"smallIntOps.go","arwen/cryptoapi/cryptoei.go",C+"storage.go",C+"metering.go",H+"arwen.go","config/gasSchedule.go","config/gasCost.go"],
 [("charges","UseGas calls in every API function"),("schedule change",H+"arwen.go GasScheduleChange")],None,["gas used by the instance before/after each API call"])
p("V15","ESDT transfers follow the token ledger",
 "A contract's ESDT transfer (with or without execution) moves the token through the protocol's built-in function exactly once, and reports failure without any effect other than gas when the ledger refuses it or the gas does not suffice. The called contract sees the token, nonce, amount and type that were transferred, and token balance queries return the ledger's values.",
 ["inputs","programs"],"every token, nonce, amount, destination (same shard, other shard, contract or not), gas limit and nested failure",
 "No linked test exercises ESDT calls; outcome combinations are unsampled.",
 [H+"execution.go",C+"output.go",E+"elrondei.go",C+"blockchain.go"],
 [("ESDT transfer",H+"execution.go ExecuteESDTTransfer, "+C+"output.go TransferESDT"),("built-in call handling",H+"execution.go callBuiltinFunction")],None,["VMOutput","API results","built-in function invocations"])
p("V16","Cryptographic primitives are exact and stateless",
 "The SHA-256, Keccak-256 and RIPEMD-160 operations return the standard digest of exactly the given bytes; BLS, Ed25519 and secp256k1 verification accept a signature if and only if it was produced over exactly that message by the private key matching that public key, and reject malformed keys and signatures with an error, never a panic (a DER signature ends where its header says; BLS refuses empty messages). Results never depend on earlier or concurrent operations.",
 ["inputs","histories","schedules"],"all messages, keys and signatures, with every single-component corruption, in any order and concurrently",
 "Tests verify a few fixed signatures; corruption of each component and concurrent use are unsampled.",
 ["crypto/hashing/hasher.go","crypto/signing/bls/bls.go","crypto/signing/ed25519","crypto/signing/secp256k1","crypto/signing/mcl","crypto/signing/key.go","crypto/factory","arwen/cryptoapi/cryptoei.go"],
 [("hash functions","crypto/hashing/hasher.go"),("verification","crypto/signing/*"),("group checks","crypto/signing/mcl")],None,["return values of crypto operations"])
p("V17","Deployed code is accepted exactly when its interface is valid",
 "New code is accepted for deployment, upgrade or creation by a contract if and only if it has a memory, every exported function takes and returns nothing, and every exported function has a valid name: non-empty, shorter than 256 bytes, ASCII only, and neither the name of an imported API function, of a built-in function, nor upgradeContract; before the ESDT functions are activated it must not import them. Code rejected by this check is never executed.",
 ["inputs","configurations"],"all sets of exports (names, arities, memory) and all built-in function sets",
 "Tests check a handful of names against a mock.",
 [C+"validator.go",C+"reservedFunctions.go",C+"runtime.go"],
 [("interface checks",C+"validator.go"),("reserved names",C+"reservedFunctions.go")],None,["deployment outcome"])
p("I01","Messages between node and VM arrive intact, in order, once",
 "Over a pair of pipes, every message sent by one side is received by the other exactly once, in sending order and with identical content, whatever its size and however the pipe splits it; each side numbers its messages so that a lost, duplicated, reordered or replayed message is reported as an error instead of being processed. An oversized, truncated or undecodable message yields an error, never a wrong message.",
 ["inputs","schedules","fault_sequences"],"every sequence and size of messages, every fragmentation of the byte stream, and every loss, duplication, reordering, truncation or corruption",
 "Existing ipc tests need the VM library and do not link; they use whole, well-formed messages.",
 ["ipc/common/messenger.go","ipc/common/sender.go","ipc/common/receiver.go","ipc/common/messages.go","ipc/common/messagesFactory.go","ipc/marshaling/json.go"],
 [("length-prefixed framing","ipc/common/sender.go, receiver.go"),("dialogue nonce check","ipc/common/messenger.go")],None,["received messages and errors"])
p("I02","Remote blockchain hooks behave like local ones",
 "Every blockchain query or command the VM process makes through its gateway returns the same values and errors as calling the node's hook directly with the same arguments, for every hook function; contract requests and responses, including the complete VM output and errors, cross the process boundary unchanged.",
 ["inputs"],"every hook function, argument, result and error, and every VM input and output",
 "Tests cover a few hook functions with trivial values, and do not link here.",
 ["ipc/arwenpart/blockchainGateway.go","ipc/nodepart/blockchainRepliers.go","ipc/common/messagesBlockchain.go","ipc/common/messagesContracts.go","ipc/common/serializableVMOutput.go","ipc/common/account.go","ipc/common/messagesFactory.go"],
 [("gateway/replier pairs","ipc/arwenpart/blockchainGateway.go, ipc/nodepart/blockchainRepliers.go"),("serializable output","ipc/common/serializableVMOutput.go")],None,["gateway results","responses"])
p("I03","The node-VM session survives errors and answers every request once",
 "In every session, each contract request, version request, gas schedule change or diagnose request gets exactly one response of the matching kind, after any number of nested hook calls in between; a failing request or an unexpected message is answered with an error or ends the session with an error, and never leaves either side waiting forever or answering a request with another request's response. A non-critical error leaves the session usable for the next request.",
 ["histories","fault_sequences","schedules"],"every sequence of requests, hook-call interleavings and failures on either side",
 "The session tests need the VM library; sequences and failures are unsampled.",
 ["ipc/nodepart/part.go","ipc/nodepart/messenger.go","ipc/arwenpart/part.go","ipc/arwenpart/messenger.go","ipc/common/messagesFactory.go"],
 [("node loop","ipc/nodepart/part.go"),("VM loop","ipc/arwenpart/part.go")],None,["responses and errors at both ends"])
p("W01","Applying a VM output to the mock world yields exactly the described state",
 "Updating the mock world from the output of an execution changes, for each account in the output and no other, exactly what the output describes: balance by the delta, storage keys to the updated values, code when given (with its hash and metadata that allow everything), the nonce when it is higher, and missing accounts are created, owned by the deployer; accounts the output deletes are gone. Queries (balance, storage, code, code hash, nonce, shard, contract and payable flags, existence, new address) reflect the resulting state.",
 ["inputs","histories"],"every sequence of outputs over any world",
 "Few tests touch the mock world, none link here, and sequences are unsampled.",
 ["mock/world/worldUpdate.go","mock/world/worldAccount.go","mock/world/worldAccountMap.go","mock/world/worldCallbacks.go","mock/world/worldDef.go","mock/world/worldAccountsAdapter.go"],
 [("account updates","mock/world/worldUpdate.go"),("queries","mock/world/worldCallbacks.go")],None,["mock world queries and accounts"])
p("W02","Snapshots and rollback of the mock world restore the earlier state",
 "Reverting the mock world to a snapshot restores the storage of every account, including ESDT balances, to what it was when the snapshot was taken, whatever was changed, created or snapshotted since, and later changes never alter an existing snapshot. Rolling back a transaction's changes restores the storage to what it was at the first snapshot, committing keeps it, and both leave nothing to roll back; a scenario transaction that fails leaves the storage as it was before it.",
 ["histories"],"every history of changes, snapshots, reverts, commits and rollbacks",
 "No linked test takes more than one snapshot.",
 ["mock/world/worldAccountsAdapter.go","mock/world/worldDef.go","mock/world/worldAccountMap.go","mock/world/worldUpdate.go","mock/world/worldAccount.go"],
 [("account adapter snapshots","mock/world/worldAccountsAdapter.go"),("commit/rollback","mock/world/worldUpdate.go")],None,["mock world accounts"])
p("M01","Scenario value expressions evaluate to their documented bytes",
 "Every scenario value expression (unsigned and signed decimal, hexadecimal and binary numbers, with separators in the decimal and binary ones, booleans, string, address, contract-address, fixed-width integer, big-integer, nested-length, keccak256, file and concatenation forms) evaluates to exactly the documented byte string, fixed-width forms are padded to their width, and values out of range or malformed are rejected with an error, never evaluated to something else and never causing a crash.",
 ["inputs"],"all expressions of the grammar and all malformed strings",
 "Tests list a few dozen literals; the grammar is unbounded and composes.",
 ["mandos-go/expression/interpreter"],
 [("value interpreter","mandos-go/expression/interpreter/valueInterpreter.go"),("address parsing","mandos-go/expression/interpreter/addressParser.go")],None,["interpreted bytes and errors"])
p("M02","Ordered JSON parses and prints losslessly",
 "Parsing a JSON document of strings, booleans, lists and objects yields its exact structure with object keys in source order, and printing that structure and parsing it again yields the same structure, for every document including escapes, empty and nested containers; the characters between the quotes of a string are kept verbatim, and a repeated key of an object keeps its first value. Text that is not such a document is rejected with an error and never crashes the parser.",
 ["inputs"],"all documents and all malformed texts",
 "One example file is round-tripped by the tests.",
 ["mandos-go/orderedjson/ojParse.go","mandos-go/orderedjson/ojToJson.go","mandos-go/orderedjson/ojModel.go"],
 [("parser","mandos-go/orderedjson/ojParse.go"),("printer","mandos-go/orderedjson/ojToJson.go")],None,["parsed structure","printed text"])
p("M03","Scenario files survive a parse-write-parse round trip",
 "Parsing a scenario or test file yields exactly what the document says: every step, account, transaction, expected result, check, ESDT entry and block information with their values, and what is not mentioned is unspecified. Writing the parsed scenario and parsing the result yields a scenario with the same meaning: nothing is added, dropped or altered; converting a one-block test to a scenario keeps its accounts, transactions, results and checks. Unknown fields and wrongly typed or out-of-range values are rejected with an error, never a crash.",
 ["inputs"],"all scenarios with any combination of steps, optional fields, ESDT forms and wildcards",
 "Tests round-trip one or two example files.",
 ["mandos-go/json/parse","mandos-go/json/write","mandos-go/json/model"],
 [("parser","mandos-go/json/parse"),("writer","mandos-go/json/write")],None,["scenario model before and after"])
p("M04","Scenario checks pass exactly when the actual state matches",
 "A check of accounts passes if and only if every listed account exists and its nonce, balance, username, code, storage and tokens equal the expected ones, as do its owner, asynchronous call data, token metadata and frozen flag where the check mentions them (wildcards matching anything; what else is not mentioned must be zero or empty), and no unlisted accounts, storage keys (reserved ones aside), tokens or token instances exist unless the check allows more. A check of a transaction result passes if and only if status, message, gas (where mentioned and gas checking is on), refund, returned values and logs match the expected ones, wildcards aside. A check that fails is reported as an error, never a crash.",
 ["inputs"],"all pairs of actual state or result and expected check, differing in any single component",
 "Scenario tests only contain passing checks, so a check that accepts too much is never noticed.",
 ["arwenmandos/stepCheckAccounts.go","arwenmandos/stepCheckTxResult.go","mandos-go/json/model"],
 [("account checks","arwenmandos/stepCheckAccounts.go"),("result checks","arwenmandos/stepCheckTxResult.go"),("value checks","mandos-go/json/model")],None,["check verdict"])
p("M06","Scenario steps act on the modelled blockchain as written",
 "Running a scenario performs its steps in order and stops with an error at the first that fails. Setting the state replaces exactly the named accounts with exactly the given contents, sets the block information and adds the new addresses; accounts whose address and code disagree are refused. A transaction charges its sender gas and one nonce, moves value and tokens only when they are there and not frozen, runs the named function with exactly the given caller, arguments, value, tokens, gas and transaction hash, creates contracts at the announced address, and keeps the effects of the call only if it succeeds; rewards are credited and recorded. External steps act as if written in place and leave the settings of the outer scenario as they were; a test acts as the blocks and checks it contains.",
 ["inputs","histories"],"all scenarios: any sequence of steps on any state, failing at any point",
 "Scenario tests exercise a few scripted stories against known-good contracts.",
 ["arwenmandos/execScenario.go","arwenmandos/stepRunTx.go","arwenmandos/execTest.go","arwenmandos/util.go"],
 [("steps","arwenmandos/execScenario.go"),("transactions","arwenmandos/stepRunTx.go"),("accounts and blocks","arwenmandos/util.go")],None,["the whole modelled blockchain after every step","step verdicts","transaction results"])
p("M07","Suites run every selected file once and fail exactly when one fails",
 "Running the scenarios or tests of an existing directory visits the files below it whose path ends with the suffix, in lexical order of their path components, skips exactly those whose path matches an exclusion pattern (joined to the general path; * and ? do not stand for slashes), and runs each other file exactly once; for scenarios the executor is reset before each file. It fails exactly when some file could not be read or parsed, refers to a missing file, or was refused by the executor, and prints how many passed, failed and were skipped. A test file's tests run in order up to the first that is refused. A file: value denotes the contents of the file that is registered as its replacement, or else of the file at that path relative to the directory of the scenario or test file being read (nothing, for an empty value), whichever directory is the current one; a cloned resolver starts with the replacements and context of the original, and setting the context of either does not change the other's. Paths are joined and cleaned lexically.",
 ["inputs","histories"],"all trees of files, general and specific paths, suffixes, exclusion patterns, replacements, and histories of resolvers",
 "The controller has no test that checks what it selects, skips or counts; the resolver is only used with one fixed layout.",
 ["mandos-go/controller","mandos-go/fileresolver"],
 [("selection and counting","mandos-go/controller/scenarioDir.go testDir.go"),("running a file","mandos-go/controller/scenarioOne.go testOne.go"),("file resolution","mandos-go/fileresolver/fileResolverDefault.go")],None,["what the executor is given","returned errors","printed counts","resolved paths and contents"])
p("M05","Reconstructed expressions denote the original bytes",
 "For every byte string and every hint, the human-readable form denotes the original bytes: without a hint it shows the complete hexadecimal value next to a text or number reading of it, as a number it is the exact decimal value, as a string it is the str: prefix followed by exactly the bytes, as an address it is an address expression that evaluates back to the same 32 bytes (for names without the characters '|' and '#'; other lengths are shown in hexadecimal), and code is shown by its first ten bytes.",
 ["inputs"],"all byte strings and hints",
 "Tests check a few renderings.",
 ["mandos-go/expression/reconstructor"],
 [("reconstructor","mandos-go/expression/reconstructor/reconstructor.go")],None,["reconstructed text evaluated again"])
p("G01","Integer helpers saturate instead of wrapping",
 "The unsigned and signed addition, subtraction and multiplication helpers return the exact mathematical result when it is representable, and otherwise the nearest representable bound (or an error, for the variants that report one), for every pair of operands.",
 ["inputs"],"all operand pairs of the full integer ranges",
 "Tests check a few boundary pairs.",
 ["math/math.go","math"],
 [("saturating arithmetic","math")],None,["returned values"])
p("G02","Gas configurations are complete or rejected",
 "A gas configuration is accepted if and only if every operation cost it must define is present and non-zero; an accepted configuration carries for every operation exactly the value given for that operation's name, including each WebAssembly opcode at its own position (opcode costs must fit the engine's 32 bits). A host puts an accepted configuration in force both for the operations of contracts and for the engine's instructions, at creation and at every change; a rejected change leaves the previous one in force. The text of a gas schedule is accepted only if it consists of tables of non-negative integers, anything else is an error and never a crash. The configuration files shipped with the repository are accepted.",
 ["configurations"],"all gas maps: any operation missing, zero or with any value",
 "Tests check one missing opcode.",
 ["config/gasSchedule.go","config/gasCost.go","wasmer/opcodes.go","arwenmandos/gasSchedules"],
 [("decoding and zero check","config/gasSchedule.go CreateGasConfig"),("opcode table","config/gasCost.go ToOpcodeCostsArray")],None,["resulting costs or error"])
p("D01","Debug worlds persist across requests",
 "Each debugging request operates on the world its identifier names, exactly as left by the previous successful requests on that identifier; queries leave the stored world unchanged, other worlds are never affected, and malformed requests are rejected without changing anything, and so are requests on a world whose stored form cannot be read. An outcome which a request asks to keep is kept as answered, and what is deployed has the code and metadata of the request. Requests sent at the same time, to the debugger or its server, have the effect of some order of them.",
 ["histories"],"every sequence of create-account, deploy, upgrade, run and query requests over several worlds",
 "The facade tests need the VM library and follow one fixed history.",
 ["arwendebug/facade.go","arwendebug/world.go","arwendebug/database.go","mock/world/worldAccountMap.go"],
 [("load/store of worlds","arwendebug/database.go"),("request handling","arwendebug/facade.go")],None,["responses and stored worlds"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s)
print(len(P), max(len(d['title']) for d in P))
