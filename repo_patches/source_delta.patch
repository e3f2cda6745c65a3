From a93725a5197b71908b2e1be075b64ed2e3b214ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:26 +0000
Subject: [PATCH 01/70] fix: saturate signed additions and subtractions at the
 bound they overflow

---
 math/overflow.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/math/overflow.go b/math/overflow.go
index 6c989a4..49c4f0f 100644
--- a/math/overflow.go
+++ b/math/overflow.go
@@ -37,6 +37,9 @@ func AddInt64(a, b int64) int64 {
 	}
 
 	log.Error("AddInt64 overflow", "a", a, "b", b)
+	if b < 0 {
+		return builtinMath.MinInt64
+	}
 	return builtinMath.MaxInt64
 }
 
@@ -75,6 +78,9 @@ func AddInt32(a, b int32) int32 {
 	res, err := AddInt32WithError(a, b)
 	if err != nil {
 		log.Error("AddInt32 overflow", "a", a, "b", b)
+		if b < 0 {
+			return builtinMath.MinInt32
+		}
 		return builtinMath.MaxInt32
 	}
 
@@ -99,5 +105,8 @@ func SubInt(a, b int) int {
 	}
 
 	log.Error("SubInt underflow", "a", a, "b", b)
+	if b < 0 {
+		return builtinMath.MaxInt64
+	}
 	return builtinMath.MinInt64
 }
-- 
2.43.0


From 5abdf531d21e2214219948e692e0e9c3786ce02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:04 +0000
Subject: [PATCH 02/70] fix: render the shard id of contract addresses with two
 digits

---
 mandos-go/expression/reconstructor/reconstructor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandos-go/expression/reconstructor/reconstructor.go b/mandos-go/expression/reconstructor/reconstructor.go
index eaa52f1..4baca19 100644
--- a/mandos-go/expression/reconstructor/reconstructor.go
+++ b/mandos-go/expression/reconstructor/reconstructor.go
@@ -95,7 +95,7 @@ func addressPretty(value []byte) string {
 			addrStr := string(value[ei.SCAddressNumLeadingZeros:31])
 			addrStr = strings.TrimRight(addrStr, "_")
 			shard_id := value[31]
-			return fmt.Sprintf("sc:%s#%x", addrStr, shard_id)
+			return fmt.Sprintf("sc:%s#%02x", addrStr, shard_id)
 		}
 	}
 
-- 
2.43.0


From b3f4525e0f399148c8b0e90cd45d025e32d11c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:04 +0000
Subject: [PATCH 03/70] fix: strings of ordered JSON may end with an escaped
 backslash

---
 mandos-go/orderedjson/ojParse.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/mandos-go/orderedjson/ojParse.go b/mandos-go/orderedjson/ojParse.go
index d1d3f49..93f67d4 100644
--- a/mandos-go/orderedjson/ojParse.go
+++ b/mandos-go/orderedjson/ojParse.go
@@ -35,6 +35,15 @@ func isWhitespace(c byte) bool {
 	return c == ' ' || c == '\n' || c == '\r' || c == '\t'
 }
 
+// isEscaped tells whether the character at the given position is preceded by an odd number of backslashes
+func isEscaped(input []byte, position int) bool {
+	escaped := false
+	for i := position - 1; i >= 0 && input[i] == '\\'; i-- {
+		escaped = !escaped
+	}
+	return escaped
+}
+
 // ParseOrderedJSON parses JSON preserving order in maps
 func ParseOrderedJSON(input []byte) (OJsonObject, error) {
 	stateStack := &jsonParserStateStack{}
@@ -80,10 +89,9 @@ func ParseOrderedJSON(input []byte) (OJsonObject, error) {
 					specificState.stringEscape = (c == '"')
 					specificState.buffer.WriteByte(c)
 				} else {
-					prevChar := input[i-1]
 					if specificState.stringEscape {
 						specificState.buffer.WriteByte(c)
-						if c == '"' && prevChar != '\\' {
+						if c == '"' && !isEscaped(input, i) {
 							stateStack.pop()
 							var err error
 							pendingResult, err = specificState.finalize()
@@ -152,8 +160,7 @@ func ParseOrderedJSON(input []byte) (OJsonObject, error) {
 						}
 					} else {
 						specificState.keyBuffer.WriteByte(c)
-						prevChar := input[i-1]
-						if c == '"' && prevChar != '\\' {
+						if c == '"' && !isEscaped(input, i) {
 							specificState.state = 1
 						}
 					}
-- 
2.43.0


From c4bf5d9ea282648af04119cec1a33d843677af85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:04 +0000
Subject: [PATCH 04/70] fix: reject misplaced characters in lists and maps of
 ordered JSON

---
 mandos-go/orderedjson/ojParse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mandos-go/orderedjson/ojParse.go b/mandos-go/orderedjson/ojParse.go
index 93f67d4..520ae73 100644
--- a/mandos-go/orderedjson/ojParse.go
+++ b/mandos-go/orderedjson/ojParse.go
@@ -130,6 +130,8 @@ func ParseOrderedJSON(input []byte) (OJsonObject, error) {
 						done = false
 					} else if c == ',' {
 						stateStack.push(&jsonParserStateAnyObjPlaceholder{})
+					} else {
+						return nil, errors.New("misplaced character in list")
 					}
 				}
 			case *jsonParserStateMap:
@@ -138,7 +140,7 @@ func ParseOrderedJSON(input []byte) (OJsonObject, error) {
 				} else if c == '}' {
 					pendingResult = specificState.currentMap
 					stateStack.pop()
-				} else if c == ',' {
+				} else if c == ',' && specificState.currentMap.Size() > 0 {
 					stateStack.push(&jsonStateMapKeyValue{})
 				} else if specificState.currentMap.Size() == 0 {
 					stateStack.push(&jsonStateMapKeyValue{})
-- 
2.43.0


From 00db084c1f89c3b188ce9ffe325180354ac25376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:04 +0000
Subject: [PATCH 05/70] fix: accept a top-level boolean at the end of ordered
 JSON

---
 mandos-go/orderedjson/ojParse.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mandos-go/orderedjson/ojParse.go b/mandos-go/orderedjson/ojParse.go
index 520ae73..3e48c33 100644
--- a/mandos-go/orderedjson/ojParse.go
+++ b/mandos-go/orderedjson/ojParse.go
@@ -201,6 +201,15 @@ func ParseOrderedJSON(input []byte) (OJsonObject, error) {
 		}
 	}
 
+	if stateStack.size() == 1 {
+		// a value without quotes only ends with the input
+		singleValue, isSingleValue := stateStack.peek().(*jsonParserStateSingleValue)
+		if isSingleValue && !singleValue.stringEscape {
+			stateStack.pop()
+			return singleValue.finalize()
+		}
+	}
+
 	if stateStack.size() != 0 {
 		return nil, errors.New("state stack should be empty at the end")
 	}
-- 
2.43.0


From 8d816e8e354fded94d910dc505e8306fd42ae53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:04 +0000
Subject: [PATCH 06/70] fix: reject fixed width signed numbers without digits

---
 mandos-go/expression/interpreter/interpreter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mandos-go/expression/interpreter/interpreter.go b/mandos-go/expression/interpreter/interpreter.go
index 4cc5a55..cef6050 100644
--- a/mandos-go/expression/interpreter/interpreter.go
+++ b/mandos-go/expression/interpreter/interpreter.go
@@ -182,6 +182,10 @@ func (ei *ExprInterpreter) InterpretString(strRaw string) ([]byte, error) {
 
 // targetWidth = 0 means minimum length that can contain the result
 func (ei *ExprInterpreter) interpretNumber(strRaw string, targetWidth int) ([]byte, error) {
+	if len(strRaw) == 0 {
+		return []byte{}, errors.New("missing number")
+	}
+
 	// signed numbers
 	if strRaw[0] == '-' || strRaw[0] == '+' {
 		numberBytes, err := ei.interpretUnsignedNumber(strRaw[1:])
-- 
2.43.0


From d423646ed667ba2f427894c5bf72bfe12d4512f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:04 +0000
Subject: [PATCH 07/70] fix: reject a sign between the binary prefix and the
 digits

---
 mandos-go/expression/interpreter/interpreter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mandos-go/expression/interpreter/interpreter.go b/mandos-go/expression/interpreter/interpreter.go
index cef6050..5c7d6b2 100644
--- a/mandos-go/expression/interpreter/interpreter.go
+++ b/mandos-go/expression/interpreter/interpreter.go
@@ -233,6 +233,10 @@ func (ei *ExprInterpreter) interpretUnsignedNumber(strRaw string) ([]byte, error
 			return []byte{}, fmt.Errorf("could not parse binary value: %s", strRaw)
 		}
 
+		if result.Sign() < 0 {
+			return []byte{}, fmt.Errorf("negative numbers not allowed in this context: %s", strRaw)
+		}
+
 		return result.Bytes(), nil
 	}
 
-- 
2.43.0


From 64a6a65a8f4c5d408495fe8b126fe0b4df4e7336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:14 +0000
Subject: [PATCH 08/70] fix: reject BLS signatures followed by trailing bytes

---
 crypto/signing/mcl/singlesig/bls.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto/signing/mcl/singlesig/bls.go b/crypto/signing/mcl/singlesig/bls.go
index 7aace3f..7c1c392 100644
--- a/crypto/signing/mcl/singlesig/bls.go
+++ b/crypto/signing/mcl/singlesig/bls.go
@@ -54,6 +54,9 @@ func (s *BlsSingleSigner) Verify(public crypto.PublicKey, msg []byte, sig []byte
 	if len(sig) == 0 {
 		return crypto.ErrNilSignature
 	}
+	if len(sig) != bls.GetG1ByteSize() {
+		return crypto.ErrBLSInvalidSignature
+	}
 
 	point := public.Point()
 	if check.IfNil(point) {
-- 
2.43.0


From 88c0d981926a375e9e7cbad1b272a757e593f077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:49 +0000
Subject: [PATCH 09/70] fix: unlock the gas of callbacks before the runtime
 copies the input

---
 arwen/host/execution.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 88aa8c5..2d1ca0c 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -153,8 +153,10 @@ func (host *vmHost) doRunSmartContractCall(input *vmcommon.ContractCallInput) (v
 
 	_, _, metering, output, runtime, storage := host.GetContexts()
 
-	runtime.InitStateFromContractCallInput(input)
+	// The metering unlocks the gas of callbacks on the input itself, therefore
+	// it must be initialized before the runtime copies the input.
 	metering.InitStateFromContractCallInput(&input.VMInput)
+	runtime.InitStateFromContractCallInput(input)
 	output.AddTxValueToAccount(input.RecipientAddr, input.CallValue)
 	storage.SetAddress(runtime.GetSCAddress())
 
-- 
2.43.0


From f00fecd872f6692e8b474e5d283c1278576310e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:49 +0000
Subject: [PATCH 10/70] fix: getCallValueTokenName writes the name of the token

---
 arwen/elrondapi/elrondei.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index f4ee745..337d344 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -1968,7 +1968,7 @@ func v1_3_getCallValueTokenName(context unsafe.Pointer, callValueOffset int32, t
 	esdtTransfer := getFirstESDTTransferIfExist(runtime.GetVMInput())
 
 	if len(esdtTransfer.ESDTTokenName) > 0 {
-		tokenName = make([]byte, 0, len(esdtTransfer.ESDTTokenName))
+		tokenName = make([]byte, len(esdtTransfer.ESDTTokenName))
 		copy(tokenName, esdtTransfer.ESDTTokenName)
 		callValue = esdtTransfer.ESDTValue.Bytes()
 	}
-- 
2.43.0


From 64beb4d0c3cada316477335ede13d59f687d87b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:49 +0000
Subject: [PATCH 11/70] fix: indirect calls whose arguments cannot be read fail

---
 arwen/elrondapi/elrondei.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 337d344..92697ab 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -919,6 +919,9 @@ func extractIndirectContractCallArguments(
 		argumentsLengthOffset,
 		dataOffset,
 	)
+	if err != nil {
+		return nil, err
+	}
 
 	gasToUse := math.MulUint64(metering.GasSchedule().BaseOperationCost.DataCopyPerByte, uint64(actualLen))
 	metering.UseGas(gasToUse)
-- 
2.43.0


From 9af9bc1f5d2084a644f77d509a27c4de0adbce59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:49 +0000
Subject: [PATCH 12/70] fix: the size of the lengths of arguments read from
 memory cannot overflow

---
 arwen/elrondapi/elrondei.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 92697ab..568091b 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -2972,6 +2972,10 @@ func prepareIndirectContractCallInput(
 	return contractCallInput, nil
 }
 
+// maxNumArguments is the largest number of arguments whose lengths (4 bytes
+// each) have a total size that does not overflow an int32
+const maxNumArguments = (1<<31 - 1) / 4
+
 func getArgumentsFromMemory(
 	host arwen.VMHost,
 	numArguments int32,
@@ -2983,6 +2987,9 @@ func getArgumentsFromMemory(
 	if numArguments < 0 {
 		return nil, 0, fmt.Errorf("negative numArguments (%d)", numArguments)
 	}
+	if numArguments > maxNumArguments {
+		return nil, 0, fmt.Errorf("too many arguments (%d)", numArguments)
+	}
 
 	argumentsLengthData, err := runtime.MemLoad(argumentsLengthOffset, numArguments*4)
 	if err != nil {
-- 
2.43.0


From 928319405b25a11310c8443dd6930c06b2e3d74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:15 +0000
Subject: [PATCH 13/70] fix: negative identifiers of arguments and results do
 not exist

---
 arwen/elrondapi/bigIntOps.go | 4 ++--
 arwen/elrondapi/elrondei.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/arwen/elrondapi/bigIntOps.go b/arwen/elrondapi/bigIntOps.go
index 1f8cabd..a33880c 100644
--- a/arwen/elrondapi/bigIntOps.go
+++ b/arwen/elrondapi/bigIntOps.go
@@ -274,7 +274,7 @@ func v1_3_bigIntGetUnsignedArgument(context unsafe.Pointer, id int32, destinatio
 	metering.UseGas(gasToUse)
 
 	args := runtime.Arguments()
-	if int32(len(args)) <= id {
+	if id < 0 || int32(len(args)) <= id {
 		return
 	}
 
@@ -293,7 +293,7 @@ func v1_3_bigIntGetSignedArgument(context unsafe.Pointer, id int32, destination
 	metering.UseGas(gasToUse)
 
 	args := runtime.Arguments()
-	if int32(len(args)) <= id {
+	if id < 0 || int32(len(args)) <= id {
 		return
 	}
 
diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 568091b..f0d2ede 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -2898,7 +2898,7 @@ func v1_3_getReturnDataSize(context unsafe.Pointer, resultID int32) int32 {
 	metering.UseGas(gasToUse)
 
 	returnData := output.ReturnData()
-	if resultID >= int32(len(returnData)) {
+	if resultID < 0 || resultID >= int32(len(returnData)) {
 		return 0
 	}
 
@@ -2915,7 +2915,7 @@ func v1_3_getReturnData(context unsafe.Pointer, resultID int32, dataOffset int32
 	metering.UseGas(gasToUse)
 
 	returnData := output.ReturnData()
-	if resultID >= int32(len(returnData)) {
+	if resultID < 0 || resultID >= int32(len(returnData)) {
 		return 0
 	}
 
-- 
2.43.0


From a69333e0e119f4c1c3417215d198f035e6bc2d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:07 +0000
Subject: [PATCH 14/70] fix: executeReadOnly restores the mode of its caller

---
 arwen/elrondapi/elrondei.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index f0d2ede..36f788a 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -2685,9 +2685,10 @@ func ExecuteReadOnlyWithTypedArguments(
 		return 1
 	}
 
+	wasReadOnly := runtime.ReadOnly()
 	runtime.SetReadOnly(true)
 	_, err = host.ExecuteOnSameContext(contractCallInput)
-	runtime.SetReadOnly(false)
+	runtime.SetReadOnly(wasReadOnly)
 	if arwen.WithFaultAndHost(host, err, runtime.ElrondAPIErrorShouldFailExecution()) {
 		return 1
 	}
-- 
2.43.0


From 32fd4de7d08461c997fab2487480243bdb12cdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:30 +0000
Subject: [PATCH 15/70] fix: transferValueExecute consumes the gas it sends to
 other shards

---
 arwen/elrondapi/elrondei.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 36f788a..7e3f858 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -1050,6 +1050,16 @@ func TransferValueExecuteWithTypedArgs(
 		return 0
 	}
 
+	// The gas sent along with the transfer is no longer available to the sender.
+	if uint64(gasLimit) > metering.GasLeft() {
+		err = arwen.ErrNotEnoughGas
+	} else {
+		metering.UseGas(uint64(gasLimit))
+	}
+	if arwen.WithFaultAndHost(host, err, runtime.ElrondAPIErrorShouldFailExecution()) {
+		return 1
+	}
+
 	data := makeCrossShardCallFromInput(contractCallInput)
 	err = output.Transfer(dest, sender, uint64(gasLimit), 0, value, []byte(data), vmcommon.DirectCall)
 	if arwen.WithFaultAndHost(host, err, runtime.ElrondAPIErrorShouldFailExecution()) {
-- 
2.43.0


From 5a24acee25da727aa9b684cf6c3a1a89f6adc08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:42 +0000
Subject: [PATCH 16/70] fix: verify the code of contracts created by contracts

---
 arwen/host/execution.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 2d1ca0c..9915927 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -622,8 +622,9 @@ func (host *vmHost) execute(input *vmcommon.ContractCallInput) error {
 
 	// Replace the current Wasmer instance of the Runtime with a new one; this
 	// assumes that the instance was preserved on the Runtime instance stack
-	// before calling executeSmartContractCall().
-	err = runtime.StartWasmerInstance(contract, metering.GetGasForExecution(), false)
+	// before calling executeSmartContractCall(). The init function is allowed
+	// only on the code of a contract being created, which must be verified.
+	err = runtime.StartWasmerInstance(contract, metering.GetGasForExecution(), input.AllowInitFunction)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 2a19ede9e98d99df9bec26221f24b8cf3b641def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:40 +0000
Subject: [PATCH 17/70] fix: do not reuse the compiled code of a contract
 upgraded by the transaction

---
 arwen/contexts/runtime.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/arwen/contexts/runtime.go b/arwen/contexts/runtime.go
index 1ba0bcd..c9d90d6 100644
--- a/arwen/contexts/runtime.go
+++ b/arwen/contexts/runtime.go
@@ -131,8 +131,7 @@ func (context *runtimeContext) StartWasmerInstance(contract []byte, gasLimit uin
 		return nil
 	}
 
-	blockchain := context.host.Blockchain()
-	codeHash := blockchain.GetCodeHash(context.GetSCAddress())
+	codeHash := context.getCodeHash()
 	compiledCodeUsed := context.makeInstanceFromCompiledCode(codeHash, gasLimit, newCode)
 	if compiledCodeUsed {
 		return nil
@@ -141,6 +140,20 @@ func (context *runtimeContext) StartWasmerInstance(contract []byte, gasLimit uin
 	return context.makeInstanceFromContractByteCode(contract, codeHash, gasLimit, newCode)
 }
 
+// getCodeHash returns the hash known by the blockchain for the code of the
+// current SC, or nil if the SC was deployed or upgraded during the current
+// transaction, because the blockchain only knows its previous code.
+func (context *runtimeContext) getCodeHash() []byte {
+	scAddress := context.GetSCAddress()
+	outputAccount, _ := context.host.Output().GetOutputAccount(scAddress)
+	isCodeUpdated := outputAccount != nil && len(outputAccount.CodeDeployerAddress) > 0
+	if isCodeUpdated {
+		return nil
+	}
+
+	return context.host.Blockchain().GetCodeHash(scAddress)
+}
+
 func (context *runtimeContext) makeInstanceFromCompiledCode(codeHash []byte, gasLimit uint64, newCode bool) bool {
 	if !context.host.IsAheadOfTimeCompileEnabled() {
 		return false
-- 
2.43.0


From 67b1fcf69e0b92b36a666d51c7fec74fcd44dec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:54 +0000
Subject: [PATCH 18/70] fix: accounts created by the transaction have the
 balance they received

---
 arwen/contexts/blockchain.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/arwen/contexts/blockchain.go b/arwen/contexts/blockchain.go
index 4f18f9f..5c89339 100644
--- a/arwen/contexts/blockchain.go
+++ b/arwen/contexts/blockchain.go
@@ -67,14 +67,15 @@ func (context *blockchainContext) GetBalance(address []byte) []byte {
 }
 
 // GetBalanceBigInt returns the balance of the account at the given address as a big int.
-// If there is no account at that address, 0 will be returned.
+// If there is no account at that address, only what it has received during the
+// current transaction will be returned.
 func (context *blockchainContext) GetBalanceBigInt(address []byte) *big.Int {
 	outputAccount, isNew := context.host.Output().GetOutputAccount(address)
 	if !isNew {
 		if outputAccount.Balance == nil {
 			account, err := context.blockChainHook.GetUserAccount(address)
 			if err != nil || arwen.IfNil(account) {
-				return big.NewInt(0)
+				return getBalanceOfNewAccount(outputAccount)
 			}
 
 			outputAccount.Balance = account.GetBalance()
@@ -95,6 +96,17 @@ func (context *blockchainContext) GetBalanceBigInt(address []byte) *big.Int {
 	return balance
 }
 
+// getBalanceOfNewAccount returns what an account that does not exist yet has
+// received during the current transaction.
+func getBalanceOfNewAccount(outputAccount *vmcommon.OutputAccount) *big.Int {
+	balance := big.NewInt(0)
+	if outputAccount.BalanceDelta != nil {
+		balance.Set(outputAccount.BalanceDelta)
+	}
+
+	return balance
+}
+
 // GetNonce returns the nonce at which the account mapped to the given address is.
 func (context *blockchainContext) GetNonce(address []byte) (uint64, error) {
 	outputAccount, isNew := context.host.Output().GetOutputAccount(address)
-- 
2.43.0


From d7ea39d00cefb71897d957a2248d5f75c7567227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 19/70] fix: keep the size of the running code along with the
 rest of the state

---
 arwen/contexts/runtime.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arwen/contexts/runtime.go b/arwen/contexts/runtime.go
index c9d90d6..36a3b55 100644
--- a/arwen/contexts/runtime.go
+++ b/arwen/contexts/runtime.go
@@ -126,6 +126,8 @@ func (context *runtimeContext) StartWasmerInstance(contract []byte, gasLimit uin
 		return arwen.ErrMaxInstancesReached
 	}
 
+	context.codeSize = uint64(len(contract))
+
 	warmInstanceUsed := context.setWarmInstanceWhenNeeded(gasLimit)
 	if warmInstanceUsed {
 		return nil
@@ -336,6 +338,7 @@ func (context *runtimeContext) SetCustomCallFunction(callFunction string) {
 func (context *runtimeContext) PushState() {
 	newState := &runtimeContext{
 		scAddress:        context.scAddress,
+		codeSize:         context.codeSize,
 		callFunction:     context.callFunction,
 		readOnly:         context.readOnly,
 		asyncCallInfo:    context.asyncCallInfo,
@@ -365,6 +368,7 @@ func (context *runtimeContext) PopSetActiveState() {
 
 	context.SetVMInput(prevState.vmInput)
 	context.scAddress = prevState.scAddress
+	context.codeSize = prevState.codeSize
 	context.callFunction = prevState.callFunction
 	context.readOnly = prevState.readOnly
 	context.asyncCallInfo = prevState.asyncCallInfo
-- 
2.43.0


From d4b1ff163367d50d0667c69a2ccf07772db43a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 20/70] fix: outputs of failed token transfers do not persist

---
 arwen/elrondapi/elrondei.go | 6 ++++--
 arwen/host/execution.go     | 5 +++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 7e3f858..a5d72fb 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -1254,9 +1254,11 @@ func TransferESDTNFTExecuteWithTypedArgs(
 	}
 
 	snapshotBeforeTransfer := host.Blockchain().GetSnapshot()
+	output.PushState()
 
 	gasLimitForExec, executeErr := output.TransferESDT(dest, sender, esdtTokenName, uint64(nonce), esdtValue, contractCallInput)
 	if arwen.WithFaultAndHost(host, executeErr, runtime.ElrondAPIErrorShouldFailExecution()) {
+		output.PopDiscard()
 		return 1
 	}
 
@@ -1267,12 +1269,12 @@ func TransferESDTNFTExecuteWithTypedArgs(
 		if executeErr != nil {
 			logEEI.Trace("ESDT post-transfer execution failed", "error", executeErr)
 			host.Blockchain().RevertToSnapshot(snapshotBeforeTransfer)
+			output.PopSetActiveState()
 			return 1
 		}
-
-		return 0
 	}
 
+	output.PopDiscard()
 	return 0
 }
 
diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 9915927..1270823 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -225,12 +225,15 @@ func (host *vmHost) ExecuteOnDestContext(input *vmcommon.ContractCallInput) (vmO
 	scExecutionInput := input
 
 	blockchain := host.Blockchain()
+	output := host.Output()
 	blockchain.PushState()
+	output.PushState()
 
 	if host.IsBuiltinFunctionName(input.Function) {
 		scExecutionInput, vmOutput, err = host.handleBuiltinFunctionCall(input)
 		if err != nil {
 			blockchain.PopSetActiveState()
+			output.PopSetActiveState()
 			host.Runtime().AddError(err, input.Function)
 			vmOutput = host.Output().CreateVMOutputInCaseOfError(err)
 			return
@@ -243,8 +246,10 @@ func (host *vmHost) ExecuteOnDestContext(input *vmcommon.ContractCallInput) (vmO
 
 	if err != nil {
 		blockchain.PopSetActiveState()
+		output.PopSetActiveState()
 	} else {
 		blockchain.PopDiscard()
+		output.PopDiscard()
 	}
 
 	return
-- 
2.43.0


From 3853344427f23b149ee586ac6c0b87c384405f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:13 +0000
Subject: [PATCH 21/70] fix: nested executions do not lose the gas refunded
 before them

---
 arwen/contexts/output.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/arwen/contexts/output.go b/arwen/contexts/output.go
index 4c06e4a..8890365 100644
--- a/arwen/contexts/output.go
+++ b/arwen/contexts/output.go
@@ -97,7 +97,11 @@ func (context *outputContext) PopMergeActiveState() {
 	prevState := context.stateStack[stateStackLen-1]
 	context.stateStack = context.stateStack[:stateStackLen-1]
 
+	// CensorVMOutput() hid the gas refunded before the nested execution.
+	gasRefund := big.NewInt(0).Add(prevState.GasRefund, context.outputState.GasRefund)
+
 	mergeVMOutputs(prevState, context.outputState)
+	prevState.GasRefund = gasRefund
 	context.outputState = newVMOutput()
 	mergeVMOutputs(context.outputState, prevState)
 }
@@ -504,9 +508,10 @@ func (context *outputContext) resolveReturnCodeFromError(err error) vmcommon.Ret
 
 // AddToActiveState merges the given vmOutput with the outputState.
 func (context *outputContext) AddToActiveState(rightOutput *vmcommon.VMOutput) {
-	if rightOutput.GasRefund != nil {
-		rightOutput.GasRefund.Add(rightOutput.GasRefund, context.outputState.GasRefund)
+	if rightOutput.GasRefund == nil {
+		rightOutput.GasRefund = big.NewInt(0)
 	}
+	rightOutput.GasRefund.Add(rightOutput.GasRefund, context.outputState.GasRefund)
 
 	for _, rightAccount := range rightOutput.OutputAccounts {
 		leftAccount, ok := context.outputState.OutputAccounts[string(rightAccount.Address)]
-- 
2.43.0


From 8a930e768b1c193a4a5bb3ca04832398c255faac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:13 +0000
Subject: [PATCH 22/70] fix: failed deployments by contracts keep the earlier
 outputs of their address

---
 arwen/host/execution.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 1270823..284e49f 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -488,11 +488,14 @@ func (host *vmHost) CreateNewContract(input *vmcommon.ContractCreateInput) (newC
 	}
 
 	codeDeployInput.ContractAddress = newContractAddress
+	output.PushState()
 	output.DeployCode(codeDeployInput)
 
 	defer func() {
 		if err != nil {
-			output.DeleteOutputAccount(newContractAddress)
+			output.PopSetActiveState()
+		} else {
+			output.PopDiscard()
 		}
 	}()
 
-- 
2.43.0


From 179e99a324263580b515064f563f61a6c19247cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 23/70] fix: values returned to callbacks come from transfers
 of the destination call

---
 arwen/host/asyncCall.go | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/arwen/host/asyncCall.go b/arwen/host/asyncCall.go
index b0586ed..6970f74 100644
--- a/arwen/host/asyncCall.go
+++ b/arwen/host/asyncCall.go
@@ -61,9 +61,15 @@ func (host *vmHost) handleAsyncCallBreakpoint() error {
 	}
 
 	// Start calling the destination SC, synchronously.
+	numEarlierTransfers := host.numOutputTransfersToCurrentSC()
 	destinationVMOutput, destinationErr := host.executeSyncDestinationCall(asyncCallInfo)
 
-	callbackVMOutput, callBackErr := host.executeSyncCallbackCall(asyncCallInfo, destinationVMOutput, destinationErr)
+	callbackVMOutput, callBackErr := host.executeSyncCallbackCall(
+		asyncCallInfo,
+		destinationVMOutput,
+		numEarlierTransfers,
+		destinationErr,
+	)
 
 	err = host.processCallbackVMOutput(callbackVMOutput, callBackErr)
 	if err != nil {
@@ -162,11 +168,13 @@ func (host *vmHost) executeSyncDestinationCall(asyncCallInfo arwen.AsyncCallInfo
 func (host *vmHost) executeSyncCallbackCall(
 	asyncCallInfo arwen.AsyncCallInfoHandler,
 	destinationVMOutput *vmcommon.VMOutput,
+	numEarlierTransfers int,
 	destinationErr error,
 ) (*vmcommon.VMOutput, error) {
 	callbackCallInput, err := host.createCallbackContractCallInput(
 		asyncCallInfo,
 		destinationVMOutput,
+		numEarlierTransfers,
 		asyncCallInfo.GetDestination(),
 		arwen.CallbackFunctionName,
 		destinationErr,
@@ -318,7 +326,22 @@ func (host *vmHost) createDestinationContractCallInput(asyncCallInfo arwen.Async
 	return contractCallInput, nil
 }
 
-func (host *vmHost) computeCallValueFromLastOutputTransfer(destinationVMOutput *vmcommon.VMOutput) *big.Int {
+func (host *vmHost) numOutputTransfersToCurrentSC() int {
+	outAcc, ok := host.Output().GetOutputAccounts()[string(host.Runtime().GetSCAddress())]
+	if !ok {
+		return 0
+	}
+
+	return len(outAcc.OutputTransfers)
+}
+
+// computeCallValueFromLastOutputTransfer returns the value sent to the current
+// SC by the last transfer of the destination call. The output of the destination
+// call begins with the numEarlierTransfers transfers which preceded the call.
+func (host *vmHost) computeCallValueFromLastOutputTransfer(
+	destinationVMOutput *vmcommon.VMOutput,
+	numEarlierTransfers int,
+) *big.Int {
 	if !host.IsArwenV3Enabled() {
 		return big.NewInt(0)
 	}
@@ -333,7 +356,7 @@ func (host *vmHost) computeCallValueFromLastOutputTransfer(destinationVMOutput *
 		return returnTransfer
 	}
 
-	if len(outAcc.OutputTransfers) == 0 {
+	if len(outAcc.OutputTransfers) <= numEarlierTransfers {
 		return returnTransfer
 	}
 
@@ -348,6 +371,7 @@ func (host *vmHost) computeCallValueFromLastOutputTransfer(destinationVMOutput *
 func (host *vmHost) createCallbackContractCallInput(
 	asyncCallInfo arwen.AsyncCallInfoHandler,
 	destinationVMOutput *vmcommon.VMOutput,
+	numEarlierTransfers int,
 	callbackInitiator []byte,
 	callbackFunction string,
 	destinationErr error,
@@ -392,7 +416,7 @@ func (host *vmHost) createCallbackContractCallInput(
 		VMInput: vmcommon.VMInput{
 			CallerAddr:           callbackInitiator,
 			Arguments:            arguments,
-			CallValue:            host.computeCallValueFromLastOutputTransfer(destinationVMOutput),
+			CallValue:            host.computeCallValueFromLastOutputTransfer(destinationVMOutput, numEarlierTransfers),
 			CallType:             vmcommon.AsynchronousCallBack,
 			GasPrice:             runtime.GetVMInput().GasPrice,
 			GasProvided:          gasLimit,
@@ -547,6 +571,7 @@ func (host *vmHost) callbackAsync(asyncCall *arwen.AsyncGeneratedCall, vmOutput
 	callbackCallInput, err := host.createCallbackContractCallInput(
 		asyncCall,
 		vmOutput,
+		0,
 		asyncCall.Destination,
 		callbackFunction,
 		executionError,
@@ -736,6 +761,7 @@ func (host *vmHost) processCallbackStack() error {
 	callbackCallInput, err := host.createCallbackContractCallInput(
 		nil,
 		host.Output().GetVMOutput(),
+		0,
 		asyncInfo.CallerAddr,
 		arwen.CallbackFunctionName,
 		nil,
-- 
2.43.0


From 8ad44458668b18ced68a29350262553a77ae76cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 24/70] fix: values of reserved keys always come from the
 blockchain

---
 arwen/contexts/storage.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/arwen/contexts/storage.go b/arwen/contexts/storage.go
index 72238af..9018693 100644
--- a/arwen/contexts/storage.go
+++ b/arwen/contexts/storage.go
@@ -133,17 +133,7 @@ func (context *storageContext) GetStorageFromAddress(address []byte, key []byte)
 		}
 	}
 
-	// If the requested key is protected by the Elrond node, the stored value
-	// could have been changed by a built-in function in the meantime, even if
-	// contracts themselves cannot change protected values. Values stored under
-	// protected keys must always be retrieved from the node, not from the cached
-	// StorageUpdates.
-	var value []byte
-	if context.isElrondReservedKey(key) {
-		value, _ = context.blockChainHook.GetStorageData(address, key)
-	} else {
-		value = context.getStorageFromAddressUnmetered(address, key)
-	}
+	value := context.getStorageFromAddressUnmetered(address, key)
 
 	costPerByte := metering.GasSchedule().BaseOperationCost.DataCopyPerByte
 	gasToUse := math.MulUint64(costPerByte, uint64(len(value)))
@@ -156,6 +146,16 @@ func (context *storageContext) GetStorageFromAddress(address []byte, key []byte)
 func (context *storageContext) getStorageFromAddressUnmetered(address []byte, key []byte) []byte {
 	var value []byte
 
+	// If the requested key is protected by the Elrond node, the stored value
+	// could have been changed by a built-in function in the meantime, even if
+	// contracts themselves cannot change protected values. Values stored under
+	// protected keys must always be retrieved from the node, not from the cached
+	// StorageUpdates.
+	if context.isElrondReservedKey(key) {
+		value, _ = context.blockChainHook.GetStorageData(address, key)
+		return value
+	}
+
 	storageUpdates := context.GetStorageUpdates(address)
 	if storageUpdate, ok := storageUpdates[string(key)]; ok {
 		value = storageUpdate.Data
-- 
2.43.0


From 047629ad2a26fb4da784cfd2c3eee360391b6b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 25/70] fix: rejected gas schedules do not replace the current
 one

---
 arwen/host/arwen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arwen/host/arwen.go b/arwen/host/arwen.go
index 782c41d..7b24053 100644
--- a/arwen/host/arwen.go
+++ b/arwen/host/arwen.go
@@ -305,13 +305,13 @@ func (host *vmHost) GasScheduleChange(newGasSchedule config.GasScheduleMap) {
 	host.mutExecution.Lock()
 	defer host.mutExecution.Unlock()
 
-	host.gasSchedule = newGasSchedule
 	gasCostConfig, err := config.CreateGasConfig(newGasSchedule)
 	if err != nil {
 		log.Error("cannot apply new gas config remained with old one")
 		return
 	}
 
+	host.gasSchedule = newGasSchedule
 	opcodeCosts := gasCostConfig.WASMOpcodeCost.ToOpcodeCostsArray()
 	wasmer.SetOpcodeCosts(&opcodeCosts)
 
-- 
2.43.0


From a6f42f2a1ddd3de5f519ed535f70b76a2fae8743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 26/70] fix: contracts cannot be deployed over contracts of the
 same transaction

---
 arwen/host/execution.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 284e49f..48d310b 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -482,7 +482,7 @@ func (host *vmHost) CreateNewContract(input *vmcommon.ContractCreateInput) (newC
 		return
 	}
 
-	if blockchain.AccountExists(newContractAddress) {
+	if blockchain.AccountExists(newContractAddress) || host.isDeployedByCurrentTx(newContractAddress) {
 		err = arwen.ErrDeploymentOverExistingAccount
 		return
 	}
@@ -517,6 +517,13 @@ func (host *vmHost) CreateNewContract(input *vmcommon.ContractCreateInput) (newC
 	return
 }
 
+// isDeployedByCurrentTx returns true for the addresses of contracts which are
+// not known by the blockchain yet, because the current transaction deploys them
+func (host *vmHost) isDeployedByCurrentTx(address []byte) bool {
+	account, ok := host.Output().GetOutputAccounts()[string(address)]
+	return ok && len(account.Code) > 0
+}
+
 func (host *vmHost) checkUpgradePermission(vmInput *vmcommon.ContractCallInput) error {
 	contract, err := host.Blockchain().GetUserAccount(vmInput.RecipientAddr)
 	if err != nil {
-- 
2.43.0


From 492b28ba5f7e106350ae7b2b089e6d0ca19ad90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 27/70] fix: warm instances run only the code they were created
 for

---
 arwen/contexts/runtime.go | 44 +++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/arwen/contexts/runtime.go b/arwen/contexts/runtime.go
index 36a3b55..2e3c51d 100644
--- a/arwen/contexts/runtime.go
+++ b/arwen/contexts/runtime.go
@@ -44,6 +44,7 @@ type runtimeContext struct {
 	useWarmInstance     bool
 	warmInstanceAddress []byte
 	warmInstance        wasmer.InstanceHandler
+	warmInstanceCode    []byte
 
 	instanceBuilder arwen.InstanceBuilder
 
@@ -101,10 +102,11 @@ func (context *runtimeContext) ReplaceInstanceBuilder(builder arwen.InstanceBuil
 	context.instanceBuilder = builder
 }
 
-func (context *runtimeContext) setWarmInstanceWhenNeeded(gasLimit uint64) bool {
+func (context *runtimeContext) setWarmInstanceWhenNeeded(contract []byte, gasLimit uint64, newCode bool) bool {
 	scAddress := context.GetSCAddress()
 	useWarm := context.useWarmInstance && context.warmInstanceAddress != nil && bytes.Equal(scAddress, context.warmInstanceAddress)
-	if scAddress != nil && useWarm {
+	isUsable := !newCode && bytes.Equal(contract, context.warmInstanceCode) && !context.isWarmInstanceOnTheStack()
+	if scAddress != nil && useWarm && isUsable {
 		logRuntime.Trace("reusing warm instance")
 
 		context.instance = context.warmInstance
@@ -118,6 +120,37 @@ func (context *runtimeContext) setWarmInstanceWhenNeeded(gasLimit uint64) bool {
 	return false
 }
 
+// setWarmInstance keeps the current instance as the warm instance, unless the
+// previous warm instance is still required by the executions on the stack.
+func (context *runtimeContext) setWarmInstance(contract []byte) {
+	if context.isWarmInstanceOnTheStack() {
+		return
+	}
+
+	if context.warmInstance != nil {
+		context.warmInstance.Clean()
+	}
+
+	context.warmInstanceAddress = context.GetSCAddress()
+	context.warmInstance = context.instance
+	context.warmInstanceCode = contract
+	logRuntime.Trace("updated warm instance")
+}
+
+func (context *runtimeContext) isWarmInstanceOnTheStack() bool {
+	if context.warmInstance == nil {
+		return false
+	}
+
+	for _, instance := range context.instanceStack {
+		if instance == context.warmInstance {
+			return true
+		}
+	}
+
+	return false
+}
+
 // StartWasmerInstance creates a new wasmer instance if the maxWasmerInstances has not been reached.
 func (context *runtimeContext) StartWasmerInstance(contract []byte, gasLimit uint64, newCode bool) error {
 	if context.RunningInstancesCount() >= context.maxWasmerInstances {
@@ -128,7 +161,7 @@ func (context *runtimeContext) StartWasmerInstance(contract []byte, gasLimit uin
 
 	context.codeSize = uint64(len(contract))
 
-	warmInstanceUsed := context.setWarmInstanceWhenNeeded(gasLimit)
+	warmInstanceUsed := context.setWarmInstanceWhenNeeded(contract, gasLimit, newCode)
 	if warmInstanceUsed {
 		return nil
 	}
@@ -238,9 +271,7 @@ func (context *runtimeContext) makeInstanceFromContractByteCode(contract []byte,
 	}
 
 	if context.useWarmInstance {
-		context.warmInstanceAddress = context.GetSCAddress()
-		context.warmInstance = context.instance
-		logRuntime.Trace("updated warm instance")
+		context.setWarmInstance(contract)
 	}
 
 	logRuntime.Trace("new instance created", "code", "bytecode")
@@ -296,6 +327,7 @@ func (context *runtimeContext) ResetWarmInstance() {
 	context.instance = nil
 	context.warmInstanceAddress = nil
 	context.warmInstance = nil
+	context.warmInstanceCode = nil
 	logRuntime.Trace("warm instance cleaned")
 }
 
-- 
2.43.0


From 38ee8904c2d43f6bdad731a79024cbd7d2001f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 28/70] fix: the length of the topics paid by writeLog cannot
 overflow

---
 arwen/elrondapi/elrondei.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index a5d72fb..8828a9e 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -2010,7 +2010,8 @@ func v1_3_writeLog(context unsafe.Pointer, dataPointer int32, dataLength int32,
 	metering := arwen.GetMeteringContext(context)
 
 	gasToUse := metering.GasSchedule().ElrondAPICost.Log
-	gas := math.MulUint64(metering.GasSchedule().BaseOperationCost.PersistPerByte, uint64(numTopics*arwen.HashLen+dataLength))
+	lengthOfTopics := math.MulUint64(uint64(numTopics), arwen.HashLen)
+	gas := math.MulUint64(metering.GasSchedule().BaseOperationCost.PersistPerByte, math.AddUint64(lengthOfTopics, uint64(dataLength)))
 	gasToUse = math.AddUint64(gasToUse, gas)
 	metering.UseGas(gasToUse)
 
-- 
2.43.0


From 9b15197e91fdfdf4d947102bd5f3f1bc06b2b8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 29/70] fix: unlock the gas of callbacks before upgrades copy
 the input

---
 arwen/host/execution.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 48d310b..1c79b97 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -102,8 +102,10 @@ func (host *vmHost) doRunSmartContractUpgrade(input *vmcommon.ContractCallInput)
 
 	_, _, metering, output, runtime, storage := host.GetContexts()
 
-	runtime.InitStateFromContractCallInput(input)
+	// The metering unlocks the gas of callbacks on the input itself, therefore
+	// it must be initialized before the runtime copies the input.
 	metering.InitStateFromContractCallInput(&input.VMInput)
+	runtime.InitStateFromContractCallInput(input)
 	output.AddTxValueToAccount(input.RecipientAddr, input.CallValue)
 	storage.SetAddress(runtime.GetSCAddress())
 
-- 
2.43.0


From 7d85f16d7b87dedf66925e829de6ef2394f7b11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:27 +0000
Subject: [PATCH 30/70] fix: writeLog allocates only the topics found in memory

---
 arwen/elrondapi/elrondei.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 8828a9e..6def7c0 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -2020,16 +2020,21 @@ func v1_3_writeLog(context unsafe.Pointer, dataPointer int32, dataLength int32,
 		return
 	}
 
-	topics, err := arwen.GuardedMakeByteSlice2D(numTopics)
-	if arwen.WithFault(err, context, runtime.ElrondAPIErrorShouldFailExecution()) {
+	if numTopics < 0 {
+		arwen.WithFault(arwen.ErrNegativeLength, context, runtime.ElrondAPIErrorShouldFailExecution())
 		return
 	}
 
+	// The topics are allocated as they are read, because the memory might not
+	// contain as many.
+	topics := make([][]byte, 0)
 	for i := int32(0); i < numTopics; i++ {
-		topics[i], err = runtime.MemLoad(topicPtr+i*arwen.HashLen, arwen.HashLen)
+		topic, err := runtime.MemLoad(topicPtr+i*arwen.HashLen, arwen.HashLen)
 		if arwen.WithFault(err, context, runtime.ElrondAPIErrorShouldFailExecution()) {
 			return
 		}
+
+		topics = append(topics, topic)
 	}
 
 	output.WriteLog(runtime.GetSCAddress(), topics, log)
-- 
2.43.0


From db597b1535d3ad1d84b783ac95c43cf069119a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:04 +0000
Subject: [PATCH 31/70] fix: gas schedule changes can be received by the VM
 process

---
 ipc/common/messagesFactory.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ipc/common/messagesFactory.go b/ipc/common/messagesFactory.go
index d9f24dc..be585f2 100644
--- a/ipc/common/messagesFactory.go
+++ b/ipc/common/messagesFactory.go
@@ -27,6 +27,8 @@ func init() {
 	messageCreators[ContractDeployRequest] = createMessageContractDeployRequest
 	messageCreators[ContractCallRequest] = createMessageContractCallRequest
 	messageCreators[ContractResponse] = createMessageContractResponse
+	messageCreators[GasScheduleChangeRequest] = createMessageGasScheduleChangeRequest
+	messageCreators[GasScheduleChangeResponse] = createMessageGasScheduleChangeResponse
 	messageCreators[DiagnoseWaitRequest] = createMessageDiagnoseWaitRequest
 	messageCreators[DiagnoseWaitResponse] = createMessageDiagnoseWaitResponse
 	messageCreators[VersionRequest] = createMessageVersionRequest
@@ -113,6 +115,14 @@ func createMessageContractResponse() MessageHandler {
 	return &MessageContractResponse{}
 }
 
+func createMessageGasScheduleChangeRequest() MessageHandler {
+	return &MessageGasScheduleChangeRequest{}
+}
+
+func createMessageGasScheduleChangeResponse() MessageHandler {
+	return &Message{}
+}
+
 func createMessageDiagnoseWaitRequest() MessageHandler {
 	return &MessageDiagnoseWaitRequest{}
 }
-- 
2.43.0


From 31973914bc70b7c9d83da28d9fd44884b3364397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:04 +0000
Subject: [PATCH 32/70] fix: the node replies to all the hook calls of the VM
 process

---
 ipc/common/messages.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipc/common/messages.go b/ipc/common/messages.go
index 3b128cf..26a2f6e 100644
--- a/ipc/common/messages.go
+++ b/ipc/common/messages.go
@@ -286,7 +286,11 @@ func CreateReplySlots(noopReplier MessageReplier) []MessageReplier {
 // IsHookCall returns whether a message is a hook call
 func IsHookCall(message MessageHandler) bool {
 	kind := message.GetKind()
-	return kind >= BlockchainNewAddressRequest && kind <= BlockchainGetCompiledCodeResponse
+	if kind >= BlockchainNewAddressRequest && kind <= BlockchainGetCompiledCodeResponse {
+		return true
+	}
+
+	return kind >= BlockchainClearCompiledCodesRequest && kind <= BlockchainProcessBuiltInFunctionResponse
 }
 
 // IsStopRequest returns whether a message is a stop request
-- 
2.43.0


From 2336bb8d32c22f4fe6793fd2107a4b71ac65f9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 33/70] fix: errors are received as they were sent

---
 ipc/common/messages.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipc/common/messages.go b/ipc/common/messages.go
index 26a2f6e..1dc3431 100644
--- a/ipc/common/messages.go
+++ b/ipc/common/messages.go
@@ -1,6 +1,7 @@
 package common
 
 import (
+	"errors"
 	"fmt"
 	"math"
 )
@@ -209,7 +210,7 @@ func (message *Message) GetError() error {
 		return nil
 	}
 
-	return fmt.Errorf(message.ErrorMessage)
+	return errors.New(message.ErrorMessage)
 }
 
 // SetError sets the error within the message
-- 
2.43.0


From 8ef1ecbc035d8fd372879bb131be0c85eada331c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 34/70] fix: the gateway returns the error of RevertToSnapshot

---
 ipc/arwenpart/blockchainGateway.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipc/arwenpart/blockchainGateway.go b/ipc/arwenpart/blockchainGateway.go
index 035dc96..703f7f8 100644
--- a/ipc/arwenpart/blockchainGateway.go
+++ b/ipc/arwenpart/blockchainGateway.go
@@ -504,5 +504,5 @@ func (blockchain *BlockchainHookGateway) RevertToSnapshot(snapshot int) error {
 		return common.ErrBadHookResponseFromNode
 	}
 
-	return err
+	return rawResponse.GetError()
 }
-- 
2.43.0


From 0bd063f1d1849aabe12050fe4f61647a433290a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:52 +0000
Subject: [PATCH 35/70] fix: messages whose kind contradicts their header are
 not received

---
 ipc/common/errors.go   | 3 +++
 ipc/common/receiver.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/ipc/common/errors.go b/ipc/common/errors.go
index 0f0c315..5b9a07b 100644
--- a/ipc/common/errors.go
+++ b/ipc/common/errors.go
@@ -44,6 +44,9 @@ var ErrArwenNotFound = &CriticalError{InnerErr: fmt.Errorf("arwen binary not fou
 // ErrInvalidMessageNonce signals a critical error
 var ErrInvalidMessageNonce = &CriticalError{InnerErr: fmt.Errorf("invalid dialogue nonce")}
 
+// ErrInvalidMessageKind signals a critical error
+var ErrInvalidMessageKind = &CriticalError{InnerErr: fmt.Errorf("invalid message kind")}
+
 // ErrStopPerNodeRequest signals a critical error
 var ErrStopPerNodeRequest = &CriticalError{InnerErr: fmt.Errorf("arwen will stop, as requested")}
 
diff --git a/ipc/common/receiver.go b/ipc/common/receiver.go
index f3e9329..3551f50 100644
--- a/ipc/common/receiver.go
+++ b/ipc/common/receiver.go
@@ -82,6 +82,10 @@ func (receiver *Receiver) readMessage(kind MessageKind, length int) (MessageHand
 		return nil, err
 	}
 
+	if message.GetKind() != kind {
+		return nil, ErrInvalidMessageKind
+	}
+
 	return message, nil
 }
 
-- 
2.43.0


From 9f319ee12876d6b987643bc07ec12940263ed667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:52 +0000
Subject: [PATCH 36/70] fix: requests of unknown kinds do not crash the VM
 process

---
 ipc/arwenpart/part.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ipc/arwenpart/part.go b/ipc/arwenpart/part.go
index d3f2656..bbe11d4 100644
--- a/ipc/arwenpart/part.go
+++ b/ipc/arwenpart/part.go
@@ -95,7 +95,12 @@ func (part *ArwenPart) doLoop() error {
 }
 
 func (part *ArwenPart) replyToNodeRequest(request common.MessageHandler) common.MessageHandler {
-	replier := part.Repliers[request.GetKind()]
+	kind := request.GetKind()
+	if kind >= common.LastKind {
+		return part.noopReplier(request)
+	}
+
+	replier := part.Repliers[kind]
 	return replier(request)
 }
 
-- 
2.43.0


From 56fe8fe822853925a8285340bfec93b462031fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:52 +0000
Subject: [PATCH 37/70] fix: the node does not wait forever once the time of
 the VM has expired

---
 ipc/nodepart/part.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipc/nodepart/part.go b/ipc/nodepart/part.go
index 4d087fb..7921752 100644
--- a/ipc/nodepart/part.go
+++ b/ipc/nodepart/part.go
@@ -104,7 +104,7 @@ func (part *NodePart) doLoop() (common.MessageHandler, error) {
 		}
 
 		remainingMilliseconds -= duration
-		if remainingMilliseconds < 0 {
+		if remainingMilliseconds <= 0 {
 			return nil, common.ErrArwenTimeExpired
 		}
 
-- 
2.43.0


From a078f2191da93048264a26561b43f647d86459d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:52 +0000
Subject: [PATCH 38/70] fix: requests of the node are answered only by
 responses of their kind

---
 ipc/nodepart/part.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/ipc/nodepart/part.go b/ipc/nodepart/part.go
index 7921752..316ff2e 100644
--- a/ipc/nodepart/part.go
+++ b/ipc/nodepart/part.go
@@ -82,7 +82,7 @@ func (part *NodePart) StartLoop(request common.MessageHandler) (common.MessageHa
 		return nil, err
 	}
 
-	response, err := part.doLoop()
+	response, err := part.doLoop(request)
 	if err != nil {
 		log.Warn("[NODE]: end of loop", "err", err)
 	}
@@ -94,7 +94,7 @@ func (part *NodePart) StartLoop(request common.MessageHandler) (common.MessageHa
 // doLoop ends when processing the transaction ends or in the case of a critical failure
 // Critical failure = Arwen timeouts or crashes
 // The error result is set only in case of critical failure
-func (part *NodePart) doLoop() (common.MessageHandler, error) {
+func (part *NodePart) doLoop(request common.MessageHandler) (common.MessageHandler, error) {
 	remainingMilliseconds := part.config.MaxLoopTime
 
 	for {
@@ -117,16 +117,7 @@ func (part *NodePart) doLoop() (common.MessageHandler, error) {
 			continue
 		}
 
-		if common.IsVersionResponse(message) {
-			return message, nil
-		}
-		if common.IsContractResponse(message) {
-			return message, nil
-		}
-		if common.IsDiagnose(message) {
-			return message, nil
-		}
-		if common.IsGasScheduleChangeResponse(message) {
+		if isResponseToRequest(message, request) {
 			return message, nil
 		}
 
@@ -134,6 +125,21 @@ func (part *NodePart) doLoop() (common.MessageHandler, error) {
 	}
 }
 
+func isResponseToRequest(response common.MessageHandler, request common.MessageHandler) bool {
+	switch request.GetKind() {
+	case common.ContractDeployRequest, common.ContractCallRequest:
+		return common.IsContractResponse(response)
+	case common.VersionRequest:
+		return common.IsVersionResponse(response)
+	case common.GasScheduleChangeRequest:
+		return common.IsGasScheduleChangeResponse(response)
+	case common.DiagnoseWaitRequest:
+		return response.GetKind() == common.DiagnoseWaitResponse
+	default:
+		return false
+	}
+}
+
 func (part *NodePart) replyToHookCallRequest(request common.MessageHandler) error {
 	defer part.timeTrack(time.Now(), fmt.Sprintf("replyToHookCallRequest %s", request.GetKindName()))
 
-- 
2.43.0


From 4e6dac0c9f9dbb0d862095f2402e0501c7fcaf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:53 +0000
Subject: [PATCH 39/70] fix: messages of errors and outputs are received as
 they were sent

---
 ipc/common/messages.go             |  6 +++---
 ipc/common/serializableVMOutput.go | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/ipc/common/messages.go b/ipc/common/messages.go
index 1dc3431..dfa328a 100644
--- a/ipc/common/messages.go
+++ b/ipc/common/messages.go
@@ -181,7 +181,7 @@ type MessageHandler interface {
 type Message struct {
 	DialogueNonce uint32
 	Kind          MessageKind
-	ErrorMessage  string
+	ErrorMessage  []byte
 }
 
 // GetNonce gets the dialogue nonce
@@ -210,13 +210,13 @@ func (message *Message) GetError() error {
 		return nil
 	}
 
-	return errors.New(message.ErrorMessage)
+	return errors.New(string(message.ErrorMessage))
 }
 
 // SetError sets the error within the message
 func (message *Message) SetError(err error) {
 	if err != nil {
-		message.ErrorMessage = err.Error()
+		message.ErrorMessage = bytesOfText(err.Error())
 	}
 }
 
diff --git a/ipc/common/serializableVMOutput.go b/ipc/common/serializableVMOutput.go
index c8a5ab1..60fcb97 100644
--- a/ipc/common/serializableVMOutput.go
+++ b/ipc/common/serializableVMOutput.go
@@ -9,7 +9,7 @@ import (
 type SerializableVMOutput struct {
 	ReturnData              [][]byte
 	ReturnCode              vmcommon.ReturnCode
-	ReturnMessage           string
+	ReturnMessage           []byte
 	GasRemaining            uint64
 	GasRefund               *big.Int
 	CorrectedOutputAccounts []*SerializableOutputAccount
@@ -26,7 +26,7 @@ func NewSerializableVMOutput(vmOutput *vmcommon.VMOutput) *SerializableVMOutput
 	o := &SerializableVMOutput{
 		ReturnData:              vmOutput.ReturnData,
 		ReturnCode:              vmOutput.ReturnCode,
-		ReturnMessage:           vmOutput.ReturnMessage,
+		ReturnMessage:           bytesOfText(vmOutput.ReturnMessage),
 		GasRemaining:            vmOutput.GasRemaining,
 		GasRefund:               vmOutput.GasRefund,
 		CorrectedOutputAccounts: make([]*SerializableOutputAccount, 0, len(vmOutput.OutputAccounts)),
@@ -42,6 +42,15 @@ func NewSerializableVMOutput(vmOutput *vmcommon.VMOutput) *SerializableVMOutput
 	return o
 }
 
+// bytesOfText gets the bytes of a text which isn't necessarily valid UTF-8 (as required by the marshalizers)
+func bytesOfText(text string) []byte {
+	if len(text) == 0 {
+		return nil
+	}
+
+	return []byte(text)
+}
+
 func (o *SerializableVMOutput) ConvertToVMOutput() *vmcommon.VMOutput {
 	accountsMap := make(map[string]*vmcommon.OutputAccount)
 
@@ -52,7 +61,7 @@ func (o *SerializableVMOutput) ConvertToVMOutput() *vmcommon.VMOutput {
 	return &vmcommon.VMOutput{
 		ReturnData:      o.ReturnData,
 		ReturnCode:      o.ReturnCode,
-		ReturnMessage:   o.ReturnMessage,
+		ReturnMessage:   string(o.ReturnMessage),
 		GasRemaining:    o.GasRemaining,
 		GasRefund:       o.GasRefund,
 		OutputAccounts:  accountsMap,
-- 
2.43.0


From b78978b4ab56c0865adf071d26be2f7d49778c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:23 +0000
Subject: [PATCH 40/70] fix: the functions of calls are received as they were
 sent

---
 ipc/arwenpart/part.go              |  2 +-
 ipc/common/messagesBlockchain.go   |  9 ++++++++-
 ipc/common/messagesContracts.go    | 24 ++++++++++++++++++++++++
 ipc/nodepart/blockchainRepliers.go |  2 +-
 4 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/ipc/arwenpart/part.go b/ipc/arwenpart/part.go
index bbe11d4..3dd7251 100644
--- a/ipc/arwenpart/part.go
+++ b/ipc/arwenpart/part.go
@@ -112,7 +112,7 @@ func (part *ArwenPart) replyToRunSmartContractCreate(request common.MessageHandl
 
 func (part *ArwenPart) replyToRunSmartContractCall(request common.MessageHandler) common.MessageHandler {
 	typedRequest := request.(*common.MessageContractCallRequest)
-	vmOutput, err := part.VMHost.RunSmartContractCall(typedRequest.CallInput)
+	vmOutput, err := part.VMHost.RunSmartContractCall(typedRequest.GetCallInput())
 	return common.NewMessageContractResponse(vmOutput, err)
 }
 
diff --git a/ipc/common/messagesBlockchain.go b/ipc/common/messagesBlockchain.go
index 707d359..fb6b6e5 100644
--- a/ipc/common/messagesBlockchain.go
+++ b/ipc/common/messagesBlockchain.go
@@ -398,7 +398,8 @@ func NewMessageBlockchainCurrentEpochResponse(result uint32) *MessageBlockchainC
 // MessageBlockchainProcessBuiltInFunctionRequest represents a request message
 type MessageBlockchainProcessBuiltInFunctionRequest struct {
 	Message
-	Input *vmcommon.ContractCallInput
+	Input    *vmcommon.ContractCallInput
+	Function []byte
 }
 
 // NewMessageBlockchainProcessBuiltInFunctionRequest creates a request message
@@ -406,9 +407,15 @@ func NewMessageBlockchainProcessBuiltInFunctionRequest(input *vmcommon.ContractC
 	message := &MessageBlockchainProcessBuiltInFunctionRequest{}
 	message.Kind = BlockchainProcessBuiltInFunctionRequest
 	message.Input = input
+	message.Function = functionOfInput(input)
 	return message
 }
 
+// GetInput gets the input, with the function as it was named by the sender
+func (message *MessageBlockchainProcessBuiltInFunctionRequest) GetInput() *vmcommon.ContractCallInput {
+	return restoreFunctionOfInput(message.Input, message.Function)
+}
+
 // MessageBlockchainProcessBuiltInFunctionResponse represents a response message
 type MessageBlockchainProcessBuiltInFunctionResponse struct {
 	Message
diff --git a/ipc/common/messagesContracts.go b/ipc/common/messagesContracts.go
index 01d1565..e49059d 100644
--- a/ipc/common/messagesContracts.go
+++ b/ipc/common/messagesContracts.go
@@ -22,6 +22,7 @@ func NewMessageContractDeployRequest(input *vmcommon.ContractCreateInput) *Messa
 type MessageContractCallRequest struct {
 	Message
 	CallInput *vmcommon.ContractCallInput
+	Function  []byte
 }
 
 // NewMessageContractCallRequest creates a MessageContractCallRequest
@@ -29,9 +30,32 @@ func NewMessageContractCallRequest(input *vmcommon.ContractCallInput) *MessageCo
 	message := &MessageContractCallRequest{}
 	message.Kind = ContractCallRequest
 	message.CallInput = input
+	message.Function = functionOfInput(input)
 	return message
 }
 
+// GetCallInput gets the input, with the function as it was named by the sender
+func (message *MessageContractCallRequest) GetCallInput() *vmcommon.ContractCallInput {
+	return restoreFunctionOfInput(message.CallInput, message.Function)
+}
+
+// functionOfInput gets the bytes of the function, which isn't necessarily valid UTF-8 (as required by the marshalizers)
+func functionOfInput(input *vmcommon.ContractCallInput) []byte {
+	if input == nil {
+		return nil
+	}
+
+	return bytesOfText(input.Function)
+}
+
+func restoreFunctionOfInput(input *vmcommon.ContractCallInput, function []byte) *vmcommon.ContractCallInput {
+	if input != nil {
+		input.Function = string(function)
+	}
+
+	return input
+}
+
 // MessageContractResponse is a contract response message (from Arwen)
 type MessageContractResponse struct {
 	Message
diff --git a/ipc/nodepart/blockchainRepliers.go b/ipc/nodepart/blockchainRepliers.go
index 8c85ef8..d684f13 100644
--- a/ipc/nodepart/blockchainRepliers.go
+++ b/ipc/nodepart/blockchainRepliers.go
@@ -108,7 +108,7 @@ func (part *NodePart) replyToBlockchainCurrentEpoch(request common.MessageHandle
 
 func (part *NodePart) replyToBlockchainProcessBuiltInFunction(request common.MessageHandler) common.MessageHandler {
 	typedRequest := request.(*common.MessageBlockchainProcessBuiltInFunctionRequest)
-	vmOutput, err := part.blockchain.ProcessBuiltInFunction(typedRequest.Input)
+	vmOutput, err := part.blockchain.ProcessBuiltInFunction(typedRequest.GetInput())
 
 	response := common.NewMessageBlockchainProcessBuiltInFunctionResponse(vmOutput, err)
 	return response
-- 
2.43.0


From 201005e47b82243400c33cf8b86ca260c05dbdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 41/70] fix: reverting the mock world to a snapshot keeps the
 snapshot intact

---
 mock/world/worldAccountsAdapter.go | 5 +++--
 mock/world/worldUpdate.go          | 7 ++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/mock/world/worldAccountsAdapter.go b/mock/world/worldAccountsAdapter.go
index 28a4920..8ae56cf 100644
--- a/mock/world/worldAccountsAdapter.go
+++ b/mock/world/worldAccountsAdapter.go
@@ -90,8 +90,9 @@ func (m *MockAccountsAdapter) RevertToSnapshot(snapshotIndex int) error {
 			len(m.Snapshots)-1)
 	}
 
-	snapshot := m.Snapshots[snapshotIndex]
-	m.Snapshots = m.Snapshots[:snapshotIndex]
+	// the snapshot reverted to remains available, therefore it must not share its storage with the accounts
+	snapshot := m.Snapshots[snapshotIndex].Clone()
+	m.Snapshots = m.Snapshots[:snapshotIndex+1]
 
 	// TODO should probably set BalanceDelta of all accounts to 0 as well?
 	return m.World.AcctMap.LoadAccountStorageFrom(snapshot)
diff --git a/mock/world/worldUpdate.go b/mock/world/worldUpdate.go
index 7493a76..4760b64 100644
--- a/mock/world/worldUpdate.go
+++ b/mock/world/worldUpdate.go
@@ -111,5 +111,10 @@ func (b *MockWorld) CommitChanges() error {
 
 // RollbackChanges should be called after the VM test has run, if the tx has failed
 func (b *MockWorld) RollbackChanges() error {
-	return b.AccountsAdapter.RevertToSnapshot(0)
+	err := b.AccountsAdapter.RevertToSnapshot(0)
+	if err != nil {
+		return err
+	}
+
+	return b.CommitChanges()
 }
-- 
2.43.0


From f6d57e2f09f31b496b2d95613a1bf79467a278f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 42/70] fix: accounts created after a snapshot of the mock
 world can be reverted

---
 mock/world/worldAccountMap.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mock/world/worldAccountMap.go b/mock/world/worldAccountMap.go
index ce386d3..0e6456c 100644
--- a/mock/world/worldAccountMap.go
+++ b/mock/world/worldAccountMap.go
@@ -1,8 +1,6 @@
 package worldmock
 
 import (
-	"encoding/hex"
-	"fmt"
 	"math/big"
 
 	"github.com/ElrondNetwork/elrond-vm-common"
@@ -85,13 +83,13 @@ func (am AccountMap) Clone() AccountMap {
 
 // LoadAccountStorageFrom reassigns the storage of the accounts to the storage
 // of the accounts found in otherAM; it only does a reference change, not a deep copy.
+// Accounts which are not found in otherAM have no storage afterwards.
 func (am AccountMap) LoadAccountStorageFrom(otherAM AccountMap) error {
 	for address, account := range am {
 		otherAccount, otherExists := otherAM[address]
 		if !otherExists {
-			return fmt.Errorf(
-				"account %s could not be loaded from AccountMap",
-				hex.EncodeToString([]byte(address)))
+			account.Storage = make(map[string][]byte)
+			continue
 		}
 		account.Storage = otherAccount.Storage
 	}
-- 
2.43.0


From 50f8264b7b16443f8f2240db7fd30a5e4931bf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 43/70] fix: a gas payment that fails leaves the mock account
 unchanged

---
 mock/world/worldUpdate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mock/world/worldUpdate.go b/mock/world/worldUpdate.go
index 4760b64..df1431c 100644
--- a/mock/world/worldUpdate.go
+++ b/mock/world/worldUpdate.go
@@ -37,14 +37,14 @@ func (b *MockWorld) UpdateWorldStateBefore(
 	if acct == nil {
 		return errors.New("method UpdateWorldStateBefore expects an existing address")
 	}
-	acct.Nonce++
 	gasPayment := big.NewInt(0).Mul(
 		big.NewInt(0).SetUint64(gasLimit),
 		big.NewInt(0).SetUint64(gasPrice))
 	if acct.Balance.Cmp(gasPayment) < 0 {
 		return errors.New("not enough balance to pay gas upfront")
 	}
-	acct.Balance.Sub(acct.Balance, gasPayment)
+	acct.Nonce++
+	acct.Balance = big.NewInt(0).Sub(acct.Balance, gasPayment)
 	return nil
 }
 
-- 
2.43.0


From bebd3b8a737111b68f6a849175e9a9b711c69edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 44/70] fix: an output without balance leaves the balance of
 the mock account

---
 mock/world/worldUpdate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mock/world/worldUpdate.go b/mock/world/worldUpdate.go
index df1431c..72bd16a 100644
--- a/mock/world/worldUpdate.go
+++ b/mock/world/worldUpdate.go
@@ -75,7 +75,7 @@ func (b *MockWorld) UpdateAccountFromOutputAccount(modAcct *vmcommon.OutputAccou
 	acct.Exists = true
 	if modAcct.BalanceDelta != nil {
 		acct.Balance = big.NewInt(0).Add(acct.Balance, modAcct.BalanceDelta)
-	} else {
+	} else if modAcct.Balance != nil {
 		acct.Balance = modAcct.Balance
 	}
 	if modAcct.Nonce > acct.Nonce {
-- 
2.43.0


From 9d0086122bad4a23ac6e4a2718a2d33574a2d180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:26 +0000
Subject: [PATCH 45/70] fix: mock contracts have the hash of their code

---
 mock/world/worldAccountMap.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mock/world/worldAccountMap.go b/mock/world/worldAccountMap.go
index 0e6456c..e679a28 100644
--- a/mock/world/worldAccountMap.go
+++ b/mock/world/worldAccountMap.go
@@ -41,8 +41,7 @@ func (am AccountMap) CreateAccount(address []byte, world *MockWorld) *Account {
 // the given address and WASM bytecode.
 func (am AccountMap) CreateSmartContractAccount(owner []byte, address []byte, code []byte, world *MockWorld) *Account {
 	newAccount := am.CreateAccount(address, world)
-	newAccount.Code = code
-	newAccount.IsSmartContract = true
+	newAccount.SetCode(code)
 	newAccount.OwnerAddress = owner
 	newAccount.CodeMetadata = []byte{0, vmcommon.MetadataPayable}
 
-- 
2.43.0


From bc4375f584060c02eaf47afbb86736e213a71118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 46/70] fix: tokens of unknown accounts can be queried in the
 mock world

---
 mock/world/mockESDT.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mock/world/mockESDT.go b/mock/world/mockESDT.go
index faa376a..56e937a 100644
--- a/mock/world/mockESDT.go
+++ b/mock/world/mockESDT.go
@@ -35,6 +35,10 @@ func (bf *BuiltinFunctionsWrapper) SetTokenBalance(address []byte, tokenKey []by
 // (token keys are built from the token identifier using MakeTokenKey).
 func (bf *BuiltinFunctionsWrapper) GetTokenData(address []byte, tokenKey []byte) (*esdt.ESDigitalToken, error) {
 	account := bf.World.AcctMap.GetAccount(address)
+	if account == nil {
+		// an account which does not exist holds no tokens
+		account = &Account{}
+	}
 	return account.GetTokenData(tokenKey)
 }
 
-- 
2.43.0


From 86586caf04f5de661c453b56d47736a5a9bd303a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 47/70] fix: block hashes of the mock world are found for any
 nonce

---
 mock/world/worldCallbacks.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mock/world/worldCallbacks.go b/mock/world/worldCallbacks.go
index da08932..7716eed 100644
--- a/mock/world/worldCallbacks.go
+++ b/mock/world/worldCallbacks.go
@@ -67,11 +67,11 @@ func (b *MockWorld) GetBlockhash(nonce uint64) ([]byte, error) {
 	if nonce > currentNonce {
 		return nil, errors.New("requested nonce is greater than current nonce")
 	}
-	offsetInt32 := int(currentNonce - nonce)
-	if offsetInt32 >= len(b.Blockhashes) {
+	offset := currentNonce - nonce
+	if offset >= uint64(len(b.Blockhashes)) {
 		return nil, errors.New("requested nonce is older than the oldest available block nonce")
 	}
-	return b.Blockhashes[offsetInt32], nil
+	return b.Blockhashes[offset], nil
 }
 
 // LastNonce returns the nonce from from the last committed block
-- 
2.43.0


From c88dad9fdb6f1a3440ec682564bfb2214436ac09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 48/70] fix: a token key shorter than its nonce is reported as
 invalid

---
 mock/world/mockESDTAccount.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mock/world/mockESDTAccount.go b/mock/world/mockESDTAccount.go
index 349be79..c2ef442 100644
--- a/mock/world/mockESDTAccount.go
+++ b/mock/world/mockESDTAccount.go
@@ -295,7 +295,7 @@ func (a *Account) loadMockESDTDataInstance(tokenKey []byte) (string, *esdt.ESDig
 		nonceAsBytes := big.NewInt(0).SetUint64(tokenInstance.TokenMetaData.Nonce).Bytes()
 		tokenNameLen := len(tokenNameFromKey) - len(nonceAsBytes)
 
-		if !bytes.Equal(nonceAsBytes, tokenNameFromKey[tokenNameLen:]) {
+		if tokenNameLen < 0 || !bytes.Equal(nonceAsBytes, tokenNameFromKey[tokenNameLen:]) {
 			return "", nil, errors.New("Invalid key for NFT (key does not end in nonce)")
 		}
 
-- 
2.43.0


From c6663edded9a981da82a1fd28ff9fef46dbeb39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:29 +0000
Subject: [PATCH 49/70] fix: the changes of a scenario transaction that fails
 are rolled back

---
 arwenmandos/stepRunTx.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/arwenmandos/stepRunTx.go b/arwenmandos/stepRunTx.go
index 46a9f0c..dde5e80 100644
--- a/arwenmandos/stepRunTx.go
+++ b/arwenmandos/stepRunTx.go
@@ -43,12 +43,10 @@ func (ae *ArwenTestExecutor) executeTx(txIndex string, tx *mj.Transaction) (*vmc
 
 		gasForExecution = tx.GasLimit.Value
 		if tx.ESDTValue != nil {
-			gasRemaining, err := ae.directESDTTransferFromTx(tx)
+			gasForExecution, err = ae.directESDTTransferFromTx(tx)
 			if err != nil {
 				return nil, err
 			}
-
-			gasForExecution = gasRemaining
 		}
 	}
 
@@ -91,7 +89,7 @@ func (ae *ArwenTestExecutor) executeTx(txIndex string, tx *mj.Transaction) (*vmc
 	}
 
 	if output.ReturnCode == vmcommon.Ok {
-		err := ae.updateStateAfterTx(tx, output)
+		err = ae.updateStateAfterTx(tx, output)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From accb14ab0199f83a17ad7763f69ce0d9c0e44e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 50/70] fix: tx steps without a transaction are rejected, the
 result may come first

---
 mandos-go/json/parse/parseScenario.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mandos-go/json/parse/parseScenario.go b/mandos-go/json/parse/parseScenario.go
index 36a5901..24a2d80 100644
--- a/mandos-go/json/parse/parseScenario.go
+++ b/mandos-go/json/parse/parseScenario.go
@@ -260,8 +260,8 @@ func (p *Parser) parseTxStep(txType mj.TransactionType, stepMap *oj.OJsonMap) (*
 				return nil, fmt.Errorf("cannot parse tx step transaction: %w", err)
 			}
 		case "expect":
-			if !step.Tx.Type.IsSmartContractTx() {
-				return nil, fmt.Errorf("no expected result allowed for step of type %s", step.StepTypeName())
+			if !txType.IsSmartContractTx() {
+				return nil, errors.New("no expected result allowed for this type of step")
 			}
 			step.ExpectedResult, err = p.processTxExpectedResult(kvp.Value)
 			if err != nil {
@@ -271,5 +271,8 @@ func (p *Parser) parseTxStep(txType mj.TransactionType, stepMap *oj.OJsonMap) (*
 			return nil, fmt.Errorf("invalid tx step field: %s", kvp.Key)
 		}
 	}
+	if step.Tx == nil {
+		return nil, errors.New("tx step has no transaction")
+	}
 	return step, nil
 }
-- 
2.43.0


From 511a49da1fe98e0f3ca817957fe3428d02456338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 51/70] fix: checks without accounts are rejected

---
 mandos-go/json/parse/parseScenario.go | 3 +++
 mandos-go/json/parse/parseTest.go     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/mandos-go/json/parse/parseScenario.go b/mandos-go/json/parse/parseScenario.go
index 24a2d80..85a864d 100644
--- a/mandos-go/json/parse/parseScenario.go
+++ b/mandos-go/json/parse/parseScenario.go
@@ -207,6 +207,9 @@ func (p *Parser) processScenarioStep(stepObj oj.OJsonObject) (mj.Step, error) {
 				return nil, fmt.Errorf("invalid check state field: %s", kvp.Key)
 			}
 		}
+		if step.CheckAccounts == nil {
+			return nil, errors.New("check state step has no accounts")
+		}
 		return step, nil
 	case mj.StepNameDumpState:
 		step := &mj.DumpStateStep{}
diff --git a/mandos-go/json/parse/parseTest.go b/mandos-go/json/parse/parseTest.go
index 9d659e6..57b489f 100644
--- a/mandos-go/json/parse/parseTest.go
+++ b/mandos-go/json/parse/parseTest.go
@@ -86,6 +86,9 @@ func (p *Parser) processTest(testObj oj.OJsonObject) (*mj.Test, error) {
 			return nil, fmt.Errorf("unknown test: %s", kvp.Key)
 		}
 	}
+	if test.PostState == nil {
+		return nil, errors.New("test has no postState")
+	}
 
 	return &test, nil
 }
-- 
2.43.0


From 1835ee59be2b43f56aba4e04b76b0334dc588272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 52/70] fix: fields that checks of logs and tokens do not
 mention are unspecified

---
 mandos-go/json/parse/parseESDTCheck.go | 13 +++++++------
 mandos-go/json/parse/parseLogs.go      |  6 +++++-
 mandos-go/json/write/writeCommon.go    | 12 +++++++++---
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/mandos-go/json/parse/parseESDTCheck.go b/mandos-go/json/parse/parseESDTCheck.go
index d920e96..b4e2dab 100644
--- a/mandos-go/json/parse/parseESDTCheck.go
+++ b/mandos-go/json/parse/parseESDTCheck.go
@@ -17,17 +17,16 @@ func (p *Parser) processCheckESDTData(
 		// simple string representing balance "400,000,000,000"
 		esdtData := mj.CheckESDTData{
 			TokenIdentifier: tokenName,
+			LastNonce:       mj.JSONCheckUint64Unspecified(),
+			Frozen:          mj.JSONCheckUint64Unspecified(),
 		}
 		balance, err := p.processCheckBigInt(esdtDataRaw, bigIntUnsignedBytes)
 		if err != nil {
 			return nil, fmt.Errorf("invalid ESDT balance: %w", err)
 		}
-		esdtData.Instances = []*mj.CheckESDTInstance{
-			{
-				Nonce:   mj.JSONCheckUint64{Value: 0, Original: ""},
-				Balance: balance,
-			},
-		}
+		instance := mj.NewCheckESDTInstance()
+		instance.Balance = balance
+		esdtData.Instances = []*mj.CheckESDTInstance{instance}
 		return &esdtData, nil
 	case *oj.OJsonMap:
 		return p.processCheckESDTDataMap(tokenName, data)
@@ -44,6 +43,8 @@ func (p *Parser) processCheckESDTData(
 func (p *Parser) processCheckESDTDataMap(tokenName mj.JSONBytesFromString, esdtDataMap *oj.OJsonMap) (*mj.CheckESDTData, error) {
 	esdtData := mj.CheckESDTData{
 		TokenIdentifier: tokenName,
+		LastNonce:       mj.JSONCheckUint64Unspecified(),
+		Frozen:          mj.JSONCheckUint64Unspecified(),
 	}
 	// var err error
 	firstInstance := &mj.CheckESDTInstance{
diff --git a/mandos-go/json/parse/parseLogs.go b/mandos-go/json/parse/parseLogs.go
index 24dd80b..6a311d2 100644
--- a/mandos-go/json/parse/parseLogs.go
+++ b/mandos-go/json/parse/parseLogs.go
@@ -20,7 +20,11 @@ func (p *Parser) processLogList(logsRaw oj.OJsonObject) ([]*mj.LogEntry, error)
 		if !isMap {
 			return nil, errors.New("unmarshalled log entry is not a map")
 		}
-		logEntry := mj.LogEntry{}
+		logEntry := mj.LogEntry{
+			Address:    mj.JSONCheckBytesUnspecified(),
+			Identifier: mj.JSONCheckBytesUnspecified(),
+			Data:       mj.JSONCheckBytesUnspecified(),
+		}
 		for _, kvp := range logMap.OrderedKV {
 			switch kvp.Key {
 			case "address":
diff --git a/mandos-go/json/write/writeCommon.go b/mandos-go/json/write/writeCommon.go
index 8d0d21c..dee9f17 100644
--- a/mandos-go/json/write/writeCommon.go
+++ b/mandos-go/json/write/writeCommon.go
@@ -62,8 +62,12 @@ func LogToString(logEntry *mj.LogEntry) string {
 
 func logToOJ(logEntry *mj.LogEntry) oj.OJsonObject {
 	logOJ := oj.NewMap()
-	logOJ.Put("address", checkBytesToOJ(logEntry.Address))
-	logOJ.Put("identifier", checkBytesToOJ(logEntry.Identifier))
+	if !logEntry.Address.IsUnspecified() {
+		logOJ.Put("address", checkBytesToOJ(logEntry.Address))
+	}
+	if !logEntry.Identifier.IsUnspecified() {
+		logOJ.Put("identifier", checkBytesToOJ(logEntry.Identifier))
+	}
 
 	var topicsList []oj.OJsonObject
 	for _, topic := range logEntry.Topics {
@@ -72,7 +76,9 @@ func logToOJ(logEntry *mj.LogEntry) oj.OJsonObject {
 	topicsOJ := oj.OJsonList(topicsList)
 	logOJ.Put("topics", &topicsOJ)
 
-	logOJ.Put("data", checkBytesToOJ(logEntry.Data))
+	if !logEntry.Data.IsUnspecified() {
+		logOJ.Put("data", checkBytesToOJ(logEntry.Data))
+	}
 
 	return logOJ
 }
-- 
2.43.0


From db1014c0ecd9e47d3bb8166f4b5b44b9a5266a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 53/70] fix: the shards of accounts are written

---
 mandos-go/json/write/writeAccount.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mandos-go/json/write/writeAccount.go b/mandos-go/json/write/writeAccount.go
index 3360263..1afa6a4 100644
--- a/mandos-go/json/write/writeAccount.go
+++ b/mandos-go/json/write/writeAccount.go
@@ -13,6 +13,9 @@ func AccountsToOJ(accounts []*mj.Account) oj.OJsonObject {
 		if len(account.Comment) > 0 {
 			acctOJ.Put("comment", stringToOJ(account.Comment))
 		}
+		if len(account.Shard.Original) > 0 {
+			acctOJ.Put("shard", uint64ToOJ(account.Shard))
+		}
 		acctOJ.Put("nonce", uint64ToOJ(account.Nonce))
 		acctOJ.Put("balance", bigIntToOJ(account.Balance))
 		if len(account.ESDTData) > 0 {
-- 
2.43.0


From 85311b1149a94ae7a3ca46e1bf11fa1d00b20ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 54/70] fix: tokens of accounts are written with all their
 fields

---
 mandos-go/json/write/writeESDT.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mandos-go/json/write/writeESDT.go b/mandos-go/json/write/writeESDT.go
index 76c609b..1659b40 100644
--- a/mandos-go/json/write/writeESDT.go
+++ b/mandos-go/json/write/writeESDT.go
@@ -37,7 +37,8 @@ func esdtItemToOJ(esdtItem *mj.ESDTData) oj.OJsonObject {
 	// instances
 	if len(esdtItem.Instances) == 1 {
 		appendESDTInstanceToOJ(esdtItem.Instances[0], esdtItemOJ)
-	} else {
+	}
+	if esdtItemOJ.Size() == 0 {
 		var convertedList []oj.OJsonObject
 		for _, esdtInstance := range esdtItem.Instances {
 			esdtInstanceOJ := oj.NewMap()
@@ -96,7 +97,16 @@ func isCompactESDT(esdtItem *mj.ESDTData) bool {
 	if len(esdtItem.Instances) != 1 {
 		return false
 	}
-	if len(esdtItem.Instances[0].Nonce.Original) > 0 {
+	instance := esdtItem.Instances[0]
+	if len(instance.Nonce.Original) > 0 ||
+		len(instance.Creator.Original) > 0 ||
+		len(instance.Royalties.Original) > 0 ||
+		len(instance.Hash.Original) > 0 ||
+		len(instance.Uri.Value) > 0 ||
+		len(instance.Attributes.Original) > 0 {
+		return false
+	}
+	if len(esdtItem.LastNonce.Original) > 0 {
 		return false
 	}
 	if len(esdtItem.Roles) > 0 {
-- 
2.43.0


From d8da5fb11ad37e4084eec0cfcd938390b48a89a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 55/70] fix: checks of tokens are written with all their fields

---
 mandos-go/json/write/writeAccount.go   |  2 +-
 mandos-go/json/write/writeESDTCheck.go | 37 +++++++++++++++++---------
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/mandos-go/json/write/writeAccount.go b/mandos-go/json/write/writeAccount.go
index 1afa6a4..1c1a91a 100644
--- a/mandos-go/json/write/writeAccount.go
+++ b/mandos-go/json/write/writeAccount.go
@@ -59,7 +59,7 @@ func checkAccountsToOJ(checkAccounts *mj.CheckAccounts) oj.OJsonObject {
 		if checkAccount.IgnoreESDT {
 			acctOJ.Put("esdt", stringToOJ("*"))
 		} else {
-			if len(checkAccount.CheckESDTData) > 0 {
+			if len(checkAccount.CheckESDTData) > 0 || checkAccount.MoreESDTTokensAllowed {
 				acctOJ.Put("esdt", checkESDTDataToOJ(
 					checkAccount.CheckESDTData, checkAccount.MoreESDTTokensAllowed))
 			}
diff --git a/mandos-go/json/write/writeESDTCheck.go b/mandos-go/json/write/writeESDTCheck.go
index 6ce84de..222f6f1 100644
--- a/mandos-go/json/write/writeESDTCheck.go
+++ b/mandos-go/json/write/writeESDTCheck.go
@@ -26,7 +26,8 @@ func checkESDTItemToOJ(esdtItem *mj.CheckESDTData) oj.OJsonObject {
 	// instances
 	if len(esdtItem.Instances) == 1 {
 		appendCheckESDTInstanceToOJ(esdtItem.Instances[0], esdtItemOJ)
-	} else {
+	}
+	if esdtItemOJ.Size() == 0 {
 		var convertedList []oj.OJsonObject
 		for _, esdtInstance := range esdtItem.Instances {
 			esdtInstanceOJ := oj.NewMap()
@@ -37,7 +38,7 @@ func checkESDTItemToOJ(esdtItem *mj.CheckESDTData) oj.OJsonObject {
 		esdtItemOJ.Put("instances", &instancesOJList)
 	}
 
-	if len(esdtItem.LastNonce.Original) > 0 {
+	if !esdtItem.LastNonce.IsUnspecified() {
 		esdtItemOJ.Put("lastNonce", checkUint64ToOJ(esdtItem.LastNonce))
 	}
 
@@ -50,7 +51,7 @@ func checkESDTItemToOJ(esdtItem *mj.CheckESDTData) oj.OJsonObject {
 		rolesOJList := oj.OJsonList(convertedList)
 		esdtItemOJ.Put("roles", &rolesOJList)
 	}
-	if len(esdtItem.Frozen.Original) > 0 {
+	if !esdtItem.Frozen.IsUnspecified() {
 		esdtItemOJ.Put("frozen", checkUint64ToOJ(esdtItem.Frozen))
 	}
 
@@ -58,25 +59,25 @@ func checkESDTItemToOJ(esdtItem *mj.CheckESDTData) oj.OJsonObject {
 }
 
 func appendCheckESDTInstanceToOJ(esdtInstance *mj.CheckESDTInstance, targetOj *oj.OJsonMap) {
-	if len(esdtInstance.Nonce.Original) > 0 {
+	if !esdtInstance.Nonce.IsUnspecified() {
 		targetOj.Put("nonce", checkUint64ToOJ(esdtInstance.Nonce))
 	}
-	if len(esdtInstance.Balance.Original) > 0 {
+	if !esdtInstance.Balance.IsUnspecified() {
 		targetOj.Put("balance", checkBigIntToOJ(esdtInstance.Balance))
 	}
-	if !esdtInstance.Creator.Unspecified && len(esdtInstance.Creator.Value) > 0 {
+	if !esdtInstance.Creator.IsUnspecified() {
 		targetOj.Put("creator", checkBytesToOJ(esdtInstance.Creator))
 	}
-	if !esdtInstance.Royalties.Unspecified && len(esdtInstance.Royalties.Original) > 0 {
+	if !esdtInstance.Royalties.IsUnspecified() {
 		targetOj.Put("royalties", checkUint64ToOJ(esdtInstance.Royalties))
 	}
-	if !esdtInstance.Hash.Unspecified && len(esdtInstance.Hash.Value) > 0 {
+	if !esdtInstance.Hash.IsUnspecified() {
 		targetOj.Put("hash", checkBytesToOJ(esdtInstance.Hash))
 	}
-	if !esdtInstance.Uri.Unspecified && len(esdtInstance.Uri.Value) > 0 {
-		targetOj.Put("uri", checkBytesToOJ(esdtInstance.Creator))
+	if !esdtInstance.Uri.IsUnspecified() {
+		targetOj.Put("uri", checkBytesToOJ(esdtInstance.Uri))
 	}
-	if !esdtInstance.Attributes.Unspecified && len(esdtInstance.Attributes.Value) > 0 {
+	if !esdtInstance.Attributes.IsUnspecified() {
 		targetOj.Put("attributes", checkBytesToOJ(esdtInstance.Attributes))
 	}
 }
@@ -85,13 +86,23 @@ func isCompactCheckESDT(esdtItem *mj.CheckESDTData) bool {
 	if len(esdtItem.Instances) != 1 {
 		return false
 	}
-	if len(esdtItem.Instances[0].Nonce.Original) > 0 {
+	instance := esdtItem.Instances[0]
+	if instance.Balance.IsUnspecified() ||
+		!instance.Nonce.IsUnspecified() ||
+		!instance.Creator.IsUnspecified() ||
+		!instance.Royalties.IsUnspecified() ||
+		!instance.Hash.IsUnspecified() ||
+		!instance.Uri.IsUnspecified() ||
+		!instance.Attributes.IsUnspecified() {
+		return false
+	}
+	if !esdtItem.LastNonce.IsUnspecified() {
 		return false
 	}
 	if len(esdtItem.Roles) > 0 {
 		return false
 	}
-	if len(esdtItem.Frozen.Original) > 0 {
+	if !esdtItem.Frozen.IsUnspecified() {
 		return false
 	}
 	return true
-- 
2.43.0


From 9f90a63852dacc6a869cce1a0a53aa4c3fdbbd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 56/70] fix: transactions are written with all their fields

---
 mandos-go/json/write/writeCommon.go   |  5 +++++
 mandos-go/json/write/writeScenario.go | 17 ++++++++++++-----
 mandos-go/json/write/writeTest.go     | 11 +++++++++--
 3 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/mandos-go/json/write/writeCommon.go b/mandos-go/json/write/writeCommon.go
index dee9f17..509f1b5 100644
--- a/mandos-go/json/write/writeCommon.go
+++ b/mandos-go/json/write/writeCommon.go
@@ -131,6 +131,11 @@ func bytesFromStringToString(bytes mj.JSONBytesFromString) string {
 	return bytes.Original
 }
 
+// hasAddress is false for addresses left out, which cannot be written as empty texts
+func hasAddress(address mj.JSONBytesFromString) bool {
+	return len(bytesFromStringToString(address)) > 0
+}
+
 func bytesFromStringToOJ(bytes mj.JSONBytesFromString) oj.OJsonObject {
 	return &oj.OJsonString{Value: bytesFromStringToString(bytes)}
 }
diff --git a/mandos-go/json/write/writeScenario.go b/mandos-go/json/write/writeScenario.go
index da11b2d..f0b6e71 100644
--- a/mandos-go/json/write/writeScenario.go
+++ b/mandos-go/json/write/writeScenario.go
@@ -93,10 +93,13 @@ func ScenarioToOrderedJSON(scenario *mj.Scenario) oj.OJsonObject {
 
 func transactionToScenarioOJ(tx *mj.Transaction) oj.OJsonObject {
 	transactionOJ := oj.NewMap()
-	if tx.Type.HasSender() {
+	if len(tx.Nonce.Original) > 0 {
+		transactionOJ.Put("nonce", uint64ToOJ(tx.Nonce))
+	}
+	if tx.Type.HasSender() && hasAddress(tx.From) {
 		transactionOJ.Put("from", bytesFromStringToOJ(tx.From))
 	}
-	if tx.Type.HasReceiver() {
+	if tx.Type.HasReceiver() && hasAddress(tx.To) {
 		transactionOJ.Put("to", bytesFromStringToOJ(tx.To))
 	}
 	if tx.Type.HasValue() {
@@ -113,7 +116,7 @@ func transactionToScenarioOJ(tx *mj.Transaction) oj.OJsonObject {
 		transactionOJ.Put("contractCode", bytesFromStringToOJ(tx.Code))
 	}
 
-	if tx.Type.HasFunction() || tx.Type == mj.ScDeploy {
+	if tx.Type.HasFunction() || tx.Type == mj.ScDeploy || len(tx.Arguments) > 0 {
 		var argList []oj.OJsonObject
 		for _, arg := range tx.Arguments {
 			argList = append(argList, bytesFromTreeToOJ(arg))
@@ -134,9 +137,13 @@ func newAddressMocksToOJ(newAddressMocks []*mj.NewAddressMock) oj.OJsonObject {
 	var namList []oj.OJsonObject
 	for _, namEntry := range newAddressMocks {
 		namOJ := oj.NewMap()
-		namOJ.Put("creatorAddress", bytesFromStringToOJ(namEntry.CreatorAddress))
+		if hasAddress(namEntry.CreatorAddress) {
+			namOJ.Put("creatorAddress", bytesFromStringToOJ(namEntry.CreatorAddress))
+		}
 		namOJ.Put("creatorNonce", uint64ToOJ(namEntry.CreatorNonce))
-		namOJ.Put("newAddress", bytesFromStringToOJ(namEntry.NewAddress))
+		if hasAddress(namEntry.NewAddress) {
+			namOJ.Put("newAddress", bytesFromStringToOJ(namEntry.NewAddress))
+		}
 		namList = append(namList, namOJ)
 	}
 	namOJList := oj.OJsonList(namList)
diff --git a/mandos-go/json/write/writeTest.go b/mandos-go/json/write/writeTest.go
index 8d38ccc..f1f30c3 100644
--- a/mandos-go/json/write/writeTest.go
+++ b/mandos-go/json/write/writeTest.go
@@ -49,7 +49,12 @@ func transactionToTestOJ(tx *mj.Transaction) oj.OJsonObject {
 	transactionOJ.Put("function", stringToOJ(tx.Function))
 	transactionOJ.Put("gasLimit", uint64ToOJ(tx.GasLimit))
 	transactionOJ.Put("value", bigIntToOJ(tx.Value))
-	transactionOJ.Put("to", bytesFromStringToOJ(tx.To))
+	if tx.Type == mj.ScDeploy || hasAddress(tx.To) {
+		transactionOJ.Put("to", bytesFromStringToOJ(tx.To))
+	}
+	if tx.ESDTValue != nil {
+		transactionOJ.Put("esdt", esdtTxDataToOJ(tx.ESDTValue))
+	}
 
 	var argList []oj.OJsonObject
 	for _, arg := range tx.Arguments {
@@ -62,7 +67,9 @@ func transactionToTestOJ(tx *mj.Transaction) oj.OJsonObject {
 		transactionOJ.Put("contractCode", bytesFromStringToOJ(tx.Code))
 	}
 	transactionOJ.Put("gasPrice", uint64ToOJ(tx.GasPrice))
-	transactionOJ.Put("from", bytesFromStringToOJ(tx.From))
+	if hasAddress(tx.From) {
+		transactionOJ.Put("from", bytesFromStringToOJ(tx.From))
+	}
 
 	return transactionOJ
 }
-- 
2.43.0


From 8bc074fd189feda17a919dbb3819f8a21345ddee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 57/70] fix: test blocks without a header can be written

---
 mandos-go/json/write/writeTest.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/mandos-go/json/write/writeTest.go b/mandos-go/json/write/writeTest.go
index f1f30c3..12caaa8 100644
--- a/mandos-go/json/write/writeTest.go
+++ b/mandos-go/json/write/writeTest.go
@@ -91,13 +91,15 @@ func blockToOJ(block *mj.Block) oj.OJsonObject {
 	txsOJ := oj.OJsonList(txList)
 	blockOJ.Put("transactions", &txsOJ)
 
-	blockHeaderOJ := oj.NewMap()
-	blockHeaderOJ.Put("gasLimit", bigIntToOJ(block.BlockHeader.GasLimit))
-	blockHeaderOJ.Put("number", bigIntToOJ(block.BlockHeader.Number))
-	blockHeaderOJ.Put("difficulty", bigIntToOJ(block.BlockHeader.Difficulty))
-	blockHeaderOJ.Put("timestamp", uint64ToOJ(block.BlockHeader.Timestamp))
-	blockHeaderOJ.Put("coinbase", bigIntToOJ(block.BlockHeader.Beneficiary))
-	blockOJ.Put("blockHeader", blockHeaderOJ)
+	if block.BlockHeader != nil {
+		blockHeaderOJ := oj.NewMap()
+		blockHeaderOJ.Put("gasLimit", bigIntToOJ(block.BlockHeader.GasLimit))
+		blockHeaderOJ.Put("number", bigIntToOJ(block.BlockHeader.Number))
+		blockHeaderOJ.Put("difficulty", bigIntToOJ(block.BlockHeader.Difficulty))
+		blockHeaderOJ.Put("timestamp", uint64ToOJ(block.BlockHeader.Timestamp))
+		blockHeaderOJ.Put("coinbase", bigIntToOJ(block.BlockHeader.Beneficiary))
+		blockOJ.Put("blockHeader", blockHeaderOJ)
+	}
 
 	return blockOJ
 }
-- 
2.43.0


From c832ac221edd6ce9aab18972759c8ce6bb129966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:18 +0000
Subject: [PATCH 58/70] fix: accept ESDT instances without a balance in
 setState

---
 arwenmandos/util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arwenmandos/util.go b/arwenmandos/util.go
index f024805..67165f1 100644
--- a/arwenmandos/util.go
+++ b/arwenmandos/util.go
@@ -52,6 +52,9 @@ func convertAccount(testAcct *mj.Account, world *worldmock.MockWorld) (*worldmoc
 			tokenNonce := instance.Nonce.Value
 			tokenKey := worldmock.MakeTokenKey(tokenName, tokenNonce)
 			tokenBalance := instance.Balance.Value
+			if tokenBalance == nil {
+				tokenBalance = big.NewInt(0)
+			}
 			tokenData := &esdt.ESDigitalToken{
 				Value:      tokenBalance,
 				Type:       uint32(vmcommon.Fungible),
-- 
2.43.0


From ef8b7589263839f23877ee5f36f8a1dcb7275de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 59/70] fix: set the last nonce of tokens without instances in
 setState

---
 arwenmandos/util.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/arwenmandos/util.go b/arwenmandos/util.go
index 67165f1..e50c8f7 100644
--- a/arwenmandos/util.go
+++ b/arwenmandos/util.go
@@ -73,12 +73,12 @@ func convertAccount(testAcct *mj.Account, world *worldmock.MockWorld) (*worldmoc
 			if err != nil {
 				return nil, err
 			}
-			err = account.SetLastNonce(tokenName, mandosESDTData.LastNonce.Value)
-			if err != nil {
-				return nil, err
-			}
 		}
-		err := account.SetTokenRolesAsStrings(tokenName, mandosESDTData.Roles)
+		err := account.SetLastNonce(tokenName, mandosESDTData.LastNonce.Value)
+		if err != nil {
+			return nil, err
+		}
+		err = account.SetTokenRolesAsStrings(tokenName, mandosESDTData.Roles)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From b260f600451aca2dfe6bdf60c3e0f8d503cf04bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 60/70] fix: check the owner of accounts in checkState

---
 arwenmandos/stepCheckAccounts.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/arwenmandos/stepCheckAccounts.go b/arwenmandos/stepCheckAccounts.go
index b637ecd..431b6d7 100644
--- a/arwenmandos/stepCheckAccounts.go
+++ b/arwenmandos/stepCheckAccounts.go
@@ -82,6 +82,17 @@ func (ae *ArwenTestExecutor) checkAccounts(checkAccounts *mj.CheckAccounts) erro
 					er.CodeHint))
 		}
 
+		// currently ignoring owner that is unspecified in the json
+		if !expectedAcct.Owner.IsUnspecified() &&
+			!expectedAcct.Owner.Check(matchingAcct.OwnerAddress) {
+			return fmt.Errorf("bad account owner. Account: %s. Want: %s. Have: \"%s\"",
+				expectedAcct.Address.Original,
+				oj.JSONString(expectedAcct.Owner.Original),
+				ae.exprReconstructor.Reconstruct(
+					matchingAcct.OwnerAddress,
+					er.AddressHint))
+		}
+
 		// currently ignoring asyncCallData that is unspecified in the json
 		if !expectedAcct.AsyncCallData.IsUnspecified() &&
 			!expectedAcct.AsyncCallData.Check([]byte(matchingAcct.AsyncCallData)) {
-- 
2.43.0


From ed24ffac71ebfa9c45eabb07a91118ec56f0f05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 61/70] fix: allow more ESDT tokens in checkState when asked to

---
 arwenmandos/stepCheckAccounts.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arwenmandos/stepCheckAccounts.go b/arwenmandos/stepCheckAccounts.go
index 431b6d7..1b973fd 100644
--- a/arwenmandos/stepCheckAccounts.go
+++ b/arwenmandos/stepCheckAccounts.go
@@ -192,6 +192,9 @@ func (ae *ArwenTestExecutor) checkAccountESDT(expectedAcct *mj.CheckAccount, mat
 		expectedToken := expectedTokens[tokenName]
 		accountToken := accountTokens[tokenName]
 		if expectedToken == nil {
+			if expectedAcct.MoreESDTTokensAllowed {
+				continue
+			}
 			expectedToken = &mj.CheckESDTData{
 				TokenIdentifier: mj.JSONBytesFromString{
 					Value:    []byte(tokenName),
-- 
2.43.0


From a161a43136ead8d99952605cc0c731edcdbaaa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 62/70] fix: report unexpected ESDT instances with metadata
 instead of panicking

---
 arwenmandos/stepCheckAccounts.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/arwenmandos/stepCheckAccounts.go b/arwenmandos/stepCheckAccounts.go
index 1b973fd..d96c88a 100644
--- a/arwenmandos/stepCheckAccounts.go
+++ b/arwenmandos/stepCheckAccounts.go
@@ -284,10 +284,8 @@ func (ae *ArwenTestExecutor) checkTokenInstances(
 		accountInstance := accountInstances[nonce]
 
 		if expectedInstance == nil {
-			expectedInstance = &mj.CheckESDTInstance{
-				Nonce:   mj.JSONCheckUint64{Value: nonce, Original: ""},
-				Balance: mj.JSONCheckBigInt{Value: big.NewInt(0), Original: ""},
-			}
+			expectedInstance = mj.NewCheckESDTInstance()
+			expectedInstance.Nonce = mj.JSONCheckUint64{Value: nonce, Original: ""}
 		} else if accountInstance == nil {
 			accountInstance = &esdt.ESDigitalToken{
 				Value: big.NewInt(0),
-- 
2.43.0


From 9b1bf5a807cedaaf81f51efada234cabfc2bafa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 63/70] fix: keep checkGas of the scenario after external steps

---
 arwenmandos/execScenario.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/arwenmandos/execScenario.go b/arwenmandos/execScenario.go
index ef118d9..560316b 100644
--- a/arwenmandos/execScenario.go
+++ b/arwenmandos/execScenario.go
@@ -63,18 +63,17 @@ func (ae *ArwenTestExecutor) ExecuteExternalStep(step *mj.ExternalStepsStep) err
 	}
 
 	fileResolverBackup := ae.fileResolver
+	checkGasBackup := ae.checkGas
 	clonedFileResolver := ae.fileResolver.Clone()
 	externalStepsRunner := mc.NewScenarioRunner(ae, clonedFileResolver)
 
 	extAbsPth := ae.fileResolver.ResolveAbsolutePath(step.Path)
 	err := externalStepsRunner.RunSingleJSONScenario(extAbsPth)
-	if err != nil {
-		return err
-	}
 
 	ae.fileResolver = fileResolverBackup
+	ae.checkGas = checkGasBackup
 
-	return nil
+	return err
 }
 
 // ExecuteSetStateStep executes a SetStateStep.
-- 
2.43.0


From 295bf8d7179627dce7e85ed752b8e4ff26252ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 64/70] fix: check whether ESDT tokens are frozen in checkState

---
 arwenmandos/stepCheckAccounts.go | 35 ++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/arwenmandos/stepCheckAccounts.go b/arwenmandos/stepCheckAccounts.go
index d96c88a..ce8c6a2 100644
--- a/arwenmandos/stepCheckAccounts.go
+++ b/arwenmandos/stepCheckAccounts.go
@@ -11,6 +11,7 @@ import (
 	oj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/orderedjson"
 	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
 	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
+	"github.com/ElrondNetwork/elrond-vm-common/builtInFunctions"
 	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
 )
 
@@ -279,6 +280,10 @@ func (ae *ArwenTestExecutor) checkTokenInstances(
 		accountInstances[nonce] = accountInstance
 	}
 
+	if !expectedToken.Frozen.IsUnspecified() {
+		errors = append(errors, checkTokenFrozen(tokenName, expectedToken, accountToken)...)
+	}
+
 	for nonce := range allNonces {
 		expectedInstance := expectedInstances[nonce]
 		accountInstance := accountInstances[nonce]
@@ -374,6 +379,36 @@ func (ae *ArwenTestExecutor) checkTokenInstances(
 	return errors
 }
 
+func checkTokenFrozen(
+	tokenName string,
+	expectedToken *mj.CheckESDTData,
+	accountToken *worldmock.MockESDTData) []error {
+
+	expected := expectedToken.Frozen
+	if expected.IsStar {
+		return nil
+	}
+
+	// tokens that are not held are not frozen
+	if len(accountToken.Instances) == 0 && expected.Value > 0 {
+		return []error{fmt.Errorf("for token: %s: Bad frozen. Want: \"%s\". Have: \"false\"", tokenName, expected.Original)}
+	}
+
+	var errors []error
+	for _, instance := range accountToken.Instances {
+		isFrozen := builtInFunctions.ESDTUserMetadataFromBytes(instance.Properties).Frozen
+		if isFrozen != (expected.Value > 0) {
+			errors = append(errors, fmt.Errorf("for token: %s, nonce: %d: Bad frozen. Want: \"%s\". Have: \"%t\"",
+				tokenName,
+				instance.TokenMetaData.Nonce,
+				expected.Original,
+				isFrozen))
+		}
+	}
+
+	return errors
+}
+
 func checkTokenRoles(
 	accountAddress string,
 	tokenName string,
-- 
2.43.0


From 41cda4fafa7190d2058cb7209959cabb58b2a6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:34 +0000
Subject: [PATCH 65/70] fix: reject gas schedule files with invalid entries
 instead of panicking

---
 arwenmandos/gasSchedules/gasScheduleLoad.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/arwenmandos/gasSchedules/gasScheduleLoad.go b/arwenmandos/gasSchedules/gasScheduleLoad.go
index 48e7113..073a2fb 100644
--- a/arwenmandos/gasSchedules/gasScheduleLoad.go
+++ b/arwenmandos/gasSchedules/gasScheduleLoad.go
@@ -20,9 +20,16 @@ func LoadGasScheduleConfig(fileContents string) (config.GasScheduleMap, error) {
 	flattenedGasSchedule := make(config.GasScheduleMap)
 	for libType, costs := range gasScheduleConfig {
 		flattenedGasSchedule[libType] = make(map[string]uint64)
-		costsMap := costs.(map[string]interface{})
+		costsMap, isTable := costs.(map[string]interface{})
+		if !isTable {
+			return nil, fmt.Errorf("gas schedule entry %s is not a table", libType)
+		}
 		for operationName, cost := range costsMap {
-			flattenedGasSchedule[libType][operationName] = uint64(cost.(int64))
+			costValue, isInteger := cost.(int64)
+			if !isInteger || costValue < 0 {
+				return nil, fmt.Errorf("gas cost %s.%s is not a non-negative integer", libType, operationName)
+			}
+			flattenedGasSchedule[libType][operationName] = uint64(costValue)
 		}
 	}
 
-- 
2.43.0


From 33f94b3286dd7013fb47480b909737b1494c2306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 66/70] fix: reject opcode gas costs which do not fit into 32
 bits

---
 config/gasSchedule.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/config/gasSchedule.go b/config/gasSchedule.go
index 85a434b..68ad5df 100644
--- a/config/gasSchedule.go
+++ b/config/gasSchedule.go
@@ -2,6 +2,7 @@ package config
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 
 	"github.com/mitchellh/mapstructure"
@@ -70,6 +71,11 @@ func CreateGasConfig(gasMap GasScheduleMap) (*GasCost, error) {
 		return nil, err
 	}
 
+	err = checkForUint32Overflow(gasMap["WASMOpcodeCost"])
+	if err != nil {
+		return nil, err
+	}
+
 	opcodeCosts := &WASMOpcodeCost{}
 	err = mapstructure.Decode(gasMap["WASMOpcodeCost"], opcodeCosts)
 	if err != nil {
@@ -109,6 +115,17 @@ func checkForZeroUint64Fields(arg interface{}) error {
 	return nil
 }
 
+// checkForUint32Overflow rejects costs which would be truncated when decoded into uint32 fields
+func checkForUint32Overflow(costs map[string]uint64) error {
+	for name, cost := range costs {
+		if cost > math.MaxUint32 {
+			return fmt.Errorf("Gas cost for operation %s exceeds 32 bits.", name)
+		}
+	}
+
+	return nil
+}
+
 func MakeGasMap(value, asyncCallbackGasLock uint64) GasScheduleMap {
 	gasMap := make(GasScheduleMap)
 	gasMap = FillGasMap(gasMap, value, asyncCallbackGasLock)
-- 
2.43.0


From dfe36650b22c8ec7f03e263695b82ed8f2f6ba08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:18 +0000
Subject: [PATCH 67/70] fix: keep the addresses and storage keys of debug
 worlds as they are when storing them

---
 arwendebug/world.go          | 12 -----
 arwendebug/worldDataModel.go | 86 ++++++++++++++++++++++++++++++++++++
 2 files changed, 86 insertions(+), 12 deletions(-)
 create mode 100644 arwendebug/worldDataModel.go

diff --git a/arwendebug/world.go b/arwendebug/world.go
index bdb314d..0ffc617 100644
--- a/arwendebug/world.go
+++ b/arwendebug/world.go
@@ -11,24 +11,12 @@ import (
 	"github.com/ElrondNetwork/elrond-vm-common/builtInFunctions"
 )
 
-type worldDataModel struct {
-	ID       string
-	Accounts worldmock.AccountMap
-}
-
 type world struct {
 	id             string
 	blockchainHook *worldmock.MockWorld
 	vm             vmcommon.VMExecutionHandler
 }
 
-func newWorldDataModel(worldID string) *worldDataModel {
-	return &worldDataModel{
-		ID:       worldID,
-		Accounts: worldmock.NewAccountMap(),
-	}
-}
-
 // newWorld creates a new debugging world
 func newWorld(dataModel *worldDataModel) (*world, error) {
 	blockchainHook := worldmock.NewMockWorld()
diff --git a/arwendebug/worldDataModel.go b/arwendebug/worldDataModel.go
new file mode 100644
index 0000000..290e9c4
--- /dev/null
+++ b/arwendebug/worldDataModel.go
@@ -0,0 +1,86 @@
+package arwendebug
+
+import (
+	"encoding/json"
+
+	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
+)
+
+type worldDataModel struct {
+	ID       string
+	Accounts worldmock.AccountMap
+}
+
+// serializedWorld is the stored form of a world. Addresses and storage keys are
+// hex-encoded, since arbitrary bytes cannot be represented by JSON keys.
+type serializedWorld struct {
+	ID       string
+	Accounts map[string]*serializedAccount
+}
+
+type serializedAccount struct {
+	*worldmock.Account
+	Storage map[string][]byte
+}
+
+func newWorldDataModel(worldID string) *worldDataModel {
+	return &worldDataModel{
+		ID:       worldID,
+		Accounts: worldmock.NewAccountMap(),
+	}
+}
+
+// MarshalJSON converts the data model to its stored form
+func (dataModel *worldDataModel) MarshalJSON() ([]byte, error) {
+	serialized := &serializedWorld{
+		ID:       dataModel.ID,
+		Accounts: make(map[string]*serializedAccount, len(dataModel.Accounts)),
+	}
+
+	for address, account := range dataModel.Accounts {
+		storage := make(map[string][]byte, len(account.Storage))
+		for key, value := range account.Storage {
+			storage[toHex([]byte(key))] = value
+		}
+
+		serialized.Accounts[toHex([]byte(address))] = &serializedAccount{
+			Account: account,
+			Storage: storage,
+		}
+	}
+
+	return json.Marshal(serialized)
+}
+
+// UnmarshalJSON restores the data model from its stored form
+func (dataModel *worldDataModel) UnmarshalJSON(data []byte) error {
+	serialized := &serializedWorld{}
+	err := json.Unmarshal(data, serialized)
+	if err != nil {
+		return err
+	}
+
+	dataModel.ID = serialized.ID
+	dataModel.Accounts = worldmock.NewAccountMap()
+	for addressHex, serializedAccount := range serialized.Accounts {
+		address, err := fromHex(addressHex)
+		if err != nil {
+			return err
+		}
+
+		account := serializedAccount.Account
+		account.Storage = make(map[string][]byte, len(serializedAccount.Storage))
+		for keyHex, value := range serializedAccount.Storage {
+			key, err := fromHex(keyHex)
+			if err != nil {
+				return err
+			}
+
+			account.Storage[string(key)] = value
+		}
+
+		dataModel.Accounts[string(address)] = account
+	}
+
+	return nil
+}
-- 
2.43.0


From 9da73d4d53bb5cf8b794c060b4ca4bb3947a195c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:18 +0000
Subject: [PATCH 68/70] fix: reject names of debug worlds and outcomes which
 lead to other files

---
 arwendebug/constants.go    | 3 +++
 arwendebug/messagesBase.go | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/arwendebug/constants.go b/arwendebug/constants.go
index 5d35515..021d4e0 100644
--- a/arwendebug/constants.go
+++ b/arwendebug/constants.go
@@ -2,3 +2,6 @@ package arwendebug
 
 // DefaultGasPrice is the default gas price for debugging
 const DefaultGasPrice = 200000000000
+
+// invalidNameCharacters are the characters which names of worlds and of outcomes cannot contain
+const invalidNameCharacters = "/\\\x00"
diff --git a/arwendebug/messagesBase.go b/arwendebug/messagesBase.go
index 1fe1cb3..da632c0 100644
--- a/arwendebug/messagesBase.go
+++ b/arwendebug/messagesBase.go
@@ -2,6 +2,7 @@ package arwendebug
 
 import (
 	"math/big"
+	"strings"
 
 	"github.com/ElrondNetwork/elrond-vm-common"
 )
@@ -22,6 +23,14 @@ func (request *RequestBase) digest() error {
 		request.World = "default"
 	}
 
+	// Worlds and outcomes are stored in files named after them
+	if strings.ContainsAny(request.World, invalidNameCharacters) {
+		return NewRequestError("invalid world")
+	}
+	if strings.ContainsAny(request.Outcome, invalidNameCharacters) {
+		return NewRequestError("invalid outcome")
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 4f4d36158e1088c060548b9d9b975b093a73d020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:19 +0000
Subject: [PATCH 69/70] fix: handle the requests of the debugger one at a time

---
 arwendebug/facade.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/arwendebug/facade.go b/arwendebug/facade.go
index 2892796..6d754ff 100644
--- a/arwendebug/facade.go
+++ b/arwendebug/facade.go
@@ -3,6 +3,7 @@ package arwendebug
 import (
 	"encoding/json"
 	"fmt"
+	"sync"
 
 	logger "github.com/ElrondNetwork/elrond-go-logger"
 )
@@ -11,6 +12,8 @@ var log = logger.GetOrCreate("arwendebug")
 
 // DebugFacade is the debug facade
 type DebugFacade struct {
+	// Each request loads, alters and stores a world, therefore requests are handled one at a time
+	mutRequests sync.Mutex
 }
 
 // NewDebugFacade creates a new debug facade
@@ -27,6 +30,9 @@ func (f *DebugFacade) DeploySmartContract(request DeployRequest) (*DeployRespons
 		return nil, err
 	}
 
+	f.mutRequests.Lock()
+	defer f.mutRequests.Unlock()
+
 	database := f.loadDatabase(request.DatabasePath)
 	world, err := database.loadWorld(request.World)
 	if err != nil {
@@ -63,6 +69,9 @@ func (f *DebugFacade) UpgradeSmartContract(request UpgradeRequest) (*UpgradeResp
 		return nil, err
 	}
 
+	f.mutRequests.Lock()
+	defer f.mutRequests.Unlock()
+
 	database := f.loadDatabase(request.DatabasePath)
 	world, err := database.loadWorld(request.World)
 	if err != nil {
@@ -94,6 +103,9 @@ func (f *DebugFacade) RunSmartContract(request RunRequest) (*RunResponse, error)
 		return nil, err
 	}
 
+	f.mutRequests.Lock()
+	defer f.mutRequests.Unlock()
+
 	database := f.loadDatabase(request.DatabasePath)
 	world, err := database.loadWorld(request.World)
 	if err != nil {
@@ -125,6 +137,9 @@ func (f *DebugFacade) QuerySmartContract(request QueryRequest) (*QueryResponse,
 		return nil, err
 	}
 
+	f.mutRequests.Lock()
+	defer f.mutRequests.Unlock()
+
 	database := f.loadDatabase(request.DatabasePath)
 	world, err := database.loadWorld(request.World)
 	if err != nil {
@@ -151,6 +166,9 @@ func (f *DebugFacade) CreateAccount(request CreateAccountRequest) (*CreateAccoun
 		return nil, err
 	}
 
+	f.mutRequests.Lock()
+	defer f.mutRequests.Unlock()
+
 	database := f.loadDatabase(request.DatabasePath)
 	world, err := database.loadWorld(request.World)
 	if err != nil {
-- 
2.43.0


From fdb2a999e916bbaa10f1eab31e2f117f92348214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:40 +0000
Subject: [PATCH 70/70] fix: a failed nested call leaves no code update behind

---
 arwen/contexts/output.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/arwen/contexts/output.go b/arwen/contexts/output.go
index 8890365..9d00586 100644
--- a/arwen/contexts/output.go
+++ b/arwen/contexts/output.go
@@ -19,6 +19,8 @@ type outputContext struct {
 	outputState *vmcommon.VMOutput
 	stateStack  []*vmcommon.VMOutput
 	codeUpdates map[string]struct{}
+
+	codeUpdatesStack []map[string]struct{}
 }
 
 // NewOutputContext creates a new outputContext
@@ -26,6 +28,8 @@ func NewOutputContext(host arwen.VMHost) (*outputContext, error) {
 	context := &outputContext{
 		host:       host,
 		stateStack: make([]*vmcommon.VMOutput, 0),
+
+		codeUpdatesStack: make([]map[string]struct{}, 0),
 	}
 
 	context.InitState()
@@ -69,6 +73,12 @@ func (context *outputContext) PushState() {
 	newState := newVMOutput()
 	mergeVMOutputs(newState, context.outputState)
 	context.stateStack = append(context.stateStack, newState)
+
+	codeUpdates := make(map[string]struct{}, len(context.codeUpdates))
+	for address := range context.codeUpdates {
+		codeUpdates[address] = struct{}{}
+	}
+	context.codeUpdatesStack = append(context.codeUpdatesStack, codeUpdates)
 }
 
 // PopSetActiveState removes the latest entry from the state stack and sets it as the current vm output
@@ -81,6 +91,10 @@ func (context *outputContext) PopSetActiveState() {
 	prevState := context.stateStack[stateStackLen-1]
 	context.stateStack = context.stateStack[:stateStackLen-1]
 	context.outputState = prevState
+
+	// code deployed or upgraded since then is no longer an update
+	context.codeUpdates = context.codeUpdatesStack[stateStackLen-1]
+	context.codeUpdatesStack = context.codeUpdatesStack[:stateStackLen-1]
 }
 
 // PopMergeActiveState merges the current state into the head of the stateStack,
@@ -96,6 +110,7 @@ func (context *outputContext) PopMergeActiveState() {
 
 	prevState := context.stateStack[stateStackLen-1]
 	context.stateStack = context.stateStack[:stateStackLen-1]
+	context.codeUpdatesStack = context.codeUpdatesStack[:stateStackLen-1]
 
 	// CensorVMOutput() hid the gas refunded before the nested execution.
 	gasRefund := big.NewInt(0).Add(prevState.GasRefund, context.outputState.GasRefund)
@@ -115,11 +130,13 @@ func (context *outputContext) PopDiscard() {
 	}
 
 	context.stateStack = context.stateStack[:stateStackLen-1]
+	context.codeUpdatesStack = context.codeUpdatesStack[:stateStackLen-1]
 }
 
 // ClearStateStack reinitializes the state stack.
 func (context *outputContext) ClearStateStack() {
 	context.stateStack = make([]*vmcommon.VMOutput, 0)
+	context.codeUpdatesStack = make([]map[string]struct{}, 0)
 }
 
 // CensorVMOutput will cause the next executed SC to appear isolated, as if
-- 
2.43.0

