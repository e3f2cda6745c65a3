package sim

import (
	"crypto/sha256"
	"encoding/hex"
	"strconv"
	"strings"
)

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }
func unhex(s string) []byte { b, _ := hex.DecodeString(s); return b }

// CodeHash is the hash of code.
func CodeHash(c []byte) []byte { h := sha256.Sum256(c); return h[:] }


// Sig describes the parameters of the interface functions:
//  a address  v value  k key+length  d data+length  f function name+length  t token+length
//  h handle  i index  j small number  L 64-bit value  g gas  n nonce  o result pointer
//  x arguments (number, lengths, data)  C code pointer  m metadata pointer  l length of the code
//  T topics pointer (32 bytes each)  N number of topics
//  B/b BLS key/signature  E/e Ed25519 key/signature  s secp256k1 signature
var Sig = map[string]string{
	"getSCAddress": "o", "getOwnerAddress": "o", "getShardOfAddress": "a", "isSmartContract": "a", "getExternalBalance": "ao",
	"getBlockHash": "no", "transferValue": "avd", "transferESDT": "atvgd", "transferESDTExecute": "atvgfx",
	"transferESDTNFTExecute": "atvngfx", "transferValueExecute": "avgfx", "getArgumentLength": "i", "getArgument": "io",
	"getFunction": "o", "getNumArguments": "", "storageStore": "kd", "storageLoadLength": "k", "storageLoad": "ko",
	"storageLoadFromAddress": "ako", "getCaller": "o", "checkNoPayment": "", "getCallValue": "o", "getESDTValue": "o",
	"getESDTTokenName": "o", "getESDTTokenNonce": "", "getESDTTokenType": "", "getCurrentESDTNFTNonce": "at",
	"getCallValueTokenName": "oo", "writeLog": "dTN", "writeEventLog": "xd", "finish": "d", "signalError": "d",
	"getGasLeft": "", "getESDTBalance": "atno", "getESDTNFTNameLength": "atn", "getESDTNFTAttributeLength": "atn",
	"getESDTNFTURILength": "atn", "getESDTTokenData": "atnhoooooho", "executeOnDestContext": "gavfx",
	"executeOnDestContextByCaller": "gavfx", "executeOnSameContext": "gavfx", "delegateExecution": "gafx", "executeReadOnly": "gafx",
	"createContract": "gvCmlox", "deployFromSourceContract": "gvamox", "upgradeContract": "agvCmlx",
	"upgradeFromSourceContract": "agvamx", "asyncCall": "avd", "getNumReturnData": "", "getReturnDataSize": "i", "getReturnData": "io",
	"setStorageLock": "kL", "getStorageLock": "k", "isStorageLocked": "k", "clearStorageLock": "k",
	"getBlockTimestamp": "", "getBlockNonce": "", "getBlockRound": "", "getBlockEpoch": "", "getBlockRandomSeed": "o",
	"getStateRootHash": "o", "getPrevBlockTimestamp": "", "getPrevBlockNonce": "", "getPrevBlockRound": "", "getPrevBlockEpoch": "",
	"getPrevBlockRandomSeed": "o", "getOriginalTxHash": "o", 
	"bigIntNew": "L", "bigIntUnsignedByteLength": "h", "bigIntSignedByteLength": "h", "bigIntGetUnsignedBytes": "ho",
	"bigIntGetSignedBytes": "ho", "bigIntSetUnsignedBytes": "hd", "bigIntSetSignedBytes": "hd", "bigIntIsInt64": "h",
	"bigIntGetInt64": "h", "bigIntSetInt64": "hL", "bigIntAdd": "hhh", "bigIntSub": "hhh", "bigIntMul": "hhh", "bigIntTDiv": "hhh",
	"bigIntTMod": "hhh", "bigIntEDiv": "hhh", "bigIntEMod": "hhh", "bigIntAbs": "hh", "bigIntNeg": "hh", "bigIntSign": "h",
	"bigIntCmp": "hh", "bigIntNot": "hh", "bigIntAnd": "hhh", "bigIntOr": "hhh", "bigIntXor": "hhh", "bigIntShr": "hhj",
	"bigIntShl": "hhj", "bigIntFinishUnsigned": "h", "bigIntFinishSigned": "h", "bigIntStorageStoreUnsigned": "kh",
	"bigIntStorageLoadUnsigned": "kh", "bigIntGetUnsignedArgument": "ih", "bigIntGetSignedArgument": "ih", "bigIntGetCallValue": "h",
	"bigIntGetESDTCallValue": "h", "bigIntGetESDTExternalBalance": "atnh", "bigIntGetExternalBalance": "ah",
	"smallIntGetUnsignedArgument": "i", "smallIntGetSignedArgument": "i", "smallIntFinishUnsigned": "L", "smallIntFinishSigned": "L",
	"smallIntStorageStoreUnsigned": "kL", "smallIntStorageStoreSigned": "kL", "smallIntStorageLoadUnsigned": "k",
	"smallIntStorageLoadSigned": "k", "int64getArgument": "i", "int64storageStore": "kL", "int64storageLoad": "k", "int64finish": "L",
	"sha256": "do", "keccak256": "do", "ripemd160": "do", "verifyBLS": "Bdb", "verifyEd25519": "Ede", "verifySecp256k1": "dds",
}

// Nests tells which functions may enter another contract before they return.
func Nests(n string) bool {
	switch n {
	case "executeOnDestContext", "executeOnDestContextByCaller", "executeOnSameContext", "delegateExecution", "executeReadOnly",
		"createContract", "deployFromSourceContract", "transferESDTExecute", "transferESDTNFTExecute", "transferValueExecute":
		return true
	}
	return false
}

// Fixed lengths of pointers without a length parameter.
var Fixed = map[byte]int{'a': 32, 'v': 32, 'm': 2, 'B': 96, 'b': 48, 'E': 32, 'e': 64}

// CodeInfo is what the stand-in reads from code.
type CodeInfo struct {
	OK      bool
	Err     string
	Mem     bool
	Pages   int
	Max     int
	Exports []Export
	Imports []string
}

// Export is an exported function.
type Export struct {
	Name string
	Void bool
}

// Parse reads code the way the stand-in for libwasmer does.
func Parse(code []byte) CodeInfo {
	var c CodeInfo
	s := string(code)
	if last := strings.LastIndexByte(strings.TrimSuffix(s, "\n"), '\n') + 1; !strings.HasPrefix(s, "WSTB") || !strings.HasSuffix(s, "\n") || s[last] != '#' {
		c.Err = "stub: not a module"
		return c
	}
	c.OK = true
	for k, l := range strings.Split(s, "\n") {
		if k == 0 || l == "" {
			continue
		}
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		switch {
		case f[0] == "X":
			c.OK = false
			c.Err = "stub: compile error"
		case f[0] == "M" && len(f) == 3:
			c.Mem = true
			c.Pages, c.Max = atoi(f[1]), atoi(f[2])
		case f[0] == "E" && len(f) == 4:
			n := ""
			if f[1] != "-" {
				n = string(unhex(f[1]))
			}
			c.Exports = append(c.Exports, Export{n, f[2] == "0" && f[3] == "0"})
		case f[0] == "I" && len(f) == 2:
			c.Imports = append(c.Imports, f[1])
			if Binds[f[1]] == nil {
				c.OK = false
				c.Err = "stub: unknown import"
			}
		}
	}
	return c
}
