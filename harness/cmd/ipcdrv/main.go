// ipcdrv drives the two ends of the protocol between node and VM and records what they do.
package main

import (
	"crypto/sha256"
	"encoding/hex"
	"os"

	logger "github.com/ElrondNetwork/elrond-go-logger"
	"verif/harness/trace"
)

// short keeps texts comparable and small.
func short(s string) string {
	if len(s) > 200 {
		h := sha256.Sum256([]byte(s))
		return hex.EncodeToString(h[:])
	}
	return s
}

func main() {
	_ = logger.SetLogLevel("*:NONE")
	if os.Getenv(childEnv) != "" {
		os.Exit(runChild())
	}
	a := trace.ParseArgs()
	switch a["mode"] {
	case "chan":
		runChan(a)
	case "remote":
		runRemote(a)
	case "node":
		runNode(a)
	case "vm":
		runVM(a)
	case "driver":
		runDriver(a)
	default:
		panic("mode")
	}
}
