package main

import "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"

func gasMap() config.GasScheduleMap { return config.MakeGasMapForTests() }
