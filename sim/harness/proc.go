package main

import (
	"os"
	"runtime/debug"
	"sync"

	"asn1sim/simrt"
)

func procs() string {
	if simrt.RaceEnabled {
		return "1"
	}
	return "2"
}

func raceOptions() []string {
	if !simrt.RaceEnabled {
		return nil
	}
	log := "/dev/null"
	if v := os.Getenv("ASN1SIM_RACELOG"); v != "" {
		log = v
	}
	_ = log
	return []string{"GORACE=suppress_equal_stacks=0 suppress_equal_addresses=0 halt_on_error=0 exitcode=0 history_size=2"}
}

func setupProcess() {
	debug.SetMaxStack(512 << 20)
	debug.SetMemoryLimit(1 << 30) // collect in the middle of a run rather than run out of memory
	if simrt.RaceEnabled {
		sync.SimNoPool = true
		debug.SetMemoryLimit(400 << 20)
	}
}

func raceEnabled() bool { return simrt.RaceEnabled }
