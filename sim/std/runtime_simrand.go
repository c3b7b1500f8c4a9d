package runtime

import _ "unsafe"

// Simulated randomness: while simRandOn, rand() - which feeds map hash seeds,
// map iteration starts and math/rand's default source - is a seeded generator
// for the one goroutine that currently holds the simulator's token.
var (
	simRandOn    bool   = true
	simRandGoid  uint64 = 1
	simRandState uint64 = 0x5eed
)

//go:nosplit
func simNextRand() uint64 {
	simRandState += 0x9e3779b97f4a7c15
	z := simRandState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:linkname sync_runtime_simGoid sync.runtime_simGoid
//go:nosplit
func sync_runtime_simGoid() uint64 { return getg().goid }

//go:linkname sync_runtime_simSetRand sync.runtime_simSetRand
func sync_runtime_simSetRand(on bool, goid uint64, state uint64) {
	simRandOn, simRandGoid, simRandState = on, goid, state
}

//go:linkname sync_runtime_simGetRand sync.runtime_simGetRand
func sync_runtime_simGetRand() uint64 { return simRandState }
