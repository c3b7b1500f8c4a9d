// Deterministic scheduler, compiled into package sync of the simulation build
// (go build -overlay). The shipped toolchain and /repo are never modified.
//
// It lives in package sync for two reasons: every sync.Mutex/RWMutex/Once/Map
// operation of the code under test goes through it without any rewriting, and
// the race detector neither instruments package sync nor sees the hand-over of
// control between tasks, so happens-before edges come only from the program's
// own synchronisation.
package sync

import (
	"internal/race"
	"sync/atomic"
	"unsafe"
)

// provided by the runtime overlay
func runtime_simGoid() uint64
func runtime_simSetRand(on bool, goid uint64, state uint64)
func runtime_simGetRand() uint64

const simMaxTasks = 12

// scheduling point kinds
const (
	SimKPoint = iota // instrumented statement
	SimKLock
	SimKRLock
	SimKUnlock
	SimKRUnlock
	SimKMap
	SimKOp    // operation boundary in the workload
	SimKBlock // forced switch: lock not available
	SimKDone  // forced switch: task finished
	simKinds
)

type simTask struct {
	goid  uint64
	sema  uint32
	state uint8 // 0 unused 1 runnable 2 blocked 3 done
	wait  unsafe.Pointer
	wkind uint8 // 1 mutex 2 rlock 3 wlock 4 waitgroup
	pendW unsafe.Pointer
	prio  int32
	steps uint64
}

// SimDecision is one non-default scheduling decision: at scheduling point Step
// run task Task.
type SimDecision struct {
	Step uint64
	Task int32
}

// SimSwitch is one entry of the recorded schedule trace.
type SimSwitch struct {
	Step     uint64
	From, To int32
	Kind     int32
	Site     int32
}

// SimConfig configures one simulated execution.
type SimConfig struct {
	Seed     uint64
	Strategy int32  // 0 random walk, 1 PCT, 2 operation-granular, 3 serial
	Preempt  uint32 // random walk: preemption probability out of 65536
	Depth    int32  // PCT: number of priority change points
	Horizon  uint64 // PCT: expected number of scheduling points
	Explicit bool   // replay: follow Decisions exactly
	Decision []SimDecision
	MaxSteps uint64
	SiteMask uint64 // bit per site%64: swarm - which statement sites may preempt
}

// SimResult is what one simulated execution did.
type SimResult struct {
	Steps     uint64
	Switches  uint64
	Hash      uint64
	Kinds     [simKinds]uint64
	Deadlock  bool
	Overrun   bool
	Decisions []SimDecision
	Trace     []SimSwitch
	Blocked   []int32 // tasks blocked at the end of a deadlocked run
	BlockedOn []int32 // kind of wait, parallel to Blocked
	Contended uint64
}

// simPoolOff disables object pools for the whole process: what a pool returns
// depends on the garbage collector and the processor, not on the seed.
const simPoolOff = true

var (
	simOn    uint32
	simCfg   SimConfig
	simTasks [simMaxTasks]simTask
	simN     int32
	simCur   int32
	simStep  uint64
	simRng   uint64
	simRes   SimResult
	simMain  uint32
	simDec   int
	simPctAt [64]uint64
	simPctN  int32
	simLow   int32
	simEnd   uint64 // race anchor
)

func simRand() uint64 {
	simRng += 0x9e3779b97f4a7c15
	z := simRng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// SimSeedRand makes the runtime's map hash seeds, map iteration starts and the
// default math/rand source a function of seed, for the calling goroutine.
func SimSeedRand(seed uint64) { runtime_simSetRand(true, runtime_simGoid(), seed) }

// SimRandState returns a digest of the simulated runtime random state.
func SimRandState() uint64 { return runtime_simGetRand() }

// SimActive reports whether the calling goroutine is a simulated task.
func SimActive() bool { return simMine() }

func simMine() bool {
	return atomic.LoadUint32(&simOn) != 0 && simTasks[simCur].goid == runtime_simGoid()
}

// SimRun executes the given task bodies under the simulated scheduler.
func SimRun(cfg SimConfig, tasks []func()) SimResult {
	if len(tasks) > simMaxTasks {
		panic("too many tasks")
	}
	simCfg = cfg
	simN = int32(len(tasks))
	simStep, simDec = 0, 0
	simRng = cfg.Seed
	simRes = SimResult{Hash: 1469598103934665603}
	simRes.Decisions = make([]SimDecision, 0, 4096)
	simRes.Trace = make([]SimSwitch, 0, 4096)
	simMain = 0
	simPctN = 0
	simLow = 0
	for i := range simTasks {
		simTasks[i] = simTask{}
	}
	// initial priorities: a random permutation
	var perm [simMaxTasks]int32
	for i := int32(0); i < simN; i++ {
		perm[i] = i
	}
	for i := simN - 1; i > 0; i-- {
		j := int32(simRand() % uint64(i+1))
		perm[i], perm[j] = perm[j], perm[i]
	}
	for i := int32(0); i < simN; i++ {
		simTasks[i].prio = perm[i] + 1
		simTasks[i].state = 1
	}
	if cfg.Strategy == 1 && !cfg.Explicit {
		h := cfg.Horizon
		if h == 0 {
			h = 1000
		}
		for i := int32(0); i < cfg.Depth && i < int32(len(simPctAt)); i++ {
			simPctAt[simPctN] = 1 + simRand()%h
			simPctN++
		}
	}
	var ready uint32
	for i := range tasks {
		i, f := i, tasks[i]
		go func() {
			t := &simTasks[i]
			t.goid = runtime_simGoid()
			runtime_Semrelease(&ready, false, 0)
			runtime_Semacquire(&t.sema)
			f()
			if race.Enabled {
				race.ReleaseMerge(unsafe.Pointer(&simEnd))
			}
			simFinish(int32(i))
		}()
	}
	for range tasks {
		runtime_Semacquire(&ready)
	}
	rs := runtime_simGetRand()
	// first task
	first := simFirst()
	simCur = first
	atomic.StoreUint32(&simOn, 1)
	runtime_simSetRand(true, simTasks[first].goid, rs)
	runtime_Semrelease(&simTasks[first].sema, false, 0)
	runtime_Semacquire(&simMain)
	atomic.StoreUint32(&simOn, 0)
	if race.Enabled {
		race.Acquire(unsafe.Pointer(&simEnd))
	}
	runtime_simSetRand(true, runtime_simGoid(), runtime_simGetRand())
	simRes.Steps = simStep
	r := simRes
	return r
}

func simFirst() int32 {
	if simCfg.Explicit {
		if simDec < len(simCfg.Decision) && simCfg.Decision[simDec].Step == 0 {
			t := simCfg.Decision[simDec].Task
			simDec++
			if t >= 0 && t < simN {
				if t != 0 {
					simRes.Decisions = append(simRes.Decisions, SimDecision{0, t})
				}
				return t
			}
		}
		return 0
	}
	var t int32
	switch simCfg.Strategy {
	case 1:
		t = simTop()
	case 3:
		t = 0
	default:
		t = int32(simRand() % uint64(simN))
	}
	if t != 0 {
		simRes.Decisions = append(simRes.Decisions, SimDecision{0, t})
	}
	return t
}

// runnable task with the highest priority
func simTop() int32 {
	best := int32(-1)
	for i := int32(0); i < simN; i++ {
		if simTasks[i].state == 1 && (best < 0 || simTasks[i].prio > simTasks[best].prio) {
			best = i
		}
	}
	return best
}

func simLowest() int32 {
	for i := int32(0); i < simN; i++ {
		if simTasks[i].state == 1 {
			return i
		}
	}
	return -1
}

func simPick(excl int32) int32 {
	n := uint64(0)
	for i := int32(0); i < simN; i++ {
		if simTasks[i].state == 1 && i != excl {
			n++
		}
	}
	if n == 0 {
		return -1
	}
	k := simRand() % n
	for i := int32(0); i < simN; i++ {
		if simTasks[i].state == 1 && i != excl {
			if k == 0 {
				return i
			}
			k--
		}
	}
	return -1
}

func simNote(v uint64) {
	simRes.Hash = (simRes.Hash ^ v) * 1099511628211
}

// decide returns the task to run at this scheduling point; def is the default
// (the running task, or -1 when it cannot continue).
func simDecide(def int32, kind, site int32) int32 {
	dflt := def
	if dflt < 0 {
		dflt = simLowest()
		if dflt < 0 {
			for i := int32(0); i < simN; i++ {
				if simTasks[i].state == 2 && simTasks[i].wkind == 4 {
					simTasks[i].state = 1
					return i
				}
			}
			return -1
		}
	}
	t := dflt
	if simCfg.Explicit {
		for simDec < len(simCfg.Decision) && simCfg.Decision[simDec].Step < simStep {
			simDec++
		}
		if simDec < len(simCfg.Decision) && simCfg.Decision[simDec].Step == simStep {
			c := simCfg.Decision[simDec].Task
			simDec++
			if c >= 0 && c < simN && simTasks[c].state == 1 {
				t = c
			}
		}
	} else {
		switch simCfg.Strategy {
		case 0:
			if def < 0 {
				t = simPick(-1)
			} else if kind != SimKPoint || simCfg.SiteMask&(1<<(uint32(site)&63)) != 0 {
				if uint32(simRand()&0xffff) < simCfg.Preempt {
					if c := simPick(def); c >= 0 {
						t = c
					}
				}
			}
		case 1:
			for i := int32(0); i < simPctN; i++ {
				if simPctAt[i] == simStep && def >= 0 {
					simLow--
					simTasks[def].prio = simLow
				}
			}
			t = simTop()
		case 2:
			if def < 0 || kind == SimKOp {
				t = simPick(-1)
			}
		}
	}
	if t != dflt {
		if len(simRes.Decisions) < 200000 {
			simRes.Decisions = append(simRes.Decisions, SimDecision{simStep, t})
		}
	}
	return t
}

// SimPoint is a scheduling point inserted before statements of the code under test.
func SimPoint(site int32) {
	if simMine() {
		simYield(SimKPoint, site)
	}
}

// SimOp is an operation boundary in the workload.
func SimOp(site int32) {
	if simMine() {
		simYield(SimKOp, site)
	}
}

func simYield(kind, site int32) {
	simStep++
	simRes.Kinds[kind]++
	if simCfg.MaxSteps > 0 && simStep > simCfg.MaxSteps {
		simRes.Overrun = true
		simHalt()
	}
	me := simCur
	simTasks[me].steps++
	t := simDecide(me, kind, site)
	if t == me {
		return
	}
	simSwitch(me, t, kind, site)
}

func simSwitch(me, t, kind, site int32) {
	simRes.Switches++
	simNote(simStep<<20 ^ uint64(uint32(me))<<12 ^ uint64(uint32(t))<<8 ^ uint64(uint32(kind)))
	simNote(uint64(uint32(site)))
	if len(simRes.Trace) < 100000 {
		simRes.Trace = append(simRes.Trace, SimSwitch{simStep, me, t, kind, site})
	}
	simCur = t
	runtime_simSetRand(true, simTasks[t].goid, runtime_simGetRand())
	runtime_Semrelease(&simTasks[t].sema, false, 0)
	runtime_Semacquire(&simTasks[me].sema)
}

// simHalt gives control back to SimRun and parks the caller for good.
func simHalt() {
	if race.Enabled {
		race.ReleaseMerge(unsafe.Pointer(&simEnd))
	}
	runtime_Semrelease(&simMain, false, 0)
	var never uint32
	runtime_Semacquire(&never)
}

func simFinish(me int32) {
	simTasks[me].state = 3
	simStep++
	simRes.Kinds[SimKDone]++
	t := simDecide(-1, SimKDone, 0)
	if t < 0 {
		simStuck()
		runtime_Semrelease(&simMain, false, 0)
		return
	}
	simRes.Switches++
	simNote(simStep<<20 ^ uint64(uint32(me))<<12 ^ uint64(uint32(t))<<8 ^ SimKDone)
	if len(simRes.Trace) < 100000 {
		simRes.Trace = append(simRes.Trace, SimSwitch{simStep, me, t, SimKDone, 0})
	}
	simCur = t
	runtime_simSetRand(true, simTasks[t].goid, runtime_simGetRand())
	runtime_Semrelease(&simTasks[t].sema, false, 0)
}

// simStuck records a deadlock if some task is blocked.
func simStuck() {
	for i := int32(0); i < simN; i++ {
		if simTasks[i].state == 2 {
			simRes.Deadlock = true
			simRes.Blocked = append(simRes.Blocked, i)
			simRes.BlockedOn = append(simRes.BlockedOn, int32(simTasks[i].wkind))
		}
	}
}

// simBlock parks the running task until something it waits on is released.
func simBlock(p unsafe.Pointer, wkind uint8) {
	me := simCur
	simTasks[me].state = 2
	simTasks[me].wait = p
	simTasks[me].wkind = wkind
	simStep++
	simRes.Kinds[SimKBlock]++
	simRes.Contended++
	t := simDecide(-1, SimKBlock, int32(wkind))
	if t < 0 {
		simStuck()
		simHalt()
	}
	simSwitch(me, t, SimKBlock, int32(wkind))
}

func simWake(p unsafe.Pointer) {
	for i := int32(0); i < simN; i++ {
		if simTasks[i].state == 2 && simTasks[i].wait == p {
			simTasks[i].state = 1
			simTasks[i].wait = nil
		}
	}
}

func simPendingWriter(p unsafe.Pointer) bool {
	for i := int32(0); i < simN; i++ {
		if simTasks[i].pendW == p {
			return true
		}
	}
	return false
}

func simMutexLock(m *Mutex) {
	simYield(SimKLock, 0)
	for !m.TryLock() {
		simBlock(unsafe.Pointer(m), 1)
	}
}

func simMutexUnlock(m *Mutex) {
	m.unlockReal()
	simWake(unsafe.Pointer(m))
	simYield(SimKUnlock, 0)
}

func simRLock(rw *RWMutex) {
	simYield(SimKRLock, 1)
	for simPendingWriter(unsafe.Pointer(rw)) || !rw.TryRLock() {
		simBlock(unsafe.Pointer(rw), 2)
	}
}

func simRUnlock(rw *RWMutex) {
	rw.rUnlockReal()
	simWake(unsafe.Pointer(rw))
	simYield(SimKRUnlock, 1)
}

func simWLock(rw *RWMutex) {
	simYield(SimKLock, 1)
	me := simCur
	for !rw.TryLock() {
		simTasks[me].pendW = unsafe.Pointer(rw)
		simBlock(unsafe.Pointer(rw), 3)
	}
	simTasks[me].pendW = nil
}

func simWUnlock(rw *RWMutex) {
	rw.unlockReal()
	simWake(unsafe.Pointer(rw))
	simYield(SimKUnlock, 1)
}

// simWGWait returns when the counter is zero, or when only goroutines outside
// the simulation can bring it there; the caller then waits for real.
func simWGWait(wg *WaitGroup) {
	simYield(SimKLock, 2)
	for int32(wg.state.Load()>>32) != 0 {
		if simLowestOther(simCur) < 0 {
			return
		}
		simBlock(unsafe.Pointer(wg), 4)
	}
}

func simLowestOther(me int32) int32 {
	for i := int32(0); i < simN; i++ {
		if i != me && simTasks[i].state == 1 {
			return i
		}
	}
	return -1
}

// SimMapPoint is the scheduling point of sync.Map methods.
func simMapPoint() {
	if simMine() {
		simYield(SimKMap, 0)
	}
}

// SimTask returns the index of the calling simulated task, or -1.
func SimTask() int32 {
	if simMine() {
		return simCur
	}
	return -1
}
