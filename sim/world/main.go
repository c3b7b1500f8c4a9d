// Command verifsim is the simulated world: it generates plans from seeds and
// executes one plan per process.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"strconv"
	"sync"
	"time"
)

func decodeJSON(r io.Reader) (any, error) {
	var v any
	d := json.NewDecoder(r)
	d.UseNumber()
	err := d.Decode(&v)
	return v, err
}

// Out is what one execution reports.
type Out struct {
	Err      string            `json:"err,omitempty"`
	Results  []Res             `json:"results"`
	Missing  []int             `json:"missing,omitempty"` // operations that never finished
	Steps    uint64            `json:"steps"`
	Switches uint64            `json:"switches"`
	Hash     string            `json:"hash"`
	Kinds    []uint64          `json:"kinds"`
	Deadlock bool              `json:"deadlock,omitempty"`
	Overrun  bool              `json:"overrun,omitempty"`
	Blocked  []int32           `json:"blocked,omitempty"`
	BlockOn  []int32           `json:"blockon,omitempty"`
	Contend  uint64            `json:"contended"`
	Dec      []sync.SimDecision `json:"decisions,omitempty"`
	Trace    []sync.SimSwitch  `json:"trace,omitempty"`
	Stats    map[string]int    `json:"stats"`
	PostDead bool              `json:"postdead,omitempty"`
	SimNS    int64             `json:"simns"`
}

func runPlan(p *Plan) *Out {
	out := &Out{Stats: map[string]int{}}
	sync.SimSeedRand(p.MapSd)
	var simClock int64
	if p.Clock != 0 {
		// a simulated wall clock that jumps a little at every reading
		c := uint64(p.Clock)
		simClock = p.Clock
		time.SimNow = func() time.Time {
			c = c*6364136223846793005 + 1442695040888963407
			simClock += int64(c>>40) * 1000
			return time.Unix(0, simClock).UTC()
		}
	}
	w, err := newWorld(p)
	if err != nil {
		out.Err = err.Error()
		return out
	}
	results := make([][]Res, len(p.Tasks))
	var fns []func()
	for t := range p.Tasks {
		t := t
		results[t] = make([]Res, 0, len(p.Tasks[t]))
		fns = append(fns, func() {
			for i := range p.Tasks[t] {
				sync.SimOp(int32(800 + t))
				op := &p.Tasks[t][i]
				r := w.exec(op)
				r.ID, r.Op, r.N = op.ID, op.K, op.N
				results[t] = append(results[t], r)
			}
		})
	}
	if p.Sched.MaxSteps == 0 {
		p.Sched.MaxSteps = 4000000
	}
	sr := sync.SimRun(p.Sched, fns)
	for t := range results {
		out.Results = append(out.Results, results[t]...)
		for i := len(results[t]); i < len(p.Tasks[t]); i++ {
			out.Missing = append(out.Missing, p.Tasks[t][i].ID)
		}
	}
	out.Steps, out.Switches, out.Hash = sr.Steps, sr.Switches, fmt.Sprintf("%016x", sr.Hash)
	out.Kinds = sr.Kinds[:]
	out.Deadlock, out.Overrun, out.Blocked, out.BlockOn, out.Contend = sr.Deadlock, sr.Overrun, sr.Blocked, sr.BlockedOn, sr.Contended
	out.Dec, out.Trace = sr.Decisions, sr.Trace
	if !out.Deadlock && !out.Overrun && len(p.Post) > 0 {
		// faults have stopped: everything must work again
		post := make([]Res, 0, len(p.Post))
		pr := sync.SimRun(sync.SimConfig{Seed: 1, Strategy: 3, MaxSteps: p.Sched.MaxSteps}, []func(){func() {
			for i := range p.Post {
				op := &p.Post[i]
				r := w.exec(op)
				r.ID, r.Op, r.N = op.ID, op.K, op.N
				post = append(post, r)
			}
		}})
		out.Results = append(out.Results, post...)
		out.Steps += pr.Steps
		if pr.Deadlock || pr.Overrun {
			out.PostDead = true
		}
		for i := len(post); i < len(p.Post); i++ {
			out.Missing = append(out.Missing, p.Post[i].ID)
		}
	}
	if !out.Deadlock && !out.Overrun && !out.PostDead {
		w.recheck(out.Results)
	}
	for _, m := range w.stats {
		for k, v := range m {
			out.Stats[k] += v
		}
	}
	if p.Clock != 0 {
		out.SimNS = simClock - p.Clock
	}
	return out
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verifsim gen PROP SEED TIER | run")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "gen":
		seed, err := strconv.ParseUint(os.Args[3], 10, 64)
		if err != nil {
			panic(err)
		}
		e := json.NewEncoder(os.Stdout)
		e.SetEscapeHTML(false)
		e.Encode(map[string]any{"legs": genPlans(os.Args[2], seed, os.Args[4])})
	case "cligen":
		seed, err := strconv.ParseUint(os.Args[3], 10, 64)
		if err != nil {
			panic(err)
		}
		e := json.NewEncoder(os.Stdout)
		e.SetEscapeHTML(false)
		e.Encode(genCLI(os.Args[2], seed))
	case "run":
		var p Plan
		d := json.NewDecoder(os.Stdin)
		d.UseNumber()
		if err := d.Decode(&p); err != nil {
			fmt.Fprintln(os.Stderr, "plan:", err)
			os.Exit(3)
		}
		out := runPlan(&p)
		e := json.NewEncoder(os.Stdout)
		e.SetEscapeHTML(false)
		e.Encode(out)
	default:
		os.Exit(3)
	}
}
