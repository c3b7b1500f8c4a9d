package main

import "sync"

// Op is one client operation of a plan.
type Op struct {
	ID int    `json:"id"`
	K  string `json:"k"`
	L  int    `json:"l"`            // lineage slot
	V  V      `json:"v,omitempty"`  // schema version operated on
	To V      `json:"to,omitempty"` // translation target
	D  any    `json:"d,omitempty"`  // data
	I  int    `json:"i,omitempty"`  // shared instance slot + 1
	B  int    `json:"b,omitempty"`  // rejected-lineage slot / pair slot
	X  string `json:"x,omitempty"`  // variant
	F  []Flt  `json:"f,omitempty"`  // injected faults
	N  bool   `json:"n,omitempty"`  // noise: executed, not judged
	// Own: the operation makes and uses a multiplexer of its own
	Own bool `json:"own,omitempty"`
	// Pre: the instance is not validated data (D at V), but made of data D0 at
	// V0 by these steps, and D and V are what the model says they lead to.
	Pre []string `json:"pre,omitempty"`
	V0  V        `json:"v0,omitempty"`
	D0  any      `json:"d0,omitempty"`
	// Open: a field of the data that has a type instead of a value
	Open string `json:"open,omitempty"`
	// Sub: what is done with the lineage the operation binds
	Sub []Op `json:"sub,omitempty"`
	// S seeds what the operation makes up (Go types)
	S uint64 `json:"s,omitempty"`
}

// Flt is one injected fault.
type Flt struct {
	Kind string `json:"kind"`
	From V      `json:"from,omitempty"`
	To   V      `json:"to,omitempty"`
	N    int    `json:"n,omitempty"`
	Op   string `json:"op,omitempty"`
	Path string `json:"path,omitempty"`
}

// LSlot is a lineage bound during setup.
type LSlot struct {
	Lin *Lin `json:"lin"`
	RT  int  `json:"rt"`
	// Typed/mux handles are made when the lineage is typed.
}

// Bad is a lineage that BindLineage must reject.
type Bad struct {
	Kind  string   `json:"kind"`
	Src   string   `json:"src"`
	Path  string   `json:"path,omitempty"`
	Class string   `json:"class"`
	Skip  bool     `json:"skip,omitempty"` // bound with SkipBuggyChecks
	GoL   []GoLens `json:"gol,omitempty"`
}

// GoLens describes an imperative lens handed to BindLineage.
type GoLens struct {
	From V    `json:"from"`
	To   V    `json:"to"`
	Nil  bool `json:"nil,omitempty"`
}

// ISlot is an instance shared by all tasks.
type ISlot struct {
	L int `json:"l"`
	V V   `json:"v"`
	D any `json:"d"`
	// as for Op
	Pre []string `json:"pre,omitempty"`
	V0  V        `json:"v0,omitempty"`
	D0  any      `json:"d0,omitempty"`
	// Quiet: nobody but thema looks at the instance's data
	Quiet bool `json:"quiet,omitempty"`
}

// Pair of lineages for append-only comparison.
type Pair struct {
	Old  *Lin   `json:"old"`
	New  *Lin   `json:"new"`
	Kind string `json:"kind"`
	OK   bool   `json:"ok"`
	Two  bool   `json:"two,omitempty"` // bound in two runtimes
}

// Plan is one simulated execution: everything that happens in it is a function
// of the plan.
type Plan struct {
	Prop  string          `json:"prop"`
	Seed  uint64          `json:"seed"`
	RTs   int             `json:"rts"`
	Slots []LSlot         `json:"slots"`
	Bads  []Bad           `json:"bads,omitempty"`
	Insts []ISlot         `json:"insts,omitempty"`
	Pairs []Pair          `json:"pairs,omitempty"`
	Mods  []*Mod          `json:"mods,omitempty"`
	Tasks [][]Op          `json:"tasks"`
	Post  []Op            `json:"post,omitempty"` // run by one task afterwards, faults gone
	Sched sync.SimConfig  `json:"sched"`
	MapSd uint64          `json:"mapseed"`
	Clock int64           `json:"clock,omitempty"`
	Lazy  bool            `json:"lazy,omitempty"` // runtimes are made inside the tasks
	Dump  bool            `json:"dump,omitempty"`
}

// Res is the outcome of one operation.
type Res struct {
	ID   int    `json:"id"`
	Op   string `json:"op"`
	Got  string `json:"got"`
	Exp  string `json:"exp"`
	Note string `json:"note,omitempty"`
	N    bool   `json:"n,omitempty"`
}
