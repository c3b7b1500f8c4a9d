package main

import (
	"fmt"
	"strings"
	"sync"

	"cuelang.org/go/encoding/yaml"
	"cuelang.org/go/cue/cuecontext"
	"github.com/grafana/thema"
)

// otherLin is the lineage foreign instances come from: {only: "foreign"} is
// valid in every version 0.0 .. 3.3.
func otherLin() *Lin {
	l := &Lin{Name: "other"}
	for maj := 0; maj < 4; maj++ {
		fs := []Field{
			{Name: "only", Ty: &Ty{K: "string"}},
			{Name: "k", Opt: true, Ty: &Ty{K: "enum", Enum: []string{fmt.Sprintf("m%d", maj), "x"}}},
		}
		for min := 0; min < 4; min++ {
			if min > 0 {
				fs = append(cloneFields(fs), Field{Name: fmt.Sprintf("o%d", min), Opt: true, Ty: &Ty{K: "string"}})
			}
			l.Schs = append(l.Schs, Sch{V: V{maj, min}, Ty: &Ty{K: "struct", Fields: cloneFields(fs)}})
		}
	}
	return l
}

func (p *Plan) needsOther() bool {
	for _, t := range append(append([][]Op{}, p.Tasks...), p.Post) {
		for _, o := range t {
			for _, f := range o.F {
				if f.Kind == "lens-foreign" {
					return true
				}
			}
		}
	}
	return false
}

// used tells which shared handles the operations of the plan need. Others are not
// made, so that the first use of a lineage is not always during setup.
func (p *Plan) used() map[string]bool {
	u := map[string]bool{}
	for _, t := range append(append([][]Op{}, p.Tasks...), p.Post) {
		for _, o := range t {
			switch o.K {
			case "newt", "value", "tinst":
				u[fmt.Sprintf("typed/%d", o.L)] = true
			case "mux":
				if strings.HasPrefix(o.X, "typed") || strings.HasPrefix(o.X, "value") {
					u[fmt.Sprintf("typed/%d", o.L)] = true
				}
				if !o.Own {
					u[fmt.Sprintf("mux/%d/%s/%s", o.L, o.X, o.To)] = true
				}
			}
			if o.I > 0 {
				u[fmt.Sprintf("inst/%d", o.I-1)] = true
			}
		}
	}
	return u
}

func newWorld(p *Plan) (w *world, err error) {
	stage := "runtime"
	defer func() {
		if e := recover(); e != nil {
			w, err = nil, fmt.Errorf("%s panicked: %v %s", stage, e, shortStack())
		}
	}()
	w = &world{plan: p, bars: map[int]*sync.WaitGroup{}}
	theWorld = w
	for _, t := range p.Tasks {
		for _, o := range t {
			if o.K == "barrier" {
				if w.bars[o.B] == nil {
					w.bars[o.B] = new(sync.WaitGroup)
				}
				w.bars[o.B].Add(1)
			}
		}
	}
	if p.Lazy {
		for i := range p.Slots {
			w.lins = append(w.lins, &linState{spec: p.Slots[i].Lin})
		}
		return w, nil
	}
	for i := 0; i < p.RTs; i++ {
		w.rts = append(w.rts, newRT())
	}
	used := p.used()
	for i, s := range p.Slots {
		stage = fmt.Sprintf("slot %d", i)
		st, err := w.bind(s.Lin, w.rts[s.RT])
		if err != nil {
			return nil, fmt.Errorf("slot %d (%s): %w\n%s", i, s.Lin.Name, err, s.Lin.CUE())
		}
		if s.Lin.Typed != "" && used[fmt.Sprintf("typed/%d", i)] {
			stage = fmt.Sprintf("slot %d bindtype:", i)
			ts, err := thema.BindType[*T1](st.lin.Latest(), &T1{})
			if err != nil {
				return nil, fmt.Errorf("slot %d bindtype: %w", i, err)
			}
			st.ts = ts
			st.tsx, err = thema.BindType[*T1X](st.lin.Latest(), &T1X{})
			if err != nil {
				return nil, fmt.Errorf("slot %d bindtype (user code): %w", i, err)
			}
		}
		stage = fmt.Sprintf("slot %d muxes", i)
		st.mux = map[string]any{}
		for _, s := range s.Lin.Schs {
			for _, k := range muxKinds {
				if used[fmt.Sprintf("mux/%d/%s/%s", i, k, s.V)] {
					st.mux[k+"/"+s.V.String()] = w.makeMux(st, k, s.V)
				}
			}
		}
		w.lins = append(w.lins, st)
	}
	for i, s := range p.Insts {
		stage = fmt.Sprintf("instance %d", i)
		if !used[fmt.Sprintf("inst/%d", i)] {
			w.insts = append(w.insts, nil)
			continue
		}
		st := w.lins[s.L]
		sch, err := st.lin.Schema(sv(s.V))
		if err != nil {
			return nil, err
		}
		var in *thema.Instance
		if len(s.Pre) > 0 {
			var e string
			if in, e = w.derive(st, s.V0, s.D0, s.Pre); e != "" {
				return nil, fmt.Errorf("derived instance %d: %s", i, e)
			}
			if !s.Quiet {
				if g, x := w.describe(st, in), expInst(s.V, norm(s.D)); g != x {
					return nil, fmt.Errorf("derived instance %d: after %v: %s instead of %s", i, s.Pre, g, x)
				}
			}
		} else if in, err = sch.Validate(w.data(st, s.D)); err != nil {
			return nil, fmt.Errorf("instance %d: %w", i, err)
		}
		w.insts = append(w.insts, &instState{inst: in, spec: s})
	}
	for i, pr := range p.Pairs {
		stage = fmt.Sprintf("pair %d", i)
		rt := w.rts[0]
		a, err := w.bind(pr.Old, rt)
		if err != nil {
			return nil, fmt.Errorf("pair %d old: %w", i, err)
		}
		if pr.Two {
			rt = w.rts[len(w.rts)-1]
		}
		b, err := w.bind(pr.New, rt)
		if err != nil {
			return nil, fmt.Errorf("pair %d new (%s): %w\n%s", i, pr.Kind, err, pr.New.CUE())
		}
		w.pairs = append(w.pairs, [2]thema.Lineage{a.lin, b.lin})
	}
	if p.needsOther() {
		stage = "foreign lineage"
		o := otherLin()
		if p.Seed%2 == 0 {
			o.Name = p.Slots[0].Lin.Name // a name does not identify a lineage
		}
		st, err := w.bind(o, newRT())
		if err != nil {
			return nil, fmt.Errorf("foreign lineage: %w", err)
		}
		w.other = st
	}
	for _, m := range p.Mods {
		w.mods = append(w.mods, newModState(w, m))
	}
	return w, nil
}

func yamlToJSON(b []byte) (any, error) {
	f, err := yaml.Extract("out.yaml", b)
	if err != nil {
		return nil, err
	}
	v := cuecontext.New().BuildFile(f)
	js, err := v.MarshalJSON()
	if err != nil {
		return nil, err
	}
	return mustJSON(string(js)), nil
}

func mustJSON(s string) any {
	v, err := decodeJSON(strings.NewReader(s))
	if err != nil {
		panic(err)
	}
	return v
}
