package main

import (
	"fmt"
	"strings"
	"sync"
)

type pgen struct {
	r    *Rng
	p    *Plan
	id   int
	deep bool
	// only: the kinds of operation mixed draws from (nil: all). Plans that use
	// few kinds bring each pair of kinds together often.
	only map[int]bool
}

func (g *pgen) slot(cfg genCfg, rt int) int {
	i := len(g.p.Slots)
	name := fmt.Sprintf("lin%c", 'a'+i)
	if i > 0 && g.r.P(25) {
		name = g.lin(g.r.N(i)).Name // a name does not identify a lineage
	}
	l := genLin(g.r.Fork(), name, cfg)
	if l.Raw == "" && g.r.P(40) {
		l.Form = []string{"nested", "split", "ref", "refnested", "refsplit", "embed"}[g.r.N(6)]
	}
	g.p.Slots = append(g.p.Slots, LSlot{Lin: l, RT: rt})
	return i
}

func (g *pgen) lin(i int) *Lin { return g.p.Slots[i].Lin }

func (g *pgen) op(o Op) Op {
	g.id++
	o.ID = g.id
	return o
}

func (g *pgen) anyV(l *Lin) V { return l.Schs[g.r.N(len(l.Schs))].V }

func (g *pgen) good(l *Lin, v V) any {
	lg := &lgen{r: g.r.Fork()}
	return norm(lg.val(l.Schs[l.Idx(v)].Ty))
}

func (g *pgen) bad(l *Lin, v V) any {
	lg := &lgen{r: g.r.Fork()}
	return norm(lg.bad(l.Schs[l.Idx(v)].Ty))
}

func (g *pgen) inst(li int) int {
	l := g.lin(li)
	v := g.anyV(l)
	s := ISlot{L: li, V: v, D: g.good(l, v)}
	if g.r.P(35) {
		s.V0, s.D0 = s.V, s.D
		s.Pre, s.V, s.D = g.derive(l, s.V, s.D)
	}
	g.p.Insts = append(g.p.Insts, s)
	return len(g.p.Insts)
}

// derive draws what happens to an instance before it is used, and the model's
// view of the result.
func (g *pgen) derive(l *Lin, v V, d any) ([]string, V, any) {
	var steps []string
	for n := g.r.N(2); n >= 0; n-- {
		ty := l.Schs[l.Idx(v)].Ty
		switch g.r.N(3) {
		case 0:
			steps, d = append(steps, "h"), ty.Fill(d)
		case 1:
			steps, d = append(steps, "d"), ty.Trim(d)
		case 2:
			to := g.anyV(l)
			if tr := l.Translate(v, to, d); tr.OK {
				steps, v, d = append(steps, "t"+to.String()), to, tr.Val
			}
		}
	}
	return steps, v, norm(d)
}

// pre has an operation with an instance of its own use a derived one, sometimes.
func (g *pgen) pre(o Op) Op {
	if o.I == 0 && g.r.P(30) {
		o.V0, o.D0 = o.V, o.D
		o.Pre, o.V, o.D = g.derive(g.lin(o.L), o.V, o.D)
	}
	return o
}

// shared picks an instance slot of lineage li, or 0.
func (g *pgen) shared(li int) int {
	var c []int
	for i, s := range g.p.Insts {
		if s.L == li && !s.Quiet {
			c = append(c, i+1)
		}
	}
	if len(c) == 0 {
		return 0
	}
	return c[g.r.N(len(c))]
}

// translatable draws a translation whose result the reference model predicts.
func (g *pgen) translate(li int, share bool) Op {
	l := g.lin(li)
	o := Op{K: "translate", L: li}
	if share && g.r.P(50) {
		if o.I = g.shared(li); o.I > 0 {
			o.To = g.anyV(l)
			return o
		}
	}
	o.V, o.To = g.anyV(l), g.anyV(l)
	o.D = g.good(l, o.V)
	o = g.pre(o)
	switch g.r.N(10) {
	case 0:
		if i := l.Idx(o.V); i+1 < len(l.Schs) {
			o.K = "succ"
		}
	case 1:
		if i := l.Idx(o.V); i > 0 {
			o.K = "pred"
		}
	}
	return o
}

func (g *pgen) validate(li int) Op {
	l := g.lin(li)
	o := Op{K: "validate", L: li, V: g.anyV(l)}
	switch g.r.N(4) {
	case 0:
		o.D = g.bad(l, o.V)
	case 1:
		o.D = g.good(l, g.anyV(l))
	default:
		o.D = g.good(l, o.V)
	}
	if g.r.P(25) {
		o.K = "any"
	} else if m, ok := o.D.(map[string]any); ok && g.r.P(8) {
		// data that leave a value open are no instance
		for _, f := range l.Schs[l.Idx(o.V)].Ty.Fields {
			if k := f.Ty.K; m[f.Name] != nil && f.Def == nil && (k == "string" || k == "int" || k == "bool" || k == "num") {
				o.Open = f.Name
			}
		}
	}
	return o
}

func (g *pgen) badBind(li int) (Op, bool) {
	for try := 0; try < 8; try++ {
		if b := genBad(g.r.Fork(), g.lin(li), badKinds[g.r.N(len(badKinds))]); b != nil {
			b.Skip = g.r.P(15)
			g.p.Bads = append(g.p.Bads, *b)
			return Op{K: "bind", L: g.p.Slots[li].RT, B: len(g.p.Bads)}, true
		}
	}
	return Op{}, false
}

func (g *pgen) mux(li int, faults bool) Op {
	l := g.lin(li)
	kinds := []string{"untyped/json", "untyped/yaml", "byte/json", "byte/yaml"}
	o := Op{K: "mux", L: li, X: kinds[g.r.N(4)], To: g.anyV(l)}
	if l.Typed != "" && g.r.P(50) {
		o.X = []string{"typed/json", "typed/yaml", "value/json", "value/yaml", "valueuser/json", "valueuser/yaml"}[g.r.N(6)]
		o.To = l.Schs[len(l.Schs)-1].V
		if faults && strings.HasPrefix(o.X, "valueuser") && g.r.P(50) {
			// the Go type's own decoding fails
			o.D = g.good(l, o.To)
			k := "unmarshal-panic"
			if d, ok := o.D.(map[string]any); ok && d["opts"] != nil && g.r.P(60) {
				k = "unmarshal-error"
			}
			o.F = append(o.F, Flt{Kind: k})
			return o
		}
	}
	v := g.anyV(l)
	switch g.r.N(6) {
	case 0:
		o.D = g.bad(l, v)
	case 1:
		o.D = g.good(l, o.To)
	default:
		o.D = g.good(l, v)
	}
	if faults && g.r.P(12) {
		t := jsonText(g.good(l, v))
		o.D = "raw:" + []string{"{\"a\": ", "{]", "[1,", "\"unterminated", "{\"a\":1}}", "", " \n", "null", "true", t + " " + t, t + "]", t[:len(t)-1], "[" + t + "]"}[g.r.N(13)]
	}
	if g.r.P(50) {
		o.S = uint64(g.r.N(6))
	}
	o.Own = g.r.P(20)
	return o
}

// mixed draws an operation from everything a client can do.
func (g *pgen) mixed(li int) Op {
	l := g.lin(li)
	for try := 0; ; try++ {
		k := g.r.N(21)
		if k == 20 {
			k = 22
		}
		if g.only != nil {
			k = g.r.N(23)
		}
		if g.only != nil && !g.only[k] && try < 200 {
			continue
		}
		switch k {
		case 0, 1, 2, 3:
			return g.validate(li)
		case 4, 5, 6, 7, 8:
			return g.translate(li, true)
		case 9:
			return Op{K: "nav", L: li}
		case 10:
			return Op{K: "bind", L: li}
		case 11:
			if o, ok := g.badBind(li); ok {
				return o
			}
		case 12, 13:
			return g.mux(li, false)
		case 22:
			return g.assign(li)
		case 14, 20, 21:
			o := Op{K: []string{"hydrate", "dehydrate"}[g.r.N(2)], L: li}
			if k == 20 {
				o.K = "dehydrate"
			} else if k == 21 {
				o.K = "hydrate"
			}
			if o.I = g.shared(li); o.I > 0 && g.r.P(50) {
				return o
			}
			o.I = 0
			o.V = g.anyV(l)
			o.D = g.good(l, o.V)
			return g.pre(o)
		case 15:
			for _, s := range l.Schs {
				if len(s.Examples) > 0 {
					return Op{K: "examples", L: li, V: s.V}
				}
			}
		case 16:
			if l.Typed != "" {
				return Op{K: "newt", L: li}
			}
		case 17:
			if l.Typed != "" {
				v := l.Schs[len(l.Schs)-1].V
				if g.r.P(30) {
					return g.tinst(li)
				}
				o := Op{K: "value", L: li, D: g.good(l, v)}
				if g.r.P(20) {
					o.D = g.bad(l, v)
				}
				return o
			}
		case 18:
			if l.Typed != "" {
				x := ""
				if g.r.P(30) {
					x = "bad"
				}
				return Op{K: "bindtype", L: li, X: x}
			}
		case 19:
			if len(g.p.Pairs) > 0 {
				return g.append()
			}
		}
	}
}

// append draws a comparison of two lineages.
func (g *pgen) append() Op {
	o := Op{K: "appendonly", B: 1 + g.r.N(len(g.p.Pairs))}
	switch {
	case g.r.P(30):
		o.X = "rev"
	case g.r.P(5):
		o.X = "self"
	}
	return o
}

// tinst draws the use of an instance as a typed one.
func (g *pgen) tinst(li int) Op {
	l := g.lin(li)
	last := l.Schs[len(l.Schs)-1].V
	o := Op{K: "tinst", L: li}
	if g.r.P(40) {
		// one that all tasks share, made of whatever leads to the latest version
		var c []int
		for i, s := range g.p.Insts {
			if s.L == li && s.Quiet {
				c = append(c, i+1)
			}
		}
		if len(c) < 2 {
			s := ISlot{L: li, Quiet: true, V: last, D: g.good(l, last)}
			if g.r.P(70) {
				for try := 0; try < 20; try++ {
					v0 := g.anyV(l)
					d0 := g.good(l, v0)
					pre, v, d := g.derive(l, v0, d0)
					if v == last && len(pre) > 0 {
						s.V0, s.D0, s.Pre, s.D = v0, d0, pre, d
						break
					}
				}
			}
			g.p.Insts = append(g.p.Insts, s)
			c = append(c, len(g.p.Insts))
		}
		o.I = c[g.r.N(len(c))]
		return o
	}
	o.V = last
	if g.r.P(30) {
		o.V = g.anyV(l)
	}
	o.D = g.good(l, o.V)
	return g.pre(o)
}

// assign draws a comparison of a schema with a Go type.
func (g *pgen) assign(li int) Op {
	o := Op{K: "assign", L: li, V: g.anyV(g.lin(li)), S: g.r.U64()}
	switch {
	case g.r.P(50):
		o.X = "bad"
	case g.r.P(5):
		o.X = "ptrptr"
	}
	return o
}

// user draws an operation on a typed schema whose Go type has user code.
func (g *pgen) user(li int) Op {
	l := g.lin(li)
	v := l.Schs[len(l.Schs)-1].V
	o := Op{K: []string{"newt", "value", "bindtype"}[g.r.N(3)], L: li, X: "user"}
	if o.K == "value" {
		o.D = g.good(l, v)
		if g.r.P(20) {
			o.D = g.bad(l, v)
		}
	}
	if g.r.P(60) {
		k := "unmarshal-panic"
		if d, ok := o.D.(map[string]any); ok && d["opts"] != nil && g.r.P(40) {
			k = "unmarshal-error"
		}
		o.F = append(o.F, Flt{Kind: k})
	}
	return o
}

// noise draws an operation of some other client: mostly one that fails.
func (g *pgen) noise(li int) Op {
	l := g.lin(li)
	var o Op
	switch g.r.N(5) {
	case 0:
		ok := false
		if o, ok = g.badBind(li); !ok {
			o = g.validate(li)
		}
	case 1:
		o = g.translate(li, true)
		if l.Go {
			g.lensFault(&o, append(append([]string{}, lensFaults...), reenter...))
		}
	case 2:
		o = g.mux(li, true)
		if raw, ok := o.D.(string); !ok || !strings.HasPrefix(raw, "raw:") {
			o.F = append(o.F, Flt{Kind: []string{"decode-panic", "encode-panic", "decode-error", "encode-error", "decode-bottom"}[g.r.N(5)]})
		}
	default:
		o = g.mixed(li)
	}
	o.N = true
	return o
}

// pair draws two lineages, the second a successor of the first or not.
func (g *pgen) pair(cfg genCfg) {
	r := g.r.Fork()
	cfg.Plain = true
	old := genLin(r, "pair", cfg)
	pr := Pair{Old: old, OK: true}
	nw := cloneLin(old)
	lg := &lgen{r: r, n: 700}
	last := nw.Schs[len(nw.Schs)-1]
	kinds := []string{"same", "append-minor", "append-major", "deleted", "edited", "edited-optional", "tweaked", "tweaked", "tweaked"}
	pr.Two = r.P(30)
	pr.Kind = kinds[r.N(len(kinds))]
	nw.Go, old.Go = true, true
	switch pr.Kind {
	case "append-minor":
		nw.Schs = append(nw.Schs, Sch{V: V{last.V[0], last.V[1] + 1}, Ty: &Ty{K: "struct", Fields: lg.minor(last.Ty.Fields)}})
	case "append-major":
		nw.Schs = append(nw.Schs, Sch{V: V{last.V[0] + 1, 0}, Ty: &Ty{K: "struct", Fields: append(cloneFields(last.Ty.Fields), lg.req(0))}})
	case "deleted":
		if len(nw.Schs) < 2 {
			pr.Kind = "same"
			break
		}
		nw.Schs = nw.Schs[:len(nw.Schs)-1]
		pr.OK = false
	case "edited", "edited-optional":
		// change published schemas: from version i on every schema has another field
		i := r.N(len(nw.Schs))
		f := lg.req(0)
		if pr.Kind == "edited-optional" {
			f.Opt = true
		}
		maj := nw.Schs[i].V[0]
		for k := range nw.Schs {
			if nw.Schs[k].V[0] == maj && k >= i || nw.Schs[k].V[0] == maj && !f.Opt {
				nw.Schs[k].Ty.Fields = append(nw.Schs[k].Ty.Fields, f)
			}
		}
		pr.OK = false
	case "tweaked":
		if what := tweak(r, nw); what != "" {
			pr.Kind = what
			pr.OK = false
		} else {
			pr.Kind = "same"
		}
		if r.P(30) { // and extended
			if pr.OK {
				pr.Kind = "append-major"
			}
			nw.Schs = append(nw.Schs, Sch{V: V{last.V[0] + 1, 0}, Ty: &Ty{K: "struct", Fields: append(cloneFields(last.Ty.Fields), lg.req(0))}})
		}
	}
	nw.Lenses, old.Lenses = nil, nil
	nw.Go, old.Go = false, false
	pr.New = nw
	g.p.Pairs = append(g.p.Pairs, pr)
}

// tweak changes a detail of one published schema such that the lineage as a
// whole is still well-formed.
func tweak(r *Rng, l *Lin) string {
	for try := 0; try < 60; try++ {
		i := r.N(len(l.Schs))
		first := i == 0 || l.Schs[i-1].V[0] != l.Schs[i].V[0]
		last := i+1 == len(l.Schs) || l.Schs[i+1].V[0] != l.Schs[i].V[0]
		fs := l.Schs[i].Ty.Fields
		f := &fs[r.N(len(fs))]
		for _, j := range l.Join {
			if j.Name == f.Name {
				f = nil
				break
			}
		}
		if f == nil {
			continue
		}
		where := f
		for depth := 0; depth < 4 && r.P(70); depth++ {
			t := f.Ty
			if t.K == "list" && f.Def == nil {
				t = t.Elem
			}
			if t.K == "struct" && len(t.Fields) > 0 {
				f = &t.Fields[r.N(len(t.Fields))]
			}
		}
		ty := f.Ty
		if ty.K == "list" && f.Def == nil && r.P(70) {
			ty = ty.Elem
		}
		switch r.N(6) {
		case 0: // fewer alternatives; newer minor versions still accept everything
			if first && (!last || i+1 == len(l.Schs)) && ty.K == "enum" && len(ty.Enum) > 2 {
				k := r.N(len(ty.Enum))
				if f.Def == ty.Enum[k] {
					continue
				}
				ty.Enum = append(append([]string{}, ty.Enum[:k]...), ty.Enum[k+1:]...)
				l.Schs[i].Examples = nil
				return "narrowed-enum"
			}
		case 1:
			if first && (!last || i+1 == len(l.Schs)) && ty.K == "range" && f.Def == nil && ty.Hi > ty.Lo+1 {
				ty.Hi--
				l.Schs[i].Examples = nil
				return "narrowed-range"
			}
		case 2: // an optional field the next minor version has as well
			if f == where && f.Opt && !last && (first || l.Schs[i-1].Ty.field(f.Name) == nil) && len(fs) > 1 {
				var o []Field
				for _, x := range fs {
					if x.Name != f.Name {
						o = append(o, x)
					}
				}
				l.Schs[i].Ty.Fields = o
				l.Schs[i].Examples = nil
				return "dropped-optional"
			}
		case 3:
			if first && last && f.Def != nil && (ty.K == "string" || ty.K == "int") {
				if ty.K == "string" {
					f.Def = "altered"
				} else {
					f.Def = 1234
				}
				return "changed-default"
			}
		case 4:
			if i == 0 && last && f.Def == nil && !f.Opt && !ty.fillable() && ty == f.Ty {
				f.Opt = true
				return "made-optional"
			}
		case 5:
			if i == 0 && last && f.Def == nil && !f.Opt && ty == f.Ty && ty.K == "string" {
				f.Def = "altered"
				return "made-defaulted"
			}
		}
	}
	return ""
}

func (g *pgen) sched() sync.SimConfig {
	c := sync.SimConfig{Seed: g.r.U64(), SiteMask: ^uint64(0)}
	switch g.r.N(6) {
	case 0, 1:
		c.Strategy = 0
		c.Preempt = uint32([]int{300, 2000, 8000, 30000}[g.r.N(4)])
	case 2:
		c.Strategy = 0
		c.Preempt = uint32([]int{4000, 20000, 50000}[g.r.N(3)])
		c.SiteMask = g.r.U64() & g.r.U64()
	case 3, 4:
		c.Strategy = 1
		c.Depth = int32(1 + g.r.N(8))
		c.Horizon = uint64([]int{200, 1500, 6000}[g.r.N(3)])
	default:
		c.Strategy = 2
	}
	return c
}

var serial = sync.SimConfig{Strategy: 3, Seed: 1}

func (g *pgen) tasks(n, k int, f func() Op) {
	for t := 0; t < n; t++ {
		var ops []Op
		for i := 0; i < k; i++ {
			ops = append(ops, g.op(f()))
		}
		g.p.Tasks = append(g.p.Tasks, ops)
	}
}

var lensFaults = []string{"lens-error", "lens-error-with-inst", "lens-nil", "lens-same", "lens-panic", "lens-foreign", "lens-wrongver"}
var reenter = []string{"reenter-validate", "reenter-bind", "reenter-translate"}

// lensFault plans a fault at one of the lenses on the way of translation o.
func (g *pgen) lensFault(o *Op, kinds []string) {
	l := g.lin(o.L)
	from, to := o.V, o.To
	if o.I > 0 {
		from = g.p.Insts[o.I-1].V
	}
	switch o.K {
	case "succ":
		to = l.Schs[l.Idx(from)+1].V
	case "pred":
		to = l.Schs[l.Idx(from)-1].V
	case "mux":
		i := l.Mux(o.To, norm(o.D))
		if i < 0 {
			return
		}
		from = l.Schs[i].V
	}
	i, j := l.Idx(from), l.Idx(to)
	d := 1
	if j < i {
		d = -1
	}
	var hops [][2]V
	for k := i; k != j; k += d {
		a, b := l.Schs[k].V, l.Schs[k+d].V
		if d > 0 && a[0] == b[0] {
			continue
		}
		hops = append(hops, [2]V{a, b})
	}
	if len(hops) == 0 {
		return
	}
	h := hops[g.r.N(len(hops))]
	o.F = append(o.F, Flt{Kind: kinds[g.r.N(len(kinds))], From: h[0], To: h[1]})
}

func clonePlan(p *Plan) *Plan {
	c := *p
	return &c
}

func genPlans(prop string, seed uint64, tier string) []*Plan {
	g := &pgen{r: NewRng(seed), p: &Plan{Prop: prop, Seed: seed, RTs: 1}, deep: tier == "thorough"}
	g.p.MapSd = g.r.U64()
	nonneg = prop == "C01" || prop == "C02" || prop == "C03" || prop == "C14" || prop == "C16"
	r := g.r
	small := genCfg{MaxMaj: 3, MaxMin: 2, MaxSch: 4, Examples: true, Join: true}
	mid := genCfg{MaxMaj: 4, MaxMin: 2, MaxSch: 6, Examples: true, Join: true}
	if g.deep {
		small.MaxSch, mid.MaxSch, mid.MaxMaj = 6, 9, 6
	}
	with := func(c genCfg, f func(*genCfg)) genCfg { f(&c); return c }
	switch prop {
	case "C01": // concurrent use of a runtime
		g.slot(with(small, func(c *genCfg) { c.Go = r.P(50); c.Defs = true }), 0)
		if r.P(60) {
			g.slot(with(small, func(c *genCfg) { c.Typed = true; c.MaxSch = 2; c.Go = r.P(30) }), 0)
		}
		for i := range g.p.Slots {
			g.inst(i)
			g.inst(i)
		}
		if r.P(40) {
			g.pair(small)
			if g.p.Pairs[0].Two {
				g.p.RTs = 2
			}
		}
		n := 2 + r.N(3)
		if r.P(70) {
			// one representative of each kind
			ks := []int{0, 4, 9, 10, 11, 12, 14, 14, 15, 16, 17, 18, 19, 22}
			g.only = map[int]bool{}
			for i, n := 0, 1+r.N(3); i < n; i++ {
				g.only[ks[r.N(len(ks))]] = true
			}
		}
		if r.P(65) {
			// storms: everybody does the same thing at the same time, and nobody
			// has done it before on that lineage
			for i, k := 0, 1+r.N(2); i < k; i++ {
				g.slot(with(small, func(c *genCfg) { c.Go = r.P(30); c.MaxSch = 2; c.Defs = true }), 0)
				g.inst(len(g.p.Slots) - 1)
			}
			g.p.Tasks = make([][]Op, n)
			ks := []int{0, 4, 9, 10, 11, 12, 20, 20, 20, 21, 21, 15, 16, 17, 18, 19, 22}
			for i, k := 0, 4+r.N(4); i < k; i++ {
				kind := ks[r.N(len(ks))]
				g.only = map[int]bool{kind: true}
				li := r.N(len(g.p.Slots))
				if kind >= 16 && kind <= 18 {
					for j := range g.p.Slots {
						if g.lin(j).Typed != "" {
							li = j
						}
					}
				}
				o := g.mixed(li)
				g.only = nil
				for t := range g.p.Tasks {
					if r.P(20) {
						o2 := g.mixed(li)
						g.p.Tasks[t] = append(g.p.Tasks[t], g.op(Op{K: "barrier", B: i}), g.op(o2))
						continue
					}
					g.p.Tasks[t] = append(g.p.Tasks[t], g.op(Op{K: "barrier", B: i}), g.op(o))
				}
			}
		} else {
			g.tasks(n, 2+r.N(3), func() Op { return g.mixed(r.N(len(g.p.Slots))) })
		}
		g.p.Sched = g.sched()
		if g.p.Tasks[0][0].K == "barrier" && r.P(60) {
			g.p.Sched = sync.SimConfig{Seed: r.U64(), SiteMask: ^uint64(0), Preempt: uint32([]int{3000, 8000, 20000, 40000}[r.N(4)])}
		}
		a := clonePlan(g.p)
		a.Sched = serial
		return []*Plan{a, g.p}

	case "C02": // progress whatever fails
		g.slot(with(small, func(c *genCfg) { c.Go = true; c.ForceMulti = true }), 0)
		typed := -1
		if r.P(35) {
			typed = len(g.p.Slots)
			g.slot(with(small, func(c *genCfg) { c.Typed = true; c.MaxSch = 2 }), 0)
		}
		if r.P(50) {
			g.slot(with(small, func(c *genCfg) { c.FaultyLens = true }), 0)
		}
		for i := range g.p.Slots {
			g.inst(i)
		}
		if r.P(30) {
			g.p.RTs = 2
			g.pair(with(small, func(c *genCfg) { c.MaxSch = 2 }))
			g.p.Pairs[0].Two = r.P(80)
		}
		n := 2 + r.N(4)
		g.tasks(n, 2+r.N(3), func() Op {
			switch {
			case len(g.p.Pairs) > 0 && r.P(30):
				o := g.append()
				if r.P(30) {
					o.X = "rev"
				}
				return o
			case typed >= 0 && r.P(25):
				return g.user(typed)
			case r.P(45):
				o := g.translate(0, true)
				g.lensFault(&o, append(append([]string{}, lensFaults...), reenter...))
				if r.P(30) {
					g.lensFault(&o, reenter)
				}
				return o
			case r.P(25):
				if o, ok := g.badBind(r.N(len(g.p.Slots))); ok {
					return o
				}
			case r.P(25):
				return Op{K: "bind", L: r.N(len(g.p.Slots))}
			case r.P(30):
				o := g.mux(0, true)
				if r.P(60) {
					o.F = append(o.F, Flt{Kind: []string{"decode-panic", "encode-panic", "decode-error", "encode-error"}[r.N(4)]})
				}
				return o
			}
			return g.mixed(r.N(len(g.p.Slots)))
		})
		for i := range g.p.Slots {
			g.p.Post = append(g.p.Post, g.op(Op{K: "bind", L: i}), g.op(g.validate(i)), g.op(g.translate(i, true)), g.op(g.mixed(i)))
		}
		if len(g.p.Pairs) > 0 {
			g.p.Post = append(g.p.Post, g.op(g.append()))
		}
		g.p.Sched = g.sched()
		// reference: the same operations in a world where nothing happened before
		a := clonePlan(g.p)
		a.Tasks = [][]Op{{}}
		a.Sched = serial
		return []*Plan{a, g.p}

	case "C03": // concurrent initialisation
		g.slot(with(small, func(c *genCfg) { c.MaxSch = 2; c.Defs = r.P(40) }), 0)
		g.p.Lazy = true
		g.tasks(2+r.N(4), 1+r.N(2), func() Op {
			o := Op{K: "newrt", L: 0}
			for i, n := 0, r.N(4); i < n; i++ {
				sub := g.validate(0)
				switch r.N(4) {
				case 0:
					sub = g.translate(0, false)
				case 1:
					sub.K, sub.D, sub.Open = []string{"hydrate", "dehydrate"}[r.N(2)], g.good(g.lin(0), sub.V), ""
				}
				o.Sub = append(o.Sub, sub)
			}
			return o
		})
		g.p.Sched = g.sched()
		return []*Plan{g.p}

	case "C04": // the bind gate
		g.p.RTs = 1 + r.N(2)
		for i, n := 0, 1+r.N(3); i < n; i++ {
			g.slot(with(mid, func(c *genCfg) { c.Go = r.P(40); c.Lacunas = r.P(30); c.Long = r.P(3) }), r.N(g.p.RTs))
		}
		g.tasks(1+r.N(3), 3+r.N(4), func() Op {
			li := r.N(len(g.p.Slots))
			if r.P(70) {
				if o, ok := g.badBind(li); ok {
					return o
				}
			}
			if r.P(40) {
				return g.validate(li)
			}
			return Op{K: "bind", L: li, X: []string{"", "", "skip"}[r.N(3)]}
		})
		for i := range g.p.Slots {
			g.p.Post = append(g.p.Post, g.op(Op{K: "nav", L: i}), g.op(g.validate(i)), g.op(Op{K: "bind", L: i}))
			if o, ok := g.badBind(i); ok {
				g.p.Post = append(g.p.Post, g.op(o))
			}
		}
		g.p.Sched = g.sched()
		return []*Plan{g.p}

	case "C05": // validation and navigation
		for i, n := 0, 1+r.N(2); i < n; i++ {
			g.slot(with(mid, func(c *genCfg) { c.Go = r.P(40); c.Long = r.P(5) }), 0)
		}
		g.tasks(2+r.N(3), 5+r.N(6), func() Op {
			if r.P(12) {
				return g.noise(r.N(len(g.p.Slots)))
			}
			if r.P(8) {
				return Op{K: "nav", L: r.N(len(g.p.Slots))}
			}
			return g.validate(r.N(len(g.p.Slots)))
		})
		g.p.Sched = g.sched()
		return []*Plan{g.p}

	case "C06": // CUE translation
		g.slot(with(mid, func(c *genCfg) { c.ForceMulti = r.P(80); c.FaultyLens = r.P(30); c.Lacunas = r.P(50); c.Long = r.P(4) }), 0)
		g.inst(0)
		g.inst(0)
		twin := -1
		if r.P(30) {
			// another lineage, with lenses of its own, maybe of the same name
			twin = g.slot(with(small, func(c *genCfg) { c.ForceMulti = true; c.MaxSch = 3; c.Lacunas = r.P(50) }), 0)
			if r.P(60) {
				g.lin(twin).Name = g.lin(0).Name
			}
			g.inst(twin)
		} else if r.P(50) {
			g.slot(with(small, func(c *genCfg) { c.Go = true; c.ForceMulti = true; c.MaxSch = 3 }), 0)
		}
		g.tasks(2+r.N(2), 3+r.N(3), func() Op {
			if twin > 0 && r.P(40) {
				return g.translate(twin, true)
			}
			if len(g.p.Slots) > 1 && r.P(15) {
				return g.noise(1)
			}
			return g.translate(0, true)
		})
		g.p.Sched = g.sched()
		return []*Plan{g.p}

	case "C07": // Go lenses under faults
		g.slot(with(mid, func(c *genCfg) { c.Go = true; c.ForceMulti = true; c.Long = r.P(5) }), 0)
		g.inst(0)
		g.inst(0)
		g.tasks(1+r.N(3), 4+r.N(5), func() Op {
			o := g.translate(0, true)
			if r.P(55) {
				g.lensFault(&o, lensFaults)
			}
			if r.P(30) {
				g.lensFault(&o, reenter)
			}
			return o
		})
		for i := 0; i < 3; i++ {
			g.p.Post = append(g.p.Post, g.op(g.translate(0, true)))
		}
		g.p.Sched = g.sched()
		return []*Plan{g.p}

	case "C08": // multiplexers
		g.slot(with(mid, func(c *genCfg) { c.Go = r.P(50); c.Typed = r.P(60); c.MaxSch = 4; c.Lacunas = r.P(50); c.Long = r.P(3) }), 0)
		g.tasks(1+r.N(3), 4+r.N(5), func() Op {
			o := g.mux(0, true)
			raw, israw := o.D.(string)
			if israw && strings.HasPrefix(raw, "raw:") {
				return o
			}
			if r.P(40) {
				ks := []string{"decode-error", "decode-error-with-value", "decode-panic", "decode-short", "decode-bottom", "encode-error", "encode-partial", "encode-panic"}
				k := ks[r.N(len(ks))]
				if k == "decode-short" && !strings.HasSuffix(o.X, "json") {
					k = "decode-error"
				}
				o.F = append(o.F, Flt{Kind: k, N: 1 + r.N(5)})
			} else if g.lin(0).Go && r.P(50) {
				g.lensFault(&o, lensFaults)
			}
			return o
		})
		for i := 0; i < 2; i++ {
			g.p.Post = append(g.p.Post, g.op(g.mux(0, false)))
		}
		g.p.Sched = g.sched()
		return []*Plan{g.p}

	case "C09": // results do not depend on history
		g.p.RTs = 1 + r.N(2)
		g.slot(with(small, func(c *genCfg) { c.Go = r.P(50); c.ForceMulti = true }), 0)
		g.slot(with(small, func(c *genCfg) { c.Typed = true; c.MaxSch = 2 }), g.p.RTs-1)
		for i := range g.p.Slots {
			g.inst(i)
			g.inst(i)
		}
		if r.P(50) {
			g.pair(small)
		}
		g.tasks(1, 6+r.N(6), func() Op {
			o := g.mixed(r.N(len(g.p.Slots)))
			if o.K == "translate" && g.lin(o.L).Go && r.P(30) {
				g.lensFault(&o, lensFaults)
			}
			return o
		})
		core := g.p.Tasks[0]
		a, b := clonePlan(g.p), clonePlan(g.p)
		// second leg: other order, other operations in between, other map order
		var noise []Op
		for i, n := 0, 4+r.N(8); i < n; i++ {
			noise = append(noise, g.op(g.mixed(r.N(len(g.p.Slots)))))
		}
		all := append(append([]Op{}, core...), noise...)
		for i := len(all) - 1; i > 0; i-- {
			j := r.N(i + 1)
			all[i], all[j] = all[j], all[i]
		}
		b.Tasks = [][]Op{all}
		b.MapSd = r.U64()
		b.Bads = g.p.Bads
		a.Bads = g.p.Bads
		a.Sched, b.Sched = serial, serial
		return []*Plan{a, b}

	case "C10": // loading under disk faults
		n := 1 + r.N(2)
		g.p.RTs = n
		for i := 0; i < n; i++ {
			l := genLin(r.Fork(), "mod", with(small, func(c *genCfg) { c.MaxSch = 3 }))
			g.p.Mods = append(g.p.Mods, genMod(r.Fork(), l))
		}
		for t := 0; t < n; t++ {
			var ops []Op
			for i, k := 0, 2+r.N(3); i < k; i++ {
				o := Op{K: "load", L: t, B: 1 + r.N(n)}
				if r.P(75) {
					ks := []string{"fs-io", "fs-io-partial", "fs-perm", "fs-notexist"}
					o.F = append(o.F, Flt{Kind: ks[r.N(len(ks))], N: 1 + r.N(45)})
				}
				if r.P(20) {
					o.F = append(o.F, Flt{Kind: "fs-short"})
				}
				if r.P(20) {
					o.F = append(o.F, Flt{Kind: "fs-grow"})
				}
				ops = append(ops, g.op(o))
			}
			g.p.Tasks = append(g.p.Tasks, ops)
		}
		for i := range g.p.Mods {
			g.p.Post = append(g.p.Post, g.op(Op{K: "load", L: 0, B: i + 1}))
		}
		g.p.Sched = sync.SimConfig{Seed: r.U64(), Strategy: 2}
		return []*Plan{g.p}

	case "C13": // generators
		g.slot(with(small, func(c *genCfg) { c.MaxSch = 3 }), 0)
		g.slot(with(small, func(c *genCfg) { c.MaxSch = 2 }), 0)
		nl := 2
		for r.P(60) && nl < 4 {
			g.p.Slots = append(g.p.Slots, LSlot{Lin: decorated(r.Fork(), fmt.Sprintf("lin%c", 'a'+nl))})
			nl++
		}
		var core []Op
		for i, n := 0, 4+r.N(4); i < n; i++ {
			li := r.N(nl)
			core = append(core, g.op(Op{K: "gen", L: li, V: g.anyV(g.lin(li)), X: genKinds[r.N(len(genKinds))]}))
		}
		var noise []Op
		for i, n := 0, 3+r.N(4); i < n; i++ {
			li := r.N(nl)
			noise = append(noise, g.op(Op{K: "gen", L: li, V: g.anyV(g.lin(li)), X: genKinds[r.N(len(genKinds))]}))
		}
		g.p.Tasks = [][]Op{core}
		g.p.Clock = int64(1600000000000000000 + r.N(1000000)*1000000000)
		a, b := clonePlan(g.p), clonePlan(g.p)
		all := append(append([]Op{}, core...), noise...)
		for i := len(all) - 1; i > 0; i-- {
			j := r.N(i + 1)
			all[i], all[j] = all[j], all[i]
		}
		b.Tasks = [][]Op{all}
		b.MapSd = r.U64()
		b.Clock = a.Clock + int64(r.N(400))*86400000000000
		a.Sched, b.Sched = serial, serial
		return []*Plan{a, b}

	case "C14": // typed values
		g.slot(with(small, func(c *genCfg) { c.Typed = true; c.MaxSch = 2; c.Go = r.P(40) }), 0)
		if r.P(50) {
			g.slot(with(small, func(c *genCfg) { c.MaxSch = 3; c.Hyd = r.P(50) }), 0)
		}
		g.tasks(2+r.N(3), 4+r.N(5), func() Op {
			l := g.lin(0)
			v := l.Schs[len(l.Schs)-1].V
			if r.P(12) {
				return g.noise(0)
			}
			if r.P(15) {
				return g.user(0)
			}
			if r.P(20) {
				return g.assign(r.N(len(g.p.Slots)))
			}
			switch r.N(7) {
			case 6:
				return g.tinst(0)
			case 0, 1:
				return Op{K: "newt", L: 0}
			case 2:
				return Op{K: "bindtype", L: 0, X: []string{"", "bad"}[r.N(2)]}
			case 3:
				o := g.mux(0, false)
				o.X = []string{"typed/json", "value/json", "value/yaml"}[r.N(3)]
				o.To = v
				return o
			}
			o := Op{K: "value", L: 0, D: g.good(l, v)}
			if r.P(20) {
				o.D = g.bad(l, v)
			}
			return o
		})
		g.p.Sched = g.sched()
		return []*Plan{g.p}

	case "C15": // hydration
		nl := 1 + r.N(2)
		for i := 0; i < nl; i++ {
			g.slot(with(mid, func(c *genCfg) { c.Hyd = r.P(60); c.MaxSch = 6 / nl }), 0)
			g.inst(i)
			g.inst(i)
		}
		g.tasks(2+r.N(3), 4+r.N(5), func() Op {
			li := r.N(nl)
			l := g.lin(li)
			if r.P(15) {
				return g.noise(li)
			}
			o := Op{K: []string{"hydrate", "dehydrate"}[r.N(2)], L: li}
			if r.P(40) {
				o.I = g.shared(li)
				return o
			}
			o.V = g.anyV(l)
			o.D = g.good(l, o.V)
			return g.pre(o)
		})
		g.p.Sched = g.sched()
		return []*Plan{g.p}

	case "C16": // append-only
		g.p.RTs = 2
		for i, n := 0, 2+r.N(3); i < n; i++ {
			g.pair(with(mid, func(c *genCfg) { c.Long = r.P(3) }))
		}
		g.slot(small, 0)
		g.tasks(2+r.N(3), 3+r.N(3), func() Op {
			if r.P(20) {
				return g.noise(0)
			}
			return g.append()
		})
		g.p.Sched = g.sched()
		return []*Plan{g.p}
	}
	panic("unknown property " + prop)
}
