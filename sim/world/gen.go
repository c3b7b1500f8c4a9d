package main

import (
	"fmt"
	"sort"
)

var words = []string{"alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta", "iota", "kappa"}

type genCfg struct {
	MaxMaj, MaxMin, MaxSch int
	Go                     bool
	Typed                  bool
	FaultyLens             bool
	Lacunas                bool
	Join                   bool
	Examples               bool
	ForceMulti             bool
	Defs                   bool // most fields have defaults
	Hyd                    bool // nested structure with defaults
	Plain                  bool // no types CUE cannot compare
	Long                   bool // many versions
	NoOdd                  bool // all field names are identifiers
	Pct                    bool // percent signs in strings
}

// nonneg keeps generated integers non-negative. CUE's evaluation of a negative
// literal writes to the literal's storage (the same digits, on every
// evaluation), which the race detector reports although Thema is not involved.
var nonneg bool

type lgen struct {
	r *Rng
	n int
	// rich: maps and unions of structs too. CUE's subsumption check is
	// incomplete for them (such a schema is not found to be compatible with
	// itself), so these lineages have no minor versions.
	rich bool
	defs bool
	pct  bool
	hyd  bool
	odd  bool
}

func (g *lgen) name() string {
	g.n++
	if g.odd && g.r.P(35) {
		// names that are no identifiers
		return fmt.Sprintf([]string{"%s-%d", "%s.%d", "%s %d", "%s/%d", "%s[%d]", "if%s%d?"}[g.r.N(6)], words[g.r.N(len(words))][:3], g.n)
	}
	return fmt.Sprintf("%s%d", words[g.r.N(len(words))][:3], g.n)
}

func (g *lgen) str() string {
	if g.pct && g.r.P(50) {
		return fmt.Sprintf("%s %d%%d of%%s", words[g.r.N(len(words))], g.r.N(50))
	}
	return fmt.Sprintf("%s-%d", words[g.r.N(len(words))], g.r.N(50))
}

func (g *lgen) ty(depth int) *Ty {
	k := g.r.N(14)
	if depth > 1 && k >= 8 && k < 13 || !g.rich && (k == 10 || k == 11) {
		k = g.r.N(8)
	}
	if g.hyd && depth < 2 && g.r.P(45) {
		k = []int{9, 9, 9, 11, 12}[g.r.N(5)]
		if k == 9 && g.r.P(60) {
			if g.r.P(35) {
				// elements of which the list may have defaults
				e := &Ty{K: "struct"}
				for i, n := 0, 1+g.r.N(2); i < n; i++ {
					e.Fields = append(e.Fields, Field{Name: g.name(), Ty: &Ty{K: []string{"string", "int", "bool"}[g.r.N(3)]}})
				}
				e.Fields = append(e.Fields, Field{Name: g.name(), Ty: &Ty{K: []string{"string", "int", "bool"}[g.r.N(3)]}, Opt: true})
				return &Ty{K: "list", Elem: e}
			}
			e := g.ty(1)
			for e.K != "struct" && e.K != "union" {
				e = g.ty(1)
			}
			return &Ty{K: "list", Elem: e}
		}
	}
	switch k {
	case 0, 1:
		return &Ty{K: "string"}
	case 2:
		return &Ty{K: "int"}
	case 3:
		return &Ty{K: "bool"}
	case 4, 5:
		n := 2 + g.r.N(2)
		var e []string
		for i := 0; i < n; i++ {
			e = append(e, fmt.Sprintf("%s%d", words[g.r.N(len(words))], i))
		}
		return &Ty{K: "enum", Enum: e}
	case 6:
		return &Ty{K: "null"}
	case 7:
		lo := g.r.N(5)
		return &Ty{K: "range", Lo: lo, Hi: lo + 1 + g.r.N(20)}
	case 8:
		return &Ty{K: "list", Elem: g.ty(depth + 2)}
	case 9:
		// elements with structure of their own
		return &Ty{K: "list", Elem: g.ty(depth + 1)}
	case 10:
		return &Ty{K: "map", Elem: g.ty(2)}
	case 11:
		t := &Ty{K: "union"}
		for i, n := 0, 2+g.r.N(2); i < n; i++ {
			a := &Ty{K: "struct", Fields: []Field{{Name: "kind", Ty: &Ty{K: "lit", Enum: []string{fmt.Sprintf("k%d", i)}}}}}
			for j, m := 0, 1+g.r.N(2); j < m; j++ {
				a.Fields = append(a.Fields, g.field(depth+2))
			}
			t.Alts = append(t.Alts, a)
		}
		return t
	case 13:
		return &Ty{K: "num"}
	default:
		t := &Ty{K: "struct", Open: g.r.P(15)}
		for i, n := 0, 1+g.r.N(2); i < n; i++ {
			t.Fields = append(t.Fields, g.field(depth+1))
		}
		return t
	}
}

func (g *lgen) defFor(t *Ty) any {
	switch t.K {
	case "string", "null":
		return g.str()
	case "int":
		return 1 + g.r.N(90)
	case "range":
		return t.Lo + g.r.N(t.Hi-t.Lo+1)
	case "bool":
		return g.r.P(50)
	case "enum":
		return t.Enum[g.r.N(len(t.Enum))]
	case "num":
		return float64(1+g.r.N(90)) + 0.5
	case "list":
		if g.hyd && t.Elem.K == "struct" {
			// CUE completes elements from those of the default list; only where
			// data never lack what the default has is that the same
			o, req := map[string]any{}, 0
			for _, f := range t.Elem.Fields {
				if f.Def != nil || f.Ty.fillable() || t.Elem.Open {
					return nil
				}
				if !f.Opt {
					o[f.Name] = g.val(f.Ty)
					req++
				}
			}
			if req == 0 {
				return nil
			}
			return []any{o}
		}
		if t.Elem.K != "string" && t.Elem.K != "int" && t.Elem.K != "bool" {
			return nil
		}
		o := []any{}
		for i, n := 0, 1+g.r.N(2); i < n; i++ {
			o = append(o, g.val(t.Elem))
		}
		return o
	}
	return nil
}

func (g *lgen) field(depth int) Field {
	f := Field{Name: g.name(), Ty: g.ty(depth)}
	k := g.r.N(4)
	if g.defs && k > 1 {
		k = 1
	}
	switch k {
	case 0:
		f.Opt = true
	case 1:
		f.Def = g.defFor(f.Ty)
		if f.Ty.K == "null" {
			f.Def = nil
		}
	}
	return f
}

// req makes a field that must be present.
func (g *lgen) req(depth int) Field {
	for {
		f := Field{Name: g.name(), Ty: g.ty(depth)}
		if !f.Ty.fillable() {
			return f
		}
	}
}

func cloneTy(t *Ty) *Ty {
	if t == nil {
		return nil
	}
	c := *t
	c.Enum = append([]string(nil), t.Enum...)
	c.Elem = cloneTy(t.Elem)
	c.Alts = nil
	for _, a := range t.Alts {
		c.Alts = append(c.Alts, cloneTy(a))
	}
	c.Fields = cloneFields(t.Fields)
	return &c
}

func cloneFields(fs []Field) []Field {
	var o []Field
	for _, f := range fs {
		f.Ty = cloneTy(f.Ty)
		o = append(o, f)
	}
	return o
}

// minor applies a backwards compatible change.
func (g *lgen) minor(fs []Field) []Field {
	o := cloneFields(fs)
	var enums []int
	for i, f := range o {
		if f.Ty.K == "enum" {
			enums = append(enums, i)
		}
	}
	if len(enums) > 0 && g.r.P(40) {
		i := enums[g.r.N(len(enums))]
		o[i].Ty.Enum = append(o[i].Ty.Enum, fmt.Sprintf("w%d", g.r.N(1000)+len(o[i].Ty.Enum)*1000))
		return o
	}
	if g.r.P(30) {
		for _, i := range g.r.Perm(len(o)) {
			if g.widenTy(o[i].Ty) {
				return o
			}
		}
	}
	f := g.field(0)
	f.Opt, f.Def = true, nil
	return append(o, f)
}

// widenTy makes a compatible change to a type or below it.
func (g *lgen) widenTy(t *Ty) bool {
	switch t.K {
	case "enum":
		t.Enum = append(t.Enum, fmt.Sprintf("x%d", g.r.N(1000)+len(t.Enum)*1000))
		return true
	case "range":
		t.Hi += 1 + g.r.N(5)
		return true
	case "list":
		return g.widenTy(t.Elem)
	case "struct":
		for _, i := range g.r.Perm(len(t.Fields)) {
			if g.widenTy(t.Fields[i].Ty) {
				return true
			}
		}
		// CUE does not take an optional field added to a nested struct for a
		// compatible change
	}
	return false
}

// major applies a breaking change; rename maps new field names to old ones.
func (g *lgen) major(fs []Field) ([]Field, map[string]string) {
	o := cloneFields(fs)
	ren := map[string]string{}
	switch k := g.r.N(6); {
	case k == 5 && g.breakDeep(o): // a change further down
	case k == 0 && len(o) > 1: // remove a field
		i := g.r.N(len(o))
		o = append(o[:i], o[i+1:]...)
		// a pure removal is breaking because schemas are closed
	case k == 1: // new required field
		o = append(o, g.req(0))
	case k == 2: // change a type
		i := g.r.N(len(o))
		old := o[i].Ty.K
		for {
			t := g.ty(1)
			if compatKind(t.K, old) {
				continue
			}
			o[i].Ty = t
			break
		}
		o[i].Opt, o[i].Def = false, nil
		if o[i].Ty.fillable() {
			o[i].Ty = &Ty{K: "string"}
			if old == "string" || old == "null" || old == "enum" {
				o[i].Ty = &Ty{K: "bool"}
			}
		}
	default: // rename
		i := g.r.N(len(o))
		n := g.name()
		ren[n] = o[i].Name
		o[i].Name = n
		if g.r.P(30) {
			o = append(o, g.req(0))
		}
	}
	return o, ren
}

// breakDeep makes a breaking change to the type of one of the fields, without
// changing its kind: somewhere below it, or by taking values away.
func (g *lgen) breakDeep(fs []Field) bool {
	for _, i := range g.r.Perm(len(fs)) {
		if g.breakTy(fs[i].Ty) {
			fs[i].Def = nil
			return true
		}
	}
	return false
}

func (g *lgen) breakTy(t *Ty) bool {
	switch t.K {
	case "enum":
		if len(t.Enum) < 3 { // a single value would be a constant, filled in when absent
			return false
		}
		i := g.r.N(len(t.Enum))
		t.Enum = append(append([]string(nil), t.Enum[:i]...), t.Enum[i+1:]...)
		return true
	case "range":
		if t.Hi < t.Lo+2 {
			return false
		}
		if g.r.P(50) {
			t.Hi--
		} else {
			t.Lo++
		}
		return true
	case "int":
		t.K, t.Lo, t.Hi = "range", 3, 9
		return true
	case "list":
		if t.Elem.K != "struct" || g.r.P(40) {
			old := t.Elem.K
			t.Elem = &Ty{K: []string{"string", "int", "bool"}[g.r.N(3)]}
			for compatKind(t.Elem.K, old) {
				t.Elem = &Ty{K: []string{"string", "int", "bool"}[g.r.N(3)]}
			}
			return true
		}
		return g.breakTy(t.Elem)
	case "struct":
		switch g.r.N(3) {
		case 0:
			t.Fields = append(t.Fields, Field{Name: g.name(), Ty: &Ty{K: "bool"}})
			return true
		case 1:
			if len(t.Fields) > 1 && !t.Open {
				i := g.r.N(len(t.Fields))
				t.Fields = append(t.Fields[:i:i], t.Fields[i+1:]...)
				return true
			}
		}
		return g.breakDeep(t.Fields)
	}
	return false
}

func compatKind(a, b string) bool {
	fam := func(k string) int {
		switch k {
		case "string", "null", "enum":
			return 1
		case "int", "range", "num":
			return 2
		case "bool":
			return 3
		case "list":
			return 4
		}
		return 5
	}
	return fam(a) == fam(b)
}

func (g *lgen) mkLens(from, to Sch, ren map[string]string, cfg genCfg) Lens {
	ln := Lens{From: from.V, To: to.V}
	back := map[string]string{}
	for k, v := range ren {
		back[v] = k
	}
	for _, tf := range to.Ty.Fields {
		src := from.Ty.field(tf.Name)
		if src == nil {
			if o, ok := ren[tf.Name]; ok {
				src = from.Ty.field(o)
			} else if o, ok := back[tf.Name]; ok {
				src = from.Ty.field(o)
			}
		}
		e := Ent{To: tf.Name}
		maybe := src != nil && (src.Opt || src.Def != nil || src.Ty.fillable())
		need := !tf.Opt && tf.Def == nil && !tf.Ty.fillable()
		fits := false
		remap := ""
		if src != nil {
			if jsonText(src.Ty) == jsonText(tf.Ty) {
				fits = true
			} else if src.Ty.K == "enum" && tf.Ty.K == "enum" {
				var extra []string
				for _, x := range src.Ty.Enum {
					if !tf.Ty.Valid(x) {
						extra = append(extra, x)
					}
				}
				if len(extra) == 0 {
					fits = true
				} else if len(extra) == 1 && !maybe {
					remap = extra[0]
				} else if cfg.FaultyLens {
					fits = true // values outside the target enum make the lens fail
				}
			}
		}
		switch {
		case remap != "":
			if cfg.FaultyLens && g.r.P(40) {
				e.Kind, e.From = "copy", src.Name
			} else {
				e.Kind, e.From, e.A, e.B = "remap", src.Name, remap, tf.Ty.Enum[g.r.N(len(tf.Ty.Enum))]
			}
		case fits && !maybe:
			e.Kind, e.From = "copy", src.Name
		case fits && need:
			e.Kind, e.From, e.Val = "orelse", src.Name, g.val(tf.Ty)
		case fits:
			e.Kind, e.From = "copyif", src.Name
		case need:
			e.Kind, e.Val = "const", g.val(tf.Ty)
		case g.r.P(30):
			e.Kind, e.Val = "const", g.val(tf.Ty)
		default:
			continue
		}
		if cfg.FaultyLens && g.r.P(12) {
			if g.r.P(50) {
				continue // field not mapped
			}
			e = Ent{To: tf.Name, Kind: "const", Val: wrongVal(tf.Ty)}
		}
		ln.Ents = append(ln.Ents, e)
	}
	if cfg.Lacunas && g.r.P(60) {
		types := []string{"Placeholder", "DroppedField", "LossyFieldMapping", "ChangedDefault"}
		for i, n := 0, 1+g.r.N(2); i < n; i++ {
			lc := Lac{Msg: fmt.Sprintf("gap %s %s", from.V, g.str()), Type: types[g.r.N(4)], Path: "p"}
			if g.r.P(40) {
				for _, f := range from.Ty.Fields {
					if f.Ty.K == "enum" && !f.Opt && f.Def == nil {
						lc.When, lc.Eq = f.Name, f.Ty.Enum[0]
					}
				}
			}
			if g.r.P(40) {
				for _, f := range from.Ty.Fields {
					if k := f.Ty.K; !f.Opt && f.Def == nil && (k == "string" || k == "int" || k == "bool" || k == "enum") {
						lc.Src = f.Name
					}
				}
			}
			ln.Lacs = append(ln.Lacs, lc)
		}
	}
	return ln
}

func wrongVal(t *Ty) any {
	switch t.K {
	case "string", "enum":
		return 17
	case "null":
		return true
	case "int", "range", "bool", "num":
		return "wrong"
	case "lit":
		return 17
	case "list":
		return "notalist"
	}
	return "notastruct"
}

func (g *lgen) val(t *Ty) any {
	switch t.K {
	case "string":
		return g.str()
	case "null":
		if g.r.P(40) {
			return nil
		}
		return g.str()
	case "int":
		if nonneg {
			return g.r.N(200)
		}
		return g.r.N(200) - 50
	case "range":
		return t.Lo + g.r.N(t.Hi-t.Lo+1)
	case "bool":
		return g.r.P(50)
	case "enum":
		return t.Enum[g.r.N(len(t.Enum))]
	case "num":
		if g.r.P(30) {
			return g.r.N(40)
		}
		return float64(g.r.N(90)) + 0.5
	case "lit":
		return t.Enum[0]
	case "map":
		o := map[string]any{}
		for i, n := 0, g.r.N(3); i < n; i++ {
			o[words[g.r.N(len(words))]] = g.val(t.Elem)
		}
		return o
	case "union":
		a := t.Alts[g.r.N(len(t.Alts))]
		o := g.val(a).(map[string]any)
		o["kind"] = a.Fields[0].Ty.Enum[0]
		return o
	case "list":
		o := []any{}
		for i, n := 0, g.r.N(3); i < n; i++ {
			o = append(o, g.val(t.Elem))
		}
		return o
	case "struct":
		o := map[string]any{}
		for _, f := range t.Fields {
			if (f.Opt || f.Def != nil || f.Ty.fillable()) && g.r.P(45) {
				continue
			}
			if f.Def != nil && g.r.P(30) {
				o[f.Name] = f.Def
				continue
			}
			o[f.Name] = g.val(f.Ty)
			if l, ok := norm(f.Def).([]any); ok && len(l) > 0 && f.Ty.Elem.K == "struct" && g.r.P(50) {
				// the default's elements, one of them with an optional field more
				if e, ok := l[g.r.N(len(l))].(map[string]any); ok {
					for _, ef := range f.Ty.Elem.Fields {
						if ef.Opt {
							e[ef.Name] = g.val(ef.Ty)
						}
					}
				}
				o[f.Name] = l
			}
		}
		if t.Open && g.r.P(50) {
			o["other"] = map[string]any{"deep": g.str()}
		}
		return o
	}
	panic(t.K)
}

// bad returns data derived from a valid instance of t that the model rejects for t.
func (g *lgen) bad(t *Ty) any {
	for try := 0; try < 20; try++ {
		m, _ := norm(g.val(t)).(map[string]any)
		if m == nil {
			return "scalar"
		}
		ks := sortedKeys(m)
		switch g.r.N(4) {
		case 0:
			m["extra"+fmt.Sprint(g.r.N(9))] = g.str()
		case 1:
			if len(ks) > 0 {
				delete(m, ks[g.r.N(len(ks))])
			}
		case 2:
			if len(ks) > 0 {
				k := ks[g.r.N(len(ks))]
				if f := t.field(k); f != nil {
					m[k] = norm(wrongVal(f.Ty))
				}
			}
		case 3:
			// nested
			for _, k := range ks {
				f := t.field(k)
				if f == nil {
					continue
				}
				if f.Ty.K == "struct" {
					m[k] = g.bad(f.Ty)
				} else if f.Ty.K == "union" {
					m[k].(map[string]any)["kind"] = "nosuch"
				} else if f.Ty.K == "map" {
					m[k] = map[string]any{"x": norm(wrongVal(f.Ty.Elem))}
				} else if f.Ty.K == "list" {
					m[k] = []any{norm(wrongVal(f.Ty.Elem))}
				} else if f.Ty.K == "enum" {
					m[k] = "not-a-member"
				} else if f.Ty.K == "range" {
					m[k] = f.Ty.Hi + 1
				}
			}
		}
		v := norm(m)
		if !t.Valid(v) {
			return v
		}
	}
	return map[string]any{"never": 1}
}

// T1 is the Go type bound to the last schema of typed lineages.
type T1 struct {
	Title string   `json:"title"`
	Count int32    `json:"count"`
	Tag   *string  `json:"tag,omitempty"`
	Mode  string   `json:"mode"`
	Opts  T1Opts   `json:"opts"`
	Items []string `json:"items"`
}

// T1Opts is the nested part of T1.
type T1Opts struct {
	X string `json:"x"`
	Y int32  `json:"y"`
}

// T1X is T1 with user code in it.
type T1X struct {
	Title string   `json:"title"`
	Count int32    `json:"count"`
	Tag   *string  `json:"tag,omitempty"`
	Mode  string   `json:"mode"`
	Opts  T1XOpts  `json:"opts"`
	Items []string `json:"items"`
}

// T1XOpts has an UnmarshalJSON method that fails when told to.
type T1XOpts T1Opts

func (g *lgen) t1() []Field {
	return []Field{
		{Name: "title", Ty: &Ty{K: "string"}},
		{Name: "count", Ty: &Ty{K: "int"}, Def: 1 + g.r.N(90)},
		{Name: "tag", Ty: &Ty{K: "string"}, Opt: true},
		{Name: "mode", Ty: &Ty{K: "string"}, Def: g.str()},
		{Name: "opts", Ty: &Ty{K: "struct", Fields: []Field{
			{Name: "x", Ty: &Ty{K: "string"}, Def: g.str()},
			{Name: "y", Ty: &Ty{K: "int"}, Def: 1 + g.r.N(9)},
		}}},
		g.items(),
	}
}

func (g *lgen) items() Field {
	f := Field{Name: "items", Ty: &Ty{K: "list", Elem: &Ty{K: "string"}}}
	if g.r.P(60) {
		f.Def = []any{g.str(), g.str()}
	}
	return f
}

func genLin(r *Rng, name string, cfg genCfg) *Lin {
	g := &lgen{r: r}
	l := &Lin{Name: name, Go: cfg.Go}
	g.odd = !cfg.Typed && !cfg.NoOdd && r.P(20)
	g.defs, g.pct, g.hyd = cfg.Defs || cfg.Hyd, cfg.Pct, cfg.Hyd
	if !cfg.Plain && !cfg.Long && r.P(35) || cfg.Hyd {
		g.rich = true
		cfg.MaxMin = 0
	}
	var join []Field
	if cfg.Join && !cfg.Typed && r.P(30) {
		f := g.req(1)
		f.Ty = &Ty{K: "string"}
		join = []Field{f}
		l.Join = join
		l.JoinOnly = r.P(50)
	}
	fs := []Field{g.req(0)}
	for i, n := 0, r.N(3); i < n; i++ {
		fs = append(fs, g.field(0))
	}
	if cfg.Defs {
		fs = append(fs, g.field(0))
	}
	nmaj := 1 + r.N(cfg.MaxMaj)
	long := cfg.Long && r.P(50)
	if cfg.Long {
		// numbers with two digits: versions are no strings, and no single digits
		cfg.MaxSch = 13
		if nmaj = 1 + r.N(2); !long {
			nmaj = 11 + r.N(2)
		}
	}
	if cfg.ForceMulti && nmaj < 2 {
		nmaj = 2
	}
	rens := []map[string]string{}
	mk := func(v V, fs []Field) {
		all := append(append([]Field{}, join...), fs...)
		l.Schs = append(l.Schs, Sch{V: v, Ty: &Ty{K: "struct", Fields: all}})
	}
	for maj := 0; maj < nmaj; maj++ {
		if maj > 0 {
			var ren map[string]string
			fs, ren = g.major(fs)
			rens = append(rens, ren)
		}
		mk(V{maj, 0}, fs)
		for min := 1; (min < 1+r.N(cfg.MaxMin+1) || long && maj == 0 && min < 11) && len(l.Schs) < cfg.MaxSch; min++ {
			fs = g.minor(fs)
			rens = append(rens, nil)
			mk(V{maj, min}, fs)
		}
		if len(l.Schs) >= cfg.MaxSch {
			break
		}
	}
	if cfg.Typed {
		last := l.Schs[len(l.Schs)-1].V
		rens = append(rens, nil)
		mk(V{last[0] + 1, 0}, g.t1())
		l.Typed = "T1"
	}
	for i := 0; i+1 < len(l.Schs); i++ {
		a, b := l.Schs[i], l.Schs[i+1]
		l.Lenses = append(l.Lenses, g.mkLens(b, a, rens[i], cfg))
		if a.V[0] != b.V[0] {
			l.Lenses = append(l.Lenses, g.mkLens(a, b, rens[i], cfg))
		}
	}
	sortLenses(l.Lenses)
	if cfg.Examples {
		for i := range l.Schs {
			if r.P(50) {
				ex := map[string]any{}
				for k, n := 0, 1+r.N(2); k < n; k++ {
					ex[fmt.Sprintf("ex%d", k)] = norm(g.val(l.Schs[i].Ty))
				}
				l.Schs[i].Examples = ex
			}
		}
	}
	return l
}

func sortLenses(ls []Lens) {
	sort.SliceStable(ls, func(i, j int) bool {
		if ls[i].To != ls[j].To {
			return ls[i].To.Less(ls[j].To)
		}
		return ls[i].From.Less(ls[j].From)
	})
}
