package main

import (
	"fmt"
	"strings"
)

func cloneLin(l *Lin) *Lin {
	c := *l
	c.Schs = nil
	for _, s := range l.Schs {
		s.Ty = cloneTy(s.Ty)
		c.Schs = append(c.Schs, s)
	}
	c.Lenses = nil
	for _, ln := range l.Lenses {
		ln.Ents = append([]Ent(nil), ln.Ents...)
		c.Lenses = append(c.Lenses, ln)
	}
	return &c
}

func (l *Lin) goLensSpec() []GoLens {
	var o []GoLens
	for _, x := range l.Lenses {
		o = append(o, GoLens{From: x.From, To: x.To})
	}
	return o
}

var badKinds = []string{
	"noname", "noschemas", "nameopen", "nothing", "swapped", "minorbreaks", "minordrops", "minordrops", "majorfits", "lensorder", "lensorder2",
	"example", "emptyschemas", "unknownfield", "notstruct", "joinconflict", "lensnoto", "versionneg",
	"conflict", "dup", "gapminor", "gapmajor", "gapboth", "first", "exampleextra", "examplejoin",
	"golensmissing", "golensmissingfwd", "golensextra", "golensextras", "golensself", "golensdup", "golensnil", "golensskip", "golensunknown",
}

// genBad derives from valid lineage l one that must be rejected, violating
// exactly one rule. Returns nil when kind does not apply to l.
func genBad(r *Rng, l *Lin, kind string) *Bad {
	g := &lgen{r: r, n: 500}
	b := &Bad{Kind: kind, Class: "invalidlineage"}
	c := cloneLin(l)
	c.Go = true // no lenses in the text unless the kind needs them
	n := len(c.Schs)
	switch kind {
	case "noname":
		b.Class = "notalineage"
		b.Src = strings.Replace(c.CUE(), "name: ", "nam: ", 1)
		b.Src = strings.Replace(b.Src, "nam: ", "_nam: ", 1)
	case "noschemas":
		b.Class = "notalineage"
		b.Src = fmt.Sprintf("name: %q\n", c.Name)
	case "nameopen":
		b.Src = strings.Replace(c.CUE(), fmt.Sprintf("name: %q", c.Name), "name: string", 1)
	case "nothing":
		b.Class = "notexist"
		b.Src = "lin: {" + c.CUE() + "}\n"
		b.Path = "nosuch"
	case "swapped":
		if n < 2 {
			return nil
		}
		i := r.N(n - 1)
		c.Schs[i], c.Schs[i+1] = c.Schs[i+1], c.Schs[i]
		b.Class = "order-or-invalid"
		b.Src = c.CUE()
	case "minorbreaks":
		// a schema that breaks its predecessor, declared as a minor version
		i := r.N(n)
		s := c.Schs[i]
		fs := cloneFields(s.Ty.Fields)
		if r.P(40) || !g.breakDeep(fs) {
			fs = append(fs, g.req(0))
		}
		c.Schs = append(append([]Sch{}, c.Schs[:i+1]...), Sch{V: V{s.V[0], s.V[1] + 1}, Ty: &Ty{K: "struct", Fields: fs}})
		b.Src = c.CUE()
	case "minordrops":
		// a schema that takes back what its predecessor, a minor version, added
		i, j := -1, -1
		for k := 1; k < n; k++ {
			for x, f := range c.Schs[k].Ty.Fields {
				if c.Schs[k].V[1] > 0 && f.Opt && !c.Schs[k].Ty.Open && c.Schs[k-1].Ty.field(f.Name) == nil && (i < 0 || r.P(50)) {
					i, j = k, x
				}
			}
		}
		if i < 0 {
			return nil
		}
		s := c.Schs[i]
		fs := cloneFields(s.Ty.Fields)
		fs = append(fs[:j], fs[j+1:]...)
		c.Schs = append(append([]Sch{}, c.Schs[:i+1]...), Sch{V: V{s.V[0], s.V[1] + 1}, Ty: &Ty{K: "struct", Fields: fs}})
		b.Src = c.CUE()
	case "majorfits":
		i := r.N(n)
		s := c.Schs[i]
		if hasRich(s.Ty) {
			return nil // CUE does not recognise every compatible change of these
		}
		fs := g.minor(s.Ty.Fields)
		c.Schs = append(append([]Sch{}, c.Schs[:i+1]...), Sch{V: V{s.V[0] + 1, 0}, Ty: &Ty{K: "struct", Fields: fs}})
		b.Src = c.CUE()
	case "lensorder", "lensorder2":
		c.Go = false
		if len(c.Lenses) < 2 {
			return nil
		}
		b.Class = "lensesorder"
		i := -1
		for try := 0; try < 10 && i < 0; try++ {
			k := r.N(len(c.Lenses) - 1)
			sameTo := c.Lenses[k].To == c.Lenses[k+1].To
			if sameTo == (kind == "lensorder2") {
				i = k
			}
		}
		if i < 0 {
			return nil
		}
		c.Lenses[i], c.Lenses[i+1] = c.Lenses[i+1], c.Lenses[i]
		b.Src = c.CUE()
	case "example":
		i := r.N(n)
		ty := c.Schs[i].Ty
		f := ty.Fields[r.N(len(ty.Fields))]
		d := norm(g.val(ty)).(map[string]any)
		d[f.Name] = norm(wrongVal(f.Ty))
		c.Schs[i].Examples = map[string]any{"broken": d}
		b.Src = c.CUE()
	case "emptyschemas":
		b.Src = fmt.Sprintf("name: %q\nschemas: []\n", c.Name)
	case "unknownfield":
		b.Src = c.CUE() + "\nbogus: 1\n"
	case "notstruct":
		b.Class = "any"
		b.Src = "lin: [1, 2]\n"
		b.Path = "lin"
	case "joinconflict":
		if len(c.Join) > 0 {
			return nil
		}
		f := c.Schs[0].Ty.Fields[0]
		w := "string"
		if compatKind(f.Ty.K, "string") {
			w = "bool"
		}
		b.Class = "any"
		b.Src = fmt.Sprintf("joinSchema: {\n\t%s: %s\n\t...\n}\n", label(f.Name), w) + c.CUE()
	case "lensnoto":
		c.Go = false
		if len(c.Lenses) == 0 {
			return nil
		}
		b.Src = strings.Replace(c.CUE(), "\t\tto: ", "\t\tnotto: ", 1)
	case "versionneg":
		b.Src = strings.Replace(c.CUE(), "version: [0, 0]", "version: [0, -1]", 1)
	case "conflict":
		b.Src = c.CUE() + fmt.Sprintf("\nname: %q\n", c.Name+"x")
	case "dup":
		i := r.N(n)
		c.Schs = append(append(append([]Sch{}, c.Schs[:i+1]...), c.Schs[i]), c.Schs[i+1:]...)
		b.Class = "order-or-invalid"
		b.Src = c.CUE()
	case "gapminor":
		s := c.Schs[n-1]
		c.Schs = append(c.Schs, Sch{V: V{s.V[0], s.V[1] + 2}, Ty: &Ty{K: "struct", Fields: g.minor(s.Ty.Fields)}})
		b.Class = "order-or-invalid"
		b.Src = c.CUE()
	case "gapmajor":
		s := c.Schs[n-1]
		c.Schs = append(c.Schs, Sch{V: V{s.V[0] + 2, 0}, Ty: &Ty{K: "struct", Fields: append(cloneFields(s.Ty.Fields), g.req(0))}})
		b.Class = "order-or-invalid"
		b.Src = c.CUE()
	case "gapboth": // a new major version that does not start with .0
		i := r.N(n)
		s := c.Schs[i]
		fs := append(cloneFields(s.Ty.Fields), g.req(0))
		if r.P(50) {
			fs = g.minor(s.Ty.Fields)
		}
		c.Schs = append(append([]Sch{}, c.Schs[:i+1]...), Sch{V: V{s.V[0] + 1, 1 + r.N(2)}, Ty: &Ty{K: "struct", Fields: fs}})
		b.Class = "order-or-invalid"
		b.Src = c.CUE()
	case "exampleextra": // schemas are closed
		i := r.N(n)
		d := norm(g.val(c.Schs[i].Ty)).(map[string]any)
		d["surplus"] = 1
		c.Schs[i].Examples = map[string]any{"broken": d}
		b.Src = c.CUE()
	case "examplejoin":
		if len(c.Join) == 0 {
			return nil
		}
		i := r.N(n)
		d := norm(g.val(c.Schs[i].Ty)).(map[string]any)
		d[c.Join[0].Name] = norm(wrongVal(c.Join[0].Ty))
		c.JoinOnly = true
		c.Schs[i].Examples = map[string]any{"broken": d}
		b.Src = c.CUE()
	case "first":
		v := V{0, 1}
		if r.P(50) {
			v = V{1, 0}
		}
		c.Schs = c.Schs[:1]
		c.Schs[0].V = v
		b.Class = "order-or-invalid"
		b.Src = c.CUE()

	case "golensmissing", "golensmissingfwd":
		b.Class = "missinglenses"
		ls := c.goLensSpec()
		var cand []int
		for i, x := range ls {
			if (kind == "golensmissingfwd") == (x.From.Less(x.To)) {
				cand = append(cand, i)
			}
		}
		if len(cand) == 0 || len(ls) < 2 {
			return nil
		}
		i := cand[r.N(len(cand))]
		for k, x := range ls {
			if k != i && (len(b.GoL) == 0 || r.P(60)) {
				b.GoL = append(b.GoL, x)
			}
		}
		b.Src = c.CUE()
	case "golensextras": // several at once
		if n < 2 {
			return nil
		}
		b.Class = "erroneouslenses"
		b.GoL = c.goLensSpec()
		for k := 2 + r.N(3); k > 0; k-- {
			v, z := c.Schs[r.N(n)].V, V{c.Schs[n-1].V[0] + 1 + k, k}
			switch {
			case k == 2:
				b.GoL = append(b.GoL, GoLens{From: v, To: v})
			case r.P(50):
				b.GoL = append(b.GoL, GoLens{From: z, To: v})
			default:
				b.GoL = append(b.GoL, GoLens{From: v, To: z})
			}
		}
		b.Src = c.CUE()
	case "golensextra": // upgrade within a major version is implicit
		ls := c.goLensSpec()
		for i := 0; i+1 < n; i++ {
			a, z := c.Schs[i].V, c.Schs[i+1].V
			if a[0] == z[0] {
				b.Class = "erroneouslenses"
				b.GoL = append(ls, GoLens{From: a, To: z})
				b.Src = c.CUE()
				return b
			}
		}
		return nil
	case "golensself":
		if n < 2 {
			return nil
		}
		v := c.Schs[r.N(n)].V
		b.Class = "erroneouslenses"
		b.GoL = append(c.goLensSpec(), GoLens{From: v, To: v})
		b.Src = c.CUE()
	case "golensskip":
		if n < 3 {
			return nil
		}
		i := r.N(n - 2)
		b.Class = "erroneouslenses"
		x := GoLens{From: c.Schs[i+2].V, To: c.Schs[i].V}
		if r.P(50) {
			x = GoLens{From: c.Schs[i].V, To: c.Schs[i+2].V}
		}
		b.GoL = append(c.goLensSpec(), x)
		b.Src = c.CUE()
	case "golensunknown":
		if n < 2 {
			return nil
		}
		b.Class = "erroneouslenses"
		v := c.Schs[n-1].V
		x := GoLens{From: V{v[0] + 1, 0}, To: v}
		if r.P(50) {
			x = GoLens{From: v, To: V{v[0] + 1, 0}}
		}
		b.GoL = append(c.goLensSpec(), x)
		b.Src = c.CUE()
	case "golensdup":
		if len(c.Lenses) == 0 {
			return nil
		}
		ls := c.goLensSpec()
		b.Class = "any"
		b.GoL = append(ls, ls[r.N(len(ls))])
		b.Src = c.CUE()
	case "golensnil":
		if len(c.Lenses) == 0 {
			return nil
		}
		ls := c.goLensSpec()
		ls[r.N(len(ls))].Nil = true
		b.Class = "any"
		b.GoL = ls
		b.Src = c.CUE()
	default:
		panic(kind)
	}
	return b
}

// hasRich reports whether ty contains a type for which CUE's subsumption is
// incomplete (it then reports a compatible schema as incompatible).
func hasRich(ty *Ty) bool {
	if ty == nil {
		return false
	}
	if ty.K == "map" || ty.K == "union" || ty.Open {
		return true
	}
	for _, f := range ty.Fields {
		if hasRich(f.Ty) {
			return true
		}
	}
	return hasRich(ty.Elem)
}
