package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- randomness

// Rng is splitmix64: the only source of randomness of plan generation.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng {
	// (a state that is linear in the seed would make the streams of
	// neighbouring seeds the same one, shifted)
	r := &Rng{seed*0xd1342543de82ef95 + 0x1234567}
	return &Rng{r.U64() ^ seed<<32}
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) P(pct int) bool { return r.N(100) < pct }
func (r *Rng) Fork() *Rng     { return &Rng{r.U64()} }

func (r *Rng) Perm(n int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		o[i], o[j] = o[j], o[i]
	}
	return o
}

// --------------------------------------------------------------------- model

// Ty is the type of a field in the reference model.
//
//	string int num bool enum lit list struct map null(string or null) range(bounded int) union
type Ty struct {
	K      string   `json:"k"`
	Enum   []string `json:"enum,omitempty"`
	Elem   *Ty      `json:"elem,omitempty"`
	Fields []Field  `json:"fields,omitempty"`
	Lo     int      `json:"lo,omitempty"`
	Hi     int      `json:"hi,omitempty"`
	Open   bool     `json:"open,omitempty"` // struct: other fields are allowed
	Alts   []*Ty    `json:"alts,omitempty"` // union: structs told apart by a literal field "kind"
}

// Field of a struct. Def is the default (nil: none).
type Field struct {
	Name string `json:"name"`
	Ty   *Ty    `json:"ty"`
	Opt  bool   `json:"opt,omitempty"`
	Def  any    `json:"def,omitempty"`
}

// V is a syntactic version.
type V [2]int

func (v V) Less(o V) bool   { return v[0] < o[0] || v[0] == o[0] && v[1] < o[1] }
func (v V) String() string  { return fmt.Sprintf("%d.%d", v[0], v[1]) }
func (v V) CUE() string     { return fmt.Sprintf("[%d, %d]", v[0], v[1]) }

// Sch is one schema version.
type Sch struct {
	V        V                `json:"v"`
	Ty       *Ty              `json:"ty"`
	Examples map[string]any   `json:"examples,omitempty"`
}

// Ent maps one target field of a lens.
type Ent struct {
	To   string `json:"to"`
	Kind string `json:"kind"` // copy copyif const orelse remap
	From string `json:"from,omitempty"`
	Val  any    `json:"val,omitempty"`
	A    string `json:"a,omitempty"` // remap: A becomes B
	B    string `json:"b,omitempty"`
}

// Lac is a declared lacuna: emitted unless Cond names a field whose presence it needs.
type Lac struct {
	Msg  string `json:"msg"`
	Type string `json:"type"`
	When string `json:"when,omitempty"` // condition: input.<When> == Eq
	Eq   string `json:"eq,omitempty"`
	Path string `json:"path"`
	Src  string `json:"src,omitempty"` // field of the input the lacuna refers to
}

// Lens maps instances between adjacent versions.
type Lens struct {
	From V     `json:"from"`
	To   V     `json:"to"`
	Ents []Ent `json:"ents"`
	Lacs []Lac `json:"lacs,omitempty"`
}

// Lin is a lineage of the reference model.
type Lin struct {
	Name   string `json:"name"`
	Schs   []Sch  `json:"schs"`
	Lenses []Lens `json:"lenses"`
	Go     bool   `json:"go,omitempty"` // lenses are Go functions
	Typed  string `json:"typed,omitempty"` // name of the Go type the last schema is assignable to
	Join   []Field `json:"join,omitempty"`
	// JoinOnly: the schemas do not repeat the fields of the joinSchema
	JoinOnly bool `json:"joinonly,omitempty"`
	// Raw overrides the CUE text; used for lineages that must be rejected.
	Raw string `json:"raw,omitempty"`
	// Form is how the lineage is put to BindLineage: as a file of its own (""), at
	// a path within one, or as a unification, with or without thema.#Lineage.
	Form string `json:"form,omitempty"`
	Ref bool `json:"ref,omitempty"` // express enum types through shared definitions
}

// ---- rendering

func jsonText(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func (t *Ty) cue(ind string) string {
	switch t.K {
	case "string":
		return "string"
	case "int":
		return "int32"
	case "bool":
		return "bool"
	case "null":
		return "string | null"
	case "range":
		return fmt.Sprintf("int32 & >=%d & <=%d", t.Lo, t.Hi)
	case "enum":
		q := make([]string, len(t.Enum))
		for i, e := range t.Enum {
			q[i] = strconv.Quote(e)
		}
		return strings.Join(q, " | ")
	case "num":
		return "number"
	case "lit":
		return strconv.Quote(t.Enum[0])
	case "list":
		return "[...(" + t.Elem.cue(ind) + ")]"
	case "map":
		return "{[string]: " + t.Elem.cue(ind) + "}"
	case "union":
		var q []string
		for _, a := range t.Alts {
			q = append(q, a.cue(ind))
		}
		return strings.Join(q, " | ")
	case "struct":
		s := structCue(t.Fields, ind)
		if t.Open {
			s = s[:len(s)-1] + "\t...\n" + ind + "}"
		}
		return s
	}
	panic("kind " + t.K)
}

func structCue(fs []Field, ind string) string {
	var b strings.Builder
	b.WriteString("{\n")
	for _, f := range fs {
		b.WriteString(ind + "\t" + f.cue(ind+"\t") + "\n")
	}
	b.WriteString(ind + "}")
	return b.String()
}

func (f Field) cue(ind string) string {
	o := ""
	if f.Opt {
		o = "?"
	}
	ty := f.Ty.cue(ind)
	if f.Def != nil {
		switch f.Ty.K {
		case "enum":
			var q []string
			for _, e := range f.Ty.Enum {
				if e == f.Def {
					q = append(q, "*"+strconv.Quote(e))
				} else {
					q = append(q, strconv.Quote(e))
				}
			}
			ty = strings.Join(q, " | ")
		case "null":
			ty = "*" + jsonText(f.Def) + " | string | null"
		default:
			ty = "(" + ty + ") | *" + jsonText(f.Def)
		}
	}
	return label(f.Name) + o + ": " + ty
}

// label is a field name as CUE wants it.
func label(n string) string {
	for i, c := range n {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return strconv.Quote(n)
		}
	}
	return n
}

// sel selects a field of a lens's input.
func sel(n string) string {
	if l := label(n); l != n {
		return "input[" + l + "]"
	}
	return "input." + n
}

func (l *Lens) cue(ind string) string {
	return fmt.Sprintf("%s{\n%s\tto: %s\n%s\tfrom: %s\n%s\tinput: _\n%s\tresult: {\n", ind, ind, l.To.CUE(), ind, l.From.CUE(), ind, ind) +
		l.entCUE(ind, sel) + fmt.Sprintf("%s\t}\n", ind) + l.lacCUE(ind, sel) + fmt.Sprintf("%s},\n", ind)
}

func (l *Lens) entCUE(ind string, sel func(string) string) string {
	var b strings.Builder
	for _, e := range l.Ents {
		p := ind + "\t\t"
		switch e.Kind {
		case "copy":
			fmt.Fprintf(&b, "%s%s: %s\n", p, label(e.To), sel(e.From))
		case "copyif":
			fmt.Fprintf(&b, "%sif %s != _|_ {%s: %s}\n", p, sel(e.From), label(e.To), sel(e.From))
		case "const":
			fmt.Fprintf(&b, "%s%s: %s\n", p, label(e.To), jsonText(e.Val))
		case "orelse":
			fmt.Fprintf(&b, "%sif %s != _|_ {%s: %s}\n", p, sel(e.From), label(e.To), sel(e.From))
			fmt.Fprintf(&b, "%sif %s == _|_ {%s: %s}\n", p, sel(e.From), label(e.To), jsonText(e.Val))
		case "remap":
			fmt.Fprintf(&b, "%sif %s == %q {%s: %q}\n", p, sel(e.From), e.A, label(e.To), e.B)
			fmt.Fprintf(&b, "%sif %s != %q {%s: %s}\n", p, sel(e.From), e.A, label(e.To), sel(e.From))
		default:
			panic("ent " + e.Kind)
		}
	}
	return b.String()
}

func (l *Lens) lacCUE(ind string, sel func(string) string) string {
	var b strings.Builder
	if len(l.Lacs) > 0 {
		fmt.Fprintf(&b, "%s\tlacunas: [\n", ind)
		for _, lc := range l.Lacs {
			cond := ""
			if lc.When != "" {
				cond = fmt.Sprintf("condition: %s == %q, ", sel(lc.When), lc.Eq)
			}
			if lc.Src != "" {
				cond += fmt.Sprintf("sourceFields: [{path: %q, value: %s}], ", lc.Src, sel(lc.Src))
			}
			fmt.Fprintf(&b, "%s\t\t{%stargetFields: [{path: %q, value: 1}], message: %q, type: {name: %q, id: %d}},\n", ind, cond, lc.Path, lc.Msg, lc.Type, lacID(lc.Type))
		}
		fmt.Fprintf(&b, "%s\t]\n", ind)
	}
	return b.String()
}

func lacID(n string) int {
	switch n {
	case "Placeholder":
		return 1
	case "DroppedField":
		return 2
	case "LossyFieldMapping":
		return 3
	case "ChangedDefault":
		return 4
	}
	panic(n)
}

// CUE renders the lineage as CUE source (without package clause or imports).
func (l *Lin) CUE() string {
	if l.Raw != "" {
		return l.Raw
	}
	var b strings.Builder
	fmt.Fprintf(&b, "name: %q\n", l.Name)
	if len(l.Join) > 0 {
		b.WriteString("joinSchema: {\n")
		for _, f := range l.Join {
			b.WriteString("\t" + f.cue("\t") + "\n")
		}
		b.WriteString("}\n")
	}
	b.WriteString("schemas: [\n")
	for _, s := range l.Schs {
		ty := s.Ty
		if l.JoinOnly {
			ty = &Ty{K: "struct", Open: s.Ty.Open}
			for _, f := range s.Ty.Fields {
				if !l.joins(f.Name) {
					ty.Fields = append(ty.Fields, f)
				}
			}
		}
		fmt.Fprintf(&b, "\t{\n\t\tversion: %s\n\t\tschema: %s\n", s.V.CUE(), ty.cue("\t\t"))
		if len(s.Examples) > 0 {
			b.WriteString("\t\texamples: {\n")
			for _, k := range sortedKeys(s.Examples) {
				fmt.Fprintf(&b, "\t\t\t%s: %s\n", k, jsonText(s.Examples[k]))
			}
			b.WriteString("\t\t}\n")
		}
		b.WriteString("\t},\n")
	}
	b.WriteString("]\n")
	if !l.Go && len(l.Lenses) > 0 {
		b.WriteString("lenses: [\n")
		for i := range l.Lenses {
			b.WriteString(l.Lenses[i].cue("\t"))
		}
		b.WriteString("]\n")
	}
	return b.String()
}

func (l *Lin) joins(name string) bool {
	for _, f := range l.Join {
		if f.Name == name {
			return true
		}
	}
	return false
}

// parts splits the source before its schemas, the first of its top-level fields
// that can be unified with the others.
func (l *Lin) parts() (string, string) {
	s := l.CUE()
	i := strings.Index(s, "\nschemas: [") + 1
	return s[:i], s[i:]
}

func sortedKeys[T any](m map[string]T) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ---- semantics

func norm(v any) any {
	// round trip so that numbers are float64 and maps are map[string]any
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	var o any
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(&o); err != nil {
		panic(err)
	}
	return o
}

func isInt(v any) (int64, bool) {
	switch n := v.(type) {
	case json.Number:
		i, err := strconv.ParseInt(n.String(), 10, 64)
		return i, err == nil
	case int:
		return int64(n), true
	case int64:
		return n, true
	case float64:
		return int64(n), n == float64(int64(n))
	}
	return 0, false
}

// Valid reports whether v (JSON-like) is a valid instance of t.
func (t *Ty) Valid(v any) bool {
	switch t.K {
	case "string":
		_, ok := v.(string)
		return ok
	case "int":
		i, ok := isInt(v)
		return ok && i >= -2147483648 && i <= 2147483647
	case "range":
		i, ok := isInt(v)
		return ok && i >= int64(t.Lo) && i <= int64(t.Hi)
	case "bool":
		_, ok := v.(bool)
		return ok
	case "num":
		switch v.(type) {
		case json.Number, int, int64, float64:
			return true
		}
		return false
	case "lit":
		return v == t.Enum[0]
	case "map":
		m, ok := v.(map[string]any)
		if !ok {
			return false
		}
		for _, x := range m {
			if !t.Elem.Valid(x) {
				return false
			}
		}
		return true
	case "union":
		return t.alt(v) != nil && t.alt(v).Valid(v)
	case "null":
		if v == nil {
			return true
		}
		_, ok := v.(string)
		return ok
	case "enum":
		s, ok := v.(string)
		if !ok {
			return false
		}
		for _, e := range t.Enum {
			if e == s {
				return true
			}
		}
		return false
	case "list":
		l, ok := v.([]any)
		if !ok {
			return false
		}
		for _, x := range l {
			if !t.Elem.Valid(x) {
				return false
			}
		}
		return true
	case "struct":
		m, ok := v.(map[string]any)
		if !ok {
			return false
		}
		for _, f := range t.Fields {
			x, has := m[f.Name]
			if !has {
				if f.Opt || f.Def != nil || f.Ty.fillable() {
					continue
				}
				return false
			}
			if !f.Ty.Valid(x) {
				return false
			}
		}
		for k := range m {
			if t.field(k) == nil && !t.Open {
				return false
			}
		}
		return true
	}
	panic(t.K)
}

// alt returns the alternative of a union that v claims to be.
func (t *Ty) alt(v any) *Ty {
	m, ok := v.(map[string]any)
	if !ok {
		return nil
	}
	for _, a := range t.Alts {
		if a.field("kind").Ty.Valid(m["kind"]) {
			return a
		}
	}
	return nil
}

func (t *Ty) field(n string) *Field {
	for i := range t.Fields {
		if t.Fields[i].Name == n {
			return &t.Fields[i]
		}
	}
	return nil
}

// fillable: a value of this type may be absent because the schema determines it.
func (t *Ty) fillable() bool {
	switch t.K {
	case "list", "map", "lit":
		return true
	case "struct":
		for _, f := range t.Fields {
			if !f.Opt && f.Def == nil && !f.Ty.fillable() {
				return false
			}
		}
		return true
	}
	return false
}

// Fill returns v with every schema-specified default included.
func (t *Ty) Fill(v any) any {
	switch t.K {
	case "list":
		l := v.([]any)
		o := make([]any, len(l))
		for i := range l {
			o[i] = t.Elem.Fill(l[i])
		}
		return o
	case "struct":
		m := v.(map[string]any)
		o := map[string]any{}
		for _, f := range t.Fields {
			x, has := m[f.Name]
			switch {
			case has:
				o[f.Name] = f.Ty.Fill(x)
			case f.Opt:
			case f.Def != nil:
				o[f.Name] = norm(f.Def)
			default:
				o[f.Name] = f.Ty.Fill(f.Ty.zero())
			}
		}
		for k, x := range m {
			if t.field(k) == nil {
				o[k] = x
			}
		}
		return o
	case "union":
		return t.alt(v).Fill(v)
	}
	return v
}

func (t *Ty) zero() any {
	switch t.K {
	case "list":
		return []any{}
	case "lit":
		return t.Enum[0]
	}
	return map[string]any{}
}

// Trim returns v with values equal to schema-specified defaults removed.
func (t *Ty) Trim(v any) any {
	switch t.K {
	case "list":
		l := v.([]any)
		o := make([]any, len(l))
		for i := range l {
			e := t.Elem
			if e.K == "union" {
				e = e.alt(l[i])
			}
			o[i] = e.Trim(l[i])
		}
		return o
	case "struct":
		m := v.(map[string]any)
		o := map[string]any{}
		for _, f := range t.Fields {
			x, has := m[f.Name]
			if !has {
				continue
			}
			// (defaults within the alternatives of a union are only looked for in lists)
			if f.Def != nil && jsonText(x) == jsonText(norm(f.Def)) {
				continue
			}
			o[f.Name] = f.Ty.Trim(x)
		}
		for k, x := range m {
			if t.field(k) == nil {
				o[k] = x
			}
		}
		return o
	}
	return v
}

// Idx returns the index of version v, or -1.
func (l *Lin) Idx(v V) int {
	for i := range l.Schs {
		if l.Schs[i].V == v {
			return i
		}
	}
	return -1
}

// Any returns the index of the oldest schema v is valid against, or -1.
func (l *Lin) Any(v any) int {
	for i := range l.Schs {
		if l.Schs[i].Ty.Valid(v) {
			return i
		}
	}
	return -1
}

func (l *Lin) Lens(from, to V) *Lens {
	for i := range l.Lenses {
		if l.Lenses[i].From == from && l.Lenses[i].To == to {
			return &l.Lenses[i]
		}
	}
	return nil
}

// Apply runs a lens on input. ok is false when the lens cannot produce a value.
func (ln *Lens) Apply(in map[string]any) (map[string]any, bool) {
	o := map[string]any{}
	for _, e := range ln.Ents {
		x, has := in[e.From]
		switch e.Kind {
		case "copy":
			if !has {
				return nil, false
			}
			o[e.To] = x
		case "copyif":
			if has {
				o[e.To] = x
			}
		case "const":
			o[e.To] = norm(e.Val)
		case "orelse":
			if has {
				o[e.To] = x
			} else {
				o[e.To] = norm(e.Val)
			}
		case "remap":
			if !has {
				return nil, false
			}
			if x == e.A {
				x = e.B
			}
			o[e.To] = x
		}
	}
	return o, true
}

// StepLac is what a translation step emits.
type StepLac struct {
	To  V
	Msg string
	Typ int
	Refs string
}

// TrRes is the model's prediction for a translation.
type TrRes struct {
	OK    bool
	Val   any
	Steps []V // explicit lenses executed, in order (their To versions)
	Lacs  []StepLac
	Fail  V // step that fails, when !OK
}

// Translate is the reference: the fold of the adjacent lenses between from and to.
func (l *Lin) Translate(from, to V, data any) TrRes {
	r := TrRes{}
	i, j := l.Idx(from), l.Idx(to)
	cur := data
	if i == j {
		return TrRes{OK: true, Val: cur}
	}
	d := 1
	if j < i {
		d = -1
	}
	for k := i; k != j; k += d {
		f, t := l.Schs[k], l.Schs[k+d]
		if d > 0 && f.V[0] == t.V[0] {
			if l.Go {
				continue // same data, newer schema
			}
			cur = t.Ty.Fill(cur)
			continue
		}
		ln := l.Lens(f.V, t.V)
		if ln == nil {
			return TrRes{Fail: t.V}
		}
		in := cur.(map[string]any)
		out, ok := ln.Apply(in)
		if !ok || !t.Ty.Valid(out) {
			r.Fail = t.V
			return r
		}
		for _, lc := range ln.Lacs {
			if lc.When != "" && in[lc.When] != lc.Eq {
				continue
			}
			refs := "p=1"
			if lc.Src != "" {
				refs = lc.Src + "=" + jsonText(in[lc.Src]) + ">" + refs
			}
			r.Lacs = append(r.Lacs, StepLac{t.V, lc.Msg, lacID(lc.Type), refs})
		}
		r.Steps = append(r.Steps, t.V)
		if l.Go {
			cur = out
		} else {
			cur = t.Ty.Fill(out)
		}
	}
	r.OK, r.Val = true, cur
	return r
}

// Mux is the reference for version multiplexing onto version to: the version
// the input is taken to have, or -1.
func (l *Lin) Mux(to V, v any) int {
	j := l.Idx(to)
	if l.Schs[j].Ty.Valid(v) {
		return j
	}
	for i := len(l.Schs) - 1; i >= 0; i-- {
		if i != j && l.Schs[i].Ty.Valid(v) {
			return i
		}
	}
	return -1
}

func sameJSON(a, b any) bool { return canon(a) == canon(b) }

// canon is a canonical rendering: sorted keys, numbers in shortest form.
func canon(v any) string { return jsonText(norm(v)) }
