package main

import (
	"fmt"
	"reflect"
)

// Go types for schemas of the model, made by reflection: types the schema is
// assignable to, and types that differ from such a type in one place.

var (
	tString = reflect.TypeOf("")
	tBool   = reflect.TypeOf(true)
	tInt    = reflect.TypeOf(int(0))
	tInt8   = reflect.TypeOf(int8(0))
	tInt16  = reflect.TypeOf(int16(0))
	tInt32  = reflect.TypeOf(int32(0))
	tInt64  = reflect.TypeOf(int64(0))
	tUint16 = reflect.TypeOf(uint16(0)) // (a []uint8 are bytes)
	tUint32 = reflect.TypeOf(uint32(0))
	tFloat  = reflect.TypeOf(float64(0))
	tAny    = reflect.TypeOf((*any)(nil)).Elem()
)

type gotypes struct {
	r    *Rng
	n    int    // nodes seen
	at   int    // the node that does not fit (-1: none)
	what string // how it does not
}

func (g *gotypes) pick(ts ...reflect.Type) reflect.Type { return ts[g.r.N(len(ts))] }

func (g *gotypes) wrong(t *Ty) reflect.Type {
	var o reflect.Type
	switch t.K {
	case "string", "enum", "lit":
		o = g.pick(tInt64, tBool, tFloat, reflect.SliceOf(tString))
	case "null":
		o = g.pick(tString, tInt64, tBool)
	case "int":
		o = g.pick(tInt8, tInt16, tUint32, tUint16, tString, tFloat, tBool, reflect.SliceOf(tInt32))
	case "range":
		o = g.pick(tString, tBool, tFloat, reflect.SliceOf(tInt32))
	case "bool":
		o = g.pick(tString, tInt32, reflect.SliceOf(tBool))
	case "num":
		o = g.pick(tString, tInt64, tBool, reflect.SliceOf(tFloat))
	case "list":
		e := g.of(t.Elem)
		o = g.pick(reflect.ArrayOf(2, e), tString, reflect.MapOf(tString, e))
	case "map":
		o = g.pick(tString, reflect.SliceOf(tString))
	case "union":
		o = g.pick(tString, g.strct(t.Alts[0], -1, false), reflect.SliceOf(tAny))
	case "struct":
		switch g.r.N(5) {
		case 0:
			o = g.strct(t, -1, true)
			g.what = "struct with a field more"
			return o
		case 1:
			g.what = "struct with a field less"
			return g.strct(t, g.r.N(len(t.Fields)), false)
		case 2:
			g.what = "struct with a misnamed field"
			return g.strct(t, g.r.N(len(t.Fields)), true)
		default:
			o = g.pick(tString, tInt64, reflect.SliceOf(g.of(t)))
		}
	}
	g.what = fmt.Sprintf("%s for %s", o, t.K)
	return o
}

// strct makes a struct for t without its drop-th field and maybe another field.
func (g *gotypes) strct(t *Ty, drop int, more bool) reflect.Type {
	var fs []reflect.StructField
	for i, f := range t.Fields {
		if i == drop {
			continue
		}
		tag := f.Name
		if g.r.P(40) {
			tag += ",omitempty"
		}
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: g.of(f.Ty), Tag: reflect.StructTag(fmt.Sprintf(`json:"%s"`, tag))})
	}
	if more {
		i := g.r.N(len(fs) + 1)
		fs = append(fs[:i:i], append([]reflect.StructField{{Name: "Fextra", Type: g.pick(tString, tInt64), Tag: `json:"nosuchfield,omitempty"`}}, fs[i:]...)...)
	}
	return reflect.StructOf(fs)
}

func (g *gotypes) of(t *Ty) reflect.Type {
	n := g.n
	g.n++
	if n == g.at {
		g.at = -2
		return g.wrong(t)
	}
	if n > 0 && g.at < 0 && g.r.P(8) {
		return tAny
	}
	ptr := func(t reflect.Type) reflect.Type {
		if g.r.P(25) {
			return reflect.PointerTo(t)
		}
		return t
	}
	switch t.K {
	case "string", "enum", "lit":
		return ptr(tString)
	case "null":
		return reflect.PointerTo(tString)
	case "int":
		return ptr(g.pick(tInt, tInt32, tInt64))
	case "range":
		return ptr(g.pick(tInt, tInt8, tInt16, tInt32, tInt64, tUint16, tUint32))
	case "bool":
		return ptr(tBool)
	case "num":
		return ptr(tFloat)
	case "list":
		return reflect.SliceOf(g.of(t.Elem))
	case "map":
		return reflect.MapOf(tString, g.of(t.Elem))
	case "union":
		return tAny
	case "struct":
		s := g.strct(t, -1, false)
		if n > 0 {
			return ptr(s)
		}
		return s
	}
	panic(t.K)
}

// nodes counts the places of t where a Go type can differ.
func (t *Ty) nodes() int {
	n := 1
	switch t.K {
	case "list", "map":
		n += t.Elem.nodes()
	case "struct":
		for _, f := range t.Fields {
			n += f.Ty.nodes()
		}
	}
	return n
}

// goType makes the Go value of an assign operation, and says whether the
// schema is assignable to it.
func goType(t *Ty, seed uint64, x string) (v any, ok bool, what string) {
	g := &gotypes{r: &Rng{seed}, at: -1}
	switch x {
	case "bad":
		g.at = g.r.N(t.nodes())
	case "ptrptr":
		s := reflect.PointerTo(g.of(t))
		return reflect.New(s).Interface(), false, "pointer to pointer"
	}
	s := g.of(t)
	ok = g.at == -1
	if g.r.P(20) {
		return reflect.Zero(s).Interface(), ok, g.what
	}
	return reflect.New(s).Interface(), ok, g.what
}
