package main

import (
	"fmt"
	"strings"
)

// decorated writes a lineage as authors do: with definitions referring to each
// other, documentation, attributes, unusual names and constraints. It is used
// where results are compared between executions, so no model of it is needed.
func decorated(r *Rng, name string) *Lin {
	l := &Lin{Name: name}
	var b strings.Builder
	fmt.Fprintf(&b, "import \"strings\"\n\nname: %q\nschemas: [\n", name)
	n := 1 + r.N(2)
	first := ""
	for i := 0; i < n; i++ {
		v := V{i, 0}
		body, f := decoratedSchema(r, i)
		if i == 0 {
			first = f
		}
		l.Schs = append(l.Schs, Sch{V: v, Ty: &Ty{K: "struct", Fields: []Field{{Name: first, Ty: &Ty{K: "string"}}}}})
		fmt.Fprintf(&b, "\t{\n\t\tversion: %s\n\t\tschema: {\n%s\t\t}\n\t},\n", v.CUE(), body)
	}
	b.WriteString("]\n")
	if n > 1 {
		b.WriteString("lenses: [\n")
		b.WriteString("\t{to: [0, 0], from: [1, 0], input: _, result: {}, lacunas: []},\n")
		b.WriteString("\t{to: [1, 0], from: [0, 0], input: _, result: {}, lacunas: []},\n")
		b.WriteString("]\n")
	}
	l.Raw = b.String()
	if !strings.Contains(l.Raw, "strings.") {
		l.Raw = strings.TrimPrefix(l.Raw, "import \"strings\"\n\n")
	}
	return l
}

var collide = [][]string{
	{"a-b", "a b", "a_b", "aB"}, {"foo", "Foo", "FOO"}, {"1", "2", "10"}, {"+", "-", "*"}, {"x.y", "x/y", "x:y"}, {"", "none"},
	{"asc", "desc"}, {"type", "func", "range"}, {"zulu", "alpha", "Mike"}, {"a", "A", "a1", "A1"},
}

func decoratedSchema(r *Rng, maj int) (string, string) {
	var b strings.Builder
	doc := func(ind, what string) {
		if r.P(50) {
			fmt.Fprintf(&b, "%s// %s is %s.\n", ind, what, words[r.N(len(words))])
			if r.P(30) {
				fmt.Fprintf(&b, "%s// More about it; see %s.\n", ind, words[r.N(len(words))])
			}
		}
	}
	ind := "\t\t\t"
	var enums, structs []string
	scalar := func() string {
		switch r.N(13) {
		case 0:
			return "string & strings.MinRunes(1)"
		case 1:
			return "int64 & >=0 & <10"
		case 2:
			return "uint8 | *3"
		case 3:
			return "bool | *true"
		case 4:
			return "float64"
		case 5:
			return "=~\"^[a-z]+$\""
		case 6:
			return "[...string] | *[\"a\", \"b\"]"
		case 7:
			return "{[string]: int64}"
		case 8:
			return "null | string"
		case 9:
			return "\"x\" | \"y\" | *\"z\""
		case 10:
			return "_"
		case 11:
			return "{in: string, \"out-put\"?: int64}"
		}
		return "string"
	}
	typ := func() string {
		switch k := r.N(10); {
		case k < 2 && len(enums) > 0:
			return enums[r.N(len(enums))]
		case k < 4 && len(structs) > 0:
			return structs[r.N(len(structs))]
		case k < 5 && len(structs) > 0:
			return "[..." + structs[r.N(len(structs))] + "]"
		case k < 6 && len(structs) > 0:
			return "{[string]: " + structs[r.N(len(structs))] + "}"
		case k < 7 && len(structs) > 1:
			return strings.Join(structs[:2], " | ")
		case k < 8 && len(enums) > 0:
			return "[..." + enums[r.N(len(enums))] + "]"
		}
		return scalar()
	}
	fields := func(ind string, n int, firstPlain bool) string {
		first := ""
		for i := 0; i < n; i++ {
			nm := fmt.Sprintf("%s%d", words[r.N(len(words))][:3], i)
			switch r.N(8) {
			case 0:
				nm = fmt.Sprintf("Up%d", i)
			case 1:
				nm = fmt.Sprintf("\"da-sh%d\"", i)
			case 2:
				nm = fmt.Sprintf("with_under%d", i)
			}
			if firstPlain && i == 0 {
				nm = "first0"
				first = nm
			}
			doc(ind, strings.Trim(nm, "\""))
			opt := ""
			if r.P(35) && first != nm {
				opt = "?"
			}
			at := ""
			if r.P(10) {
				at = " @grafana(TSVeneer=\"type\")"
			}
			fmt.Fprintf(&b, "%s%s%s: %s%s\n", ind, nm, opt, typ(), at)
		}
		return first
	}
	ne, ns := r.N(4), r.N(4)
	for i := 0; i < ne; i++ {
		vals := collide[r.N(len(collide))]
		nm := fmt.Sprintf("#En%d", i)
		doc(ind, nm[1:])
		var q []string
		for j, v := range vals {
			s := fmt.Sprintf("%q", v)
			if j == 0 && r.P(30) {
				s = "*" + s
			}
			q = append(q, s)
		}
		at := ""
		switch r.N(4) {
		case 0:
			at = " @cuetsy(kind=\"type\")"
		case 1:
			var ms []string
			for j := range vals {
				ms = append(ms, fmt.Sprintf("M%d", (j*3+1)%7))
			}
			at = fmt.Sprintf(" @cuetsy(kind=\"enum\",memberNames=%q)", strings.Join(ms, "|"))
		}
		fmt.Fprintf(&b, "%s%s: %s%s\n", ind, nm, strings.Join(q, " | "), at)
		enums = append(enums, nm)
	}
	for i := 0; i < ns; i++ {
		nm := fmt.Sprintf("#St%d", i)
		doc(ind, nm[1:])
		fmt.Fprintf(&b, "%s%s: {\n", ind, nm)
		fields(ind+"\t", 1+r.N(3), false)
		at := ""
		if r.P(60) {
			at = " @cuetsy(kind=\"interface\")"
		}
		fmt.Fprintf(&b, "%s}%s\n", ind, at)
		structs = append(structs, nm)
	}
	f := fields(ind, 2+r.N(4), true)
	fmt.Fprintf(&b, "%smaj%d: int64\n", ind, maj)
	return b.String(), f
}
