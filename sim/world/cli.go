package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"path"
	"strconv"
	"strings"

	"cuelang.org/go/cue"
	"cuelang.org/go/cue/cuecontext"
	cyaml "cuelang.org/go/pkg/encoding/yaml"
	"github.com/dave/dst"
	"github.com/grafana/thema"
	"github.com/grafana/thema/encoding/gocode"
	"github.com/grafana/thema/encoding/jsonschema"
	"github.com/grafana/thema/encoding/openapi"
)

// CLIExp is what a run of the command line tool has to do.
type CLIExp struct {
	Exit   int      `json:"exit"`             // 0, or 1 for any failure
	Text   []string `json:"text,omitempty"`   // standard output is one of these
	JSON   []any    `json:"json,omitempty"`   // or, as JSON, one of these
	Trans  []any    `json:"trans,omitempty"`  // a translation: one of {from,to,result,msgs}
	Suffix string   `json:"suffix,omitempty"` // or comments followed by this
	Quiet  bool     `json:"quiet,omitempty"`  // nothing on stderr either
	Skip   bool     `json:"skip,omitempty"`   // output not predicted
}

// CLIRun is one invocation.
type CLIRun struct {
	Args  []string `json:"args"`
	Stdin *string  `json:"stdin,omitempty"`
	Exp   CLIExp   `json:"exp"`
}

// CLISpec is one case for the command line tool.
type CLISpec struct {
	Kind    string            `json:"kind"`
	Files   map[string]string `json:"files"`
	Modes   map[string]int    `json:"modes,omitempty"`
	Links   map[string]string `json:"links,omitempty"`
	Cwd     string            `json:"cwd"`
	Main    CLIRun            `json:"main"`
	OutFile string            `json:"outfile,omitempty"` // file the command writes
	OutSfx  string            `json:"outsfx,omitempty"`  // comments followed by this is what it holds
	Save    string            `json:"save,omitempty"`    // standard output is saved there before Follow
	Follow  []CLIRun          `json:"follow,omitempty"`
}

type cligen struct {
	r     *Rng
	g     *lgen
	s     *CLISpec
	lin   *Lin
	dir   string // directory of the lineage
	file  string
	mod   string // module name, if there is a cue.mod
	gomod string // module name, if there is a go.mod
	cp    string // CUE path of the lineage
	flag  []string
	toF   bool // -l names the file
}

func (c *cligen) rel(p string) string {
	// a path below the root as an argument: absolute or relative to cwd
	if c.r.P(40) {
		return "<ROOT>/" + p
	}
	up := ""
	if c.s.Cwd != "." {
		up = strings.Repeat("../", strings.Count(c.s.Cwd, "/")+1)
	}
	if strings.HasPrefix(p, c.s.Cwd+"/") {
		return "./" + strings.TrimPrefix(p, c.s.Cwd+"/")
	}
	return "./" + up + p
}

// place writes the lineage to a file of the simulated tree.
func (c *cligen) place(body string) {
	r := c.r
	c.dir = []string{"work", "work/a", "work/a/b"}[r.N(3)]
	pkg := ""
	if r.P(60) {
		c.mod = []string{"example.com/m", "acme.io/x/y"}[r.N(2)]
		mdir := "work"
		if c.dir == "work/a/b" && r.P(40) {
			mdir = "work/a"
		}
		c.s.Files[mdir+"/cue.mod/module.cue"] = fmt.Sprintf("module: %q\n", c.mod)
		pkg = "lin"
	} else if r.P(50) {
		pkg = "lin"
	}
	c.file = c.dir + "/" + []string{"lineage.cue", "my-lin.cue"}[r.N(2)]
	var b strings.Builder
	if pkg != "" {
		fmt.Fprintf(&b, "package %s\n\n", pkg)
	}
	b.WriteString("import \"github.com/grafana/thema\"\n\n")
	c.toF = c.mod == "" || r.P(50)
	if r.P(30) {
		c.cp = "lin"
		fmt.Fprintf(&b, "lin: thema.#Lineage & {\n%s}\n", body)
	} else {
		b.WriteString("thema.#Lineage\n" + body)
	}
	c.s.Files[c.file] = b.String()
	if !c.toF && r.P(40) {
		c.s.Files[c.dir+"/more.cue"] = "package lin\n"
	}
	if r.P(40) {
		c.s.Files["work/notes.txt"] = "do not touch\n"
	}
	if r.P(25) {
		c.gomod = "example.com/gm"
		c.s.Files["work/go.mod"] = "module " + c.gomod + "\n\ngo 1.20\n"
	}
	c.s.Cwd = []string{".", "work", c.dir}[r.N(3)]
	p := c.file
	if !c.toF {
		p = c.dir
	}
	a := c.rel(p)
	if p == c.s.Cwd {
		a = "."
	}
	c.flag = []string{"-l", a}
	if c.cp != "" {
		c.flag = append(c.flag, "-p", c.cp)
	}
}

func text(v any) string {
	b := &bytes.Buffer{}
	e := json.NewEncoder(b)
	e.SetEscapeHTML(false)
	e.Encode(v)
	return b.String()
}

// data writes d as a file or as standard input and returns the arguments.
func (c *cligen) data(run *CLIRun, d any, name string) (args []string) {
	r := c.r
	txt := text(d)
	ext := ".json"
	if m, ok := d.(map[string]any); ok && len(m) > 0 && r.P(40) {
		ext = []string{".yaml", ".yml"}[r.N(2)]
		var b strings.Builder
		for _, k := range sortedKeys(m) {
			b.WriteString(k + ": " + text(m[k]))
		}
		txt = b.String()
	} else if r.P(30) {
		var b bytes.Buffer
		json.Indent(&b, []byte(txt), "", "  ")
		txt = b.String()
	}
	f := strings.TrimSuffix(strings.TrimPrefix(ext, "."), "l") // yam, ym, json
	if strings.HasPrefix(f, "y") {
		f = "yaml"
	}
	if r.P(25) {
		args = append(args, "-e", f)
	}
	if r.P(40) {
		run.Stdin = &txt
		return args
	}
	p := "work/" + name + ext
	if len(args) == 0 && r.P(15) {
		p = "work/" + name + ".dat"
	}
	c.s.Files[p] = txt
	return append(args, c.rel(p))
}

func (c *cligen) anyVersion(d any) (vs []V) {
	for _, s := range c.lin.Schs {
		if s.Ty.Valid(d) {
			vs = append(vs, s.V)
		}
	}
	return vs
}

// translated predicts a translation of data of any of the versions vs.
func (c *cligen) translated(vs []V, to V, d any) CLIExp {
	exp := CLIExp{}
	for _, v := range vs {
		t := c.lin.Translate(v, to, d)
		if !t.OK {
			return CLIExp{Skip: true}
		}
		msgs := []any{}
		for _, l := range t.Lacs {
			msgs = append(msgs, l.Msg)
		}
		exp.Trans = append(exp.Trans, norm(map[string]any{"from": v.String(), "to": to.String(), "result": t.Val, "msgs": msgs}))
	}
	return exp
}

func (c *cligen) last() V { return c.lin.Schs[len(c.lin.Schs)-1].V }

// dataCmd draws one data command with its prediction.
func (c *cligen) dataCmd(name string) CLIRun {
	r := c.r
	var run CLIRun
	sc := c.lin.Schs[r.N(len(c.lin.Schs))]
	d := norm(c.g.val(sc.Ty))
	if r.P(25) {
		d = norm(c.g.bad(sc.Ty))
	}
	vs := c.anyVersion(d)
	var ver *V
	if r.P(60) {
		v := c.lin.Schs[r.N(len(c.lin.Schs))].V
		if r.P(60) {
			v = sc.V
		}
		ver = &v
	}
	ok := func(v V) bool { return c.lin.Schs[c.lin.Idx(v)].Ty.Valid(d) }
	ty := func(v V) *Ty { return c.lin.Schs[c.lin.Idx(v)].Ty }
	cmd := []string{"validate", "validate-any", "translate", "translate", "hydrate", "dehydrate"}[r.N(6)]
	args := append([]string{"data", cmd}, c.flag...)
	fail := CLIExp{Exit: 1, Text: []string{""}}
	exp := fail
	switch cmd {
	case "validate":
		v := c.last()
		if ver != nil {
			v = *ver
			args = append(args, "-v", v.String())
		}
		if ok(v) {
			exp = CLIExp{Text: []string{""}}
		}
	case "validate-any":
		if ver != nil {
			args = append(args, "-v", ver.String())
		}
		if ver != nil && ok(*ver) {
			exp = CLIExp{Text: []string{ver.String() + "\n"}}
		} else if len(vs) > 0 {
			exp = CLIExp{}
			for _, v := range vs {
				exp.Text = append(exp.Text, v.String()+"\n")
			}
		}
	case "translate":
		to := c.lin.Schs[r.N(len(c.lin.Schs))].V
		args = append(args, []string{"--to", "-v"}[r.N(2)], to.String())
		if len(vs) > 0 {
			exp = c.translated(vs, to, d)
		}
	default:
		f := func(t *Ty) any {
			if cmd == "hydrate" {
				return t.Fill(d)
			}
			return t.Trim(d)
		}
		if ver != nil {
			args = append(args, "-v", ver.String())
			if ok(*ver) {
				exp = CLIExp{JSON: []any{norm(f(ty(*ver)))}}
			}
		} else if len(vs) > 0 {
			exp = CLIExp{}
			if ok(c.last()) {
				vs = []V{c.last()}
			}
			for _, v := range vs {
				exp.JSON = append(exp.JSON, norm(f(ty(v))))
			}
		}
	}
	if (cmd == "validate" || cmd == "validate-any") && r.P(25) {
		args = append(args, []string{"-q", "--quiet"}[r.N(2)])
		exp.Quiet = true
		exp.Text = []string{""}
	}
	args = append(args, c.data(&run, d, name)...)
	// things that can be wrong with an invocation
	switch r.N(24) {
	case 0:
		v := c.last()
		args = append(args, "--version="+V{v[0], v[1] + 1}.String())
		if cmd == "translate" {
			args[len(args)-1] = "--to=" + V{v[0] + 1, 0}.String()
		}
		exp = CLIExp{Exit: 1, Text: []string{""}, Quiet: exp.Quiet}
	case 1:
		cut := "{\"unterminated"
		if run.Stdin != nil {
			run.Stdin = &cut
		} else {
			for _, e := range []string{".json", ".dat"} {
				if _, has := c.s.Files["work/"+name+e]; has {
					c.s.Files["work/"+name+e] = cut
					exp = CLIExp{Exit: 1, Text: []string{""}, Quiet: exp.Quiet}
				}
			}
			break
		}
		exp = CLIExp{Exit: 1, Text: []string{""}, Quiet: exp.Quiet}
	case 2:
		if run.Stdin == nil {
			args[len(args)-1] += ".missing"
			exp = CLIExp{Exit: 1, Text: []string{""}, Quiet: exp.Quiet}
		}
	}
	run.Args, run.Exp = args, exp
	return run
}

// bind gives the lineage of the case as the library sees it.
func (c *cligen) bind() (thema.Lineage, *thema.Runtime) {
	rt := thema.NewRuntime(cuecontext.New())
	v := rt.Underlying().LookupPath(cue.ParsePath("#Lineage")).Unify(rt.Context().CompileString(c.lin.CUE()))
	lin, err := thema.BindLineage(v, rt)
	if err != nil {
		panic(fmt.Sprintf("cli lineage: %s\n%s", err, c.lin.CUE()))
	}
	return lin, rt
}

func (c *cligen) version() (thema.SyntacticVersion, []string) {
	if c.r.P(50) {
		v := c.lin.Schs[c.r.N(len(c.lin.Schs))].V
		return sv(v), []string{"-v", v.String()}
	}
	return sv(c.last()), nil
}

func (c *cligen) genDoc() {
	lin, rt := c.bind()
	v, va := c.version()
	sch, err := lin.Schema(v)
	if err != nil {
		panic(err)
	}
	kind := []string{"openapi", "jsonschema"}[c.r.N(2)]
	form := []string{"", "json", "yaml", "yml", "toml"}[c.r.N(5)]
	args := append(append([]string{"lineage", "gen", kind}, c.flag...), va...)
	if form != "" {
		args = append(args, []string{"-f", "--format"}[c.r.N(2)], form)
	}
	exp := CLIExp{}
	eff := form
	var val cue.Value
	if kind == "openapi" {
		f, err := openapi.GenerateSchema(sch, nil)
		if err == nil {
			val = rt.Context().BuildFile(f)
		}
		if eff == "" {
			eff = "yaml"
		}
	} else {
		f, err := jsonschema.GenerateSchema(sch)
		if err == nil {
			val = rt.Context().BuildFile(f)
		}
		if eff == "" {
			eff = "json"
		}
	}
	switch {
	case eff == "toml" || !val.Exists():
		exp = CLIExp{Exit: 1, Text: []string{""}}
	case eff == "json":
		b, err := val.MarshalJSON()
		if err != nil {
			exp = CLIExp{Exit: 1, Text: []string{""}}
			break
		}
		exp.JSON = []any{mustJSON(string(b))}
	default:
		s, err := cyaml.Marshal(val)
		if err != nil {
			exp = CLIExp{Exit: 1, Text: []string{""}}
			break
		}
		exp.Text = []string{s}
	}
	c.s.Main = CLIRun{Args: args, Exp: exp}
}

func (c *cligen) genGo(toFile bool) {
	lin, _ := c.bind()
	r := c.r
	kind := []string{"gotypes", "gobindings"}[r.N(2)]
	args := append([]string{"lineage", "gen", kind}, c.flag...)
	pkg := ""
	if r.P(40) {
		pkg = "special"
		args = append(args, "--pkgname", pkg)
	}
	var want []byte
	var err error
	if kind == "gotypes" {
		v, va := c.version()
		args = append(args, va...)
		sch, e := lin.Schema(v)
		if e != nil {
			panic(e)
		}
		want, err = gocode.GenerateTypesOpenAPI(sch, &gocode.TypeConfigOpenAPI{PackageName: pkg})
	} else {
		cfg := &gocode.BindingConfig{PackageName: pkg, TargetSchemaVersion: sv(c.last())}
		if c.cp != "" {
			cfg.CuePath = cue.ParsePath(c.cp)
		}
		if r.P(30) {
			cfg.FactoryNameSuffix = true
			args = append(args, "--suffix")
		}
		if r.P(30) {
			cfg.PrivateFactory = true
			args = append(args, "--private")
		}
		if r.P(30) {
			v, va := c.version()
			cfg.TargetSchemaVersion = v
			cfg.Assignee = dst.NewIdent("MyType")
			args = append(append(args, "--bind-type", "MyType"), va...)
		}
		if toFile {
			if r.P(20) {
				args = append(args, "--no-embed")
			} else if c.toF {
				cfg.EmbedPath = path.Base(c.file)
			} else {
				cfg.EmbedPath = "*.cue"
			}
			if c.mod != "" || c.gomod != "" {
				if r.P(20) {
					args = append(args, "--no-fs-func")
				} else if c.mod == "" {
					cfg.LoadDir = "."
					cfg.CueModName = c.gomod
				} else {
					cfg.LoadDir = "."
					for d := c.dir; ; d = path.Dir(d) {
						if _, ok := c.s.Files[d+"/cue.mod/module.cue"]; ok {
							rel := strings.TrimPrefix(strings.TrimPrefix(c.dir, d), "/")
							cfg.CueModName = path.Join(c.mod, rel)
							break
						}
					}
				}
			}
		}
		want, err = gocode.GenerateLineageBinding(lin, cfg)
	}
	exp := CLIExp{}
	if err != nil {
		c.s.Main = CLIRun{Args: args, Exp: CLIExp{Exit: 1, Text: []string{""}}}
		return
	}
	if !toFile {
		args = append(args, "--stdout")
		exp.Suffix = string(want)
	} else {
		sfx := map[string]string{"gotypes": "_types_gen.go", "gobindings": "_bindings_gen.go"}[kind]
		c.s.OutFile = c.dir + "/" + strings.ToLower(c.lin.Name) + sfx
		c.s.OutSfx = string(want)
		exp.Skip = true
		if r.P(30) {
			args = append(args, "-q")
			exp = CLIExp{Text: []string{""}}
		}
		src := "*.cue"
		if c.toF {
			src = path.Base(c.file)
		}
		c.priorFile(c.s.OutFile, fmt.Sprintf("// THIS FILE IS GENERATED. EDITING IS FUTILE.\n//\n// Generated by \"thema lineage gen\" from lineage defined in %s\n\n", src)+string(want))
	}
	c.s.Main = CLIRun{Args: args, Exp: exp}
}

// priorFile puts something where the command will write.
func (c *cligen) priorFile(p, like string) {
	r := c.r
	switch r.N(6) {
	case 4, 5: // an earlier, similar or damaged result
		switch k := r.N(len(like)); r.N(4) {
		case 0:
			like = like[:k] + "x" + like[k+1:]
		case 1:
			like = like[:k]
		case 2:
			like += "\nvar more int\n"
		}
		c.s.Files[p] = like
	case 0, 1:
		c.s.Files[p] = strings.Repeat("// generated earlier, and longer than nothing at all\n", 1+r.N(400))
		if r.P(40) {
			c.s.Modes[p] = []int{0o600, 0o640, 0o664, 0o755}[r.N(4)]
		}
	case 2:
		if r.P(80) {
			c.link(p, "elsewhere.go", !r.P(30), "// the file behind the link\n")
		}
	}
}

// link makes p a symbolic link, perhaps the first of several, to a file of that
// name, perhaps in another directory, perhaps one that does not exist yet.
func (c *cligen) link(p, name string, exists bool, content string) (file string) {
	r := c.r
	file = path.Join(path.Dir(p), name)
	if r.P(30) {
		c.s.Files["work/shared/notes.txt"] = "do not touch\n"
		file = "work/shared/" + name
	}
	to := func(p, file string) string {
		if r.P(20) {
			return "<ROOT>/" + file
		}
		up := strings.Repeat("../", strings.Count(p, "/"))
		if path.Dir(p) == path.Dir(file) {
			return path.Base(file)
		}
		return up + file
	}
	if r.P(30) {
		mid := path.Join(path.Dir(p), "link.tmp")
		c.s.Links[p] = to(p, mid)
		p = mid
	}
	c.s.Links[p] = to(p, file)
	if exists {
		c.s.Files[file] = content
	}
	return file
}

// legacy renders a lineage of one schema per major version the way the
// previous generation of Thema wanted it.
func legacy(l *Lin) string {
	var b strings.Builder
	fmt.Fprintf(&b, "name: %q\nseqs: [\n", l.Name)
	side := func(name string, ln *Lens, to, from int) {
		fmt.Fprintf(&b, "\t\tlens: %s: {\n\t\t\tto: seqs[%d].schemas[0]\n\t\t\tfrom: seqs[%d].schemas[0]\n\t\t\ttranslated: to & rel\n\t\t\trel: {\n", name, to, from)
		fsel := func(n string) string { return strings.Replace(sel(n), "input", "from", 1) }
		for _, e := range ln.Ents {
			if src := l.Schs[from].Ty.field(e.From); e.Kind == "copy" && src != nil && src.Ty.K == "struct" && !src.Ty.Open {
				plain := true
				for _, f := range src.Ty.Fields {
					plain = plain && !f.Opt && f.Def == nil && !f.Ty.fillable()
				}
				if plain {
					// field by field
					fmt.Fprintf(&b, "\t\t\t\t%s: {\n", label(e.To))
					for i, f := range src.Ty.Fields {
						s := fsel(e.From)
						if x := label(f.Name); x == f.Name && i%2 == 0 {
							s += "." + x
						} else {
							s += "[" + strconv.Quote(f.Name) + "]"
						}
						fmt.Fprintf(&b, "\t\t\t\t\t%s: %s\n", label(f.Name), s)
					}
					b.WriteString("\t\t\t\t}\n")
					continue
				}
			}
			b.WriteString((&Lens{Ents: []Ent{e}}).entCUE("\t\t", fsel))
		}
		b.WriteString("\t\t\t}\n")
		if len(ln.Lacs) > 0 {
			b.WriteString(ln.lacCUE("\t\t", fsel))
		} else {
			b.WriteString("\t\t\tlacunas: []\n")
		}
		b.WriteString("\t\t}\n")
	}
	for i, s := range l.Schs {
		fmt.Fprintf(&b, "\t{\n\t\tschemas: [\n\t\t\t%s,\n\t\t]\n", s.Ty.cue("\t\t\t"))
		if i > 0 {
			side("forward", l.Lens(l.Schs[i-1].V, s.V), i, i-1)
			side("reverse", l.Lens(s.V, l.Schs[i-1].V), i-1, i)
		}
		b.WriteString("\t},\n")
	}
	b.WriteString("]\n")
	return b.String()
}

func (c *cligen) fix() {
	c.place(legacy(c.lin))
	c.s.Main = CLIRun{Args: append([]string{"lineage", "fix"}, c.flag...), Exp: CLIExp{Text: []string{""}}}
	if _, more := c.s.Files[c.dir+"/more.cue"]; more && c.cp == "" {
		// documented: not across several files
		c.s.Main.Exp = CLIExp{Exit: 1, Text: []string{""}}
		return
	}
	c.s.OutFile = c.file
	if c.r.P(50) {
		c.s.Modes[c.file] = []int{0o600, 0o640, 0o664, 0o755}[c.r.N(4)]
	}
	if c.toF && c.r.P(15) {
		file := c.link(c.file, "real.txt", true, c.s.Files[c.file])
		delete(c.s.Files, c.file)
		if m, ok := c.s.Modes[c.file]; ok {
			delete(c.s.Modes, c.file)
			c.s.Modes[file] = m
		}
	}
	// the rewritten lineage has the same schemas
	for k := 0; k < 3; k++ {
		sc := c.lin.Schs[c.r.N(len(c.lin.Schs))]
		run := CLIRun{Args: append([]string{"data", "validate", "-v", sc.V.String()}, c.flag...)}
		d := norm(c.g.val(sc.Ty))
		if k == 2 {
			d = norm(c.g.bad(sc.Ty))
			run.Exp.Exit = 1
		}
		t := text(d)
		run.Stdin = &t
		run.Exp.Text = []string{""}
		c.s.Follow = append(c.s.Follow, run)
	}
	// and its lenses do the same
	for k := 0; k < 2; k++ {
		sc := c.lin.Schs[c.r.N(len(c.lin.Schs))]
		to := c.lin.Schs[c.r.N(len(c.lin.Schs))].V
		d := norm(c.g.val(sc.Ty))
		t := text(d)
		run := CLIRun{Args: append([]string{"data", "translate", "--to", to.String()}, c.flag...), Stdin: &t}
		run.Exp = c.translated(c.anyVersion(d), to, d)
		c.s.Follow = append(c.s.Follow, run)
	}
}

func jsonSchemaOf(t *Ty) map[string]any {
	switch t.K {
	case "string":
		return map[string]any{"type": "string"}
	case "int":
		return map[string]any{"type": "integer"}
	case "range":
		return map[string]any{"type": "integer", "minimum": t.Lo, "maximum": t.Hi}
	case "bool":
		return map[string]any{"type": "boolean"}
	case "num":
		return map[string]any{"type": "number"}
	case "enum":
		return map[string]any{"type": "string", "enum": t.Enum}
	case "list":
		return map[string]any{"type": "array", "items": jsonSchemaOf(t.Elem)}
	}
	ps := map[string]any{}
	req := []string{}
	for _, f := range t.Fields {
		ps[f.Name] = jsonSchemaOf(f.Ty)
		if !f.Opt {
			req = append(req, f.Name)
		}
	}
	o := map[string]any{"type": "object", "properties": ps, "additionalProperties": false}
	if len(req) > 0 {
		o["required"] = req
	}
	return o
}

func (c *cligen) init() {
	r := c.r
	kind := []string{"empty", "jsonschema", "openapi"}[r.N(3)]
	args := []string{"lineage", "init", kind, "-n", c.lin.Name}
	run := CLIRun{Exp: CLIExp{Skip: true}}
	var ty *Ty
	if kind != "empty" {
		ty = &Ty{K: "struct"}
		for i, n := 0, 1+r.N(4); i < n; i++ {
			f := Field{Name: c.g.name(), Opt: r.P(40)}
			switch r.N(6) {
			case 0:
				f.Ty = &Ty{K: "int"}
			case 1:
				f.Ty = &Ty{K: "bool"}
			case 2:
				f.Ty = &Ty{K: "enum", Enum: []string{"a", "b%d", "c"}}
			case 3:
				f.Ty = &Ty{K: "list", Elem: &Ty{K: "string"}}
			case 4:
				f.Ty = &Ty{K: "range", Lo: 2, Hi: 9}
			default:
				f.Ty = &Ty{K: "string"}
			}
			ty.Fields = append(ty.Fields, f)
		}
		if !ty.fillable() {
		} else {
			ty.Fields = append(ty.Fields, Field{Name: "must", Ty: &Ty{K: "string"}})
		}
		doc := jsonSchemaOf(ty)
		if kind == "openapi" {
			doc = map[string]any{"openapi": "3.0.0", "info": map[string]any{"title": "t", "version": "1"}, "paths": map[string]any{},
				"components": map[string]any{"schemas": map[string]any{"Thing": doc}}}
			args = append(args, "--src-subpath", "#Thing")
		}
		txt := text(doc)
		if kind == "jsonschema" && r.P(40) {
			run.Stdin = &txt
		} else {
			c.s.Files["work/in.json"] = txt
			args = append(args, c.rel("work/in.json"))
		}
		if r.P(15) { // damaged input
			cut := txt[:len(txt)-2-r.N(len(txt)/2)]
			if run.Stdin != nil {
				run.Stdin = &cut
			} else {
				c.s.Files["work/in.json"] = cut
			}
			run.Exp = CLIExp{Exit: 1, Text: []string{""}}
		}
	} else {
		if r.P(30) {
			args = append(args, "--package-name", "pkg")
		} else if r.P(30) {
			args = append(args, "--no-package")
		}
		ty = &Ty{K: "struct"}
	}
	run.Args = args
	c.s.Main = run
	if run.Exp.Exit == 0 {
		c.s.Save = "work/new.cue"
		for k := 0; k < 3; k++ {
			f := CLIRun{Args: []string{"data", "validate", "-l", "<ROOT>/work/new.cue", "-v", "0.0"}}
			var d any = map[string]any{}
			if len(ty.Fields) > 0 {
				d = norm(c.g.val(ty))
			}
			if k == 2 {
				if len(ty.Fields) == 0 {
					d = map[string]any{"unknown": 1}
				} else {
					d = norm(c.g.bad(ty))
				}
				f.Exp.Exit = 1
			}
			t := text(d)
			f.Stdin = &t
			f.Exp.Text = []string{""}
			c.s.Follow = append(c.s.Follow, f)
		}
	}
}

func genCLI(prop string, seed uint64) *CLISpec {
	r := NewRng(seed)
	c := &cligen{r: r, g: &lgen{r: r.Fork(), n: 300, pct: true}, s: &CLISpec{Files: map[string]string{}, Modes: map[string]int{}, Links: map[string]string{}, Cwd: "."}}
	name := []string{"foo", "Bar", "lin-x"}[r.N(2)]
	cfg := genCfg{MaxMaj: 3, MaxMin: 1, MaxSch: 4, Lacunas: r.P(40), Defs: r.P(40), Plain: true, Pct: true}
	kind := ""
	if prop == "C11" {
		kind = []string{"fix", "fix", "gofile", "gofile"}[r.N(4)]
	} else {
		kind = []string{"data", "data", "data", "data", "doc", "gostdout", "init", "gofile"}[r.N(8)]
	}
	if kind == "fix" {
		cfg.MaxMin, cfg.Defs = 0, false
	}
	c.lin = genLin(r.Fork(), name, cfg)
	c.s.Kind = kind
	switch kind {
	case "fix":
		c.fix()
	case "gofile":
		c.place(c.lin.CUE())
		c.genGo(true)
	case "gostdout":
		c.place(c.lin.CUE())
		c.genGo(false)
	case "doc":
		c.place(c.lin.CUE())
		c.genDoc()
	case "init":
		c.s.Files["work/keep.txt"] = "keep\n"
		c.init()
	case "data":
		c.place(c.lin.CUE())
		c.s.Main = c.dataCmd("d")
		if r.P(8) { // a lineage that must be rejected
			if b := genBad(r, c.lin, []string{"minorbreaks", "gapminor", "first", "dup"}[r.N(4)]); b != nil && c.cp == "" {
				i := strings.Index(c.s.Files[c.file], "name: ")
				c.s.Files[c.file] = c.s.Files[c.file][:i] + b.Src
				c.s.Main.Exp = CLIExp{Exit: 1, Text: []string{""}, Quiet: c.s.Main.Exp.Quiet}
			}
		}
	}
	c.s.Kind = kind + ":" + strings.Join(c.s.Main.Args[:3], " ")
	if c.s.Main.Args[0] == "data" {
		c.s.Kind = kind + ":" + strings.Join(c.s.Main.Args[:2], " ")
	}
	return c.s
}
