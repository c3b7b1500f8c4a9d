package main

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"sync"
	"testing/fstest"

	"cuelang.org/go/cue/cuecontext"
	"github.com/grafana/thema"
	tload "github.com/grafana/thema/load"
)

// Mod is a CUE module held in a simulated file system.
type Mod struct {
	Files map[string]string `json:"files"`
	Dir   string            `json:"dir"`
	Pkg   string            `json:"pkg,omitempty"`   // explicit package option
	AsMod string            `json:"asmod,omitempty"` // wrap with load.AsModFS
	Path  string            `json:"path,omitempty"`  // value path of the lineage
	Lin   *Lin              `json:"lin"`
	Class string            `json:"class"` // ok, notmodule, error
	Mod   string            `json:"mod,omitempty"` // the module's name
}

type modState struct {
	m *Mod
}

func newModState(w *world, m *Mod) *modState { return &modState{m} }

// simFS is the simulated disk below the fs.FS seam.
type simFS struct {
	w     *world
	c     *opCtx
	base  fstest.MapFS
	n     int
	fired bool
	trace []string
}

var errDisk = errors.New("simulated disk error")

// fault decides whether the next file operation fails. Operations are counted
// so that a fault hits the same point in every execution of the plan.
func (s *simFS) fault(op, name string) (string, bool) {
	s.n++
	s.trace = append(s.trace, op+" "+name)
	for i := range s.c.op.F {
		f := &s.c.op.F[i]
		if !strings.HasPrefix(f.Kind, "fs-") || f.Kind == "fs-short" {
			continue
		}
		if f.N == s.n {
			s.fired = true
			s.c.fired = append(s.c.fired, f.Kind+":"+op)
			s.w.count("fault:" + f.Kind + ":" + op)
			return f.Kind, true
		}
	}
	return "", false
}

func (s *simFS) flag(kind string) bool {
	for _, f := range s.c.op.F {
		if f.Kind == kind {
			return true
		}
	}
	return false
}

func (s *simFS) err(kind, op, name string) error {
	switch kind {
	case "fs-notexist":
		return &fs.PathError{Op: op, Path: name, Err: fs.ErrNotExist}
	case "fs-perm":
		return &fs.PathError{Op: op, Path: name, Err: fs.ErrPermission}
	}
	return &fs.PathError{Op: op, Path: name, Err: errDisk}
}

func (s *simFS) Open(name string) (fs.File, error) {
	sync.SimOp(910)
	if k, hit := s.fault("open", name); hit {
		return nil, s.err(k, "open", name)
	}
	f, err := s.base.Open(name)
	if err != nil {
		return nil, err
	}
	if d, ok := f.(fs.ReadDirFile); ok {
		return &simDir{d, s, name}, nil
	}
	return &simFile{f, s, name}, nil
}

type simFile struct {
	fs.File
	s    *simFS
	name string
}

func (f *simFile) Stat() (fs.FileInfo, error) {
	if k, hit := f.s.fault("stat", f.name); hit {
		return nil, f.s.err(k, "stat", f.name)
	}
	fi, err := f.File.Stat()
	if err == nil && f.s.flag("fs-grow") && fi.Size() > 0 {
		f.s.w.count("fault:fs-grow")
		return grownInfo{fi}, nil
	}
	return fi, err
}

// grownInfo was taken before the file got its present size.
type grownInfo struct{ fs.FileInfo }

func (g grownInfo) Size() int64 { return g.FileInfo.Size() / 2 }

func (f *simFile) Read(b []byte) (int, error) {
	sync.SimOp(911)
	if k, hit := f.s.fault("read", f.name); hit {
		if k == "fs-io-partial" && len(b) > 3 {
			n, _ := f.File.Read(b[:3])
			return n, f.s.err(k, "read", f.name)
		}
		return 0, f.s.err(k, "read", f.name)
	}
	if f.s.flag("fs-short") && len(b) > 7 {
		f.s.w.count("fault:fs-short")
		b = b[:1+len(f.name)%7]
	}
	return f.File.Read(b)
}

type simDir struct {
	fs.ReadDirFile
	s    *simFS
	name string
}

func (d *simDir) Stat() (fs.FileInfo, error) {
	if k, hit := d.s.fault("stat", d.name); hit {
		return nil, d.s.err(k, "stat", d.name)
	}
	return d.ReadDirFile.Stat()
}

func (d *simDir) ReadDir(n int) ([]fs.DirEntry, error) {
	if k, hit := d.s.fault("readdir", d.name); hit {
		if k == "fs-io-partial" {
			es, _ := d.ReadDirFile.ReadDir(-1)
			return es[:len(es)/2], d.s.err(k, "readdir", d.name)
		}
		return nil, d.s.err(k, "readdir", d.name)
	}
	return d.ReadDirFile.ReadDir(n)
}

func (w *world) doLoad(op *Op, c *opCtx) (got, exp string) {
	m := w.mods[op.B-1].m
	base := fstest.MapFS{}
	for _, k := range sortedKeys(m.Files) {
		base[k] = &fstest.MapFile{Data: []byte(m.Files[k])}
	}
	s := &simFS{w: w, c: c, base: base}
	var fsys fs.FS = s
	if m.AsMod != "" {
		fsys = tload.AsModFS(s, m.AsMod)
	}
	var opts []tload.Option
	if m.Pkg != "" {
		opts = append(opts, tload.Package(m.Pkg))
	}
	bi, err := tload.InstanceWithThema(fsys, m.Dir, opts...)
	c.note = fmt.Sprintf("%d file operations, fired %v", s.n, c.fired)
	if op.X == "trace" {
		c.note = strings.Join(s.trace, ";")
	}
	full := "ok " + expNav(m.Lin)
	switch {
	case s.fired:
		exp = "err"
	case m.Class == "ok":
		exp = full
	default:
		exp = "err:" + m.Class
	}
	if err != nil {
		c.note += " " + err.Error()
		if bi != nil {
			return "err-and-instance", exp
		}
		if s.fired {
			return "err", exp
		}
		var nm *tload.ErrFSNotACueModule
		if errors.As(err, &nm) {
			return "err:notmodule", exp
		}
		return "err:error", exp
	}
	if bi == nil {
		return "nil-and-no-error", exp
	}
	// what was loaded must be the module's lineage, whole
	rt := w.rts[op.L%len(w.rts)]
	v := rt.ctx.BuildInstance(bi)
	if m.Path != "" {
		v = v.LookupPath(cuePath(m.Path))
	}
	lin, err := thema.BindLineage(v, rt.rt)
	if err != nil {
		c.note += " " + err.Error()
		return "loaded-but-unbindable", exp
	}
	st := &linState{spec: m.Lin, rt: rt, lin: lin}
	got = "ok " + w.nav(st)
	if bi.Module != m.Mod && !(m.AsMod == bi.Module && strings.Contains(strings.Join(c.fired, " "), "fs-notexist")) {
		got += " WRONG-MODULE-" + bi.Module
	}
	if s.fired && m.Class == "ok" {
		// an error that does not matter may be survived, but then the result is whole
		exp = full
	}
	// data goes through as well
	g := &lgen{r: NewRng(uint64(op.L) + 3)}
	for _, sc := range m.Lin.Schs {
		d := norm(g.val(sc.Ty))
		sch, err := lin.Schema(sv(sc.V))
		if err != nil {
			return got + " LOST-" + sc.V.String(), exp
		}
		if _, err := sch.Validate(rt.ctx.CompileString(jsonText(d))); err != nil {
			return got + " REJECTS-VALID-" + sc.V.String(), exp
		}
		if _, err := sch.Validate(rt.ctx.CompileString(jsonText(norm(g.bad(sc.Ty))))); err == nil {
			return got + " ACCEPTS-INVALID-" + sc.V.String(), exp
		}
	}
	return got, exp
}

// genMod draws a module around a lineage.
func genMod(r *Rng, l *Lin) *Mod {
	m := &Mod{Files: map[string]string{}, Lin: l, Class: "ok"}
	mod := []string{"example.com/acme", "acme.io", "github.com/foo/bar"}[r.N(3)]
	pkg := path.Base(mod)
	if pkg == "acme.io" {
		pkg = "lin"
		m.Pkg = "lin"
	}
	switch r.N(3) {
	case 0:
		m.Dir = []string{"", "."}[r.N(2)]
	case 1:
		m.Dir = "sub"
		if m.Pkg == "" {
			pkg = "sub"
		}
	case 2:
		m.Dir = "deep/er/pkg"
		if m.Pkg == "" {
			pkg = "pkg"
		}
	}
	if m.Pkg == "" && r.P(30) {
		pkg = "other"
		m.Pkg = "other"
	}
	// the lineage is spread over files of one package
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport \"github.com/grafana/thema\"\n\n", pkg)
	src := l.CUE()
	if r.P(40) {
		m.Path = "lin"
		fmt.Fprintf(&b, "lin: thema.#Lineage & {\n%s}\n", src)
		if r.P(50) {
			m.Files[path.Join(m.Dir, "extra.cue")] = fmt.Sprintf("package %s\n\nsomething: \"else\"\n", pkg)
		}
	} else {
		b.WriteString("thema.#Lineage\n")
		if r.P(50) {
			head, rest, _ := strings.Cut(src, "\n")
			b.WriteString(rest)
			d := m.Dir
			switch d {
			case "sub":
				d = []string{"sub", ""}[r.N(2)]
			case "deep/er/pkg": // files of the package in parent directories belong to it
				d = []string{"deep/er/pkg", "deep/er", "deep", ""}[r.N(4)]
			}
			m.Files[path.Join(d, "name.cue")] = fmt.Sprintf("package %s\n\n%s\n", pkg, head)
		} else {
			b.WriteString(src)
		}
	}
	main := b.String()
	if _, ok := m.Files[path.Join(m.Dir, "name.cue")]; !ok && strings.Contains(main, fmt.Sprintf("name: %q\n", l.Name)) && r.P(50) {
		// something of the lineage comes from a package of the module, or one the module depends on
		imp := mod + "/dep"
		switch r.N(3) {
		case 0:
			m.Files["dep/dep.cue"] = fmt.Sprintf("package dep\n\n#Name: %q\n", l.Name)
		default:
			imp = "dep.example/x/dep"
			m.Files["cue.mod/pkg/dep.example/x/dep/a.cue"] = "package dep\n\n#Name: string\n"
			m.Files["cue.mod/"+[]string{"usr", "gen", "pkg"}[r.N(3)]+"/dep.example/x/dep/b.cue"] = fmt.Sprintf("package dep\n\n#Name: %q\n", l.Name)
		}
		main = strings.Replace(main, "import \"github.com/grafana/thema\"\n", fmt.Sprintf("import \"github.com/grafana/thema\"\nimport %q\n", imp), 1)
		main = strings.Replace(main, fmt.Sprintf("name: %q\n", l.Name), "name: dep.#Name\n", 1)
	}
	m.Files[path.Join(m.Dir, "lineage.cue")] = main
	m.Mod = mod
	if r.P(40) {
		m.Files["docs/readme.txt"] = "not cue"
	}
	if r.P(30) {
		m.Files["unrelated/x.cue"] = "package unrelated\n\na: 1\n"
	}
	if r.P(35) {
		m.AsMod = mod
		if r.P(40) {
			m.Files["cue.mod/module.cue"] = fmt.Sprintf("module: %q\n", mod)
			if r.P(60) {
				m.AsMod = "elsewhere.example/" + path.Base(mod)
			}
		}
	} else {
		m.Files["cue.mod/module.cue"] = fmt.Sprintf("module: %q\n", mod)
		switch r.N(10) {
		case 0:
			delete(m.Files, "cue.mod/module.cue")
			m.Class = "notmodule"
		case 1:
			m.Files["cue.mod/module.cue"] = "module: \"\"\n"
			m.Class = "notmodule"
		case 2:
			m.Files["cue.mod/pkg/github.com/grafana/thema/x.cue"] = "package thema\n"
			m.Class = "notmodule"
		case 3:
			m.Files["cue.mod/module.cue"] = "module: 7\n"
			m.Class = "notmodule"
		case 4:
			m.Files[path.Join(m.Dir, "lineage.cue")] = main + "\n}{ syntax"
			m.Class = "error"
		case 5: // no file belongs to the package asked for
			m.Pkg = "nosuchpkg"
			m.Class = "error"
		}
	}
	return m
}

var _ = sort.Strings
var _ = io.EOF
var _ = cuecontext.New
