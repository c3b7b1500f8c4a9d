package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"cuelang.org/go/cue"
	"cuelang.org/go/cue/cuecontext"
	cuejson "cuelang.org/go/encoding/json"
	crerrors "github.com/cockroachdb/errors"

	"github.com/grafana/thema"
	terrors "github.com/grafana/thema/errors"
	"github.com/grafana/thema/vmux"
)

type rtState struct {
	ctx *cue.Context
	rt  *thema.Runtime
}

type linState struct {
	spec *Lin
	rt   *rtState
	lin  thema.Lineage
	ts   thema.TypedSchema[*T1]
	tsx  thema.TypedSchema[*T1X] // the same schema, bound to a type with user code
	mux  map[string]any // shared multiplexers, read-only after setup
}

type instState struct {
	inst *thema.Instance
	spec ISlot
}

// opCtx is the context of the operation a task currently executes; lens mappers
// and codecs find their injected faults here.
type opCtx struct {
	op    *Op
	calls []string
	held  []heldInst
	used  map[int]bool
	fired []string
	enc   int
	note  string
	exp   string
}

type heldInst struct {
	inst *thema.Instance
	v    thema.SyntacticVersion
	js   string
}

type world struct {
	plan  *Plan
	rts   []*rtState
	lins  []*linState
	insts []*instState
	pairs [][2]thema.Lineage
	cur   [16]*opCtx // per task; index 15 is the setup goroutine
	other *linState  // lineage unrelated to any slot, for foreign instances
	stats [16]map[string]int
	mods  []*modState
	kept  [16][]keptRes
	gens  *genShared
	bars  map[int]*sync.WaitGroup // meeting points of the tasks
}

// keptRes is something an operation returned and the client holds on to: it has
// to be the same at the end.
type keptRes struct {
	op  int
	was string
	now func() string
}

func (w *world) keep(c *opCtx, now func() string) {
	t := sync.SimTask()
	if t < 0 {
		t = 15
	}
	w.kept[t] = append(w.kept[t], keptRes{c.op.ID, now(), now})
}

// recheck looks at everything returned earlier once more.
func (w *world) recheck(rs []Res) {
	changed := map[int]string{}
	for t := range w.kept {
		for _, k := range w.kept[t] {
			if n := k.now(); n != k.was {
				changed[k.op] = fmt.Sprintf(" RESULT-CHANGED-LATER from %s to %s", k.was, n)
			}
		}
	}
	for i := range rs {
		rs[i].Got += changed[rs[i].ID]
	}
}

var errInjected = errors.New("injected fault")

type injectedPanic struct{ s string }

func sv(v V) thema.SyntacticVersion { return thema.SV(uint(v[0]), uint(v[1])) }
func vs(v thema.SyntacticVersion) V { return V{int(v[0]), int(v[1])} }

func (w *world) me() *opCtx {
	t := sync.SimTask()
	if t < 0 {
		t = 15
	}
	c := w.cur[t]
	if c == nil {
		c = &opCtx{op: &Op{}}
		w.cur[t] = c
	}
	return c
}

func (w *world) count(k string) {
	t := sync.SimTask()
	if t < 0 {
		t = 15
	}
	if w.stats[t] == nil {
		w.stats[t] = map[string]int{}
	}
	w.stats[t][k]++
}

// fault returns the injected fault of the given kind prefix matching the lens, if any.
func (c *opCtx) fault(pred func(f Flt) bool) *Flt {
	for i := range c.op.F {
		if c.used[i] {
			continue
		}
		if pred(c.op.F[i]) {
			if c.used == nil {
				c.used = map[int]bool{}
			}
			c.used[i] = true
			c.fired = append(c.fired, c.op.F[i].Kind)
			return &c.op.F[i]
		}
	}
	return nil
}

func newRT() *rtState {
	ctx := cuecontext.New()
	return &rtState{ctx: ctx, rt: thema.NewRuntime(ctx)}
}

// goLenses builds the imperative lenses of a lineage from the model.
func (w *world) goLenses(l *Lin, st *linState) []thema.ImperativeLens {
	var out []thema.ImperativeLens
	for i := range l.Lenses {
		ln := &l.Lenses[i]
		out = append(out, thema.ImperativeLens{
			To: sv(ln.To), From: sv(ln.From),
			Mapper: func(inst *thema.Instance, to thema.Schema) (*thema.Instance, error) {
				return w.mapper(st, ln, inst, to)
			},
		})
	}
	return out
}

func (w *world) mapper(st *linState, ln *Lens, inst *thema.Instance, to thema.Schema) (*thema.Instance, error) {
	c := w.me()
	js, _ := inst.Underlying().MarshalJSON()
	c.calls = append(c.calls, fmt.Sprintf("%s->%s(%s,%s)", ln.From, ln.To, vs(inst.Schema().Version()), vs(to.Version())))
	c.held = append(c.held, heldInst{inst, inst.Schema().Version(), string(js)})
	sync.SimOp(900)
	var in map[string]any
	if err := json.Unmarshal(js, &in); err != nil {
		return nil, err
	}
	f := c.fault(func(f Flt) bool { return strings.HasPrefix(f.Kind, "lens-") && f.From == ln.From && f.To == ln.To })
	if f != nil {
		w.count("fault:" + f.Kind)
		switch f.Kind {
		case "lens-error":
			return nil, fmt.Errorf("lens gave up: %w", errInjected)
		case "lens-error-with-inst":
			return inst, fmt.Errorf("lens gave up: %w", errInjected)
		case "lens-nil":
			return nil, nil
		case "lens-same":
			return inst, nil
		case "lens-panic":
			panic(injectedPanic{"lens"})
		case "lens-foreign":
			sch, err := w.other.lin.Schema(to.Version())
			if err != nil {
				return nil, fmt.Errorf("%w: %v", errInjected, err)
			}
			return sch.Validate(w.other.rt.ctx.CompileString(`{only: "foreign"}`))
		case "lens-wrongver":
			// a valid instance, but of some other version of the lineage
			for _, s := range st.spec.Schs {
				if sv(s.V) != to.Version() {
					g := &lgen{r: NewRng(7)}
					d := norm(g.val(s.Ty))
					sch, err := to.Lineage().Schema(sv(s.V))
					if err != nil {
						return nil, err
					}
					return sch.Validate(st.rt.ctx.CompileString(jsonText(d)))
				}
			}
			return nil, errInjected
		}
	}
	if r := c.fault(func(f Flt) bool { return strings.HasPrefix(f.Kind, "reenter-") && f.From == ln.From && f.To == ln.To }); r != nil {
		// a mapper is ordinary client code: it may use the same lineage and runtime
		w.count("fault:" + r.Kind)
		switch r.Kind {
		case "reenter-validate":
			to.Lineage().ValidateAny(st.rt.ctx.CompileString(`{nosuch: 1}`))
		case "reenter-bind":
			src := "name: \"inner\"\nschemas: [{version: [0, 0], schema: {a: string}}]"
			if _, err := thema.BindLineage(st.rt.ctx.CompileString(src), st.rt.rt); err != nil {
				return nil, fmt.Errorf("inner bind: %w", err)
			}
		case "reenter-translate":
			save := c.op
			c.op = &Op{}
			calls := c.calls
			// translate the instance to its own predecessor and forget about it
			if p := inst.Schema().Predecessor(); p != nil && p.Version() != to.Version() {
				_, _, _ = inst.Translate(p.Version())
			}
			c.calls = calls
			c.op = save
		}
	}
	out, ok := ln.Apply(in)
	if !ok {
		return nil, errors.New("model lens cannot map")
	}
	return to.Validate(st.rt.ctx.CompileString(jsonText(out)))
}

func (w *world) bind(l *Lin, rt *rtState, skip ...bool) (*linState, error) {
	st := &linState{spec: l, rt: rt}
	var opts []thema.BindOption
	if len(skip) > 0 && skip[0] {
		opts = append(opts, thema.SkipBuggyChecks())
	}
	if l.Go {
		opts = append(opts, thema.ImperativeLenses(w.goLenses(l, st)...))
	}
	lin, err := thema.BindLineage(source(l, rt), rt.rt, opts...)
	if err != nil {
		return nil, err
	}
	st.lin = lin
	return st, nil
}

// source is the value of the lineage in the form it is written in.
func source(l *Lin, rt *rtState) cue.Value {
	a, b := l.parts()
	sc := cue.Scope(rt.rt.Underlying())
	lin := cue.ParsePath("outer.lin")
	switch l.Form {
	case "":
		return rt.ctx.CompileString(l.CUE())
	case "nested":
		return rt.ctx.CompileString("outer: {other: 1, lin: {\n" + l.CUE() + "}}\n").LookupPath(lin)
	case "split":
		return rt.ctx.CompileString("{\n" + a + "} & {\n" + b + "}\n")
	case "ref":
		return rt.ctx.CompileString("#Lineage & {\n"+l.CUE()+"}\n", sc)
	case "refnested":
		return rt.ctx.CompileString("outer: lin: #Lineage & {\n"+l.CUE()+"}\n", sc).LookupPath(lin)
	case "refsplit":
		return rt.ctx.CompileString("{\n"+a+"} & #Lineage & {\n"+b+"}\n", sc)
	case "embed":
		return rt.ctx.CompileString("#Lineage\n"+l.CUE(), sc)
	}
	panic("unknown form " + l.Form)
}

func class(err error) string {
	is := func(e error) bool { return errors.Is(err, e) || crerrors.Is(err, e) }
	switch {
	case err == nil:
		return "nil"
	case is(errInjected):
		return "injected"
	case is(terrors.ErrValueNotExist):
		return "notexist"
	case is(terrors.ErrValueNotALineage):
		return "notalineage"
	case is(terrors.ErrInvalidSchemasOrder):
		return "schemasorder"
	case is(terrors.ErrInvalidLensesOrder):
		return "lensesorder"
	case is(terrors.ErrMissingLenses):
		return "missinglenses"
	case is(terrors.ErrErroneousLenses):
		return "erroneouslenses"
	case is(terrors.ErrLensIncomplete), is(terrors.ErrLensResultIsInvalidData), is(terrors.ErrInvalidLens):
		return "lens"
	case is(terrors.ErrInvalidLineage):
		return "invalidlineage"
	case is(terrors.ErrVersionNotExist):
		return "noversion"
	case is(terrors.ErrInvalidData):
		return "invaliddata"
	}
	return "other"
}

// describe renders an instance: version, owning lineage and data.
func (w *world) describe(st *linState, i *thema.Instance) string {
	if i == nil {
		return "nil"
	}
	own := "own"
	if i.Schema().Lineage() != st.lin {
		own = "FOREIGN"
	}
	b, err := i.Underlying().MarshalJSON()
	if err != nil {
		return fmt.Sprintf("%s %s unmarshalable", vs(i.Schema().Version()), own)
	}
	return fmt.Sprintf("%s %s %s", vs(i.Schema().Version()), own, canonBytes(b))
}

func canonBytes(b []byte) string {
	var v any
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	if err := d.Decode(&v); err != nil {
		return "unparsable:" + string(b)
	}
	return canon(v)
}

func expInst(v V, val any) string { return fmt.Sprintf("%s own %s", v, canon(val)) }

func (w *world) data(st *linState, d any) cue.Value {
	if f := w.me().op.Open; f != "" {
		m := d.(map[string]any)
		var b strings.Builder
		for _, k := range sortedKeys(m) {
			v := jsonText(m[k])
			if k == f {
				switch m[k].(type) {
				case string:
					v = "string"
				case bool:
					v = "bool"
				default:
					v = "number"
				}
			}
			fmt.Fprintf(&b, "%q: %s\n", k, v)
		}
		return st.rt.ctx.CompileString(b.String())
	}
	// data come from different places
	switch id := w.me().op.ID; id % 4 {
	case 1:
		if e, err := cuejson.Extract("data.json", []byte(jsonText(d))); err == nil {
			return st.rt.ctx.BuildExpr(e)
		}
	case 2:
		return st.rt.ctx.Encode(plain(norm(d)))
	}
	return st.rt.ctx.CompileString(jsonText(d))
}

// plain has numbers of Go's own types.
func plain(v any) any {
	switch x := v.(type) {
	case map[string]any:
		o := map[string]any{}
		for k, y := range x {
			o[k] = plain(y)
		}
		return o
	case []any:
		o := []any{}
		for _, y := range x {
			o = append(o, plain(y))
		}
		return o
	case json.Number:
		if i, err := x.Int64(); err == nil {
			return i
		}
		f, _ := x.Float64()
		return f
	}
	return v
}

// exec runs one operation and returns what it did next to what the model says.
func (w *world) exec(op *Op) (res Res) {
	c := w.me()
	*c = opCtx{op: op}
	defer func() {
		res.Note += c.note
		if e := recover(); e != nil {
			res.Exp = c.exp
			if ip, ok := e.(injectedPanic); ok {
				res.Got = "panic:injected:" + ip.s
				return
			}
			res.Got = "panic"
			res.Note = fmt.Sprint(e) + " " + shortStack()
		}
		// instances handed to user code must not change behind its back
		for _, h := range c.held {
			js, _ := h.inst.Underlying().MarshalJSON()
			if h.inst.Schema().Version() != h.v || string(js) != h.js {
				res.Got += " HELD-INSTANCE-CHANGED"
			}
		}
	}()
	w.count("op:" + op.K)
	got, exp := w.do(op, c)
	res.Got, res.Exp = got, exp
	return res
}

func shortStack() string {
	s := string(debug.Stack())
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, ".go:") && !strings.Contains(l, "/src/") && !strings.Contains(l, "verifsim") {
			out = append(out, strings.TrimSpace(l))
			if len(out) == 6 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

func (w *world) inst(op *Op, st *linState) (*thema.Instance, any, V, string) {
	if op.I > 0 {
		s := w.insts[op.I-1]
		return s.inst, norm(s.spec.D), s.spec.V, ""
	}
	sch, err := st.lin.Schema(sv(op.V))
	if err != nil {
		return nil, nil, op.V, "err:" + class(err)
	}
	if len(op.Pre) > 0 {
		i, e := w.derive(st, op.V0, op.D0, op.Pre)
		if e != "" {
			return nil, nil, op.V, e
		}
		if g, x := w.describe(st, i), expInst(op.V, norm(op.D)); g != x {
			return nil, nil, op.V, fmt.Sprintf("after %v: %s instead of %s", op.Pre, g, x)
		}
		return i, norm(op.D), op.V, ""
	}
	i, err := sch.Validate(w.data(st, op.D))
	if err != nil {
		return nil, nil, op.V, "err:" + class(err)
	}
	return i, norm(op.D), op.V, ""
}

// derive makes an instance from data by the given steps.
func (w *world) derive(st *linState, v V, d any, steps []string) (*thema.Instance, string) {
	sch, err := st.lin.Schema(sv(v))
	if err != nil {
		return nil, "err:" + class(err)
	}
	i, err := sch.Validate(w.data(st, d))
	if err != nil {
		return nil, "err:" + class(err)
	}
	for _, s := range steps {
		switch s[0] {
		case 'h':
			i = i.Hydrate()
		case 'd':
			i = i.Dehydrate()
		case 't':
			var to V
			fmt.Sscanf(s[1:], "%d.%d", &to[0], &to[1])
			c := w.me()
			op, calls, held := c.op, c.calls, c.held
			c.op = &Op{} // the operation's faults are not for this
			i, _, err = i.Translate(sv(to))
			c.op, c.calls, c.held = op, calls, held
			if err != nil {
				return nil, fmt.Sprintf("after %v: err:%s %v", steps, class(err), err)
			}
		}
	}
	return i, ""
}

func (w *world) do(op *Op, c *opCtx) (got, exp string) {
	var st *linState
	if op.L < len(w.lins) {
		st = w.lins[op.L]
	}
	if op.I > 0 {
		st = w.lins[w.insts[op.I-1].spec.L]
	}
	return w.doOn(op, c, st)
}

func (w *world) doOn(op *Op, c *opCtx, st *linState) (got, exp string) {
	defer func() {
		if exp != "" {
			c.exp = exp // also where a lens panics
		}
	}()
	switch op.K {
	case "barrier":
		b := w.bars[op.B]
		b.Done()
		b.Wait()
		return "ok", "ok"

	case "validate":
		i := st.spec.Idx(op.V)
		d := norm(op.D)
		exp = "err:invaliddata"
		if st.spec.Schs[i].Ty.Valid(d) && op.Open == "" {
			exp = expInst(op.V, d)
		}
		sch, err := st.lin.Schema(sv(op.V))
		if err != nil {
			return "err:" + class(err), exp
		}
		in, err := sch.Validate(w.data(st, op.D))
		if err != nil {
			c.note = err.Error()
			if in != nil {
				return "err-and-instance", exp
			}
			if class(err) == "other" {
				return "err:invaliddata", exp
			}
			return "err:" + class(err), exp
		}
		w.keepInst(c, st, in)
		return w.describe(st, in), exp

	case "any":
		d := norm(op.D)
		exp = "nil"
		if i := st.spec.Any(d); i >= 0 {
			exp = expInst(st.spec.Schs[i].V, d)
		}
		in := st.lin.ValidateAny(w.data(st, op.D))
		w.keepInst(c, st, in)
		return w.describe(st, in), exp

	case "translate", "succ", "pred":
		inst, d, from, e := w.inst(op, st)
		if e != "" {
			return e, "instance"
		}
		before := w.describe(st, inst)
		to := op.To
		k := st.spec.Idx(from)
		if op.K == "succ" {
			to = st.spec.Schs[k+1].V
		} else if op.K == "pred" {
			to = st.spec.Schs[k-1].V
		}
		exp = w.expTranslate(op, st, from, to, d)
		var out *thema.Instance
		var lac thema.TranslationLacunas
		var err error
		switch op.K {
		case "translate":
			out, lac, err = inst.Translate(sv(to))
		case "succ":
			out, lac, err = inst.AsSuccessor()
		case "pred":
			out, lac, err = inst.AsPredecessor()
		}
		got = w.gotTranslate(st, out, lac, err, c)
		if w.describe(st, inst) != before {
			got += " SOURCE-INSTANCE-CHANGED"
		}
		return got, exp

	case "nav":
		return w.nav(st), expNav(st.spec)

	case "bind":
		if op.B > 0 {
			b := w.plan.Bads[op.B-1]
			exp = "err:" + b.Class
			if b.Skip && (b.Kind == "minorbreaks" || b.Kind == "minordrops" || b.Kind == "majorfits") {
				exp = "accepted" // the one thing that is not checked
			}
			rt := w.rts[op.L%len(w.rts)]
			v := rt.ctx.CompileString(b.Src)
			if b.Path != "" {
				v = v.LookupPath(cue.ParsePath(b.Path))
			}
			var opts []thema.BindOption
			if b.Skip {
				opts = append(opts, thema.SkipBuggyChecks())
			}
			if b.GoL != nil {
				var ls []thema.ImperativeLens
				for _, x := range b.GoL {
					il := thema.ImperativeLens{To: sv(x.To), From: sv(x.From)}
					if !x.Nil {
						il.Mapper = func(inst *thema.Instance, to thema.Schema) (*thema.Instance, error) { return nil, errInjected }
					}
					ls = append(ls, il)
				}
				opts = append(opts, thema.ImperativeLenses(ls...))
			}
			lin, err := thema.BindLineage(v, rt.rt, opts...)
			if err != nil {
				c.note = err.Error()
				if lin != nil {
					return "err-and-lineage", exp
				}
				cl := class(err)
				if b.Class == "any" {
					cl = "any"
				}
				if b.Class == "order-or-invalid" && (cl == "schemasorder" || cl == "invalidlineage") {
					cl = b.Class
				}
				return "err:" + cl, exp
			}
			return "accepted", exp
		}
		exp = "ok " + expNav(st.spec)
		ns, err := w.bind(st.spec, st.rt, op.X == "skip")
		if err != nil {
			c.note = err.Error()
			return "err:" + class(err), exp
		}
		return "ok " + w.nav(ns), exp

	case "newrt":
		// a runtime of its own, then real work in it
		exp = "ok " + expNav(st.spec)
		rt := newRT()
		if err := rt.rt.Underlying().Err(); err != nil {
			return "err", exp
		}
		ns, err := w.bind(st.spec, rt)
		if err != nil {
			c.note = err.Error()
			return "err:" + class(err), exp
		}
		got = "ok " + w.nav(ns)
		for i := range op.Sub {
			c.op = &op.Sub[i]
			g, e := w.doOn(c.op, c, ns)
			c.op = op
			got, exp = got+"; "+g, exp+"; "+e
		}
		return got, exp

	case "hydrate", "dehydrate":
		inst, d, v, e := w.inst(op, st)
		if e != "" {
			return e, "instance"
		}
		ty := st.spec.Schs[st.spec.Idx(v)].Ty
		before := w.describe(st, inst)
		var o *thema.Instance
		if op.K == "hydrate" {
			exp = expInst(v, ty.Fill(d))
			o = inst.Hydrate()
		} else {
			exp = expInst(v, ty.Trim(d))
			o = inst.Dehydrate()
		}
		w.keepInst(c, st, o)
		got = w.describe(st, o)
		if w.describe(st, inst) != before {
			got += " SOURCE-INSTANCE-CHANGED"
		}
		return got, exp

	case "examples":
		i := st.spec.Idx(op.V)
		sch, err := st.lin.Schema(sv(op.V))
		if err != nil {
			return "err:" + class(err), "ok"
		}
		s := st.spec.Schs[i]
		var e []string
		for _, k := range sortedKeys(s.Examples) {
			e = append(e, k+"="+expInst(op.V, s.Ty.Fill(norm(s.Examples[k]))))
		}
		ex := sch.Examples()
		var g []string
		for _, k := range sortedKeys(ex) {
			g = append(g, k+"="+w.describe(st, ex[k]))
		}
		for k := range ex { // the map is the client's
			ex[k] = nil
		}
		return strings.Join(g, ";"), strings.Join(e, ";")

	case "newt":
		ty := st.spec.Schs[len(st.spec.Schs)-1].Ty
		exp = canonT1(t1From(ty.Fill(map[string]any{"title": ""})))
		if op.X == "user" {
			if f := c.peek("unmarshal-"); f != nil {
				exp = "panic:injected:unmarshal"
			}
			c.exp = exp
			return canonT1(st.tsx.NewT().plain()), exp
		}
		t := st.ts.NewT()
		got = canonT1(*t)
		// what a client does to its value must not reach anybody else's
		t.Title, t.Mode, t.Count = "scribble", "scribble", -1
		t.Opts.X = "scribble"
		t.Items = append(t.Items, "scribble")
		if len(t.Items) > 0 {
			t.Items[0] = "scribble"
		}
		mine := st.ts.NewT()
		w.keep(c, func() string { return canonT1(*mine) })
		got2 := canonT1(*mine)
		if got2 != got {
			got += " THEN " + got2
		}
		return got, exp

	case "value":
		ty := st.spec.Schs[len(st.spec.Schs)-1].Ty
		d := norm(op.D)
		exp = "err:invaliddata"
		if ty.Valid(d) {
			exp = canonT1(t1From(ty.Fill(d)))
		}
		if op.X == "user" {
			if f := c.peek("unmarshal-"); f != nil && exp != "err:invaliddata" {
				exp = "panic:injected:unmarshal"
				if f.Kind == "unmarshal-error" {
					exp = "value-error"
				}
			}
			c.exp = exp
			ti, err := st.tsx.ValidateTyped(w.data(st, op.D))
			if err != nil {
				return "err:invaliddata", exp
			}
			v, err := ti.Value()
			if err != nil {
				return "value-error", exp
			}
			return canonT1(v.plain()), exp
		}
		ti, err := st.ts.ValidateTyped(w.data(st, op.D))
		if err != nil {
			return "err:invaliddata", exp
		}
		v, err := ti.Value()
		if err != nil {
			c.note = err.Error()
			return "value-error", exp
		}
		got = canonT1(*v)
		v.Title, v.Opts.X = "scribble", "scribble"
		if len(v.Items) > 0 {
			v.Items[0] = "scribble"
		}
		v2, err := ti.Value()
		if err == nil {
			w.keep(c, func() string { return canonT1(*v2) })
		}
		if err != nil || canonT1(*v2) != got {
			got += " THEN DIFFERENT"
		}
		return got, exp

	case "tinst":
		inst, d, v, e := w.inst(op, st)
		if e != "" {
			return e, "instance"
		}
		last := st.spec.Schs[len(st.spec.Schs)-1]
		exp = "err:notderived"
		if v == last.V {
			exp = canonT1(t1From(last.Ty.Fill(d)))
		}
		ti, err := thema.BindInstanceType[*T1](inst, st.ts)
		if err != nil {
			c.note = err.Error()
			if ti != nil {
				return "err-and-instance", exp
			}
			return "err:notderived", exp
		}
		val, err := ti.Value()
		if err != nil {
			c.note = err.Error()
			return "value-error", exp
		}
		w.keep(c, func() string { return canonT1(*val) })
		return canonT1(*val), exp

	case "bindtype":
		exp = "ok"
		if op.X == "user" {
			if f := c.peek("unmarshal-"); f != nil {
				exp = "panic:injected:unmarshal"
			}
			c.exp = exp
			if _, err := thema.BindType[*T1X](st.lin.Latest(), &T1X{}); err != nil {
				c.note = err.Error()
				return "err", exp
			}
			return "ok", exp
		}
		if op.X == "bad" {
			exp = "err"
			type notT1 struct {
				Title int32 `json:"title"`
			}
			if _, err := thema.BindType[*notT1](st.lin.Latest(), &notT1{}); err != nil {
				return "err", exp
			}
			return "ok", exp
		}
		if _, err := thema.BindType[*T1](st.lin.Latest(), &T1{}); err != nil {
			c.note = err.Error()
			return "err", exp
		}
		return "ok", exp

	case "assign":
		sch, err := st.lin.Schema(sv(op.V))
		if err != nil {
			return "err:noschema", exp
		}
		t, ok, what := goType(w.plan.Slots[op.L].Lin.Schs[w.plan.Slots[op.L].Lin.Idx(op.V)].Ty, op.S, op.X)
		exp = "err"
		if ok {
			exp = "ok"
		}
		c.note = what
		if err := thema.AssignableTo(sch, t); err != nil {
			c.note += " " + err.Error()
			return "err", exp
		}
		return "ok", exp

	case "appendonly":
		p := w.plan.Pairs[op.B-1]
		exp = "err"
		if p.OK {
			exp = "ok"
		}
		a, b := w.pairs[op.B-1][0], w.pairs[op.B-1][1]
		switch op.X {
		case "rev": // is the old one an extension of the new one?
			a, b = b, a
			exp = "err"
			if p.Kind == "same" || p.Kind == "deleted" {
				exp = "ok"
			}
		case "self":
			b, exp = a, "ok"
		}
		if err := thema.IsAppendOnly(a, b); err != nil {
			c.note = err.Error()
			return "err", exp
		}
		return "ok", exp

	case "mux":
		got, exp = w.doMux(op, st, c)
		return got, exp
	case "load":
		return w.doLoad(op, c)
	case "gen":
		return w.doGen(op, st, c)
	}
	panic("unknown op " + op.K)
}

func (w *world) keepInst(c *opCtx, st *linState, i *thema.Instance) {
	if i != nil {
		w.keep(c, func() string { return w.describe(st, i) })
	}
}

// peek finds a fault of the operation that user code is going to meet.
func (c *opCtx) peek(prefix string) *Flt {
	for i := range c.op.F {
		if strings.HasPrefix(c.op.F[i].Kind, prefix) {
			return &c.op.F[i]
		}
	}
	return nil
}

// theWorld is where user code called by thema finds its operation.
var theWorld *world

// UnmarshalJSON is user code that runs while thema decodes a value.
func (o *T1XOpts) UnmarshalJSON(b []byte) error {
	if w := theWorld; w != nil {
		if c := w.me(); c != nil && c.op != nil {
			sync.SimOp(903)
			if f := c.fault(func(f Flt) bool { return strings.HasPrefix(f.Kind, "unmarshal-") }); f != nil {
				w.count("fault:" + f.Kind)
				if f.Kind == "unmarshal-panic" {
					panic(injectedPanic{"unmarshal"})
				}
				return errInjected
			}
			if f := c.peek("unmarshal-error"); f != nil {
				return errInjected // and it goes on failing
			}
		}
	}
	return json.Unmarshal(b, (*T1Opts)(o))
}

func (t *T1X) plain() T1 {
	return T1{t.Title, t.Count, t.Tag, t.Mode, T1Opts(t.Opts), t.Items}
}

func t1From(v any) T1 {
	var t T1
	if err := json.Unmarshal([]byte(jsonText(v)), &t); err != nil {
		panic(err)
	}
	return t
}

func canonT1(t T1) string {
	if len(t.Items) == 0 {
		t.Items = []string{}
	}
	return jsonText(t)
}

func (w *world) gotTranslate(st *linState, out *thema.Instance, lac thema.TranslationLacunas, err error, c *opCtx) string {
	calls := ""
	if st.spec.Go {
		calls = " calls=" + strings.Join(c.calls, ",")
	}
	if err != nil {
		c.note = err.Error()
		if out != nil {
			return "err-and-instance" + calls
		}
		cl := class(err)
		if cl != "injected" && c.op.K == "mux" {
			cl = "rejected"
		} else if st.spec.Go && cl != "injected" {
			cl = "lens"
		}
		return "err:" + cl + calls
	}
	if out == nil {
		return "nil-and-no-error" + calls
	}
	w.keepInst(c, st, out)
	return w.describe(st, out) + calls + w.lacunas(c, lac)
}

func (w *world) lacunas(c *opCtx, lac thema.TranslationLacunas) string {
	if lac == nil {
		return ""
	}
	if xs := lac.AsList(); len(xs) > 0 {
		w.keep(c, func() string { return fmt.Sprintf("%+v", lac.AsList()) })
	}
	var xs []string
	for _, l := range lac.AsList() {
		refs := ""
		for _, f := range l.SourceFields {
			refs += f.Path + "=" + jsonText(norm(f.Value)) + ">"
		}
		for i, f := range l.TargetFields {
			if i > 0 {
				refs += ";"
			}
			refs += f.Path + "=" + jsonText(norm(f.Value))
		}
		xs = append(xs, fmt.Sprintf("%s/%d/%s", l.Message, l.Type, refs))
	}
	sort.Strings(xs)
	if len(xs) == 0 {
		return ""
	}
	return " lacunas=" + strings.Join(xs, ",")
}

// expTranslate predicts a translation, including the effect of injected lens faults.
func (w *world) expTranslate(op *Op, st *linState, from, to V, d any) string {
	l := st.spec
	tr := l.Translate(from, to, d)
	var calls []string
	ls := ""
	if l.Go {
		// walk again, applying the faults of this operation
		i, j := l.Idx(from), l.Idx(to)
		dir := 1
		if j < i {
			dir = -1
		}
		cur := d
		used := map[int]bool{}
		for k := i; k != j; k += dir {
			f, t := l.Schs[k].V, l.Schs[k+dir].V
			if dir > 0 && f[0] == t[0] {
				continue
			}
			calls = append(calls, fmt.Sprintf("%s->%s(%s,%s)", f, t, f, t))
			cs := " calls=" + strings.Join(calls, ",")
			for x, fl := range op.F {
				if used[x] || fl.From != f || fl.To != t || !strings.HasPrefix(fl.Kind, "lens-") {
					continue
				}
				used[x] = true
				switch fl.Kind {
				case "lens-error", "lens-error-with-inst":
					return "err:injected" + cs
				case "lens-panic":
					return "panic:injected:lens"
				case "lens-nil", "lens-wrongver", "lens-same":
					return "err:lens" + cs
				case "lens-foreign":
					if t[0] > 3 || t[1] > 3 {
						return "err:injected" + cs
					}
					return "err:lens" + cs
				}
			}
			out, ok := l.Lens(f, t).Apply(cur.(map[string]any))
			if !ok || !l.Schs[k+dir].Ty.Valid(out) {
				return "err:lens" + cs
			}
			cur = out
		}
		ls = " calls=" + strings.Join(calls, ",")
	}
	if !tr.OK {
		return "err:lens" + ls
	}
	if op.K == "succ" && from[0] == to[0] {
		return expInst(to, d) + ls
	}
	var xs []string
	for _, x := range tr.Lacs {
		xs = append(xs, fmt.Sprintf("%s/%d/%s", x.Msg, x.Typ, x.Refs))
	}
	sort.Strings(xs)
	if len(xs) > 0 && !l.Go {
		ls += " lacunas=" + strings.Join(xs, ",")
	}
	return expInst(to, tr.Val) + ls
}

// nav walks a lineage through every navigation method.
func (w *world) nav(st *linState) string {
	var b strings.Builder
	lin := st.lin
	fmt.Fprintf(&b, "name=%s first=%s latest=%s all=", lin.Name(), vs(lin.First().Version()), vs(lin.Latest().Version()))
	all := lin.All()
	for _, s := range all {
		if v, err := thema.LatestVersionInSequence(lin, s.Version()[0]); err != nil || v != s.LatestInMajor().Version() {
			b.WriteString("LATEST-IN-SEQUENCE-MISMATCH")
		}
		fmt.Fprintf(&b, "%s(", vs(s.Version()))
		if n := s.Successor(); n != nil {
			fmt.Fprintf(&b, "s%s", vs(n.Version()))
		}
		if n := s.Predecessor(); n != nil {
			fmt.Fprintf(&b, "p%s", vs(n.Version()))
		}
		fmt.Fprintf(&b, "m%s", vs(s.LatestInMajor().Version()))
		x, err := lin.Schema(s.Version())
		if err != nil || x != s {
			b.WriteString("LOOKUP-MISMATCH")
		}
		if s.Lineage() != lin {
			b.WriteString("WRONG-LINEAGE")
		}
		b.WriteString(")")
	}
	// the list is the client's
	for i, j := 0, len(all)-1; i < j; i, j = i+1, j-1 {
		all[i], all[j] = all[j], all[i]
	}
	all[0] = nil
	last := lin.Latest().Version()
	if thema.LatestVersion(lin) != last {
		b.WriteString("LATEST-VERSION-MISMATCH")
	}
	if _, err := thema.LatestVersionInSequence(lin, last[0]+1); err == nil {
		b.WriteString("BOGUS-SEQUENCE")
	}
	for _, v := range []thema.SyntacticVersion{{last[0] + 1, 0}, {last[0], last[1] + 1}, {0, 99}, {99, 99}} {
		if s, err := lin.Schema(v); err == nil || s != nil || class(err) != "noversion" {
			fmt.Fprintf(&b, " BOGUS-%s", vs(v))
		}
	}
	return b.String()
}

func expNav(l *Lin) string {
	var b strings.Builder
	n := len(l.Schs)
	fmt.Fprintf(&b, "name=%s first=%s latest=%s all=", l.Name, l.Schs[0].V, l.Schs[n-1].V)
	for i, s := range l.Schs {
		fmt.Fprintf(&b, "%s(", s.V)
		if i+1 < n {
			fmt.Fprintf(&b, "s%s", l.Schs[i+1].V)
		}
		if i > 0 {
			fmt.Fprintf(&b, "p%s", l.Schs[i-1].V)
		}
		m := s.V
		for _, o := range l.Schs {
			if o.V[0] == s.V[0] && m.Less(o.V) {
				m = o.V
			}
		}
		fmt.Fprintf(&b, "m%s)", m)
	}
	return b.String()
}

// ------------------------------------------------------------- multiplexing

type simCodec struct {
	w     *world
	inner vmux.Codec
}

func (s simCodec) Decode(ctx *cue.Context, b []byte) (cue.Value, error) {
	c := s.w.me()
	sync.SimOp(901)
	if f := c.fault(func(f Flt) bool { return strings.HasPrefix(f.Kind, "decode-") }); f != nil {
		s.w.count("fault:" + f.Kind)
		switch f.Kind {
		case "decode-error":
			return cue.Value{}, fmt.Errorf("decoder: %w", errInjected)
		case "decode-error-with-value":
			v, _ := s.inner.Decode(ctx, b)
			return v, fmt.Errorf("decoder: %w", errInjected)
		case "decode-panic":
			panic(injectedPanic{"decode"})
		case "decode-short":
			// the decoder sees only part of the message
			return s.inner.Decode(ctx, b[:f.N%len(b)])
		case "decode-bottom":
			return ctx.CompileString(`_|_`), nil
		case "decode-zero":
			return cue.Value{}, nil
		}
	}
	return s.inner.Decode(ctx, b)
}

func (s simCodec) Encode(v cue.Value) ([]byte, error) {
	c := s.w.me()
	c.enc++
	sync.SimOp(902)
	if f := c.fault(func(f Flt) bool { return strings.HasPrefix(f.Kind, "encode-") }); f != nil {
		s.w.count("fault:" + f.Kind)
		switch f.Kind {
		case "encode-error":
			return nil, fmt.Errorf("encoder: %w", errInjected)
		case "encode-partial":
			b, _ := s.inner.Encode(v)
			return b[:len(b)/2], fmt.Errorf("encoder: %w", errInjected)
		case "encode-panic":
			panic(injectedPanic{"encode"})
		}
	}
	return s.inner.Encode(v)
}

var muxKinds = []string{"untyped/json", "untyped/yaml", "byte/json", "byte/yaml", "typed/json", "typed/yaml", "value/json", "value/yaml", "valueuser/json", "valueuser/yaml"}

func (w *world) makeMux(st *linState, kind string, v V) any {
	var codec vmux.Codec = vmux.NewJSONCodec("in.json")
	if strings.HasSuffix(kind, "/yaml") {
		codec = vmux.NewYAMLCodec("in.yaml")
	}
	codec = simCodec{w, codec}
	switch strings.Split(kind, "/")[0] {
	case "untyped":
		return vmux.NewUntypedMux(thema.SchemaP(st.lin, sv(v)), codec)
	case "byte":
		return vmux.NewByteMux(thema.SchemaP(st.lin, sv(v)), codec)
	case "typed":
		return vmux.NewTypedMux[*T1](st.ts, codec)
	case "value":
		return vmux.NewValueMux[*T1](st.ts, codec)
	case "valueuser":
		return vmux.NewValueMux[*T1X](st.tsx, codec)
	}
	panic("no mux kind " + kind)
}

func (w *world) doMux(op *Op, st *linState, c *opCtx) (got, exp string) {
	defer func() { c.exp = exp }()
	key := op.X + "/" + op.To.String()
	m := st.mux[key]
	if op.Own {
		m = w.makeMux(st, op.X, op.To)
	}
	if m == nil {
		panic("no mux " + key)
	}
	kind := strings.Split(op.X, "/")[0]
	text := layout(op.D, strings.HasSuffix(op.X, "yaml"), op.S)
	if raw, ok := op.D.(string); ok && strings.HasPrefix(raw, "raw:") {
		text = raw[4:]
	}
	// the client's buffer, of which the input is the first part
	buf := append([]byte(text), "0123456789abcdef"...)
	in := buf[:len(text)]
	exp = w.expMux(op, st, strings.TrimSuffix(kind, "user"))
	if kind == "valueuser" && !strings.HasPrefix(exp, "panic:") {
		switch f := c.peek("unmarshal-"); {
		case f == nil:
		case f.Kind == "unmarshal-panic":
			exp = "panic:injected:unmarshal"
		default: // only with data of the multiplexer's own version
			exp = "err:user"
			if st.spec.Go {
				exp += " calls="
			}
		}
	}
	c.exp = exp
	bufCopy := string(buf)
	switch f := m.(type) {
	case vmux.UntypedMux:
		i, lac, err := f(in)
		got = w.gotTranslate(st, i, lac, err, c)
	case vmux.TypedMux[*T1]:
		i, lac, err := f(in)
		var inst *thema.Instance
		if i != nil {
			inst = i.Instance
		}
		got = w.gotTranslate(st, inst, lac, err, c)
		if err == nil && i.TypedSchema() != st.ts {
			got += " WRONG-TYPED-SCHEMA"
		}
	case vmux.ByteMux:
		b, lac, err := f(in)
		if err == nil {
			w.keep(c, func() string { return string(b) })
		}
		got = gotBytes(b, lac, err, c, strings.HasSuffix(op.X, "yaml"))
		if err == nil {
			got += w.lacunas(c, lac)
		}
		if st.spec.Go {
			got += " calls=" + strings.Join(c.calls, ",")
		}
	case vmux.ValueMux[*T1]:
		t, lac, err := f(in)
		if err != nil {
			c.note = err.Error()
			got = "err:" + muxClass(err)
		} else {
			w.keep(c, func() string { return canonT1(*t) })
			got = canonT1(*t) + w.lacunas(c, lac)
		}
		if st.spec.Go {
			got += " calls=" + strings.Join(c.calls, ",")
		}
	}
	if f, ok := m.(vmux.ValueMux[*T1X]); ok {
		t, lac, err := f(in)
		if err != nil {
			c.note = err.Error()
			got = "err:" + muxClass(err)
			if c.peek("unmarshal-error") != nil {
				got = "err:user"
			}
		} else {
			got = canonT1(t.plain()) + w.lacunas(c, lac)
		}
		if st.spec.Go {
			got += " calls=" + strings.Join(c.calls, ",")
		}
	}
	if string(buf) != bufCopy {
		got += " INPUT-CHANGED"
	}
	for i := range buf {
		buf[i] = '#' // and the client uses it for something else
	}
	return got, exp
}

// layout writes data in one of the ways JSON or YAML can be written.
func layout(d any, isYAML bool, s uint64) string {
	var b bytes.Buffer
	compact := jsonText(d)
	switch s % 6 {
	case 1, 2:
		ind := "\t"
		if isYAML {
			ind = "  "
		}
		if err := json.Indent(&b, []byte(compact), "", ind); err != nil {
			panic(err)
		}
		if s%6 == 2 {
			return strings.ReplaceAll(b.String(), "\n", "\r\n") + "\r\n"
		}
		return b.String()
	case 3:
		return "\n \n" + compact + " \n\n"
	case 4:
		if m, ok := d.(map[string]any); ok && isYAML && len(m) > 0 {
			b.WriteString("# data\n---\n")
			blockYAML(&b, m, "")
			return b.String()
		}
		// the same text with escapes
		for _, r := range compact {
			if r == 'a' || r == 'e' {
				fmt.Fprintf(&b, "\\u%04x", r)
			} else {
				b.WriteRune(r)
			}
		}
		if json.Valid(b.Bytes()) { // not where it was no string
			return b.String()
		}
	}
	return compact
}

func blockYAML(b *bytes.Buffer, m map[string]any, ind string) {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		b.WriteString(ind + jsonText(k) + ":")
		switch v := m[k].(type) {
		case map[string]any:
			if len(v) > 0 {
				b.WriteString("\n")
				blockYAML(b, v, ind+"  ")
				continue
			}
		case []any:
			if len(v) > 0 {
				b.WriteString(" # a list\n")
				for _, e := range v {
					b.WriteString(ind + "- " + jsonText(e) + "\n")
				}
				continue
			}
		}
		b.WriteString(" " + jsonText(m[k]) + "\n")
	}
}

func muxClass(err error) string {
	if class(err) == "injected" {
		return "injected"
	}
	return "rejected"
}

func gotBytes(b []byte, lac thema.TranslationLacunas, err error, c *opCtx, isYAML bool) string {
	if err != nil {
		c.note = err.Error()
		return "err:" + muxClass(err)
	}
	if isYAML {
		v, e := yamlToJSON(b)
		if e != nil {
			return "unparsable-yaml:" + string(b)
		}
		return "bytes " + canon(v)
	}
	return "bytes " + canonBytes(b)
}

// expMux predicts a multiplexer call.
func (w *world) expMux(op *Op, st *linState, kind string) string {
	l := st.spec
	calls := ""
	if l.Go {
		calls = " calls="
	}
	d := op.D
	rejected := "err:rejected"
	mapErr := func(s string) string {
		if strings.HasPrefix(s, "err:lens") {
			return "err:rejected" + s[len("err:lens"):]
		}
		return s
	}
	dec := norm(d)
	bad := false
	if raw, ok := d.(string); ok && strings.HasPrefix(raw, "raw:") {
		bad = true
	}
	for _, f := range op.F {
		switch f.Kind {
		case "decode-error", "decode-error-with-value":
			return "err:injected" + calls
		case "decode-panic":
			return "panic:injected:decode"
		case "decode-bottom", "decode-zero":
			bad = true
		case "decode-short":
			bad = true
		}
	}
	if bad {
		return rejected + calls
	}
	i := l.Mux(op.To, dec)
	if i < 0 {
		return rejected + calls
	}
	var r string
	if l.Schs[i].V == op.To {
		r = expInst(op.To, dec) + calls
	} else {
		o := *op
		o.K = "translate"
		r = w.expTranslate(&o, st, l.Schs[i].V, op.To, dec)
	}
	r = mapErr(r)
	if kind == "byte" || kind == "value" {
		if strings.HasPrefix(r, "err:") || strings.HasPrefix(r, "panic:") {
			return r
		}
		for _, f := range op.F {
			if kind == "byte" {
				switch f.Kind {
				case "encode-error", "encode-partial":
					_, cs, _ := strings.Cut(r, " calls=")
					if l.Go {
						return "err:injected calls=" + cs
					}
					return "err:injected"
				case "encode-panic":
					return "panic:injected:encode"
				}
			}
		}
		val := dec
		if l.Schs[i].V != op.To {
			val = l.Translate(l.Schs[i].V, op.To, dec).Val
		}
		cs := ""
		if l.Go {
			_, c, _ := strings.Cut(r, " calls=")
			cs = " calls=" + c
		} else if _, x, ok := strings.Cut(r, " lacunas="); ok {
			cs = " lacunas=" + x
		}
		if kind == "byte" {
			return "bytes " + canon(val) + cs
		}
		ty := l.Schs[len(l.Schs)-1].Ty
		return canonT1(t1From(ty.Fill(val))) + cs
	}
	return r
}
