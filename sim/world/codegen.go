package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"

	"cuelang.org/go/cue"
	"cuelang.org/go/cue/format"
	copenapi "cuelang.org/go/encoding/openapi"
	tscue "github.com/grafana/thema/encoding/cue"
	"github.com/grafana/thema/encoding/gocode"
	"github.com/grafana/thema/encoding/jsonschema"
	"github.com/grafana/thema/encoding/openapi"
	"github.com/grafana/thema/encoding/typescript"
)

func cuePath(s string) cue.Path { return cue.ParsePath(s) }

func digest(b []byte) string {
	h := sha256.Sum256(b)
	return fmt.Sprintf("%d:%s", len(b), hex.EncodeToString(h[:8]))
}

var genKinds = []string{"openapi", "openapi-exp", "openapi-root", "openapi-shared", "openapi-shared", "openapi-group", "openapi-group-shared", "openapi-split", "openapi-sub",
	"jsonschema", "typescript", "typescript-root", "typescript-shared", "typescript-shared", "typescript-group", "typescript-alias",
	"gotypes", "gotypes-pkg", "gotypes-shared", "gotypes-shared", "gotypes-noptr", "gotypes-group", "gobinding", "gobinding-priv", "gobinding-shared", "gobinding-loader", "newlineage"}

// genShared are configurations a client keeps and uses for one generation
// after the other.
type genShared struct {
	oapi, group *openapi.Config
	ts          *typescript.TypeConfig
	gt          *gocode.TypeConfigOpenAPI
	gb          *gocode.BindingConfig
}

func (w *world) shared() *genShared {
	if w.gens == nil {
		w.gens = &genShared{
			oapi:  &openapi.Config{Config: &copenapi.Config{}},
			group: &openapi.Config{Config: &copenapi.Config{}, Group: true},
			ts:    &typescript.TypeConfig{},
			gt:    &gocode.TypeConfigOpenAPI{Config: &openapi.Config{}},
			gb:    &gocode.BindingConfig{EmbedPath: "x.cue", FactoryNameSuffix: true},
		}
	}
	return w.gens
}

// doGen runs one generator; the output is compared between executions of the
// same operation, never against a fixed text.
func (w *world) doGen(op *Op, st *linState, c *opCtx) (got, exp string) {
	sch, err := st.lin.Schema(sv(op.V))
	if err != nil {
		return "err:" + class(err), ""
	}
	var b []byte
	switch op.X {
	case "openapi", "openapi-exp", "openapi-root", "openapi-shared", "openapi-group", "openapi-group-shared", "openapi-split", "openapi-sub":
		var cfg *openapi.Config
		switch op.X {
		case "openapi-exp":
			cfg = &openapi.Config{Config: &copenapi.Config{ExpandReferences: true}}
		case "openapi-root":
			cfg = &openapi.Config{RootName: "Root" + op.V.String()[:1]}
		case "openapi-shared":
			cfg = w.shared().oapi
		case "openapi-group":
			cfg = &openapi.Config{Group: true}
		case "openapi-group-shared":
			cfg = w.shared().group
		case "openapi-split":
			cfg = &openapi.Config{SplitSchema: true}
		case "openapi-sub":
			cfg = &openapi.Config{Subpath: cue.MakePath(cue.Str(st.spec.Schs[st.spec.Idx(op.V)].Ty.Fields[0].Name))}
		}
		f, e := openapi.GenerateSchema(sch, cfg)
		err = e
		if e == nil {
			b, err = format.Node(f)
		}
	case "jsonschema":
		f, e := jsonschema.GenerateSchema(sch)
		err = e
		if e == nil {
			b, err = format.Node(f)
		}
	case "typescript", "typescript-root", "typescript-shared", "typescript-group", "typescript-alias":
		var cfg *typescript.TypeConfig
		switch op.X {
		case "typescript-root":
			cfg = &typescript.TypeConfig{RootName: "Root", Group: false}
		case "typescript-shared":
			cfg = w.shared().ts
		case "typescript-group":
			cfg = &typescript.TypeConfig{Group: true}
		case "typescript-alias":
			cfg = &typescript.TypeConfig{RootAsType: true}
		}
		f, e := typescript.GenerateTypes(sch, cfg)
		err = e
		if e == nil {
			b = []byte(f.String())
		}
	case "gotypes", "gotypes-pkg", "gotypes-shared", "gotypes-noptr", "gotypes-group":
		var cfg *gocode.TypeConfigOpenAPI
		switch op.X {
		case "gotypes-pkg":
			cfg = &gocode.TypeConfigOpenAPI{PackageName: "special"}
		case "gotypes-shared":
			cfg = w.shared().gt
		case "gotypes-noptr":
			cfg = &gocode.TypeConfigOpenAPI{NoOptionalPointers: true, UseGoDeclInComments: true}
		case "gotypes-group":
			cfg = &gocode.TypeConfigOpenAPI{Config: &openapi.Config{Group: true}}
		}
		b, err = gocode.GenerateTypesOpenAPI(sch, cfg)
	case "gobinding", "gobinding-priv", "gobinding-shared", "gobinding-loader":
		cfg := &gocode.BindingConfig{EmbedPath: "x.cue", PrivateFactory: op.X == "gobinding-priv"}
		switch op.X {
		case "gobinding-shared":
			cfg = w.shared().gb
		case "gobinding-loader":
			cfg = &gocode.BindingConfig{CueModName: "example.com/x", LoadDir: "cue", CuePath: cue.ParsePath("lin"), PackageName: "bind"}
		}
		b, err = gocode.GenerateLineageBinding(st.lin, cfg)
	case "newlineage":
		v := st.rt.ctx.CompileString(st.spec.Schs[0].Ty.cue(""))
		f, e := tscue.NewLineage(v, st.spec.Name, "pkg")
		err = e
		if e == nil {
			b, err = format.Node(f)
		}
	default:
		panic("gen " + op.X)
	}
	if err != nil {
		c.note = err.Error()
		return "err", ""
	}
	if w.plan.Dump {
		c.note = string(b)
	}
	return "out " + digest(b), ""
}
