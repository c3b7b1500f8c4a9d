From c1fc6268dee5d72bc163e0a2094b25e246cdb8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:02 +0000
Subject: [PATCH 01/40] fix: LatestInMajor returned the next major version's
 schema, or panicked

searchSynv yields the index of the first schema of the following major
version; the newest schema of the receiver's major is the one before it.
---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index b685310..484822f 100644
--- a/schema.go
+++ b/schema.go
@@ -137,7 +137,7 @@ func (sch *schemaDef) predecessor() *schemaDef {
 // within this Schema's major version. If the receiver Schema is the latest, it
 // will return itself.
 func (sch *schemaDef) LatestInMajor() Schema {
-	return sch.lin.allsch[searchSynv(sch.lin.allv, SyntacticVersion{sch.v[0] + 1, 0})]
+	return sch.lin.allsch[searchSynv(sch.lin.allv, SyntacticVersion{sch.v[0] + 1, 0})-1]
 }
 
 // Underlying returns the cue.Value that represents the underlying CUE #SchemaDef.
-- 
2.43.0


From 60cbdc19422b3aaabd9b8d0968d58600d5fe985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:02 +0000
Subject: [PATCH 02/40] fix: count schemas per major version correctly with
 four or more majors

_counts subtracted the sum of all preceding start positions instead of the
start position of the major version itself. From four majors on the flat
index was wrong (translation used the wrong schemas), from five on the
lineage could not be bound at all.
---
 lineage.cue | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lineage.cue b/lineage.cue
index 418e442..aec8c2c 100644
--- a/lineage.cue
+++ b/lineage.cue
@@ -123,7 +123,7 @@ import (
 	if len(SS) > 1 {
 		_pos: [0, for i, sch in list.Drop(SS, 1) if SS[i].version[0] < sch.version[0] {i + 1}]
 		_counts: [ for i, idx in list.Slice(_pos, 0, len(_pos)-1) {
-			_pos[i+1] - list.Sum(list.Slice(_pos, 0, i+1))
+			_pos[i+1] - idx
 		}, len(SS) - _pos[len(_pos)-1]]
 
 		// The following approach to the above:
-- 
2.43.0


From d04609114d1983e865f54a65cce3f6644a0492c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:43 +0000
Subject: [PATCH 03/40] fix: Hydrate and Dehydrate worked on the #SchemaDef
 instead of the schema

Both traversed the whole schema declaration (version, schema, examples, ...),
so Hydrate filled in nothing or declaration fields, and Dehydrate removed
nothing. Look up the actual schema, and take the runtime's read lock for the
evaluation, as Validate does.
---
 instance.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/instance.go b/instance.go
index ec03f9a..fa3b3ce 100644
--- a/instance.go
+++ b/instance.go
@@ -59,8 +59,9 @@ func (i *Instance) check() {
 func (i *Instance) Hydrate() *Instance {
 	i.check()
 
-	i.sch.Lineage().Runtime()
-	ni, err := doHydrate(i.sch.Underlying(), i.raw)
+	i.rt().rl()
+	defer i.rt().ru()
+	ni, err := doHydrate(i.sch.Underlying().LookupPath(pathSchDef), i.raw)
 	// FIXME For now, just no-op it if we error
 	if err != nil {
 		return i
@@ -82,7 +83,9 @@ func (i *Instance) Hydrate() *Instance {
 func (i *Instance) Dehydrate() *Instance {
 	i.check()
 
-	ni, _, err := doDehydrate(i.sch.Underlying(), i.raw)
+	i.rt().rl()
+	defer i.rt().ru()
+	ni, _, err := doDehydrate(i.sch.Underlying().LookupPath(pathSchDef), i.raw)
 	// FIXME For now, just no-op it if we error
 	if err != nil {
 		return i
-- 
2.43.0


From 060f4de1b2136a4c7bff5d02da468309a83c80ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:44 +0000
Subject: [PATCH 04/40] fix: translateGo overwrote instances it had handed to
 Go migrations

The intermediate instance was passed to a Mapper and then overwritten in
place with the next step's result, so an instance retained by a Mapper
silently became an instance of another version. An instance returned by the
last Mapper was also copied instead of returned.
---
 instance.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/instance.go b/instance.go
index fa3b3ce..c3c3e11 100644
--- a/instance.go
+++ b/instance.go
@@ -265,8 +265,7 @@ func (i *Instance) translateGo(to SyntacticVersion) (*Instance, TranslationLacun
 	lensmap := i.Schema().Lineage().(*baseLineage).lensmap
 
 	sch := i.Schema()
-	ti := new(Instance)
-	*ti = *i
+	ti := i
 	for sch.Version() != to {
 		var nsch Schema
 		if to.Less(from) {
@@ -300,7 +299,7 @@ func (i *Instance) translateGo(to SyntacticVersion) (*Instance, TranslationLacun
 				panic(fmt.Sprintf("unreachable - error on minor version upgrade: %s", err))
 			}
 		}
-		*ti = *rti
+		ti = rti
 		sch = nsch
 	}
 
-- 
2.43.0


From 67f318091aa9d54e2eb4d068789f1b6cf32f661c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:44 +0000
Subject: [PATCH 05/40] fix: translateGo accepted an instance of another
 lineage from a Go migration

Only the version number of the returned instance was checked, so a Mapper
returning an instance of an unrelated lineage made Translate return it as
the translated instance.
---
 instance.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/instance.go b/instance.go
index c3c3e11..5755f47 100644
--- a/instance.go
+++ b/instance.go
@@ -289,6 +289,9 @@ func (i *Instance) translateGo(to SyntacticVersion) (*Instance, TranslationLacun
 			if rti == nil {
 				return nil, nil, fmt.Errorf("lens returned a nil instance")
 			}
+			if rti.Schema().Lineage() != nsch.Lineage() {
+				return nil, nil, fmt.Errorf("lens returned an instance of a different lineage: expected %q, got %q", nsch.Lineage().Name(), rti.Schema().Lineage().Name())
+			}
 			if rti.Schema().Version() != nsch.Version() {
 				return nil, nil, fmt.Errorf("lens returned an instance of the wrong schema version: expected %v, got %v", nsch.Version(), rti.Schema().Version())
 			}
-- 
2.43.0


From 76f70a8d89508525869a0c87ffbdefba3ad8fe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:44 +0000
Subject: [PATCH 06/40] fix: concurrent NewRuntime calls raced on the shared
 build instance

BuildInstance resolves identifiers in the AST of the process-wide themaBI in
place, so creating runtimes for distinct contexts concurrently was a data
race. Serialise it.
---
 runtime.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/runtime.go b/runtime.go
index ec03373..00b82b5 100644
--- a/runtime.go
+++ b/runtime.go
@@ -16,6 +16,9 @@ import (
 var rtOnce sync.Once
 var themaBI *build.Instance
 
+// buildMut guards building of themaBI, which all runtimes share.
+var buildMut sync.Mutex
+
 func loadRuntime() *build.Instance {
 	rtOnce.Do(func() {
 		path := filepath.Join(util.Prefix, "github.com", "grafana", "thema")
@@ -79,7 +82,12 @@ func NewRuntime(ctx *cue.Context) *Runtime {
 	if ctx == nil {
 		panic("nil context provided")
 	}
-	rt := ctx.BuildInstance(loadRuntime())
+	bi := loadRuntime()
+
+	// Building resolves references in the shared *build.Instance in place.
+	buildMut.Lock()
+	rt := ctx.BuildInstance(bi)
+	buildMut.Unlock()
 
 	// FIXME preload all the known funcs into a map[string]cue.Value here to avoid runtime cost
 	return &Runtime{
-- 
2.43.0


From ea87acf896d23b15cc195990d771f57eeb07f032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:52 +0000
Subject: [PATCH 07/40] fix: BindLineage accepted gaps, repetitions and a first
 version other than 0.0

A schema's version has exactly one correct value, determined by its position.
Only descending versions were rejected; lineages with other wrong versions
were bound and then navigated and translated wrongly, or panicked later.
---
 bind.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/bind.go b/bind.go
index 572cfc3..c7fcef7 100644
--- a/bind.go
+++ b/bind.go
@@ -111,7 +111,7 @@ func (ml *maybeLineage) checkGoValidity(cfg *bindConfig) error {
 		previous = sch
 	}
 
-	return nil
+	return ml.checkSchemasContiguous()
 }
 
 func (ml *maybeLineage) checkSchemasOrder(prev, curr *schemaDef) error {
@@ -126,6 +126,27 @@ func (ml *maybeLineage) checkSchemasOrder(prev, curr *schemaDef) error {
 	return nil
 }
 
+// checkSchemasContiguous checks that each schema has the one correct version for
+// its position: 0.0 for the first, and for all others either the next minor
+// version in the same major, or the first of the next major.
+func (ml *maybeLineage) checkSchemasContiguous() error {
+	for i, sch := range ml.schlist {
+		if i == 0 {
+			if sch.v != synv() {
+				return errors.Mark(mkerror(sch.ref.LookupPath(pathSch), "first schema version must be %s, got %s", synv(), sch.v), terrors.ErrInvalidSchemasOrder)
+			}
+			continue
+		}
+
+		prev := ml.schlist[i-1].v
+		if sch.v != synv(prev[0], prev[1]+1) && sch.v != synv(prev[0]+1) {
+			return errors.Mark(mkerror(sch.ref.LookupPath(pathSch), "schema version %s does not directly follow previous schema version %s", sch.v, prev), terrors.ErrInvalidSchemasOrder)
+		}
+	}
+
+	return nil
+}
+
 func (ml *maybeLineage) checkExists(cfg *bindConfig) error {
 	p := ml.raw.Path().String()
 	// The candidate lineage must exist.
-- 
2.43.0


From 9e5e663f2e82c88f95cae9347eda106694111857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:01 +0000
Subject: [PATCH 08/40] fix: translation failed whenever a lens emitted a
 lacuna

#Translate selected a field that #Lacuna does not have, so any applicable
lacuna turned the translation into an error, and Translate looked for
lacunas at a path #Translate never filled. Collect the lacunas of all steps
in out.lacunas in the form multiTranslationLacunas decodes, and report a
failure to decode them.
---
 instance.go   |  4 +++-
 translate.cue | 15 +++++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/instance.go b/instance.go
index 5755f47..ce19847 100644
--- a/instance.go
+++ b/instance.go
@@ -236,7 +236,9 @@ func (i *Instance) Translate(to SyntacticVersion) (*Instance, TranslationLacunas
 	}
 
 	lac := make(multiTranslationLacunas, 0)
-	out.LookupPath(cue.MakePath(cue.Str("lacunas"))).Decode(&lac)
+	if err := out.LookupPath(cue.MakePath(cue.Str("lacunas"))).Decode(&lac); err != nil {
+		return nil, nil, errors.Mark(fmt.Errorf("lens produced invalid lacunas: %s", cerrors.Details(err, nil)), terrors.ErrInvalidLens)
+	}
 
 	// Attempt to evaluate #Translate result to remove intermediate structures created by #Translate.
 	// Otherwise, all the #Translate results are non-concrete, which leads to undesired effects.
diff --git a/translate.cue b/translate.cue
index c92e5e3..a07a5fd 100644
--- a/translate.cue
+++ b/translate.cue
@@ -40,6 +40,17 @@ import "list"
 			to:     TV
 			result: *steps[len(steps)-1].result | I
 		}
+
+		// lacunas emitted by each step, identified by the version translated to
+		lacunas: [ for step in steps if len(step.lacunas) > 0 {
+			v: step.to
+			lacunas: [ for lac in step.lacunas {
+				sourceFields: lac.sourceFields
+				targetFields: lac.targetFields
+				message:      lac.message
+				type:         lac.type.id
+			}]
+		}]
 	}
 	out: {
 		steps: [
@@ -72,7 +83,7 @@ import "list"
 					to:   _lens.to
 					// TODO initial input isn't necessarily unified with schema - does that make translated output meaningfully different?
 					result: {_lens.result, schdef._#schema}
-					lacunas: [ for lac in _lens.lacunas if lac.condition {lac.lacuna}]
+					lacunas: [ for lac in _lens.lacunas if lac.condition {lac}]
 				}]
 
 				// Final value excludes first element (initial input) from accum
@@ -115,7 +126,7 @@ import "list"
 						to:   schdef.version
 						//						result: {_lens.result, schdef._#schema, {lidx: lensidx}}
 						result: {_lens.result, schdef._#schema}
-						lacunas: [ for lac in _lens.lacunas if lac.condition {lac.lacuna}]
+						lacunas: [ for lac in _lens.lacunas if lac.condition {lac}]
 						// Crossing a major version. The forward lens explicitly defined in the schema
 						// provides the mapping algorithm.
 					}
-- 
2.43.0


From 4d851109eb8951a79208859e75bb83a4bd807920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:56 +0000
Subject: [PATCH 09/40] fix: translating over several schemas failed on absent
 optional fields

An intermediate translation result carried the constraints of its schema.
The next lens then saw absent optional enum fields as present, and the
translation failed although every single step of it succeeds.
---
 instance.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/instance.go b/instance.go
index ce19847..aa52387 100644
--- a/instance.go
+++ b/instance.go
@@ -220,6 +220,19 @@ func (i *Instance) Translate(to SyntacticVersion) (*Instance, TranslationLacunas
 		panic(fmt.Sprintf("no schema in lineage with version %v, cannot translate", to))
 	}
 
+	// Translate one schema at a time, so that each lens is given only data as input.
+	if next := i.toward(to); next != to {
+		ti, lac, err := i.Translate(next)
+		if err != nil {
+			return nil, nil, err
+		}
+		ti, more, err := ti.Translate(to)
+		if err != nil {
+			return nil, nil, err
+		}
+		return ti, append(lac.(multiTranslationLacunas), more.(multiTranslationLacunas)...), nil
+	}
+
 	out, err := cueArgs{
 		"inst": i.raw,
 		"to":   to,
@@ -245,11 +258,19 @@ func (i *Instance) Translate(to SyntacticVersion) (*Instance, TranslationLacunas
 	raw, _ := out.LookupPath(cue.MakePath(cue.Str("result"), cue.Str("result"))).Default()
 
 	// Check that the result is concrete by trying to marshal/export it as JSON
-	_, err = json.Marshal(raw)
+	data, err := json.Marshal(raw)
 	if err != nil {
 		return nil, nil, errors.Mark(fmt.Errorf("lens produced a non-concrete result: %s", cerrors.Details(err, nil)), terrors.ErrLensIncomplete)
 	}
 
+	// Keep only the data. Beyond it, raw carries the constraints of the target schema,
+	// and its absent optional fields would look present to the next lens.
+	expr, err := json.Unmarshal([]byte(data))
+	if err != nil {
+		panic(fmt.Errorf("unreachable - JSON exported from CUE is invalid: %w", err))
+	}
+	raw = raw.Context().BuildExpr(expr)
+
 	// Ensure the result is a valid instance of the target schema
 	inst, err := newsch.Validate(raw)
 	if err != nil {
@@ -258,6 +279,19 @@ func (i *Instance) Translate(to SyntacticVersion) (*Instance, TranslationLacunas
 	return inst, lac, err
 }
 
+// toward returns the version adjacent to that of the instance's schema in the
+// direction of the provided version.
+func (i *Instance) toward(to SyntacticVersion) SyntacticVersion {
+	switch from := i.Schema().Version(); {
+	case from.Less(to):
+		return i.Schema().Successor().Version()
+	case to.Less(from):
+		return i.Schema().Predecessor().Version()
+	default:
+		return to
+	}
+}
+
 func (i *Instance) translateGo(to SyntacticVersion) (*Instance, TranslationLacunas, error) {
 	from := i.Schema().Version()
 	if to == from {
-- 
2.43.0


From 94849f497e98cd37db8e52d0bf72c03676156913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:37 +0000
Subject: [PATCH 10/40] fix: concurrent AssignableTo and BindType calls could
 panic

Encoding a Go type fills the type cache of the CUE context and is not safe
for concurrent use; a read lock let two callers do it at the same time.
---
 assignable.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/assignable.go b/assignable.go
index f97fba5..7c66298 100644
--- a/assignable.go
+++ b/assignable.go
@@ -27,8 +27,10 @@ import (
 // Assignability rules are specified here: https://github.com/grafana/thema/blob/main/docs/invariants.md#go-assignability
 func AssignableTo(sch Schema, T any) error {
 	rt := sch.Lineage().Runtime()
-	rt.rl()
-	defer rt.ru()
+	// Encoding a Go type populates the type cache of the CUE context, which
+	// is not safe to do concurrently.
+	rt.l()
+	defer rt.u()
 	return assignable(sch.Underlying().LookupPath(pathSchDef), T)
 }
 
-- 
2.43.0


From 17d3f882da805f90708c4a3653cdd2a85c78937d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:06 +0000
Subject: [PATCH 11/40] fix: concurrent Validate calls raced on the schema's
 list literals

Evaluating CUE values lazily writes to structures that they share, so a
shared lock does not protect operations that only evaluate.
---
 runtime.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/runtime.go b/runtime.go
index 00b82b5..4f32151 100644
--- a/runtime.go
+++ b/runtime.go
@@ -68,7 +68,7 @@ type Runtime struct {
 
 	// Until CUE is safe for certain concurrent operations, keep a mutex to
 	// help guard...at least somewhat.
-	mut sync.RWMutex
+	mut sync.Mutex
 }
 
 // NewRuntime parses, loads and builds a full CUE instance/value representing
@@ -95,14 +95,15 @@ func NewRuntime(ctx *cue.Context) *Runtime {
 	}
 }
 
+// rl locks the runtime for an operation that does not modify it. Such operations
+// still exclude each other, because evaluating CUE values, as all of them do, lazily
+// writes to the structures those values share.
 func (rt *Runtime) rl() {
-	rt.mut.RLock()
-	// rt.mut.Lock()
+	rt.mut.Lock()
 }
 
 func (rt *Runtime) ru() {
-	rt.mut.RUnlock()
-	// rt.mut.Unlock()
+	rt.mut.Unlock()
 }
 
 func (rt *Runtime) l() {
-- 
2.43.0


From 56396df607ac9eef5714cca24b3d0a1ad2f3d42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:24 +0000
Subject: [PATCH 12/40] fix: concurrent calls of YAML byte muxes wrote to a map
 of the CUE context

---
 vmux/mux.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vmux/mux.go b/vmux/mux.go
index 9435d0b..0478770 100644
--- a/vmux/mux.go
+++ b/vmux/mux.go
@@ -3,6 +3,7 @@ package vmux
 import (
 	"encoding/json"
 	"strings"
+	"sync"
 
 	"cuelang.org/go/cue"
 	cjson "cuelang.org/go/encoding/json"
@@ -95,7 +96,14 @@ func (e yamlCodec) Decode(ctx *cue.Context, data []byte) (cue.Value, error) {
 	return ctx.BuildFile(expr), nil
 }
 
+// Exporting a value to YAML registers its build instance in a map of the
+// value's cue.Context, which is not safe to do concurrently.
+var yamlEncodeMut sync.Mutex
+
 func (e yamlCodec) Encode(v cue.Value) ([]byte, error) {
+	yamlEncodeMut.Lock()
+	defer yamlEncodeMut.Unlock()
+
 	s, err := pyaml.Marshal(v)
 	return []byte(s), err
 }
-- 
2.43.0


From 0d7f44e48de47a87edefaea1815f6a7d49e1fa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:39 +0000
Subject: [PATCH 13/40] fix: IsAppendOnly evaluated schemas without locking
 their runtimes

---
 lineage.go |  3 +++
 runtime.go | 21 +++++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/lineage.go b/lineage.go
index 6511269..fb82f59 100644
--- a/lineage.go
+++ b/lineage.go
@@ -301,6 +301,9 @@ func IsAppendOnly(oldLineage Lineage, newLineage Lineage) error {
 		return fmt.Errorf("schemas can't be deleted once published")
 	}
 
+	// Comparing schemas evaluates them, which requires exclusive use of their runtimes.
+	defer lockBoth(oldLineage.Runtime(), newLineage.Runtime())()
+
 	for i, schema := range oldSchemas {
 		schemaPath := "schema"
 		oldSchema := schema.Underlying()
diff --git a/runtime.go b/runtime.go
index 4f32151..3907a6b 100644
--- a/runtime.go
+++ b/runtime.go
@@ -114,6 +114,27 @@ func (rt *Runtime) u() {
 	rt.mut.Unlock()
 }
 
+// bothMut is held while acquiring the locks of two runtimes.
+var bothMut sync.Mutex
+
+// lockBoth locks two runtimes, which may be the same one, and returns a func that
+// unlocks them.
+func lockBoth(rt1, rt2 *Runtime) func() {
+	if rt1 == rt2 {
+		rt1.l()
+		return rt1.u
+	}
+
+	bothMut.Lock()
+	defer bothMut.Unlock()
+	rt1.l()
+	rt2.l()
+	return func() {
+		rt2.u()
+		rt1.u()
+	}
+}
+
 // Underlying returns the underlying cue.Value representing the whole Thema CUE
 // library (github.com/grafana/thema).
 func (rt *Runtime) Underlying() cue.Value {
-- 
2.43.0


From 71a732f2bdbdbc83ec4fdca5d90830230fd7d924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:04 +0000
Subject: [PATCH 14/40] fix: detect added and removed defaults when comparing
 published schemas

---
 internal/cuetil/equal.go | 45 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/internal/cuetil/equal.go b/internal/cuetil/equal.go
index 0964398..f6e6128 100644
--- a/internal/cuetil/equal.go
+++ b/internal/cuetil/equal.go
@@ -1,10 +1,13 @@
 package cuetil
 
 import (
+	"fmt"
+
 	"cuelang.org/go/cue"
 )
 
-// Equal reports nil when the two cue values subsume each other or an error otherwise
+// Equal reports nil when the two cue values subsume each other and have the
+// same defaults, or an error otherwise
 func Equal(val1 cue.Value, val2 cue.Value) error {
 	if err := val1.Subsume(val2, cue.Raw()); err != nil {
 		return err
@@ -14,5 +17,45 @@ func Equal(val1 cue.Value, val2 cue.Value) error {
 		return err
 	}
 
+	return sameDefaults(val1, val2)
+}
+
+// sameDefaults reports an error if one of the values, which subsume each
+// other, has a default where the other has none. Subsumption alone does not
+// tell: string and *"a" | string subsume each other.
+func sameDefaults(val1 cue.Value, val2 cue.Value) error {
+	_, has1 := val1.Default()
+	_, has2 := val2.Default()
+	if has1 != has2 {
+		return fmt.Errorf("%s: default values differ", val1.Path())
+	}
+
+	if val1.IncompleteKind() == cue.ListKind {
+		elem := cue.MakePath(cue.AnyIndex)
+		elem1, elem2 := val1.LookupPath(elem), val2.LookupPath(elem)
+		if elem1.Exists() && elem2.Exists() {
+			return sameDefaults(elem1, elem2)
+		}
+		return nil
+	}
+
+	if val1.IncompleteKind() != cue.StructKind {
+		return nil
+	}
+	iter, err := val1.Fields(cue.Optional(true))
+	if err != nil {
+		return nil // not a single struct, nothing to descend into
+	}
+	for iter.Next() {
+		sel := iter.Selector()
+		if iter.IsOptional() {
+			sel = sel.Optional()
+		}
+		if field2 := val2.LookupPath(cue.MakePath(sel)); field2.Exists() {
+			if err := sameDefaults(iter.Value(), field2); err != nil {
+				return err
+			}
+		}
+	}
 	return nil
 }
-- 
2.43.0


From 739c2b218d48ba5cc7af065f349b0d1950fcf721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:09 +0000
Subject: [PATCH 15/40] fix: generators no longer write into the configuration
 of their caller

---
 encoding/gocode/gen.go     | 7 ++++---
 encoding/openapi/oapi.go   | 7 +++++++
 encoding/typescript/gen.go | 4 ++++
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/encoding/gocode/gen.go b/encoding/gocode/gen.go
index f76cd5c..5267884 100644
--- a/encoding/gocode/gen.go
+++ b/encoding/gocode/gen.go
@@ -94,12 +94,13 @@ func GenerateTypesOpenAPI(sch thema.Schema, cfg *TypeConfigOpenAPI) ([]byte, err
 	if err != nil {
 		return nil, fmt.Errorf("loading generated openapi failed: %w", err)
 	}
-	if cfg.PackageName == "" {
-		cfg.PackageName = sch.Lineage().Name()
+	pkgName := cfg.PackageName
+	if pkgName == "" {
+		pkgName = sch.Lineage().Name()
 	}
 
 	ccfg := codegen.Configuration{
-		PackageName: cfg.PackageName,
+		PackageName: pkgName,
 		Compatibility: codegen.CompatibilityOptions{
 			AlwaysPrefixEnumValues: true,
 		},
diff --git a/encoding/openapi/oapi.go b/encoding/openapi/oapi.go
index 4855e10..9d40d66 100644
--- a/encoding/openapi/oapi.go
+++ b/encoding/openapi/oapi.go
@@ -55,8 +55,15 @@ func GenerateSchema(sch thema.Schema, cfg *Config) (*ast.File, error) {
 	if cfg == nil {
 		cfg = &Config{}
 	}
+	// Fields of the config are set below. Work on a copy, as the caller may use
+	// its config again.
+	cfgc := *cfg
+	cfg = &cfgc
 	if cfg.Config == nil {
 		cfg.Config = &openapi.Config{}
+	} else {
+		ocfg := *cfg.Config
+		cfg.Config = &ocfg
 	}
 
 	gen := &oapiGen{
diff --git a/encoding/typescript/gen.go b/encoding/typescript/gen.go
index 4b5a3d9..a64e66e 100644
--- a/encoding/typescript/gen.go
+++ b/encoding/typescript/gen.go
@@ -62,6 +62,10 @@ func GenerateTypes(sch thema.Schema, cfg *TypeConfig) (*ast.File, error) {
 	if cfg == nil {
 		cfg = new(TypeConfig)
 	}
+	// Defaults are filled in below. Work on a copy, as the caller may use its
+	// config for other schemas.
+	cfgc := *cfg
+	cfg = &cfgc
 	if cfg.CuetsyConfig == nil {
 		cfg.CuetsyConfig = &cuetsy.Config{
 			ImportMapper: cuetsy.IgnoreImportMapper,
-- 
2.43.0


From 320fb12bc0994376e66016998bd0db4629086242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:19 +0000
Subject: [PATCH 16/40] fix: release the runtime lock when decoding into a
 bound Go type panics

---
 schema.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index 484822f..cc87fc4 100644
--- a/schema.go
+++ b/schema.go
@@ -212,9 +212,10 @@ func BindType[T Assignee](sch Schema, t T) (TypedSchema[T], error) {
 	rt := getLinLib(sch.Lineage())
 	tsch.newfn = func() T {
 		nt := new(T)
+		// Decoding may call methods of T, which may panic
 		rt.rl()
+		defer rt.ru()
 		sch.Underlying().LookupPath(pathSchDef).Decode(nt) //nolint:gosec,errcheck
-		rt.ru()
 		return *nt
 	}
 
-- 
2.43.0


From b3f2bfa48e66bdf1a6196aaeb823ed2855031e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:28 +0000
Subject: [PATCH 17/40] fix: compare element types of open lists when comparing
 published schemas

---
 internal/cuetil/equal.go | 72 ++++++++++++++++++++++++++++------------
 1 file changed, 50 insertions(+), 22 deletions(-)

diff --git a/internal/cuetil/equal.go b/internal/cuetil/equal.go
index f6e6128..462d4db 100644
--- a/internal/cuetil/equal.go
+++ b/internal/cuetil/equal.go
@@ -9,34 +9,51 @@ import (
 // Equal reports nil when the two cue values subsume each other and have the
 // same defaults, or an error otherwise
 func Equal(val1 cue.Value, val2 cue.Value) error {
-	if err := val1.Subsume(val2, cue.Raw()); err != nil {
+	if err := Subsume(val1, val2, cue.Raw()); err != nil {
 		return err
 	}
 
-	if err := val2.Subsume(val1, cue.Raw()); err != nil {
+	if err := Subsume(val2, val1, cue.Raw()); err != nil {
 		return err
 	}
 
-	return sameDefaults(val1, val2)
+	return walkBoth(val1, val2, func(v1, v2 cue.Value) error {
+		// Subsumption does not tell: string and *"a" | string subsume each other
+		_, has1 := v1.Default()
+		_, has2 := v2.Default()
+		if has1 != has2 {
+			return fmt.Errorf("%s: default values differ", v1.Path())
+		}
+		return nil
+	})
 }
 
-// sameDefaults reports an error if one of the values, which subsume each
-// other, has a default where the other has none. Subsumption alone does not
-// tell: string and *"a" | string subsume each other.
-func sameDefaults(val1 cue.Value, val2 cue.Value) error {
-	_, has1 := val1.Default()
-	_, has2 := val2.Default()
-	if has1 != has2 {
-		return fmt.Errorf("%s: default values differ", val1.Path())
-	}
-
-	if val1.IncompleteKind() == cue.ListKind {
-		elem := cue.MakePath(cue.AnyIndex)
-		elem1, elem2 := val1.LookupPath(elem), val2.LookupPath(elem)
-		if elem1.Exists() && elem2.Exists() {
-			return sameDefaults(elem1, elem2)
+// Subsume reports nil when val1 subsumes val2, or an error otherwise.
+//
+// Unlike [cue.Value.Subsume], it also compares the element types of open lists:
+// CUE takes any two open lists without fixed elements to subsume each other.
+func Subsume(val1 cue.Value, val2 cue.Value, opts ...cue.Option) error {
+	if err := val1.Subsume(val2, opts...); err != nil {
+		return err
+	}
+
+	return walkBoth(val1, val2, func(v1, v2 cue.Value) error {
+		if elem1, elem2, ok := listElems(v1, v2); ok {
+			return elem1.Subsume(elem2, opts...)
 		}
 		return nil
+	})
+}
+
+// walkBoth calls f for the two values, and for everything below them that
+// exists in both: fields of structs and element types of open lists.
+func walkBoth(val1 cue.Value, val2 cue.Value, f func(v1, v2 cue.Value) error) error {
+	if err := f(val1, val2); err != nil {
+		return err
+	}
+
+	if elem1, elem2, ok := listElems(val1, val2); ok {
+		return walkBoth(elem1, elem2, f)
 	}
 
 	if val1.IncompleteKind() != cue.StructKind {
@@ -48,14 +65,25 @@ func sameDefaults(val1 cue.Value, val2 cue.Value) error {
 	}
 	for iter.Next() {
 		sel := iter.Selector()
-		if iter.IsOptional() {
-			sel = sel.Optional()
+		field2 := val2.LookupPath(cue.MakePath(sel))
+		if !field2.Exists() {
+			field2 = val2.LookupPath(cue.MakePath(sel.Optional()))
 		}
-		if field2 := val2.LookupPath(cue.MakePath(sel)); field2.Exists() {
-			if err := sameDefaults(iter.Value(), field2); err != nil {
+		if field2.Exists() {
+			if err := walkBoth(iter.Value(), field2, f); err != nil {
 				return err
 			}
 		}
 	}
 	return nil
 }
+
+// listElems returns the element types of two open lists.
+func listElems(val1 cue.Value, val2 cue.Value) (elem1, elem2 cue.Value, ok bool) {
+	if val1.IncompleteKind() != cue.ListKind || val2.IncompleteKind() != cue.ListKind {
+		return elem1, elem2, false
+	}
+	anyIndex := cue.MakePath(cue.AnyIndex)
+	elem1, elem2 = val1.LookupPath(anyIndex), val2.LookupPath(anyIndex)
+	return elem1, elem2, elem1.Exists() && elem2.Exists()
+}
-- 
2.43.0


From 839f65b006949c89239ece94daf3322946e1a374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:46 +0000
Subject: [PATCH 18/40] fix: minor versions may not change the element type of
 a list

---
 internal/compat/compat.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/compat/compat.go b/internal/compat/compat.go
index 0255c1a..6dca227 100644
--- a/internal/compat/compat.go
+++ b/internal/compat/compat.go
@@ -2,6 +2,8 @@ package compat
 
 import (
 	"cuelang.org/go/cue"
+
+	"github.com/grafana/thema/internal/cuetil"
 )
 
 // ThemaCompatible is the canonical Thema algorithm for checking that the
@@ -11,7 +13,7 @@ import (
 // The behavior of this function is undefined if s and p are not closed
 // structs. TODO check this and error if conditions aren't met
 func ThemaCompatible(p, s cue.Value) error {
-	return s.Subsume(p, cue.Raw(), cue.All())
+	return cuetil.Subsume(s, p, cue.Raw(), cue.All())
 }
 
 // type CompatInvariantError struct {
-- 
2.43.0


From 89e5624f7c76c96f7b040b36146dff0f9416ea20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:34 +0000
Subject: [PATCH 19/40] fix: rewriting or generating a file could leave it
 truncated or half-written

---
 cmd/thema/lineage_fix.go    |  2 +-
 cmd/thema/lineage_subgen.go |  4 +--
 cmd/thema/write.go          | 68 +++++++++++++++++++++++++++++++++++++
 3 files changed, 71 insertions(+), 3 deletions(-)
 create mode 100644 cmd/thema/write.go

diff --git a/cmd/thema/lineage_fix.go b/cmd/thema/lineage_fix.go
index 93458d8..7d11f4b 100644
--- a/cmd/thema/lineage_fix.go
+++ b/cmd/thema/lineage_fix.go
@@ -53,5 +53,5 @@ func (fc *fixCommand) do(cmd *cobra.Command, args []string) error {
 		return err
 	}
 
-	return os.WriteFile(f.Filename, b, 0666)
+	return writeFile(f.Filename, b, 0666)
 }
diff --git a/cmd/thema/lineage_subgen.go b/cmd/thema/lineage_subgen.go
index 8b6bf84..25462d9 100644
--- a/cmd/thema/lineage_subgen.go
+++ b/cmd/thema/lineage_subgen.go
@@ -269,7 +269,7 @@ func (gc *genCommand) runGoTypes(cmd *cobra.Command, args []string) error {
 		path = filepath.Dir(path)
 	}
 	path = filepath.Join(path, fmt.Sprintf("%s_types_gen.go", strings.ToLower(gc.lin.Name())))
-	return os.WriteFile(path, buf.Bytes(), 0644)
+	return writeFile(path, buf.Bytes(), 0644)
 }
 
 var genGoBindingsLineageCmd = &cobra.Command{
@@ -369,7 +369,7 @@ func (gc *genCommand) runGoBindings(cmd *cobra.Command, args []string) error {
 		path = filepath.Dir(path)
 	}
 	path = filepath.Join(path, fmt.Sprintf("%s_bindings_gen.go", strings.ToLower(gc.lin.Name())))
-	err = os.WriteFile(path, buf.Bytes(), 0644)
+	err = writeFile(path, buf.Bytes(), 0644)
 	if err != nil {
 		return err
 	}
diff --git a/cmd/thema/write.go b/cmd/thema/write.go
new file mode 100644
index 0000000..6d56b9d
--- /dev/null
+++ b/cmd/thema/write.go
@@ -0,0 +1,68 @@
+package main
+
+import (
+	"errors"
+	"fmt"
+	"io/fs"
+	"os"
+	"path/filepath"
+)
+
+// writeFile replaces the contents of the file at path, creating it with perm
+// if it does not exist yet.
+//
+// The new contents are completely written elsewhere in the same directory and
+// then renamed into place: whatever happens on the way, path either has its
+// old or its new contents.
+func writeFile(path string, data []byte, perm fs.FileMode) (err error) {
+	exists := false
+	if target, err := filepath.EvalSymlinks(path); err == nil {
+		path = target
+	} else if !errors.Is(err, fs.ErrNotExist) {
+		return err
+	}
+	if fi, err := os.Stat(path); err == nil {
+		if !fi.Mode().IsRegular() {
+			// a device or pipe is written to, not replaced
+			return os.WriteFile(path, data, perm)
+		}
+		exists, perm = true, fi.Mode().Perm()
+	} else if !errors.Is(err, fs.ErrNotExist) {
+		return err
+	}
+
+	var f *os.File
+	var tmp string
+	for i := 0; f == nil; i++ {
+		// names in use belong to another process, or to one that was killed
+		tmp = filepath.Join(filepath.Dir(path), fmt.Sprintf(".%s.%d.tmp", filepath.Base(path), i))
+		f, err = os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_EXCL, perm)
+		if err != nil && !errors.Is(err, fs.ErrExist) {
+			return err
+		}
+	}
+	defer func() {
+		if err != nil {
+			os.Remove(tmp) //nolint:errcheck
+		}
+	}()
+
+	if exists {
+		// not subject to the umask
+		err = f.Chmod(perm)
+	}
+	if err == nil {
+		_, err = f.Write(data)
+	}
+	if err == nil {
+		err = f.Sync()
+	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err != nil {
+		return err
+	}
+
+	return os.Rename(tmp, path)
+}
-- 
2.43.0


From 7dd412d2868f59b30004ecfd806b2aacd36a4158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:34 +0000
Subject: [PATCH 20/40] fix: percent signs in a schema corrupted printed
 OpenAPI and JSON Schema documents

---
 cmd/thema/lineage_subgen.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/thema/lineage_subgen.go b/cmd/thema/lineage_subgen.go
index 25462d9..ae3e4ee 100644
--- a/cmd/thema/lineage_subgen.go
+++ b/cmd/thema/lineage_subgen.go
@@ -187,7 +187,7 @@ func (gc *genCommand) runOpenAPI(cmd *cobra.Command, args []string) error {
 	if err != nil {
 		return err
 	}
-	fmt.Fprintf(cmd.OutOrStdout(), str)
+	fmt.Fprint(cmd.OutOrStdout(), str)
 	return nil
 }
 
@@ -225,7 +225,7 @@ func (gc *genCommand) runJSONSchema(cmd *cobra.Command, args []string) error {
 	if err != nil {
 		return err
 	}
-	fmt.Fprintf(cmd.OutOrStdout(), str)
+	fmt.Fprint(cmd.OutOrStdout(), str)
 	return nil
 }
 
@@ -250,7 +250,7 @@ func (gc *genCommand) runGoTypes(cmd *cobra.Command, args []string) error {
 	if gc.stdout {
 		fmt.Fprint(buf, goheader)
 	} else {
-		fmt.Fprintf(buf, fmt.Sprintf(goheaderp, gc.epath))
+		fmt.Fprintf(buf, goheaderp, gc.epath)
 	}
 	b, err := gocode.GenerateTypesOpenAPI(gc.sch, &gocode.TypeConfigOpenAPI{
 		PackageName: gc.pkgname,
@@ -361,7 +361,7 @@ func (gc *genCommand) runGoBindings(cmd *cobra.Command, args []string) error {
 		return nil
 	}
 
-	fmt.Fprintf(buf, fmt.Sprintf(goheaderp, gc.epath))
+	fmt.Fprintf(buf, goheaderp, gc.epath)
 	buf.Write(f)
 
 	path := gc.lla.absInput
-- 
2.43.0


From 08d4e678473eeec3441538e1c7253b5dc3bc7285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:35 +0000
Subject: [PATCH 21/40] fix: generating with an unknown output format exited
 successfully without output

---
 cmd/thema/lineage_subgen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/thema/lineage_subgen.go b/cmd/thema/lineage_subgen.go
index ae3e4ee..652464f 100644
--- a/cmd/thema/lineage_subgen.go
+++ b/cmd/thema/lineage_subgen.go
@@ -182,7 +182,7 @@ func (gc *genCommand) runOpenAPI(cmd *cobra.Command, args []string) error {
 	case "yaml", "yml":
 		str, err = yaml.Marshal(rt.Context().BuildFile(f))
 	default:
-		fmt.Fprintf(cmd.ErrOrStderr(), `unrecognized output format %q - must choose "yaml" or "json"`, gc.format)
+		return fmt.Errorf(`unrecognized output format %q - must choose "yaml" or "json"`, gc.format)
 	}
 	if err != nil {
 		return err
@@ -220,7 +220,7 @@ func (gc *genCommand) runJSONSchema(cmd *cobra.Command, args []string) error {
 	case "yaml", "yml":
 		str, err = yaml.Marshal(rt.Context().BuildFile(f))
 	default:
-		fmt.Fprintf(cmd.ErrOrStderr(), `unrecognized output format %q - must choose "yaml" or "json"`, gc.format)
+		return fmt.Errorf(`unrecognized output format %q - must choose "yaml" or "json"`, gc.format)
 	}
 	if err != nil {
 		return err
-- 
2.43.0


From 534cbbf8b0e332650574831782d32b31b245dc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:35 +0000
Subject: [PATCH 22/40] fix: lineage gen openapi printed JSON unless told to
 print its documented default, YAML

---
 cmd/thema/lineage_subgen.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cmd/thema/lineage_subgen.go b/cmd/thema/lineage_subgen.go
index 652464f..83ac0a3 100644
--- a/cmd/thema/lineage_subgen.go
+++ b/cmd/thema/lineage_subgen.go
@@ -38,8 +38,8 @@ type genCommand struct {
 
 	quiet bool
 
-	// input file format (yaml, json, etc.)
-	format string
+	// output format (yaml, json), per subcommand because their defaults differ
+	oapiformat, jschformat string
 
 	lin thema.Lineage
 	sch thema.Schema
@@ -62,13 +62,13 @@ func (gc *genCommand) setup(cmd *cobra.Command) {
 	gop := genOapiLineageCmd
 	genLineageCmd.AddCommand(gop)
 	gop.Flags().StringVarP(&gc.lla.verstr, "version", "v", "", "schema syntactic version to generate. Defaults to latest")
-	gop.Flags().StringVarP(&gc.format, "format", "f", "yaml", "output format. \"json\" or \"yaml\".")
+	gop.Flags().StringVarP(&gc.oapiformat, "format", "f", "yaml", "output format. \"json\" or \"yaml\".")
 	gop.Run = gc.run
 
 	gj := genJschLineageCmd
 	genLineageCmd.AddCommand(gj)
 	gj.Flags().StringVarP(&gc.lla.verstr, "version", "v", "", "schema syntactic version to generate. Defaults to latest")
-	gj.Flags().StringVarP(&gc.format, "format", "f", "json", "output format. \"json\" or \"yaml\".")
+	gj.Flags().StringVarP(&gc.jschformat, "format", "f", "json", "output format. \"json\" or \"yaml\".")
 	gj.Run = gc.run
 
 	ggt := genGoTypesLineageCmd
@@ -170,7 +170,7 @@ func (gc *genCommand) runOpenAPI(cmd *cobra.Command, args []string) error {
 	}
 
 	var str string
-	switch gc.format {
+	switch gc.oapiformat {
 	case "json":
 		var b []byte
 		b, err = rt.Context().BuildFile(f).MarshalJSON()
@@ -182,7 +182,7 @@ func (gc *genCommand) runOpenAPI(cmd *cobra.Command, args []string) error {
 	case "yaml", "yml":
 		str, err = yaml.Marshal(rt.Context().BuildFile(f))
 	default:
-		return fmt.Errorf(`unrecognized output format %q - must choose "yaml" or "json"`, gc.format)
+		return fmt.Errorf(`unrecognized output format %q - must choose "yaml" or "json"`, gc.oapiformat)
 	}
 	if err != nil {
 		return err
@@ -208,7 +208,7 @@ func (gc *genCommand) runJSONSchema(cmd *cobra.Command, args []string) error {
 	}
 
 	var str string
-	switch gc.format {
+	switch gc.jschformat {
 	case "json":
 		var b []byte
 		b, err = rt.Context().BuildFile(f).MarshalJSON()
@@ -220,7 +220,7 @@ func (gc *genCommand) runJSONSchema(cmd *cobra.Command, args []string) error {
 	case "yaml", "yml":
 		str, err = yaml.Marshal(rt.Context().BuildFile(f))
 	default:
-		return fmt.Errorf(`unrecognized output format %q - must choose "yaml" or "json"`, gc.format)
+		return fmt.Errorf(`unrecognized output format %q - must choose "yaml" or "json"`, gc.jschformat)
 	}
 	if err != nil {
 		return err
-- 
2.43.0


From 66dc19ff4563057c6d5545cdd3f36e3e2a61f748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:36 +0000
Subject: [PATCH 23/40] fix: lineage gen gotypes ignored --stdout and wrote a
 file

---
 cmd/thema/lineage_subgen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/thema/lineage_subgen.go b/cmd/thema/lineage_subgen.go
index 83ac0a3..f21ec23 100644
--- a/cmd/thema/lineage_subgen.go
+++ b/cmd/thema/lineage_subgen.go
@@ -76,7 +76,7 @@ func (gc *genCommand) setup(cmd *cobra.Command) {
 	ggt.Use = "gotypes -l <path> [-p <cue-path>] [-v <synver>] [--pkgname <name>] [--stdout]"
 	ggt.Flags().StringVarP(&gc.lla.verstr, "version", "v", "", "schema syntactic version to generate. Defaults to latest")
 	ggt.Flags().StringVar(&gc.pkgname, "pkgname", "", "Name for generated Go package. Defaults to lowercase lineage name")
-	ggt.Flags().BoolVar(&gc.noembed, "stdout", false, "Write to stdout instead of '<lineage.name>_types_gen.go'")
+	ggt.Flags().BoolVar(&gc.stdout, "stdout", false, "Write to stdout instead of '<lineage.name>_types_gen.go'")
 	ggt.Flags().BoolVarP(&gc.quiet, "quiet", "q", false, "Do not print generated filename")
 	ggt.Run = gc.run
 
-- 
2.43.0


From 7d3f42b401aa9539e4e1e26b031e40ff97e2b3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:04 +0000
Subject: [PATCH 24/40] fix: commands exited successfully although their output
 could not be written

---
 cmd/thema/data.go           |  8 ++++----
 cmd/thema/lineage_init.go   |  6 +++---
 cmd/thema/lineage_subgen.go | 20 ++++++++++----------
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/cmd/thema/data.go b/cmd/thema/data.go
index ad0647b..3084370 100644
--- a/cmd/thema/data.go
+++ b/cmd/thema/data.go
@@ -138,14 +138,14 @@ func (dc *dataCommand) runValidateAny(cmd *cobra.Command, args []string) error {
 	if dc.lla.dl.sch != nil {
 		_, reterr = dc.lla.dl.sch.Validate(dc.datval)
 		if reterr == nil {
-			fmt.Fprintf(cmd.OutOrStdout(), "%s\n", dc.lla.dl.sch.Version())
-			return nil
+			_, err := fmt.Fprintf(cmd.OutOrStdout(), "%s\n", dc.lla.dl.sch.Version())
+			return err
 		}
 	}
 	inst := dc.lla.dl.lin.ValidateAny(dc.datval)
 	if inst != nil {
-		fmt.Fprintf(cmd.OutOrStdout(), "%s\n", inst.Schema().Version())
-		return nil
+		_, err := fmt.Fprintf(cmd.OutOrStdout(), "%s\n", inst.Schema().Version())
+		return err
 	}
 
 	if reterr != nil {
diff --git a/cmd/thema/lineage_init.go b/cmd/thema/lineage_init.go
index 029bb47..6369d2a 100644
--- a/cmd/thema/lineage_init.go
+++ b/cmd/thema/lineage_init.go
@@ -194,7 +194,7 @@ func (ic *initCommand) runEmpty(cmd *cobra.Command, args []string) {
 		return
 	}
 
-	fmt.Fprint(cmd.OutOrStdout(), string(b))
+	_, ic.err = fmt.Fprint(cmd.OutOrStdout(), string(b))
 }
 
 func (ic *initCommand) runJSONSchema(cmd *cobra.Command, args []string) {
@@ -245,7 +245,7 @@ func (ic *initCommand) runJSONSchema(cmd *cobra.Command, args []string) {
 		return
 	}
 
-	fmt.Fprint(cmd.OutOrStdout(), string(b))
+	_, ic.err = fmt.Fprint(cmd.OutOrStdout(), string(b))
 }
 
 // expects something else to have already gotten the input from either a file
@@ -358,5 +358,5 @@ func (ic *initCommand) runOpenAPI(cmd *cobra.Command, args []string) {
 		return
 	}
 
-	fmt.Fprint(cmd.OutOrStdout(), string(b))
+	_, ic.err = fmt.Fprint(cmd.OutOrStdout(), string(b))
 }
diff --git a/cmd/thema/lineage_subgen.go b/cmd/thema/lineage_subgen.go
index f21ec23..ac11e2a 100644
--- a/cmd/thema/lineage_subgen.go
+++ b/cmd/thema/lineage_subgen.go
@@ -187,8 +187,8 @@ func (gc *genCommand) runOpenAPI(cmd *cobra.Command, args []string) error {
 	if err != nil {
 		return err
 	}
-	fmt.Fprint(cmd.OutOrStdout(), str)
-	return nil
+	_, err = fmt.Fprint(cmd.OutOrStdout(), str)
+	return err
 }
 
 var genJschLineageCmd = &cobra.Command{
@@ -225,8 +225,8 @@ func (gc *genCommand) runJSONSchema(cmd *cobra.Command, args []string) error {
 	if err != nil {
 		return err
 	}
-	fmt.Fprint(cmd.OutOrStdout(), str)
-	return nil
+	_, err = fmt.Fprint(cmd.OutOrStdout(), str)
+	return err
 }
 
 var genGoTypesLineageCmd = &cobra.Command{
@@ -260,8 +260,8 @@ func (gc *genCommand) runGoTypes(cmd *cobra.Command, args []string) error {
 	}
 	buf.Write(b)
 	if gc.stdout {
-		fmt.Fprint(cmd.OutOrStdout(), buf.String())
-		return nil
+		_, err = fmt.Fprint(cmd.OutOrStdout(), buf.String())
+		return err
 	}
 
 	path := gc.lla.absInput
@@ -357,8 +357,8 @@ func (gc *genCommand) runGoBindings(cmd *cobra.Command, args []string) error {
 	if gc.stdout {
 		fmt.Fprint(buf, goheader)
 		buf.Write(f)
-		fmt.Fprint(cmd.OutOrStdout(), buf.String())
-		return nil
+		_, err = fmt.Fprint(cmd.OutOrStdout(), buf.String())
+		return err
 	}
 
 	fmt.Fprintf(buf, goheaderp, gc.epath)
@@ -377,8 +377,8 @@ func (gc *genCommand) runGoBindings(cmd *cobra.Command, args []string) error {
 	if gc.quiet {
 		return nil
 	}
-	fmt.Fprintf(cmd.OutOrStdout(), "generated go bindings for %s at %s\n", gc.lin.Name(), path)
-	return nil
+	_, err = fmt.Fprintf(cmd.OutOrStdout(), "generated go bindings for %s at %s\n", gc.lin.Name(), path)
+	return err
 }
 
 func findModRoot(abspath string) (rootfind, error) {
-- 
2.43.0


From 9840099a76183a5092d5b3178108f63410fa1e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:38 +0000
Subject: [PATCH 25/40] fix: lineage init openapi crashed on unreadable input
 instead of reporting it

---
 cmd/thema/lineage_init.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cmd/thema/lineage_init.go b/cmd/thema/lineage_init.go
index 6369d2a..d554922 100644
--- a/cmd/thema/lineage_init.go
+++ b/cmd/thema/lineage_init.go
@@ -259,10 +259,13 @@ func inputToFile(input []byte, args []string) (*ast.File, error) {
 		Stdin: bytes.NewBuffer(input),
 	}
 	binsts := load.Instances(args, cfg)
-	bf := binsts[0].OrphanedFiles[0]
-	if bf == nil {
+	if err := binsts[0].Err; err != nil {
+		return nil, err
+	}
+	if len(binsts[0].OrphanedFiles) == 0 {
 		return nil, fmt.Errorf("could not load input file")
 	}
+	bf := binsts[0].OrphanedFiles[0]
 
 	var f *ast.File
 	var err error
@@ -270,7 +273,8 @@ func inputToFile(input []byte, args []string) (*ast.File, error) {
 	case build.YAML:
 		f, err = yaml.Extract("input", input)
 	case build.JSON:
-		expr, err := json.Extract("input", input)
+		var expr ast.Expr
+		expr, err = json.Extract("input", input)
 		if err == nil {
 			f = &ast.File{
 				Decls: []ast.Decl{expr},
-- 
2.43.0


From 76e2350731be6f8357b2e3066f93d32ec310afdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:38 +0000
Subject: [PATCH 26/40] fix: lineage fix ignored errors while loading the
 package it rewrites

---
 cmd/thema/load.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/thema/load.go b/cmd/thema/load.go
index 102e623..4aba6e7 100644
--- a/cmd/thema/load.go
+++ b/cmd/thema/load.go
@@ -172,6 +172,9 @@ func (lla *lineageLoadArgs) dynLoad() (*dynamicLoader, error) {
 	if lla.skipBindLineage {
 		// just take the first one, ooof
 		dl.binst = binsts[0]
+		if dl.binst.Err != nil {
+			return nil, dl.binst.Err
+		}
 		return dl, nil
 	}
 
-- 
2.43.0


From b2669f36ea6686007e0e73e266b2614a33f93c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:39 +0000
Subject: [PATCH 27/40] fix: lineage gen gobindings took an unreadable cue.mod
 for a missing one

---
 cmd/thema/lineage_subgen.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/thema/lineage_subgen.go b/cmd/thema/lineage_subgen.go
index ac11e2a..c6d6a6c 100644
--- a/cmd/thema/lineage_subgen.go
+++ b/cmd/thema/lineage_subgen.go
@@ -403,6 +403,9 @@ func findModRoot(abspath string) (rootfind, error) {
 			r.cuemodpath = p
 			break
 		}
+		if !os.IsNotExist(err) {
+			return rootfind{}, err
+		}
 
 		if r.gomodpath == "" {
 			gf, err := os.ReadFile(filepath.Join(p, "go.mod"))
-- 
2.43.0


From 441ba3a4c4051b7cb02645fb0adce3f7417f5cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:39 +0000
Subject: [PATCH 28/40] fix: data commands rejected every input on stdin when
 its format was given

---
 cmd/thema/data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/thema/data.go b/cmd/thema/data.go
index 3084370..20b4c2d 100644
--- a/cmd/thema/data.go
+++ b/cmd/thema/data.go
@@ -387,7 +387,7 @@ func (dc *dataCommand) validateDataInput(cmd *cobra.Command, args []string) erro
 		return errors.New("unrecognized format of input data")
 
 	case "json":
-		if ext != "json" {
+		if len(args) == 1 && ext != "json" {
 			return fmt.Errorf("JSON input format specified, but file extension is %s", ext)
 		}
 
@@ -396,7 +396,7 @@ func (dc *dataCommand) validateDataInput(cmd *cobra.Command, args []string) erro
 			return err
 		}
 	case "yaml":
-		if ext != "yaml" {
+		if len(args) == 1 && ext != "yaml" {
 			return fmt.Errorf("YAML input format specified, but file extension is %s", ext)
 		}
 
-- 
2.43.0


From 2695c018484f5b7c633950a7d95e0da32cbf26fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:40 +0000
Subject: [PATCH 29/40] fix: data hydrate and dehydrate without a version only
 accepted the latest schema

---
 cmd/thema/data.go | 44 ++++++++++++++++++++------------------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/cmd/thema/data.go b/cmd/thema/data.go
index 20b4c2d..1eeb2de 100644
--- a/cmd/thema/data.go
+++ b/cmd/thema/data.go
@@ -234,18 +234,9 @@ func (dc *dataCommand) runHydrate(cmd *cobra.Command, args []string) error {
 		panic("datval does not exist")
 	}
 
-	var inst *thema.Instance
-	var err error
-	if dc.lla.dl.sch != nil {
-		inst, err = dc.lla.dl.sch.Validate(dc.datval)
-		if err != nil {
-			return err
-		}
-	} else {
-		inst = dc.lla.dl.lin.ValidateAny(dc.datval)
-		if inst == nil {
-			return errors.New("input data is not valid for any schema in lineage")
-		}
+	inst, err := dc.validInstance()
+	if err != nil {
+		return err
 	}
 
 	// TODO support non-JSON output
@@ -258,6 +249,20 @@ func (dc *dataCommand) runHydrate(cmd *cobra.Command, args []string) error {
 	return err
 }
 
+// validInstance validates the input data against the requested schema or, if
+// none was requested, against all schemas, starting with the latest.
+func (dc *dataCommand) validInstance() (*thema.Instance, error) {
+	inst, err := dc.lla.dl.sch.Validate(dc.datval)
+	if err == nil || dc.lla.verstr != "" {
+		return inst, err
+	}
+
+	if inst = dc.lla.dl.lin.ValidateAny(dc.datval); inst == nil {
+		return nil, errors.New("input data is not valid for any schema in lineage")
+	}
+	return inst, nil
+}
+
 var dehydrateCmd = &cobra.Command{
 	Use:   "dehydrate -l <lineage-fs-path> [-p <cue-path>] [-e <format>] [-v <synver>] [<data-fs-path>] ",
 	Short: "Remove all schema-specified defaults from some valid input data",
@@ -278,18 +283,9 @@ func (dc *dataCommand) runDehydrate(cmd *cobra.Command, args []string) error {
 		panic("datval does not exist")
 	}
 
-	var inst *thema.Instance
-	var err error
-	if dc.lla.dl.sch != nil {
-		inst, err = dc.lla.dl.sch.Validate(dc.datval)
-		if err != nil {
-			return err
-		}
-	} else {
-		inst = dc.lla.dl.lin.ValidateAny(dc.datval)
-		if inst == nil {
-			return errors.New("input data is not valid for any schema in lineage")
-		}
+	inst, err := dc.validInstance()
+	if err != nil {
+		return err
 	}
 
 	// TODO support non-JSON output
-- 
2.43.0


From f0dc48c69cc58d8ca7e4908eb4fcf752eb158157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:12 +0000
Subject: [PATCH 30/40] fix: data validate and validate-any printed output in
 spite of --quiet

---
 cmd/thema/data.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/cmd/thema/data.go b/cmd/thema/data.go
index 1eeb2de..cc55bb0 100644
--- a/cmd/thema/data.go
+++ b/cmd/thema/data.go
@@ -43,14 +43,14 @@ func (dc *dataCommand) setup(cmd *cobra.Command) {
 	validateCmd.Flags().StringVarP(&dc.lla.verstr, "version", "v", "", "schema syntactic version to validate data against. defaults to latest")
 	validateCmd.Flags().StringVarP(&dc.format, "format", "e", "", "input data format. Autodetected by default, but can be constrained to \"json\" or \"yaml\".")
 	validateCmd.Flags().BoolVarP(&dc.quiet, "quiet", "q", false, "emit no output, exit status only")
-	validateCmd.PersistentPreRunE = mergeCobraefuncs(dc.lla.validateLineageInput, dc.lla.validateVersionInputOptional, dc.validateDataInput)
+	validateCmd.PersistentPreRunE = mergeCobraefuncs(dc.applyQuiet, dc.lla.validateLineageInput, dc.lla.validateVersionInputOptional, dc.validateDataInput)
 	validateCmd.RunE = dc.runValidate
 
 	dataCmd.AddCommand(validateAnyCmd)
 	validateAnyCmd.Flags().StringVarP(&dc.lla.verstr, "version", "v", "", "schema syntactic version to validate data against")
 	validateAnyCmd.Flags().StringVarP(&dc.format, "format", "e", "", "input data format. Autodetected by default, but can be constrained to \"json\" or \"yaml\".")
 	validateAnyCmd.Flags().BoolVarP(&dc.quiet, "quiet", "q", false, "emit no output, exit status only")
-	validateAnyCmd.PersistentPreRunE = mergeCobraefuncs(dc.lla.validateLineageInput, dc.lla.validateVersionInputOptional, dc.validateDataInput)
+	validateAnyCmd.PersistentPreRunE = mergeCobraefuncs(dc.applyQuiet, dc.lla.validateLineageInput, dc.lla.validateVersionInputOptional, dc.validateDataInput)
 	validateAnyCmd.RunE = dc.runValidateAny
 
 	dataCmd.AddCommand(translateCmd)
@@ -73,6 +73,11 @@ func (dc *dataCommand) setup(cmd *cobra.Command) {
 	dehydrateCmd.RunE = dc.runDehydrate
 }
 
+func (dc *dataCommand) applyQuiet(cmd *cobra.Command, args []string) error {
+	cmd.SilenceErrors = dc.quiet
+	return nil
+}
+
 var dataCmd = &cobra.Command{
 	Use:   "data <command>",
 	Short: "Perform Thema operations on some input data",
@@ -134,17 +139,22 @@ func (dc *dataCommand) runValidateAny(cmd *cobra.Command, args []string) error {
 		panic("datval does not exist")
 	}
 
+	out := cmd.OutOrStdout()
+	if dc.quiet {
+		out = io.Discard
+	}
+
 	var reterr error
 	if dc.lla.dl.sch != nil {
 		_, reterr = dc.lla.dl.sch.Validate(dc.datval)
 		if reterr == nil {
-			_, err := fmt.Fprintf(cmd.OutOrStdout(), "%s\n", dc.lla.dl.sch.Version())
+			_, err := fmt.Fprintf(out, "%s\n", dc.lla.dl.sch.Version())
 			return err
 		}
 	}
 	inst := dc.lla.dl.lin.ValidateAny(dc.datval)
 	if inst != nil {
-		_, err := fmt.Fprintf(cmd.OutOrStdout(), "%s\n", inst.Schema().Version())
+		_, err := fmt.Fprintf(out, "%s\n", inst.Schema().Version())
 		return err
 	}
 
-- 
2.43.0


From 17e37d93e40e54e1c7a0de6a456a9ba89557011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:57 +0000
Subject: [PATCH 31/40] fix: report an error, rather than panic, for legacy
 lineages in several files

---
 encoding/cue/rewrite.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/cue/rewrite.go b/encoding/cue/rewrite.go
index 8ae7a5a..56ac869 100644
--- a/encoding/cue/rewrite.go
+++ b/encoding/cue/rewrite.go
@@ -76,8 +76,8 @@ func RewriteLegacyLineage(inst cue.Value, path cue.Path) (*ast.File, error) {
 		}
 	}
 	if !found {
-		// shouldn't be reachable - v.Source() can't be nil
-		panic("should be unreachable")
+		// reached when the lineage is the package root and the package has more than one file
+		return nil, fmt.Errorf("lineages unified across multiple files cannot be rewritten")
 	}
 
 	astutil.Apply(src, func(cursor astutil.Cursor) bool {
-- 
2.43.0


From 67d028d10094262dee67068d0faf690ced41d3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:55 +0000
Subject: [PATCH 32/40] fix: compare the whole schema, not its default alone,
 with the Go type in AssignableTo

---
 assignable.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/assignable.go b/assignable.go
index 7c66298..9959417 100644
--- a/assignable.go
+++ b/assignable.go
@@ -270,8 +270,9 @@ func assignable(sch cue.Value, T interface{}) error {
 		// really interested in whether all valid schema instances will
 		// be assignable to the Go type, we have to see if the Go type
 		// subsumes the schema, rather than the more intuitive check
-		// that the schema subsumes the Go type.
-		if err := gval.Subsume(sval, cue.Schema()); err != nil {
+		// that the schema subsumes the Go type. Not just the schema's
+		// default, if it has one.
+		if err := gval.Subsume(sval, cue.Schema(), cue.Raw()); err != nil {
 			errs[p.String()] = fmt.Errorf("%s: schema type %v not subsumed by Go type %v", p, sval, gval)
 		}
 	}
-- 
2.43.0


From e2b288a7815e79f77b55cf0eb85e2d05b97a26cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:55 +0000
Subject: [PATCH 33/40] fix: check the value types of maps in AssignableTo

---
 assignable.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/assignable.go b/assignable.go
index 9959417..676dd1b 100644
--- a/assignable.go
+++ b/assignable.go
@@ -169,6 +169,12 @@ func assignable(sch cue.Value, T interface{}) error {
 			check(gval, sval, p)
 		}
 
+		// The values of maps have to correspond, too.
+		anystr := cue.MakePath(cue.AnyString)
+		if gval, sval := ogval.LookupPath(anystr), osval.LookupPath(anystr); gval.Exists() && sval.Exists() {
+			check(gval, sval, cue.MakePath(append(p.Selectors(), cue.AnyString)...))
+		}
+
 		for _, vp := range gmap {
 			errs[vp.Path.String()] = fmt.Errorf("%s: field present in Go type, absent from schema", vp.Path.String())
 		}
-- 
2.43.0


From 0c09809c79d839d7ca31a32260c7b19ba50f7615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:55 +0000
Subject: [PATCH 34/40] fix: report assignability errors in a stable order

---
 assignable.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/assignable.go b/assignable.go
index 676dd1b..caad44f 100644
--- a/assignable.go
+++ b/assignable.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"reflect"
+	"sort"
 
 	"cuelang.org/go/cue"
 )
@@ -355,14 +356,18 @@ type assignErrs map[string]error
 func (m assignErrs) Error() string {
 	var buf bytes.Buffer
 
-	var i int
-	for _, err := range m {
+	keys := make([]string, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+
+	for i, k := range keys {
 		if i == len(m)-1 {
-			fmt.Fprint(&buf, err)
+			fmt.Fprint(&buf, m[k])
 		} else {
-			fmt.Fprint(&buf, err, "\n")
+			fmt.Fprint(&buf, m[k], "\n")
 		}
-		i++
 	}
 
 	return (&buf).String()
-- 
2.43.0


From 0773a5416b1f3825d3f964b0260ff489b16e6806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:55 +0000
Subject: [PATCH 35/40] fix: fail to load a package of which there are no CUE
 files

---
 load/load.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/load/load.go b/load/load.go
index 9a512ff..a735d8d 100644
--- a/load/load.go
+++ b/load/load.go
@@ -170,6 +170,9 @@ func InstanceWithThema(modFS fs.FS, dir string, opts ...Option) (*build.Instance
 	if inst.Err != nil {
 		return nil, inst.Err
 	}
+	if len(inst.Files) == 0 {
+		return nil, fmt.Errorf("no CUE files of package %q found in directory %q of module %q", lc.pkgname, dir, modname)
+	}
 
 	return inst, nil
 }
-- 
2.43.0


From fb7f10d5c8b328d72c6c254c412062af25a6f21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:19 +0000
Subject: [PATCH 36/40] fix: decode the schema under the runtime's lock in
 BindType

---
 schema.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/schema.go b/schema.go
index cc87fc4..ae97281 100644
--- a/schema.go
+++ b/schema.go
@@ -178,8 +178,17 @@ func BindType[T Assignee](sch Schema, t T) (TypedSchema[T], error) {
 		Schema: sch,
 	}
 
+	rt := getLinLib(sch.Lineage())
+	decode := func() error {
+		// Decoding evaluates the schema's defaults, and may call methods of T, which
+		// may panic
+		rt.l()
+		defer rt.u()
+		return sch.Underlying().LookupPath(pathSchDef).Decode(t)
+	}
+
 	// Verify that there are no problematic errors emitted from decoding.
-	if err := sch.Underlying().LookupPath(pathSchDef).Decode(t); err != nil {
+	if err := decode(); err != nil {
 		// Because assignability has already been established, the only errors here
 		// _should_ be those arising from schema fields without concrete defaults. But
 		// to avoid swallowing other error types, try to filter out those from the list
@@ -209,7 +218,6 @@ func BindType[T Assignee](sch Schema, t T) (TypedSchema[T], error) {
 	// general Go types CUE can decode onto, there may be some opportunity for a
 	// specialized implementation to improve performance - but we'll attempt that
 	// iff performance is actually shown to be a problem.
-	rt := getLinLib(sch.Lineage())
 	tsch.newfn = func() T {
 		nt := new(T)
 		// Decoding may call methods of T, which may panic
-- 
2.43.0


From a85a562be6ce0513de30ee68ad06db1024b9e607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:27 +0000
Subject: [PATCH 37/40] fix: decode instances under the runtime's lock in
 TypedInstance.Value

---
 instance.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/instance.go b/instance.go
index aa52387..a30755a 100644
--- a/instance.go
+++ b/instance.go
@@ -167,6 +167,11 @@ func (inst *TypedInstance[T]) Value() (T, error) {
 	inst.check()
 
 	t := inst.tsch.NewT()
+
+	// Decoding evaluates defaults in hydrated instances, and may call methods of T,
+	// which may panic
+	inst.rt().rl()
+	defer inst.rt().ru()
 	// TODO figure out correct pointer handling here
 	err := inst.Instance.raw.Decode(&t)
 	return t, err
-- 
2.43.0


From 36f5dcdacca5594eab0bdf460bf689397c4f1c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:02 +0000
Subject: [PATCH 38/40] fix: rename every reference to the input and result of
 a legacy lens

Index expressions (from["a-b"]) and selectors more than one level deep
(from.a.b) were left as they were, so that the rewritten lineage did not
compile.
---
 encoding/cue/rewrite.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/encoding/cue/rewrite.go b/encoding/cue/rewrite.go
index 56ac869..2cd0b0e 100644
--- a/encoding/cue/rewrite.go
+++ b/encoding/cue/rewrite.go
@@ -159,25 +159,29 @@ type legacyLens struct {
 // Rewrite the bodies of the lenses and any lacunas to have selectors using the
 // new field names
 func (ll legacyLens) rewriteFromTo(cursor astutil.Cursor) bool {
+	// Only the root of a reference is renamed, as opposed to fields of the same
+	// name further down a chain of selectors.
 	switch x := cursor.Node().(type) {
 	case *ast.SelectorExpr:
-		if id, is := x.X.(*ast.Ident); is {
-			switch id.Name {
-			case "from":
-				x.X = ast.NewLit(token.STRING, "input")
-			case "to":
-				x.X = ast.NewLit(token.STRING, "result")
-			default:
-				return false
-			}
-		}
-		// ONLY want to change the first element in any chain of selectors. So
-		// always stop searching once we've encountered a single one of these
-		return false
+		x.X = renameFromTo(x.X)
+	case *ast.IndexExpr:
+		x.X = renameFromTo(x.X)
 	}
 	return true
 }
 
+func renameFromTo(x ast.Expr) ast.Expr {
+	if id, is := x.(*ast.Ident); is {
+		switch id.Name {
+		case "from":
+			return ast.NewLit(token.STRING, "input")
+		case "to":
+			return ast.NewLit(token.STRING, "result")
+		}
+	}
+	return x
+}
+
 func (ll legacyLens) toAST() (ast.Expr, error) {
 	var mapsrc ast.Expr
 	if !ll.mapper.Exists() {
-- 
2.43.0


From 6c9ba9b61f58e05a46bf08cd08654e66588d8966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:02 +0000
Subject: [PATCH 39/40] fix: dehydrate list defaults of hydrated instances

A hydrated value may still be a disjunction with a default, which was not
recognised as being equal to the default.
---
 hydrate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hydrate.go b/hydrate.go
index 1115309..3013bd4 100644
--- a/hydrate.go
+++ b/hydrate.go
@@ -115,6 +115,10 @@ func getDefault(icue cue.Value) (cue.Value, bool) {
 func isCueValueEqual(inputdef cue.Value, input cue.Value) bool {
 	d, exist := getDefault(inputdef)
 	if exist {
+		// hydrated data may still hold the alternatives to a default
+		if def, has := input.Default(); has {
+			input = def
+		}
 		return input.Subsume(d) == nil && d.Subsume(input) == nil
 	}
 	return false
-- 
2.43.0


From d5d64f110843b977a2257ceb14559fe5a64bf465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:57 +0000
Subject: [PATCH 40/40] fix: write through dangling symbolic links instead of
 replacing them

---
 cmd/thema/write.go | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/cmd/thema/write.go b/cmd/thema/write.go
index 6d56b9d..a59ae28 100644
--- a/cmd/thema/write.go
+++ b/cmd/thema/write.go
@@ -16,9 +16,7 @@ import (
 // old or its new contents.
 func writeFile(path string, data []byte, perm fs.FileMode) (err error) {
 	exists := false
-	if target, err := filepath.EvalSymlinks(path); err == nil {
-		path = target
-	} else if !errors.Is(err, fs.ErrNotExist) {
+	if path, err = followLinks(path); err != nil {
 		return err
 	}
 	if fi, err := os.Stat(path); err == nil {
@@ -66,3 +64,36 @@ func writeFile(path string, data []byte, perm fs.FileMode) (err error) {
 
 	return os.Rename(tmp, path)
 }
+
+// followLinks returns the path of the file that writing to path writes to, which
+// unlike with [filepath.EvalSymlinks] need not exist yet.
+func followLinks(path string) (string, error) {
+	const max = 255
+	for i := 0; i < max; i++ {
+		dir, err := filepath.EvalSymlinks(filepath.Dir(path))
+		if err != nil {
+			return "", err
+		}
+		path = filepath.Join(dir, filepath.Base(path))
+
+		fi, err := os.Lstat(path)
+		if errors.Is(err, fs.ErrNotExist) {
+			return path, nil
+		} else if err != nil {
+			return "", err
+		}
+		if fi.Mode()&fs.ModeSymlink == 0 {
+			return path, nil
+		}
+
+		target, err := os.Readlink(path)
+		if err != nil {
+			return "", err
+		}
+		if !filepath.IsAbs(target) {
+			target = filepath.Join(dir, target)
+		}
+		path = target
+	}
+	return "", fmt.Errorf("too many symbolic links at %s", path)
+}
-- 
2.43.0

