#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, st, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Concurrent clients of one runtime see sequential results",
     "Goroutines that share one runtime and its lineages, schemas, instances, typed schemas and multiplexers may bind, look up, validate, translate, hydrate, compare append-only and decode typed values at the same time: under every interleaving each call returns what it returns when run alone. No two such calls race on memory, and none of them panics because of the other.",
     ["schedules", "histories"], "all interleavings of 2-4 clients, at lock operations and at every statement-level scheduling point of thema's code",
     "No test calls thema from two goroutines; an interleaving that corrupts CUE's shared lazily evaluated structures needs two calls inside the evaluator at once.",
     ["runtime.go", "schema.go", "instance.go", "lineage.go", "assignable.go", "vmux/mux.go"],
     [("the runtime's mutex around CUE evaluation", "runtime.go: rl/ru/l/u, cueArgs.make, cueArgs.call"), ("lock in Validate", "schema.go: schemaDef.Validate"), ("exclusive lock while binding", "lineage.go: BindLineage"), ("exclusive lock while encoding Go types", "assignable.go: AssignableTo")],
     [("Runtime.mut", "guards CUE evaluation in the runtime's context", "runtime.go")], ["results of the calls", "race detector"])

prop("C02", "A failing, panicking or re-entrant operation never blocks the others",
     "Whatever fails - a rejected bind, invalid data, a lens mapper or codec that returns an error, panics or calls back into the same runtime, a bound Go type whose decoding method panics - every operation of every client finishes, and afterwards the runtime and its lineages work as if nothing had happened. No error or panic path leaves a lock of the runtime held and no operation waits for itself.",
     ["fault_sequences", "schedules", "histories"], "all sequences of failing and succeeding operations by up to 5 clients under all interleavings",
     "Tests run one operation at a time and stop at the first failure; a lock leaked on an error path or held while calling user code only shows in the next or in a concurrent operation.",
     ["runtime.go", "lineage.go", "schema.go", "instance.go", "vmux/untyped.go", "vmux/byte.go"],
     [("unlocking on every path", "runtime.go: cueArgs.make; lineage.go: BindLineage"), ("user code is called without holding the lock", "instance.go: translateGo; vmux/*.go")],
     [("Runtime.mut", "must be free when no operation is running", "runtime.go")], ["completion of operations", "results of operations after the faults"])

prop("C03", "Runtimes can be created concurrently",
     "Any number of goroutines may create runtimes in contexts of their own at the same time, including the very first ones of the process, and immediately bind and use lineages in them. Every one of them gets a complete, working runtime, and no two creations race on memory.",
     ["schedules"], "all interleavings of 2-5 concurrent creations followed by use",
     "Tests create runtimes one after another; the shared CUE build instance is touched by two creations at once only under concurrency.",
     ["runtime.go"], [("once-only load of the CUE package and exclusive building of the shared instance", "runtime.go: loadRuntime, NewRuntime")],
     [("the shared build instance", "loaded once per process, built into every context", "runtime.go")], ["results of binding in the new runtime", "race detector"])

prop("C04", "Binding admits exactly well-formed lineages and a rejection leaves no trace",
     "Binding returns a lineage if and only if the value exists, has lineage shape and a concrete name, its schema versions start at 0.0 and increase without gap or repetition, minor versions are backwards compatible, major versions are not, its lenses - declarative in order, or Go functions - are exactly those required, and its examples are valid; otherwise it returns the matching error and no lineage. The verdict does not depend on what was bound, rejected or used before or at the same time, and a rejection disturbs no lineage already bound.",
     ["inputs", "histories", "schedules"], "generated valid lineages and single-rule violations of them, bound in any order and concurrently with other work",
     "Tests bind a fixed set of lineages, each into a fresh runtime; they do not rebind after rejections, nor cover each rule at every position in a lineage.",
     ["lineage.go", "bind.go", "lineage.cue", "internal/compat"],
     [("sequence of bind checks", "bind.go: checkExists, checkLineageShape, checkNativeValidity, checkGoValidity, checkLensesOrder, checkGoLensCompleteness, checkSchemasContiguous")],
     [], ["BindLineage's result and error class"])

prop("C05", "Validation and navigation are exact while clients and failures interleave",
     "For every bound lineage and every piece of data, validation against a schema accepts exactly the data that schema describes and returns an instance of that very schema and lineage holding exactly that data, or an error and no instance; validating against any version picks the oldest schema that accepts. Version lookup, first, latest, latest in major, successor, predecessor and the list of all schemas agree with the declared versions. All of this holds in the midst of other clients' binds, translations and failures on the same runtime.",
     ["inputs", "histories", "schedules"], "generated lineages and data, valid and invalid, by 2-4 interleaved clients with failing operations mixed in",
     "Tests validate a few fixed lineages in isolation; they never combine many versions, defaults, optional fields and near-miss data, nor interleave with failing operations.",
     ["schema.go", "lineage.go", "validate.go", "surface.go"],
     [("validation by unification with the closed schema", "schema.go: Validate"), ("oldest-first search", "lineage.go: ValidateAny"), ("version tables built when binding", "lineage.go: BindLineage; lineage.cue: _counts, _flatidx")],
     [], ["Validate, ValidateAny, Schema, First, Latest, All, Successor, Predecessor, LatestInMajor"])

prop("C06", "Translation equals the composition of the adjacent lenses",
     "Translating an instance along declarative lenses gives what applying the lens of every adjacent step in turn gives - minor upgrades keep the data - as a valid instance of the target schema of the same lineage, together with the lacunas of all steps taken; if any step cannot be made the translation returns an error and no instance. The source instance is left unchanged, and the result is the same whatever other translations and failures run at the same time or ran before.",
     ["inputs", "histories", "schedules"], "generated lineages with renames, removals, type changes, remapped values, faulty lenses and lacunas; all version pairs; shared source instances; interleaved clients",
     "Tests translate a handful of fixed lineages between a few versions, one at a time; they never reach lineages with many majors, faulty lenses in the middle of a path, or shared instances.",
     ["instance.go", "translate.cue", "lineage.cue", "lacuna.go"],
     [("stepwise application of lenses", "instance.go: Translate; translate.cue: #Translate"), ("validation of the result", "instance.go: Translate")],
     [], ["Translate, AsSuccessor, AsPredecessor"])

prop("C07", "Failing Go migrations are contained",
     "When a lineage is migrated by Go functions, translation calls exactly the functions of the steps taken, in order, each with a valid instance of its from-version. If one fails, panics, or returns nothing, an instance of the wrong version or of another lineage, the translation stops there and reports failure without producing an instance (a panic propagates to the caller); no instance handed to or returned by a function is ever changed, and later translations are unaffected.",
     ["fault_sequences", "histories", "schedules"], "every fault kind at every step of generated multi-version translations, including mappers that re-enter the runtime, by interleaved clients",
     "Tests use mappers that always succeed and translate one instance; a faulty mapper in the middle of a longer path and its after-effects are never exercised.",
     ["instance.go", "bind.go"], [("checks on the mapper's result", "instance.go: translateGo"), ("lens table completeness", "bind.go: checkGoLensCompleteness")],
     [("the lens map", "Go migrations by version pair, read-only after binding", "lineage.go")], ["Translate", "instances seen by the mappers"])

prop("C08", "Multiplexers deliver the right version or an error, whatever the codec does",
     "A multiplexer given bytes valid for any version of the lineage returns the data translated to its own version, preferring its own version and otherwise the newest that accepts, in the form it promises (instance, typed instance, Go value, encoded bytes), and rejects everything else with an error. If decoding, translation or encoding fails, errors or panics at any point, no result is returned as valid, the failure is reported to the caller, the input bytes are untouched, and later calls of the same multiplexer are unaffected.",
     ["fault_sequences", "inputs", "schedules"], "decoder and encoder errors, partial results, truncated input and panics, lens faults, and all versions as input, on multiplexers shared by interleaved clients",
     "Tests feed well-formed input to fresh multiplexers with the stock codecs; a codec failing halfway or multiplexers shared between goroutines never occur.",
     ["vmux/untyped.go", "vmux/typed.go", "vmux/byte.go", "vmux/value.go", "vmux/mux.go"],
     [("decode, try own version then newest first, translate, encode", "vmux/untyped.go, vmux/byte.go, vmux/typed.go, vmux/value.go")], [], ["the mux functions' results"])

prop("C09", "Results do not depend on history",
     "The result of an operation on a lineage, schema or instance - its value or its error, message included - depends only on its arguments: not on the operations performed before it, successful or failed, on the same or other lineages and runtimes, nor on their order, nor on Go's map iteration order. In particular no operation changes an instance, schema or lineage that a client already holds.",
     ["histories", "fault_sequences"], "generated operation sequences, each compared with the same operations in another order among other operations and under another map order",
     "Tests run each scenario in fresh state and in one order; contamination through shared CUE values or package-level state needs particular preceding operations.",
     ["runtime.go", "lineage.go", "instance.go", "schema.go", "hydrate.go", "vmux"],
     [("immutable lineages and instances; copies on hydration and translation", "instance.go, hydrate.go, lineage.go")], [], ["all results"])

prop("C10", "Loading from a faulty file system is all or nothing, and a retry works",
     "Loading a CUE module together with Thema from a file system yields the module's complete lineage or an error, never a truncated or partial one: a read, open, stat or directory-listing failure at any point, short reads, missing permission or a vanished file either do no harm or make the load fail. A malformed or missing module, or one without a file of the requested package, is reported as such, and loading again once the faults are gone succeeds.",
     ["fault_sequences", "crash_points"], "every kind of file system fault at every file operation of the load, for generated module layouts",
     "Tests load from healthy in-memory file systems; failing operations are never injected.",
     ["load/instance.go", "load", "internal/util"],
     [("overlay built from the walked file system with errors propagated", "load/instance.go: InstanceWithThema; internal/util: ToOverlay")], [], ["InstanceWithThema's result, bound and exercised"])

prop("C13", "Generated code and schemas are reproducible",
     "Every generator - OpenAPI, JSON Schema, TypeScript, Go types, Go bindings, new lineages - produces byte-identical output for the same lineage, schema and configuration, whatever was generated or used before in the process, with the same or another configuration value, and in whichever order, whatever Go's map iteration order, and whatever the time of day. A generator run leaves the lineage as it was.",
     ["histories", "configurations"], "generator sequences in two orders with other generations between, under two map seeds and two clocks",
     "Golden tests run each generator once in one process state and under whatever map order occurs; a dependence on map order or previous runs shows up rarely.",
     ["encoding/openapi", "encoding/jsonschema", "encoding/typescript", "encoding/gocode", "encoding/cue"],
     [("sorting before emission; no package-level caches", "encoding/*")], [], ["generator output bytes"])

prop("C14", "Typed values carry the schema's data and defaults and are never shared",
     "Binding a Go type to a schema succeeds exactly when every value the schema admits fits the Go type and the fields of the two correspond; a new typed value holds the schema's defaults, and the Go value of a validated typed instance or value multiplexer holds the instance's data completed with defaults. Every call hands out a value of its own: nothing a client writes to it is seen through another value, call or goroutine, however the clients interleave.",
     ["histories", "schedules", "inputs"], "generated defaults and data, scribbling clients, interleavings and failing operations in between",
     "Tests read one typed value once; sharing shows only when a client modifies what it got and another call follows or runs concurrently.",
     ["schema.go", "instance.go", "assignable.go", "vmux/value.go", "vmux/typed.go"],
     [("a fresh decode per value", "schema.go: BindType newfn; instance.go: TypedInstance.Value")], [], ["NewT, ValidateTyped, Value, BindType, value and typed muxes"])

prop("C15", "Hydrating and dehydrating change only defaults",
     "Hydrating an instance returns an instance of the same schema whose data are the original's plus the schema's default for every absent defaulted field, at every nesting level; dehydrating returns the original's data minus the fields that equal their default. Neither changes the original instance, and both give the same result whatever other clients do with the same instance at the same time or did before.",
     ["inputs", "schedules", "histories"], "generated schemas with nested defaults, shared instances, interleaved clients and failing operations",
     "Tests hydrate fixed examples once each; shared instances, concurrent use and combinations of nested defaults are not covered.",
     ["instance.go", "hydrate.go"], [("copy with or without defaults", "hydrate.go: doHydrate, doDehydrate; instance.go: Hydrate, Dehydrate")], [], ["Hydrate, Dehydrate"])

prop("C16", "The append-only check accepts exactly extensions of a published lineage",
     "Comparing an old and a new version of a lineage reports no error if the new one contains every published schema unchanged, possibly followed by further ones, and an error if any published schema was removed or altered. The verdict is the same whatever else the clients of the runtime do at the same time or did before, and neither lineage is changed by the comparison.",
     ["inputs", "schedules", "histories"], "generated lineage pairs - same, extended, truncated, edited at any version - compared by interleaved clients",
     "Tests compare a few fixed pairs sequentially.",
     ["lineage.go", "internal/cuetil/equal.go"], [("pairwise mutual subsumption of schemas", "lineage.go: IsAppendOnly")], [], ["IsAppendOnly"])

from cliprops import add as add_cli
add_cli(prop)

NA = []
def na(id, title, st, reason, files, mech):
    prop(id, title, st, ["inputs"], "all inputs", "Tests sample a few inputs.", files, mech)
    NA.append({"property": id, "reason": reason})

na("C50", "Go assignability follows the documented rules", "A Go type is judged assignable to a schema exactly when the documented rules for kinds, optionality, lists, structs and bounds say so.",
   "A pure function of a schema and a Go type: no schedule, clock, I/O or fault can influence it, so simulating those decides nothing (its concurrent use is part of C01 and C14).", ["assignable.go"], [("recursive comparison", "assignable.go: assignable")])
na("C51", "Generated OpenAPI, JSON Schema, TypeScript and Go types describe the schema", "Data is valid for the generated artefact exactly when it is valid for the schema it was generated from.",
   "A semantic equivalence between pure functions of the schema; deciding it needs independent OpenAPI/TypeScript validators, not schedules or faults (reproducibility of the output is C13).", ["encoding"], [("generators", "encoding/*")])
na("C52", "Backward compatibility of minor versions is decided exactly for all of CUE", "For every pair of CUE schemas the bind-time compatibility verdict coincides with containment of their sets of instances.",
   "Subsumption of arbitrary CUE values is a pure function inside the CUE library; simulation can only sample it for the schema language of C04's generator.", ["bind.go", "internal/compat"], [("subsumption", "bind.go: checkGoValidity")])
na("C53", "Legacy lineages are rewritten to equivalent current ones", "Rewriting a legacy lineage yields a current lineage with the same schemas and versions.",
   "A pure source-to-source function (the crash safety of the command that applies it in place is C11).", ["internal/astutil", "internal/legacy"], [("AST rewrite", "internal/astutil")])
na("C54", "Version strings parse and print as inverse functions", "Printing a version and parsing the text gives the version back, and malformed text is rejected.",
   "A pure function of a string.", ["surface.go"], [("ParseSyntacticVersion", "surface.go")])

T = "deterministic simulation with fault injection: seeded schedules and faults, "
CH = {
 "C01": (T + "differential against sequential execution, plus race detection under simulated schedules", "sampled interleavings; each run compares every call's result with a serial execution of the same calls and, in part of the runs, watches memory accesses with the race detector while the simulator still decides the schedule"),
 "C02": (T + "deadlock/lock-leak detection and recovery check", "sampled fault sequences and interleavings; a lock held by no running task, a cycle or a missed step budget is a violation; afterwards operations must give the results of an undisturbed world"),
 "C03": (T + "race detection under simulated schedules", "sampled interleavings of runtime creation"),
 "C04": (T + "refinement of a reference model", "sampled lineages and single-rule violations of them in sampled histories; the generator's schema language bounds what is covered"),
 "C05": (T + "refinement of a reference model", "sampled lineages, data and interleavings; reference model of the generated schema language"),
 "C06": (T + "refinement of a reference model", "sampled lineages, lens programs, version pairs and interleavings; reference model of the generated lens language"),
 "C07": (T + "refinement of a reference model under mapper faults", "sampled fault placements in multi-step migrations"),
 "C08": (T + "refinement of a reference model under codec and mapper faults", "sampled inputs and fault placements on shared multiplexers"),
 "C09": (T + "differential of permuted histories and map orders", "sampled histories; every operation's result compared between two histories"),
 "C10": (T + "file system faults at every operation, all-or-nothing oracle", "sampled module layouts and fault positions"),
 "C13": (T + "differential of permuted histories, map orders and clocks", "sampled schemas and generator sequences; map iteration order and clock under the simulator's control"),
 "C14": (T + "refinement of a reference model with scribbling clients, plus race detection", "sampled defaults, data and interleavings"),
 "C15": (T + "refinement of a reference model", "sampled schemas, shared instances and interleavings"),
 "C16": (T + "refinement of a reference model", "sampled lineage pairs and interleavings"),
}
from cliprops import CHECKS as CC
for k, (t, n) in CC.items():
    CH[k] = (T + t, n)

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    ck = []
    for k in sorted(CH):
        ck.append({"property": k, "quick_cmd": "python3 bin/check.py " + k, "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + k,
                   "technique": CH[k][0], "level": "exploration", "level_note": CH[k][1]})
    m = {"version": 1, "setup_cmd": "python3 bin/setup.py",
         "hooks": {"guard": "none", "enable": "no hooks in /repo: the seams (sync, time, runtime randomness, syscall) are overlaid on a private view of the standard library and scheduling points on thema's packages with 'go build -overlay'", "source_commits": []},
         "checks": ck, "not_applicable": NA,
         "notes": "Seeded search over schedules and fault sequences; see DESIGN.md. Replay: python3 bin/check.py --replay FILE."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    ids = {p["id"] for p in P}
    assert ids == set(CH) | {n["property"] for n in NA}, ids ^ (set(CH) | {n["property"] for n in NA})

main()
