#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
GEN = ["generator/codegen/codegen.go", "generator/codegen/struct.go", "generator/codegen/map.go",
       "generator/codegen/array.go", "generator/codegen/byteslice.go", "generator/codegen/transit.go"]
FLD = ["generator/codegen/field/fill.go", "generator/codegen/field/extractors.go", "generator/codegen/field/fields.go",
       "generator/codegen/field/byteslice.go"]
MAR = ["generator/codegen/field/marshal.go", "generator/codegen/field/marshalers.go", "generator/codegen/field/byteslice.go"]
TPL = ["generator/static/tpl/valyjson_utils.go.tpl"]
IO = ["generator/parser.go", "generator/static/static.go", "generator/discoverer/projstruct.go", "generator/discoverer/parser.go"]
def st(n, m, w): return {"name": n, "meaning": m, "where": w}
def me(n, w): return {"name": n, "where": w}
P = []
def prop(id, title, statement, over, text, why, files, state, mech, obs, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state, "mechanism": mech, "observe_at": obs, "hook_needed": hook}})

POOL = st("per-type parser pool", "package-level pool of JSON parsers shared by every decode call of a type",
          "generator/codegen/codegen.go NewUnmarshalFunc (var jsonParser<Type>)")
WBUF = st("writer buffer chunks", "pooled byte chunks behind the JSON writer", "github.com/mailru/easyjson/buffer, used by generated MarshalJSON")

prop("C01", "Concurrent decoding is isolated",
 "When any number of goroutines call the generated decoders at the same time, each on its own object and its own input, for the same or for different types, every call returns exactly the result (object contents and error) that it returns when it runs alone. Every call also finishes: no interleaving makes decoders block one another for ever.",
 ["schedules", "inputs", "programs"], "every interleaving of the statements of the concurrently running decode calls, every set of objects, documents (valid, invalid, adversarial) and supported type declarations, every way in which the shared pools hand out parsers",
 "The race tests run a few goroutines over one or two types for a moment; they see the interleavings the Go scheduler happens to produce, mostly none inside a decode, and the race detector sees nothing of a parser returned to its pool too early when the pool happens to hand out another one.",
 GEN[:1] + FLD + TPL, [POOL],
 [me("each decode takes its own parser from the pool and gives it back when the object is filled", "generator/codegen/codegen.go NewUnmarshalFunc"),
  me("all intermediate values are local variables of the generated function", "generator/codegen/field/fill.go")],
 ["UnmarshalJSON", "FillFromJSON"])
prop("C02", "Concurrent encoding is isolated and leaves values alone",
 "When any number of goroutines encode values at the same time, including several goroutines encoding the very same value, every call returns exactly the bytes or error it returns when it runs alone. Encoding never changes the value being encoded, and bytes once returned never change afterwards.",
 ["schedules", "inputs", "programs"], "every interleaving of the statements of the concurrently running encode (and unrelated decode) calls, every value of every supported type declaration, shared or private",
 "Tests encode one value at a time; the race tests encode in a handful of goroutines with schedules nobody chose. That the bytes of an earlier call survive what later calls do with the recycled chunks is not looked at.",
 GEN + MAR + TPL, [WBUF],
 [me("each encode has its own writer on the stack; bytes are detached from it on return", "generator/codegen/codegen.go NewMarshalFunc"),
  me("values are only read", "generator/codegen/field/marshalers.go")],
 ["MarshalJSON", "MarshalTo", "IsZero"])
prop("C03", "Results do not depend on what the process did before",
 "Decoding a document into a fresh object, or encoding a value, gives the same result after any history of earlier calls in the same process as it gives in a process that has done nothing yet. The history may contain successful and failed calls, for any types, documents of any content and size, callbacks of the user's own that fail or panic, and recycled or dropped pool contents.",
 ["histories", "fault_sequences", "inputs", "programs"], "every sequence of earlier decode, encode, reset and zero-check calls on any type, every document content in it, every failure or panic of user callbacks within it, every state of the pools it can leave behind",
 "A unit test makes one or two calls in a nearly fresh process; leftovers in pooled parsers, pooled chunks or package-level state show only after particular sequences of other calls.",
 GEN + FLD + MAR + TPL, [POOL, WBUF],
 [me("a parser is reset by the next parse; no package-level state but the pools", "generator/codegen/codegen.go NewUnmarshalFunc")],
 ["UnmarshalJSON", "MarshalJSON"])
prop("C04", "A reset object is as good as new",
 "After Reset, an object behaves as a new one: it encodes as a new object does, and decoding any document into it gives the same result as decoding into a new object, up to nil versus empty containers. This holds whatever happened to the object before: successful decodes, decodes that failed half-way, earlier resets, and changes made by the user.",
 ["histories", "inputs", "fault_sequences", "programs"], "every history of decode (successful or failing at any point), reset, encode and user modification applied to one object before the reset, every document decoded after it, every supported type declaration",
 "Tests reset an object once after one successful decode and look at it; stale data in the spare capacity of a slice or in a kept map shows only after longer histories, in particular after failed decodes.",
 GEN + FLD, [st("kept containers", "slices and maps keep their memory over a reset so that it can be used again", "generator/codegen/codegen.go resetStmt")],
 [me("Reset clears every field, elements of slices included, and keeps the memory", "generator/codegen/codegen.go resetStmt, generator/codegen/struct.go ResetFunc, array.go, map.go, transit.go"),
  me("decoding fills slices in place within their capacity", "generator/codegen/field/fill.go appendElem")],
 ["Reset", "UnmarshalJSON", "MarshalJSON"])
prop("C05", "Decoded values and encoded bytes own their memory",
 "A decoded object shares no memory that can change with the input it was decoded from, with the parser that was used, or with any other decoded object: overwriting the input, decoding other documents, or modifying one object never changes another one. Bytes returned by an encoder belong to the caller in the same way: overwriting them changes no value and no later result, and nothing done later changes them.",
 ["histories", "schedules", "inputs", "programs"], "every sequence of decodes and encodes with every later use of the inputs, pooled resources, objects and output bytes, in every order, every supported type declaration and document",
 "Tests compare a result right after the call; aliasing shows only once somebody else writes to the shared memory, which takes a particular later operation on a pool, a buffer or a sibling object.",
 GEN + FLD + MAR + TPL, [POOL, WBUF],
 [me("strings are copied out of the parser's memory by conversion", "generator/codegen/field/fill.go typedFillIn, fillRefField"),
  me("defaults and pointed-to values are allocated per call", "generator/codegen/field/fill.go ifDefault, newAndFillIn")],
 ["UnmarshalJSON", "FillFromJSON", "MarshalJSON"])
prop("C06", "Messages survive an unreliable channel",
 "A value that is encoded, carried over a channel that may delay, duplicate and reorder messages, and decoded by a receiver that recycles its objects, comes out equal to the value that was sent, up to nil versus empty containers, whenever the message arrives intact (floating-point numbers: those short enough for the JSON parser underneath to read back exactly). A JSON object, array or string cut short is always rejected with an error, and no message, however corrupted, makes the receiver panic or hang or spoils the messages that follow.",
 ["fault_sequences", "histories", "inputs", "programs"], "every sequence of sent values of every supported type declaration (without lossy tags), every pattern of delay, duplication, reordering, truncation and corruption by the channel, every pattern of object reuse by the receiver",
 "Tests encode or decode fixed samples, each in isolation, and never carry what one side produced to the other over anything that loses or damages data.",
 GEN + FLD + MAR + TPL, [POOL, WBUF, st("receiver's recycled objects", "objects decoded into again after Reset", "README.md, generated Reset")],
 [me("encoder and decoder are generated from the same field list and tags", "generator/analyse.go, generator/codegen/struct.go"),
  me("separators are written according to what was written before", "generator/codegen/field/marshalers.go WriteBlock.Render")],
 ["MarshalJSON", "UnmarshalJSON", "Reset"])
prop("C07", "A failing encode says so and yields nothing",
 "If any part of a value fails to encode (a user-supplied encoder returns an error, or the writer reports one) at any depth, the encode call returns an error from which the original error can be recovered, and no bytes. A failed encode, or one in which a user-supplied encoder panicked, does not influence later calls.",
 ["fault_sequences", "inputs", "programs"], "every position at which a user-supplied part of a value can fail or panic or leave an error in the writer, every supported way of embedding it, every history around it",
 "The tests contain no encoder that fails, so none of the generated error paths ever runs in them.",
 GEN + MAR + TPL, [WBUF],
 [me("errors of nested encoders are wrapped and returned", "generator/codegen/field/marshalers.go structMarshal, generator/codegen/field/fields.go GetValueExtractor"),
  me("the writer's own error is returned at the end", "generator/codegen/codegen.go makeWriteAndReturn, NewMarshalFunc")],
 ["MarshalJSON", "MarshalTo"])
prop("C08", "A failing part fails the whole decode",
 "If any part of a document cannot be decoded into its place (a user-supplied decoder returns an error, or the part is of the wrong kind or malformed) at any depth, the decode call returns an error, and a user-supplied decoder's own error can be recovered from it. A failed decode, or one in which a user-supplied decoder panicked, does not influence other objects or later calls.",
 ["fault_sequences", "inputs", "programs"], "every position in the document at which one part is damaged or its decoder made to fail or panic, every supported type declaration, every history around it",
 "Tests try a handful of bad documents for a handful of fields; the error path is generated separately for each kind of field and container, and most of these paths never run.",
 GEN + FLD + TPL, [POOL],
 [me("each extraction is followed by its own error check, wrapped with the path", "generator/codegen/field/fill.go checkErr, breakErr, generator/codegen/field/extractors.go"),
  me("the error keeps its cause", "generator/static/tpl/valyjson_utils.go.tpl parsingError")],
 ["UnmarshalJSON", "FillFromJSON"])
prop("C09", "Generated code is a function of the sources alone",
 "The files the generator writes depend only on the sources it is given: not on what was generated earlier in the same process or for other packages or modules, not on earlier output lying around, the order in which the file system lists files, time, environment, hash seeds or the current directory. Running it again over its own output reproduces that output byte for byte.",
 ["histories", "configurations", "inputs", "programs"], "every history of earlier generator runs in the process (any module, any package, edited sources in between), every interleaving of the steps of several generator objects, every listing order, hash seed, clock, environment and starting state of the output files",
 "The fixture test compares one run in one environment per package with a stored hash.",
 ["generator/parser.go", "generator/analyse.go", "generator/discoverer/projstruct.go", "generator/discoverer/parser.go", "generator/static/static.go"] + GEN,
 [st("package registry", "process-wide table from package name to import path", "github.com/iv-menshenin/go-ast/explorer, fed by generator/parser.go FixImports"),
  st("discovered packages", "directories by package name", "generator/discoverer/projstruct.go packages")],
 [me("imports are collected from what the generated code uses", "generator/parser.go FixImports, imports"),
  me("declarations are emitted in source order", "generator/analyse.go getNormalized")],
 ["bytes of the output file and of the helper file"])
prop("C10", "Generator I/O failures are never silent",
 "If reading or writing fails anywhere during generation (error, short write, full disk, file vanishing, failing close), the run either reports failure to its caller or has written exactly the same files as an undisturbed run; it never reports success over wrong, partial or missing output. Interruptions that the operating system allows to be retried do no harm, the run always comes to an end, and a failed run does not stand in the way of the next one: run again once the fault is gone, the generator succeeds and writes exactly the right files.",
 ["fault_sequences", "programs", "configurations"], "every sequence of I/O faults at every system call of a generator run, for every set of sources and every starting state of the output files",
 "The tests only ever run on a healthy disk.",
 IO, [st("output files", "generated code and helper code next to the sources", "generator/parser.go Print, generator/static/static.go TPL.Print")],
 [me("every error of an I/O call is passed on", "generator/parser.go, generator/static/static.go, generator/discoverer/projstruct.go")],
 ["panic or error of the generator API", "bytes of the output files"])
prop("C11", "A killed generator run does no damage",
 "If the generator process dies at any moment, or the machine loses power then or shortly afterwards, each output file holds either its complete previous content (or is still absent) or the complete new content, never a part. Simply running the generator again then succeeds and yields exactly the files of an undisturbed run.",
 ["crash_points", "programs", "configurations"], "every system call of a run as the point of death (for a write, after any part of it), also in the run after a crash, for every set of sources and every starting state",
 "No test kills the generator; the window between truncating an output file and completing it is microseconds wide.",
 ["generator/parser.go", "generator/static/static.go", "generator/discoverer/projstruct.go"],
 [st("output files", "generated code and helper code next to the sources; parsed again by the next run's discovery", "generator/parser.go Print, generator/static/static.go TPL.Print, generator/discoverer/projstruct.go discoverPackages")],
 [me("output is completed in memory before the file is replaced", "generator/parser.go Print, generator/static/static.go TPL.Print")],
 ["bytes of the output files after the crash and after the next run"])
prop("C12", "The generator touches nothing but its outputs",
 "A generator run changes nothing in the file system but the requested output file and the helper file next to it; whatever else it creates on the way is gone when a successful run ends, lies in that same directory in any case, and is never an existing file. An output that is a symbolic link stays one. This holds in failing and killed runs too; sources, other packages and everything outside the module are only ever read.",
 ["fault_sequences", "crash_points", "programs", "configurations"], "every set of sources and output locations, every sequence of I/O faults, every crash point",
 "Tests look at the output file alone, after successful runs.",
 IO, [st("source tree", "the module the generator walks over", "generator/discoverer/projstruct.go")],
 [me("outputs are written in the directory of the requested file only", "generator/parser.go Print, generator/static/static.go recursivePrint")],
 ["set and content of all files before and after"])
prop("C16", "Generator runs at the same time do not disturb each other",
 "Several generator processes may work in one module at the same time, on the same or on different sources, sharing the helper file of a package. None of them fails because of the others, and when they have ended, every output file holds exactly what running them one after another yields, with nothing left behind. A process that fails or is killed meanwhile does not change that for the others.",
 ["schedules", "fault_sequences", "crash_points", "programs"], "every interleaving of the system calls of two or more generator processes on one file system, with faults and deaths in some of them, for every set of sources and every starting state",
 "The tests run one generator at a time; 'go generate' under parallel builds and editors runs several, and the windows are microseconds wide.",
 ["generator/parser.go", "generator/static/static.go", "generator/discoverer/projstruct.go"],
 [st("output files", "generated code, read by the discovery of other runs while it is being written", "generator/parser.go Print, generator/discoverer/projstruct.go discoverPackages"),
  st("helper file", "written by every run of a package", "generator/static/static.go TPL.Print")],
 [me("an output appears complete or not at all", "generator/parser.go Print, generator/static/static.go TPL.Print"),
  me("temporary names do not collide", "generator/static/write.go")],
 ["success or failure of every process", "bytes of the output files", "other files left behind"])
prop("C17", "A long-running process does not fill up or slow down",
 "However many documents a process decodes and values it encodes, with ever different content and with any number of failures and panics of user-supplied parts among them, what the generated code and its helpers keep in package-level variables and pools stays bounded, and the same work does not take longer and longer.",
 ["histories", "inputs", "fault_sequences", "programs"], "every history of calls, of any length, for every supported type declaration",
 "Tests make a handful of calls; growth by a few bytes per call shows after days.",
 GEN + FLD + TPL, [POOL, WBUF],
 [me("parsers are put back into the pool and their memory is used again", "generator/codegen/codegen.go NewUnmarshalFunc"),
  me("writers hand their buffers back", "generator/codegen/codegen.go NewMarshalFunc")],
 ["memory held between calls", "statements executed per call"])
prop("C13", "JSON is interpreted as the standard library does",
 "For documents and values within the supported subset, the generated decoders accept the same documents and produce the same values as the standard library's JSON package, and the encoders produce JSON with the same meaning.",
 ["inputs", "programs"], "every document and value of every supported type declaration", "Tests compare samples.",
 GEN + FLD + MAR, [], [me("field extraction by kind", "generator/codegen/field/extractors.go")], ["UnmarshalJSON", "MarshalJSON"])
prop("C14", "Declared rules are enforced on every document",
 "Required, strict, default, duplicate-key and value-range rules declared by tags are enforced on every document: missing required fields, unknown fields under strict rules, repeated keys and numbers outside the field's range are refused, and absent fields get their declared default.",
 ["inputs", "programs"], "every document and every combination of tags", "Tests try a few documents per rule.",
 ["generator/codegen/struct.go", "generator/codegen/field/fill.go"], [], [me("validator function", "generator/codegen/struct.go ValidatorFunc")], ["UnmarshalJSON"])
prop("C15", "Supported declarations always yield code that compiles",
 "For every combination of supported type declarations and tags the generator either refuses with a clear error or emits code that compiles, complete with its imports.",
 ["programs"], "every supported source file", "The fixtures cover a finite list of declarations.",
 ["generator/analyse.go"] + GEN + FLD + MAR, [], [me("import discovery", "generator/parser.go imports")], ["go build of the output"])
with open(OUT, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        p["anchors"]["files"] = sorted(set(p["anchors"]["files"]))
        for x in p["anchors"]["files"]: assert os.path.exists("/repo/" + x), x
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
