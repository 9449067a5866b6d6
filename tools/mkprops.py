"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


B, C, S, T, G, TR = ("generator/gen_bindings.go", "generator/gen_callbacks.go", "generator/gen_struct_helpers.go",
                     "translator/translator.go", "generator/generator.go", "translator/ast_walker.go")

p("C01", "A generated package is complete, formatted and compiles",
  "For every supported C header and manifest the tool ends with success and writes one Go package in the directory and under the package name the manifest gives, "
  "every file of which is gofmt-formatted and compiles with cgo against nothing but that header, on the first attempt and without manual edits. "
  "Every accepted function without a variable argument list, type, constant and every helper these need is declared exactly once, and nothing else of the header is.",
  ["inputs", "configurations"], "all combinations of declaration forms of the supported dialect (scalars, aliases, enums, unions, structs, nesting, pointers, arrays, callbacks, opaque types, macros) and manifest options",
  "The existing tests translate a handful of fixed snippets in memory and never compile what is generated; whether helpers fit together depends on the combination of declarations.",
  ["process.go", G, B, "generator/gen_files.go"], [("file assembly", "process.go: Process.Generate, Process.Flush"), ("helper closure", "generator/gen_bindings.go: submitHelper")],
  "the files written, gofmt -l, go build of the package, parsed declarations")
p("C02", "A call passes its arguments to C and its results back unchanged",
  "When a Go program calls a generated function, the C function of that name is called exactly once and sees every argument (scalars, enums, unions, strings, arrays, nested arrays, opaque handles and generic pointers) with the value the Go caller passed, nil as NULL. "
  "The Go caller gets the value C returned, and every element C writes through a non-const pointer argument is what the caller finds in the slice it passed; nothing else of the caller's data changes.",
  ["inputs", "programs"], "all function signatures of the supported dialect and all argument, result and written-back values, including extremes, nil, empty and non-ASCII data",
  "No existing test executes generated code; marshalling depends on the product of type form, pointer depth, const and value.",
  [B, S, T], [("argument proxies", "generator/gen_bindings.go: createProxies, proxyArgFromGo, proxyArgToGo"), ("type choice", "translator/translator.go: TranslateSpec, CGoSpec")],
  "trace written by a recording C library and by the calling Go program")
p("C03", "Structures cross the boundary field for field in both directions",
  "A structure passed by value, by pointer or in a slice reaches C with every accepted field, including nested structures, fixed arrays, slices, slices of slices and slices of structures, equal to the Go field (nil slices as NULL). "
  "A structure that C returns or modifies shows the values C stored once the Go program dereferences it; passing it on again passes the same C object, and releasing it returns it to its unreferenced state.",
  ["inputs", "programs"], "all structure definitions of the supported dialect, nesting included, and all field values; structs as arguments, results, slice elements and callback arguments",
  "No existing test executes generated code; the struct helpers are produced per field form and nest arbitrarily.",
  [S, B], [("struct helpers", "generator/gen_struct_helpers.go: getPassRefSource, getPassValueSource, getDerefSource"), ("packing", "generator/gen_bindings.go: getPackHelper, getUnpackHelper")],
  "trace written by a recording C library and by the calling Go program")
p("C04", "C memory behind generated calls is live while used and freed once",
  "Memory that generated code hands to C stays valid and unchanged by the garbage collector until the call returns, whenever collections and finalizers run. "
  "Every block generated code allocates is freed exactly once after the last Go reference to it is gone (for referenced structures: when they are freed), so repeated calls neither leak nor free twice nor read freed memory.",
  ["schedules", "inputs", "programs"], "all points of a call at which a collection can happen (also from inside C and inside callbacks), all argument forms",
  "Depends on when the collector and finalizers run; no existing test executes generated code, let alone under forced collections or a sanitizer.",
  [B, S], [("allocation maps", "generator/gen_bindings.go: cgoAllocMap, allocation and copy helpers"), ("keep-alive", "generator/gen_bindings.go: createProxies"), ("ownership", "generator/gen_struct_helpers.go: Free, PassRef")],
  "heap ledger and AddressSanitizer around the calls, collections forced from C")
p("C05", "Callbacks reach the right Go function with arguments and result intact",
  "When C invokes a function pointer that Go passed as a callback, the Go function given for that callback type runs once per invocation with the argument values C passed, and C receives the value it returns and what it writes to array arguments. "
  "A nil callback reaches C as NULL, and a callback of one type never runs for another, also when callbacks are invoked repeatedly, from nested calls or from threads Go does not know.",
  ["inputs", "programs", "schedules"], "all callback signatures of the supported dialect, all numbers and orders of invocations, several callback types in a call, invoking threads",
  "No existing test executes generated code; callbacks cross the boundary twice through generated C and Go stubs.",
  [C], [("stubs", "generator/gen_callbacks.go: getCallbackHelpers, bindCallbackCgoHelpers"), ("callback argument", "generator/gen_bindings.go: proxyArgFromGo")],
  "trace events on both sides of each invocation")
p("C06", "Generated constants equal what the C compiler computes",
  "Every constant that the generated package declares for an accepted macro, enumerator or constant variable has the value the C compiler gives the C name, for integers, floating point, characters and strings, expressions over other constants included, under each of the expand, eval and cgo rules. "
  "Every accepted enumerator is declared, and a macro that has no constant value, or none that Go constants can express the way C computes it, is left out instead of breaking the package.",
  ["inputs", "configurations"], "all literal forms, operators, nesting, references between macros and enumerators, enum layouts, and every combination of constant rules",
  "The tests look at two or three literals; precedence, suffixes, radix, references and implicit enumerators multiply.",
  [T, TR, "generator/gen_const.go", "translator/helpers.go"], [("macros", "translator/translator.go: collectDefines, ExpandDefine"), ("enumerators", "translator/ast_walker.go: enumSpec"), ("output", "generator/gen_const.go")],
  "a Go program printing the constants next to a C program printing the same names")
p("C07", "Generated types have the width, signedness and layout of the C types",
  "The Go type of every parameter, result, field, alias, enum, union and array of the supported dialect has the size and signedness of the C type it stands for, for the target the manifest selects (C long and pointer-sized types have the size of that target); plain char is a Go byte and an enum type has the size of the C enum. "
  "Array dimensions keep their order, pointer depth becomes the same depth of slices or pointers, and the C structure behind a generated structure has the size and field offsets the C compiler uses.",
  ["inputs", "configurations"], "all C scalar spellings, aliases of aliases, enums, unions, array dimensions and pointer depths, 32- and 64-bit targets",
  "The tests check a few scalar mappings by string; spellings and nesting combine.",
  ["translator/type_mapping.go", T, TR], [("type map", "translator/type_mapping.go: getCTypeMap"), ("ABI", "process.go: NewProcess (LongIs64Bit)")],
  "reflection over the generated package next to sizeof/offsetof from the C compiler")
p("C08", "Exactly the accepted declarations are generated",
  "A function, type, enumerator, macro or constant variable of the header gets a Go declaration exactly when the rules admit its C name: the rules of its scope (function, type, const, const, public), where a matching ignore rule wins over a matching accept rule, "
  "or, when none of these matches the name, the global rules in the same way; a name no rule matches is left out. The order of declarations and rules does not matter. Declarations from ignored files never appear.",
  ["inputs", "configurations"], "all sets of C names and all accept and ignore rules over the scopes",
  "The tests cover rule functions on single names; selection is decided at many sites of the generator.",
  ["translator/rules.go", T, G], [("acceptance", "translator/translator.go: IsAcceptableName, IgnoredPaths"), ("use", "generator/generator.go: WriteTypedefs, WriteDeclares, WriteConst")],
  "declarations parsed from the output, compared with an independent rule interpreter")
p("C09", "Names are transformed by the rules in order, the same everywhere",
  "The Go name of a declaration is its C name after the replace, transform and builtin rules are applied in the order global, scope, post-global, visibility and, within one scope, in the order written, with only what a rule's pattern matches changed. "
  "A C name gets the same Go name wherever it is declared or referred to, a Go keyword is escaped, functions and fields take the public rules and parameters the private ones.",
  ["inputs", "configurations"], "all names and all rule lists over scopes, regular expressions, group references and transforms",
  "The tests apply a few fixed rules; order, scope and repeated use multiply.",
  [T, "translator/rules.go", "generator/gen_declares.go"], [("transformation", "translator/translator.go: TransformName"), ("name checks", "generator/gen_declares.go: checkName")],
  "declaration names and references parsed from the output, compared with an independent interpreter")
p("C10", "The same input gives the same output, byte for byte",
  "With timestamps disabled, the files written depend only on the headers, manifest and options: repeated runs, runs with another scheduling or hash seed, another working directory, earlier output already in place, or an added unaccepted declaration give the same bytes. "
  "Timestamps, when enabled, are the only difference.",
  ["schedules", "configurations", "inputs"], "all schedules of the generator's goroutines and all map iteration orders; all inputs",
  "A single run cannot show that two runs agree; iteration order and scheduling are random.",
  [G, "process.go", T], [("helper goroutine", "generator/generator.go: MonitorAndWriteHelpers"), ("sorted declarations", "translator/translator.go: Learn")],
  "hashes of the output trees of repeated runs")
p("C11", "Helper collection is exactly-once and race-free under any schedule",
  "However the goroutine that writes helpers is scheduled against the writers of the other files, and however slow the output is, every helper submitted before the generator is closed is written exactly once in each place it belongs to before closing returns, none after. "
  "Closing always terminates, also twice or with nothing submitted, there is no data race, and generators running at the same time do not influence one another.",
  ["schedules", "fault_sequences"], "all interleavings of submitting, writing and closing; slow or failing writers; several generators at once",
  "The tests never run the helper writer; its faults are interleavings.",
  [G, B, "process.go"], [("helper goroutine", "generator/generator.go: MonitorAndWriteHelpers, Close"), ("process", "process.go: NewProcess, Flush")],
  "race detector and an event log of submissions, writes and the return of Close")
p("C12", "Generated bindings are safe for concurrent callers",
  "Calls of generated functions from several goroutines at once, each with its own arguments, behave as the same calls made one after another: every call's C function sees its own arguments and every caller its own results. "
  "No generated helper has a data race or shares memory between calls, garbage collections and callbacks included.",
  ["schedules", "programs"], "all interleavings of calls, callbacks, finalizers and collections; all argument forms",
  "No existing test executes generated code, and none is concurrent.",
  [B, C, S], [("allocation maps", "generator/gen_bindings.go: cgoAllocMap"), ("callback registration", "generator/gen_callbacks.go")],
  "race detector and per-thread traces with unique values")
p("C13", "Pointer and type tips decide representations exactly as written",
  "A pointer tip (arr, ref, sref, inst) or type tip (named, plain, string, unsigned) given for the n-th parameter, the result or the n-th field of a matching declaration decides how exactly that item is represented in Go, defaults apply to items without a tip, and items of other declarations are unaffected. "
  "Whatever the tips, the package compiles and calls keep passing the right values.",
  ["configurations", "inputs"], "all assignments of tips to parameters, results, fields, enums and aliases, default and self tips, scopes and target patterns",
  "The tests cover a few tips on single specs; combinations and positions matter.",
  [T, "translator/rules.go", "generator/gen_common.go"], [("tip lookup", "translator/translator.go: PtrTipRx, TypeTipRx, TipRxsForSpec"), ("translation", "translator/translator.go: TranslateSpec")],
  "signatures and field types parsed from the output; executed calls")
p("C14", "Raw memory tips and accessors give direct, correct access to C objects",
  "A type with the raw memory tip is the C type itself: values of it, in parameters, results, fields and callbacks, are used in place without copying, and changes made by either side are seen by the other. "
  "Generated accessors refer to exactly the field they are named after: reading through them gives the value of that field, writing through them changes that field of the C object and no other. Ref, PassRef and New...Ref give the object itself; New allocates a zero object.",
  ["configurations", "inputs"], "all structure definitions and field forms, raw or not, all fields and values",
  "No existing test executes generated accessors or raw types.",
  ["generator/gen_struct_helpers.go", "generator/gen_common.go", "generator/gen_typedef.go", T], [("raw tip", "generator/gen_common.go: MemTipOf"), ("accessors", "generator/gen_struct_helpers.go: getStructHelpers")],
  "C object contents before and after, logged by the C side")
p("C15", "Unusable input ends with an error, never with a bogus package or a crash",
  "A missing, unreadable or malformed manifest, a manifest without generator section, package name that Go accepts or sources, a source that cannot be found or is not valid C, an invalid pattern in a rule or tip, and an output place that cannot be written each end the tool with a nonzero status and a message naming the problem, without a Go panic. "
  "No Go file of a package is written when its headers or manifest were not usable.",
  ["inputs", "fault_sequences", "configurations"], "all manifests and headers, also truncated, corrupted and contradictory ones; faults of the file system",
  "The tests have no failing runs of the program.",
  ["main.go", "process.go", "parser/parser.go", T], [("errors", "process.go: NewProcess, Flush; main.go"), ("sources", "parser/parser.go: checkConfig"), ("patterns", "translator/translator.go: New")],
  "exit status, stderr and files written")
p("C16", "Packages of one run are independent of each other",
  "Running the tool over several manifests writes for each the package it gets when processed alone, in the place its own manifest and the output option determine, whatever the order and however they overlap. "
  "A directory argument stands for the manifest in it (the tool's own name first, then the directory's), and arguments that do not exist are refused.",
  ["configurations", "histories"], "all lists of manifests and directories, orders, options, output directories",
  "The tests never run the program on more than one manifest.",
  ["main.go", "process.go"], [("loop", "main.go: main, getConfigPaths, configFromDir"), ("state", "process.go: NewProcess")],
  "output trees of combined and separate runs")
p("C17", "Headers are read as configured: defines, include paths, target, sources",
  "The headers are read with the macros the manifest defines (values and types kept, an empty map defining the bare name), which take precedence over those of the host. Quoted includes are found beside the including file, then in the include paths in their order (pkg-config paths after the listed ones), beside the manifest and in the system include paths; bracketed ones in the system include paths. "
  "Sources are found in the working directory, then in these include paths, and all of them contribute to one package. Sizes are those of the architecture selected. What the preprocessor conditionals leave out does not appear, and what they leave in does.",
  ["inputs", "configurations"], "all combinations of defines, conditionals, include trees, search orders, architectures and source lists",
  "The tests parse strings with a fixed configuration.",
  ["parser/parser.go", "process.go"], [("configuration", "parser/parser.go: ParseWith, checkConfig, findFile"), ("paths", "process.go: NewProcess")],
  "declarations and constant values in the output, compared with gcc -E on the same tree")
p("C18", "Provenance comments, documentation and build flags are carried over faithfully",
  "Every generated function and type carries a comment that names the file and line at which the header declares it, or has the text that a doc rule gives for it instead; the files carry the manifest's licence and package description, and start with the notice of the tool as written, all of it as comments whatever characters they contain. "
  "The cgo directives in the output are those of the manifest, with their conditions, in their order, together with the pkg-config and include lists, in every file that uses C.",
  ["inputs", "configurations"], "all licence and description texts, flag groups, traits, include lists and declaration positions",
  "The tests do not look at comments or directives.",
  ["generator/gen_files.go", "generator/generator.go", "generator/gen_common.go"], [("headers", "generator/gen_files.go: WritePackageHeader, writeCFlags"), ("positions", "translator/translator.go: SrcLocation")],
  "comments and cgo preambles parsed from the output")
p("C19", "Strings cross the boundary intact under every string option",
  "A Go string reaches C as the same bytes followed by a terminating zero while the call lasts, and a C string comes back as the same bytes, NULL as empty, with and without the safe-string option, and for const char and, where that is configured, const unsigned char and named char types. "
  "String slices behave so element by element, elements replaced by C are seen by Go and remain valid after the C memory is gone, and turning string mapping off in the manifest gives byte pointers instead.",
  ["inputs", "configurations"], "all byte contents and lengths, NULL, positions in a signature, and the options for safe strings and const char mapping",
  "No existing test executes generated code; options change which helpers are generated.",
  [B, T], [("helpers", "generator/gen_bindings.go: string helpers"), ("options", "translator/type_mapping.go: ConstCharIsString; generator options SafeStrings")],
  "bytes logged by C and by Go")
p("C20", "Symbol validation guards exactly the functions it names",
  "A generated function matched by a validation calls the validation function before anything else and, when that reports failure, returns the configured value without calling C; when it reports success it behaves as without validation. "
  "Functions that no validation names are generated as if there were none, and the first validation that names a function applies to it.",
  ["configurations", "inputs"], "all validation lists, patterns, return values and function signatures, outcomes changing from call to call",
  "The tests have no validations.",
  [B, T], [("lookup", "translator/translator.go: GetLibrarySymbolValidation"), ("guard", "generator/gen_bindings.go: writeFunctionBody")],
  "trace of validation calls, C calls and results")
p("C21", "The cgo-free mode writes pure Go with the same constants",
  "With the option that leaves cgo out, the output contains no import of C, no C file and no binding that needs C, and it compiles without a C compiler when the accepted declarations need none. "
  "Constants, enum types, aliases and plain structures in it are those of the normal mode, with the same names, values and types.",
  ["configurations", "inputs"], "all headers of the dialect whose accepted declarations are constants, enums, aliases and plain structs",
  "The tests never use the option.",
  ["process.go", "generator/gen_typedef.go"], [("mode", "process.go: Generate, Flush")],
  "go build with cgo disabled, values compared between the modes")
p("C22", "Length fields and the memory bound shape slices as configured",
  "When the manifest ties a pointer field with plain elements to a length field, dereferencing a structure gives a slice over the memory C stored whose length is what C stored in that field, also when the length is zero, changes or exceeds the earlier one; fields of the same name in other structures are not affected. "
  "Slices over C memory whose length is unknown are capped at the memory bound given on the command line, and never report a longer length than the program set.",
  ["configurations", "inputs"], "all length field types, field orders, several pairs in a structure, values and bounds",
  "The tests do not use length fields or the memory bound.",
  [B, S, G], [("lengths", "generator/gen_struct_helpers.go: getDerefSource"), ("bound", "generator/generator.go: SetMaxMemory; packPlainSlice")],
  "lengths and capacities logged by Go, values logged by C")

p("C23", "The type map of the manifest decides the Go types of the C types it lists",
  "A C type listed in the type map is represented by the Go type given there wherever it is used: parameters, results, fields, arrays, slices, callbacks, and typedefs of it. Values still arrive unchanged in both directions, "
  "reinterpreted where the Go type has another sign, for slices and pointers when the sizes agree and for plain values also when the Go type is wider. Types that the map does not list keep their default.",
  ["configurations", "inputs"], "all integer types and char pointers as keys; the integer types of Go and string as values",
  "One line of the type lookup decides it, and no test has a type map.",
  [B], [("lookup", "translator/translator.go: lookupSpec, TranslateSpec"), ("plain types", "translator/model_go_type.go: IsPlain")],
  "compilation of a driver that names the mapped types, and the trace of values that C and Go log")

p("C24", "Bindings of real libraries give what the libraries give to C programs",
  "Bindings generated from the installed headers of ordinary C libraries build and link against the library; every accepted function whose declaration the Go side can express is callable and every accepted constant has the value C gives it, while nothing outside the accept rules appears. "
  "A Go program that makes the same calls as a C program with the same data sees the same results, buffers, strings and structure contents, under every naming and option set.",
  ["inputs", "configurations"], "the libraries installed here (zlib, bzip2, zstd, lzma, expat, z3, parts of libc), naming rules, options and data",
  "No test in the repository calls a generated binding.",
  [S, G, B, "parser/parser.go"], [("whole pipeline", "main.go, process.go: NewProcess, Generate, Flush")],
  "the lines a Go program prints through the bindings against those of a C program, and the census of the package against the compiler's syntax tree")

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    print(len(P))
