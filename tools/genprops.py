#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/genprops.py)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": quant},
      "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe or ["Schema.Resolve / Schema.Result (public API)"],
                  "hook_needed": hook}})

R="resolver.go"; B="bytecode/bytecode.go"; BI="bytecode/bytecode_instructions.go"; BC="bytecode/cache/bytecode_cache.go"
PA="parse.go"; CS="copy_schema.go"; IN="inject_schema.go"; IH="implement_helpers.go"; D="directives.go"; EN="enums.go"; IF="interfaces.go"; TR="apollo_tracing.go"; GT="grahql_types.go"

p("C01","Query results mirror the schema's Go data",
  "For every accepted operation, the response data holds exactly the selected fields, under their alias or else their name, in selection order, each with the value of the Go field or resolver result it names. Values are followed through pointers (nil gives null), slices and arrays (element by element, nil slice gives null), structs and function fields (nil gives null) to any nesting. Nothing is added, lost, reordered or taken from another field, parent or list element.",
  ["inputs","programs"],"every Go type the schema accepts x every value of it x every valid selection over it",
  "The tests fix about sixty hand-written schema/query pairs; they never combine type constructors, list positions, aliases and nesting at random.",
  [R,PA],[("selection set walk over bytecode","resolver.go resolveSelectionSet/resolveField"),("value walk by type descriptor","resolver.go resolveFieldDataValue"),("type descriptor construction","parse.go check")],
  [{"name":"value stack","meaning":"current Go value per nesting level","where":"resolver.go Ctx"}])

p("C02","No request can crash or hang the server",
  "Whatever bytes arrive as query, operation name, variables or HTTP body, the call returns normally: it does not panic, overflow the stack, read out of bounds or loop forever. Afterwards the same schema still answers well-formed requests correctly, also when a user's resolver panicked and the caller recovered.",
  ["inputs","histories"],"all byte strings for every request component, in any sequence on one schema",
  "Tests feed a few malformed queries; the property is about every byte string, truncation and nesting, and about what the previous one left behind.",
  [B,R,IH],[("bounds-checked reader","bytecode.go checkC/mightIgnoreNextTokens"),("length-delimited bytecode","resolver.go readInst/skipInst"),("fragment spread resolution","resolver.go resolveSpread")],
  observe=["process exit, recovered panics, CPU-time budget per request","Schema.Resolve","Schema.HandleRequest"])

p("C03","Every response is one well-formed JSON document that matches the errors",
  "Every response is exactly one well-formed JSON document: an object with data, an errors array present exactly when errors are returned and then listing the same messages in the same order, and extensions when errors or tracing are present; with metadata disabled it is just the data object. This holds for valid, invalid, partly failing, skipped and cancelled requests alike.",
  ["inputs","fault_sequences"],"all requests, valid or not, all resolver outcomes (value, error, nil, cancelled context)",
  "Tests compare a handful of response strings; separators, quoting and null placeholders depend on every combination of failing, skipped and empty parts.",
  [R,IH,"helpers/encodeString.go"],[("incremental JSON writer","resolver.go write*/Resolve"),("error envelope","resolver.go Resolve; implement_helpers.go HandleRequest")])

p("C04","Argument literals reach the resolver exactly as written",
  "Every argument literal in a query (integer, float, string, boolean, enum, ID, time, list, nested list, input object, any of them behind pointers) is delivered to the Go function as the Go value it denotes, in the argument it names, whatever other arguments or fields precede or follow it. Arguments that are omitted or null arrive as the Go zero value (nil for pointers), and a present object or list is never replaced by nil or cut short.",
  ["inputs","programs"],"all argument struct types x all literal trees of those types x all argument orders",
  "Tests use one or two arguments with one value each; lists followed by other arguments, nulls inside lists and objects and nested lists are not sampled.",
  [R,B],[("literal encoding","bytecode.go parseInputValue"),("binding","resolver.go bindInputToGoValue/walkInputObject"),("argument descriptors","parse.go checkFunctionInput")],
  observe=["arguments recorded by the resolver functions themselves"])

p("C05","Variables bind like the literals they stand for",
  "An argument given through a variable reaches the resolver with the same Go value as if the value were written inline, at every position a value may appear (whole argument, list element, input object field, directive argument). The value supplied with the request wins over the declared default, the default is used when none is supplied, null means null, and a variable that is undeclared, has neither value nor default, or would get a default that holds variables produces an error.",
  ["inputs","programs"],"all argument types x values x placements of variables x supplied/default/absent combinations",
  "Tests bind a few variables of a few types; equivalence of the two binding paths needs the product of types, placements and sources.",
  [R],[("JSON variable binding","resolver.go bindJSONToValue/bindExternalVariableValue"),("declaration lookup","resolver.go findOperatorArgument/bindOperatorArgumentTo")],
  observe=["arguments recorded by the resolver functions themselves"])

p("C06","Input that does not fit is rejected, never altered",
  "A value that the argument's Go type cannot hold (integer out of range for its width or sign, number out of float range, malformed ID or time, unknown enum key, wrong kind, undefined argument or input field), whether written inline, as a default or in variables, yields an error and the resolver is not called with it; so does a variable declared with another type than the argument's (text may stand for enums, IDs, times and files, and booleans are not looked at). No value is truncated, wrapped, rounded to another integer or replaced by a default.",
  ["inputs"],"all argument types x all literals and JSON values, concentrated on range boundaries and kind mismatches",
  "Tests sample two or three out-of-range integers written inline; widths, signs, IDs and the variables path form a product no test list covers.",
  [R,"helpers/time.go"],[("range checks","resolver.go bindInputToGoValue, bindJSONToValue, assignStringToValue")],
  observe=["resolver call log and returned errors"])

p("C07","Values handed out stay intact after later requests",
  "Strings and other values passed to resolvers, and the errors, error paths and field paths given to resolvers and callers, keep their content no matter how many further requests the same schema or its copies serve. No request can observe or change memory belonging to another.",
  ["histories"],"all sequences of requests whose resolvers and callers keep what they were given",
  "Unit tests look at a value once, right after the call; corruption only shows when a retained value is read again after later requests reused the buffers.",
  [R,B,IH],[("zero-copy conversions","resolver.go b2s/s2b, bytecode.go b2s"),("buffer reuse","resolver.go Resolve, bytecode.go ParseQueryToBytecode")],
  [{"name":"bytecode, variables and error buffers","meaning":"reused between requests","where":"resolver.go Ctx, bytecode.go ParserCtx"}],
  observe=["values retained by resolvers re-read after later requests; -race/checkptr and -asan builds"])

p("C08","A response depends only on its own request",
  "On one schema, the response to a request is the same as on a freshly parsed schema, whatever requests (valid, malformed, failing, panicking, introspecting, traced, cached, batched) were served before it. Variables, context values, errors, paths, operation arguments and introspection results never carry over.",
  ["histories"],"all finite request histories followed by any request",
  "Each test builds a new schema; no test compares an answer after a history with the answer on a fresh schema.",
  [R,B,IN],[("per-request reset","resolver.go Resolve, bytecode.go ParseQueryToBytecode"),("lazily built introspection caches","inject_schema.go getAllQLTypes/objToQLType/getQLSchema")],
  [{"name":"Ctx, ParserCtx, introspection caches","meaning":"state kept between requests","where":"resolver.go, bytecode.go, inject_schema.go"}])

p("C09","Query caching never changes an outcome and stays bounded",
  "Serving a document from the query cache gives the same operation, fragments, result and errors as parsing it again, for every mix of documents, lengths, operation names, repetitions and evictions. Documents that fail to parse or are not longer than the configured minimum are never served from the cache, and the cache's size stays bounded no matter how many different documents arrive.",
  ["histories","configurations"],"all sequences of (document, operation name) pairs, including many documents of equal length, and all cache thresholds",
  "One test repeats one query; collisions of equal length, operation names, eviction and buffer reuse between entries are not sampled.",
  [BC,B],[("cache lookup and insertion","bytecode_cache.go GetEntry/SetEntry"),("cacheability decision","bytecode.go ParseQueryToBytecode"),("threshold","parse.go SetCacheRules")],
  [{"name":"cached bytecode, fragment locations, operation index","meaning":"parse result per document and operation name","where":"bytecode_cache.go"}],
  observe=["bytecode.ParserCtx results","cache.BytecodeCache entries","Schema.Result with caching on and off"])

p("C10","A copied schema behaves exactly like its original",
  "Copying a parsed schema yields a schema that gives the same response as the original to every request, including introspection, directives, enums, interfaces, depth limit, cache settings and tracing, and copies of copies do too. Using, mutating settings of, or copying one never changes what the other returns.",
  ["programs","inputs","histories"],"all schemas x all requests x all moments of copying",
  "Tests run most queries on one copy right after parsing; introspection, tracing and settings of copies, and later divergence, are not compared.",
  [CS],[("deep copy","copy_schema.go Copy and copy methods")])

p("C11","Copies of a schema can serve requests concurrently",
  "Copies of one parsed schema, each used by one goroutine at a time, can serve any mix of requests in parallel (queries, mutations, introspection, tracing, batches, cached documents) without data races. Every response equals the one the same request gets when run alone. Any number of goroutines may copy a schema that serves no request at the same time, and independent schemas may be parsed and used meanwhile.",
  ["schedules","inputs"],"all interleavings of requests on distinct copies",
  "The test suite has no concurrent test and is not run under the race detector.",
  [CS,R,IN,TR,BC],[("per-copy state","copy_schema.go Copy"),("introspection closures and caches","inject_schema.go")],
  [{"name":"introspection caches, tracer, parser, value stack","meaning":"must be private to each copy","where":"copy_schema.go"}],
  observe=["Go race detector reports","responses compared with serial run"])

p("C12","Fragments act as if their fields were written in place",
  "Spreading a named fragment or writing an inline fragment contributes exactly its fields, at that place, when its type condition names the object's type or an interface it implements, and nothing otherwise; the fragment used is the one with exactly that name wherever it is defined in the document. An undefined fragment, or fragments that spread themselves directly or in a circle, yield an error.",
  ["inputs"],"all documents with fragments: names (including prefixes of each other), order of definition, nesting, type conditions, placement",
  "Tests use one or two fragments with unrelated names; name relations, order, nesting and non-matching types are unbounded.",
  [R,B],[("spread resolution","resolver.go resolveSpread"),("fragment table","bytecode.go parseOperatorOrFragment")])

p("C13","Directives include or drop exactly what they annotate",
  "A field, fragment spread or inline fragment annotated with directives is left out exactly when one of them says skip (skip true, include false, or a registered directive returning skip), with the rest of the selection unaffected; whatever is left out is not resolved. Each directive method receives the arguments written for it, unknown directives and directives used where they are not registered yield an error.",
  ["inputs","programs"],"all combinations of directives, arguments (literal or variable), positions and neighbouring selections",
  "Tests try single directives on single fields; combinations with arguments, selections, several directives and separators are not enumerated.",
  [R,B,D],[("directive evaluation","resolver.go resolveDirective"),("directive parsing","bytecode.go parseDirectives"),("registration","directives.go RegisterDirective")])

p("C14","Only the requested operation runs, against its own root",
  "With an operation name, exactly the operation of that name in the document is executed; without one, the last operation is. Queries run against the query root and mutations against the mutation root, and if the named operation does not exist or is a subscription, an error is returned and no resolver runs.",
  ["inputs"],"all documents with any number and order of named and unnamed operations and fragments x all operation names",
  "One test has two operations and three names; name prefixes, order, mixed kinds and fragments between them are not sampled.",
  [B,R],[("operation selection","bytecode.go parseOperatorOrFragment target"),("root selection","resolver.go resolveOperation")],
  observe=["resolver call log"])

p("C15","Each selected resolver runs exactly once, in document order",
  "Executing an operation calls the Go function of every selected field exactly once per selected occurrence and parent value, in the order of the document and of the lists, each call finished before the next begins. Functions of fields that are not selected, are skipped, or lie under null or non-matching parents are not called.",
  ["inputs","histories"],"all schemas with resolvers x all selections, also in mutations",
  "Tests check returned data; none counts or orders calls, so a double or missing side effect is invisible.",
  [R],[("method call","resolver.go callQlMethod/resolveFieldDataValue")],
  observe=["call log with sequence numbers kept by the resolver functions"])

p("C16","Resolver errors are reported at their path and stay local",
  "When a resolver returns an error, the response's errors contain its message with the path of that field (response keys and list indices) exactly once, the value returned with it is still written, and all other selected fields resolve as if nothing happened. A selection the schema does not allow (unknown field, missing or superfluous selection, arguments on plain fields) is reported with its path.",
  ["inputs","fault_sequences"],"all selections x all subsets of failing resolvers, at any depth and list position",
  "Tests fail one resolver at the top level; paths after nested, aliased, listed, fragment and multiple failures are not sampled.",
  [R],[("path bookkeeping","resolver.go resolveField, resolveFieldDataValue"),("error collection","resolver.go err/errf")])

p("C17","Depth limit is enforced exactly and deep queries stay correct",
  "With maximum depth N, an object at nesting level N or deeper is never resolved and yields null with an error, while every query below that depth resolves completely and correctly. This holds for nesting through objects, pointers, lists, lists of lists, interfaces and fragments alike, and for every N up to the default of 255.",
  ["inputs","configurations"],"all depths around the limit x all nesting constructs x all limits",
  "One test exceeds one limit through one kind of nesting.",
  [R],[("depth counter","resolver.go resolveFieldDataValue"),("value stack","resolver.go Ctx reflectValues")],
  [{"name":"MaxDepth","meaning":"user-set limit","where":"parse.go Schema"}])

p("C18","Output values are encoded without loss",
  "Strings, numbers, booleans, IDs and times in a response decode to exactly the value the Go data holds: any string up to replacement of invalid UTF-8, every integer of every width, every finite float to the same bits, IDs as strings, and every time as the same instant to the millisecond, in UTC ISO 8601 that the library itself accepts as input.",
  ["inputs"],"all Go scalar values of all supported kinds",
  "Tests encode a dozen constants.",
  ["helpers/encodeString.go","helpers/encodeFloat.go","helpers/time.go",R],[("string encoder","helpers/encodeString.go"),("float encoder","helpers/encodeFloat.go"),("time format","helpers/time.go"),("dispatch by kind","resolver.go valueToJSON")])

p("C19","The HTTP entry point is equivalent to resolving directly",
  "For every request, whether sent as URL parameters, JSON body or multipart form, the HTTP helper gives the response of resolving its query, variables and operation name directly, with the given context, values, files and tracing. A batch yields a JSON array with one response per item in order, each as if sent alone, and a malformed body yields an error response.",
  ["inputs"],"all methods, content types, bodies, batches and options",
  "Tests send one well-formed request per transport.",
  [IH],[("request decoding","implement_helpers.go HandleRequest/getBodyData"),("batching","implement_helpers.go HandleRequest")],
  observe=["Schema.HandleRequest"])

p("C20","Introspection describes exactly the executable schema",
  "Introspection lists precisely the types, fields, arguments, nullability, enum values, interfaces, possible types and directives with their arguments that execution supports, the same through __schema, __type and every type reference, and the same each time it is asked. What it lists can be queried, what it does not list cannot, a field described as non-null never yields null without an error (apart from values outside their enum, which C27 covers), and an argument accepts a variable of its described type.",
  ["programs","inputs","histories"],"all schemas x all introspection selections, in any order and repetition",
  "Tests decode one introspection result and check a few names.",
  [IN,GT,PA],[("type description","inject_schema.go objToQLType/inputToQLType"),("root and directive description","inject_schema.go getQLSchema/getDirectives")])

p("C21","Tracing reports every resolved field and changes nothing else",
  "With tracing on, the response carries one record per resolved schema field, in completion order, with the field's path, parent type, name and declared type, and offsets and durations such that a child's interval lies within its parent's and within the request. Data and errors are the same as with tracing off, and with tracing off no trace is present.",
  ["inputs"],"all schemas and queries, tracing on and off, on schemas and copies",
  "One test counts records of one query.",
  [TR,R],[("recording","resolver.go resolveField/finishTrace"),("report","apollo_tracing.go"),("type rendering","parse.go objToQlTypeName")])

p("C22","The parser preserves the document's meaning",
  "For every document of the supported language, the compiled form decodes back to the same operations, fragments, fields, aliases, arguments, values, types and directives in the same order, with internally consistent lengths and counts. White space, line breaks, comments, and commas between items do not change it.",
  ["inputs"],"all documents of the supported grammar x all layouts",
  "Tests compare the bytecode of about fifty small documents.",
  [B,BI],[("recursive descent","bytecode.go"),("instruction layout","bytecode_instructions.go")],
  observe=["bytecode.ParserCtx.Res, FragmentLocations, TargetIdx"])

p("C23","Malformed documents are rejected with a location and nothing runs",
  "A document that is not well formed (truncated, with an illegal or missing token, over-long name, too many directives) yields at least one error, each carrying a line and column inside the document that lies no later than the first token that cannot be continued, and no resolver is called. The response data is then empty.",
  ["inputs"],"all proper prefixes and single-token corruptions of valid documents",
  "Tests check a few malformed strings for having some error.",
  [B,R],[("error reporting","bytecode.go err"),("execution gate","resolver.go Resolve")],
  observe=["bytecode.ParserCtx.Errors","resolver call log"])

p("C24","Only declared public fields are exposed, under their documented names",
  "A schema exposes exactly the exported, non-ignored, non-embedded struct fields and the Resolve-prefixed methods of its types, and arguments likewise, each under its documented name (lower-cased first letter unless the second letter is not lower case, tag rename, Resolve prefix of methods removed) and no other name. The one known exception is an unexported field of a plain type. Unexported or ignored fields can neither be read nor set by any query.",
  ["programs","inputs"],"all struct types and tags x all names used in queries",
  "Tests look at a few names; absence of every other name is not testable by samples alone.",
  [PA,R],[("field discovery","parse.go checkStructField/checkFunctionInputStruct/parseFieldTagGQ/formatGoNameToQL"),("name lookup","resolver.go resolveField objContents")])

p("C25","Unusable schema definitions are refused with an error",
  "Parsing a schema built from types the library cannot serve (maps, channels, functions in wrong places, unsupported kinds, bad tags or names, several results, variadic or non-struct arguments, equal names for different types, interfaces without implementations) returns an error instead of panicking or exposing a partial schema. Every accepted schema can be introspected and queried in all its fields without panicking.",
  ["programs"],"all Go type trees up to a size, valid or not",
  "Tests try about twenty invalid declarations, one fault each, at the top level.",
  [PA,EN,D,IF],[("type checks","parse.go check/checkFunction/checkFunctionInput"),("enum checks","enums.go registerEnumCheck"),("directive checks","directives.go checkDirective")],
  observe=["Schema.Parse result, recovered panics, later requests"])

p("C26","Resolvers see their own request's context, values and path",
  "Every resolver given the request context sees the Go context, the values and the position (path of response keys and list indices) of its own request and field, including what earlier resolvers of that request set. After the Go context has ended, the result of every resolver that returns from then on is null with the context's error, and values set in one request are not visible in another unless the caller shares the map.",
  ["inputs","histories","fault_sequences"],"all requests, points of cancellation, and sequences of set/get in resolvers",
  "Tests read one preset value and one cancelled context.",
  [R],[("Ctx accessors","resolver.go GetValue/SetValue/GetContext/SetContext/GetPath"),("cancellation check","resolver.go resolveFieldDataValue")],
  observe=["what resolvers read from Ctx"])

p("C27","Enums map both ways exactly as registered",
  "A Go value of a registered enum type is output as the key registered for it, and null when no key is registered; the key given as a literal, variable or default arrives as the registered Go value. This holds for every integer and string enum type, is limited to exactly the registered type, and any other key is rejected.",
  ["programs","inputs"],"all enum registrations over all underlying kinds x all values and keys",
  "Tests register two enums with three keys.",
  [EN,R,PA],[("registration","enums.go registerEnumCheck/getEnum"),("mapping","resolver.go resolveFieldDataValue, bindInputToGoValue, bindJSONToValue")])

p("C28","Interface values resolve as their concrete registered type",
  "A field of interface type resolves each value as its own concrete type: selected fields and __typename come from the implementation registered for that interface, also in lists and nested interfaces, and nil or unregistered values give null. Fragments on other implementations contribute nothing.",
  ["inputs","programs"],"all mixtures of implementations, nils and unregistered types in all positions",
  "Tests resolve two implementations in fixed order.",
  [R,IF,PA],[("dispatch on concrete type","resolver.go resolveFieldDataValue"),("registration","interfaces.go Implements, parse.go check")])

p("C29","File arguments receive exactly the uploaded file they name",
  "A file argument, given inline or through a variable, arrives as the file the request's form lookup returns for exactly that key, with one lookup per argument, in any order; null or omitted arguments arrive as nil without a lookup. A failing lookup, a missing lookup function or a value that is not a string yields an error and the resolver is not called.",
  ["inputs","fault_sequences"],"all keys, placements (argument, list, input object, variable, default) and lookup outcomes",
  "One test uploads one file inline.",
  [R,IH],[("file binding","resolver.go assignStringToValue/bindJSONToValue")],
  observe=["lookup log and file pointers seen by resolvers"])

p("C30","The tester helpers agree with the schema",
  "For every schema, the helper functions for testing report a type as present, its kind, and its fields exactly when introspection and execution do: HasType, TypeKind, GetTypeByName, HasFields and OnlyHasFields succeed for the true facts and fail for every false one. The schema's depth limit has to allow the introspection they use.",
  ["programs","inputs"],"all schemas x all type names and field sets (subsets, supersets, permutations)",
  "Tests ask about two types with one field each.",
  ["tester/tester.go"],[("helpers","tester.go")],
  observe=["tester package functions"])

p("C31","The assertion helpers never pass a false claim or fail a true one",
  "Each function of the assert package reports failure to the test exactly when the stated relation between its arguments does not hold, and returns that verdict, for all values of all types including nils, NaN, byte slices, errors and numbers of mixed kinds (for the tolerance checks: numbers a float64 holds exactly); only relations that are not defined for the arguments' types fail in both directions.",
  ["inputs"],"all pairs of values over all comparable and non-comparable Go types",
  "The package has no tests of its own; it decides the outcome of all others.",
  ["assert/assert.go","assert/assertion_compare.go"],[("equality","assert.go ObjectsAreEqual"),("ordering","assertion_compare.go")],
  observe=["calls on the testing interface and returned booleans"])

p("C32","A schema without the introspection types serves requests as one with them does",
  "Parse accepts a schema with SkipGraphqlTypesInjection exactly as without, and every request that does not ask for __schema or __type gets the same response, errors and resolver calls from it and from its copies. A request that reaches __schema or __type gets an error and nothing about the types. Empty options behave like none.",
  ["inputs","programs","histories"],"all schemas x all requests x both settings x copies",
  "No test parses with this option set and then resolves anything.",
  [PA,IN,CS],[("injection of __schema and __type","inject_schema.go injectQLTypes"),("introspection values of copies","inject_schema.go bindQLSchema")])

p("C33","The name given to a type is its name everywhere",
  "TypeRename returns the trimmed name and panics, without effect, on names and values it cannot use; the name last given to a struct before Parse is the one under which it is known in that schema and its copies, for good: in __typename, introspection, __type, type conditions of fragments, possible types, declared variable types and inputs, while the former name is unknown there. Parse refuses a schema exactly when two of its types end up with one name.",
  ["histories","programs"],"all sequences of TypeRename, Parse, Copy and requests",
  "The only test renames one type and looks at one __typename.",
  ["type_rename.go",PA],[("name table","type_rename.go TypeRename"),("lookup","parse.go check, checkFunctionInput"),("collisions","parse.go claimTypeName")],
  [{"name":"renamedTypes","meaning":"process-wide table of given names","where":"type_rename.go"}],
  observe=["TypeRename","Parse","Schema.Resolve / Schema.Result (public API)"])

p("C34","Failure reports show the two values, a true difference, and the caller's message",
  "The report of a failing assertion contains, whole and unchanged, both values, a diff that turns the printed expected value into the printed actual one, the caller's message formatted once and only if arguments were given, and the name of the test; this message and name are in the report of every assertion, whatever it asserts, after the place of its call. A unified diff of two lists of lines is empty exactly when they are equal, and its hunks have the stated positions and lengths, so that applying it to the first list gives the second; a diff that cannot be written whole is reported as an error.",
  ["inputs"],"all pairs of line lists and of values, all messages with and without arguments",
  "The packages have no tests; a wrong report misleads whoever debugs a failing test.",
  ["assert/assert.go","assert/difflib/difflib.go"],[("matching blocks and hunks","difflib.go GetGroupedOpCodes/WriteUnifiedDiff/formatRangeUnified"),("report","assert.go Fail, labeledOutput, messageFromMsgAndArgs")],
  observe=["difflib functions","text given to Errorf of the testing interface"])

p("C35","Serving requests does not accumulate memory or goroutines",
  "However many different requests a schema, a pool of its copies, or copies and schemas made and dropped serve, valid ones, failing ones, unknown names, panics, files, HTTP and batches, the memory that stays reachable and the number of goroutines do not grow with the number of requests served.",
  ["histories"],"all unbounded sequences of requests, copies and schemas",
  "Tests resolve a handful of requests per schema and never look at memory.",
  [R,PA,CS,"implement_helpers.go","bytecode/bytecode.go","bytecode/cache/bytecode_cache.go"],[("reset of per-request state","resolver.go Resolve"),("buffers and cache","bytecode.go, cache.go"),("type names","parse.go getTypeByName")],
  observe=["live heap after collection","number of goroutines"])

p("C36","Responses reflect the data as it is now, and serving them never changes it",
  "What a request returns is what the owner's data, reached through the roots given to Parse, holds at the time of that request, on the schema and on every copy made before or after a change; nothing of an earlier state is remembered. Serving any request, valid or not, leaves all data reachable from the roots, the maps given to RegisterEnum, and the bytes of the request as they were.",
  ["inputs","histories"],"all sequences of changes to the data and requests on schema and copies",
  "Tests give constant data and look only at one response.",
  [R,PA,CS,EN],[("reading of values","resolver.go resolveFieldDataValue"),("root values","parse.go, copy_schema.go"),("registration","enums.go registerEnumCheck")],
  observe=["responses","deep snapshots of all data reachable from the roots"])

p("C37","The encoders append exactly one JSON value that reads back as the value",
  "For every string, float and time and every buffer, StringToJSON, FloatToJSON and TimeToIso8601String leave what the buffer holds unchanged and append exactly one valid JSON text (or ISO 8601 time) that reads back as the same value; ParseIso8601String inverts the last one and refuses other texts with an error and the zero time; the pointer helpers return a new pointer to the given value.",
  ["inputs"],"all strings (any bytes), floats of both sizes, times, and buffers of any content and capacity",
  "Tests encode a dozen strings into empty buffers.",
  ["helpers/encodeString.go","helpers/encodeFloat.go","helpers/time.go","helpers/pointers.go"],[("encoders","helpers/*.go")],
  observe=["bytes of the buffer before and after each call"])

p("C38","The work for a request stays in proportion to its length and its answer",
  "The CPU time for a request grows no faster than its length (document with each spread fragment written out, variables, batch) together with the length of its answer, whatever it consists of: fields, arguments, variables, fragments, operations, directives, nesting, strings, comments, introspection, errors, valid or not. No request of a few hundred kilobytes keeps a server busy for seconds.",
  ["inputs"],"all requests of any length and composition",
  "Tests use short documents; what grows quadratically is invisible at their size.",
  [R,PA,"bytecode/bytecode.go","implement_helpers.go"],[("fragments by name","resolver.go resolveSpread/findFragment"),("variables by name","resolver.go findOperatorArgument/findVariable"),("parser","bytecode/bytecode.go")],
  observe=["CPU time of the process (getrusage) around single requests of four lengths"])

p("C39","A parsed schema is fixed, and schemas do not share definitions",
  "What a schema is, its types, interfaces with their implementations, enums and directives, is what was defined when Parse last succeeded on it: later calls of Implements, RegisterEnum, RegisterDirective, Parse or Copy on it or on other schemas, and changes to the values given to them, alter nothing in it or in its copies. Enums and directives belong to the schema they were registered on, are refused after Parse and when they collide, and are accepted otherwise. A schema whose Parse failed answers with an error and cannot be copied, and can be completed and parsed again.",
  ["histories","programs"],"all sequences of definitions, parses, copies and requests over several schemas",
  "Every test makes one schema, defines everything first, and parses it once.",
  [PA,IF,EN,"directives.go",CS],[("registration","enums.go RegisterEnum, directives.go RegisterDirective, interfaces.go Implements"),("parsing again","parse.go Parse, forgetParsed")],
  [{"name":"implementationMap","meaning":"process-wide table of implementations","where":"interfaces.go"}],
  observe=["NewSchema, RegisterEnum, RegisterDirective, Implements, Parse, Copy, Resolve (public API)"])

p("C40","Requests on different schemas nest without disturbing each other",
  "A resolver may itself serve requests on other schemas and on copies, existing ones or ones parsed or copied at that moment, also copies of the schema that is serving, to any depth and whatever these requests are. The outer request continues as if nothing had happened: its response, errors, calls, path, context and values are those it has when served alone, and so are those of every inner request.",
  ["inputs","histories"],"all nestings of requests of all kinds on schemas that are not in use at that moment",
  "No test serves a request while another one is in progress in the same goroutine.",
  [R,CS,PA,"bytecode/bytecode.go"],[("state of a request","resolver.go Ctx, Resolve"),("what a copy takes over","copy_schema.go Copy")],
  observe=["Resolve, HandleRequest, Copy, Parse and the record of resolver calls"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
