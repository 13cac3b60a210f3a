#!/usr/bin/env python3
"""Writes known_findings.json (run: python3 tools/genfindings.py)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPEN = [
 ("C01-repeated-key", "C01", "a field selected twice under the same response key, as in {a a}, is written twice instead of once (probe: case 0 of the check of C01)"),
 ("C24-unexported-plain", "C24", "an unexported struct field of a plain type (string, number, bool, time) is a field of the schema and readable; the repository's own test TestBytecodeResolveEnum relies on it, so it is not repaired"),
]
FIXED = """
1e9a9ea C03 null was not written when the arguments of a field could not be bound, and __typename with a selection set broke the JSON
0983fdd C09 the cached fragment locations were overwritten by later documents
e318549 C10 hidden fields were visible in copied schemas
c40e224 C10 description and specifiedByURL of enum and scalar types were lost in copied schemas
ff9c863 C11 copies of a schema shared one tracer (data race)
5c9c382 C08 the introspection fields of the mutation root were those of the query root or vice versa, depending on which was asked first
808027a C20 directives were described in __schema without their arguments
aeea9cc C11 __schema of a copied schema was that of the original (data race)
0a078b8 C10 a copied schema lost the cache rules
1928885 C09 SetCacheRules before Parse crashed
dde516d C17 nesting of values beyond the fixed value stack panicked
d1fe46c C17 objects behind interfaces were not counted by the depth limit
272f4b0 C12 a fragment name that is a prefix of another could pick the wrong fragment
bf22338 C12 fragments that spread themselves overflowed the stack and ended the process
74e8081 C13 directives behind field arguments were a syntax error
7d3844d C06 variables out of range of small unsigned integers wrapped around
2b1002e C06 IDs out of range of their Go type were truncated
737c4d9 C29 a file variable without GetFormFile panicked
f6a44d9 C05 null variables for IDs, enums, times and files were an error
77cb90b C07 strings handed to resolvers were changed by the next request
263db7d C07 the returned errors were overwritten by the next request
f33e3be C04 arguments behind a list literal were lost
332de3b C04 arguments behind a null literal for a pointer were lost
5bd7cb8 C04 an input object whose last field is null arrived as nil
2ebd96f C04 values that hold bytes used as markers were cut short
ae31ab2 C05 variables for lists of pointers were refused
a0be00d C05 numbers in variables were bound differently from number literals
313952a C06 float literals beyond 32 bits became infinity
9369630 C06 objects for time arguments and integers for enum arguments were accepted
2fe611b C26 SetContext panicked when the request has no context
b20dbf2 C25 unexported fields of types that cannot be resolved panicked or were refused
77da41d C24 fields were told apart by a 32 bit hash only
f2cd8cf C27 every type of the same kind and bare name was treated as the enum
092b607 C21 the start time of a traced field was that of its last child
790c918 C21 list and non null types were written in the wrong order in traces
161f6a5 C20 enum arguments and the fields of nested inputs were missing in introspection
08c9faf C25 a method named exactly Resolve panicked
faa1c8f C18 times were written in their own zone with a Z
78e856e C28 fragments on interfaces an object implements were dropped
5da07ea C25 registering an enum that is no map or has named string keys panicked
8923a5c C25 a directive of which the method is no function panicked
f53be39 C25 missing roots and names that clash with the introspection types panicked
98daadb C04 characters written as two unicode escapes arrived as replacement characters
db01a84 C25 two different types of the same name were silently merged
c4e247d C25 two enums of the same name were silently merged
4c44f25 C31 InDeltaSlice and InEpsilonSlice passed or panicked on slices of different length
1c858eb C31 InDelta and InEpsilon were wrong on infinities
4fd1719 C31 Positive and Negative panicked on nil
749808a C16 a selection set on an enum or time field was accepted silently
5c87481 C20 arguments of interface methods were missing in introspection
33fc6bd C20 the root types were described without their interfaces
4b07e95 C20 names of anonymous directive inputs and the order of directives were random
868d45c C02 matching keywords took time quadratic in the query length
5910fd3 C23 parsing went on after a syntax error within an inline fragment
52d1fc9 C25 a schema refused by Parse was accepted when Parse was called again
5a63e93 C27 enum keys true, false and null were accepted but could not be used in a query
fe0a478 C25 a directive refused for one location stayed registered for others
168b50a C28 a value of another type with the same name was resolved as the registered implementation
3139f22 C28 two types or interfaces with the same bare name shared their implementations
d1c0904 C28 renaming one type renamed every type with the same bare name
232d36a C31 InEpsilonSlice divided by the actual value instead of the expected one
c50ccf8 C25 a schema with an unexported field of an unsupported kind was refused
30e9805 C26 SetValue panicked when the caller's values are a nil map
5fb06e6 C38 documents with many fragments, or fragments that spread the next one, took time that grows with the square of their number
dcce603 C38 operations with many variables took time that grows with the square of their number
090567a C38 requests with many variable values took time that grows with the square of their number
3149884 C39 changing the slice of locations after a directive was registered changed the directive
a7d86f4 C34 Greater, Less, Positive, Negative and their like reported the caller's message unformatted and in brackets
317b153 C34 InEpsilon of NaN and InEpsilonSlice lost the caller's message
22f8993 C34 a diff whose end could not be written was no error
d942104 C31 Panics did not see a panic with nil
"""
f = [{"id": i, "property": p, "status": "open", "what": w} for i, p, w in OPEN]
for l in FIXED.strip().split("\n"):
    h, p, w = l.split(" ", 2)
    f.append({"id": h, "property": p, "status": "fixed", "what": f"fixed: property={p} {h} {w}"})
json.dump({"findings": f}, open(root + "/known_findings.json", "w"), indent=1)
open(root + "/known_findings.json", "a").write("\n")
