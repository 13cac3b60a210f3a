From 1e9a9eadffb445e34e10a970be7c6964d7a79f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 01/71] fix: write null when a field fails before its value is
 written

A failing argument or a selection on __typename left the key without a
value, making the response invalid JSON.
---
 resolver.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resolver.go b/resolver.go
index 00e1747..16ca382 100644
--- a/resolver.go
+++ b/resolver.go
@@ -572,6 +572,7 @@ func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (ski
 		name := b2s(ctx.query.Res[startOfName:endOfName])
 		if name == "__typename" {
 			if fieldHasSelection {
+				ctx.writeNull()
 				criticalErr = ctx.err("cannot have a selection set on this field")
 			} else {
 				ctx.writeQuoted(typeObj.typeNameBytes)
@@ -801,6 +802,7 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 
 		outs, criticalErr := ctx.callQlMethod(method, &goValue, ctx.seekInst() == 'v')
 		if criticalErr {
+			ctx.writeNull()
 			return criticalErr
 		}
 
-- 
2.43.0


From 0983fdd87ffbf2b6cb2cee83d500f4d767448880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 02/71] fix: copy fragment locations into the query cache

The cached slice shared its memory with the parser, which overwrites it
while parsing the next document.
---
 bytecode/cache/bytecode_cache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bytecode/cache/bytecode_cache.go b/bytecode/cache/bytecode_cache.go
index e8520f5..b1169d5 100644
--- a/bytecode/cache/bytecode_cache.go
+++ b/bytecode/cache/bytecode_cache.go
@@ -70,10 +70,11 @@ func (c BytecodeCache) SetEntry(query, bytecode []byte, target *string, targetId
 		bytecode:         make([]byte, len(bytecode)),
 		target:           targetCopy,
 		targetIdx:        targetIdx,
-		fragmentLocation: fragmentLocation,
+		fragmentLocation: make([]int, len(fragmentLocation)),
 	}
 	copy(newCacheEntry.query, query)
 	copy(newCacheEntry.bytecode, bytecode)
+	copy(newCacheEntry.fragmentLocation, fragmentLocation)
 
 	c[queryLen] = append([]cacheEntry{newCacheEntry}, entries...)
 }
-- 
2.43.0


From e31854979380278d47f71da27de68e6b10545dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 03/71] fix: keep hidden fields hidden in copied schemas

A copy listed __schema and __type as fields of the query root.
---
 copy_schema.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copy_schema.go b/copy_schema.go
index 680d957..290721b 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -178,6 +178,7 @@ func (o *obj) copy() *obj {
 		structFieldIdx: o.structFieldIdx,
 		dataValueType:  o.dataValueType,
 		isID:           o.isID,
+		hidden:         o.hidden,
 		enumTypeIndex:  o.enumTypeIndex,
 	}
 
-- 
2.43.0


From c40e22449152ef854b4ac2e16db986a711ec2b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 04/71] fix: copy the description and specification url of enum
 types

---
 copy_schema.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index 290721b..99a59e4 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -133,8 +133,10 @@ func (m *qlType) copy() *qlType {
 		*res.Name = *m.Name
 	}
 	if m.Description != nil {
-		res.Name = helpers.StrPtr("")
-		*res.Name = *m.Name
+		res.Description = helpers.StrPtr(*m.Description)
+	}
+	if m.SpecifiedByURL != nil {
+		res.SpecifiedByURL = helpers.StrPtr(*m.SpecifiedByURL)
 	}
 	if m.Interfaces != nil {
 		res.Interfaces = make([]qlType, len(m.Interfaces))
-- 
2.43.0


From ff9c8634308c456843781b30388a5705ad6df28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 05/71] fix: give every copied schema its own tracer

Copies shared the tracer, so parallel traced requests mixed their records
and raced.
---
 copy_schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copy_schema.go b/copy_schema.go
index 99a59e4..c10197c 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -69,7 +69,7 @@ func (ctx *Ctx) copy(schema *Schema) *Ctx {
 		operatorHasArguments:     ctx.operatorHasArguments,
 		operatorArgumentsStartAt: ctx.operatorArgumentsStartAt,
 		tracingEnabled:           ctx.tracingEnabled,
-		tracing:                  ctx.tracing,
+		tracing:                  newTracer(),
 		prefRecordingStartTime:   ctx.prefRecordingStartTime,
 		rawVariables:             ctx.rawVariables,
 		variablesParsed:          false,
-- 
2.43.0


From 5c9c382b5dba927476f6baea25aa6ff9f21b4753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 06/71] fix: cache the mutation fields under the mutation type

They were stored under the query type, which then listed the mutations.
---
 inject_schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inject_schema.go b/inject_schema.go
index 56ee03e..55230c9 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -93,7 +93,7 @@ func (s *Schema) getQLSchema() qlSchema {
 				}
 				sort.Slice(res, func(a int, b int) bool { return res[a].Name < res[b].Name })
 
-				s.graphqlObjFields[s.rootQuery.typeName] = res
+				s.graphqlObjFields[s.rootMethod.typeName] = res
 				return res
 			},
 			Interfaces: []qlType{},
-- 
2.43.0


From 808027a2eff4c1f8897cfcfedace27daa253ab02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 07/71] fix: describe directives in __schema after their
 arguments are known

The description was made before the directive methods were checked, so
every directive was listed without arguments.
---
 inject_schema.go | 13 +++++++++++--
 parse.go         |  3 +++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/inject_schema.go b/inject_schema.go
index 55230c9..09f4d3a 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -15,8 +15,6 @@ func (s *Schema) injectQLTypes(ctx *parseCtx) {
 		log.Fatal(err)
 	}
 
-	contents := reflect.ValueOf(s.getQLSchema())
-	ref.customObjValue = &contents
 	ref.qlFieldName = []byte("__schema")
 	ref.hidden = true
 
@@ -38,6 +36,17 @@ func (s *Schema) injectQLTypes(ctx *parseCtx) {
 	s.rootQuery.objContents[getObjKey(functionObj.qlFieldName)] = functionObj
 }
 
+// bindQLSchema sets the value of the __schema field to a description of s
+func (s *Schema) bindQLSchema() {
+	field, ok := s.rootQuery.objContents[getObjKey([]byte("__schema"))]
+	if !ok {
+		return
+	}
+
+	contents := reflect.ValueOf(s.getQLSchema())
+	field.customObjValue = &contents
+}
+
 func (s *Schema) getQLSchema() qlSchema {
 	res := qlSchema{
 		Types:      s.getAllQLTypes,
diff --git a/parse.go b/parse.go
index da6d644..73f436c 100644
--- a/parse.go
+++ b/parse.go
@@ -350,6 +350,9 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 		}
 	}
 
+	// The description of the schema can only be made after all inputs are known
+	s.bindQLSchema()
+
 	s.ctx = newCtx(s)
 	s.parsed = true
 
-- 
2.43.0


From aeea9ccfa4810624037c9a0ae4ed9c944cf99030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 08/71] fix: bind __schema of a copied schema to the copy

The field kept the closures of the original schema, so introspecting
copies in parallel raced on the lazily built type lists of the original.
---
 copy_schema.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index c10197c..4afd354 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -39,9 +39,9 @@ func (s *Schema) Copy() *Schema {
 		inTypes:    *s.inTypes.copy(),
 		interfaces: *interfaces,
 
-		rootQuery:         s.rootQuery.copy(),
+		rootQuery:         (*types)[s.rootQuery.typeName],
 		rootQueryValue:    s.rootQueryValue,
-		rootMethod:        s.rootMethod.copy(),
+		rootMethod:        (*types)[s.rootMethod.typeName],
 		rootMethodValue:   s.rootMethodValue,
 		MaxDepth:          s.MaxDepth,
 		definedEnums:      enums,
@@ -53,6 +53,9 @@ func (s *Schema) Copy() *Schema {
 		graphqlObjFields: map[string][]qlField{},
 	}
 
+	// __schema describes the schema it is part of, also in a copy
+	res.bindQLSchema()
+
 	res.ctx = s.ctx.copy(res)
 
 	return res
-- 
2.43.0


From 0a078b83cd7bdd6f3d1cfa1c6bf5f0cd1f4ca597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 09/71] fix: keep the cache rules in copied schemas

---
 copy_schema.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copy_schema.go b/copy_schema.go
index 4afd354..3116e3b 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -83,6 +83,7 @@ func (ctx *Ctx) copy(schema *Schema) *Ctx {
 		funcInputs:               []reflect.Value{},
 		values:                   nil,
 	}
+	res.query.CacheableQueryMinLen = ctx.query.CacheableQueryMinLen
 	res.ctxReflection = reflect.ValueOf(res)
 	return res
 }
-- 
2.43.0


From 1928885420c4e5c784681872e93eeeb42ebdb582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:15 +0000
Subject: [PATCH 10/71] fix: allow SetCacheRules before Parse

It dereferenced the request context, which only exists after Parse.
---
 parse.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 73f436c..5957016 100644
--- a/parse.go
+++ b/parse.go
@@ -56,6 +56,7 @@ type Schema struct {
 	definedEnums      []enum
 	definedDirectives map[DirectiveLocation][]*Directive
 	ctx               *Ctx
+	cacheQueryFromLen *int // Set when the cache rules are set before Parse
 
 	// Zero alloc variables
 	Result           []byte
@@ -285,9 +286,17 @@ func NewSchema() *Schema {
 func (s *Schema) SetCacheRules(
 	cacheQueryFromLen *int, // default = 300
 ) {
-	if cacheQueryFromLen != nil {
-		s.ctx.query.CacheableQueryMinLen = *cacheQueryFromLen
+	if cacheQueryFromLen == nil {
+		return
 	}
+
+	if s.ctx == nil {
+		// Not parsed yet, Parse applies this
+		minLen := *cacheQueryFromLen
+		s.cacheQueryFromLen = &minLen
+		return
+	}
+	s.ctx.query.CacheableQueryMinLen = *cacheQueryFromLen
 }
 
 // Parse parses your queries and methods
@@ -354,6 +363,9 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 	s.bindQLSchema()
 
 	s.ctx = newCtx(s)
+	if s.cacheQueryFromLen != nil {
+		s.ctx.query.CacheableQueryMinLen = *s.cacheQueryFromLen
+	}
 	s.parsed = true
 
 	return nil
-- 
2.43.0


From dde516d8640bf370839d372d5e0a9d3a41afdd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:30 +0000
Subject: [PATCH 11/71] fix: grow the value stack instead of overflowing it

Lists of lists and interfaces use more entries than the depth limit
counts, which overflowed the index and resolved the wrong values or
panicked.
---
 copy_schema.go | 2 +-
 resolver.go    | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index 3116e3b..68a4f1f 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -78,7 +78,7 @@ func (ctx *Ctx) copy(schema *Schema) *Ctx {
 		variablesParsed:          false,
 		variablesJSONParser:      &fastjson.Parser{},
 		variables:                nil,
-		reflectValues:            [256]reflect.Value{},
+		reflectValues:            make([]reflect.Value, 256),
 		currentReflectValueIdx:   0,
 		funcInputs:               []reflect.Value{},
 		values:                   nil,
diff --git a/resolver.go b/resolver.go
index 16ca382..8cc0d21 100644
--- a/resolver.go
+++ b/resolver.go
@@ -38,8 +38,8 @@ type Ctx struct {
 	variables           *fastjson.Value  // Parsed variables, only use this if variablesParsed == true
 
 	// Zero alloc values
-	reflectValues          [256]reflect.Value
-	currentReflectValueIdx uint8
+	reflectValues          []reflect.Value // Grows when needed, see setGoValue
+	currentReflectValueIdx int
 	funcInputs             []reflect.Value
 	ctxReflection          reflect.Value // ptr to the value
 
@@ -52,7 +52,7 @@ func newCtx(s *Schema) *Ctx {
 		schema:                 s,
 		query:                  *bytecode.NewParserCtx(),
 		charNr:                 0,
-		reflectValues:          [256]reflect.Value{},
+		reflectValues:          make([]reflect.Value, 256),
 		currentReflectValueIdx: 0,
 		variablesJSONParser:    &fastjson.Parser{},
 		tracing:                newTracer(),
@@ -71,6 +71,9 @@ func (ctx *Ctx) setNextGoValue(value reflect.Value) {
 }
 
 func (ctx *Ctx) setGoValue(value reflect.Value) {
+	for ctx.currentReflectValueIdx >= len(ctx.reflectValues) {
+		ctx.reflectValues = append(ctx.reflectValues, reflect.Value{})
+	}
 	ctx.reflectValues[ctx.currentReflectValueIdx] = value
 }
 
-- 
2.43.0


From d1fe46c80835ee2f006e239acfb84b7a49f1f176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 12/71] fix: enforce the depth limit on objects behind
 interfaces

An interface counted twice, so the depth could step over the limit and
was never checked again.
---
 resolver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resolver.go b/resolver.go
index 8cc0d21..4c39126 100644
--- a/resolver.go
+++ b/resolver.go
@@ -764,7 +764,7 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 		}
 
 		dept++
-		if dept == ctx.schema.MaxDepth {
+		if dept >= ctx.schema.MaxDepth {
 			ctx.writeNull()
 			return ctx.err("reached max dept")
 		}
@@ -906,7 +906,7 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 		// TODO improve performance of the below
 		for _, implementation := range typeObj.implementations {
 			if implementation.goTypeName == goValueName && implementation.goPkgPath == goValuePkgPath {
-				criticalErr := ctx.resolveFieldDataValue(implementation, dept+1, hasSubSelection)
+				criticalErr := ctx.resolveFieldDataValue(implementation, dept, hasSubSelection)
 				ctx.currentReflectValueIdx--
 				return criticalErr
 			}
-- 
2.43.0


From 272f4b029e3038353a2e4e579fd69fb7ac760ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:33 +0000
Subject: [PATCH 13/71] fix: match fragment names in full

A spread used the first fragment whose name started with its name.
---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 4c39126..85d50b3 100644
--- a/resolver.go
+++ b/resolver.go
@@ -478,7 +478,7 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 		if fragmentNameEnd >= ctxQueryResLen {
 			continue
 		}
-		if bytes.Equal(ctx.query.Res[fragmentNameStart:fragmentNameEnd], name) {
+		if ctx.query.Res[fragmentNameEnd] == 0 && bytes.Equal(ctx.query.Res[fragmentNameStart:fragmentNameEnd], name) {
 			originalCharNr := ctx.charNr
 			ctx.charNr = fragmentNameEnd + 1
 
-- 
2.43.0


From bf223383886128a380b24ca5e37dba18b0ec4dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 14/71] fix: report fragments that spread themselves

They were resolved until the stack overflowed, which ends the process.
---
 resolver.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/resolver.go b/resolver.go
index 85d50b3..86df10a 100644
--- a/resolver.go
+++ b/resolver.go
@@ -41,6 +41,7 @@ type Ctx struct {
 	reflectValues          []reflect.Value // Grows when needed, see setGoValue
 	currentReflectValueIdx int
 	funcInputs             []reflect.Value
+	activeFragments        []int         // Locations of the fragments currently being resolved
 	ctxReflection          reflect.Value // ptr to the value
 
 	// public / kinda public fields
@@ -193,6 +194,7 @@ func (s *Schema) Resolve(query []byte, opts ResolveOptions) []error {
 		reflectValues:          ctx.reflectValues,
 		currentReflectValueIdx: 0,
 		funcInputs:             ctx.funcInputs,
+		activeFragments:        ctx.activeFragments[:0],
 
 		values: opts.Values,
 	}
@@ -479,6 +481,12 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 			continue
 		}
 		if ctx.query.Res[fragmentNameEnd] == 0 && bytes.Equal(ctx.query.Res[fragmentNameStart:fragmentNameEnd], name) {
+			for _, activeFragment := range ctx.activeFragments {
+				if activeFragment == location {
+					return ctx.err("fragment " + b2s(name) + " cannot spread itself")
+				}
+			}
+
 			originalCharNr := ctx.charNr
 			ctx.charNr = fragmentNameEnd + 1
 
@@ -497,7 +505,9 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 				return false
 			}
 
+			ctx.activeFragments = append(ctx.activeFragments, location)
 			criticalErr := ctx.resolveSelectionSet(typeObj, dept, firstField)
+			ctx.activeFragments = ctx.activeFragments[:len(ctx.activeFragments)-1]
 			ctx.charNr = originalCharNr
 			return criticalErr
 		}
-- 
2.43.0


From 74e8081aae4f72d6bd43e9146cdeb12046b21e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 15/71] fix: accept directives after field arguments

Only directives before the arguments were parsed, while GraphQL puts them
after the arguments. The bytecode keeps the directives first.
---
 bytecode/bytecode.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 844a1c2..adb387c 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -596,6 +596,7 @@ func (ctx *ParserCtx) parseSelectionSet() bool {
 				return ctx.unexpectedEOF()
 			}
 
+			startArguments := len(ctx.Res)
 			criticalErr := ctx.parseAssignmentSet(')')
 			if criticalErr {
 				return criticalErr
@@ -605,6 +606,21 @@ func (ctx *ParserCtx) parseSelectionSet() bool {
 			if eof {
 				return ctx.unexpectedEOF()
 			}
+
+			if c == '@' && ctx.Res[directivesCountLocation] == 0 {
+				endArguments := len(ctx.Res)
+				amount, criticalErr := ctx.parseDirectives()
+				ctx.Res[directivesCountLocation] = amount
+				if criticalErr {
+					return criticalErr
+				}
+				c = ctx.currentC()
+
+				// The directives are always placed before the arguments
+				arguments := append([]byte{}, ctx.Res[startArguments:endArguments]...)
+				argumentsStartAt := startArguments + copy(ctx.Res[startArguments:], ctx.Res[endArguments:])
+				copy(ctx.Res[argumentsStartAt:], arguments)
+			}
 		}
 
 		if c == '{' {
-- 
2.43.0


From 7d3844dcf1b40c9ee6825311d2ca874186ee3c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 16/71] fix: check the range of small unsigned integers in
 variables

The check looked for the signed kinds, so values were truncated.
---
 resolver.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resolver.go b/resolver.go
index 86df10a..d1210bd 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1283,15 +1283,15 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				uintVal := uint64(intVal)
 
 				switch goValue.Kind() {
-				case reflect.Int8:
+				case reflect.Uint8:
 					if uint64(uint8(uintVal)) != uintVal {
 						return false, ctx.errf("cannot assign %d to a 8bit unsigned integer", uintVal)
 					}
-				case reflect.Int16:
+				case reflect.Uint16:
 					if uint64(uint16(uintVal)) != uintVal {
 						return false, ctx.errf("cannot assign %d to a 16bit unsigned integer", uintVal)
 					}
-				case reflect.Int32:
+				case reflect.Uint32:
 					if uint64(uint32(uintVal)) != uintVal {
 						return false, ctx.errf("cannot assign %d to a 32bit unsigned integer", uintVal)
 					}
-- 
2.43.0


From 2b1002e236372e28073d6535b7bebedf29556f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 17/71] fix: reject IDs that do not fit the field instead of
 truncating them

Unsigned 64 bit IDs above the signed range are now accepted.
---
 resolver.go | 80 +++++++++++++++++++++--------------------------------
 1 file changed, 32 insertions(+), 48 deletions(-)

diff --git a/resolver.go b/resolver.go
index d1210bd..0dc167e 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1138,32 +1138,10 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				return false, ctx.err("cannot assign " + jsonDataType.String() + " to ID value")
 			}
 
-			switch goValue.Kind() {
-			case reflect.String:
-				valueSet = true
-				goValue.SetString(stringValue)
-			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-				intValue, err := strconv.Atoi(stringValue)
-				if err != nil {
-					return false, ctx.err("id argument must match a number type")
-				}
-				// TODO check if the int value can be assigned to int8 - int32
-				goValue.SetInt(int64(intValue))
-				valueSet = true
-			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-				intValue, err := strconv.Atoi(stringValue)
-				if err != nil {
-					return false, ctx.err("id argument must match a number type")
-				}
-				if intValue < 0 {
-					return false, ctx.err("id argument must match a number above 0")
-				}
-				// TODO check if the int value can be assigned to uint8 - uint32
-				goValue.SetUint(uint64(intValue))
-				valueSet = true
-			default:
-				return false, ctx.err("internal error: cannot assign to this ID field")
+			if ctx.assignIDToValue(goValue, stringValue) {
+				return false, true
 			}
+			valueSet = true
 		} else if valueStructure.isFile {
 			if jsonDataType != fastjson.TypeString {
 				return false, ctx.err("cannot assign " + jsonDataType.String() + " to Time value")
@@ -1347,29 +1325,7 @@ func (ctx *Ctx) assignStringToValue(goValue *reflect.Value, valueStructure *inpu
 
 		return ctx.errf("unknown enum value %s for enum %s", stringValue, enum.typeName)
 	} else if valueStructure.isID {
-		switch goValue.Kind() {
-		case reflect.String:
-			goValue.SetString(stringValue)
-		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-			intValue, err := strconv.Atoi(stringValue)
-			if err != nil {
-				return ctx.err("id argument must match a number type")
-			}
-			// TODO check if the int value can be assigned to int8 - int32
-			goValue.SetInt(int64(intValue))
-		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-			intValue, err := strconv.Atoi(stringValue)
-			if err != nil {
-				return ctx.err("id argument must match a number type")
-			}
-			if intValue < 0 {
-				return ctx.err("id argument must match a number above 0")
-			}
-			// TODO check if the int value can be assigned to uint8 - uint32
-			goValue.SetUint(uint64(intValue))
-		default:
-			return ctx.err("internal error: cannot assign to this ID field")
-		}
+		return ctx.assignIDToValue(goValue, stringValue)
 	} else if valueStructure.isFile {
 		if ctx.getFormFile == nil {
 			return ctx.err("form files are not supported")
@@ -1393,6 +1349,34 @@ func (ctx *Ctx) assignStringToValue(goValue *reflect.Value, valueStructure *inpu
 	return false
 }
 
+func (ctx *Ctx) assignIDToValue(goValue *reflect.Value, id string) bool {
+	switch goValue.Kind() {
+	case reflect.String:
+		goValue.SetString(id)
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		intValue, err := strconv.ParseInt(id, 10, 64)
+		if err != nil {
+			return ctx.err("id argument must match a number type")
+		}
+		if goValue.OverflowInt(intValue) {
+			return ctx.errf("id argument %d does not fit in a %dbit integer", intValue, goValue.Type().Bits())
+		}
+		goValue.SetInt(intValue)
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		uintValue, err := strconv.ParseUint(id, 10, 64)
+		if err != nil {
+			return ctx.err("id argument must match a number above 0")
+		}
+		if goValue.OverflowUint(uintValue) {
+			return ctx.errf("id argument %d does not fit in a %dbit unsigned integer", uintValue, goValue.Type().Bits())
+		}
+		goValue.SetUint(uintValue)
+	default:
+		return ctx.err("internal error: cannot assign to this ID field")
+	}
+	return false
+}
+
 func (ctx *Ctx) checkInputIsPtr(goValue *reflect.Value, input *input, whenPtr func(goValue *reflect.Value, input *input) (valueSet bool, criticalErr bool)) (isPtr bool, valueSet bool, criticalErr bool) {
 	if input.kind != reflect.Ptr || input.isFile {
 		return false, false, false
-- 
2.43.0


From 737c4d99bd118cc50fc58dd1cb76a18daf3e0347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 18/71] fix: report a missing form file lookup for files in
 variables

It called a nil function.
---
 resolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resolver.go b/resolver.go
index 0dc167e..a890178 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1147,6 +1147,9 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				return false, ctx.err("cannot assign " + jsonDataType.String() + " to Time value")
 			}
 
+			if ctx.getFormFile == nil {
+				return false, ctx.err("form files are not supported")
+			}
 			file, err := ctx.getFormFile(stringValue)
 			if err != nil {
 				return false, ctx.err(err.Error())
-- 
2.43.0


From f6a44d93302352470ccdb9db217810f93eab0c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:27 +0000
Subject: [PATCH 19/71] fix: accept null variables for IDs, enums, times and
 files

---
 resolver.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resolver.go b/resolver.go
index a890178..6a515ec 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1094,6 +1094,11 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 	}
 
 	jsonDataType := jsonData.Type()
+	if jsonDataType == fastjson.TypeNull {
+		// keep goValue at it's default
+		return false, false
+	}
+
 	if valueStructure.isEnum || valueStructure.isID || valueStructure.isFile || valueStructure.isTime {
 		if jsonDataType != fastjson.TypeString {
 			if valueStructure.isEnum {
@@ -1172,8 +1177,6 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 	}
 
 	switch jsonDataType {
-	case fastjson.TypeNull:
-		// keep goValue at it's default
 	case fastjson.TypeObject:
 		if goValue.Kind() != reflect.Struct {
 			return false, ctx.err("cannot assign object to non object value")
-- 
2.43.0


From 77cb90bbdac4067c5505e7b8f50d9ce2aae9dcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 20/71] fix: copy strings handed to resolvers

String arguments, IDs and form file keys shared memory with buffers that
are reused for the next request, which changed them afterwards.
---
 resolver.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resolver.go b/resolver.go
index 6a515ec..29bf518 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1113,7 +1113,7 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 				return false, ctx.err("cannot assign " + jsonDataType.String() + " to this field's value")
 			}
 		}
-		stringValue := b2s(jsonData.GetStringBytes())
+		stringValue := string(jsonData.GetStringBytes())
 
 		if valueStructure.isEnum {
 			if jsonDataType != fastjson.TypeString {
@@ -1227,7 +1227,7 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 		valueSet = true
 	case fastjson.TypeString:
 		valueSet = true
-		criticalErr := ctx.assignStringToValue(goValue, valueStructure, b2s(jsonData.GetStringBytes()))
+		criticalErr := ctx.assignStringToValue(goValue, valueStructure, string(jsonData.GetStringBytes()))
 		if criticalErr {
 			return valueSet, criticalErr
 		}
@@ -1535,7 +1535,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 		}
 	case bytecode.ValueString:
 		startString, endString := getValue()
-		stringValue := b2s(ctx.query.Res[startString:endString])
+		stringValue := string(ctx.query.Res[startString:endString]) // Copied as the resolver might keep the string
 		criticalErr := ctx.assignStringToValue(goValue, valueStructure, stringValue)
 		if criticalErr {
 			return false, criticalErr
-- 
2.43.0


From 263db7dc642d53fce157b36b32b822c4714d3e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 21/71] fix: do not reuse the returned errors for the next
 request

The errors returned by a request were overwritten by the next one.
---
 bytecode/bytecode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index adb387c..5840b09 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -47,7 +47,7 @@ func (ctx *ParserCtx) ParseQueryToBytecode(target *string) {
 		Res:                  ctx.Res[:0],
 		FragmentLocations:    ctx.FragmentLocations[:0],
 		Query:                ctx.Query,
-		Errors:               ctx.Errors[:0],
+		Errors:               []error{}, // The previous errors are owned by the caller
 		target:               target,
 		hasTarget:            target != nil && len(*target) > 0,
 		TargetIdx:            -1,
-- 
2.43.0


From f33e3be6c1ddcd97203a5765d4f324fb66039da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 22/71] fix: read past the end of list literals

The end of a list was taken for the end of the surrounding arguments,
object or list, dropping everything after it.
---
 resolver.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resolver.go b/resolver.go
index 29bf518..23c7e1a 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1598,6 +1598,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 			}
 			arr = reflect.Append(arr, arrayEntry)
 		}
+		ctx.skipInst(2) // read ActionEnd and next NULL
 
 		goValue.Set(arr)
 	case bytecode.ValueObject:
-- 
2.43.0


From 332de3b1e2a639b022e824e608bcb8e4d52ec022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 23/71] fix: read past the end of null literals for pointers

A null inside a list of pointers made the rest of the list unreadable.
---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 23c7e1a..aa00c4d 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1408,7 +1408,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 	isPtr, valueSet, criticalErr = ctx.checkInputIsPtr(goValue, valueStructure, func(goValue *reflect.Value, input *input) (valueSet bool, criticalErr bool) {
 		if ctx.query.Res[ctx.charNr+1] == bytecode.ValueNull {
 			// keep goValue at it's default
-			ctx.skipInst(6)
+			ctx.skipInst(7) // read the value instruction and next NULL
 			return false, false
 		}
 		return ctx.bindInputToGoValue(goValue, input, variablesAllowed)
-- 
2.43.0


From 5bd7cb8af4bc374db2615a72d54f80c64e1d28a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:30 +0000
Subject: [PATCH 24/71] fix: keep input objects of which the last field is null

The null of the field was taken for the whole object.
---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index aa00c4d..ee50f84 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1620,7 +1620,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 			}
 
 			field := goValue.Field(structFieldValueStructure.goFieldIdx)
-			valueSet, criticalErr = ctx.bindInputToGoValue(&field, &structFieldValueStructure, variablesAllowed)
+			_, criticalErr := ctx.bindInputToGoValue(&field, &structFieldValueStructure, variablesAllowed)
 			return criticalErr
 		})
 		if criticalErr {
-- 
2.43.0


From 2ebd96f2a2ad06a9cebe0e9a03733cb9eb94846d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:32 +0000
Subject: [PATCH 25/71] fix: read values by their length

A \u0000 in a string ended the value early and made the rest of the
query unreadable.
---
 resolver.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/resolver.go b/resolver.go
index ee50f84..1b0b64a 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1417,19 +1417,18 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 		return valueSet, criticalErr
 	}
 
+	ctx.skipInst(1)             // read ActionValue
+	valueKind := ctx.readInst() // read value kind
+	valueLen := int(ctx.readUint32(ctx.charNr))
+	ctx.skipInst(4) // read length of value
+
 	getValue := func() (start int, end int) {
 		start = ctx.charNr
-		for {
-			if ctx.readInst() == 0 {
-				return start, ctx.charNr - 1
-			}
-		}
+		end = start + valueLen
+		ctx.charNr = end + 1 // also read next NULL
+		return start, end
 	}
 
-	ctx.skipInst(1)             // read ActionValue
-	valueKind := ctx.readInst() // read value kind
-	ctx.skipInst(4)             // read length of value
-
 	// TODO if field is: isTime, isFile, is.. and the value provided is different than the expected we'll get wired errors
 
 	valueSet = true
-- 
2.43.0


From ae31ab28717f7fcefe2d9d25d280a4c2aee9ab32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:01 +0000
Subject: [PATCH 26/71] fix: accept variables for lists of pointers

---
 resolver.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/resolver.go b/resolver.go
index 1b0b64a..8c4cbf1 100644
--- a/resolver.go
+++ b/resolver.go
@@ -968,7 +968,14 @@ func (ctx *Ctx) bindOperatorArgumentTo(goValue *reflect.Value, valueStructure *i
 
 	// TODO the error messages in this function are garbage
 
-	resolvedValueStructure := valueStructure
+	withoutPtrs := func(in *input) *input {
+		for in.kind == reflect.Ptr && !in.isFile {
+			in = in.elem
+		}
+		return in
+	}
+
+	resolvedValueStructure := withoutPtrs(valueStructure)
 	c := ctx.readInst()
 	for {
 		if c != 'L' && c != 'l' {
@@ -977,7 +984,7 @@ func (ctx *Ctx) bindOperatorArgumentTo(goValue *reflect.Value, valueStructure *i
 		if resolvedValueStructure.kind != reflect.Slice {
 			return false, ctx.err("variable $" + argumentName + " cannot be bind to " + resolvedValueStructure.kind.String())
 		}
-		resolvedValueStructure = resolvedValueStructure.elem
+		resolvedValueStructure = withoutPtrs(resolvedValueStructure.elem)
 		c = ctx.readInst()
 	}
 	if c == 'n' || c == 'N' {
-- 
2.43.0


From a0be00dbd8de60502b5c36ee85eea9ebc02b3829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 27/71] fix: bind numbers in variables like number literals

Floats lost precision, floats too large for 32 bits became infinite and
unsigned integers above the signed range were rejected.
---
 resolver.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/resolver.go b/resolver.go
index 8c4cbf1..c0b4e7e 100644
--- a/resolver.go
+++ b/resolver.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"math"
 	"mime/multipart"
 	"reflect"
 	"strconv"
@@ -1240,11 +1241,24 @@ func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, j
 		}
 	case fastjson.TypeNumber:
 		goValueKind := goValue.Kind()
+		number := string(jsonData.MarshalTo(nil))
 		if goValueKind == reflect.Float64 || goValueKind == reflect.Float32 {
+			if ctx.assignFloatToValue(goValue, number) {
+				return false, true
+			}
+			valueSet = true
+		} else if goValueKind == reflect.Uint64 || goValueKind == reflect.Uint {
+			uintVal, err := strconv.ParseUint(number, 10, 64)
+			if err != nil {
+				return false, ctx.errf("cannot assign %s to a unsigned integer", number)
+			}
+			if goValue.OverflowUint(uintVal) {
+				return false, ctx.errf("cannot assign %d to a unsigned integer", uintVal)
+			}
 			valueSet = true
-			goValue.SetFloat(jsonData.GetFloat64())
+			goValue.SetUint(uintVal)
 		} else {
-			intVal, err := jsonData.Int64()
+			intVal, err := strconv.ParseInt(number, 10, 64)
 			if err != nil {
 				return false, ctx.err(err.Error())
 			}
@@ -1390,6 +1404,18 @@ func (ctx *Ctx) assignIDToValue(goValue *reflect.Value, id string) bool {
 	return false
 }
 
+func (ctx *Ctx) assignFloatToValue(goValue *reflect.Value, number string) bool {
+	value, err := strconv.ParseFloat(number, goValue.Type().Bits())
+	if err != nil {
+		return ctx.err(err.Error())
+	}
+	if math.IsInf(value, 0) || math.IsNaN(value) {
+		return ctx.err("cannot assign " + number + " to a float")
+	}
+	goValue.SetFloat(value)
+	return false
+}
+
 func (ctx *Ctx) checkInputIsPtr(goValue *reflect.Value, input *input, whenPtr func(goValue *reflect.Value, input *input) (valueSet bool, criticalErr bool)) (isPtr bool, valueSet bool, criticalErr bool) {
 	if input.kind != reflect.Ptr || input.isFile {
 		return false, false, false
-- 
2.43.0


From 313952a462310ab2b9c8cb68ac69dbf3df34cbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:05 +0000
Subject: [PATCH 28/71] fix: reject float literals that do not fit a 32 bit
 float

They became infinite, and integer literals above 64 bits were rejected
for floats that can hold them.
---
 resolver.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/resolver.go b/resolver.go
index c0b4e7e..1a60b4e 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1535,12 +1535,9 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 
 			goValue.SetUint(value)
 		case reflect.Float32, reflect.Float64:
-			value, err := strconv.ParseInt(intValue, 10, 64)
-			if err != nil {
-				return false, ctx.err(err.Error())
+			if ctx.assignFloatToValue(goValue, intValue) {
+				return false, true
 			}
-
-			goValue.SetFloat(float64(value))
 		case reflect.Bool:
 			value, err := strconv.ParseInt(intValue, 10, 64)
 			if err != nil {
@@ -1556,12 +1553,9 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 		switch goValue.Kind() {
 		case reflect.Float32, reflect.Float64:
 			startFloat, endFloat := getValue()
-			floatValue, err := strconv.ParseFloat(b2s(ctx.query.Res[startFloat:endFloat]), 64)
-			if err != nil {
-				return false, ctx.err(err.Error())
+			if ctx.assignFloatToValue(goValue, b2s(ctx.query.Res[startFloat:endFloat])) {
+				return false, true
 			}
-
-			goValue.SetFloat(floatValue)
 		default:
 			return false, ctx.err("cannot assign float to " + goValue.String())
 		}
-- 
2.43.0


From 93696303e92fd49ab377a4fe532676dbc02ffdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 29/71] fix: reject objects for time arguments and integers for
 enum arguments

An empty object was accepted as the zero time and an integer literal
bypassed the registered enum values.
---
 resolver.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 1a60b4e..f88f267 100644
--- a/resolver.go
+++ b/resolver.go
@@ -1489,6 +1489,10 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 		startInt, endInt := getValue()
 		intValue := b2s(ctx.query.Res[startInt:endInt])
 
+		if valueStructure.isEnum {
+			return false, ctx.err("cannot assign int to Enum value")
+		}
+
 		switch goValue.Kind() {
 		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 			value, err := strconv.ParseInt(intValue, 10, 64)
@@ -1628,7 +1632,7 @@ func (ctx *Ctx) bindInputToGoValue(goValue *reflect.Value, valueStructure *input
 
 		goValue.Set(arr)
 	case bytecode.ValueObject:
-		if goValue.Kind() != reflect.Struct {
+		if goValue.Kind() != reflect.Struct || valueStructure.isTime {
 			return false, ctx.err("cannot assign object to " + goValue.String())
 		}
 
-- 
2.43.0


From 2fe611b6c5aa5260e578f16f6dc4cc4bdc169c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:29 +0000
Subject: [PATCH 30/71] fix: let SetContext work when the request has no
 context

---
 resolver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index f88f267..d554c8f 100644
--- a/resolver.go
+++ b/resolver.go
@@ -119,7 +119,7 @@ func (ctx *Ctx) GetContext() context.Context {
 func (ctx *Ctx) SetContext(newContext context.Context) {
 	if newContext == nil {
 		ctx.context = nil
-	} else if ctx == nil {
+	} else if ctx.context == nil {
 		ctx.context = &newContext
 	} else {
 		*ctx.context = newContext
-- 
2.43.0


From b20dbf2ab919205ab70265ea6db9da05896d0ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 31/71] fix: ignore unexported fields that cannot be resolved
 or set

Resolvers and times in unexported fields, or below them, panicked when
queried, and unexported argument fields panicked when set.
---
 parse.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 5957016..8d10d96 100644
--- a/parse.go
+++ b/parse.go
@@ -570,10 +570,26 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 	return &res, nil
 }
 
+// isPlainType returns true if t only contains booleans, numbers and strings
+func isPlainType(t reflect.Type) bool {
+	for t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice || t.Kind() == reflect.Array {
+		t = t.Elem()
+	}
+	switch t.Kind() {
+	case reflect.Struct, reflect.Interface, reflect.Func, reflect.Map, reflect.Chan:
+		return false
+	}
+	return true
+}
+
 func (c *parseCtx) checkStructField(field reflect.StructField, idx int) (customName *string, obj *obj, err error) {
 	if field.Anonymous {
 		return nil, nil, nil
 	}
+	if field.PkgPath != "" && !isPlainType(field.Type) {
+		// Go does not allow calling or copying what is inside unexported fields
+		return nil, nil, nil
+	}
 
 	var ignore, isID bool
 	customName, ignore, isID, err = parseFieldTagGQ(&field)
@@ -620,8 +636,8 @@ func (c *parseCtx) checkFunctionInputStruct(field *reflect.StructField, idx int)
 		return fmt.Errorf("%s, struct field: %s", err.Error(), field.Name)
 	}
 
-	if field.Anonymous {
-		// skip field
+	if field.Anonymous || field.PkgPath != "" {
+		// skip embedded and unexported fields
 		return res, true, nil
 	}
 
-- 
2.43.0


From 77da41dea2b33ba8d3fe1d875ac07f2b90f4cdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:09 +0000
Subject: [PATCH 32/71] fix: compare field names in full instead of only their
 hash

A name with the hash of another field returned that field, and of two
fields with equal hashes one replaced the other unnoticed.
---
 parse.go    | 20 ++++++++++++++++++--
 resolver.go |  4 ++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 8d10d96..d9ea33d 100644
--- a/parse.go
+++ b/parse.go
@@ -125,6 +125,16 @@ func getObjKey(key []byte) uint32 {
 	return hasher.Sum32()
 }
 
+func (o *obj) addObjContent(field *obj) error {
+	key := getObjKey(field.qlFieldName)
+	other, ok := o.objContents[key]
+	if ok && !bytes.Equal(other.qlFieldName, field.qlFieldName) {
+		return fmt.Errorf("%s cannot have both a field %s and %s, their names have the same hash", o.typeName, other.qlFieldName, field.qlFieldName)
+	}
+	o.objContents[key] = field
+	return nil
+}
+
 func (o *obj) getRef() obj {
 	switch o.valueType {
 	case valueTypeObj:
@@ -440,7 +450,10 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 				}
 				obj.qlFieldName = []byte(name)
 
-				res.objContents[getObjKey(obj.qlFieldName)] = obj
+				err = res.addObjContent(obj)
+				if err != nil {
+					return nil, err
+				}
 			}
 		}
 	case reflect.Array, reflect.Slice, reflect.Ptr:
@@ -548,7 +561,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			}
 
 			qlFieldName := []byte(name)
-			res.objContents[getObjKey(qlFieldName)] = &obj{
+			err = res.addObjContent(&obj{
 				qlFieldName:    qlFieldName,
 				valueType:      valueTypeMethod,
 				goPkgPath:      method.PkgPath,
@@ -556,6 +569,9 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 				structFieldIdx: i,
 				method:         methodObj,
 				isID:           isID,
+			})
+			if err != nil {
+				return nil, err
 			}
 		}
 
diff --git a/resolver.go b/resolver.go
index d554c8f..23d4c7b 100644
--- a/resolver.go
+++ b/resolver.go
@@ -582,6 +582,10 @@ func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (ski
 	fieldHasSelection := ctx.seekInst() != 'e'
 
 	typeObjField, ok := typeObj.objContents[nameKey]
+	if ok && !bytes.Equal(typeObjField.qlFieldName, ctx.query.Res[startOfName:endOfName]) {
+		// Only the hash of the name matches
+		ok = false
+	}
 	if !ok {
 		name := b2s(ctx.query.Res[startOfName:endOfName])
 		if name == "__typename" {
-- 
2.43.0


From f2cd8cfde96f79a617d69e14cd9ddb1ad0c4a62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 33/71] fix: only treat the registered type as enum

Every integer or string type with the same name, from any package or
function, was treated as the enum.
---
 enums.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enums.go b/enums.go
index f609252..722baeb 100644
--- a/enums.go
+++ b/enums.go
@@ -29,7 +29,7 @@ func (s *Schema) getEnum(t reflect.Type) (int, *enum) {
 	}
 
 	for i, enum := range s.definedEnums {
-		if enum.typeName == t.Name() {
+		if enum.contentType == t {
 			return i, &enum
 		}
 	}
-- 
2.43.0


From 092b60717a3e70ba35b4862472bfb06ed60382c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:13 +0000
Subject: [PATCH 34/71] fix: keep the start time of a traced field while its
 children resolve

Every child overwrote it, so the parent was reported to start at its last
child. The validation offset now has the same base as the others.
---
 copy_schema.go |  1 -
 resolver.go    | 24 +++++++++++-------------
 2 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index 68a4f1f..228168b 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -73,7 +73,6 @@ func (ctx *Ctx) copy(schema *Schema) *Ctx {
 		operatorArgumentsStartAt: ctx.operatorArgumentsStartAt,
 		tracingEnabled:           ctx.tracingEnabled,
 		tracing:                  newTracer(),
-		prefRecordingStartTime:   ctx.prefRecordingStartTime,
 		rawVariables:             ctx.rawVariables,
 		variablesParsed:          false,
 		variablesJSONParser:      &fastjson.Parser{},
diff --git a/resolver.go b/resolver.go
index 23d4c7b..73cda34 100644
--- a/resolver.go
+++ b/resolver.go
@@ -31,7 +31,6 @@ type Ctx struct {
 	operatorArgumentsStartAt int
 	tracingEnabled           bool
 	tracing                  *tracer
-	prefRecordingStartTime   time.Time
 
 	rawVariables        string
 	variablesParsed     bool             // the rawVariables are parsed into variables
@@ -189,7 +188,6 @@ func (s *Schema) Resolve(query []byte, opts ResolveOptions) []error {
 		variables:              ctx.variables,
 		tracingEnabled:         opts.Tracing,
 		tracing:                ctx.tracing,
-		prefRecordingStartTime: ctx.prefRecordingStartTime,
 		ctxReflection:          ctx.ctxReflection,
 
 		reflectValues:          ctx.reflectValues,
@@ -205,7 +203,7 @@ func (s *Schema) Resolve(query []byte, opts ResolveOptions) []error {
 	if opts.Context != nil {
 		ctx.context = &opts.Context
 	}
-	ctx.startTrace()
+	parsingStartTime := ctx.startTrace()
 
 	ctx.query.Query = append(ctx.query.Query[:0], query...)
 
@@ -217,13 +215,13 @@ func (s *Schema) Resolve(query []byte, opts ResolveOptions) []error {
 
 	if ctx.tracingEnabled {
 		// finish parsing trace
-		ctx.finishTrace(func(offset, duration int64) {
+		ctx.finishTrace(parsingStartTime, func(offset, duration int64) {
 			ctx.tracing.Parsing.StartOffset = offset
 			ctx.tracing.Parsing.Duration = duration
 		})
 
 		// Set the validation prop
-		ctx.tracing.Validation.StartOffset = time.Now().Sub(ctx.prefRecordingStartTime).Nanoseconds()
+		ctx.tracing.Validation.StartOffset = time.Now().Sub(ctx.tracing.GoStartTime).Nanoseconds()
 	}
 
 	if !opts.NoMeta {
@@ -518,7 +516,7 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 }
 
 func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (skipped bool, criticalErr bool) {
-	ctx.startTrace()
+	fieldStartTime := ctx.startTrace()
 
 	directivesCount := ctx.readInst()
 
@@ -615,7 +613,7 @@ func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (ski
 		if ctx.tracingEnabled {
 			name := b2s(ctx.query.Res[startOfName:endOfName])
 
-			ctx.finishTrace(func(offset, duration int64) {
+			ctx.finishTrace(fieldStartTime, func(offset, duration int64) {
 				returnType := bytes.NewBuffer(nil)
 				ctx.schema.objToQlTypeName(typeObjField, returnType)
 
@@ -1725,16 +1723,16 @@ func (ctx *Ctx) valueToJSON(in reflect.Value, kind reflect.Kind) {
 	}
 }
 
-func (ctx *Ctx) startTrace() {
+func (ctx *Ctx) startTrace() (startTime time.Time) {
 	if ctx.tracingEnabled {
-		ctx.prefRecordingStartTime = time.Now()
+		startTime = time.Now()
 	}
+	return startTime
 }
 
-func (ctx *Ctx) finishTrace(report func(offset, duration int64)) {
-	f := ctx.prefRecordingStartTime
-	offset := f.Sub(ctx.tracing.GoStartTime).Nanoseconds()
-	duration := time.Since(f).Nanoseconds()
+func (ctx *Ctx) finishTrace(startTime time.Time, report func(offset, duration int64)) {
+	offset := startTime.Sub(ctx.tracing.GoStartTime).Nanoseconds()
+	duration := time.Since(startTime).Nanoseconds()
 	report(offset, duration)
 }
 
-- 
2.43.0


From 790c9187255f98f33db84ebdc14d9fa2b76c782d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 35/71] fix: close list and non null types in the right order
 in traces

A list of non null strings was reported as [String]! instead of
[String!].
---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index d9ea33d..280246a 100644
--- a/parse.go
+++ b/parse.go
@@ -1002,9 +1002,9 @@ func (s *Schema) objToQlTypeName(item *obj, target *bytes.Buffer) {
 		switch qlType.Kind {
 		case typeKindList:
 			target.WriteByte('[')
-			suffix = append(suffix, ']')
+			suffix = append([]byte{']'}, suffix...)
 		case typeKindNonNull:
-			suffix = append(suffix, '!')
+			suffix = append([]byte{'!'}, suffix...)
 		default:
 			if qlType.Name != nil {
 				target.WriteString(*qlType.Name)
-- 
2.43.0


From 161f6a5f4f6df13981f69b256267f15ee08c6e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 36/71] fix: describe enum arguments and the fields of nested
 inputs

Enum arguments were described as Int or String, and an input object
listed no fields, or those of another one, when reached by reference.
---
 inject_schema.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/inject_schema.go b/inject_schema.go
index 09f4d3a..a823994 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -232,9 +232,17 @@ func (s *Schema) inputToQLType(in *input) (res *qlType, isNonNull bool) {
 		return
 	}
 
+	if in.isEnum {
+		enumType := s.definedEnums[in.enumTypeIndex].qlType
+		return &enumType, true
+	}
+
 	switch in.kind {
 	case reflect.Struct:
 		isNonNull = true
+		if in.isStructPointers {
+			in = s.inTypes[in.structName]
+		}
 
 		res = &qlType{
 			Kind:        typeKindInputObject,
-- 
2.43.0


From 08c9faf21617391281175b879602ee7383154f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:18 +0000
Subject: [PATCH 37/71] fix: ignore methods named exactly Resolve

Parse panicked on the empty name.
---
 parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse.go b/parse.go
index 280246a..7659baf 100644
--- a/parse.go
+++ b/parse.go
@@ -788,6 +788,10 @@ func (c *parseCtx) checkFunction(name string, t reflect.Type, isTypeMethod bool,
 	if strings.HasPrefix(name, "Resolve") {
 		if len(name) > 0 {
 			trimmedName = strings.TrimPrefix(name, "Resolve")
+			if isTypeMethod && trimmedName == "" {
+				// There is no name left
+				return
+			}
 			if isTypeMethod && strings.ToUpper(string(trimmedName[0]))[0] != trimmedName[0] {
 				// Resolve name must start with a uppercase letter
 				return
-- 
2.43.0


From faa1c8f2d9461ff74a73b67442d2aed0f33871d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 38/71] fix: write times in UTC

The Z of the ISO 8601 notation was added to the local time.
---
 helpers/time.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers/time.go b/helpers/time.go
index 9cb0594..81e719a 100644
--- a/helpers/time.go
+++ b/helpers/time.go
@@ -20,5 +20,5 @@ func ParseIso8601String(val string) (time.Time, error) {
 // TimeToIso8601String converts a time.Time to a string in the ISO 8601 format
 // The value is appended to the target
 func TimeToIso8601String(target *[]byte, t time.Time) {
-	*target = t.AppendFormat(*target, timeISO8601Layout)
+	*target = t.UTC().AppendFormat(*target, timeISO8601Layout)
 }
-- 
2.43.0


From 78e856e074c4aa603c1eed7afd0d55387e676c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:22 +0000
Subject: [PATCH 39/71] fix: apply fragments on interfaces an object implements

They were treated as fragments on another type and left out.
---
 resolver.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/resolver.go b/resolver.go
index 73cda34..c16f1b6 100644
--- a/resolver.go
+++ b/resolver.go
@@ -461,7 +461,7 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 	}
 
 	if isInline {
-		if !bytes.Equal(typeObj.typeNameBytes, name) {
+		if !typeObj.matchesTypeCondition(name) {
 			ctx.charNr = nameStart + int(lenOfDirective) + 1
 			return false
 		}
@@ -499,7 +499,7 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 				}
 			}
 
-			if !bytes.Equal(typeObj.typeNameBytes, ctx.query.Res[typeNameStart:typeNameEnd]) {
+			if !typeObj.matchesTypeCondition(ctx.query.Res[typeNameStart:typeNameEnd]) {
 				ctx.charNr = nameStart + int(lenOfDirective) + 1
 				return false
 			}
@@ -515,6 +515,19 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 	return ctx.err("fragment " + b2s(name) + " not defined")
 }
 
+// matchesTypeCondition returns true if name is the name of this object or of an interface it implements
+func (o *obj) matchesTypeCondition(name []byte) bool {
+	if bytes.Equal(o.typeNameBytes, name) {
+		return true
+	}
+	for _, implementation := range o.implementations {
+		if bytes.Equal(implementation.typeNameBytes, name) {
+			return true
+		}
+	}
+	return false
+}
+
 func (ctx *Ctx) resolveField(typeObj *obj, dept uint8, addCommaBefore bool) (skipped bool, criticalErr bool) {
 	fieldStartTime := ctx.startTrace()
 
-- 
2.43.0


From 5da07ea002fe7b96046bb844bc6b674e81efd439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 40/71] fix: refuse enums that are no map and accept named
 string keys

---
 enums.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/enums.go b/enums.go
index 722baeb..18f8925 100644
--- a/enums.go
+++ b/enums.go
@@ -72,16 +72,13 @@ func registerEnumCheck(enumMap interface{}) (*enum, error) {
 	mapReflection := reflect.ValueOf(enumMap)
 	invalidTypeMsg := fmt.Errorf("RegisterEnum input must be of type map[string]CustomType(int..|uint..|string) as input, %+v given", enumMap)
 
-	if enumMap == nil || mapReflection.IsZero() || mapReflection.IsNil() {
+	if enumMap == nil || mapReflection.Kind() != reflect.Map || mapReflection.IsNil() {
+		// Tye input type must be a map
 		return nil, invalidTypeMsg
 	}
 
 	mapType := mapReflection.Type()
 
-	if mapType.Kind() != reflect.Map {
-		// Tye input type must be a map
-		return nil, invalidTypeMsg
-	}
 	if mapType.Key().Kind() != reflect.String {
 		// The map key must be a string
 		return nil, invalidTypeMsg
@@ -108,7 +105,7 @@ func registerEnumCheck(enumMap interface{}) (*enum, error) {
 	i := 0
 	for iter.Next() {
 		k := iter.Key()
-		keyStr := k.Interface().(string)
+		keyStr := k.String()
 		if keyStr == "" {
 			return nil, errors.New("RegisterEnum input map cannot contain empty keys")
 		}
-- 
2.43.0


From 8923a5cdee0b99a656707f52ad75c1c143b73fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:03 +0000
Subject: [PATCH 41/71] fix: refuse directives of which the method is no
 function

---
 directives.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/directives.go b/directives.go
index cd3cadf..6444484 100644
--- a/directives.go
+++ b/directives.go
@@ -125,12 +125,12 @@ func checkDirective(directive *Directive) error {
 		return errors.New("method must be defined")
 	}
 	directive.methodReflection = reflect.ValueOf(directive.Method)
-	if directive.methodReflection.IsNil() {
-		return errors.New("method must be defined")
-	}
 	if directive.methodReflection.Kind() != reflect.Func {
 		return errors.New("method is not a function")
 	}
+	if directive.methodReflection.IsNil() {
+		return errors.New("method must be defined")
+	}
 	methodType := directive.methodReflection.Type()
 	switch methodType.NumOut() {
 	case 0:
-- 
2.43.0


From f53be39d590986e5ac7d8cc4bb996cfef6aea7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:05 +0000
Subject: [PATCH 42/71] fix: return an error for missing roots and names that
 clash with the introspection types

---
 inject_schema.go |  8 ++++----
 parse.go         | 12 +++++++++++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/inject_schema.go b/inject_schema.go
index a823994..c985d04 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -1,18 +1,17 @@
 package yarql
 
 import (
-	"log"
 	"reflect"
 	"sort"
 
 	h "github.com/mjarkk/yarql/helpers"
 )
 
-func (s *Schema) injectQLTypes(ctx *parseCtx) {
+func (s *Schema) injectQLTypes(ctx *parseCtx) error {
 	// Inject __Schema
 	ref, err := ctx.check(reflect.TypeOf(qlSchema{}), false)
 	if err != nil {
-		log.Fatal(err)
+		return err
 	}
 
 	ref.qlFieldName = []byte("__schema")
@@ -27,13 +26,14 @@ func (s *Schema) injectQLTypes(ctx *parseCtx) {
 	typeResolverReflection := reflect.ValueOf(typeResolver)
 	functionObj, err := ctx.checkStructFieldFunc("__type", typeResolverReflection.Type(), false, -1)
 	if err != nil {
-		log.Fatal(err)
+		return err
 	}
 
 	functionObj.customObjValue = &typeResolverReflection
 	functionObj.qlFieldName = []byte("__type")
 	functionObj.hidden = true
 	s.rootQuery.objContents[getObjKey(functionObj.qlFieldName)] = functionObj
+	return nil
 }
 
 // bindQLSchema sets the value of the __schema field to a description of s
diff --git a/parse.go b/parse.go
index 7659baf..b44a315 100644
--- a/parse.go
+++ b/parse.go
@@ -311,6 +311,13 @@ func (s *Schema) SetCacheRules(
 
 // Parse parses your queries and methods
 func (s *Schema) Parse(queries interface{}, methods interface{}, options *SchemaOptions) error {
+	if queries == nil {
+		return errors.New("input queries must be a struct")
+	}
+	if methods == nil {
+		return errors.New("input methods must be a struct")
+	}
+
 	s.rootQueryValue = reflect.ValueOf(queries)
 	s.rootMethodValue = reflect.ValueOf(methods)
 
@@ -346,7 +353,10 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 	}
 
 	if options == nil || !options.SkipGraphqlTypesInjection {
-		s.injectQLTypes(ctx)
+		err = s.injectQLTypes(ctx)
+		if err != nil {
+			return err
+		}
 	}
 
 	for _, method := range ctx.parsedMethods {
-- 
2.43.0


From 98daadb808fdde197ee67e83163304f6b4f253e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 43/71] fix: decode characters written as two unicode escapes

---
 bytecode/bytecode.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 5840b09..4e3226a 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -950,6 +950,26 @@ func (ctx *ParserCtx) parseNumberInputValue() bool {
 	return false
 }
 
+// peekUnicodeEscape returns the value of the \uXXXX escape at charNr or utf8.RuneError if there is none
+func (ctx *ParserCtx) peekUnicodeEscape(charNr int) rune {
+	c1, _ := ctx.checkC(charNr)
+	c2, _ := ctx.checkC(charNr + 1)
+	if c1 != '\\' || c2 != 'u' {
+		return utf8.RuneError
+	}
+
+	digits := make([]byte, 4)
+	for i := range digits {
+		digits[i], _ = ctx.checkC(charNr + 2 + i)
+	}
+	value := make([]byte, 2)
+	_, err := hex.Decode(value, digits)
+	if err != nil {
+		return utf8.RuneError
+	}
+	return rune(uint16(value[1]) | (uint16(value[0]) << 8))
+}
+
 func (ctx *ParserCtx) parseStringInputValue() bool {
 	// FIXME block strings are not spec compliant
 
@@ -1087,7 +1107,14 @@ mainLoop:
 				// 	ctx.res = append(ctx.res, res[1])
 				// }
 
-				r := utf16.Decode([]uint16{uint16(res[1]) | (uint16(res[0]) << 8)})[0]
+				r := rune(uint16(res[1]) | (uint16(res[0]) << 8))
+				if utf16.IsSurrogate(r) {
+					// Characters outside of the basic plane are written as 2 escapes
+					r = utf16.DecodeRune(r, ctx.peekUnicodeEscape(ctx.charNr+1))
+					if r != utf8.RuneError {
+						ctx.charNr += len(`\uFFFF`)
+					}
+				}
 
 				// hex.Decode above only writes to the first and second byte
 				res[0] = 0
-- 
2.43.0


From db01a84471517c422949404261aa9c8c744fbc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 44/71] fix: refuse different types with the same name

---
 parse.go | 47 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/parse.go b/parse.go
index b44a315..e614def 100644
--- a/parse.go
+++ b/parse.go
@@ -222,6 +222,20 @@ type parseCtx struct {
 	unknownTypesCount  int
 	unknownInputsCount int
 	parsedMethods      []*objMethod
+	typeNames          map[string]reflect.Type // The go type behind every graphql type name
+}
+
+// claimTypeName returns an error if name is already taken by another go type
+func (c *parseCtx) claimTypeName(name string, t reflect.Type) error {
+	other, ok := c.typeNames[name]
+	if ok && other != t {
+		return fmt.Errorf("cannot have 2 types with same type name: %s, used by %s(%s) and %s(%s)", name, other.PkgPath(), other.Name(), t.PkgPath(), t.Name())
+	}
+	if c.typeNames == nil {
+		c.typeNames = map[string]reflect.Type{}
+	}
+	c.typeNames[name] = t
+	return nil
 }
 
 // NewSchema creates a new schema wherevia you can define the graphql types and make queries
@@ -416,12 +430,13 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 				res.typeNameBytes = []byte(newName)
 			}
 
+			err := c.claimTypeName(res.typeName, t)
+			if err != nil {
+				return nil, err
+			}
+
 			v, ok := c.schema.types.Get(res.typeName)
 			if ok {
-				if v.goPkgPath != res.goPkgPath {
-					return nil, fmt.Errorf("cannot have 2 structs with same type name: %s(%s) != %s(%s)", v.goPkgPath, res.goTypeName, res.goPkgPath, res.goTypeName)
-				}
-
 				res = v.getRef()
 				return &res, nil
 			}
@@ -493,12 +508,13 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			res.typeNameBytes = []byte(newName)
 		}
 
+		err := c.claimTypeName(res.typeName, t)
+		if err != nil {
+			return nil, err
+		}
+
 		v, ok := c.schema.interfaces.Get(res.typeName)
 		if ok {
-			if v.goPkgPath != res.goPkgPath {
-				return nil, fmt.Errorf("cannot have 2 interfaces with same type name: %s(%s) != %s(%s)", v.goPkgPath, res.goTypeName, res.goPkgPath, res.goTypeName)
-			}
-
 			res = v.getRef()
 			return &res, nil
 		}
@@ -544,6 +560,11 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 	default:
 		enumIndex, enum := c.schema.getEnum(t)
 		if enum != nil {
+			err := c.claimTypeName(enum.typeName, t)
+			if err != nil {
+				return nil, err
+			}
+
 			res.valueType = valueTypeEnum
 			res.enumTypeIndex = enumIndex
 		} else {
@@ -702,6 +723,11 @@ func (c *parseCtx) checkFunctionInput(t reflect.Type, hasIDTag bool) (input, err
 	case reflect.String, reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
 		enumIndex, enum := c.schema.getEnum(t)
 		if enum != nil {
+			err := c.claimTypeName(enum.typeName, t)
+			if err != nil {
+				return res, err
+			}
+
 			res.isEnum = true
 			res.enumTypeIndex = enumIndex
 		} else if hasIDTag {
@@ -753,6 +779,11 @@ func (c *parseCtx) checkFunctionInput(t reflect.Type, hasIDTag bool) (input, err
 				// TODO allow this value to be filledin by the user
 				structName = structName + "__input"
 			}
+
+			err := c.claimTypeName(structName, t)
+			if err != nil {
+				return res, err
+			}
 		}
 
 		_, ok := c.schema.inTypes[structName]
-- 
2.43.0


From c4e247d369a9913e7b4b59151b99f1e945139aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 45/71] fix: refuse enums with the same name

---
 enums.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/enums.go b/enums.go
index 18f8925..d355642 100644
--- a/enums.go
+++ b/enums.go
@@ -64,6 +64,12 @@ func (s *Schema) RegisterEnum(enumMap interface{}) (added bool, err error) {
 		return false, err
 	}
 
+	for _, other := range s.definedEnums {
+		if other.typeName == enum.typeName {
+			return false, errors.New("you cannot register 2 enums with the same name: " + enum.typeName)
+		}
+	}
+
 	s.definedEnums = append(s.definedEnums, *enum)
 	return true, nil
 }
-- 
2.43.0


From 4c44f2590ad74cb46991c08ba3149b9bafc6303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 46/71] fix: compare the length of slices in InDeltaSlice and
 InEpsilonSlice

---
 assert/assert.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/assert/assert.go b/assert/assert.go
index 69b0f23..da22e9b 100644
--- a/assert/assert.go
+++ b/assert/assert.go
@@ -558,6 +558,10 @@ func InDeltaSlice(t TestingT, expected, actual interface{}, delta float64, msgAn
 	actualSlice := reflect.ValueOf(actual)
 	expectedSlice := reflect.ValueOf(expected)
 
+	if actualSlice.Len() != expectedSlice.Len() {
+		return Fail(t, "Arguments must have the same length", msgAndArgs...)
+	}
+
 	for i := 0; i < actualSlice.Len(); i++ {
 		result := InDelta(t, actualSlice.Index(i).Interface(), expectedSlice.Index(i).Interface(), delta, msgAndArgs...)
 		if !result {
@@ -659,6 +663,10 @@ func InEpsilonSlice(t TestingT, expected, actual interface{}, epsilon float64, m
 	actualSlice := reflect.ValueOf(actual)
 	expectedSlice := reflect.ValueOf(expected)
 
+	if actualSlice.Len() != expectedSlice.Len() {
+		return Fail(t, "Arguments must have the same length", msgAndArgs...)
+	}
+
 	for i := 0; i < actualSlice.Len(); i++ {
 		result := InEpsilon(t, actualSlice.Index(i).Interface(), expectedSlice.Index(i).Interface(), epsilon)
 		if !result {
-- 
2.43.0


From 1c858ebc77b8751316237fac788248a6654933b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 47/71] fix: handle infinities in InDelta and InEpsilon

---
 assert/assert.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/assert/assert.go b/assert/assert.go
index da22e9b..e3b1739 100644
--- a/assert/assert.go
+++ b/assert/assert.go
@@ -539,6 +539,11 @@ func InDelta(t TestingT, expected, actual interface{}, delta float64, msgAndArgs
 		return Fail(t, fmt.Sprintf("Expected %v with delta %v, but was NaN", expected, delta), msgAndArgs...)
 	}
 
+	if af == bf && delta >= 0 {
+		// Also holds for infinities, those have no difference
+		return true
+	}
+
 	dt := af - bf
 	if dt < -delta || dt > delta {
 		return Fail(t, fmt.Sprintf("Max difference between %v and %v allowed is %v, but difference was %v", expected, actual, delta, dt), msgAndArgs...)
@@ -632,6 +637,13 @@ func calcRelativeError(expected, actual interface{}) (float64, error) {
 		return 0, errors.New("actual value must not be NaN")
 	}
 
+	if math.IsInf(af, 0) || math.IsInf(bf, 0) {
+		if af == bf {
+			return 0, nil
+		}
+		return math.Inf(1), nil
+	}
+
 	return math.Abs(af-bf) / math.Abs(af), nil
 }
 
-- 
2.43.0


From 4fd171943556200d302f808399aae739e600a513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 48/71] fix: let Positive and Negative fail on nil

---
 assert/assertion_compare.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/assert/assertion_compare.go b/assert/assertion_compare.go
index 5427938..7bd5a7a 100644
--- a/assert/assertion_compare.go
+++ b/assert/assertion_compare.go
@@ -347,6 +347,9 @@ func LessOrEqual(t TestingT, e1 interface{}, e2 interface{}, msgAndArgs ...inter
 //    assert.Positive(t, 1)
 //    assert.Positive(t, 1.23)
 func Positive(t TestingT, e interface{}, msgAndArgs ...interface{}) bool {
+	if e == nil {
+		return Fail(t, "Can not compare type nil", msgAndArgs...)
+	}
 	zero := reflect.Zero(reflect.TypeOf(e))
 	return compareTwoValues(t, e, zero.Interface(), []compareType{compareGreater}, "\"%v\" is not positive", msgAndArgs)
 }
@@ -356,6 +359,9 @@ func Positive(t TestingT, e interface{}, msgAndArgs ...interface{}) bool {
 //    assert.Negative(t, -1)
 //    assert.Negative(t, -1.23)
 func Negative(t TestingT, e interface{}, msgAndArgs ...interface{}) bool {
+	if e == nil {
+		return Fail(t, "Can not compare type nil", msgAndArgs...)
+	}
 	zero := reflect.Zero(reflect.TypeOf(e))
 	return compareTwoValues(t, e, zero.Interface(), []compareType{compareLess}, "\"%v\" is not negative", msgAndArgs)
 }
@@ -369,7 +375,7 @@ func compareTwoValues(t TestingT, e1 interface{}, e2 interface{}, allowedCompare
 
 	compareResult, isComparable := compare(e1, e2, e1Kind)
 	if !isComparable {
-		return Fail(t, fmt.Sprintf("Can not compare type \"%s\"", reflect.TypeOf(e1)), msgAndArgs...)
+		return Fail(t, fmt.Sprintf("Can not compare type \"%v\"", reflect.TypeOf(e1)), msgAndArgs...)
 	}
 
 	if !containsValue(allowedComparesResults, compareResult) {
-- 
2.43.0


From 749808aa45cff823b25adb93a9a036cf0a5619e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:31 +0000
Subject: [PATCH 49/71] fix: selection sets on enum and time fields are an
 error

---
 resolver.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/resolver.go b/resolver.go
index c16f1b6..5afc179 100644
--- a/resolver.go
+++ b/resolver.go
@@ -863,6 +863,11 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 		criticalErr = ctx.resolveFieldDataValue(&method.outType, dept, hasSubSelection)
 		return criticalErr
 	case valueTypeEnum:
+		if hasSubSelection {
+			ctx.writeNull()
+			return ctx.err("cannot have a selection set on this field")
+		}
+
 		enum := ctx.schema.definedEnums[typeObj.enumTypeIndex]
 		switch enum.contentKind {
 		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
@@ -892,6 +897,11 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 		}
 		ctx.writeNull()
 	case valueTypeTime:
+		if hasSubSelection {
+			ctx.writeNull()
+			return ctx.err("cannot have a selection set on this field")
+		}
+
 		timeValue, ok := goValue.Interface().(time.Time)
 		if ok {
 			ctx.writeByte('"')
-- 
2.43.0


From 5c874816cfb65bfee26f82c609b08ffd7da81e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 50/71] fix: arguments of interface methods were missing in the
 schema description

---
 copy_schema.go | 1 +
 parse.go       | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/copy_schema.go b/copy_schema.go
index 228168b..80df9fc 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -214,6 +214,7 @@ func (o *obj) copy() *obj {
 func (m *objMethod) copy() *objMethod {
 	res := objMethod{
 		isTypeMethod:   m.isTypeMethod,
+		hasReceiver:    m.hasReceiver,
 		goFunctionName: m.goFunctionName,
 		goType:         m.goType,
 		checkedIns:     m.checkedIns,
diff --git a/parse.go b/parse.go
index e614def..9683ea5 100644
--- a/parse.go
+++ b/parse.go
@@ -163,6 +163,7 @@ type objMethod struct {
 	// true = func (*someStruct) ResolveFooBar() string {}
 	// false = ResolveFooBar func() string
 	isTypeMethod   bool
+	hasReceiver    bool // goType has the receiver as first argument, not the case for methods of interfaces
 	goFunctionName string
 	goType         reflect.Type
 
@@ -590,6 +591,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			} else if methodObj == nil {
 				continue
 			}
+			methodObj.hasReceiver = res.valueType == valueTypeObj
 
 			qlFieldName := []byte(name)
 			err = res.addObjContent(&obj{
@@ -914,7 +916,7 @@ func (c *parseCtx) checkFunctionIns(method *objMethod) error {
 	totalInputs := method.goType.NumIn()
 	for i := 0; i < totalInputs; i++ {
 		iInList := i
-		if method.isTypeMethod {
+		if method.hasReceiver {
 			if i == 0 {
 				// First argument can be skipped if type method
 				continue
-- 
2.43.0


From 33fc6bd89b3b6ee18690bfc275b19dab4999c5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:31 +0000
Subject: [PATCH 51/71] fix: the root types of the schema were described
 without their interfaces

---
 inject_schema.go | 65 ++++++------------------------------------------
 1 file changed, 7 insertions(+), 58 deletions(-)

diff --git a/inject_schema.go b/inject_schema.go
index c985d04..ae7ab99 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -48,65 +48,14 @@ func (s *Schema) bindQLSchema() {
 }
 
 func (s *Schema) getQLSchema() qlSchema {
-	res := qlSchema{
-		Types:      s.getAllQLTypes,
-		Directives: s.getDirectives(),
-		QueryType: &qlType{
-			Kind:        typeKindObject,
-			Name:        h.StrPtr(s.rootQuery.typeName),
-			Description: h.PtrToEmptyStr,
-			Fields: func(isDeprecatedArgs) []qlField {
-				fields, ok := s.graphqlObjFields[s.rootQuery.typeName]
-				if ok {
-					return fields
-				}
-
-				res := []qlField{}
-				for _, item := range s.rootQuery.objContents {
-					if item.hidden {
-						continue
-					}
-					res = append(res, qlField{
-						Name: string(item.qlFieldName),
-						Args: s.getObjectArgs(item),
-						Type: *wrapQLTypeInNonNull(s.objToQLType(item)),
-					})
-				}
-				sort.Slice(res, func(a int, b int) bool { return res[a].Name < res[b].Name })
+	queryType, _ := s.objToQLType(s.rootQuery)
+	mutationType, _ := s.objToQLType(s.rootMethod)
 
-				s.graphqlObjFields[s.rootQuery.typeName] = res
-				return res
-			},
-			Interfaces: []qlType{},
-		},
-		MutationType: &qlType{
-			Kind:        typeKindObject,
-			Name:        h.StrPtr(s.rootMethod.typeName),
-			Description: h.PtrToEmptyStr,
-			Fields: func(isDeprecatedArgs) []qlField {
-				fields, ok := s.graphqlObjFields[s.rootMethod.typeName]
-				if ok {
-					return fields
-				}
-
-				res := []qlField{}
-				for _, item := range s.rootMethod.objContents {
-					if item.hidden {
-						continue
-					}
-					res = append(res, qlField{
-						Name: string(item.qlFieldName),
-						Args: s.getObjectArgs(item),
-						Type: *wrapQLTypeInNonNull(s.objToQLType(item)),
-					})
-				}
-				sort.Slice(res, func(a int, b int) bool { return res[a].Name < res[b].Name })
-
-				s.graphqlObjFields[s.rootMethod.typeName] = res
-				return res
-			},
-			Interfaces: []qlType{},
-		},
+	res := qlSchema{
+		Types:        s.getAllQLTypes,
+		Directives:   s.getDirectives(),
+		QueryType:    queryType,
+		MutationType: mutationType,
 	}
 
 	// TODO: We currently don't support subscriptions
-- 
2.43.0


From 4b07e95ab634a01f014b9eca94c7891fefb99765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:11 +0000
Subject: [PATCH 52/71] fix: names of anonymous directive inputs and order of
 directives were random

---
 directives.go    | 11 +++++++++++
 inject_schema.go |  6 +++---
 parse.go         |  4 ++--
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/directives.go b/directives.go
index 6444484..5060dc5 100644
--- a/directives.go
+++ b/directives.go
@@ -3,6 +3,7 @@ package yarql
 import (
 	"errors"
 	"reflect"
+	"sort"
 )
 
 // DirectiveLocation defines the location a directive can be used in
@@ -105,6 +106,16 @@ func (s *Schema) RegisterDirective(directive Directive) error {
 	return nil
 }
 
+// directiveLocations returns the locations that have directives, always in the same order
+func (s *Schema) directiveLocations() []DirectiveLocation {
+	res := []DirectiveLocation{}
+	for location := range s.definedDirectives {
+		res = append(res, location)
+	}
+	sort.Slice(res, func(a int, b int) bool { return res[a] < res[b] })
+	return res
+}
+
 func checkDirective(directive *Directive) error {
 	if len(directive.Name) == 0 {
 		return errors.New("cannot register directive with empty name")
diff --git a/inject_schema.go b/inject_schema.go
index ae7ab99..7ee3778 100644
--- a/inject_schema.go
+++ b/inject_schema.go
@@ -67,9 +67,9 @@ func (s *Schema) getQLSchema() qlSchema {
 func (s *Schema) getDirectives() []qlDirective {
 	res := []qlDirective{}
 
-	for _, directiveLocation := range s.definedDirectives {
+	for _, location := range s.directiveLocations() {
 	outerLoop:
-		for _, directive := range directiveLocation {
+		for _, directive := range s.definedDirectives[location] {
 			locations := make([]__DirectiveLocation, len(directive.Where))
 			for idx, location := range directive.Where {
 				locations[idx] = location.ToQlDirectiveLocation()
@@ -95,7 +95,7 @@ func (s *Schema) getDirectives() []qlDirective {
 		}
 	}
 
-	sort.Slice(res, func(a int, b int) bool { return res[a].Name < res[b].Name })
+	sort.SliceStable(res, func(a int, b int) bool { return res[a].Name < res[b].Name })
 
 	return res
 }
diff --git a/parse.go b/parse.go
index 9683ea5..ae292cd 100644
--- a/parse.go
+++ b/parse.go
@@ -381,8 +381,8 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 		}
 	}
 
-	for _, directiveLocation := range ctx.schema.definedDirectives {
-		for _, directive := range directiveLocation {
+	for _, location := range s.directiveLocations() {
+		for _, directive := range s.definedDirectives[location] {
 			if directive.parsedMethod.checkedIns {
 				continue
 			}
-- 
2.43.0


From 868d45ca9e5410545af6eaaa30d7d3fba19d3802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:11 +0000
Subject: [PATCH 53/71] fix: matching keywords took time quadratic in the query
 length

---
 bytecode/bytecode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 4e3226a..87fe6e1 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -1265,9 +1265,9 @@ func (ctx *ParserCtx) matches(oneOf ...string) int {
 		}
 	}
 
-	lastChecked := ""
-
 	for {
+		lastChecked := ""
+
 		c, eof := ctx.checkC(ctx.charNr)
 		if eof {
 			ctx.charNr = startIdx
-- 
2.43.0


From 5910fd38d1e8f92b8627f33a4432475024d2b638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:17 +0000
Subject: [PATCH 54/71] fix: stop at the first syntax error within an inline
 fragment

---
 bytecode/bytecode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bytecode/bytecode.go b/bytecode/bytecode.go
index 87fe6e1..0d90d19 100644
--- a/bytecode/bytecode.go
+++ b/bytecode/bytecode.go
@@ -513,7 +513,10 @@ func (ctx *ParserCtx) parseSelectionSet() bool {
 						return ctx.err(`expected selection set open ("{") on inline fragment but got "` + string(c) + `"`)
 					}
 					ctx.charNr++
-					ctx.parseSelectionSet()
+					criticalErr := ctx.parseSelectionSet()
+					if criticalErr {
+						return criticalErr
+					}
 					ctx.instructionEnd()
 					c, eof = ctx.mightIgnoreNextTokens()
 					if eof {
-- 
2.43.0


From 52d1fc96e32a27e8dcc3d4d746e53c54ba17d035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 55/71] fix: a schema refused by Parse was accepted when Parse
 was called again

---
 parse.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/parse.go b/parse.go
index ae292cd..98221d2 100644
--- a/parse.go
+++ b/parse.go
@@ -333,6 +333,8 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 		return errors.New("input methods must be a struct")
 	}
 
+	s.forgetParsed()
+
 	s.rootQueryValue = reflect.ValueOf(queries)
 	s.rootMethodValue = reflect.ValueOf(methods)
 
@@ -406,6 +408,25 @@ func (s *Schema) Parse(queries interface{}, methods interface{}, options *Schema
 	return nil
 }
 
+// forgetParsed removes everything an earlier and maybe failed Parse call has left behind
+func (s *Schema) forgetParsed() {
+	s.parsed = false
+	s.types = types{}
+	s.inTypes = inputMap{}
+	s.interfaces = types{}
+	s.graphqlTypesMap = nil
+	s.graphqlTypesList = nil
+	s.graphqlObjFields = map[string][]qlField{}
+
+	for _, directives := range s.definedDirectives {
+		for _, directive := range directives {
+			directive.parsedMethod.ins = []baseInput{}
+			directive.parsedMethod.inFields = map[string]referToInput{}
+			directive.parsedMethod.checkedIns = false
+		}
+	}
+}
+
 func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 	res := obj{
 		typeNameBytes: []byte(t.Name()),
-- 
2.43.0


From 5a63e93a32643f33ceedbe945219097d284577c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 56/71] fix: enum keys true, false and null were accepted but
 could not be used in a query

---
 enums.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/enums.go b/enums.go
index d355642..a0fe08e 100644
--- a/enums.go
+++ b/enums.go
@@ -120,6 +120,9 @@ func registerEnumCheck(enumMap interface{}) (*enum, error) {
 		if err != nil {
 			return nil, errors.New(`RegisterEnum map key must start with an alphabetic character (lower or upper) followed by the same or a "_", key given: ` + keyStr)
 		}
+		if keyStr == "true" || keyStr == "false" || keyStr == "null" {
+			return nil, errors.New("RegisterEnum map key cannot be true, false or null, key given: " + keyStr)
+		}
 
 		entries[i] = enumEntry{
 			keyBytes: []byte(keyStr),
-- 
2.43.0


From fe0a478520deef0b6ef192ef3bd999928dc13697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 57/71] fix: a directive refused for one location stayed
 registered for others

---
 directives.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/directives.go b/directives.go
index 5060dc5..fd14bfa 100644
--- a/directives.go
+++ b/directives.go
@@ -86,21 +86,18 @@ func (s *Schema) RegisterDirective(directive Directive) error {
 		return err
 	}
 
-	ptrToDirective := &directive
+	// Check for already defined directives with the same name
 	for _, location := range directive.Where {
-		directivesForLocation, ok := s.definedDirectives[location]
-		if !ok {
-			directivesForLocation = []*Directive{}
-		} else {
-			// Check for already defined directives with the same name
-			for _, alreadyDefinedDirective := range directivesForLocation {
-				if directive.Name == alreadyDefinedDirective.Name {
-					return errors.New("you cannot have duplicated directive names in " + location.String() + " with name " + directive.Name)
-				}
+		for _, alreadyDefinedDirective := range s.definedDirectives[location] {
+			if directive.Name == alreadyDefinedDirective.Name {
+				return errors.New("you cannot have duplicated directive names in " + location.String() + " with name " + directive.Name)
 			}
 		}
-		directivesForLocation = append(directivesForLocation, ptrToDirective)
-		s.definedDirectives[location] = directivesForLocation
+	}
+
+	ptrToDirective := &directive
+	for _, location := range directive.Where {
+		s.definedDirectives[location] = append(s.definedDirectives[location], ptrToDirective)
 	}
 
 	return nil
-- 
2.43.0


From c50ccf853fbfd3df3c05e131d76846f518f8c6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 58/71] fix: a schema with an unexported field of an
 unsupported kind was refused

---
 parse.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse.go b/parse.go
index 98221d2..b6460d8 100644
--- a/parse.go
+++ b/parse.go
@@ -648,6 +648,8 @@ func isPlainType(t reflect.Type) bool {
 	switch t.Kind() {
 	case reflect.Struct, reflect.Interface, reflect.Func, reflect.Map, reflect.Chan:
 		return false
+	case reflect.Uintptr, reflect.Complex64, reflect.Complex128, reflect.UnsafePointer:
+		return false
 	}
 	return true
 }
-- 
2.43.0


From 30e9805065e80255866b090769bab68e1fd64ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 59/71] fix: SetValue panicked when the caller's values are a
 nil map

---
 resolver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resolver.go b/resolver.go
index 5afc179..df82f88 100644
--- a/resolver.go
+++ b/resolver.go
@@ -102,6 +102,9 @@ func (ctx *Ctx) SetValue(key string, value interface{}) {
 			key: value,
 		}
 	} else {
+		if *ctx.values == nil {
+			*ctx.values = map[string]interface{}{}
+		}
 		(*ctx.values)[key] = value
 	}
 }
-- 
2.43.0


From 168b50a10cace2703eee50c17d5d3e3bb1585e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 60/71] fix: a value of another type with the name of an
 implementation was taken for it

---
 copy_schema.go | 1 +
 parse.go       | 4 ++++
 resolver.go    | 4 +---
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/copy_schema.go b/copy_schema.go
index 80df9fc..f5da7ee 100644
--- a/copy_schema.go
+++ b/copy_schema.go
@@ -178,6 +178,7 @@ func (o *obj) copy() *obj {
 		typeNameBytes:  o.typeNameBytes[:],
 		goTypeName:     o.goTypeName,
 		goPkgPath:      o.goPkgPath,
+		goType:         o.goType,
 		qlFieldName:    o.qlFieldName[:],
 		customObjValue: o.customObjValue, // maybe TODO
 		structFieldIdx: o.structFieldIdx,
diff --git a/parse.go b/parse.go
index b6460d8..f9af1b3 100644
--- a/parse.go
+++ b/parse.go
@@ -90,6 +90,7 @@ type obj struct {
 	typeNameBytes []byte
 	goTypeName    string
 	goPkgPath     string
+	goType        reflect.Type
 	qlFieldName   []byte
 	hidden        bool
 	isID          bool
@@ -143,6 +144,7 @@ func (o *obj) getRef() obj {
 			typeName:      o.typeName,
 			goTypeName:    o.goTypeName,
 			goPkgPath:     o.goPkgPath,
+			goType:        o.goType,
 			typeNameBytes: []byte(o.typeName),
 		}
 	case valueTypeInterface:
@@ -151,6 +153,7 @@ func (o *obj) getRef() obj {
 			typeName:      o.typeName,
 			goTypeName:    o.goTypeName,
 			goPkgPath:     o.goPkgPath,
+			goType:        o.goType,
 			typeNameBytes: []byte(o.typeName),
 		}
 	default:
@@ -433,6 +436,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 		typeName:      t.Name(),
 		goPkgPath:     t.PkgPath(),
 		goTypeName:    t.Name(),
+		goType:        t,
 	}
 
 	if res.goPkgPath == "time" && res.goTypeName == "Time" {
diff --git a/resolver.go b/resolver.go
index df82f88..cec9922 100644
--- a/resolver.go
+++ b/resolver.go
@@ -939,12 +939,10 @@ func (ctx *Ctx) resolveFieldDataValue(typeObj *obj, dept uint8, hasSubSelection
 		}
 
 		goValueType := goValue.Type()
-		goValueName := goValueType.Name()
-		goValuePkgPath := goValueType.PkgPath()
 
 		// TODO improve performance of the below
 		for _, implementation := range typeObj.implementations {
-			if implementation.goTypeName == goValueName && implementation.goPkgPath == goValuePkgPath {
+			if implementation.goType == goValueType {
 				criticalErr := ctx.resolveFieldDataValue(implementation, dept, hasSubSelection)
 				ctx.currentReflectValueIdx--
 				return criticalErr
-- 
2.43.0


From 3139f22753919f13052ef776015639a8fab02160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 61/71] fix: Implements mixed up types and interfaces of the
 same name from different packages

---
 interfaces.go | 14 +++++++-------
 parse.go      |  4 ++--
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/interfaces.go b/interfaces.go
index 4a9aa96..ab0b186 100644
--- a/interfaces.go
+++ b/interfaces.go
@@ -4,11 +4,11 @@ import (
 	"reflect"
 )
 
-// implementationMap is a map of interface names and the types that implement them
-var implementationMap = map[string][]reflect.Type{}
+// implementationMap is a map of interfaces and the types that implement them
+var implementationMap = map[reflect.Type][]reflect.Type{}
 
 // structImplementsMap is list of all structs and their interfaces that they implement
-var structImplementsMap = map[string][]reflect.Type{}
+var structImplementsMap = map[reflect.Type][]reflect.Type{}
 
 // Implements registers a new type that implementation an interface
 // The interfaceValue should be a pointer to the interface type like: (*InterfaceType)(nil)
@@ -53,21 +53,21 @@ func Implements(interfaceValue interface{}, typeValue interface{}) bool {
 		panic(typePath + "." + typePath + " does not implement " + interfacePath + "." + interfaceName)
 	}
 
-	typesThatImplementInterf, ok := implementationMap[interfaceName]
+	typesThatImplementInterf, ok := implementationMap[interfaceType]
 	if !ok {
 		typesThatImplementInterf = []reflect.Type{}
 	} else {
 		for _, t := range typesThatImplementInterf {
-			if t.Name() == typeName && t.PkgPath() == typePath {
+			if t == typeType {
 				// already registered
 				return true
 			}
 		}
 	}
 	typesThatImplementInterf = append(typesThatImplementInterf, typeType)
-	implementationMap[interfaceName] = typesThatImplementInterf
+	implementationMap[interfaceType] = typesThatImplementInterf
 
-	structImplementsMap[typeName] = append(structImplementsMap[typeName], interfaceType)
+	structImplementsMap[typeType] = append(structImplementsMap[typeType], interfaceType)
 
 	return true
 }
diff --git a/parse.go b/parse.go
index f9af1b3..39ef9ae 100644
--- a/parse.go
+++ b/parse.go
@@ -467,7 +467,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 				return &res, nil
 			}
 
-			implementations := structImplementsMap[t.Name()]
+			implementations := structImplementsMap[t]
 			for _, implementation := range implementations {
 				impl, err := c.check(implementation, false)
 				if err != nil {
@@ -559,7 +559,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			methodPkgName = "inline interface"
 		}
 
-		typesThatImplementInterface, ok := implementationMap[t.Name()]
+		typesThatImplementInterface, ok := implementationMap[t]
 		if !ok {
 			return nil, errors.New("cannot register a interface without explicit implementations")
 		}
-- 
2.43.0


From d1c0904f7fd22e3efdaa325f8d45795c3eba824c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 62/71] fix: TypeRename also renamed other types of the same
 name

---
 parse.go       | 6 +++---
 type_rename.go | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/parse.go b/parse.go
index 39ef9ae..30cf334 100644
--- a/parse.go
+++ b/parse.go
@@ -450,7 +450,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			return nil, errors.New("structs cannot have ID attribute")
 		}
 		if res.typeName != "" {
-			newName, ok := renamedTypes[res.typeName]
+			newName, ok := renamedTypes[t]
 			if ok {
 				res.typeName = newName
 				res.typeNameBytes = []byte(newName)
@@ -528,7 +528,7 @@ func (c *parseCtx) check(t reflect.Type, hasIDTag bool) (*obj, error) {
 			return nil, errors.New("inline interfaces not allowed")
 		}
 
-		newName, ok := renamedTypes[res.typeName]
+		newName, ok := renamedTypes[t]
 		if ok {
 			res.typeName = newName
 			res.typeNameBytes = []byte(newName)
@@ -798,7 +798,7 @@ func (c *parseCtx) checkFunctionInput(t reflect.Type, hasIDTag bool) (input, err
 			c.unknownInputsCount++
 			structName = "__UnknownInput" + strconv.Itoa(c.unknownInputsCount)
 		} else {
-			newStructName, ok := renamedTypes[structName]
+			newStructName, ok := renamedTypes[t]
 			if ok {
 				structName = newStructName
 			}
diff --git a/type_rename.go b/type_rename.go
index 0fce280..0eb6bd0 100644
--- a/type_rename.go
+++ b/type_rename.go
@@ -6,7 +6,7 @@ import (
 	"strings"
 )
 
-var renamedTypes = map[string]string{}
+var renamedTypes = map[reflect.Type]string{}
 
 // TypeRename renames the graphql type of the input type
 // By default the typename of the struct is used but you might want to change this form time to time and with this you can
@@ -33,7 +33,7 @@ func TypeRename(goType interface{}, newName string, force ...bool) string {
 		}
 	}
 
-	renamedTypes[originalName] = newName
+	renamedTypes[t] = newName
 
 	return newName
 }
-- 
2.43.0


From 232d36a223593ab120004db84153715a9b4ef226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 63/71] fix: InEpsilonSlice took the actual values for the
 expected ones

---
 assert/assert.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/assert/assert.go b/assert/assert.go
index e3b1739..90b959c 100644
--- a/assert/assert.go
+++ b/assert/assert.go
@@ -680,7 +680,7 @@ func InEpsilonSlice(t TestingT, expected, actual interface{}, epsilon float64, m
 	}
 
 	for i := 0; i < actualSlice.Len(); i++ {
-		result := InEpsilon(t, actualSlice.Index(i).Interface(), expectedSlice.Index(i).Interface(), epsilon)
+		result := InEpsilon(t, expectedSlice.Index(i).Interface(), actualSlice.Index(i).Interface(), epsilon)
 		if !result {
 			return result
 		}
-- 
2.43.0


From 5fb06e62e30ec205e9e12f218565648a0eaba24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:33 +0000
Subject: [PATCH 64/71] fix: find fragments by name in constant time when there
 are many

---
 resolver.go | 95 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 60 insertions(+), 35 deletions(-)

diff --git a/resolver.go b/resolver.go
index cec9922..f310f6e 100644
--- a/resolver.go
+++ b/resolver.go
@@ -29,6 +29,7 @@ type Ctx struct {
 	getFormFile              func(key string) (*multipart.FileHeader, error) // Get form file to support file uploading
 	operatorHasArguments     bool
 	operatorArgumentsStartAt int
+	fragments                map[string]int // Locations of the fragments by name, only set for queries with many fragments
 	tracingEnabled           bool
 	tracing                  *tracer
 
@@ -41,7 +42,7 @@ type Ctx struct {
 	reflectValues          []reflect.Value // Grows when needed, see setGoValue
 	currentReflectValueIdx int
 	funcInputs             []reflect.Value
-	activeFragments        []int         // Locations of the fragments currently being resolved
+	activeFragments        map[int]bool  // Locations of the fragments currently being resolved
 	ctxReflection          reflect.Value // ptr to the value
 
 	// public / kinda public fields
@@ -196,10 +197,14 @@ func (s *Schema) Resolve(query []byte, opts ResolveOptions) []error {
 		reflectValues:          ctx.reflectValues,
 		currentReflectValueIdx: 0,
 		funcInputs:             ctx.funcInputs,
-		activeFragments:        ctx.activeFragments[:0],
+		activeFragments:        ctx.activeFragments,
 
 		values: opts.Values,
 	}
+	for location := range ctx.activeFragments {
+		// Left behind by a request that panicked
+		delete(ctx.activeFragments, location)
+	}
 	if opts.Tracing {
 		ctx.tracing.reset()
 	}
@@ -474,48 +479,68 @@ func (ctx *Ctx) resolveSpread(typeObj *obj, dept uint8, firstField *bool) bool {
 		return criticalErr
 	}
 
-	ctxQueryResLen := len(ctx.query.Res)
+	location, found := ctx.findFragment(name)
+	if !found {
+		return ctx.err("fragment " + b2s(name) + " not defined")
+	}
+	if ctx.activeFragments[location] {
+		return ctx.err("fragment " + b2s(name) + " cannot spread itself")
+	}
+
+	originalCharNr := ctx.charNr
+	ctx.charNr = location + 1 + nameLen + 1
 
-	for _, location := range ctx.query.FragmentLocations {
-		fragmentNameStart := location + 1
-		fragmentNameEnd := fragmentNameStart + nameLen
-		if fragmentNameEnd >= ctxQueryResLen {
-			continue
+	// Read the type
+	typeNameStart := ctx.charNr
+	var typeNameEnd int
+	for {
+		if ctx.readInst() == 0 {
+			typeNameEnd = ctx.charNr - 1
+			break
 		}
-		if ctx.query.Res[fragmentNameEnd] == 0 && bytes.Equal(ctx.query.Res[fragmentNameStart:fragmentNameEnd], name) {
-			for _, activeFragment := range ctx.activeFragments {
-				if activeFragment == location {
-					return ctx.err("fragment " + b2s(name) + " cannot spread itself")
-				}
-			}
+	}
+
+	if !typeObj.matchesTypeCondition(ctx.query.Res[typeNameStart:typeNameEnd]) {
+		ctx.charNr = nameStart + int(lenOfDirective) + 1
+		return false
+	}
 
-			originalCharNr := ctx.charNr
-			ctx.charNr = fragmentNameEnd + 1
+	if ctx.activeFragments == nil {
+		ctx.activeFragments = map[int]bool{}
+	}
+	ctx.activeFragments[location] = true
+	criticalErr := ctx.resolveSelectionSet(typeObj, dept, firstField)
+	delete(ctx.activeFragments, location)
+	ctx.charNr = originalCharNr
+	return criticalErr
+}
 
-			// Read the type
-			typeNameStart := ctx.charNr
-			var typeNameEnd int
-			for {
-				if ctx.readInst() == 0 {
-					typeNameEnd = ctx.charNr - 1
-					break
-				}
-			}
+// findFragment returns the location of the fragment with this name
+func (ctx *Ctx) findFragment(name []byte) (location int, found bool) {
+	fragmentName := func(location int) []byte {
+		nameStart := location + 1
+		return ctx.query.Res[nameStart : nameStart+bytes.IndexByte(ctx.query.Res[nameStart:], 0)]
+	}
 
-			if !typeObj.matchesTypeCondition(ctx.query.Res[typeNameStart:typeNameEnd]) {
-				ctx.charNr = nameStart + int(lenOfDirective) + 1
-				return false
+	locations := ctx.query.FragmentLocations
+	if len(locations) <= 16 {
+		for _, location := range locations {
+			if bytes.Equal(fragmentName(location), name) {
+				return location, true
 			}
-
-			ctx.activeFragments = append(ctx.activeFragments, location)
-			criticalErr := ctx.resolveSelectionSet(typeObj, dept, firstField)
-			ctx.activeFragments = ctx.activeFragments[:len(ctx.activeFragments)-1]
-			ctx.charNr = originalCharNr
-			return criticalErr
 		}
+		return 0, false
 	}
 
-	return ctx.err("fragment " + b2s(name) + " not defined")
+	if ctx.fragments == nil {
+		ctx.fragments = make(map[string]int, len(locations))
+		for i := len(locations) - 1; i >= 0; i-- {
+			// Going backwards as the first fragment with a name is the one to use
+			ctx.fragments[b2s(fragmentName(locations[i]))] = locations[i]
+		}
+	}
+	location, found = ctx.fragments[b2s(name)]
+	return location, found
 }
 
 // matchesTypeCondition returns true if name is the name of this object or of an interface it implements
-- 
2.43.0


From dcce60301b4c017cbea2af066c46c832a1f8ac82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:34 +0000
Subject: [PATCH 65/71] fix: find operation arguments by name in constant time
 when there are many

---
 resolver.go | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index f310f6e..2382fa1 100644
--- a/resolver.go
+++ b/resolver.go
@@ -29,6 +29,7 @@ type Ctx struct {
 	getFormFile              func(key string) (*multipart.FileHeader, error) // Get form file to support file uploading
 	operatorHasArguments     bool
 	operatorArgumentsStartAt int
+	operatorArguments        map[string]int // Locations behind the names of the operator arguments, only set for operators with many arguments
 	fragments                map[string]int // Locations of the fragments by name, only set for queries with many fragments
 	tracingEnabled           bool
 	tracing                  *tracer
@@ -986,9 +987,22 @@ func (ctx *Ctx) findOperatorArgument(nameToFind string) (foundArgument bool) {
 		return false
 	}
 
+	if ctx.operatorArguments != nil {
+		location, found := ctx.operatorArguments[nameToFind]
+		if found {
+			ctx.charNr = location
+		}
+		return found
+	}
+
 	ctx.charNr = ctx.operatorArgumentsStartAt
 	ctx.skipInst(2)
-	for {
+	for count := 0; ; count++ {
+		if count == 16 {
+			ctx.indexOperatorArguments()
+			return ctx.findOperatorArgument(nameToFind)
+		}
+
 		startOfArg := ctx.charNr
 		if ctx.readInst() == 'e' {
 			return false
@@ -1014,6 +1028,32 @@ func (ctx *Ctx) findOperatorArgument(nameToFind string) (foundArgument bool) {
 	}
 }
 
+// indexOperatorArguments sets operatorArguments, so queries with many arguments don't have to be searched for every variable
+func (ctx *Ctx) indexOperatorArguments() {
+	ctx.operatorArguments = map[string]int{}
+
+	ctx.charNr = ctx.operatorArgumentsStartAt
+	ctx.skipInst(2)
+	for {
+		startOfArg := ctx.charNr
+		if ctx.readInst() == 'e' {
+			return
+		}
+		argLen := ctx.readUint32(ctx.charNr)
+		ctx.charNr += 4
+
+		nameStart := ctx.charNr
+		for ctx.readInst() != 0 {
+		}
+		name := b2s(ctx.query.Res[nameStart : ctx.charNr-1])
+		if _, ok := ctx.operatorArguments[name]; !ok {
+			ctx.operatorArguments[name] = ctx.charNr
+		}
+
+		ctx.charNr = startOfArg + int(argLen) + 1
+	}
+}
+
 func (ctx *Ctx) bindOperatorArgumentTo(goValue *reflect.Value, valueStructure *input, argumentName string) (valueSet bool, criticalErr bool) {
 	// TODO Check for the required flag (L & N)
 	// These flags are to identify if the argument is required or not
-- 
2.43.0


From 090567a9add7a81f122e1c7ecc35319958eaaca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:47 +0000
Subject: [PATCH 66/71] fix: find variables by name in constant time when there
 are many

---
 resolver.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/resolver.go b/resolver.go
index 2382fa1..1b4a655 100644
--- a/resolver.go
+++ b/resolver.go
@@ -38,6 +38,7 @@ type Ctx struct {
 	variablesParsed     bool             // the rawVariables are parsed into variables
 	variablesJSONParser *fastjson.Parser // Used to parse the variables
 	variables           *fastjson.Value  // Parsed variables, only use this if variablesParsed == true
+	variablesByName     map[string]*fastjson.Value // Only set if there are many variables
 
 	// Zero alloc values
 	reflectValues          []reflect.Value // Grows when needed, see setGoValue
@@ -1174,7 +1175,7 @@ func (ctx *Ctx) bindExternalVariableValue(goValue *reflect.Value, valueStructure
 		}
 	}
 
-	variable := ctx.variables.Get(argumentName)
+	variable := ctx.findVariable(argumentName)
 	if variable == nil {
 		return false, false, false
 	}
@@ -1183,6 +1184,27 @@ func (ctx *Ctx) bindExternalVariableValue(goValue *reflect.Value, valueStructure
 	return valueSet, true, criticalErr
 }
 
+func (ctx *Ctx) findVariable(name string) *fastjson.Value {
+	variables := ctx.variables.GetObject()
+	if variables == nil {
+		return nil
+	}
+	if variables.Len() <= 16 {
+		return variables.Get(name)
+	}
+
+	if ctx.variablesByName == nil {
+		// Get searches through all variables
+		ctx.variablesByName = make(map[string]*fastjson.Value, variables.Len())
+		variables.Visit(func(key []byte, value *fastjson.Value) {
+			if _, ok := ctx.variablesByName[string(key)]; !ok {
+				ctx.variablesByName[string(key)] = value
+			}
+		})
+	}
+	return ctx.variablesByName[name]
+}
+
 func (ctx *Ctx) bindJSONToValue(goValue *reflect.Value, valueStructure *input, jsonData *fastjson.Value) (valueSet bool, criticalErr bool) {
 	var isPtr bool
 	isPtr, valueSet, criticalErr = ctx.checkInputIsPtr(goValue, valueStructure, func(goValue *reflect.Value, input *input) (valueSet bool, criticalErr bool) {
-- 
2.43.0


From 31498848f4e4729d420517d6056c9ec6dfc2c590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:49 +0000
Subject: [PATCH 67/71] fix: keep a copy of the locations of a registered
 directive

---
 directives.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/directives.go b/directives.go
index fd14bfa..6df9b6a 100644
--- a/directives.go
+++ b/directives.go
@@ -95,6 +95,9 @@ func (s *Schema) RegisterDirective(directive Directive) error {
 		}
 	}
 
+	// The slice belongs to the caller who might change it
+	directive.Where = append([]DirectiveLocation{}, directive.Where...)
+
 	ptrToDirective := &directive
 	for _, location := range directive.Where {
 		s.definedDirectives[location] = append(s.definedDirectives[location], ptrToDirective)
-- 
2.43.0


From a7d86f46be795918ce22e37e57d3cdb5be45fb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:05 +0000
Subject: [PATCH 68/71] fix: assert: comparisons report the message of the
 caller as given

Greater, GreaterOrEqual, Less, LessOrEqual, Positive and Negative passed the
list of the message and its arguments on as a single argument, so that the
report had it unformatted and in brackets, or empty brackets without a message
---
 assert/assertion_compare.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/assert/assertion_compare.go b/assert/assertion_compare.go
index 7bd5a7a..3646aec 100644
--- a/assert/assertion_compare.go
+++ b/assert/assertion_compare.go
@@ -310,7 +310,7 @@ func compare(obj1, obj2 interface{}, kind reflect.Kind) (compareType, bool) {
 //    assert.Greater(t, float64(2), float64(1))
 //    assert.Greater(t, "b", "a")
 func Greater(t TestingT, e1 interface{}, e2 interface{}, msgAndArgs ...interface{}) bool {
-	return compareTwoValues(t, e1, e2, []compareType{compareGreater}, "\"%v\" is not greater than \"%v\"", msgAndArgs)
+	return compareTwoValues(t, e1, e2, []compareType{compareGreater}, "\"%v\" is not greater than \"%v\"", msgAndArgs...)
 }
 
 // GreaterOrEqual asserts that the first element is greater than or equal to the second
@@ -320,7 +320,7 @@ func Greater(t TestingT, e1 interface{}, e2 interface{}, msgAndArgs ...interface
 //    assert.GreaterOrEqual(t, "b", "a")
 //    assert.GreaterOrEqual(t, "b", "b")
 func GreaterOrEqual(t TestingT, e1 interface{}, e2 interface{}, msgAndArgs ...interface{}) bool {
-	return compareTwoValues(t, e1, e2, []compareType{compareGreater, compareEqual}, "\"%v\" is not greater than or equal to \"%v\"", msgAndArgs)
+	return compareTwoValues(t, e1, e2, []compareType{compareGreater, compareEqual}, "\"%v\" is not greater than or equal to \"%v\"", msgAndArgs...)
 }
 
 // Less asserts that the first element is less than the second
@@ -329,7 +329,7 @@ func GreaterOrEqual(t TestingT, e1 interface{}, e2 interface{}, msgAndArgs ...in
 //    assert.Less(t, float64(1), float64(2))
 //    assert.Less(t, "a", "b")
 func Less(t TestingT, e1 interface{}, e2 interface{}, msgAndArgs ...interface{}) bool {
-	return compareTwoValues(t, e1, e2, []compareType{compareLess}, "\"%v\" is not less than \"%v\"", msgAndArgs)
+	return compareTwoValues(t, e1, e2, []compareType{compareLess}, "\"%v\" is not less than \"%v\"", msgAndArgs...)
 }
 
 // LessOrEqual asserts that the first element is less than or equal to the second
@@ -339,7 +339,7 @@ func Less(t TestingT, e1 interface{}, e2 interface{}, msgAndArgs ...interface{})
 //    assert.LessOrEqual(t, "a", "b")
 //    assert.LessOrEqual(t, "b", "b")
 func LessOrEqual(t TestingT, e1 interface{}, e2 interface{}, msgAndArgs ...interface{}) bool {
-	return compareTwoValues(t, e1, e2, []compareType{compareLess, compareEqual}, "\"%v\" is not less than or equal to \"%v\"", msgAndArgs)
+	return compareTwoValues(t, e1, e2, []compareType{compareLess, compareEqual}, "\"%v\" is not less than or equal to \"%v\"", msgAndArgs...)
 }
 
 // Positive asserts that the specified element is positive
@@ -351,7 +351,7 @@ func Positive(t TestingT, e interface{}, msgAndArgs ...interface{}) bool {
 		return Fail(t, "Can not compare type nil", msgAndArgs...)
 	}
 	zero := reflect.Zero(reflect.TypeOf(e))
-	return compareTwoValues(t, e, zero.Interface(), []compareType{compareGreater}, "\"%v\" is not positive", msgAndArgs)
+	return compareTwoValues(t, e, zero.Interface(), []compareType{compareGreater}, "\"%v\" is not positive", msgAndArgs...)
 }
 
 // Negative asserts that the specified element is negative
@@ -363,7 +363,7 @@ func Negative(t TestingT, e interface{}, msgAndArgs ...interface{}) bool {
 		return Fail(t, "Can not compare type nil", msgAndArgs...)
 	}
 	zero := reflect.Zero(reflect.TypeOf(e))
-	return compareTwoValues(t, e, zero.Interface(), []compareType{compareLess}, "\"%v\" is not negative", msgAndArgs)
+	return compareTwoValues(t, e, zero.Interface(), []compareType{compareLess}, "\"%v\" is not negative", msgAndArgs...)
 }
 
 func compareTwoValues(t TestingT, e1 interface{}, e2 interface{}, allowedComparesResults []compareType, failMessage string, msgAndArgs ...interface{}) bool {
-- 
2.43.0


From 317b1534c95e02ca2430b4caf9c4b492a572609b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:06 +0000
Subject: [PATCH 69/71] fix: assert: InEpsilon and InEpsilonSlice do not lose
 the caller's message

---
 assert/assert.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/assert/assert.go b/assert/assert.go
index 90b959c..e9e0cca 100644
--- a/assert/assert.go
+++ b/assert/assert.go
@@ -650,7 +650,7 @@ func calcRelativeError(expected, actual interface{}) (float64, error) {
 // InEpsilon asserts that expected and actual have a relative error less than epsilon
 func InEpsilon(t TestingT, expected, actual interface{}, epsilon float64, msgAndArgs ...interface{}) bool {
 	if math.IsNaN(epsilon) {
-		return Fail(t, "epsilon must not be NaN")
+		return Fail(t, "epsilon must not be NaN", msgAndArgs...)
 	}
 	actualEpsilon, err := calcRelativeError(expected, actual)
 	if err != nil {
@@ -680,7 +680,7 @@ func InEpsilonSlice(t TestingT, expected, actual interface{}, epsilon float64, m
 	}
 
 	for i := 0; i < actualSlice.Len(); i++ {
-		result := InEpsilon(t, expectedSlice.Index(i).Interface(), actualSlice.Index(i).Interface(), epsilon)
+		result := InEpsilon(t, expectedSlice.Index(i).Interface(), actualSlice.Index(i).Interface(), epsilon, msgAndArgs...)
 		if !result {
 			return result
 		}
-- 
2.43.0


From 22f899307c2b54c1699791034381663fa8b721d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:24 +0000
Subject: [PATCH 70/71] fix: difflib: report when the end of a diff cannot be
 written

---
 assert/difflib/difflib.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/assert/difflib/difflib.go b/assert/difflib/difflib.go
index 7f9df22..6e28b1e 100644
--- a/assert/difflib/difflib.go
+++ b/assert/difflib/difflib.go
@@ -480,7 +480,6 @@ func formatRangeUnified(start, stop int) string {
 // The modification times are normally expressed in the ISO 8601 format.
 func WriteUnifiedDiff(writer io.Writer, a, b []string) error {
 	buf := bufio.NewWriter(writer)
-	defer buf.Flush()
 	wf := func(format string, args ...interface{}) error {
 		_, err := buf.WriteString(fmt.Sprintf(format, args...))
 		return err
@@ -536,7 +535,7 @@ func WriteUnifiedDiff(writer io.Writer, a, b []string) error {
 			}
 		}
 	}
-	return nil
+	return buf.Flush()
 }
 
 // GetUnifiedDiffString is Like WriteUnifiedDiff but returns the diff a string.
-- 
2.43.0


From d942104a1e7bb0cb8acce6df3b766c9d75cbea2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:25 +0000
Subject: [PATCH 71/71] fix: assert: Panics sees panics with nil

---
 assert/assert.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/assert/assert.go b/assert/assert.go
index e9e0cca..f28c58d 100644
--- a/assert/assert.go
+++ b/assert/assert.go
@@ -453,14 +453,14 @@ func NotEqual(t TestingT, expected, actual interface{}, msgAndArgs ...interface{
 
 // didPanic returns true if the function passed to it panics. Otherwise, it returns false.
 func didPanic(f func()) (bool, interface{}, string) {
-	didPanic := false
+	didPanic := true
 	var message interface{}
 	var stack string
 	func() {
 
 		defer func() {
-			if message = recover(); message != nil {
-				didPanic = true
+			message = recover()
+			if didPanic {
 				stack = string(debug.Stack())
 			}
 		}()
@@ -468,6 +468,9 @@ func didPanic(f func()) (bool, interface{}, string) {
 		// call the target function
 		f()
 
+		// not reached on a panic, also not when recover gives nil for panic(nil)
+		didPanic = false
+
 	}()
 
 	return didPanic, message, stack
-- 
2.43.0

