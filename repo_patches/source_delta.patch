From 092647f43f6bed5bd08e902bd213aa8bc527025a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:23 +0000
Subject: [PATCH 01/20] fix: sort errors by their real names

The Error type declared a 'name' field that hid the one of the embedded namedSupport,
which is the one set by SetName. It was always nil, so listing the errors of a version
that has two or more of them caused a nil pointer dereference.
---
 pkg/concepts/error.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pkg/concepts/error.go b/pkg/concepts/error.go
index 502bc64..25d3863 100644
--- a/pkg/concepts/error.go
+++ b/pkg/concepts/error.go
@@ -27,7 +27,6 @@ type Error struct {
 	namedSupport
 
 	owner *Version
-	name  *names.Name
 	code  int
 }
 
-- 
2.43.0


From 110f534b7de5560071ea270d472c7ace37bdd255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:23 +0000
Subject: [PATCH 02/20] fix: honor the value passed to the SetVariable method
 of locators

---
 pkg/concepts/locator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/concepts/locator.go b/pkg/concepts/locator.go
index dc67a18..538f8a6 100644
--- a/pkg/concepts/locator.go
+++ b/pkg/concepts/locator.go
@@ -56,7 +56,7 @@ func (l *Locator) Variable() bool {
 // SetVariable sets the flag that indicates if the name of the referenced resource is a variable
 // instead of a fixed URL segment.
 func (l *Locator) SetVariable(value bool) {
-	l.variable = true
+	l.variable = value
 }
 
 // Target returns the resource that is referenced by the locator.
-- 
2.43.0


From f887d33129310bb3af1cc9a5898bb5dc588786c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:23 +0000
Subject: [PATCH 03/20] fix: use only the current chunk for words without case
 pattern

Names like 'fooBar' were parsed as 'foobar_bar' because the complete text was used instead
of the chunk that was being processed.
---
 pkg/names/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/names/parser.go b/pkg/names/parser.go
index 749883c..658e97d 100644
--- a/pkg/names/parser.go
+++ b/pkg/names/parser.go
@@ -110,7 +110,7 @@ func ParseUsingCase(text string) *Name {
 			}
 
 			// Anything else is a word by itself:
-			word := parseWord(text)
+			word := parseWord(current)
 			words = append(words, word)
 			i++
 		}
-- 
2.43.0


From 2ca359ea9ea1919e5ed2265842b6cfaa6c1e344a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:23 +0000
Subject: [PATCH 04/20] fix: don't crash when a version has no root resource

---
 pkg/language/checks.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/language/checks.go b/pkg/language/checks.go
index 28c71b3..b56381d 100644
--- a/pkg/language/checks.go
+++ b/pkg/language/checks.go
@@ -48,7 +48,9 @@ func (r *Reader) checkVersion(version *concepts.Version) {
 	}
 
 	// Check that there are no loops in the tree of locators:
-	r.checkLocatorLoops(version)
+	if version.Root() != nil {
+		r.checkLocatorLoops(version)
+	}
 }
 
 func (r *Reader) checkResource(resource *concepts.Resource) {
-- 
2.43.0


From 7d61c0172b1478eec14eaea80e5045aab97a8b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:23 +0000
Subject: [PATCH 05/20] fix: don't crash when a locator has no target

The missing target is reported when the locator is loaded, but then the check of locator
loops tried to use it.
---
 pkg/language/checks.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/language/checks.go b/pkg/language/checks.go
index b56381d..05f0c21 100644
--- a/pkg/language/checks.go
+++ b/pkg/language/checks.go
@@ -603,6 +603,9 @@ func (r *Reader) checkLocatorPathLoops(path []*concepts.Locator) {
 	// the last locator. If there is such locator then there is a loop and we should not
 	// continue checking this path.
 	last := len(path) - 1
+	if path[last].Target() == nil {
+		return
+	}
 	first := -1
 	for i := last; i >= 0; i-- {
 		if path[i].Owner() == path[last].Target() {
-- 
2.43.0


From ff11d1514fc8fe1b8ea6efc928ae86849b8c6bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:23 +0000
Subject: [PATCH 06/20] fix: don't crash when the first line of a documentation
 comment is blank

---
 pkg/language/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 2972465..5c8404a 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -1093,6 +1093,9 @@ func (r *Reader) getDoc(token antlr.Token) string {
 		index := strings.IndexFunc(first, func(r rune) bool {
 			return !unicode.IsSpace(r)
 		})
+		if index < 0 {
+			index = 0
+		}
 		prefix := first[0:index]
 		for i, line := range lines {
 			if line != "" {
-- 
2.43.0


From cf04107a36a106c60ed25096eedef48b19b3b04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:54 +0000
Subject: [PATCH 07/20] fix: preserve comments when a file is loaded while
 processing another

Loading the service of a referenced type replaced the comments of the file that contains the
reference, so the documentation of the declarations that follow was lost or mixed.
---
 pkg/language/reader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 5c8404a..c9441a8 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -304,8 +304,13 @@ func (r *Reader) loadFile(path string) {
 	// Inform that the file is being loaded:
 	r.reporter.Infof("Loading file '%s'", path)
 
-	// Clear the map of comment lines:
+	// Clear the map of comment lines, and restore it when finished because this may be called
+	// while another file is being processed, for example to load a referenced type:
+	saved := comments
 	comments = map[int]string{}
+	defer func() {
+		comments = saved
+	}()
 
 	// Open the source file:
 	input, err := antlr.NewFileStream(path)
-- 
2.43.0


From 0646579a8e0d851bc8a6943a4cb4758468526d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:54 +0000
Subject: [PATCH 08/20] fix: report syntax errors instead of ignoring input or
 crashing

The file rule stops at the first token that can't start a declaration, so the rest of the
file was silently ignored. When there are syntax errors the tree contains missing nodes, and
processing it caused nil pointer dereferences.
---
 pkg/language/reader.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index c9441a8..968fe20 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -338,7 +338,20 @@ func (r *Reader) loadFile(path string) {
 	parser := NewModelParser(stream)
 	parser.RemoveErrorListeners()
 	parser.AddErrorListener(listener)
+	errors := r.reporter.Errors()
 	tree := parser.File()
+	next := stream.LT(1)
+	if next.GetTokenType() != antlr.TokenEOF {
+		r.reporter.Errorf(
+			"Line %d, column %d: unexpected input '%s'",
+			next.GetLine(), next.GetColumn(), next.GetText(),
+		)
+	}
+
+	// If there are syntax errors then the tree is not complete and can't be processed:
+	if r.reporter.Errors() > errors {
+		return
+	}
 	antlr.ParseTreeWalkerDefault.Walk(r, tree)
 }
 
-- 
2.43.0


From 6342b0a8823716de75e0b739030e34de2b0fe676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:54 +0000
Subject: [PATCH 09/20] fix: don't mix undefined concepts of different versions

Defining a type, resource or error in one version removed the mark of the undefined concept
of the same name of other version, so it wasn't reported.
---
 pkg/language/reader.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 968fe20..2f1fc34 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -53,7 +53,8 @@ type Reader struct {
 	service *concepts.Service
 	version *concepts.Version
 
-	// Concepts that aren't completely defined yet:
+	// Concepts that aren't completely defined yet. The keys contain the version because the same
+	// name may be used in multiple versions:
 	undefinedTypes     map[string]*concepts.Type
 	undefinedResources map[string]*concepts.Resource
 	undefinedErrors    map[string]*concepts.Error
@@ -1027,51 +1028,56 @@ func (r *Reader) ExitAnnotationParameter(ctx *AnnotationParameterContext) {
 	ctx.SetValue(ctx.Literal().GetResult())
 }
 
+// undefinedKey calculates the key used to store an undefined concept of the current version.
+func (r *Reader) undefinedKey(name *names.Name) string {
+	return fmt.Sprintf("%s/%s/%s", r.service.Name(), r.version.Name(), name)
+}
+
 func (r *Reader) isUndefinedType(typ *concepts.Type) bool {
-	key := typ.Name().String()
+	key := r.undefinedKey(typ.Name())
 	_, ok := r.undefinedTypes[key]
 	return ok
 }
 
 func (r *Reader) addUndefinedType(typ *concepts.Type) {
-	key := typ.Name().String()
+	key := r.undefinedKey(typ.Name())
 	r.undefinedTypes[key] = typ
 }
 
 func (r *Reader) removeUndefinedType(typ *concepts.Type) {
-	key := typ.Name().String()
+	key := r.undefinedKey(typ.Name())
 	delete(r.undefinedTypes, key)
 }
 
 func (r *Reader) isUndefinedResource(resource *concepts.Resource) bool {
-	key := resource.Name().String()
+	key := r.undefinedKey(resource.Name())
 	_, ok := r.undefinedResources[key]
 	return ok
 }
 
 func (r *Reader) addUndefinedResource(resource *concepts.Resource) {
-	key := resource.Name().String()
+	key := r.undefinedKey(resource.Name())
 	r.undefinedResources[key] = resource
 }
 
 func (r *Reader) removeUndefinedResource(typ *concepts.Resource) {
-	key := typ.Name().String()
+	key := r.undefinedKey(typ.Name())
 	delete(r.undefinedResources, key)
 }
 
 func (r *Reader) isUndefinedError(err *concepts.Error) bool {
-	key := err.Name().String()
+	key := r.undefinedKey(err.Name())
 	_, ok := r.undefinedErrors[key]
 	return ok
 }
 
 func (r *Reader) addUndefinedError(err *concepts.Error) {
-	key := err.Name().String()
+	key := r.undefinedKey(err.Name())
 	r.undefinedErrors[key] = err
 }
 
 func (r *Reader) removeUndefinedError(typ *concepts.Error) {
-	key := typ.Name().String()
+	key := r.undefinedKey(typ.Name())
 	delete(r.undefinedErrors, key)
 }
 
-- 
2.43.0


From a584ae53f2852a5d118a1777c397cbe55ebe3056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:44 +0000
Subject: [PATCH 10/20] fix: report references that can't be resolved instead
 of crashing

References with missing components, or to services, versions or types that don't exist, or
used with other than one input, caused a panic or were silently ignored.
---
 pkg/language/reader.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/pkg/language/reader.go b/pkg/language/reader.go
index 2f1fc34..557028d 100644
--- a/pkg/language/reader.go
+++ b/pkg/language/reader.go
@@ -479,12 +479,24 @@ func (r *Reader) removeLinkedAttributes(typ *concepts.Type) {
 }
 
 func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
-	if len(r.inputs) > 1 {
-		panic("referenced service with multiple inputs in undefined")
+	if len(r.inputs) != 1 {
+		r.reporter.Errorf(
+			"Reference '%s' of type '%s' can't be resolved because that requires exactly "+
+				"one input but there are %d",
+			path, typ.Name(), len(r.inputs),
+		)
+		return
 	}
 	input := r.inputs[0]
 	path = strings.TrimPrefix(path, "/")
 	components := strings.Split(path, "/")
+	if len(components) != 3 {
+		r.reporter.Errorf(
+			"Reference '%s' of type '%s' should contain service, version and type",
+			path, typ.Name(),
+		)
+		return
+	}
 	referencedServiceName := components[0]
 	referencedVersion := components[1]
 	referencedTypeName := components[2]
@@ -501,11 +513,26 @@ func (r *Reader) handleClassRef(typ *concepts.Type, path string) {
 
 	// load the ad-hoc service and version referenced and find the correct type.
 	refReader.loadService(fmt.Sprintf("%s/%s", input, referencedServiceName))
+	if refReader.service == nil {
+		return
+	}
 	refVersion := refReader.service.FindVersion(names.ParseUsingSeparator(referencedVersion, "_"))
+	if refVersion == nil {
+		r.reporter.Errorf(
+			"Version '%s' referenced by type '%s' doesn't exist",
+			referencedVersion, typ.Name(),
+		)
+		return
+	}
 	// Once loading the service, we find the reference type
 	// then recursively iterate the type tree and add the types to the current version.
 	if referencedType := refVersion.FindType(names.ParseUsingSeparator(referencedTypeName, "_")); referencedType != nil {
 		r.recursivelyAddTypeToVersion(typ, referencedType)
+	} else {
+		r.reporter.Errorf(
+			"Type '%s' referenced by type '%s' doesn't exist",
+			referencedTypeName, typ.Name(),
+		)
 	}
 }
 
-- 
2.43.0


From dc34930cd7a12bde7dcc50463bd8eff669961f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:38 +0000
Subject: [PATCH 11/20] fix: honor the value passed to the Link method of
 generated builders

---
 pkg/generators/golang/builders_generator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/golang/builders_generator.go b/pkg/generators/golang/builders_generator.go
index 643d3d1..2fc7e84 100644
--- a/pkg/generators/golang/builders_generator.go
+++ b/pkg/generators/golang/builders_generator.go
@@ -242,7 +242,11 @@ func (g *BuildersGenerator) generateStructBuilderSource(typ *concepts.Type) {
 		{{ if .Type.IsClass }}
 			// Link sets the flag that indicates if this is a link.
 			func (b *{{ $builderName }}) Link(value bool) *{{ $builderName }} {
-				b.bitmap_ |= 1
+				if value {
+					b.bitmap_ |= 1
+				} else {
+					b.bitmap_ &^= 1
+				}
 				return b
 			}
 
-- 
2.43.0


From b3248c130a3c847cc7be592d2bd40416ba661b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:38 +0000
Subject: [PATCH 12/20] fix: honor the JSON annotation in names of OpenAPI body
 parameters

The clients use the name of the annotation for the fields of the body.
---
 pkg/generators/openapi/names_calculator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/openapi/names_calculator.go b/pkg/generators/openapi/names_calculator.go
index 00ad681..ae3a9c2 100644
--- a/pkg/generators/openapi/names_calculator.go
+++ b/pkg/generators/openapi/names_calculator.go
@@ -90,5 +90,9 @@ func (c *NamesCalculator) AttributePropertyName(attribute *concepts.Attribute) s
 
 // ParameterPropertyName calculates the property name for an parameter of a method.
 func (c *NamesCalculator) ParameterPropertyName(parameter *concepts.Parameter) string {
-	return parameter.Name().Snake()
+	name := annotations.JSONName(parameter)
+	if name == "" {
+		name = parameter.Name().Snake()
+	}
+	return name
 }
-- 
2.43.0


From 525616f0041a2fb4e95f103e36d1986e658ff492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:22 +0000
Subject: [PATCH 13/20] fix: presence mask of the 64th flag of a generated type

---
 pkg/generators/golang/types_calculator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/golang/types_calculator.go b/pkg/generators/golang/types_calculator.go
index 1e11bac..649af51 100644
--- a/pkg/generators/golang/types_calculator.go
+++ b/pkg/generators/golang/types_calculator.go
@@ -484,7 +484,7 @@ func (c *TypesCalculator) BitMask(attribute *concepts.Attribute) string {
 	}
 
 	// Calculate the mask:
-	mask := 1 << index
+	mask := uint64(1) << index
 	return fmt.Sprintf("%d", mask)
 }
 
-- 
2.43.0


From e0d0677fcc3609f2d979a42fde7590e8c18ddeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:31 +0000
Subject: [PATCH 14/20] fix: generated code stopped reading maps at an empty
 key

---
 pkg/generators/golang/json_generator.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index 66fac4b..60d73cf 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -1376,14 +1376,11 @@ func (g *JSONSupportGenerator) generateReadValue(variable string, typ *concepts.
 			{{ end }}
 		{{ else if .Type.IsMap }}
 			{{ .Variable }} := {{ valueReference .Type }}{}
-			for {
-				key := iterator.ReadObject()
-				if key == "" {
-					break
-				}
+			iterator.ReadMapCB(func(iterator *jsoniter.Iterator, key string) bool {
 				{{ generateReadValue "item" .Type.Element false .LinkOwner }}
 				{{ .Variable }}[key] = item
-			}
+				return true
+			})
 		{{ else }}
 			iterator.ReadAny()
 		{{ end }}
-- 
2.43.0


From 8d1ed93c42904fe8daf6ab202ffd35863d4e1c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:48 +0000
Subject: [PATCH 15/20] fix: copies of generated objects lost empty maps

---
 pkg/generators/golang/builders_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/golang/builders_generator.go b/pkg/generators/golang/builders_generator.go
index 2fc7e84..1d60e0a 100644
--- a/pkg/generators/golang/builders_generator.go
+++ b/pkg/generators/golang/builders_generator.go
@@ -371,7 +371,7 @@ func (g *BuildersGenerator) generateStructBuilderSource(typ *concepts.Type) {
 						b.{{ $fieldName }} = nil
 					}
 				{{ else if .Type.IsMap }}
-					if len(object.{{ $fieldName }}) > 0 {
+					if object.{{ $fieldName }} != nil {
 						{{ if .Type.Element.IsScalar }}
 							b.{{ $fieldName }} = {{ $fieldType }}{}
 							for k, v := range object.{{ $fieldName }} {
-- 
2.43.0


From 53451ef316a713a11e195ee536c5a4cd0b1f088b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:41 +0000
Subject: [PATCH 16/20] fix: output parameters of type Interface in generated
 clients

---
 pkg/generators/golang/clients_generator.go | 8 ++++----
 pkg/generators/golang/json_generator.go    | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/generators/golang/clients_generator.go b/pkg/generators/golang/clients_generator.go
index 994d78c..b1543ff 100644
--- a/pkg/generators/golang/clients_generator.go
+++ b/pkg/generators/golang/clients_generator.go
@@ -976,12 +976,12 @@ func (g *ClientsGenerator) generateResponseSource(method *concepts.Method) {
 			//
 			{{ lineComment .Doc }}
 			func (r *{{ $responseName }}) {{ $getterName }}() {{ $getterType }} {
-				{{ if .Type.IsScalar }}
+				{{ if and .Type.IsScalar (not .Type.IsInterface) }}
 					if r != nil && r.{{ $fieldName }} != nil {
 						return *r.{{ $fieldName }}
 					}
 					return {{ zeroValue .Type }}
-				{{ else if or .Type.IsStruct .Type.IsList .Type.IsMap }}
+				{{ else if or .Type.IsInterface .Type.IsStruct .Type.IsList .Type.IsMap }}
 					if r == nil {
 						return nil
 					}
@@ -996,9 +996,9 @@ func (g *ClientsGenerator) generateResponseSource(method *concepts.Method) {
 			func (r *{{ $responseName }}) Get{{ $getterName }}() (value {{ $getterType }}, ok bool) {
 				ok = r != nil && r.{{ $fieldName }} != nil
 				if ok {
-					{{ if .Type.IsScalar }}
+					{{ if and .Type.IsScalar (not .Type.IsInterface) }}
 						value = *r.{{ $fieldName }}
-					{{ else if or .Type.IsStruct .Type.IsList .Type.IsMap }}
+					{{ else if or .Type.IsInterface .Type.IsStruct .Type.IsList .Type.IsMap }}
 						value = r.{{ $fieldName }}
 					{{ end }}
 				}
diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index 60d73cf..8be2bf5 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -1306,7 +1306,7 @@ func (g *JSONSupportGenerator) generateReadBodyParameter(object string,
 	return g.buffer.Eval(`
 		case "{{ .Tag }}":
 			{{ generateReadValue "value" .Type false .LinkOwner }}
-			{{ if .Type.IsScalar }}
+			{{ if and .Type.IsScalar (not .Type.IsInterface) }}
 				{{ .Object }}.{{ .Field }} = &value
 			{{ else }}
 				{{ .Object }}.{{ .Field }} = value
-- 
2.43.0


From 1301cff4ad7308f4a6b1b18f099ec3bcca6382d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:31 +0000
Subject: [PATCH 17/20] fix: code generated for structs without attributes
 didn't compile

---
 pkg/generators/golang/json_generator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/generators/golang/json_generator.go b/pkg/generators/golang/json_generator.go
index 8be2bf5..a61192e 100644
--- a/pkg/generators/golang/json_generator.go
+++ b/pkg/generators/golang/json_generator.go
@@ -605,7 +605,9 @@ func (g *JSONSupportGenerator) generateStructTypeSource(typ *concepts.Type) {
 
 		// {{ $writeTypeFunc }} writes a value of the '{{ .Type.Name }}' type to the given stream.
 		func {{ $writeTypeFunc }}(object *{{ $structName }}, stream *jsoniter.Stream) {
-			count := 0
+			{{ if or .Type.IsClass .Type.Attributes }}
+				count := 0
+			{{ end }}
 			stream.WriteObjectStart()
 			{{ if .Type.IsClass }}
 				stream.WriteObjectField("kind")
-- 
2.43.0


From 7b6c09f6ce5bead607e2382fa83299002cc9858a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:49 +0000
Subject: [PATCH 18/20] fix: import path of the metrics package

It was the one of the helpers package.
---
 pkg/generators/golang/packages_calculator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/golang/packages_calculator.go b/pkg/generators/golang/packages_calculator.go
index 4d58aaa..7d2f92a 100644
--- a/pkg/generators/golang/packages_calculator.go
+++ b/pkg/generators/golang/packages_calculator.go
@@ -129,7 +129,7 @@ func (g *PackagesCalculator) MetricsPackage() string {
 
 // MetricsImport returns complete import path of the metrics package.
 func (g *PackagesCalculator) MetricsImport() string {
-	return path.Join(g.base, g.HelpersPackage())
+	return path.Join(g.base, g.MetricsPackage())
 }
 
 // ErrorsPackage returns the name of the errors package.
-- 
2.43.0


From e7e5d82f41646941fd7ed7eca89b5f8c9fdc47be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:06 +0000
Subject: [PATCH 19/20] fix: methods of the root resource lost in the OpenAPI
 specification

The path of the root resource is the one of the metadata, so it was generated twice.
---
 pkg/generators/openapi/openapi_generator.go | 23 ++++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pkg/generators/openapi/openapi_generator.go b/pkg/generators/openapi/openapi_generator.go
index 998552e..08abe60 100644
--- a/pkg/generators/openapi/openapi_generator.go
+++ b/pkg/generators/openapi/openapi_generator.go
@@ -233,10 +233,7 @@ func (g *OpenAPIGenerator) generatePaths(version *concepts.Version) {
 	// Generate the specification:
 	g.buffer.StartObject("paths")
 
-	// Add the metadata path:
-	g.generateMetadataPath(version)
-
-	// Add the path for the root resource:
+	// Add the path for the root resource, which is also the path of the metadata:
 	empty := []*concepts.Locator{}
 	root := g.absolutePath(version, empty)
 	g.generateResourcePaths(root, empty, version.Root())
@@ -251,8 +248,7 @@ func (g *OpenAPIGenerator) generatePaths(version *concepts.Version) {
 	g.buffer.EndObject()
 }
 
-func (g *OpenAPIGenerator) generateMetadataPath(version *concepts.Version) {
-	g.buffer.StartObject(g.absolutePath(version, nil))
+func (g *OpenAPIGenerator) generateMetadataMethod() {
 	g.buffer.StartObject("get")
 	g.generateDescription("Retrieves the version metadata.")
 	g.buffer.StartObject("responses")
@@ -278,7 +274,6 @@ func (g *OpenAPIGenerator) generateMetadataPath(version *concepts.Version) {
 	g.buffer.EndObject()
 	g.buffer.EndObject()
 	g.buffer.EndObject()
-	g.buffer.EndObject()
 }
 
 func (g *OpenAPIGenerator) generateResourcePaths(prefix string,
@@ -296,9 +291,21 @@ func (g *OpenAPIGenerator) generateResourcePaths(prefix string,
 		}
 	}
 
+	// The metadata is retrieved from the path of the root resource, unless the root resource has its
+	// own method for that:
+	metadata := resource.IsRoot()
+	for _, method := range without {
+		if g.binding.Method(method) == "GET" {
+			metadata = false
+		}
+	}
+
 	// Methods that don't have their own URL segment share the same path object:
-	if len(without) > 0 {
+	if metadata || len(without) > 0 {
 		g.buffer.StartObject(prefix)
+		if metadata {
+			g.generateMetadataMethod()
+		}
 		for _, method := range without {
 			g.generateMethod(path, method)
 		}
-- 
2.43.0


From 341d7cd7d9388728f3828b7ee8a1c1e31ab5a2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:43 +0000
Subject: [PATCH 20/20] fix: setters of map parameters of the generated clients
 didn't compile

---
 pkg/generators/golang/clients_generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/generators/golang/clients_generator.go b/pkg/generators/golang/clients_generator.go
index b1543ff..22f3746 100644
--- a/pkg/generators/golang/clients_generator.go
+++ b/pkg/generators/golang/clients_generator.go
@@ -819,7 +819,7 @@ func (g *ClientsGenerator) generateRequestSource(method *concepts.Method) {
 			//
 			{{ lineComment .Doc }}
 			func (r *{{ $requestName }}) {{ $setterName }}(value {{ $setterType }}) *{{ $requestName }} {
-				{{ if or .Type.IsStruct .Type.IsList }}
+				{{ if or .Type.IsStruct .Type.IsList .Type.IsMap }}
 					r.{{ $fieldName }} = value
 				{{ else }}
 					r.{{ $fieldName }} = &value
-- 
2.43.0

