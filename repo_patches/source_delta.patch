From 7c1bc6ebffe628eaa77a2a4a6cbf74387b027d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 01/19] fix: stop skipping a comment when the reader fails

skipLineComment and skipBlockComment only stopped on io.EOF, so any other
read error inside a comment made the lexer spin for ever.
---
 lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer.go b/lexer.go
index 235197c..b2e063d 100644
--- a/lexer.go
+++ b/lexer.go
@@ -301,7 +301,7 @@ func (lex *MyLexer) skipLineComment() {
 	lastIsHyphen := false
 	for {
 		r, _, err := lex.readRune()
-		if isNewline(r) || err == io.EOF {
+		if isNewline(r) || err != nil {
 			return
 		} else if r == '-' {
 			if lastIsHyphen {
@@ -319,7 +319,7 @@ func (lex *MyLexer) skipBlockComment() {
 	lastIsClosingStar := false
 	for {
 		r, _, err := lex.readRune()
-		if err == io.EOF {
+		if err != nil {
 			return
 		}
 		if r == '/' {
-- 
2.43.0


From e4b8f979ae5338714bd34cd617c3c923ac06c38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:28 +0000
Subject: [PATCH 02/19] fix: peekRunes must stop at any read error and not
 slice past the data

A short Peek result was sliced beyond its length before the error was looked
at (panic when the last byte of a full buffer arrives together with io.EOF),
and errors other than io.EOF made the loop spin for ever.
---
 lexer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lexer.go b/lexer.go
index b2e063d..68a1e13 100644
--- a/lexer.go
+++ b/lexer.go
@@ -273,17 +273,17 @@ func (lex *MyLexer) peekRunes(n int) string {
 	for n > 0 {
 		for l := 1; l <= utf8.UTFMax; l++ {
 			buf, err := lex.bufReader.Peek(pos + l)
+			if err != nil { // TODO if it is not a full rune, will swallow the error
+				return acc.String()
+			}
 			slice := buf[pos : pos+l]
-			if pos+l <= len(buf) && utf8.FullRune(slice) {
+			if utf8.FullRune(slice) {
 				r, size := utf8.DecodeRune(slice)
 				acc.WriteRune(r)
 				pos += size
 				n -= 1
 				break
 			}
-			if err == io.EOF { // TODO if it is not a full rune, will swallow the error
-				return acc.String()
-			}
 		}
 	}
 	return acc.String()
-- 
2.43.0


From 4a3160cfd1587bdfd5c51ab5e1af6e55da2dbef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 03/19] fix: report read errors from ParseStream instead of
 losing them

bufio.Reader reports an error once. Errors met while looking ahead, inside
comments or after the last token were dropped (the parse succeeded, or the
reader was asked again and the text around the error was joined), others came
out as a syntax error about an unexpected end of input. Remember the first
error of the reader and return it.
---
 parser.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 47b1bc6..2816804 100644
--- a/parser.go
+++ b/parser.go
@@ -2,6 +2,7 @@ package asn1go
 
 import (
 	"bufio"
+	"fmt"
 	"io"
 	"math"
 	"os"
@@ -20,8 +21,12 @@ func ParseString(str string) (*ModuleDefinition, error) {
 // ParseStream reads text of ASN.1 definitions from provided reader and parses it into ASN.1 AST.
 func ParseStream(reader io.Reader) (*ModuleDefinition, error) {
 	lex := &MyLexer{}
-	lex.bufReader = bufio.NewReader(reader)
+	input := &stickyErrorReader{reader: reader}
+	lex.bufReader = bufio.NewReader(input)
 	yyParse(lex)
+	if input.err != nil && input.err != io.EOF {
+		return nil, fmt.Errorf("line %v: failed to read: %w", lex.lineNo+1, input.err)
+	}
 	if lex.err != nil {
 		return nil, lex.err
 	}
@@ -49,3 +54,25 @@ func parseRealNumber(integer Number, fraction Number, exponent Number) Real {
 	}
 	return Real(value)
 }
+
+// maxEmptyReads is the number of consecutive empty reads after which stickyErrorReader gives up.
+const maxEmptyReads = 100
+
+// stickyErrorReader remembers the first error returned by the underlying reader, and keeps returning it.
+// Lexer looks ahead in the input, and bufio.Reader reports each error only once, so without it
+// an error met while looking ahead would be lost.
+type stickyErrorReader struct {
+	reader io.Reader
+	err    error
+}
+
+// Read implements io.Reader. It never returns an empty read without an error.
+func (r *stickyErrorReader) Read(p []byte) (n int, err error) {
+	for i := 0; n == 0 && r.err == nil && i < maxEmptyReads; i++ {
+		n, r.err = r.reader.Read(p)
+	}
+	if n == 0 && r.err == nil {
+		r.err = io.ErrNoProgress
+	}
+	return n, r.err
+}
-- 
2.43.0


From 7a133fc5043a3360397daeecc4c5780569caa8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 04/19] fix: consume the whole opening delimiter of a comment

The second character of '--' and '/*' was read again as comment content, so
'---' was a complete comment whose text was parsed as definitions, and '/*/'
closed itself.
---
 lexer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lexer.go b/lexer.go
index 68a1e13..ae3fd8d 100644
--- a/lexer.go
+++ b/lexer.go
@@ -131,10 +131,12 @@ func (lex *MyLexer) Lex(lval *yySymType) int {
 			lastWasNumber = false
 			continue
 		} else if r == '-' && lex.peekRune() == '-' {
+			lex.discard(1)
 			lex.skipLineComment()
 			lastWasNumber = false
 			continue
 		} else if r == '/' && lex.peekRune() == '*' {
+			lex.discard(1)
 			lex.skipBlockComment()
 			lastWasNumber = false
 			continue
-- 
2.43.0


From 75b7ed5f898606917504630847df569b131c10d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 05/19] fix: keep DEFAULT values and leading references of
 object identifiers

Both pointed into the parser's value stack, whose slots are reused while the
rest of the module is parsed, so every DEFAULT value was lost or replaced.
---
 asn1.y | 4 ++--
 y.go   | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/asn1.y b/asn1.y
index e3ebfb9..c32c9c4 100644
--- a/asn1.y
+++ b/asn1.y
@@ -735,7 +735,7 @@ ComponentTypeList : ComponentType  { $$ = append(make(ComponentTypeList, 0), $1)
 
 ComponentType : NamedType  { $$ = NamedComponentType{NamedType: $1} }
               | NamedType OPTIONAL  { $$ = NamedComponentType{NamedType: $1, IsOptional: true} }
-              | NamedType DEFAULT Value  { $$ = NamedComponentType{NamedType: $1, Default: &$3} }
+              | NamedType DEFAULT Value  { cpy := $3; $$ = NamedComponentType{NamedType: $1, Default: &cpy} }
               | COMPONENTS OF Type  { $$ = ComponentsOfComponentType{Type: $3} }
 ;
 
@@ -825,7 +825,7 @@ ObjectIdentifierType : OBJECT IDENTIFIER  { $$ = ObjectIdentifierType{} }
 // 31.3
 
 ObjectIdentifierValue : OPEN_CURLY ObjIdComponentsList CLOSE_CURLY  { $$ = $2 }
-                      | OPEN_CURLY DefinedValue ObjIdComponentsList CLOSE_CURLY  { $$ = append(ObjectIdentifierValue{ObjectIdElement{Reference: &$2}}, $3...) }
+                      | OPEN_CURLY DefinedValue ObjIdComponentsList CLOSE_CURLY  { cpy := $2; $$ = append(ObjectIdentifierValue{ObjectIdElement{Reference: &cpy}}, $3...) }
 ;
 
 ObjIdComponentsList :  ObjIdComponents  { $$ = ObjectIdentifierValue{$1}  }
diff --git a/y.go b/y.go
index 89762b0..7a09dd6 100644
--- a/y.go
+++ b/y.go
@@ -1670,7 +1670,8 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line asn1.y:738
 		{
-			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, Default: &yyDollar[3].Value}
+			cpy := yyDollar[3].Value
+			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, Default: &cpy}
 		}
 	case 153:
 		yyDollar = yyS[yypt-3 : yypt+1]
@@ -1874,7 +1875,8 @@ yydefault:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line asn1.y:828
 		{
-			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{ObjectIdElement{Reference: &yyDollar[2].DefinedValue}}, yyDollar[3].ObjectIdentifierValue...)
+			cpy := yyDollar[2].DefinedValue
+			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{ObjectIdElement{Reference: &cpy}}, yyDollar[3].ObjectIdentifierValue...)
 		}
 	case 189:
 		yyDollar = yyS[yypt-1 : yypt+1]
-- 
2.43.0


From f91183019aa789c2ca59a3bc8cba17278d38bc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:35 +0000
Subject: [PATCH 06/19] fix: respect leading zeros in the fraction of a REAL
 value

1.05 was parsed as 1.5 and 3.10 as 4: the fraction went through an integer, so
its leading zeros were lost, and fractions that are powers of ten were scaled
wrongly.
---
 asn1.y    |  6 +++---
 parser.go | 20 ++++++++++----------
 y.go      |  6 +++---
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/asn1.y b/asn1.y
index c32c9c4..9bb026c 100644
--- a/asn1.y
+++ b/asn1.y
@@ -648,9 +648,9 @@ SpecialRealValue : PLUS_INFINITY  { $$ = Real(math.Inf(1)) }
 
 // TODO this seem to be not strict enough (spaces can sneak in into composite value)
 realnumber : NUMBER  { $$ = parseRealNumber($1, 0, 0) }
-           | NUMBER DOT NUMBER  { $$ = parseRealNumber($1, $3, 0) }
-           | NUMBER DOT NUMBER EXPONENT SignedExponent  { $$ = parseRealNumber($1, $3, $5) }
-           | NUMBER EXPONENT SignedExponent  { $$ = parseRealNumber($1, 0, $3) }
+           | NUMBER DOT NUMBER  { $$ = parseRealLiteral($<numberRepr>1, $<numberRepr>3, 0) }
+           | NUMBER DOT NUMBER EXPONENT SignedExponent  { $$ = parseRealLiteral($<numberRepr>1, $<numberRepr>3, $5) }
+           | NUMBER EXPONENT SignedExponent  { $$ = parseRealLiteral($<numberRepr>1, "0", $3) }
 ;
 
 SignedExponent : NUMBER
diff --git a/parser.go b/parser.go
index 2816804..b7ef028 100644
--- a/parser.go
+++ b/parser.go
@@ -4,8 +4,8 @@ import (
 	"bufio"
 	"fmt"
 	"io"
-	"math"
 	"os"
+	"strconv"
 	"strings"
 )
 
@@ -43,18 +43,18 @@ func ParseFile(name string) (*ModuleDefinition, error) {
 	return ParseStream(file)
 }
 
-func parseRealNumber(integer Number, fraction Number, exponent Number) Real {
-	value := float64(integer)
-	if fraction != 0 {
-		shift := float64(math.Pow10(int(math.Ceil(math.Log10(float64(fraction))))))
-		value += float64(fraction) / shift
-	}
-	if exponent != 0 {
-		value *= math.Pow10(int(exponent))
-	}
+// parseRealLiteral converts real number literal to a value, given texts of its integer and fractional parts.
+// Text of the fraction is needed because its leading zeros are significant.
+func parseRealLiteral(integer string, fraction string, exponent Number) Real {
+	// Error can only signify overflow, value is infinity of the right sign in this case.
+	value, _ := strconv.ParseFloat(fmt.Sprintf("%v.%ve%v", integer, fraction, exponent), 64)
 	return Real(value)
 }
 
+func parseRealNumber(integer Number, fraction Number, exponent Number) Real {
+	return parseRealLiteral(fmt.Sprint(integer), fmt.Sprint(fraction), exponent)
+}
+
 // maxEmptyReads is the number of consecutive empty reads after which stickyErrorReader gives up.
 const maxEmptyReads = 100
 
diff --git a/y.go b/y.go
index 7a09dd6..b16f2f2 100644
--- a/y.go
+++ b/y.go
@@ -1502,19 +1502,19 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line asn1.y:651
 		{
-			yyVAL.Real = parseRealNumber(yyDollar[1].Number, yyDollar[3].Number, 0)
+			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, yyDollar[3].numberRepr, 0)
 		}
 	case 115:
 		yyDollar = yyS[yypt-5 : yypt+1]
 //line asn1.y:652
 		{
-			yyVAL.Real = parseRealNumber(yyDollar[1].Number, yyDollar[3].Number, yyDollar[5].Number)
+			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, yyDollar[3].numberRepr, yyDollar[5].Number)
 		}
 	case 116:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line asn1.y:653
 		{
-			yyVAL.Real = parseRealNumber(yyDollar[1].Number, 0, yyDollar[3].Number)
+			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, "0", yyDollar[3].Number)
 		}
 	case 118:
 		yyDollar = yyS[yypt-2 : yypt+1]
-- 
2.43.0


From 062354bf73d6a6b809ce57b140f3a2f48aa46b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:59 +0000
Subject: [PATCH 07/19] fix: report circular type references instead of
 overflowing the stack

A ::= B, B ::= A made unwrapToLeafType recurse for ever.
---
 codegen.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/codegen.go b/codegen.go
index 005441d..f73dbc6 100644
--- a/codegen.go
+++ b/codegen.go
@@ -544,11 +544,17 @@ func (ctx *moduleContext) removeWrapperTypes(t Type) Type {
 }
 
 // unwrapToLeafType walks over transitive type references, tags and constraints and yields "root" type reference
+// Circular references have no root, and yield unresolved TypeAssignment as undeclared types do.
 func (ctx *moduleContext) unwrapToLeafType(reference TypeReference) TypeAssignment {
-	if assignment := ctx.lookupContext.AssignmentList.GetType(reference.Name()); assignment != nil {
+	// chain longer than number of assignments visits one of them twice
+	for range ctx.lookupContext.AssignmentList {
+		assignment := ctx.lookupContext.AssignmentList.GetType(reference.Name())
+		if assignment == nil {
+			break
+		}
 		t := assignment.Type
 		if tt, ok := ctx.removeWrapperTypes(t).(TypeReference); ok {
-			return ctx.unwrapToLeafType(tt)
+			reference = tt
 		} else {
 			return *assignment
 		}
-- 
2.43.0


From 5cd5236973a544a2edd0d8b6ff1048db61d2ffa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:00 +0000
Subject: [PATCH 08/19] fix: import encoding/asn1 for CHOICE types with tagged
 alternatives

They are generated as asn1.RawValue, but the package was only imported when
some other type of the module needed it.
---
 codegen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codegen.go b/codegen.go
index f73dbc6..0342918 100644
--- a/codegen.go
+++ b/codegen.go
@@ -336,6 +336,7 @@ func numberToExpr(val Number, repr IntegerRepr) goast.Expr {
 
 func (ctx *moduleContext) generateChoiceType(t ChoiceType, isSet *bool) goast.Expr {
 	if ctx.hasTaggedAlternatives(t) {
+		ctx.requireModule("encoding/asn1")
 		return goast.NewIdent("asn1.RawValue")
 	}
 	if len(t.AlternativeTypeList) == 1 {
-- 
2.43.0


From 02323225b80c09f4a1c858f14ec97c320c639824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 09/19] fix: do not name a SEQUENCE OF sets as a SET type

encoding/asn1 encodes slice types whose name ends with SET as SET OF, so
A ::= SEQUENCE OF SET {...} was encoded with a wrong tag.
---
 codegen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen.go b/codegen.go
index 0342918..403d71a 100644
--- a/codegen.go
+++ b/codegen.go
@@ -247,7 +247,8 @@ func (ctx *moduleContext) generateTypeBody(typeDescr Type, isSet *bool) goast.Ex
 		*isSet = true
 		return ctx.structFromComponents(t.Components, t.ExtensionAdditions)
 	case SequenceOfType:
-		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, isSet)}
+		var stubBool bool // elements that are sets do not make a set of the sequence
+		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, &stubBool)}
 	case SetOfType:
 		*isSet = true
 		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, isSet)}
-- 
2.43.0


From e16f5270d548b83623cadf2581e2a407059984d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 10/19] fix: generate valid expressions for infinite REAL
 values

PLUS-INFINITY and MINUS-INFINITY came out as the undefined +Inf and -Inf.
---
 codegen.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/codegen.go b/codegen.go
index 403d71a..c3b20a2 100644
--- a/codegen.go
+++ b/codegen.go
@@ -7,6 +7,7 @@ import (
 	goprint "go/printer"
 	gotoken "go/token"
 	"io"
+	"math"
 	"strings"
 )
 
@@ -202,7 +203,7 @@ func (ctx *moduleContext) tryGenerateValueAssignment(ref ValueReference, t Type,
 			valExpr = &goast.BasicLit{Value: "false"}
 		}
 	case Real:
-		valExpr = &goast.BasicLit{Value: fmt.Sprint(val)}
+		valExpr = ctx.realToExpr(val)
 	default:
 		// TODO: produce a warning?
 		return nil
@@ -335,6 +336,19 @@ func numberToExpr(val Number, repr IntegerRepr) goast.Expr {
 	return valueExpr
 }
 
+func (ctx *moduleContext) realToExpr(val Real) goast.Expr {
+	if !math.IsInf(float64(val), 0) {
+		return &goast.BasicLit{Value: fmt.Sprint(val)}
+	}
+	// there are no literals for infinity
+	ctx.requireModule("math")
+	sign := "1"
+	if val < 0 {
+		sign = "-1"
+	}
+	return &goast.CallExpr{Fun: goast.NewIdent("math.Inf"), Args: []goast.Expr{&goast.BasicLit{Value: sign}}}
+}
+
 func (ctx *moduleContext) generateChoiceType(t ChoiceType, isSet *bool) goast.Expr {
 	if ctx.hasTaggedAlternatives(t) {
 		ctx.requireModule("encoding/asn1")
-- 
2.43.0


From 9863925aa4fe2d1ce55b8ea4f1108b0f439f383f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 11/19] fix: do not use big.NewInt for REAL values written
 without a fraction

With the big.Int representation v REAL ::= 12 was given a *big.Int value, from
a package that was not imported.
---
 codegen.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/codegen.go b/codegen.go
index c3b20a2..a2cc84d 100644
--- a/codegen.go
+++ b/codegen.go
@@ -196,6 +196,9 @@ func (ctx *moduleContext) tryGenerateValueAssignment(ref ValueReference, t Type,
 	switch val := val.(type) {
 	case Number:
 		valExpr = numberToExpr(val, ctx.params.IntegerRepr)
+		if ctx.isRealType(t) {
+			valExpr = numberToExpr(val, IntegerReprInt64)
+		}
 	case Boolean:
 		if val {
 			valExpr = &goast.BasicLit{Value: "true"}
@@ -336,6 +339,15 @@ func numberToExpr(val Number, repr IntegerRepr) goast.Expr {
 	return valueExpr
 }
 
+func (ctx *moduleContext) isRealType(t Type) bool {
+	t = ctx.removeWrapperTypes(t)
+	if ref, ok := t.(TypeReference); ok {
+		t = ctx.removeWrapperTypes(ctx.unwrapToLeafType(ref).Type)
+	}
+	_, isReal := t.(RealType)
+	return isReal
+}
+
 func (ctx *moduleContext) realToExpr(val Real) goast.Expr {
 	if !math.IsInf(float64(val), 0) {
 		return &goast.BasicLit{Value: fmt.Sprint(val)}
-- 
2.43.0


From d8ade7954214be6a7054a13ae13afc5315e2b54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 12/19] fix: print error messages of asn1go unmangled

Error texts were used as format strings, and the error about an unwritable
output named the input.
---
 cmd/asn1go/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/asn1go/main.go b/cmd/asn1go/main.go
index b86b2da..eeefa6a 100644
--- a/cmd/asn1go/main.go
+++ b/cmd/asn1go/main.go
@@ -62,7 +62,7 @@ func openChannels(inputName, outputName string) (input, output *os.File) {
 	if len(outputName) != 0 {
 		output, err = os.OpenFile(outputName, os.O_CREATE|os.O_WRONLY, 0644)
 		if err != nil {
-			failWithError("File %v can not be written: %v", inputName, err.Error())
+			failWithError("File %v can not be written: %v", outputName, err.Error())
 		}
 		if err := output.Truncate(0); err != nil {
 			failWithError("Failed to truncate file: %v", err.Error())
@@ -77,7 +77,7 @@ func main() {
 
 	module, err := asn1go.ParseStream(input)
 	if err != nil {
-		failWithError(err.Error())
+		failWithError("%v", err.Error())
 	}
 	params := asn1go.GenParams{
 		Package:     flags.packageName,
@@ -86,7 +86,7 @@ func main() {
 	gen := asn1go.NewCodeGenerator(params)
 	err = gen.Generate(*module, output)
 	if err != nil {
-		failWithError(err.Error())
+		failWithError("%v", err.Error())
 	}
 
 	output.Close()
-- 
2.43.0


From 1527d159a59dd93c9a5bd92752b078ee1a6f0c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 13/19] fix: keep the existing output of asn1go when its input
 is not usable

Output was truncated before the input was read, so a run that failed to parse
or generate destroyed the previous output, and the input itself when both
were the same file.
---
 cmd/asn1go/main.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/cmd/asn1go/main.go b/cmd/asn1go/main.go
index eeefa6a..f17dae8 100644
--- a/cmd/asn1go/main.go
+++ b/cmd/asn1go/main.go
@@ -2,6 +2,7 @@
 package main
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
 	"github.com/chemikadze/asn1go"
@@ -49,16 +50,21 @@ func parseFlags(args []string) (res flagsType) {
 	return res
 }
 
-func openChannels(inputName, outputName string) (input, output *os.File) {
+func openInput(inputName string) (input *os.File) {
 	var err error
 	input = os.Stdin
-	output = os.Stdout
 	if len(inputName) != 0 {
 		input, err = os.Open(inputName)
 		if err != nil {
 			failWithError("Can't open %s for reading: %v", inputName, err.Error())
 		}
 	}
+	return input
+}
+
+func openOutput(outputName string) (output *os.File) {
+	var err error
+	output = os.Stdout
 	if len(outputName) != 0 {
 		output, err = os.OpenFile(outputName, os.O_CREATE|os.O_WRONLY, 0644)
 		if err != nil {
@@ -68,12 +74,12 @@ func openChannels(inputName, outputName string) (input, output *os.File) {
 			failWithError("Failed to truncate file: %v", err.Error())
 		}
 	}
-	return input, output
+	return output
 }
 
 func main() {
 	flags := parseFlags(os.Args)
-	input, output := openChannels(flags.inputName, flags.outputName)
+	input := openInput(flags.inputName)
 
 	module, err := asn1go.ParseStream(input)
 	if err != nil {
@@ -84,11 +90,17 @@ func main() {
 		IntegerRepr: asn1go.IntegerRepr(flags.defaultIntRepr),
 	}
 	gen := asn1go.NewCodeGenerator(params)
-	err = gen.Generate(*module, output)
+	// output is not touched until there is something to replace it with
+	source := bytes.Buffer{}
+	err = gen.Generate(*module, &source)
 	if err != nil {
 		failWithError("%v", err.Error())
 	}
 
+	output := openOutput(flags.outputName)
+	if _, err := output.Write(source.Bytes()); err != nil {
+		failWithError("Failed to write: %v", err.Error())
+	}
 	output.Close()
 	input.Close()
 }
-- 
2.43.0


From e84d15d38109a52bc766ac26d4e3e8bd37ec7b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 14/19] fix: report failure to close the output of asn1go

Some file systems report failed writes only when the file is closed.
---
 cmd/asn1go/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/asn1go/main.go b/cmd/asn1go/main.go
index f17dae8..d1b47a4 100644
--- a/cmd/asn1go/main.go
+++ b/cmd/asn1go/main.go
@@ -101,6 +101,8 @@ func main() {
 	if _, err := output.Write(source.Bytes()); err != nil {
 		failWithError("Failed to write: %v", err.Error())
 	}
-	output.Close()
+	if err := output.Close(); err != nil {
+		failWithError("Failed to close output: %v", err.Error())
+	}
 	input.Close()
 }
-- 
2.43.0


From d2c05f9c26d57def7b45cad4edf5f9649f750408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 15/19] fix: report failures to write the output of ws2bin

---
 cmd/ws2bin/main.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmd/ws2bin/main.go b/cmd/ws2bin/main.go
index 87664b3..5fe83d0 100644
--- a/cmd/ws2bin/main.go
+++ b/cmd/ws2bin/main.go
@@ -14,7 +14,13 @@ func main() {
 		os.Exit(1)
 	}
 	outputBytes := utils.ParseWiresharkHex(string(inputBytes))
-	os.Stdout.Write(outputBytes)
-	os.Stdout.Sync()
-	os.Stdout.Close()
+	if _, err := os.Stdout.Write(outputBytes); err != nil {
+		fmt.Fprintf(os.Stderr, "Failed to write: %v", err.Error())
+		os.Exit(1)
+	}
+	os.Stdout.Sync() // not supported for pipes and terminals, failure to write data shows up elsewhere
+	if err := os.Stdout.Close(); err != nil {
+		fmt.Fprintf(os.Stderr, "Failed to close output: %v", err.Error())
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 1717391f9a32442cd8e76a2c27018b8e690e06ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 16/19] fix: reject signed bytes in hex dumps

-1 was read as ff.
---
 internal/utils/dump.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/utils/dump.go b/internal/utils/dump.go
index aaaab7e..959f6ef 100644
--- a/internal/utils/dump.go
+++ b/internal/utils/dump.go
@@ -18,7 +18,7 @@ func ParseWiresharkHex(str string) []byte {
 			if len(byteRepr) == 0 {
 				continue
 			}
-			x, err := strconv.ParseInt(byteRepr, 16, 9)
+			x, err := strconv.ParseUint(byteRepr, 16, 8)
 			if err != nil {
 				panic(err)
 			}
-- 
2.43.0


From 3ac02ee1baa9eede093fbcc176a8e9d5ccb7320d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 17/19] fix: translate SEQUENCE OF and SET OF with named
 elements

Parser accepts them, but generator rejected them as an unsupported type, with
an error whose text contained addresses of DEFAULT values and so was different
on every run.
---
 codegen.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codegen.go b/codegen.go
index a2cc84d..c441478 100644
--- a/codegen.go
+++ b/codegen.go
@@ -256,6 +256,8 @@ func (ctx *moduleContext) generateTypeBody(typeDescr Type, isSet *bool) goast.Ex
 	case SetOfType:
 		*isSet = true
 		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, isSet)}
+	case NamedType: // element of SEQUENCE OF and SET OF, its name has no counterpart in go code
+		return ctx.generateTypeBody(t.Type, isSet)
 	case TaggedType: // TODO should put tags in go code?
 		return ctx.generateTypeBody(t.Type, isSet)
 	case ConstraintedType: // TODO should generate checking code?
-- 
2.43.0


From cfed4a8e277c5857d6edda167b21a64a5acad729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:58 +0000
Subject: [PATCH 18/19] fix: output may be a pipe or a device (truncate on
 open, not by ftruncate)

---
 cmd/asn1go/main.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/cmd/asn1go/main.go b/cmd/asn1go/main.go
index d1b47a4..27f22f1 100644
--- a/cmd/asn1go/main.go
+++ b/cmd/asn1go/main.go
@@ -66,13 +66,10 @@ func openOutput(outputName string) (output *os.File) {
 	var err error
 	output = os.Stdout
 	if len(outputName) != 0 {
-		output, err = os.OpenFile(outputName, os.O_CREATE|os.O_WRONLY, 0644)
+		output, err = os.OpenFile(outputName, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
 		if err != nil {
 			failWithError("File %v can not be written: %v", outputName, err.Error())
 		}
-		if err := output.Truncate(0); err != nil {
-			failWithError("Failed to truncate file: %v", err.Error())
-		}
 	}
 	return output
 }
-- 
2.43.0


From 6b3d6ca9dc86ba561aee59660e4fc207963c2632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:49 +0000
Subject: [PATCH 19/19] fix: reject a comment that is not closed

---
 lexer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lexer.go b/lexer.go
index ae3fd8d..4c73da1 100644
--- a/lexer.go
+++ b/lexer.go
@@ -322,6 +322,9 @@ func (lex *MyLexer) skipBlockComment() {
 	for {
 		r, _, err := lex.readRune()
 		if err != nil {
+			if err == io.EOF {
+				lex.Error("comment is not closed")
+			}
 			return
 		}
 		if r == '/' {
-- 
2.43.0

