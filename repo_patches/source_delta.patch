From cec1dcf7a4f61dc9a7ce9f9cc4b408bebb49ebde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:25 +0000
Subject: [PATCH 01/77] fix: emit evaluated initializers of const variables
 instead of a method address

---
 translator/ast_walker.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index d826c16..20ca59a 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -58,7 +58,9 @@ func (t *Translator) walkDeclaration(d *cc.Declaration) (declared []*CDecl) {
 			decl := t.declarator(declr.Type(), identifierOf(declr.DirectDeclarator), declr.IsTypename(), declr.IsStatic(), declr.IsConst(), declr.Position())
 			init := list.InitDeclarator.Initializer
 			if init != nil && init.AssignmentExpression != nil {
-				decl.Value = init.AssignmentExpression.Value
+				if v := init.AssignmentExpression.Value(); v != nil && v != cc.Unknown {
+					decl.Value = v
+				}
 				decl.Expression = blessName(init.Token.SrcStr())
 			}
 			t.registerTagsOf(decl)
-- 
2.43.0


From 4278f2b288d36ecba1639ca5d6a1da1748c55ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 02/77] fix: do not emit method addresses for macros that
 cannot be evaluated

---
 translator/translator.go | 42 +++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/translator/translator.go b/translator/translator.go
index d916d46..47330c9 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -377,6 +377,32 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 		seen[name] = struct{}{}
 	}
 
+	// a macro without a known value that references something unresolvable, directly
+	// or by referencing another such macro, cannot be declared as a constant.
+	for pruned := true; pruned; {
+		pruned = false
+		for _, macro := range defines {
+			name := string(macro.Name.SrcStr())
+			if _, ok := seen[name]; !ok || macro.IsFnLike || macro.Value() != cc.Unknown {
+				continue
+			}
+			for _, token := range macro.ReplacementList() {
+				if token.Ch != rune(cc.IDENTIFIER) {
+					continue
+				}
+				src := token.SrcStr()
+				if _, ok := seen[src]; ok {
+					continue
+				} else if _, ok := t.typedefsSet[src]; ok {
+					continue
+				}
+				delete(seen, name)
+				pruned = true
+				break
+			}
+		}
+	}
+
 	for _, macro := range defines {
 		if t.IsTokenIgnored(macro.Position()) {
 			continue
@@ -480,13 +506,15 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 		}
 		if !valid {
 			if macro.Type().Kind() == cc.InvalidKind {
-				// fallback to the evaluated value
-				t.defines = append(t.defines, &CDecl{
-					IsDefine: true,
-					Name:     name,
-					Value:    Value(macro.Value),
-					Position: macro.Position(),
-				})
+				// fallback to the evaluated value, if there is any
+				if v := macro.Value(); v != cc.Unknown {
+					t.defines = append(t.defines, &CDecl{
+						IsDefine: true,
+						Name:     name,
+						Value:    Value(v),
+						Position: macro.Position(),
+					})
+				}
 			}
 			continue
 		}
-- 
2.43.0


From 9f04a77774b0e40beaa31b90e5bfccb8ea6b59c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:55 +0000
Subject: [PATCH 03/77] fix: keep upper-case hex prefixes and float exponents
 of numeric constants

---
 translator/helpers.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/translator/helpers.go b/translator/helpers.go
index 0989742..41d466a 100644
--- a/translator/helpers.go
+++ b/translator/helpers.go
@@ -267,10 +267,13 @@ func isNumeric(v []rune) bool {
 func readNumeric(v []rune) string {
 	long := false
 	unsigned := false
+	float := false
 	result := make([]rune, 0, len(v))
 
 	wrap := func() string {
 		switch {
+		case float:
+			return string(result)
 		case unsigned && long:
 			return "uint64(" + string(result) + ")"
 		case unsigned:
@@ -287,12 +290,22 @@ func readNumeric(v []rune) string {
 		switch r {
 		case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
 			result = append(result, r)
-		case 'x':
+		case 'x', 'X':
 			isHex = true
 			result = append(result, r)
-		case '-', '+', '.', 'e', 'b':
+		case '-', '+', 'b', 'B':
+			result = append(result, r)
+		case '.':
+			float = true
+			result = append(result, r)
+		case 'p', 'P':
+			// after the binary exponent there are no hex digits
+			float, isHex = true, false
+			result = append(result, r)
+		case 'e', 'E':
+			float = float || !isHex
 			result = append(result, r)
-		case 'A', 'B', 'C', 'D', 'E', 'F', 'a', 'c', 'd', 'f':
+		case 'A', 'C', 'D', 'F', 'a', 'c', 'd', 'f':
 			if isHex {
 				result = append(result, r)
 			}
-- 
2.43.0


From f08f6a1e0414a929e96690c52aa889f3c65f69d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 04/77] fix: do not declare macros that have no constant
 expression in Go

---
 translator/helpers.go    | 33 +++++++++++++++++++++++++++++++++
 translator/translator.go |  4 ++++
 2 files changed, 37 insertions(+)

diff --git a/translator/helpers.go b/translator/helpers.go
index 41d466a..6fc36f8 100644
--- a/translator/helpers.go
+++ b/translator/helpers.go
@@ -3,6 +3,9 @@ package translator
 import (
 	"bytes"
 	"fmt"
+	"go/ast"
+	"go/parser"
+	gotoken "go/token"
 	"path/filepath"
 	"regexp"
 	"strings"
@@ -322,3 +325,33 @@ func readNumeric(v []rune) string {
 	}
 	return wrap()
 }
+
+// isGoConstExpr reports whether the source is either empty or an expression
+// that is able to have the same value in Go as it has in C.
+func isGoConstExpr(src string) bool {
+	if len(src) == 0 {
+		return true
+	}
+	expr, err := parser.ParseExpr(src)
+	if err != nil {
+		return false
+	}
+	valid := true
+	ast.Inspect(expr, func(n ast.Node) bool {
+		var op gotoken.Token
+		switch x := n.(type) {
+		case *ast.UnaryExpr:
+			op = x.Op
+		case *ast.BinaryExpr:
+			op = x.Op
+		}
+		switch op {
+		case gotoken.NOT, gotoken.LAND, gotoken.LOR,
+			gotoken.EQL, gotoken.NEQ, gotoken.LSS, gotoken.LEQ, gotoken.GTR, gotoken.GEQ:
+			// these have int values in C
+			valid = false
+		}
+		return valid
+	})
+	return valid
+}
diff --git a/translator/translator.go b/translator/translator.go
index 47330c9..905ef96 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -504,6 +504,10 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 			exprParts = append(exprParts, ")")
 			typecastValue = false
 		}
+		if needsTypecast || !isGoConstExpr(strings.Join(exprParts, " ")) {
+			// a type alone or something C-specific, not a constant expression in Go
+			valid = false
+		}
 		if !valid {
 			if macro.Type().Kind() == cc.InvalidKind {
 				// fallback to the evaluated value, if there is any
-- 
2.43.0


From 94214e30e252043eccd17a4d26596b180f4853a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 05/77] fix: keep the C precedence of operators in expanded
 constants

---
 translator/ast_walker.go |  2 +-
 translator/helpers.go    | 94 ++++++++++++++++++++++++++++++++++++++++
 translator/translator.go |  2 +-
 3 files changed, 96 insertions(+), 2 deletions(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 20ca59a..580382c 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -193,7 +193,7 @@ func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 				}
 
 				if len(exprParts) > 0 {
-					m.Expression = strings.Join(exprParts, " ")
+					m.Expression = bindLikeC(strings.Join(exprParts, " "))
 				} else {
 					m.Value = en.Value()
 				}
diff --git a/translator/helpers.go b/translator/helpers.go
index 6fc36f8..d4513a9 100644
--- a/translator/helpers.go
+++ b/translator/helpers.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"go/ast"
+	"go/format"
 	"go/parser"
 	gotoken "go/token"
 	"path/filepath"
@@ -355,3 +356,96 @@ func isGoConstExpr(src string) bool {
 	})
 	return valid
 }
+
+// bindLikeC adds parens to the expression where the operators having none would bind
+// differently in Go than they do in C, ex: 1 + 2 << 3 that means 1 + (2 << 3) in Go.
+func bindLikeC(src string) string {
+	expr, err := parser.ParseExpr(src)
+	if err != nil {
+		return src
+	}
+	precedence := func(op gotoken.Token) int {
+		switch op {
+		case gotoken.MUL, gotoken.QUO, gotoken.REM:
+			return 6
+		case gotoken.ADD, gotoken.SUB:
+			return 5
+		case gotoken.SHL, gotoken.SHR:
+			return 4
+		case gotoken.AND:
+			return 3
+		case gotoken.XOR:
+			return 2
+		default:
+			return 1
+		}
+	}
+
+	var rebound bool
+	var operands []ast.Expr
+	var operators []gotoken.Token
+	// flatten lists a chain of operators in the source order
+	var flatten func(x ast.Expr)
+	flatten = func(x ast.Expr) {
+		if binary, ok := x.(*ast.BinaryExpr); ok {
+			flatten(binary.X)
+			operators = append(operators, binary.Op)
+			flatten(binary.Y)
+			return
+		}
+		operands = append(operands, x)
+	}
+	// bind builds the chain again, this time having the C precedence
+	var bind func(min int) ast.Expr
+	bind = func(min int) ast.Expr {
+		left := operands[0]
+		operands = operands[1:]
+		for len(operators) > 0 && precedence(operators[0]) >= min {
+			op := operators[0]
+			operators = operators[1:]
+			right := bind(precedence(op) + 1)
+			if x, ok := left.(*ast.BinaryExpr); ok && x.Op.Precedence() < op.Precedence() {
+				left, rebound = &ast.ParenExpr{X: left}, true
+			}
+			if y, ok := right.(*ast.BinaryExpr); ok && y.Op.Precedence() <= op.Precedence() {
+				right, rebound = &ast.ParenExpr{X: right}, true
+			}
+			left = &ast.BinaryExpr{X: left, Op: op, Y: right}
+		}
+		return left
+	}
+	var rewrite func(x ast.Expr) ast.Expr
+	rewrite = func(x ast.Expr) ast.Expr {
+		switch x := x.(type) {
+		case *ast.ParenExpr:
+			x.X = rewrite(x.X)
+		case *ast.UnaryExpr:
+			x.X = rewrite(x.X)
+		case *ast.CallExpr:
+			for i := range x.Args {
+				x.Args[i] = rewrite(x.Args[i])
+			}
+		case *ast.BinaryExpr:
+			operands, operators = nil, nil
+			flatten(x)
+			nodes := operands
+			ops := operators
+			for i := range nodes {
+				nodes[i] = rewrite(nodes[i])
+			}
+			operands, operators = nodes, ops
+			return bind(1)
+		}
+		return x
+	}
+
+	expr = rewrite(expr)
+	if !rebound {
+		return src
+	}
+	buf := new(bytes.Buffer)
+	if err := format.Node(buf, gotoken.NewFileSet(), expr); err != nil {
+		return src
+	}
+	return buf.String()
+}
diff --git a/translator/translator.go b/translator/translator.go
index 905ef96..9eaebd8 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -525,7 +525,7 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 		t.defines = append(t.defines, &CDecl{
 			IsDefine:   true,
 			Name:       name,
-			Expression: strings.Join(exprParts, " "),
+			Expression: bindLikeC(strings.Join(exprParts, " ")),
 			Src:        strings.Join(srcParts, " "),
 			Position:   macro.Position(),
 		})
-- 
2.43.0


From 68323d6c3afaadce8a1b485ebcd532c76684feb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 06/77] fix: use values of enumerators that have no constant
 expression in Go

---
 translator/ast_walker.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 580382c..083c112 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -150,6 +150,9 @@ func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 					switch token.Ch {
 					case rune(cc.IDENTIFIER):
 						exprParts = append(exprParts, string(t.TransformName(TargetConst, src, true)))
+					case rune(cc.SIZEOF), rune(cc.ALIGNOF):
+						// not available in Go, using the evaluated value
+						valid = false
 					default:
 						// TODO: state machine
 						const (
@@ -192,7 +195,7 @@ func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 					typecastValue = false
 				}
 
-				if len(exprParts) > 0 {
+				if valid && len(exprParts) > 0 && isGoConstExpr(strings.Join(exprParts, " ")) {
 					m.Expression = bindLikeC(strings.Join(exprParts, " "))
 				} else {
 					m.Value = en.Value()
-- 
2.43.0


From 47267b46758a437a7e458c5774b07a201e26c0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 07/77] fix: take the tag of an enum from the enum type

---
 translator/ast_walker.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 083c112..d571960 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -114,7 +114,11 @@ func (t *Translator) getStructTag(typ cc.Type) (tag string) {
 }
 
 func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
-	tag := blessName(typ.Typedef().Name())
+	var tag string
+	if enumType, ok := typ.(*cc.EnumType); ok {
+		tagToken := enumType.Tag()
+		tag = blessName(tagToken.SrcStr())
+	}
 	spec := &CEnumSpec{
 		Tag:      tag,
 		Pointers: base.Pointers,
-- 
2.43.0


From 2afe0768a1b82329be661a2707c53ca03f74e793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:46 +0000
Subject: [PATCH 08/77] fix: recognize const char* results of functions as
 strings

---
 translator/ast_walker.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index d571960..6edd09e 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -276,6 +276,12 @@ func (t *Translator) functionSpec(base *CTypeSpec, typ cc.Type, name string, isC
 			if funcType.Result().Typedef() != nil {
 				name = identifierOf(funcType.Result().Typedef().DirectDeclarator)
 				isResultConst = isResultConst || funcType.Result().Typedef().IsConst()
+			} else if ptr, ok := ret.(*cc.PointerType); ok && base.Pointers == 0 && typ.Typedef() == nil {
+				// the const qualifier in a result like const char* belongs to the pointer target
+				target := ptr.Elem()
+				if attrs := target.Attributes(); target.Typedef() == nil && attrs != nil && attrs.IsConst() {
+					isResultConst = isResultConst || target.Kind() != cc.Ptr
+				}
 			}
 			spec.Return = t.typeSpec(ret, name, deep+1, isResultConst, true)
 		}
-- 
2.43.0


From 792235b3683e43e4376b53a64d61aaeaa67e4cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 09/77] fix: keep C strings of a string slice argument alive
 during the call

---
 generator/gen_bindings.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index aa16b97..d32b21c 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -174,8 +174,10 @@ func (gen *Generator) unpackObj(buf io.Writer, goSpec tl.GoTypeSpec, cgoSpec tl.
 	indices := genIndices("i", level)
 	if getHelper, ok := fromGoHelperMap[goSpec]; ok {
 		helper := getHelper(gen, cgoSpec)
-		fmt.Fprintf(buf, "v%d[i%d], _ = %s(%sx%s)\n",
-			uplevel, uplevel, helper.Name, ptrs(goSpec.Pointers), indices)
+		fmt.Fprintf(buf, "allocs%d := new(cgoAllocMap)\n", uplevel)
+		fmt.Fprintf(buf, "v%d[i%d], allocs%d = %s(%sx%s)\n",
+			uplevel, uplevel, uplevel, helper.Name, ptrs(goSpec.Pointers), indices)
+		fmt.Fprintf(buf, "allocs.Borrow(allocs%d)\n", uplevel)
 		return helper
 	}
 	if goSpec.Pointers == 0 {
-- 
2.43.0


From b00dc6b5efb1b81f481660222be12e7f4531c0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 10/77] fix: copy C strings returned through a string slice
 argument

---
 generator/gen_bindings.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index d32b21c..674185c 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -610,7 +610,8 @@ func (gen *Generator) packPlainSlice(buf io.Writer, base string, pointers uint8,
 func (gen *Generator) packObj(buf io.Writer, goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec, level uint8) *Helper {
 	if getHelper, ok := toGoHelperMap[goSpec]; ok {
 		helper := getHelper(gen, cgoSpec)
-		fmt.Fprintf(buf, "v%s = %s(%sptr%d)\n",
+		// a copy, because the C string might be freed before the slice is done with it
+		fmt.Fprintf(buf, "v%s = RawString(%s(%sptr%d)).Copy()\n",
 			genIndices("i", level), helper.Name, ptrs(goSpec.Pointers), level)
 		return helper
 	}
-- 
2.43.0


From f89df318cefaa3ced11b9dc4d2ca6e173ee302ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:39 +0000
Subject: [PATCH 11/77] fix: pass nil slices of struct fields to C as NULL

---
 generator/gen_bindings.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index 674185c..54a6907 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -379,6 +379,9 @@ func (gen *Generator) getCopyBytesHelper(cgoSpec tl.CGoSpec) *Helper {
 		Name:        name,
 		Description: fmt.Sprintf("%s copies the data from Go slice as %s.", name, cgoSpec),
 		Source: fmt.Sprintf(`func %s(slice *sliceHeader) (%s, *cgoAllocMap) {
+			if slice.Data == nil {
+				return nil, nil
+			}
 			allocs := new(cgoAllocMap)
 			defer runtime.SetFinalizer(allocs, func(a *cgoAllocMap) {
 				go a.Free()
-- 
2.43.0


From 67716092b363ff22db394d43042c9559920fb6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:33 +0000
Subject: [PATCH 12/77] fix: free the C copy of a struct argument passed by
 value

---
 generator/gen_bindings.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index 54a6907..62fd028 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -979,6 +979,11 @@ func (gen *Generator) createProxies(funcName string, funcSpec tl.CType) (from, t
 			fmt.Fprintf(fromBuf, "if %s != nil {\n%s, _ = %s\n}", refName, name, fromProxy)
 		} else {
 			fmt.Fprintf(fromBuf, "%s, %sAllocMap := %s", name, name, fromProxy)
+			if strings.HasSuffix(fromProxy, ".PassValue()") && goSpec.Kind == tl.StructKind {
+				// the struct is a copy that nobody else can free
+				fmt.Fprintf(fromBuf, "\nif %sAllocMap != nil {\n", name)
+				fmt.Fprintf(fromBuf, "runtime.SetFinalizer(%sAllocMap, func(a *cgoAllocMap) {\ngo a.Free()\n})\n}", name)
+			}
 			to = append(to, proxyDecl{Name: name, Decl: fmt.Sprintf("runtime.KeepAlive(%sAllocMap)\n", name)})
 		}
 
-- 
2.43.0


From 26f56409171c5087d227ac546485f4b0aa6fa021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:04 +0000
Subject: [PATCH 13/77] fix: resolve references of macros to enumerators of
 typedefed enums

---
 translator/translator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/translator/translator.go b/translator/translator.go
index 9eaebd8..75b69de 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -314,7 +314,9 @@ func (t *Translator) Learn(ast *cc.AST) {
 	t.resolveTypedefs(t.typedefs)
 	sort.Sort(declList(t.declares))
 	sort.Sort(declList(t.typedefs))
-	t.collectDefines(t.declares, ast.Macros)
+	// enums are declared on their own or within typedefs
+	decls := append(append([]*CDecl{}, t.declares...), t.typedefs...)
+	t.collectDefines(decls, ast.Macros)
 	sort.Sort(declList(t.defines))
 }
 
-- 
2.43.0


From aff60e7e588b19547bcebf6e103c7c6da54d7505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:39 +0000
Subject: [PATCH 14/77] fix: declare macros only if their Go expression is made
 of constant operands

---
 translator/helpers.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/translator/helpers.go b/translator/helpers.go
index d4513a9..e364303 100644
--- a/translator/helpers.go
+++ b/translator/helpers.go
@@ -341,8 +341,14 @@ func isGoConstExpr(src string) bool {
 	ast.Inspect(expr, func(n ast.Node) bool {
 		var op gotoken.Token
 		switch x := n.(type) {
+		case nil, *ast.BasicLit, *ast.Ident, *ast.ParenExpr, *ast.CallExpr:
+			// literals, references and type conversions
+		default:
+			valid = false
 		case *ast.UnaryExpr:
-			op = x.Op
+			if op = x.Op; op == gotoken.AND || op == gotoken.ARROW {
+				valid = false
+			}
 		case *ast.BinaryExpr:
 			op = x.Op
 		}
-- 
2.43.0


From f0f9f8ae75be5d4e2221f7da102f8de604608b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:10 +0000
Subject: [PATCH 15/77] fix: keep package descriptions that contain */ inside
 of a comment

---
 generator/gen_files.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/generator/gen_files.go b/generator/gen_files.go
index 209da88..770fdca 100644
--- a/generator/gen_files.go
+++ b/generator/gen_files.go
@@ -184,6 +184,11 @@ func writeLongTextBlock(wr io.Writer, text string) {
 	if len(text) == 0 {
 		return
 	}
+	if strings.Contains(text, "*/") {
+		// would end the comment early
+		writeTextBlock(wr, text)
+		return
+	}
 	writeStartComment(wr)
 	fmt.Fprint(wr, text)
 	writeSpace(wr, 1)
-- 
2.43.0


From ab1ab25961786eac4cace52cfd63a4493d79af0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:39 +0000
Subject: [PATCH 16/77] fix: use values of enumerators that refer to names not
 accepted

---
 translator/ast_walker.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 6edd09e..5de80b1 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -153,6 +153,11 @@ func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 					srcParts = append(srcParts, src)
 					switch token.Ch {
 					case rune(cc.IDENTIFIER):
+						if !t.IsAcceptableName(TargetConst, src) {
+							// will not be declared in Go, using the evaluated value
+							valid = false
+							break
+						}
 						exprParts = append(exprParts, string(t.TransformName(TargetConst, src, true)))
 					case rune(cc.SIZEOF), rune(cc.ALIGNOF):
 						// not available in Go, using the evaluated value
-- 
2.43.0


From 291ea27375b19afd27456a4b215c6f8f99c25bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:51 +0000
Subject: [PATCH 17/77] fix: refer to constants and types in macros by the
 names they are declared with

---
 translator/ast_walker.go | 2 +-
 translator/translator.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 5de80b1..5012c4b 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -158,7 +158,7 @@ func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 							valid = false
 							break
 						}
-						exprParts = append(exprParts, string(t.TransformName(TargetConst, src, true)))
+						exprParts = append(exprParts, string(t.TransformName(TargetConst, src)))
 					case rune(cc.SIZEOF), rune(cc.ALIGNOF):
 						// not available in Go, using the evaluated value
 						valid = false
diff --git a/translator/translator.go b/translator/translator.go
index 75b69de..dc76ebf 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -455,11 +455,11 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 			case rune(cc.IDENTIFIER):
 				if _, ok := seen[src]; ok {
 					// const reference
-					exprParts = append(exprParts, string(t.TransformName(TargetConst, src, true)))
+					exprParts = append(exprParts, string(t.TransformName(TargetConst, src)))
 				} else if _, ok := t.typedefsSet[src]; ok {
 					// type reference
 					needsTypecast = true
-					exprParts = append(exprParts, string(t.TransformName(TargetType, src, true)))
+					exprParts = append(exprParts, string(t.TransformName(TargetType, src)))
 				} else {
 					// an unresolved reference
 					valid = false
-- 
2.43.0


From 153c499bd075e145295de70444c38a109ba83c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:51 +0000
Subject: [PATCH 18/77] fix: name function pointer arguments and their types as
 they are declared

---
 generator/gen_declares.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/gen_declares.go b/generator/gen_declares.go
index 8bb1c8c..42b3ba2 100644
--- a/generator/gen_declares.go
+++ b/generator/gen_declares.go
@@ -51,10 +51,10 @@ func (gen *Generator) writeFunctionAsArg(wr io.Writer, decl *tl.CDecl,
 
 	var returnRef string
 	cName, _ := getName(decl)
-	goName := checkName(gen.tr.TransformName(tl.TargetFunction, cName, public))
+	goName := checkName(gen.tr.TransformName(tl.TargetType, cName, public))
 	spec := decl.Spec.(*tl.CFunctionSpec)
 	if len(spec.Typedef) > 0 {
-		funcName := checkName(gen.tr.TransformName(tl.TargetType, spec.Typedef, true))
+		funcName := checkName(gen.tr.TransformName(tl.TargetType, spec.Typedef))
 		fmt.Fprintf(wr, "%s %s", goName, funcName)
 		return
 	}
-- 
2.43.0


From 1338aacd730d45cb53d846ae3b0bb22b197e755e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:06 +0000
Subject: [PATCH 19/77] fix: use values of enumerators that refer to
 enumerators of other enums

---
 translator/ast_walker.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 5012c4b..d590cfa 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -127,6 +127,10 @@ func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 	}
 	if enumType, ok := typ.(*cc.EnumType); ok {
 		list := enumType.Enumerators()
+		members := make(map[string]bool, len(list))
+		for _, en := range list {
+			members[en.Token.SrcStr()] = true
+		}
 		for _, en := range list {
 			name := blessName(en.Token.SrcStr())
 			m := &CDecl{
@@ -153,8 +157,8 @@ func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 					srcParts = append(srcParts, src)
 					switch token.Ch {
 					case rune(cc.IDENTIFIER):
-						if !t.IsAcceptableName(TargetConst, src) {
-							// will not be declared in Go, using the evaluated value
+						if !members[src] || !t.IsAcceptableName(TargetConst, src) {
+							// has another type or will not be declared in Go, using the evaluated value
 							valid = false
 							break
 						}
-- 
2.43.0


From 895983814e3ebce692d487111a0ca592d4c88cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:48 +0000
Subject: [PATCH 20/77] fix: do not declare enums by tags that are not accepted

---
 generator/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index 4025cc4..74491b4 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -150,6 +150,10 @@ func (gen *Generator) WriteConst(wr io.Writer) int {
 				if !gen.tr.IsAcceptableName(tl.TargetType, decl.Name) {
 					continue
 				}
+			} else if tag := decl.Spec.GetTag(); len(tag) > 0 {
+				if !gen.tr.IsAcceptableName(tl.TargetType, tag) {
+					continue
+				}
 			}
 			if expandEnum(decl) {
 				count++
-- 
2.43.0


From b5de41a2bb7a114ba0cdecccf9366a14a3b2518b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:49 +0000
Subject: [PATCH 21/77] fix: do not declare structs and unions by typedef names
 that are not accepted

---
 generator/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index 74491b4..5968803 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -249,6 +249,10 @@ func (gen *Generator) WriteTypedefs(wr io.Writer) int {
 	for _, def := range tagDefs {
 		decl := def.tagDecl
 		tag := def.tagName
+		if len(decl.Name) > 0 && !gen.tr.IsAcceptableName(tl.TargetType, decl.Name) {
+			// would be declared by the name that is not accepted
+			continue
+		}
 		switch decl.Spec.Kind() {
 		case tl.StructKind, tl.OpaqueStructKind:
 			if seenStructTags[tag] {
-- 
2.43.0


From e403cbd033905ea360042f4b9c3d1276a1954c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:14 +0000
Subject: [PATCH 22/77] fix: try type tips before struct tips in every run

---
 translator/translator.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/translator/translator.go b/translator/translator.go
index dc76ebf..e2b4f62 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -239,11 +239,10 @@ func getPtrTipRxs(tips PtrTips) (PtrTipRxMap, error) {
 				self:    spec.Self,
 			}
 			rxMap[scope] = append(rxMap[scope], specRx)
-			if scope == TipScopeStruct {
-				rxMap[TipScopeType] = append(rxMap[TipScopeType], specRx)
-			}
 		}
 	}
+	// tips of structs apply to types as well, after the tips of types
+	rxMap[TipScopeType] = append(rxMap[TipScopeType], rxMap[TipScopeStruct]...)
 	return rxMap, nil
 }
 
@@ -266,11 +265,10 @@ func getTypeTipRxs(tips TypeTips) (TypeTipRxMap, error) {
 				self:    spec.Self,
 			}
 			rxMap[scope] = append(rxMap[scope], specRx)
-			if scope == TipScopeStruct {
-				rxMap[TipScopeType] = append(rxMap[TipScopeType], specRx)
-			}
 		}
 	}
+	// tips of structs apply to types as well, after the tips of types
+	rxMap[TipScopeType] = append(rxMap[TipScopeType], rxMap[TipScopeStruct]...)
 	return rxMap, nil
 }
 
-- 
2.43.0


From 491c079f9725ae848d222ae77cb58f6c856f305e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:15 +0000
Subject: [PATCH 23/77] fix: predefine macros in the same order in every run

---
 parser/parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 0c6748d..40320ed 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -8,6 +8,7 @@ import (
 	"os/exec"
 	"path/filepath"
 	"runtime"
+	"sort"
 	"strings"
 
 	"modernc.org/cc/v4"
@@ -37,8 +38,13 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 
 	var predefined string
 	// user-provided defines take precedence
-	for name, value := range cfg.Defines {
-		switch v := value.(type) {
+	names := make([]string, 0, len(cfg.Defines))
+	for name := range cfg.Defines {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		switch v := cfg.Defines[name].(type) {
 		case string:
 			predefined += fmt.Sprintf("\n#define %s \"%s\"", name, v)
 		case int, int16, int32, int64, uint, uint16, uint32, uint64:
-- 
2.43.0


From 8267928596094ba442df7aaa75527e5833372c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:10 +0000
Subject: [PATCH 24/77] fix: do not locate predefined macros in the working
 directory

---
 translator/helpers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/translator/helpers.go b/translator/helpers.go
index e364303..0719864 100644
--- a/translator/helpers.go
+++ b/translator/helpers.go
@@ -35,6 +35,10 @@ var (
 
 // narrowPath reduces full path to file name and parent dir only.
 func narrowPath(fp string) string {
+	if strings.HasPrefix(fp, "<") {
+		// not a file, e.g. <predefined>
+		return fp
+	}
 	if !filepath.IsAbs(fp) {
 		if abs, err := filepath.Abs(fp); err != nil {
 			// seems to be reduced already
-- 
2.43.0


From 0f6ccd1e1c196dc628687238d069c746bd8ccc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:11 +0000
Subject: [PATCH 25/77] fix: do not write empty groups for anonymous enums
 without accepted members

---
 generator/generator.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index 5968803..d445c5e 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -83,6 +83,15 @@ func (s declList) Less(i, j int) bool {
 	}
 }
 
+func (gen *Generator) hasAcceptableMember(spec *tl.CEnumSpec) bool {
+	for _, m := range spec.Members {
+		if gen.tr.IsAcceptableName(tl.TargetConst, m.Name) {
+			return true
+		}
+	}
+	return false
+}
+
 func (gen *Generator) WriteConst(wr io.Writer) int {
 	var count int
 	if defines := gen.tr.Defines(); len(defines) > 0 {
@@ -96,6 +105,9 @@ func (gen *Generator) WriteConst(wr io.Writer) int {
 	gen.submitHelper(cgoGenTag)
 	expandEnum := func(decl *tl.CDecl) bool {
 		if tag := decl.Spec.GetTag(); len(tag) == 0 {
+			if !decl.IsTypedef && !gen.hasAcceptableMember(decl.Spec.(*tl.CEnumSpec)) {
+				return false
+			}
 			gen.expandEnumAnonymous(wr, decl, namesSeen)
 			return true
 		} else if tagsSeen[tag] {
-- 
2.43.0


From be9db8efb13b27aab6ebe93169b900f300958bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:21 +0000
Subject: [PATCH 26/77] fix: resolve sources and include paths to absolute
 paths

---
 parser/parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 40320ed..a07fd31 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -128,12 +128,18 @@ func checkConfig(cfg *Config) (*Config, error) {
 		if info, err := os.Stat(path); err != nil || info.IsDir() {
 			continue
 		}
-		if absPath, err := filepath.Abs(path); err != nil {
+		if absPath, err := filepath.Abs(path); err == nil {
 			path = absPath
 		}
 		saneFiles = append(saneFiles, path)
 	}
 	cfg.SourcesPaths = saneFiles
+	// the order of declarations must not depend on the working directory
+	for i, path := range cfg.IncludePaths {
+		if absPath, err := filepath.Abs(path); err == nil {
+			cfg.IncludePaths[i] = absPath
+		}
+	}
 	return cfg, nil
 }
 
-- 
2.43.0


From 310ced5f5f4d7bfda3e278a8102ccb0a46d80ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:20 +0000
Subject: [PATCH 27/77] fix: register callback functions once, without a data
 race

---
 generator/gen_callbacks.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/generator/gen_callbacks.go b/generator/gen_callbacks.go
index 658ff53..7ab4f62 100644
--- a/generator/gen_callbacks.go
+++ b/generator/gen_callbacks.go
@@ -75,9 +75,7 @@ func (gen *Generator) getCallbackHelpers(goFuncName, cFuncName string, spec tl.C
 		if x == nil {
 			return nil, nil
 		}
-		if %sFunc == nil {
- 			%sFunc = x
- 		}
+		%sOnce.Do(func() { %sFunc = x })
 		return (*%s)(C.%s), nil
 	}`, cbGoName, cbGoName, cgoSpec, cbCName)
 	helpers = append(helpers, &Helper{
@@ -92,9 +90,7 @@ func (gen *Generator) getCallbackHelpers(goFuncName, cFuncName string, spec tl.C
 		if x == nil {
 			return nil, nil
 		}
-		if %sFunc == nil {
- 			%sFunc = x
- 		}
+		%sOnce.Do(func() { %sFunc = x })
 		return (%s)(C.%s), nil
 	}`, cbGoName, cbGoName, cgoSpec, cbCName)
 		helpers = append(helpers, &Helper{
@@ -148,6 +144,7 @@ func (gen *Generator) getCallbackHelpers(goFuncName, cFuncName string, spec tl.C
 	fmt.Fprintln(buf, "}")
 
 	fmt.Fprintf(buf, "\n\nvar %sFunc %s", cbGoName, goFuncName)
+	fmt.Fprintf(buf, "\nvar %sOnce sync.Once", cbGoName)
 	helpers = append(helpers, &Helper{
 		Name:   cbGoName,
 		Source: buf.String(),
-- 
2.43.0


From 99be1f43b00a3f35ee11daf689a4be4a9f218791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 28/77] fix: separate the parameters on both sides of an
 instance parameter

---
 generator/gen_common.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/generator/gen_common.go b/generator/gen_common.go
index d744360..931a797 100644
--- a/generator/gen_common.go
+++ b/generator/gen_common.go
@@ -136,12 +136,17 @@ func (gen *Generator) writeFunctionParams(wr io.Writer, funcName string, funcSpe
 	typeTipSpecRx, _ := gen.tr.TypeTipRx(tl.TipScopeFunction, funcName)
 
 	writeStartParams(wr)
+	var written int
 	for i, param := range spec.Params {
 		ptrTip := ptrTipSpecRx.TipAt(i)
 
 		if ptrTip == tl.TipPtrInst {
 			continue
 		}
+		if written > 0 {
+			fmt.Fprintf(wr, ", ")
+		}
+		written++
 
 		if !ptrTip.IsValid() {
 			ptrTip = tl.TipPtrArr
@@ -158,10 +163,6 @@ func (gen *Generator) writeFunctionParams(wr io.Writer, funcName string, funcSpe
 		}
 
 		gen.writeFunctionParam(wr, param, ptrTip, typeTip)
-
-		if i < len(spec.Params)-1 && ptrTipSpecRx.TipAt(i+1) != tl.TipPtrInst {
-			fmt.Fprintf(wr, ", ")
-		}
 	}
 	writeEndParams(wr)
 }
-- 
2.43.0


From 0e92f847615b2562369d9fcf4eca705fd5b81467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:41 +0000
Subject: [PATCH 29/77] fix: apply type tips of types to the proxies of
 function parameters

---
 generator/gen_bindings.go  |  2 +-
 generator/gen_callbacks.go |  2 +-
 generator/gen_common.go    | 34 ++++++++++++++++------------------
 3 files changed, 18 insertions(+), 20 deletions(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index 62fd028..3583990 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -947,7 +947,7 @@ func (gen *Generator) createProxies(funcName string, funcSpec tl.CType) (from, t
 	for i, param := range spec.Params {
 		var goSpec tl.GoTypeSpec
 		ptrTip := ptrTipRx.TipAt(i)
-		typeTip := typeTipRx.TipAt(i)
+		typeTip := gen.paramTypeTip(typeTipRx, i, param)
 		goSpec = gen.tr.TranslateSpec(param.Spec, ptrTip, typeTip)
 		cgoSpec := gen.tr.CGoSpec(param.Spec, true)
 		const public = false
diff --git a/generator/gen_callbacks.go b/generator/gen_callbacks.go
index 7ab4f62..f575eb0 100644
--- a/generator/gen_callbacks.go
+++ b/generator/gen_callbacks.go
@@ -202,7 +202,7 @@ func (gen *Generator) createCallbackProxies(funcName string, funcSpec tl.CType)
 	for i, param := range spec.Params {
 		var goSpec tl.GoTypeSpec
 		ptrTip := ptrTipRx.TipAt(i)
-		typeTip := typeTipRx.TipAt(i)
+		typeTip := gen.paramTypeTip(typeTipRx, i, param)
 		goSpec = gen.tr.TranslateSpec(param.Spec, ptrTip, typeTip)
 		cgoSpec := gen.tr.CGoSpec(param.Spec, true)
 		const public = false
diff --git a/generator/gen_common.go b/generator/gen_common.go
index 931a797..9c776e8 100644
--- a/generator/gen_common.go
+++ b/generator/gen_common.go
@@ -71,6 +71,20 @@ func (gen *Generator) writeStructMembers(wr io.Writer, structName string, spec t
 	fmt.Fprintf(wr, "allocs%2x interface{}\n", crc)
 }
 
+// paramTypeTip returns the type tip of the i-th parameter of a function.
+func (gen *Generator) paramTypeTip(typeTipRx tl.TipSpecRx, i int, param *tl.CDecl) tl.Tip {
+	typeTip := typeTipRx.TipAt(i)
+	if !typeTip.IsValid() {
+		// try to use type tip for the type itself
+		if tip, ok := gen.tr.TypeTipRx(tl.TipScopeType, param.Spec.CGoName()); ok {
+			if tip := tip.Self(); tip.IsValid() {
+				typeTip = tip
+			}
+		}
+	}
+	return typeTip
+}
+
 func (gen *Generator) writeInstanceObjectParam(wr io.Writer, funcName string, funcSpec tl.CType) {
 	spec := funcSpec.(*tl.CFunctionSpec)
 	ptrTipSpecRx, _ := gen.tr.PtrTipRx(tl.TipScopeFunction, funcName)
@@ -84,15 +98,7 @@ func (gen *Generator) writeInstanceObjectParam(wr io.Writer, funcName string, fu
 		}
 
 		ptrTip = tl.TipPtrRef
-		typeTip := typeTipSpecRx.TipAt(i)
-		if !typeTip.IsValid() {
-			// try to use type tip for the type itself
-			if tip, ok := gen.tr.TypeTipRx(tl.TipScopeType, param.Spec.CGoName()); ok {
-				if tip := tip.Self(); tip.IsValid() {
-					typeTip = tip
-				}
-			}
-		}
+		typeTip := gen.paramTypeTip(typeTipSpecRx, i, param)
 
 		writeSpace(wr, 1)
 		writeStartParams(wr)
@@ -152,15 +158,7 @@ func (gen *Generator) writeFunctionParams(wr io.Writer, funcName string, funcSpe
 			ptrTip = tl.TipPtrArr
 		}
 
-		typeTip := typeTipSpecRx.TipAt(i)
-		if !typeTip.IsValid() {
-			// try to use type tip for the type itself
-			if tip, ok := gen.tr.TypeTipRx(tl.TipScopeType, param.Spec.CGoName()); ok {
-				if tip := tip.Self(); tip.IsValid() {
-					typeTip = tip
-				}
-			}
-		}
+		typeTip := gen.paramTypeTip(typeTipSpecRx, i, param)
 
 		gen.writeFunctionParam(wr, param, ptrTip, typeTip)
 	}
-- 
2.43.0


From fc0ac87870dd528c9ea581afa4b9fb93740afa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 30/77] fix: name pack and unpack helpers after both the Go and
 the C type

---
 generator/gen_bindings.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index 3583990..23f3dfe 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -47,8 +47,9 @@ type proxyDecl struct {
 }
 
 // getHelperName transforms signatures like [4][4][]*[4]string into A4A4SPA4String
-// suitable for the generated proxy helper methods.
-func getHelperName(goSpec tl.GoTypeSpec) string {
+// suitable for the generated proxy helper methods. The name of the C type follows
+// the name of a plain Go type, since different C types have the same plain Go type.
+func getHelperName(goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec) string {
 	buf := new(bytes.Buffer)
 	for _, size := range goSpec.OuterArr.Sizes() {
 		if len(size.Str) > 0 {
@@ -68,6 +69,9 @@ func getHelperName(goSpec tl.GoTypeSpec) string {
 		buf.WriteRune('U')
 	}
 	buf.WriteString(strings.Title(goSpec.PlainType()))
+	if len(goSpec.Raw) == 0 {
+		buf.WriteString(strings.Title(cgoSpec.Base[strings.LastIndexByte(cgoSpec.Base, '.')+1:]))
+	}
 	return buf.String()
 }
 
@@ -419,9 +423,9 @@ func goSpecArg(goSpec tl.GoTypeSpec, isArg bool) string {
 func (gen *Generator) getUnpackHelper(goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec, isArg bool) *Helper {
 	name := "unpack"
 	if isArg {
-		name += "Arg" + getHelperName(goSpec)
+		name += "Arg" + getHelperName(goSpec, cgoSpec)
 	} else {
-		name += getHelperName(goSpec)
+		name += getHelperName(goSpec, cgoSpec)
 	}
 	code := new(bytes.Buffer)
 	fmt.Fprintf(code, "func %s(x %s) (unpacked %s, allocs *cgoAllocMap) {\n",
@@ -681,7 +685,7 @@ func (gen *Generator) getPackStringHelper(cgoSpec tl.CGoSpec) *Helper {
 }
 
 func (gen *Generator) getPackHelper(memTip tl.Tip, goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec) *Helper {
-	name := "pack" + getHelperName(goSpec)
+	name := "pack" + getHelperName(goSpec, cgoSpec)
 	code := new(bytes.Buffer)
 	var ref string
 	if len(goSpec.OuterArr) > 0 {
-- 
2.43.0


From 2a6287772fde3012f4e858087431cb832af9b276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 31/77] fix: return a nil slice when a function returns NULL

---
 generator/gen_bindings.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index 23f3dfe..3aca640 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -910,8 +910,8 @@ func (gen *Generator) proxyRetToGo(memTip tl.Tip, varName, ptrName string,
 		return proxy, helper.Nillable
 	case isPlain && goSpec.Slices != 0: // ex: []byte
 		specStr := ptrs(goSpec.Pointers) + goSpec.PlainType()
-		proxy = fmt.Sprintf("%s := (*(*[%s]%s)(unsafe.Pointer(%s)))[:0]",
-			varName, gen.maxMem, specStr, ptrName)
+		proxy = fmt.Sprintf("var %s []%s\nif %s != nil {\n%s = (*(*[%s]%s)(unsafe.Pointer(%s)))[:0]\n}",
+			varName, specStr, ptrName, varName, gen.maxMem, specStr, ptrName)
 		return
 	case isPlain: // ex: byte, [4]byte
 		if (goSpec.Kind == tl.PlainTypeKind || goSpec.Kind == tl.EnumKind) &&
-- 
2.43.0


From bfa8006f19cf2d6120e438551b487bae2b39c2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:43 +0000
Subject: [PATCH 32/77] fix: use raw structs in place in callbacks, results and
 slices of slices

---
 generator/gen_bindings.go  | 14 +++++++++-----
 generator/gen_callbacks.go | 12 ++++++++++--
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index 3aca640..d282f6e 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -420,7 +420,7 @@ func goSpecArg(goSpec tl.GoTypeSpec, isArg bool) string {
 	return goSpec.String()
 }
 
-func (gen *Generator) getUnpackHelper(goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec, isArg bool) *Helper {
+func (gen *Generator) getUnpackHelper(memTip tl.Tip, goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec, isArg bool) *Helper {
 	name := "unpack"
 	if isArg {
 		name += "Arg" + getHelperName(goSpec, cgoSpec)
@@ -451,7 +451,7 @@ func (gen *Generator) getUnpackHelper(goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec,
 		level++
 	}
 	isSlice := goSpec.Slices > 0
-	isPlain := goSpec.IsPlain() || goSpec.IsPlainKind()
+	isPlain := (memTip == tl.TipMemRaw) || goSpec.IsPlain() || goSpec.IsPlainKind()
 
 	switch {
 	case isPlain && isSlice:
@@ -495,7 +495,7 @@ func (gen *Generator) proxyValueFromGo(memTip tl.Tip, name string,
 	case !isPlain && (goSpec.Slices > 0 || len(goSpec.OuterArr) > 0), // ex: []string
 		isPlain && goSpec.Slices > 0 && len(goSpec.OuterArr) > 0, // ex: [4][]byte
 		isPlain && goSpec.Slices > 1:                             // ex: [][]byte
-		helper := gen.getUnpackHelper(goSpec, cgoSpec, false)
+		helper := gen.getUnpackHelper(memTip, goSpec, cgoSpec, false)
 		gen.submitHelper(helper)
 		proxy = fmt.Sprintf("%s(%s)", helper.Name, name)
 		return proxy, helper.Nillable
@@ -550,7 +550,7 @@ func (gen *Generator) proxyArgFromGo(memTip tl.Tip, name string,
 	case !isPlain && (goSpec.Slices > 0 || len(goSpec.OuterArr) > 0), // ex: []string
 		isPlain && goSpec.Slices > 0 && len(goSpec.OuterArr) > 0, // ex: [4][]byte
 		isPlain && goSpec.Slices > 1:                             // ex: [][]byte
-		helper := gen.getUnpackHelper(goSpec, cgoSpec, true)
+		helper := gen.getUnpackHelper(memTip, goSpec, cgoSpec, true)
 		gen.submitHelper(helper)
 		proxy = fmt.Sprintf("%s(%s)", helper.Name, name)
 		return proxy, helper.Nillable
@@ -1077,7 +1077,11 @@ func (gen *Generator) writeFunctionBody(wr io.Writer, decl *tl.CDecl) {
 		goSpec := gen.tr.TranslateSpec((*spec).Return, ptrTip, typeTip)
 		cgoSpec := gen.tr.CGoSpec((*spec).Return, false)
 
-		retProxy, nillable := gen.proxyRetToGo(memTipRx.Self(), "__v", "__ret", goSpec, cgoSpec)
+		retTip := memTipRx.Self()
+		if !retTip.IsValid() {
+			retTip = gen.MemTipOf(&tl.CDecl{Spec: spec.Return})
+		}
+		retProxy, nillable := gen.proxyRetToGo(retTip, "__v", "__ret", goSpec, cgoSpec)
 		if nillable {
 			fmt.Fprintln(wr, "if ret == nil {\nreturn nil\n}")
 		}
diff --git a/generator/gen_callbacks.go b/generator/gen_callbacks.go
index f575eb0..9dcda56 100644
--- a/generator/gen_callbacks.go
+++ b/generator/gen_callbacks.go
@@ -132,7 +132,11 @@ func (gen *Generator) getCallbackHelpers(goFuncName, cFuncName string, spec tl.C
 		ptrTipRx, typeTipRx, memTipRx := gen.tr.TipRxsForSpec(tl.TipScopeFunction, cFuncName, funcSpec)
 		retGoSpec := gen.tr.TranslateSpec(funcSpec.Return, ptrTipRx.Self(), typeTipRx.Self())
 		retCGoSpec := gen.tr.CGoSpec(funcSpec.Return, true) // asArg?
-		retProxy, _ := gen.proxyArgFromGo(memTipRx.Self(), ret, retGoSpec, retCGoSpec)
+		retTip := memTipRx.Self()
+		if !retTip.IsValid() {
+			retTip = gen.MemTipOf(&tl.CDecl{Spec: funcSpec.Return})
+		}
+		retProxy, _ := gen.proxyArgFromGo(retTip, ret, retGoSpec, retCGoSpec)
 		fmt.Fprintf(buf, "ret, _ := %s\n", retProxy)
 		fmt.Fprintf(buf, "return ret\n")
 	} else {
@@ -221,7 +225,11 @@ func (gen *Generator) createCallbackProxies(funcName string, funcSpec tl.CType)
 		cNamesSeen[cname] = struct{}{}
 
 		refName = fmt.Sprintf("%s%2x", refName, crc)
-		toProxy, _ := gen.proxyCallbackArgToGo(memTipRx.TipAt(i), refName, cname, goSpec, cgoSpec)
+		argTip := memTipRx.TipAt(i)
+		if !argTip.IsValid() {
+			argTip = gen.MemTipOf(param)
+		}
+		toProxy, _ := gen.proxyCallbackArgToGo(argTip, refName, cname, goSpec, cgoSpec)
 		if len(toProxy) > 0 {
 			fmt.Fprintln(toBuf, toProxy)
 			to = append(to, proxyDecl{Name: cname, Decl: toBuf.String()})
-- 
2.43.0


From 37864909c496ce77a054f16efc84637ce3dfd213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:23 +0000
Subject: [PATCH 33/77] fix: report a missing header given by an absolute path

---
 parser/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index a07fd31..58e2339 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -125,7 +125,9 @@ func checkConfig(cfg *Config) (*Config, error) {
 				path = hPath
 			}
 		}
-		if info, err := os.Stat(path); err != nil || info.IsDir() {
+		if info, err := os.Stat(path); err != nil {
+			return nil, fmt.Errorf("parser: file specified but not found: %s", path)
+		} else if info.IsDir() {
 			continue
 		}
 		if absPath, err := filepath.Abs(path); err == nil {
@@ -133,6 +135,9 @@ func checkConfig(cfg *Config) (*Config, error) {
 		}
 		saneFiles = append(saneFiles, path)
 	}
+	if len(cfg.SourcesPaths) > 0 && len(saneFiles) == 0 {
+		return nil, errors.New("parser: target paths specified are not files")
+	}
 	cfg.SourcesPaths = saneFiles
 	// the order of declarations must not depend on the working directory
 	for i, path := range cfg.IncludePaths {
-- 
2.43.0


From 7f33df3e92726f9365d619422834a883252150c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:25 +0000
Subject: [PATCH 34/77] fix: report an unsupported Arch

---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 58e2339..528b26e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -90,7 +90,10 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 	if cfg.CCDefs && ccDefsOK {
 		predefined += fmt.Sprintf("\n%s", ccDefs)
 	}
-	ccConfig, _ := cc.NewConfig(runtime.GOOS, cfg.Arch)
+	ccConfig, err := cc.NewConfig(runtime.GOOS, cfg.Arch)
+	if err != nil {
+		return nil, err
+	}
 	// Let cc provide all predefines and builtins. Only append custom definitions.
 	ccConfig.Predefined += predefined
 	ccConfig.IncludePaths = append(ccConfig.IncludePaths, cfg.IncludePaths...)
-- 
2.43.0


From c5205a04d650756cd4e1f0899076c643534c8220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 35/77] fix: report a package name that is not an identifier

---
 generator/generator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/generator/generator.go b/generator/generator.go
index d445c5e..cf4ce9f 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -2,6 +2,8 @@ package generator
 
 import (
 	"errors"
+	"fmt"
+	"go/token"
 	"io"
 	"math/rand"
 	"sort"
@@ -52,6 +54,8 @@ type GenOptions struct {
 func New(pkg string, cfg *Config, tr *tl.Translator) (*Generator, error) {
 	if cfg == nil || len(cfg.PackageName) == 0 {
 		return nil, errors.New("no package name provided")
+	} else if !token.IsIdentifier(pkg) {
+		return nil, fmt.Errorf("package name is not a valid identifier: %s", pkg)
 	} else if tr == nil {
 		return nil, errors.New("no translator provided")
 	}
-- 
2.43.0


From b22cb7b5a86e71280333db7174deb01e60a02a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:23 +0000
Subject: [PATCH 36/77] fix: report a malformed header that the C front end
 crashes on

---
 parser/parser.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 528b26e..0b90515 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -106,7 +106,18 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 			Name: sourceEntry,
 		})
 	}
-	return cc.Translate(ccConfig, sources)
+	return translate(ccConfig, sources)
+}
+
+// translate reports a panic of the C front end as an error,
+// some of the malformed sources cannot be handled by it.
+func translate(cfg *cc.Config, sources []cc.Source) (ast *cc.AST, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			ast, err = nil, fmt.Errorf("parser: cannot parse %s: %v", sources[len(sources)-1].Name, r)
+		}
+	}()
+	return cc.Translate(cfg, sources)
 }
 
 func checkConfig(cfg *Config) (*Config, error) {
-- 
2.43.0


From 3570bcad059c974452f882ab04b002bf92bba8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 37/77] fix: report a header that is cut off in the middle of a
 declaration

---
 parser/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 0b90515..9b8831f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -106,6 +106,11 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 			Name: sourceEntry,
 		})
 	}
+	// the parser may not end if a source is cut off in the middle of a declaration
+	sources = append(sources, cc.Source{
+		Name:  fmt.Sprintf("<end of %s>", cfg.SourcesPaths[len(cfg.SourcesPaths)-1]),
+		Value: "_Static_assert(1, \"\");\n",
+	})
 	return translate(ccConfig, sources)
 }
 
@@ -114,7 +119,7 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 func translate(cfg *cc.Config, sources []cc.Source) (ast *cc.AST, err error) {
 	defer func() {
 		if r := recover(); r != nil {
-			ast, err = nil, fmt.Errorf("parser: cannot parse %s: %v", sources[len(sources)-1].Name, r)
+			ast, err = nil, fmt.Errorf("parser: cannot parse %s: %v", sources[len(sources)-2].Name, r)
 		}
 	}()
 	return cc.Translate(cfg, sources)
-- 
2.43.0


From 379cc29cd964c46c2eb145d063ea7301e07a99ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:00 +0000
Subject: [PATCH 38/77] fix: report a missing include even if declarations
 follow that keep the parser running

---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 9b8831f..9013b49 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"errors"
 	"fmt"
+	"io"
 	"log"
 	"os"
 	"os/exec"
@@ -122,6 +123,10 @@ func translate(cfg *cc.Config, sources []cc.Source) (ast *cc.AST, err error) {
 			ast, err = nil, fmt.Errorf("parser: cannot parse %s: %v", sources[len(sources)-2].Name, r)
 		}
 	}()
+	// the parser may not end after an error of the preprocessor
+	if err := cc.Preprocess(cfg, sources, io.Discard); err != nil {
+		return nil, err
+	}
 	return cc.Translate(cfg, sources)
 }
 
-- 
2.43.0


From 0fdb1c461ed9c7bfc218842937d0de22d6458205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:23 +0000
Subject: [PATCH 39/77] fix: callback whose parameters are named like others
 with a leading c does not compile

The proxy took the argument by a name that the proxy function does not
declare, such as ccb for the parameters b and cb.
---
 generator/gen_callbacks.go | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/generator/gen_callbacks.go b/generator/gen_callbacks.go
index 9dcda56..973ac93 100644
--- a/generator/gen_callbacks.go
+++ b/generator/gen_callbacks.go
@@ -194,13 +194,6 @@ func (gen *Generator) createCallbackProxies(funcName string, funcSpec tl.CType)
 	spec := funcSpec.(*tl.CFunctionSpec)
 	to = make([]proxyDecl, 0, len(spec.Params))
 
-	cNamesSeen := make(map[string]struct{}, len(spec.Params))
-	for _, param := range spec.Params {
-		if len(param.Name) > 0 {
-			cNamesSeen[param.Name] = struct{}{}
-		}
-	}
-
 	crc := getRefCRC(funcSpec)
 	ptrTipRx, typeTipRx, memTipRx := gen.tr.TipRxsForSpec(tl.TipScopeFunction, funcName, funcSpec)
 	for i, param := range spec.Params {
@@ -216,13 +209,8 @@ func (gen *Generator) createCallbackProxies(funcName string, funcSpec tl.CType)
 		}
 		toBuf := new(bytes.Buffer)
 
+		// as in writeCallbackProxyFuncParams
 		cname := "c" + refName
-		_, seen := cNamesSeen[cname]
-		for seen {
-			cname = "c" + cname
-			_, seen = cNamesSeen[cname]
-		}
-		cNamesSeen[cname] = struct{}{}
 
 		refName = fmt.Sprintf("%s%2x", refName, crc)
 		argTip := memTipRx.TipAt(i)
-- 
2.43.0


From 6316f3245f476d378a50253df7ca2af4a50d4f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:55 +0000
Subject: [PATCH 40/77] fix: keep the order of the dimensions of arrays whose
 elements are converted

The sizes were listed innermost first and taken as outermost first, so the
helpers of an array such as my_s m[5][2] did not compile.
---
 translator/array_spec.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/translator/array_spec.go b/translator/array_spec.go
index dd215b1..f491bcc 100644
--- a/translator/array_spec.go
+++ b/translator/array_spec.go
@@ -25,15 +25,16 @@ type ArraySizeSpec struct {
 	Str string
 }
 
+// Sizes returns the sizes in the order of declaration, the outermost is the first.
 func (a ArraySpec) Sizes() (sizes []ArraySizeSpec) {
 	if len(a) == 0 {
 		return
 	}
 	arr := string(a)
 	for len(arr) > 0 {
-		// get "n" from "[k][l][m][n]"
-		p1 := strings.LastIndexByte(arr, '[')
-		p2 := strings.LastIndexByte(arr, ']')
+		// get "k" from "[k][l][m][n]"
+		p1 := strings.IndexByte(arr, '[')
+		p2 := strings.IndexByte(arr, ']')
 		part := arr[p1+1 : p2]
 		// and try to convert uint64
 		if u, err := strconv.ParseUint(part, 10, 64); err != nil || u == 0 {
@@ -42,7 +43,7 @@ func (a ArraySpec) Sizes() (sizes []ArraySizeSpec) {
 		} else {
 			sizes = append(sizes, ArraySizeSpec{N: u})
 		}
-		arr = arr[:p1]
+		arr = arr[p2+1:]
 	}
 	return sizes
 }
-- 
2.43.0


From 294bec5d1d56517b9f328347a6b2b44d4ddb6f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:57 +0000
Subject: [PATCH 41/77] fix: accessor of an array of structures in a raw
 structure does not compile

---
 generator/gen_bindings.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index d282f6e..577db1d 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -823,7 +823,11 @@ func (gen *Generator) proxyValueToGo(memTip tl.Tip, varName, ptrName string,
 		gen.submitHelper(sliceHeader)
 		gen.submitHelper(helper)
 		if len(goSpec.OuterArr) > 0 {
-			ptrName = fmt.Sprintf("(*%s)(unsafe.Pointer(&%s))", cgoSpec, ptrName)
+			addr := ptrName
+			if addr[0] != '&' {
+				addr = "&" + addr
+			}
+			ptrName = fmt.Sprintf("(*%s)(unsafe.Pointer(%s))", cgoSpec, addr)
 		}
 		var ref string
 		switch {
-- 
2.43.0


From 0df3c960f2b144dc175614ba20f1c301be8b36e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:08 +0000
Subject: [PATCH 42/77] fix: keep the order of the dimensions at the places
 that use it

Sizes itself is as before, the levels of array types take the sizes from
the outermost one.
---
 translator/array_spec.go         |  9 ++++-----
 translator/helpers.go            | 10 ++++++++++
 translator/model_enum.go         |  2 +-
 translator/model_go_type.go      |  4 ++--
 translator/model_struct_union.go |  2 +-
 translator/model_type.go         |  2 +-
 6 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/translator/array_spec.go b/translator/array_spec.go
index f491bcc..dd215b1 100644
--- a/translator/array_spec.go
+++ b/translator/array_spec.go
@@ -25,16 +25,15 @@ type ArraySizeSpec struct {
 	Str string
 }
 
-// Sizes returns the sizes in the order of declaration, the outermost is the first.
 func (a ArraySpec) Sizes() (sizes []ArraySizeSpec) {
 	if len(a) == 0 {
 		return
 	}
 	arr := string(a)
 	for len(arr) > 0 {
-		// get "k" from "[k][l][m][n]"
-		p1 := strings.IndexByte(arr, '[')
-		p2 := strings.IndexByte(arr, ']')
+		// get "n" from "[k][l][m][n]"
+		p1 := strings.LastIndexByte(arr, '[')
+		p2 := strings.LastIndexByte(arr, ']')
 		part := arr[p1+1 : p2]
 		// and try to convert uint64
 		if u, err := strconv.ParseUint(part, 10, 64); err != nil || u == 0 {
@@ -43,7 +42,7 @@ func (a ArraySpec) Sizes() (sizes []ArraySizeSpec) {
 		} else {
 			sizes = append(sizes, ArraySizeSpec{N: u})
 		}
-		arr = arr[p2+1:]
+		arr = arr[:p1]
 	}
 	return sizes
 }
diff --git a/translator/helpers.go b/translator/helpers.go
index 0719864..f1c9019 100644
--- a/translator/helpers.go
+++ b/translator/helpers.go
@@ -459,3 +459,13 @@ func bindLikeC(src string) string {
 	}
 	return buf.String()
 }
+
+// sizesFromOuter returns the sizes in the order of declaration,
+// i.e. the outermost is the first.
+func sizesFromOuter(spec ArraySpec) []ArraySizeSpec {
+	sizes := spec.Sizes()
+	for i, j := 0, len(sizes)-1; i < j; i, j = i+1, j-1 {
+		sizes[i], sizes[j] = sizes[j], sizes[i]
+	}
+	return sizes
+}
diff --git a/translator/model_enum.go b/translator/model_enum.go
index 9b6467f..69de8f6 100644
--- a/translator/model_enum.go
+++ b/translator/model_enum.go
@@ -130,7 +130,7 @@ func (c *CEnumSpec) IsConst() bool {
 func (c CEnumSpec) AtLevel(level int) CType {
 	spec := c
 	var outerArrSpec ArraySpec
-	for i, size := range spec.OuterArr.Sizes() {
+	for i, size := range sizesFromOuter(spec.OuterArr) {
 		if i < int(level) {
 			continue
 		} else if i == 0 {
diff --git a/translator/model_go_type.go b/translator/model_go_type.go
index 7845645..dc0b798 100644
--- a/translator/model_go_type.go
+++ b/translator/model_go_type.go
@@ -167,7 +167,7 @@ func (spec *CGoSpec) PointersAtLevel(level uint8) uint8 {
 
 func (spec *CGoSpec) AtLevel(level uint8) string {
 	buf := new(bytes.Buffer)
-	outerArrSizes := spec.OuterArr.Sizes()
+	outerArrSizes := sizesFromOuter(spec.OuterArr)
 	for i, size := range outerArrSizes {
 		if i < int(level) {
 			continue
@@ -201,7 +201,7 @@ func (spec *CGoSpec) SpecAtLevel(level uint8) CGoSpec {
 		// InnerArr: spec.InnerArr,
 		Base: spec.Base,
 	}
-	for i, size := range spec.OuterArr.Sizes() {
+	for i, size := range sizesFromOuter(spec.OuterArr) {
 		if i < int(level) {
 			continue
 		} else if i == 0 {
diff --git a/translator/model_struct_union.go b/translator/model_struct_union.go
index 930c15f..ddc6b78 100644
--- a/translator/model_struct_union.go
+++ b/translator/model_struct_union.go
@@ -137,7 +137,7 @@ func (c *CStructSpec) IsConst() bool {
 func (c CStructSpec) AtLevel(level int) CType {
 	spec := c
 	var outerArrSpec ArraySpec
-	for i, size := range spec.OuterArr.Sizes() {
+	for i, size := range sizesFromOuter(spec.OuterArr) {
 		if i < int(level) {
 			continue
 		} else if i == 0 {
diff --git a/translator/model_type.go b/translator/model_type.go
index 347894e..5e8e1b0 100644
--- a/translator/model_type.go
+++ b/translator/model_type.go
@@ -143,7 +143,7 @@ func (c *CTypeSpec) IsConst() bool {
 func (c CTypeSpec) AtLevel(level int) CType {
 	spec := c
 	var outerArrSpec ArraySpec
-	for i, size := range spec.OuterArr.Sizes() {
+	for i, size := range sizesFromOuter(spec.OuterArr) {
 		if i < int(level) {
 			continue
 		} else if i == 0 {
-- 
2.43.0


From 6aed7c95367232db9dc74478de43d87c3c3d59da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 43/77] fix: string and long double macros evaluated by the
 front end are written as broken constants

A macro that the headers themselves use in an expression has a known value:
with the eval rule a string was written without quotes, a long double or wide
string as a Go struct, and a whole floating point number became an integer.
---
 translator/helpers.go    | 22 ++++++++++++++++++++++
 translator/translator.go | 10 +++++++---
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/translator/helpers.go b/translator/helpers.go
index f1c9019..d0f9a69 100644
--- a/translator/helpers.go
+++ b/translator/helpers.go
@@ -7,11 +7,14 @@ import (
 	"go/format"
 	"go/parser"
 	gotoken "go/token"
+	"math"
 	"path/filepath"
 	"regexp"
+	"strconv"
 	"strings"
 	"sync"
 
+	"modernc.org/cc/v4"
 	"modernc.org/token"
 )
 
@@ -469,3 +472,22 @@ func sizesFromOuter(spec ArraySpec) []ArraySizeSpec {
 	}
 	return sizes
 }
+
+// goConstValue returns the evaluated value of a macro in the form of a Go literal,
+// and false if there is no such form.
+func goConstValue(v cc.Value) (Value, bool) {
+	switch v := v.(type) {
+	case cc.Int64Value, cc.UInt64Value:
+		return Value(v), true
+	case cc.Float64Value:
+		if math.IsInf(float64(v), 0) || math.IsNaN(float64(v)) {
+			return nil, false
+		}
+		lit := strconv.FormatFloat(float64(v), 'g', -1, 64)
+		if !strings.ContainsAny(lit, ".e") {
+			lit += ".0" // a whole number remains a floating point constant
+		}
+		return Value(lit), true
+	}
+	return nil, false
+}
diff --git a/translator/translator.go b/translator/translator.go
index e2b4f62..d62995f 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -423,11 +423,15 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 			case cc.Bool: // ban bools
 				continue
 			}
+			value, ok := goConstValue(macro.Value())
+			if !ok { // strings and others that cannot be written as a number
+				expand = true
+			}
 			if !expand {
 				t.defines = append(t.defines, &CDecl{
 					IsDefine: true,
 					Name:     name,
-					Value:    Value(macro.Value()),
+					Value:    value,
 					Position: macro.Position(),
 				})
 				continue
@@ -511,11 +515,11 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 		if !valid {
 			if macro.Type().Kind() == cc.InvalidKind {
 				// fallback to the evaluated value, if there is any
-				if v := macro.Value(); v != cc.Unknown {
+				if v, ok := goConstValue(macro.Value()); ok {
 					t.defines = append(t.defines, &CDecl{
 						IsDefine: true,
 						Name:     name,
-						Value:    Value(v),
+						Value:    v,
 						Position: macro.Position(),
 					})
 				}
-- 
2.43.0


From b6643753ca935c82fe390b0e89cb55c7ef986136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 44/77] fix: defines of the manifest lose the precision of
 floats, booleans and quotes

---
 parser/parser.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 9013b49..e4f4eb5 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -8,8 +8,10 @@ import (
 	"os"
 	"os/exec"
 	"path/filepath"
+	"reflect"
 	"runtime"
 	"sort"
+	"strconv"
 	"strings"
 
 	"modernc.org/cc/v4"
@@ -47,11 +49,17 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 	for _, name := range names {
 		switch v := cfg.Defines[name].(type) {
 		case string:
-			predefined += fmt.Sprintf("\n#define %s \"%s\"", name, v)
+			predefined += fmt.Sprintf("\n#define %s \"%s\"", name, cEscaper.Replace(v))
 		case int, int16, int32, int64, uint, uint16, uint32, uint64:
 			predefined += fmt.Sprintf("\n#define %s %d", name, v)
 		case float32, float64:
-			predefined += fmt.Sprintf("\n#define %s %ff", name, v)
+			predefined += fmt.Sprintf("\n#define %s %s", name, floatLiteral(reflect.ValueOf(v).Float()))
+		case bool:
+			if v {
+				predefined += fmt.Sprintf("\n#define %s 1", name)
+			} else {
+				predefined += fmt.Sprintf("\n#define %s 0", name)
+			}
 		case map[interface{}]interface{}:
 			if len(v) == 0 { // the special case for override a definition beforehand
 				predefined += fmt.Sprintf("\n#define %s", name)
@@ -115,6 +123,17 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 	return translate(ccConfig, sources)
 }
 
+var cEscaper = strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "\n", "\\n")
+
+// floatLiteral returns a C literal that has exactly the value f.
+func floatLiteral(f float64) string {
+	lit := strconv.FormatFloat(f, 'g', -1, 64)
+	if !strings.ContainsAny(lit, ".e") {
+		lit += ".0"
+	}
+	return lit
+}
+
 // translate reports a panic of the C front end as an error,
 // some of the malformed sources cannot be handled by it.
 func translate(cfg *cc.Config, sources []cc.Source) (ast *cc.AST, err error) {
-- 
2.43.0


From ff982f12df74f515b570b09f4d1a394cd77eb3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 45/77] fix: defines of the manifest take precedence over those
 of the host preprocessor

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index e4f4eb5..8473fe5 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -97,7 +97,7 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 		}
 	}
 	if cfg.CCDefs && ccDefsOK {
-		predefined += fmt.Sprintf("\n%s", ccDefs)
+		predefined = fmt.Sprintf("\n%s", ccDefs) + predefined
 	}
 	ccConfig, err := cc.NewConfig(runtime.GOOS, cfg.Arch)
 	if err != nil {
-- 
2.43.0


From 814dbcfe65b147bc5b6213fea61c1999a0615a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 46/77] fix: quoted includes are not searched for in the system
 include paths

---
 parser/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 8473fe5..e8589ea 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -106,6 +106,8 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 	// Let cc provide all predefines and builtins. Only append custom definitions.
 	ccConfig.Predefined += predefined
 	ccConfig.IncludePaths = append(ccConfig.IncludePaths, cfg.IncludePaths...)
+	// a quoted name that is not found there is searched for like a bracketed one
+	ccConfig.IncludePaths = append(ccConfig.IncludePaths, cfg.SysIncludePaths...)
 	ccConfig.SysIncludePaths = append(ccConfig.SysIncludePaths, cfg.SysIncludePaths...)
 	var sources []cc.Source
 	sources = append(sources, cc.Source{Name: "<predefined>", Value: ccConfig.Predefined})
-- 
2.43.0


From c0db1056f3829a2139790199e4b853e7b9ecb483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 47/77] fix: the comment of a union type documents the constant
 of its size

---
 generator/gen_typedef.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/gen_typedef.go b/generator/gen_typedef.go
index 4722d6b..36c8889 100644
--- a/generator/gen_typedef.go
+++ b/generator/gen_typedef.go
@@ -137,9 +137,9 @@ func (gen *Generator) writeUnionTypedef(wr io.Writer, decl *tl.CDecl) {
 	typeRef := gen.tr.TranslateSpec(decl.Spec).UnderlyingString()
 
 	if typeName := string(goName); typeName != typeRef {
+		fmt.Fprintf(wr, "const sizeof%s = unsafe.Sizeof(C.%s{})\n\n", goName, decl.Spec.CGoName())
 		fmt.Fprintf(wr, "// %s as declared in %s\n", goName,
 			filepath.ToSlash(gen.tr.SrcLocation(tl.TargetType, cName, decl.Position)))
-		fmt.Fprintf(wr, "const sizeof%s = unsafe.Sizeof(C.%s{})\n", goName, decl.Spec.CGoName())
 		fmt.Fprintf(wr, "type %s [sizeof%s]byte\n", goName, goName)
 		writeSpace(wr, 1)
 		return
-- 
2.43.0


From e0e48a450b4576fdf5648034df446d18fa310782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 48/77] fix: license line that starts with +build becomes a
 build constraint

---
 generator/gen_files.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/generator/gen_files.go b/generator/gen_files.go
index 770fdca..2f6e7e3 100644
--- a/generator/gen_files.go
+++ b/generator/gen_files.go
@@ -201,6 +201,11 @@ func writeTextBlock(wr io.Writer, text string) {
 	}
 	lines := strings.Split(text, "\n")
 	for _, line := range lines {
+		if strings.HasPrefix(strings.TrimSpace(line), "+build") && !strings.Contains(line, "*/") {
+			// would be taken for a build constraint
+			fmt.Fprintf(wr, "/* %s */\n", line)
+			continue
+		}
 		fmt.Fprintf(wr, "// %s\n", line)
 	}
 }
-- 
2.43.0


From 7f5689beda11a9a55e63e3bb97042df9671bee84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 49/77] fix: doc rules are not applied to enums that have a tag
 only

---
 generator/gen_const.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/generator/gen_const.go b/generator/gen_const.go
index ff1bd7f..fa96fd6 100644
--- a/generator/gen_const.go
+++ b/generator/gen_const.go
@@ -135,6 +135,7 @@ func (gen *Generator) expandEnum(wr io.Writer, decl *tl.CDecl, namesSeen map[str
 	}
 
 	spec := decl.Spec.(*tl.CEnumSpec)
+	cName, _ := getName(decl)
 	tagName := gen.tr.TransformName(tl.TargetType, decl.Spec.GetBase())
 	enumType := gen.tr.TranslateSpec(&spec.Type)
 	if tips, ok := gen.tr.TypeTipRx(tl.TipScopeEnum, string(tagName)); ok {
@@ -143,21 +144,21 @@ func (gen *Generator) expandEnum(wr io.Writer, decl *tl.CDecl, namesSeen map[str
 		}
 	}
 	fmt.Fprintf(wr, "// %s as declared in %s\n", tagName,
-		filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, decl.Name, decl.Position)))
+		filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, cName, decl.Position)))
 	fmt.Fprintf(wr, "type %s %s\n", tagName, enumType)
 	writeSpace(wr, 1)
 	if isTypedef {
 		if !bytes.Equal(tagName, declName) && len(declName) > 0 {
 			// alias type decl name to the tag
 			fmt.Fprintf(wr, "// %s as declared in %s\n", declName,
-				filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, decl.Name, decl.Position)))
+				filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, cName, decl.Position)))
 			fmt.Fprintf(wr, "type %s %s", declName, tagName)
 			writeSpace(wr, 1)
 		}
 	}
 
 	fmt.Fprintf(wr, "// %s enumeration from %s\n", tagName,
-		filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, decl.Name, decl.Position)))
+		filepath.ToSlash(gen.tr.SrcLocation(tl.TargetConst, cName, decl.Position)))
 	writeStartConst(wr)
 	for i, m := range spec.Members {
 		if !gen.tr.IsAcceptableName(tl.TargetConst, m.Name) {
-- 
2.43.0


From ace79fe9fa19bbfc2c176e2a9d8f9057a85a5b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 50/77] fix: a const pointer to a named char type is a slice of
 that type or a string, not a mix

---
 translator/translator.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/translator/translator.go b/translator/translator.go
index d62995f..953a93e 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -767,6 +767,10 @@ func (t *Translator) TranslateSpec(spec CType, tips ...Tip) GoTypeSpec {
 		if typeSpec.Base == "char" {
 			lookupSpec.Unsigned = typeSpec.Unsigned
 			lookupSpec.Signed = typeSpec.Signed
+			if typeTip != TipTypePlain && typeTip != TipTypeString && t.IsAcceptableName(TargetType, typeSpec.Raw) {
+				// the type keeps its own name, so that it isn't a string
+				lookupSpec.Const = false
+			}
 		}
 
 		if gospec, ok := t.lookupSpec(lookupSpec, typeTip == TipTypeString); ok {
@@ -799,7 +803,7 @@ func (t *Translator) TranslateSpec(spec CType, tips ...Tip) GoTypeSpec {
 					}
 				}
 			}
-			if typeTip != TipTypePlain {
+			if typeTip != TipTypePlain && gospec.Base != "string" {
 				if t.IsAcceptableName(TargetType, typeSpec.Raw) {
 					gospec.Raw = string(t.TransformName(TargetType, typeSpec.Raw))
 					if gospec.Base != "unsafe.Pointer" {
@@ -854,7 +858,7 @@ func (t *Translator) TranslateSpec(spec CType, tips ...Tip) GoTypeSpec {
 							gospec.Kind = wrapper.Kind
 						}
 					}
-					if typeTip != TipTypePlain {
+					if typeTip != TipTypePlain && gospec.Base != "string" {
 						if t.IsAcceptableName(TargetType, typeSpec.Raw) {
 							gospec.Raw = string(t.TransformName(TargetType, typeSpec.Raw))
 							if gospec.Base != "unsafe.Pointer" {
-- 
2.43.0


From 92497806b892d2bee46681758d08da004d24fb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:07 +0000
Subject: [PATCH 51/77] fix: a parameter does not hide the names that the body
 of its function uses

---
 translator/helpers.go    | 22 ++++++++++++++++++++++
 translator/translator.go |  2 ++
 2 files changed, 24 insertions(+)

diff --git a/translator/helpers.go b/translator/helpers.go
index d0f9a69..134035c 100644
--- a/translator/helpers.go
+++ b/translator/helpers.go
@@ -247,6 +247,28 @@ func isBuiltinName(name []byte) bool {
 	return false
 }
 
+// predeclaredNames has names that generated function bodies refer to.
+var predeclaredNames = func() map[string]struct{} {
+	names := []string{
+		"C", "runtime", "unsafe", "nil", "bool", "byte", "rune", "string",
+		"int", "int8", "int16", "int32", "int64",
+		"uint", "uint8", "uint16", "uint32", "uint64", "uintptr",
+		"float32", "float64", "complex64", "complex128",
+	}
+	set := make(map[string]struct{}, len(names))
+	for _, name := range names {
+		set[name] = struct{}{}
+	}
+	return set
+}()
+
+// isPredeclaredName checks if a parameter of that name hides what the code
+// of generated functions needs.
+func isPredeclaredName(name []byte) bool {
+	_, ok := predeclaredNames[string(name)]
+	return ok
+}
+
 var nameRewrites = map[string][]byte{
 	"type": []byte("kind"),
 }
diff --git a/translator/translator.go b/translator/translator.go
index 953a93e..f3bfee1 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -623,6 +623,8 @@ func (t *Translator) TransformName(target RuleTarget, str string, publicOpt ...b
 		}
 		if isBuiltinName(name) {
 			name = rewriteName(name)
+		} else if targetVisibility == TargetPrivate && isPredeclaredName(name) {
+			name = rewriteName(name)
 		}
 		t.transformCache.Set(target, targetVisibility, str, name)
 		return name
-- 
2.43.0


From eaf8287139b76aedd5739e835b5a1a3093c112ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 52/77] fix: the const qualifier of an unnamed parameter counts
 as that of a named one

---
 translator/ast_walker.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index d590cfa..91bba50 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -302,6 +302,8 @@ func (t *Translator) functionSpec(base *CTypeSpec, typ cc.Type, name string, isC
 				if p.Declarator != nil {
 					name = identifierOf(p.Declarator.DirectDeclarator)
 					isParamConst = p.Declarator.IsConst()
+				} else {
+					isParamConst = isBaseConst(p.Type())
 				}
 				spec.Params = append(spec.Params, &CDecl{
 					Name:     paramName(i, p),
@@ -459,6 +461,15 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 	return spec
 }
 
+// isBaseConst checks for the const qualifier of the type that pointers lead to.
+func isBaseConst(typ cc.Type) bool {
+	for ptr, ok := typ.(*cc.PointerType); ok; ptr, ok = typ.(*cc.PointerType) {
+		typ = ptr.Elem()
+	}
+	attrs := typ.Attributes()
+	return attrs != nil && attrs.IsConst()
+}
+
 func paramName(n int, p *cc.Parameter) string {
 	if len(p.Name()) == 0 {
 		return fmt.Sprintf("arg%d", n)
-- 
2.43.0


From 1553ffe0a06d01a0d9e6fc40647eeb745cd6f764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 53/77] fix: a callback parameter called ret does not clash
 with the result of the callback

---
 generator/gen_callbacks.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/gen_callbacks.go b/generator/gen_callbacks.go
index 973ac93..7ed41cc 100644
--- a/generator/gen_callbacks.go
+++ b/generator/gen_callbacks.go
@@ -127,7 +127,7 @@ func (gen *Generator) getCallbackHelpers(goFuncName, cFuncName string, spec tl.C
 	fmt.Fprintf(buf, "if %sFunc != nil {\n", cbGoName)
 	buf.WriteString(proxySrc.String())
 	if funcSpec.Return != nil {
-		ret := fmt.Sprintf("ret%2x", crc)
+		ret := fmt.Sprintf("__ret%2x", crc) // not the name of a parameter
 		fmt.Fprintf(buf, "%s := %sFunc(%s)\n", ret, cbGoName, paramNamesGoList)
 		ptrTipRx, typeTipRx, memTipRx := gen.tr.TipRxsForSpec(tl.TipScopeFunction, cFuncName, funcSpec)
 		retGoSpec := gen.tr.TranslateSpec(funcSpec.Return, ptrTipRx.Self(), typeTipRx.Self())
-- 
2.43.0


From 297f9348b1082fe8024681245a8ca30badae478e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 54/77] fix: the string tip does not switch off the string
 option of unsigned char

---
 translator/translator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translator/translator.go b/translator/translator.go
index f3bfee1..f620f89 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -130,7 +130,7 @@ func New(cfg *Config) (*Translator, error) {
 		constRules:         cfg.ConstRules,
 		typemap:            cfg.Typemap,
 		builtinTypemap:     getCTypeMap(constCharAsString, constUCharAsString, cfg.LongIs64Bit),
-		builtinTypemap2:    getCTypeMap(true, false, cfg.LongIs64Bit),
+		builtinTypemap2:    getCTypeMap(true, constUCharAsString, cfg.LongIs64Bit),
 		compiledRxs:        make(map[RuleAction]RxMap),
 		compiledPtrTipRxs:  make(PtrTipRxMap),
 		compiledTypeTipRxs: make(TypeTipRxMap),
-- 
2.43.0


From e20a0aacc724326641667458a2a400f60b0d2342 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 55/77] fix: struct accessors don't take the length field for
 the length of the member itself

---
 generator/gen_struct_helpers.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generator/gen_struct_helpers.go b/generator/gen_struct_helpers.go
index 85dfa91..7635aa5 100644
--- a/generator/gen_struct_helpers.go
+++ b/generator/gen_struct_helpers.go
@@ -209,7 +209,8 @@ func (gen *Generator) getRawStructHelpers(goStructName []byte, cStructName strin
 			cgoSpec.Pointers += 1
 		}
 		fmt.Fprintf(buf, "func (s *%s) Get%s() %s {\n", goStructName, goName, goSpec)
-		lenField := getLenField(gen, structSpec, m)
+		// the length field describes the memory the member points to, not the member
+		const lenField = ""
 		toProxy, _ := gen.proxyValueToGo(memTip, "ret", "&s."+m.Name, goSpec, cgoSpec, lenField)
 		fmt.Fprintf(buf, "\tvar ret %s\n", goSpec)
 		fmt.Fprintf(buf, "\t%s\n", toProxy)
-- 
2.43.0


From ea9b35aa0aed1d795495ddd8357981ef6471948b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:50:47 +0000
Subject: [PATCH 56/77] fix: length fields may have names that are Go keywords

---
 translator/translator.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/translator/translator.go b/translator/translator.go
index f620f89..0389168 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -137,7 +137,7 @@ func New(cfg *Config) (*Translator, error) {
 		valueMap:           make(map[string]Value),
 		exprMap:            make(map[string]string),
 		tagMap:             make(map[string]*CDecl),
-		lenFields:          cfg.LenFields,
+		lenFields:          make(map[string]string, len(cfg.LenFields)),
 		typedefsSet:        make(map[string]struct{}),
 		typedefKinds:       make(map[string]CTypeKind),
 		ignoredFiles:       make(map[string]struct{}),
@@ -146,6 +146,14 @@ func New(cfg *Config) (*Translator, error) {
 		typeTipCache:       &TipCache{},
 		memTipCache:        &TipCache{},
 	}
+	for target, name := range cfg.LenFields {
+		// the members are known by their cgo names
+		parts := strings.Split(target, ".")
+		for i := range parts {
+			parts[i] = blessName(parts[i])
+		}
+		t.lenFields[strings.Join(parts, ".")] = blessName(name)
+	}
 	for _, p := range cfg.IgnoredFiles {
 		t.ignoredFiles[p] = struct{}{}
 	}
-- 
2.43.0


From 6396336cf2dbdfb28cfe02b5796e6f58bd12d0b3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 57/77] fix: -nocgo writes types that don't need cgo

---
 generator/gen_common.go          |  2 +-
 generator/gen_typedef.go         | 20 +++++++++++++++++++-
 generator/generator.go           |  6 ++++++
 process.go                       |  3 +++
 translator/ast_walker.go         |  5 +++++
 translator/model_struct_union.go |  1 +
 6 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/generator/gen_common.go b/generator/gen_common.go
index 9c776e8..ba2de5f 100644
--- a/generator/gen_common.go
+++ b/generator/gen_common.go
@@ -58,7 +58,7 @@ func (gen *Generator) writeStructMembers(wr io.Writer, structName string, spec t
 		writeSpace(wr, 1)
 	}
 
-	if memTipRx.Self() == tl.TipMemRaw {
+	if memTipRx.Self() == tl.TipMemRaw || gen.noCGO {
 		return
 	}
 
diff --git a/generator/gen_typedef.go b/generator/gen_typedef.go
index 36c8889..f5b65fa 100644
--- a/generator/gen_typedef.go
+++ b/generator/gen_typedef.go
@@ -76,6 +76,10 @@ func (gen *Generator) writeFunctionTypedef(wr io.Writer, decl *tl.CDecl, seenNam
 	if len(returnRef) > 0 {
 		fmt.Fprintf(wr, " %s", returnRef)
 	}
+	if gen.noCGO {
+		writeSpace(wr, 1)
+		return
+	}
 	for _, helper := range gen.getCallbackHelpers(string(goFuncName), decl.Name, decl.Spec) {
 		gen.submitHelper(helper)
 	}
@@ -103,6 +107,16 @@ func (gen *Generator) writeStructTypedef(wr io.Writer, decl *tl.CDecl, raw bool,
 	} else {
 		seenNames[string(goName)] = true
 	}
+	if gen.noCGO {
+		fmt.Fprintf(wr, "// %s as declared in %s\n", goName,
+			filepath.ToSlash(gen.tr.SrcLocation(tl.TargetType, cName, decl.Position)))
+		fmt.Fprintf(wr, "type %s struct {", goName)
+		writeSpace(wr, 1)
+		gen.writeStructMembers(wr, cName, decl.Spec)
+		writeEndStruct(wr)
+		writeSpace(wr, 1)
+		return
+	}
 	if raw || !decl.Spec.IsComplete() {
 		// opaque struct
 		fmt.Fprintf(wr, "// %s as declared in %s\n", goName,
@@ -137,7 +151,11 @@ func (gen *Generator) writeUnionTypedef(wr io.Writer, decl *tl.CDecl) {
 	typeRef := gen.tr.TranslateSpec(decl.Spec).UnderlyingString()
 
 	if typeName := string(goName); typeName != typeRef {
-		fmt.Fprintf(wr, "const sizeof%s = unsafe.Sizeof(C.%s{})\n\n", goName, decl.Spec.CGoName())
+		if gen.noCGO {
+			fmt.Fprintf(wr, "const sizeof%s = %d\n\n", goName, decl.Spec.(*tl.CStructSpec).Size)
+		} else {
+			fmt.Fprintf(wr, "const sizeof%s = unsafe.Sizeof(C.%s{})\n\n", goName, decl.Spec.CGoName())
+		}
 		fmt.Fprintf(wr, "// %s as declared in %s\n", goName,
 			filepath.ToSlash(gen.tr.SrcLocation(tl.TargetType, cName, decl.Position)))
 		fmt.Fprintf(wr, "type %s [sizeof%s]byte\n", goName, goName)
diff --git a/generator/generator.go b/generator/generator.go
index cf4ce9f..cb6acc1 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -21,6 +21,7 @@ type Generator struct {
 	helpersChan   chan *Helper
 	rand          *rand.Rand
 	noTimestamps  bool
+	noCGO         bool
 	maxMem        MemSpec
 }
 
@@ -28,6 +29,11 @@ func (g *Generator) DisableTimestamps() {
 	g.noTimestamps = true
 }
 
+// DisableCGO makes type declarations that don't depend on cgo.
+func (g *Generator) DisableCGO() {
+	g.noCGO = true
+}
+
 type TraitFlagGroup struct {
 	Name   string   `yaml:"name"`
 	Traits []string `yaml:"traits"`
diff --git a/process.go b/process.go
index 219b611..9faa642 100644
--- a/process.go
+++ b/process.go
@@ -128,6 +128,9 @@ func NewProcess(configPath, outputPath string) (*Process, error) {
 }
 
 func (c *Process) Generate(noCGO bool) {
+	if noCGO {
+		c.gen.DisableCGO()
+	}
 	main := c.goBuffers[BufMain]
 	if wr, ok := c.goBuffers[BufDoc]; ok {
 		if !c.gen.WriteDoc(wr) {
diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 91bba50..ab974cc 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -423,9 +423,14 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 		}
 		return s
 	case cc.Union:
+		size := typ.Size()
+		if size < 0 { // incomplete
+			size = 0
+		}
 		return &CStructSpec{
 			Tag:      t.getStructTag(typ),
 			IsUnion:  true,
+			Size:     size,
 			Pointers: spec.Pointers,
 			OuterArr: spec.OuterArr,
 			InnerArr: spec.InnerArr,
diff --git a/translator/model_struct_union.go b/translator/model_struct_union.go
index ddc6b78..346cf8a 100644
--- a/translator/model_struct_union.go
+++ b/translator/model_struct_union.go
@@ -10,6 +10,7 @@ type CStructSpec struct {
 	Tag      string
 	Typedef  string
 	IsUnion  bool
+	Size     int64 // in bytes, for unions
 	Members  []*CDecl
 	Pointers uint8
 	InnerArr ArraySpec
-- 
2.43.0


From 387b6316c72f0e30c8312b031b7bc2fa4c6c828a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:53:47 +0000
Subject: [PATCH 58/77] fix: slices of void pointers as results compile

---
 generator/gen_bindings.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index 577db1d..0192297 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -913,7 +913,9 @@ func (gen *Generator) proxyRetToGo(memTip tl.Tip, varName, ptrName string,
 		proxy = fmt.Sprintf("var %s %s\n%s(%s%s, %s)", varName, goSpec, helper.Name, ref, varName, ptrName)
 		return proxy, helper.Nillable
 	case isPlain && goSpec.Slices != 0: // ex: []byte
-		specStr := ptrs(goSpec.Pointers) + goSpec.PlainType()
+		elemSpec := goSpec
+		elemSpec.Slices = 0
+		specStr := elemSpec.String()
 		proxy = fmt.Sprintf("var %s []%s\nif %s != nil {\n%s = (*(*[%s]%s)(unsafe.Pointer(%s)))[:0]\n}",
 			varName, specStr, ptrName, varName, gen.maxMem, specStr, ptrName)
 		return
-- 
2.43.0


From 82de13b6d03599066f15107f691f69ac9d62054d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:56:19 +0000
Subject: [PATCH 59/77] fix: length fields of structs that have a tag alone

---
 generator/gen_struct_helpers.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/generator/gen_struct_helpers.go b/generator/gen_struct_helpers.go
index 7635aa5..68b0143 100644
--- a/generator/gen_struct_helpers.go
+++ b/generator/gen_struct_helpers.go
@@ -357,7 +357,11 @@ func (gen *Generator) getDerefSource(goStructName []byte, cStructName string, sp
 func getLenField(gen *Generator, structSpec *tl.CStructSpec, m *tl.CDecl) string {
 	lenField := ""
 	if gen.tr.LenFields() != nil {
-		lenField = gen.tr.LenFields()[structSpec.Typedef+"."+m.Name]
+		name := structSpec.Typedef
+		if len(name) == 0 {
+			name = structSpec.Tag
+		}
+		lenField = gen.tr.LenFields()[name+"."+m.Name]
 	}
 	return lenField
 }
-- 
2.43.0


From 583630b5419cb3662d31d2cec15c88f98a156feb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:37:59 +0000
Subject: [PATCH 60/77] fix: a type map may give uintptr

Its entries compiled to calls of methods that structures have.
---
 translator/model_go_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translator/model_go_type.go b/translator/model_go_type.go
index dc0b798..98a7f6d 100644
--- a/translator/model_go_type.go
+++ b/translator/model_go_type.go
@@ -45,7 +45,7 @@ func (spec GoTypeSpec) IsPlainKind() bool {
 
 func (spec GoTypeSpec) IsPlain() bool {
 	switch spec.Base {
-	case "int", "byte", "rune", "float", "unsafe.Pointer", "bool":
+	case "int", "uintptr", "byte", "rune", "float", "unsafe.Pointer", "bool":
 		return true
 	case "string":
 		return false
-- 
2.43.0


From 79573e769e3d9cc0ec747e3ff6a02c09cf2c39af Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:42:57 +0000
Subject: [PATCH 61/77] fix: constants with escape sequences of C and with
 adjacent strings

They were left out, because Go writes '\0', '\"' and "a" "b" otherwise.
---
 translator/ast_walker.go |  2 +-
 translator/helpers.go    | 38 ++++++++++++++++++++++++++++++++++++++
 translator/translator.go |  5 ++++-
 3 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index ab974cc..5b6f66a 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -195,7 +195,7 @@ func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 								// TODO(xlab): better const handling
 								src = readNumeric(runes)
 							}
-							exprParts = append(exprParts, src)
+							exprParts = append(exprParts, goLiteral(src))
 						}
 					}
 					if !valid {
diff --git a/translator/helpers.go b/translator/helpers.go
index 134035c..9707736 100644
--- a/translator/helpers.go
+++ b/translator/helpers.go
@@ -392,6 +392,44 @@ func isGoConstExpr(src string) bool {
 	return valid
 }
 
+// goLiteral writes a character constant or a string literal of C the way Go does, where the escape
+// sequences differ, ex: '\0' is '\x00'.
+func goLiteral(src string) string {
+	if strings.HasPrefix(src, "L'") {
+		src = src[1:]
+	}
+	if len(src) < 2 || src[0] != '\'' && src[0] != '"' {
+		return src
+	}
+	const hex = "0123456789abcdefABCDEF"
+	buf := make([]byte, 0, len(src))
+	for i := 0; i < len(src); i++ {
+		if src[i] != '\\' || i+1 == len(src) {
+			buf = append(buf, src[i])
+			continue
+		}
+		i++
+		switch c := src[i]; {
+		case c == '?', c == '\'' && src[0] == '"', c == '"' && src[0] == '\'':
+			buf = append(buf, c)
+		case c >= '0' && c <= '7':
+			n := 1
+			for n < 3 && i+n < len(src) && src[i+n] >= '0' && src[i+n] <= '7' {
+				n++
+			}
+			buf = append(buf, '\\')
+			buf = append(buf, "00"[:3-n]...)
+			buf = append(buf, src[i:i+n]...)
+			i += n - 1
+		case c == 'x' && i+1 < len(src) && strings.IndexByte(hex, src[i+1]) >= 0 && (i+2 == len(src) || strings.IndexByte(hex, src[i+2]) < 0):
+			buf = append(buf, "\\x0"...) // has a single digit
+		default:
+			buf = append(buf, '\\', c)
+		}
+	}
+	return string(buf)
+}
+
 // bindLikeC adds parens to the expression where the operators having none would bind
 // differently in Go than they do in C, ex: 1 + 2 << 3 that means 1 + (2 << 3) in Go.
 func bindLikeC(src string) string {
diff --git a/translator/translator.go b/translator/translator.go
index 0389168..8ad825f 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -504,7 +504,10 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 						// TODO(xlab): better const handling
 						src = readNumeric(runes)
 					}
-					exprParts = append(exprParts, src)
+					if last := len(exprParts) - 1; last >= 0 && strings.HasPrefix(src, `"`) && strings.HasPrefix(exprParts[last], `"`) {
+						exprParts = append(exprParts, "+") // adjacent strings are one
+					}
+					exprParts = append(exprParts, goLiteral(src))
 				}
 			}
 			if !valid {
-- 
2.43.0


From 8e388cee3a8b44d5737d11c5604740f2b3c5e9ad Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:45:09 +0000
Subject: [PATCH 62/77] fix: references to macros that are expressions without
 parens

B being A*2 and A being 1+2 was declared as A * 2, which is 6 and not 5.
---
 translator/helpers.go    | 58 ++++++++++++++++++++++++++++++++++++++++
 translator/translator.go |  2 +-
 2 files changed, 59 insertions(+), 1 deletion(-)

diff --git a/translator/helpers.go b/translator/helpers.go
index 9707736..2e7375d 100644
--- a/translator/helpers.go
+++ b/translator/helpers.go
@@ -392,6 +392,64 @@ func isGoConstExpr(src string) bool {
 	return valid
 }
 
+// macroTokens returns the replacement list of the macro, where references to other macros are kept except
+// those that C and Go would bind differently, ex: B being A*2 and A being 1+2, that is 1+2*2 in C.
+func macroTokens(macro *cc.Macro, defines map[string]*cc.Macro, outer ...*cc.Macro) []cc.Token {
+	list := macro.ReplacementList()
+	if len(outer) == 0 && len(list) < 2 {
+		return list // just another name
+	} else if len(outer) > 8 {
+		return list // deep enough
+	}
+	outer = append(outer, macro)
+	tokens := make([]cc.Token, 0, len(list))
+	for _, token := range list {
+		if token.Ch == rune(cc.IDENTIFIER) {
+			if m, ok := defines[token.SrcStr()]; ok && !m.IsFnLike && !containsMacro(outer, m) {
+				if expanded := macroTokens(m, defines, outer...); hasBareOperator(expanded) {
+					tokens = append(tokens, expanded...)
+					continue
+				}
+			}
+		}
+		tokens = append(tokens, token)
+	}
+	return tokens
+}
+
+func containsMacro(list []*cc.Macro, macro *cc.Macro) bool {
+	for _, m := range list {
+		if m == macro {
+			return true
+		}
+	}
+	return false
+}
+
+// hasBareOperator reports whether there is a binary operator outside of any parens.
+func hasBareOperator(tokens []cc.Token) bool {
+	var depth int
+	for i, token := range tokens {
+		switch src := token.SrcStr(); src {
+		case "(":
+			depth++
+		case ")":
+			depth--
+		case "*", "/", "%", "+", "-", "<<", ">>", "&", "^", "|":
+			if depth > 0 || i == 0 {
+				continue
+			}
+			switch prev := tokens[i-1].SrcStr(); prev {
+			case "(", "*", "/", "%", "+", "-", "<<", ">>", "&", "^", "|", "~":
+				// an unary operator
+			default:
+				return true
+			}
+		}
+	}
+	return false
+}
+
 // goLiteral writes a character constant or a string literal of C the way Go does, where the escape
 // sequences differ, ex: '\0' is '\x00'.
 func goLiteral(src string) string {
diff --git a/translator/translator.go b/translator/translator.go
index 8ad825f..22bc07e 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -448,7 +448,7 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 			// ban bools
 			continue
 		}
-		tokens := macro.ReplacementList()
+		tokens := macroTokens(macro, defines)
 		srcParts := make([]string, 0, len(tokens))
 		exprParts := make([]string, 0, len(tokens))
 		valid := true
-- 
2.43.0


From 6e281a678fa42df0d6a8a7f2d2d0b179e498e5af Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:45:36 +0000
Subject: [PATCH 63/77] fix: macros named like an enumerator that they stand
 for

#define A (A) was a constant that refers to itself, and a macro with parameters
the second declaration of the enumerator's name.
---
 translator/helpers.go    | 10 ++++++++++
 translator/translator.go |  6 +++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/translator/helpers.go b/translator/helpers.go
index 2e7375d..793672f 100644
--- a/translator/helpers.go
+++ b/translator/helpers.go
@@ -417,6 +417,16 @@ func macroTokens(macro *cc.Macro, defines map[string]*cc.Macro, outer ...*cc.Mac
 	return tokens
 }
 
+// namesItself reports whether the macro just stands for something else of its name, ex: an enumerator.
+func namesItself(macro *cc.Macro) bool {
+	for _, token := range macro.ReplacementList() {
+		if token.Ch == rune(cc.IDENTIFIER) && token.SrcStr() == macro.Name.SrcStr() {
+			return true
+		}
+	}
+	return false
+}
+
 func containsMacro(list []*cc.Macro, macro *cc.Macro) bool {
 	for _, m := range list {
 		if m == macro {
diff --git a/translator/translator.go b/translator/translator.go
index 22bc07e..89eb6f9 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -375,7 +375,7 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 	for _, macro := range defines {
 		if t.IsTokenIgnored(macro.Position()) {
 			continue
-		} else if macro.IsFnLike {
+		} else if macro.IsFnLike || namesItself(macro) {
 			continue
 		}
 		name := string(macro.Name.SrcStr())
@@ -391,7 +391,7 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 		pruned = false
 		for _, macro := range defines {
 			name := string(macro.Name.SrcStr())
-			if _, ok := seen[name]; !ok || macro.IsFnLike || macro.Value() != cc.Unknown {
+			if _, ok := seen[name]; !ok || macro.IsFnLike || macro.Value() != cc.Unknown || namesItself(macro) {
 				continue
 			}
 			for _, token := range macro.ReplacementList() {
@@ -416,7 +416,7 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 			continue
 		}
 		name := string(macro.Name.SrcStr())
-		if _, ok := seen[name]; !ok {
+		if _, ok := seen[name]; !ok || macro.IsFnLike || namesItself(macro) {
 			continue
 		}
 		expand := false
-- 
2.43.0


From e26bb1d561804b98e13755a92ad67be5be81ceae Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:48:18 +0000
Subject: [PATCH 64/77] fix: negative floating point constants

const double X = -4.75 was declared as a variable with the value zero.
---
 translator/ast_walker.go |  4 ++++
 translator/helpers.go    | 25 +++++++++++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 5b6f66a..d829357 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -62,6 +62,10 @@ func (t *Translator) walkDeclaration(d *cc.Declaration) (declared []*CDecl) {
 					decl.Value = v
 				}
 				decl.Expression = blessName(init.Token.SrcStr())
+				if decl.Value == nil && len(decl.Expression) == 0 && declr.IsConst() && cc.IsFloatingPointType(declr.Type()) {
+					// the C front end doesn't evaluate the sign of floating point numbers
+					decl.Expression = signedNumber(cc.NodeTokens(init.AssignmentExpression))
+				}
 			}
 			t.registerTagsOf(decl)
 			declared = append(declared, decl)
diff --git a/translator/helpers.go b/translator/helpers.go
index 793672f..b448be9 100644
--- a/translator/helpers.go
+++ b/translator/helpers.go
@@ -427,6 +427,31 @@ func namesItself(macro *cc.Macro) bool {
 	return false
 }
 
+// signedNumber returns the expression in Go, if it is a single number with signs or parens.
+func signedNumber(tokens []cc.Token) string {
+	var numbers int
+	parts := make([]string, 0, len(tokens))
+	for _, token := range tokens {
+		src := token.SrcStr()
+		switch src {
+		case "+", "-", "(", ")":
+		default:
+			numbers++
+			runes := []rune(src)
+			if len(runes) == 0 || !isNumeric(runes) {
+				return ""
+			}
+			src = readNumeric(runes)
+		}
+		parts = append(parts, src)
+	}
+	expr := strings.Join(parts, " ")
+	if numbers != 1 || !isGoConstExpr(expr) {
+		return ""
+	}
+	return expr
+}
+
 func containsMacro(list []*cc.Macro, macro *cc.Macro) bool {
 	for _, m := range list {
 		if m == macro {
-- 
2.43.0


From 58211d5260714cad001b7c0b0ec04bf5fc884942 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:51:55 +0000
Subject: [PATCH 65/77] fix: struct members named like the helper methods

---
 generator/gen_common.go         | 14 +++++++++++++-
 generator/gen_declares.go       |  4 ++++
 generator/gen_struct_helpers.go |  6 ++----
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/generator/gen_common.go b/generator/gen_common.go
index ba2de5f..5aad690 100644
--- a/generator/gen_common.go
+++ b/generator/gen_common.go
@@ -15,6 +15,18 @@ var (
 	skipNameStr = "_"
 )
 
+// memberName gets the name of the Go field for a struct member. A field can't have
+// the name of a method, so it gets an underscore if it is named like a struct helper.
+func (gen *Generator) memberName(cName string) []byte {
+	const public = true
+	name := gen.tr.TransformName(tl.TargetType, cName, public)
+	switch string(name) {
+	case "Ref", "Free", "PassRef", "PassValue", "Deref":
+		return []byte(string(name) + "_")
+	}
+	return name
+}
+
 func (gen *Generator) writeStructMembers(wr io.Writer, structName string, spec tl.CType) {
 	structSpec := spec.(*tl.CStructSpec)
 	ptrTipRx, typeTipRx, memTipRx := gen.tr.TipRxsForSpec(tl.TipScopeType, structName, structSpec)
@@ -35,7 +47,7 @@ func (gen *Generator) writeStructMembers(wr io.Writer, structName string, spec t
 		if memTip == tl.TipMemRaw {
 			ptrTip = tl.TipPtrSRef
 		}
-		declName := checkName(gen.tr.TransformName(tl.TargetType, member.Name, public))
+		declName := checkName(gen.memberName(member.Name))
 		switch member.Spec.Kind() {
 		case tl.TypeKind:
 			goSpec := gen.tr.TranslateSpec(member.Spec, ptrTip, typeTip)
diff --git a/generator/gen_declares.go b/generator/gen_declares.go
index 42b3ba2..b771ffc 100644
--- a/generator/gen_declares.go
+++ b/generator/gen_declares.go
@@ -52,6 +52,10 @@ func (gen *Generator) writeFunctionAsArg(wr io.Writer, decl *tl.CDecl,
 	var returnRef string
 	cName, _ := getName(decl)
 	goName := checkName(gen.tr.TransformName(tl.TargetType, cName, public))
+	if public {
+		// this is a member of a struct
+		goName = checkName(gen.memberName(cName))
+	}
 	spec := decl.Spec.(*tl.CFunctionSpec)
 	if len(spec.Typedef) > 0 {
 		funcName := checkName(gen.tr.TransformName(tl.TargetType, spec.Typedef))
diff --git a/generator/gen_struct_helpers.go b/generator/gen_struct_helpers.go
index 68b0143..3fe39a9 100644
--- a/generator/gen_struct_helpers.go
+++ b/generator/gen_struct_helpers.go
@@ -272,8 +272,7 @@ func (gen *Generator) getPassRefSource(goStructName []byte, cStructName string,
 		typeTip := typeTipRx.TipAt(i)
 		goSpec := gen.tr.TranslateSpec(m.Spec, ptrTip, typeTip)
 		cgoSpec := gen.tr.CGoSpec(m.Spec, false)
-		const public = true
-		goName := "x." + string(gen.tr.TransformName(tl.TargetType, m.Name, public))
+		goName := "x." + string(gen.memberName(m.Name))
 		fromProxy, nillable := gen.proxyValueFromGo(memTip, goName, goSpec, cgoSpec)
 		if nillable {
 			fmt.Fprintf(buf, "if %s != nil {\n", goName)
@@ -343,8 +342,7 @@ func (gen *Generator) getDerefSource(goStructName []byte, cStructName string, sp
 		}
 		typeTip := typeTipRx.TipAt(i)
 		goSpec := gen.tr.TranslateSpec(m.Spec, ptrTip, typeTip)
-		const public = true
-		goName := "x." + string(gen.tr.TransformName(tl.TargetType, m.Name, public))
+		goName := "x." + string(gen.memberName(m.Name))
 		cgoName := fmt.Sprintf("x.ref%2x.%s", crc, m.Name)
 		cgoSpec := gen.tr.CGoSpec(m.Spec, false)
 		lenField := getLenField(gen, structSpec, m)
-- 
2.43.0


From 839b7b03cf78a4d485fb83e853c99ee0af617418 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:41:46 +0000
Subject: [PATCH 66/77] fix: packages with variadic functions do not compile

---
 generator/generator.go       | 5 ++++-
 translator/ast_walker.go     | 1 +
 translator/model_function.go | 1 +
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/generator/generator.go b/generator/generator.go
index cb6acc1..b210630 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -353,7 +353,10 @@ func (gen *Generator) WriteDeclares(wr io.Writer) int {
 				gen.writeEnumDeclaration(wr, decl, tl.NoTip, tl.NoTip, public)
 			}
 		case tl.FunctionKind:
-			if !gen.tr.IsAcceptableName(tl.TargetFunction, decl.Name) {
+			if decl.Spec.(*tl.CFunctionSpec).Variadic && !gen.noCGO {
+				// cgo has no calls of variadic functions
+				continue
+			} else if !gen.tr.IsAcceptableName(tl.TargetFunction, decl.Name) {
 				continue
 			} else if seenFunctions[decl.Name] {
 				continue
diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index d829357..76339ad 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -298,6 +298,7 @@ func (t *Translator) functionSpec(base *CTypeSpec, typ cc.Type, name string, isC
 			}
 			spec.Return = t.typeSpec(ret, name, deep+1, isResultConst, true)
 		}
+		spec.Variadic = funcType.IsVariadic()
 		params := funcType.Parameters()
 		for i, p := range params {
 			if p.Type().Kind() != cc.Void { // cc v4 may return a "void" parameter, which means no parameters.
diff --git a/translator/model_function.go b/translator/model_function.go
index 01f967e..767f394 100644
--- a/translator/model_function.go
+++ b/translator/model_function.go
@@ -10,6 +10,7 @@ type CFunctionSpec struct {
 	Typedef  string
 	Return   CType
 	Params   []*CDecl
+	Variadic bool // is not for cgo
 	Pointers uint8
 }
 
-- 
2.43.0


From 02c26d77306c95f0dbaff731795aba55f0e2d5f8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:41:48 +0000
Subject: [PATCH 67/77] fix: typedefs of pointers to structs

---
 generator/gen_callbacks.go       |  6 ++-
 generator/gen_typedef.go         | 12 +++++
 translator/ast_walker.go         | 10 ++++
 translator/model_struct_union.go | 18 ++++++++
 translator/translator.go         | 78 +++++++++++++++++++++++++++++++-
 5 files changed, 122 insertions(+), 2 deletions(-)

diff --git a/generator/gen_callbacks.go b/generator/gen_callbacks.go
index 7ed41cc..b370684 100644
--- a/generator/gen_callbacks.go
+++ b/generator/gen_callbacks.go
@@ -130,7 +130,11 @@ func (gen *Generator) getCallbackHelpers(goFuncName, cFuncName string, spec tl.C
 		ret := fmt.Sprintf("__ret%2x", crc) // not the name of a parameter
 		fmt.Fprintf(buf, "%s := %sFunc(%s)\n", ret, cbGoName, paramNamesGoList)
 		ptrTipRx, typeTipRx, memTipRx := gen.tr.TipRxsForSpec(tl.TipScopeFunction, cFuncName, funcSpec)
-		retGoSpec := gen.tr.TranslateSpec(funcSpec.Return, ptrTipRx.Self(), typeTipRx.Self())
+		ptrTip := ptrTipRx.Self()
+		if !ptrTip.IsValid() {
+			ptrTip = tl.TipPtrRef // as in writeFunctionTypedef
+		}
+		retGoSpec := gen.tr.TranslateSpec(funcSpec.Return, ptrTip, typeTipRx.Self())
 		retCGoSpec := gen.tr.CGoSpec(funcSpec.Return, true) // asArg?
 		retTip := memTipRx.Self()
 		if !retTip.IsValid() {
diff --git a/generator/gen_typedef.go b/generator/gen_typedef.go
index f5b65fa..8b4e7f6 100644
--- a/generator/gen_typedef.go
+++ b/generator/gen_typedef.go
@@ -107,6 +107,18 @@ func (gen *Generator) writeStructTypedef(wr io.Writer, decl *tl.CDecl, raw bool,
 	} else {
 		seenNames[string(goName)] = true
 	}
+	if spec, ok := decl.Spec.(*tl.CStructSpec); ok && spec.IsHandle {
+		// a typedef of a pointer has no methods
+		fmt.Fprintf(wr, "// %s as declared in %s\n", goName,
+			filepath.ToSlash(gen.tr.SrcLocation(tl.TargetType, cName, decl.Position)))
+		if gen.noCGO {
+			fmt.Fprintf(wr, "type %s unsafe.Pointer", goName)
+		} else {
+			fmt.Fprintf(wr, "type %s C.%s", goName, decl.Spec.CGoName())
+		}
+		writeSpace(wr, 1)
+		return
+	}
 	if gen.noCGO {
 		fmt.Fprintf(wr, "// %s as declared in %s\n", goName,
 			filepath.ToSlash(gen.tr.SrcLocation(tl.TargetType, cName, decl.Position)))
diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 76339ad..59a325f 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -337,7 +337,13 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 		}
 	}
 	var isVoidPtr bool
+	var handle string // the first typedef of a pointer type
+	var handleLevel uint8
 	for pointerType, ok := typ.(*cc.PointerType); ok; pointerType, ok = typ.(*cc.PointerType) {
+		if def := pointerType.Typedef(); def != nil && len(handle) == 0 {
+			handle = blessName(def.Name())
+			handleLevel = spec.Pointers
+		}
 		if next := pointerType.Elem(); next.Kind() == cc.Void {
 			isVoidPtr = true
 			spec.Base = "void*"
@@ -440,12 +446,16 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 			OuterArr: spec.OuterArr,
 			InnerArr: spec.InnerArr,
 			Typedef:  typedefNameOf(typ),
+
+			handle:      handle,
+			handleLevel: handleLevel,
 		}
 	case cc.Struct:
 		s := t.structSpec(spec, typ, deep+1)
 		if !isRet {
 			s.Typedef = typedefNameOf(typ)
 		}
+		s.handle, s.handleLevel = handle, handleLevel
 		return s
 	case cc.Function:
 		s := t.functionSpec(spec, typ, name, isConst, deep+1)
diff --git a/translator/model_struct_union.go b/translator/model_struct_union.go
index 346cf8a..cacaebe 100644
--- a/translator/model_struct_union.go
+++ b/translator/model_struct_union.go
@@ -15,6 +15,24 @@ type CStructSpec struct {
 	Pointers uint8
 	InnerArr ArraySpec
 	OuterArr ArraySpec
+
+	// IsHandle is true for a typedef of a pointer, in this case Typedef is its name,
+	// Pointers are counted from the typedef, and the struct itself is not known.
+	IsHandle bool
+
+	handle      string // the typedef of a pointer to the struct that the type is declared with
+	handleLevel uint8  // the pointers to this typedef
+}
+
+// isHandleOf checks that the spec is of a typedef for a pointer.
+func (c *CStructSpec) isHandleOf(name string) bool {
+	return c.Pointers > 0 && c.handle == name && c.handleLevel == 0
+}
+
+// makeHandle turns a pointer to struct or union into the typedef of that pointer.
+func (c *CStructSpec) makeHandle(name string, level uint8) {
+	c.Tag, c.Typedef, c.Pointers = "", name, level
+	c.IsHandle, c.IsUnion, c.Size, c.Members = true, false, 0, nil
 }
 
 func (spec CStructSpec) String() string {
diff --git a/translator/translator.go b/translator/translator.go
index 89eb6f9..5caabff 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -317,6 +317,7 @@ func (s declList) Less(i, j int) bool {
 
 func (t *Translator) Learn(ast *cc.AST) {
 	t.walkTranslationUnit(ast.TranslationUnit)
+	t.resolveHandles()
 	t.resolveTypedefs(t.typedefs)
 	sort.Sort(declList(t.declares))
 	sort.Sort(declList(t.typedefs))
@@ -960,6 +961,76 @@ func (t *Translator) TranslateSpec(spec CType, tips ...Tip) GoTypeSpec {
 	}
 }
 
+// resolveHandles makes the pointers to structs that are declared with a typedef of the pointer
+// refer to this typedef, if the struct has no name of its own. For example,
+//
+//	typedef struct a_T *a;
+//	void f(a arg, a *args, struct a_T *other);
+//
+// has only arguments of the type a, that is the only type known by name.
+func (t *Translator) resolveHandles() {
+	type tagInfo struct {
+		name     string // of the type, if there is a typedef
+		isHandle bool
+		level    uint8 // the pointers of the typedef
+	}
+	tags := make(map[string]tagInfo, len(t.tagMap))
+	for tag, decl := range t.tagMap {
+		if spec, ok := decl.Spec.(*CStructSpec); ok && decl.IsTypedef {
+			tags[tag] = tagInfo{decl.Name, spec.isHandleOf(decl.Name), spec.Pointers}
+		}
+	}
+	var resolve func(spec CType)
+	resolve = func(spec CType) {
+		switch spec := spec.(type) {
+		case *CFunctionSpec:
+			for _, param := range spec.Params {
+				resolve(param.Spec)
+			}
+			if spec.Return != nil {
+				resolve(spec.Return)
+			}
+		case *CStructSpec:
+			for _, member := range spec.Members {
+				resolve(member.Spec)
+			}
+			tag, hasTag := tags[spec.Tag]
+			switch {
+			case len(spec.handle) > 0:
+				elem := spec.Typedef
+				if elem == spec.handle {
+					elem = ""
+				}
+				if hasTag && !tag.isHandle && len(elem) == 0 {
+					elem = tag.name
+				}
+				if len(elem) == 0 || spec.handleLevel > 0 || len(spec.OuterArr) > 0 {
+					spec.makeHandle(spec.handle, spec.handleLevel)
+					return
+				}
+				spec.Typedef = elem
+			case len(spec.Typedef) > 0 || !hasTag:
+			case !tag.isHandle:
+				if t.IsAcceptableName(TargetType, tag.name) {
+					spec.Typedef = tag.name
+				}
+			case spec.Pointers >= tag.level:
+				spec.makeHandle(tag.name, spec.Pointers-tag.level)
+			}
+		}
+	}
+	for _, decl := range t.declares {
+		resolve(decl.Spec)
+	}
+	for _, decl := range t.typedefs {
+		if spec, ok := decl.Spec.(*CStructSpec); ok && spec.isHandleOf(decl.Name) {
+			spec.makeHandle(decl.Name, 0)
+			continue
+		}
+		resolve(decl.Spec)
+	}
+}
+
 func (t *Translator) NormalizeSpecPointers(spec CType) CType {
 	if spec.Kind() == OpaqueStructKind {
 		decl, tagKnown := t.tagMap[spec.GetTag()]
@@ -1009,7 +1080,12 @@ func (t *Translator) registerTagsOf(decl *CDecl) {
 			case !hasPrev:
 				// first time seen -> store the tag
 				t.tagMap[tag] = decl
-			case decl.IsTypedef && !prev.IsTypedef:
+			case decl.IsTypedef && decl.Spec.GetPointers() > 0:
+				// a typedef for pointers to tag prevails only if nothing else is known
+				if !prev.IsTypedef && !prev.Spec.IsComplete() {
+					t.tagMap[tag] = decl
+				}
+			case decl.IsTypedef && (!prev.IsTypedef || prev.Spec.GetPointers() > 0):
 				// a typedef for tag prevails simple tag declarations
 				t.tagMap[tag] = decl
 			case decl.Spec.IsComplete() && !prev.Spec.IsComplete():
-- 
2.43.0


From c49004d72c1a9ed07a2cb3f921fe681355385380 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:41:50 +0000
Subject: [PATCH 68/77] fix: typedefs of pointers and arrays in params and
 fields

---
 generator/gen_bindings.go |  9 ++++++++-
 translator/ast_walker.go  | 29 +++++++++++++++++++++++++++++
 translator/model_type.go  |  4 ++++
 translator/translator.go  |  2 --
 4 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index 0192297..18d815f 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -1063,7 +1063,14 @@ func (gen *Generator) writeFunctionBody(wr io.Writer, decl *tl.CDecl) {
 	fmt.Fprintf(wr, "C.%s", decl.Name)
 	writeStartParams(wr)
 	for i := range spec.Params {
-		fmt.Fprint(wr, from[i].Name)
+		if typ, ok := spec.Params[i].Spec.(*tl.CTypeSpec); ok && len(typ.PtrTypedef) > 0 &&
+			int(typ.Pointers)+len(typ.OuterArr.Sizes()) > 1 {
+			// in cgo a pointer to the typedef of a pointer is not a pointer to pointer
+			ptrs := strings.Repeat("*", int(typ.PtrLevel)+len(typ.OuterArr.Sizes()))
+			fmt.Fprintf(wr, "(%sC.%s)(unsafe.Pointer(%s))", ptrs, typ.PtrTypedef, from[i].Name)
+		} else {
+			fmt.Fprint(wr, from[i].Name)
+		}
 		if i < len(spec.Params)-1 {
 			fmt.Fprint(wr, ", ")
 		}
diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 59a325f..4ab2c09 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -289,6 +289,9 @@ func (t *Translator) functionSpec(base *CTypeSpec, typ cc.Type, name string, isC
 			if funcType.Result().Typedef() != nil {
 				name = identifierOf(funcType.Result().Typedef().DirectDeclarator)
 				isResultConst = isResultConst || funcType.Result().Typedef().IsConst()
+				if ret.Kind() == cc.Ptr && base.Pointers == 0 && typ.Typedef() == nil {
+					isResultConst = isBaseConst(ret)
+				}
 			} else if ptr, ok := ret.(*cc.PointerType); ok && base.Pointers == 0 && typ.Typedef() == nil {
 				// the const qualifier in a result like const char* belongs to the pointer target
 				target := ptr.Elem()
@@ -307,6 +310,10 @@ func (t *Translator) functionSpec(base *CTypeSpec, typ cc.Type, name string, isC
 				if p.Declarator != nil {
 					name = identifierOf(p.Declarator.DirectDeclarator)
 					isParamConst = p.Declarator.IsConst()
+					if p.Type().Kind() == cc.Ptr && p.Type().Typedef() != nil {
+						// otherwise const belongs to the pointer
+						isParamConst = isBaseConst(p.Type())
+					}
 				} else {
 					isParamConst = isBaseConst(p.Type())
 				}
@@ -354,6 +361,9 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 	}
 	for innerArrayType, ok := typ.(*cc.ArrayType); ok; innerArrayType, ok = typ.(*cc.ArrayType) {
 		size := innerArrayType.Len()
+		if len(spec.Raw) > 0 && innerArrayType.Typedef() != nil {
+			size = -1 // a part of the type
+		}
 		typ = innerArrayType.Elem()
 		if size >= 0 {
 			spec.AddInnerArr(uint64(size))
@@ -362,6 +372,7 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 	if isVoidPtr {
 		return spec
 	}
+	spec.PtrTypedef, spec.PtrLevel = handle, handleLevel
 
 	switch typ.Kind() {
 	case cc.Void:
@@ -504,9 +515,27 @@ func memberName(n int, f *cc.Field) string {
 	return blessName(f.Name())
 }
 
+// typedefNameOf gets the name of the type that is left of typ when it's taken without
+// pointers and arrays, unless it is a typedef of a pointer to function or void.
 func typedefNameOf(typ cc.Type) string {
 	var name string
 	typeDef := typ.Typedef()
+	switch typ := typ.(type) {
+	case *cc.PointerType:
+		switch typ.Elem().Kind() {
+		case cc.Function, cc.Struct, cc.Union:
+		case cc.Void:
+			if typeDef == nil {
+				return "" // a name of void itself
+			}
+		case cc.Array:
+			typeDef = typ.Elem().Typedef()
+		default:
+			return typedefNameOf(typ.Elem())
+		}
+	case *cc.ArrayType:
+		return typedefNameOf(typ.Elem())
+	}
 	if typeDef != nil {
 		name = blessName(typeDef.Name())
 
diff --git a/translator/model_type.go b/translator/model_type.go
index 5e8e1b0..6fbe7f2 100644
--- a/translator/model_type.go
+++ b/translator/model_type.go
@@ -18,6 +18,10 @@ type CTypeSpec struct {
 	Pointers uint8
 	InnerArr ArraySpec
 	OuterArr ArraySpec
+
+	// PtrTypedef is the first typedef of a pointer, PtrLevel is for the pointers to this typedef.
+	PtrTypedef string
+	PtrLevel   uint8
 }
 
 func (spec CTypeSpec) String() string {
diff --git a/translator/translator.go b/translator/translator.go
index 5caabff..435029b 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -1058,8 +1058,6 @@ func (t *Translator) CGoSpec(spec CType, asArg bool) CGoSpec {
 			if len(typ.Raw) == 0 {
 				cgo.Base = "unsafe.Pointer"
 				return cgo
-			} else if !asArg {
-				cgo.Pointers++
 			}
 		}
 	}
-- 
2.43.0


From 5b2ffdd699bba0752b32b0cd2b113d119b3cca57 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:41:51 +0000
Subject: [PATCH 69/77] fix: typedefs of void pointers

---
 generator/gen_bindings.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index 18d815f..8ed6fa3 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -68,7 +68,7 @@ func getHelperName(goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec) string {
 	if goSpec.Unsigned {
 		buf.WriteRune('U')
 	}
-	buf.WriteString(strings.Title(goSpec.PlainType()))
+	buf.WriteString(strings.Replace(strings.Title(goSpec.PlainType()), ".", "", -1)) // ex: unsafe.Pointer
 	if len(goSpec.Raw) == 0 {
 		buf.WriteString(strings.Title(cgoSpec.Base[strings.LastIndexByte(cgoSpec.Base, '.')+1:]))
 	}
@@ -582,6 +582,10 @@ func (gen *Generator) proxyArgFromGo(memTip tl.Tip, name string,
 			(len(goSpec.Raw) == 0 || goSpec.Raw == "unsafe.Pointer") {
 			// Go 1.8+
 			proxy = fmt.Sprintf("%s, cgoAllocsUnknown", name)
+			if cgoSpec.Base != "unsafe.Pointer" && cgoSpec.Pointers == 0 {
+				// a typedef of void* is another type for cgo
+				proxy = fmt.Sprintf("(%s)(%s), cgoAllocsUnknown", cgoSpec, name)
+			}
 			return
 		} else if goSpec.Pointers == 0 {
 			ref = "&"
-- 
2.43.0


From 1b22ceaf5884bea27ce850bc4b66b8f5011f51f8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:41:53 +0000
Subject: [PATCH 70/77] fix: macros that do not compile in Go

---
 translator/helpers.go    | 53 ++++++++++++++++++++++++++++++++
 translator/translator.go | 66 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 119 insertions(+)

diff --git a/translator/helpers.go b/translator/helpers.go
index b448be9..2172da6 100644
--- a/translator/helpers.go
+++ b/translator/helpers.go
@@ -6,10 +6,13 @@ import (
 	"go/ast"
 	"go/format"
 	"go/parser"
+	"go/scanner"
 	gotoken "go/token"
+	"go/types"
 	"math"
 	"path/filepath"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 	"sync"
@@ -626,6 +629,56 @@ func sizesFromOuter(spec ArraySpec) []ArraySizeSpec {
 	return sizes
 }
 
+// failedConsts tells the constants that do not compile, of those declared as [type] = expr,
+// with the types that are declared for them.
+func failedConsts(typeExprs, constExprs map[string]string) map[string]bool {
+	var src bytes.Buffer
+	src.WriteString("package p\n")
+	var lines []string // names by the lines that follow
+	write := func(keyword string, exprs map[string]string) {
+		names := make([]string, 0, len(exprs))
+		for name := range exprs {
+			if gotoken.IsIdentifier(name) {
+				names = append(names, name)
+			}
+		}
+		sort.Strings(names)
+		for _, name := range names {
+			fmt.Fprintf(&src, "%s %s %s\n", keyword, name, exprs[name])
+			lines = append(lines, name)
+		}
+	}
+	write("type", typeExprs)
+	typeLines := len(lines)
+	write("const", constExprs)
+
+	failed := make(map[string]bool)
+	fail := func(line int) {
+		if n := line - 2; n >= typeLines && n < len(lines) {
+			failed[lines[n]] = true
+		}
+	}
+	fset := gotoken.NewFileSet()
+	file, err := parser.ParseFile(fset, "", src.Bytes(), parser.AllErrors)
+	if list, ok := err.(scanner.ErrorList); ok {
+		for _, err := range list {
+			fail(err.Pos.Line)
+		}
+	}
+	if err != nil {
+		return failed
+	}
+	conf := types.Config{
+		Error: func(err error) {
+			if err, ok := err.(types.Error); ok {
+				fail(fset.Position(err.Pos).Line)
+			}
+		},
+	}
+	conf.Check("p", fset, []*ast.File{file}, nil)
+	return failed
+}
+
 // goConstValue returns the evaluated value of a macro in the form of a Go literal,
 // and false if there is no such form.
 func goConstValue(v cc.Value) (Value, bool) {
diff --git a/translator/translator.go b/translator/translator.go
index 435029b..e70bca1 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -324,6 +324,7 @@ func (t *Translator) Learn(ast *cc.AST) {
 	// enums are declared on their own or within typedefs
 	decls := append(append([]*CDecl{}, t.declares...), t.typedefs...)
 	t.collectDefines(decls, ast.Macros)
+	t.checkDefines(decls)
 	sort.Sort(declList(t.defines))
 }
 
@@ -548,6 +549,71 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 	}
 }
 
+// checkDefines leaves out the macros that don't compile in Go. These are mostly unsigned
+// numbers that wrap around, such as ((size_t)-1).
+func (t *Translator) checkDefines(declares []*CDecl) {
+	types := make(map[string]string)
+	consts := make(map[string]string)
+	for _, decl := range t.typedefs {
+		if decl.Spec.Kind() == TypeKind && t.IsAcceptableName(TargetType, decl.Name) {
+			types[string(t.TransformName(TargetType, decl.Name))] = t.TranslateSpec(decl.Spec).UnderlyingString()
+		}
+	}
+	for _, decl := range declares {
+		spec, ok := decl.Spec.(*CEnumSpec)
+		if !ok {
+			continue
+		}
+		typeName := decl.Name
+		if !decl.IsTypedef {
+			typeName = spec.Tag
+		}
+		goType := string(t.TransformName(TargetType, typeName))
+		if len(goType) > 0 {
+			types[goType] = t.TranslateSpec(&spec.Type).String()
+		}
+		for _, m := range spec.Members {
+			if t.IsAcceptableName(TargetConst, m.Name) {
+				consts[string(t.TransformName(TargetConst, m.Name))] = fmt.Sprintf("%s = %v", goType, t.valueMap[m.Name])
+			}
+		}
+	}
+	for {
+		defines := make(map[string]*CDecl, len(t.defines))
+		exprs := make(map[string]string, len(t.defines)+len(consts))
+		for name, expr := range consts {
+			exprs[name] = expr
+		}
+		for _, decl := range t.defines {
+			name := string(t.TransformName(TargetConst, decl.Name))
+			if _, ok := exprs[name]; ok {
+				continue // declared by another name
+			}
+			defines[name] = decl
+			if decl.Value != nil {
+				exprs[name] = fmt.Sprintf("= %v", decl.Value)
+			} else if len(decl.Expression) > 0 {
+				exprs[name] = "= " + decl.Expression
+			}
+		}
+		failed := failedConsts(types, exprs)
+		changed := false
+		left := t.defines[:0]
+		for _, decl := range t.defines {
+			name := string(t.TransformName(TargetConst, decl.Name))
+			if defines[name] == decl && failed[name] {
+				changed = true
+				continue
+			}
+			left = append(left, decl)
+		}
+		t.defines = left
+		if !changed {
+			return
+		}
+	}
+}
+
 func (t *Translator) resolveTypedefs(typedefs []*CDecl) {
 	for _, decl := range typedefs {
 		if t.IsTokenIgnored(decl.Position) {
-- 
2.43.0


From c47dd3792ec156e88a1492fa37b513e411d46492 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:41:54 +0000
Subject: [PATCH 71/77] fix: pointers to functions in structs, params and
 results

---
 generator/gen_bindings.go  |  4 ++--
 generator/gen_callbacks.go | 21 ++++++++++++++++-----
 translator/ast_walker.go   |  7 +++++++
 translator/model_type.go   |  1 +
 translator/translator.go   |  5 +++++
 5 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index 8ed6fa3..2067de3 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -582,7 +582,7 @@ func (gen *Generator) proxyArgFromGo(memTip tl.Tip, name string,
 			(len(goSpec.Raw) == 0 || goSpec.Raw == "unsafe.Pointer") {
 			// Go 1.8+
 			proxy = fmt.Sprintf("%s, cgoAllocsUnknown", name)
-			if cgoSpec.Base != "unsafe.Pointer" && cgoSpec.Pointers == 0 {
+			if cgoSpec.Base != "unsafe.Pointer" {
 				// a typedef of void* is another type for cgo
 				proxy = fmt.Sprintf("(%s)(%s), cgoAllocsUnknown", cgoSpec, name)
 			}
@@ -878,7 +878,7 @@ func (gen *Generator) proxyValueToGo(memTip tl.Tip, varName, ptrName string,
 		return
 	default: // ex: *SomeType
 		var ref, deref string
-		if cgoSpec.Pointers == 0 {
+		if cgoSpec.Pointers == 0 || goSpec.Kind == tl.FunctionKind {
 			deref = "*"
 			ref = "&"
 		}
diff --git a/generator/gen_callbacks.go b/generator/gen_callbacks.go
index b370684..5716c94 100644
--- a/generator/gen_callbacks.go
+++ b/generator/gen_callbacks.go
@@ -135,7 +135,7 @@ func (gen *Generator) getCallbackHelpers(goFuncName, cFuncName string, spec tl.C
 			ptrTip = tl.TipPtrRef // as in writeFunctionTypedef
 		}
 		retGoSpec := gen.tr.TranslateSpec(funcSpec.Return, ptrTip, typeTipRx.Self())
-		retCGoSpec := gen.tr.CGoSpec(funcSpec.Return, true) // asArg?
+		retCGoSpec := gen.exportCGoSpec(funcSpec.Return, true) // asArg?
 		retTip := memTipRx.Self()
 		if !retTip.IsValid() {
 			retTip = gen.MemTipOf(&tl.CDecl{Spec: funcSpec.Return})
@@ -164,7 +164,7 @@ func (gen *Generator) writeCallbackProxyFunc(wr io.Writer, decl *tl.CDecl) {
 	var returnRef string
 	funcSpec := decl.Spec.(*tl.CFunctionSpec)
 	if funcSpec.Return != nil {
-		cgoSpec := gen.tr.CGoSpec(funcSpec.Return, false)
+		cgoSpec := gen.exportCGoSpec(funcSpec.Return, false)
 		returnRef = cgoSpec.String()
 	}
 	fmt.Fprintf(wr, "func %s", decl.Name)
@@ -184,7 +184,7 @@ func (gen *Generator) writeCallbackProxyFuncParams(wr io.Writer, spec tl.CType)
 		if len(param.Name) == 0 {
 			declName = []byte(fmt.Sprintf("arg%d", i))
 		}
-		cgoSpec := gen.tr.CGoSpec(param.Spec, true)
+		cgoSpec := gen.exportCGoSpec(param.Spec, true)
 		fmt.Fprintf(wr, "c%s %s", declName, cgoSpec.AtLevel(0))
 
 		if i < len(funcSpec.Params)-1 {
@@ -194,6 +194,17 @@ func (gen *Generator) writeCallbackProxyFuncParams(wr io.Writer, spec tl.CType)
 	writeEndParams(wr)
 }
 
+// exportCGoSpec returns the spec of a param or a result in an exported function,
+// there are no pointers to functions other than by a typedef of these.
+func (gen *Generator) exportCGoSpec(spec tl.CType, asArg bool) tl.CGoSpec {
+	cgoSpec := gen.tr.CGoSpec(spec, asArg)
+	if cgoSpec.Pointers > 0 && (cgoSpec.Base == "[0]byte" || spec.Kind() == tl.FunctionKind) {
+		cgoSpec.Base = "unsafe.Pointer"
+		cgoSpec.Pointers--
+	}
+	return cgoSpec
+}
+
 func (gen *Generator) createCallbackProxies(funcName string, funcSpec tl.CType) (to []proxyDecl) {
 	spec := funcSpec.(*tl.CFunctionSpec)
 	to = make([]proxyDecl, 0, len(spec.Params))
@@ -205,7 +216,7 @@ func (gen *Generator) createCallbackProxies(funcName string, funcSpec tl.CType)
 		ptrTip := ptrTipRx.TipAt(i)
 		typeTip := gen.paramTypeTip(typeTipRx, i, param)
 		goSpec = gen.tr.TranslateSpec(param.Spec, ptrTip, typeTip)
-		cgoSpec := gen.tr.CGoSpec(param.Spec, true)
+		cgoSpec := gen.exportCGoSpec(param.Spec, true)
 		const public = false
 		refName := string(gen.tr.TransformName(tl.TargetType, param.Name, public))
 		if len(param.Name) == 0 {
@@ -288,7 +299,7 @@ func (gen *Generator) proxyCallbackArgToGo(memTip tl.Tip, varName, ptrName strin
 		return
 	default: // ex: *SomeType
 		var ref, deref string
-		if cgoSpec.Pointers == 0 {
+		if cgoSpec.Pointers == 0 || goSpec.Kind == tl.FunctionKind {
 			deref = "*"
 			ref = "&"
 		}
diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 4ab2c09..e5c3c24 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -373,6 +373,13 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 		return spec
 	}
 	spec.PtrTypedef, spec.PtrLevel = handle, handleLevel
+	if typ.Kind() == cc.Function && deep > 0 && spec.Pointers > 0 && len(handle) == 0 && typ.Typedef() == nil {
+		// a pointer to a function that has no name, it's not possible to make a callback for it
+		spec.Base = "void*"
+		spec.FuncPtr = true
+		spec.Pointers--
+		return spec
+	}
 
 	switch typ.Kind() {
 	case cc.Void:
diff --git a/translator/model_type.go b/translator/model_type.go
index 6fbe7f2..7a128a7 100644
--- a/translator/model_type.go
+++ b/translator/model_type.go
@@ -14,6 +14,7 @@ type CTypeSpec struct {
 	Short    bool
 	Long     bool
 	Complex  bool
+	FuncPtr  bool // a void* that points to a function
 	Opaque   bool
 	Pointers uint8
 	InnerArr ArraySpec
diff --git a/translator/translator.go b/translator/translator.go
index e70bca1..7d7b30b 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -1121,6 +1121,11 @@ func (t *Translator) CGoSpec(spec CType, asArg bool) CGoSpec {
 	}
 	if typ, ok := spec.(*CTypeSpec); ok {
 		if typ.Base == "void*" {
+			if typ.FuncPtr {
+				cgo.Base = "[0]byte"
+				cgo.Pointers++
+				return cgo
+			}
 			if len(typ.Raw) == 0 {
 				cgo.Base = "unsafe.Pointer"
 				return cgo
-- 
2.43.0


From 57201355917b1a630f16769f2a4e3a6b372aa292 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:44:33 +0000
Subject: [PATCH 72/77] fix: pointers to typedefs of void pointers and to
 arrays

---
 generator/gen_bindings.go | 5 -----
 translator/ast_walker.go  | 4 ++++
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index 2067de3..0734336 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -556,11 +556,6 @@ func (gen *Generator) proxyArgFromGo(memTip tl.Tip, name string,
 		return proxy, helper.Nillable
 	case isPlain && goSpec.Slices != 0: // ex: []byte
 		gen.submitHelper(sliceHeader)
-		if goSpec.Base == "unsafe.Pointer" &&
-			(len(goSpec.Raw) == 0 || goSpec.Raw == "unsafe.Pointer") {
-			// Go 1.8+
-			cgoSpec.Base = "unsafe.Pointer"
-		}
 		helper := gen.getCopyBytesHelper(cgoSpec)
 		gen.submitHelper(helper)
 		proxy = fmt.Sprintf("(%s)(unsafe.Pointer((*sliceHeader)(unsafe.Pointer(&%s)).Data)), cgoAllocsUnknown", cgoSpec.AtLevel(0), name)
diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index e5c3c24..0a73429 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -488,6 +488,10 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 				}
 				if s.Return != nil {
 					s.Return.SetRaw(retTypedef)
+					ptr, _ := funcType.Result().(*cc.PointerType)
+					if spec, ok := s.Return.(*CTypeSpec); ok && ptr != nil && ptr.Elem().Kind() == cc.Array && len(retTypedef) > 0 {
+						spec.InnerArr = "" // a part of the type
+					}
 				}
 			}
 		}
-- 
2.43.0


From 41575e7829c4f50db9f6f5dd8f7c49cd892b895b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:08:55 +0000
Subject: [PATCH 73/77] fix: results that are typedefs of pointers to structs
 without a tag

---
 translator/ast_walker.go         | 3 ++-
 translator/model_struct_union.go | 1 +
 translator/translator.go         | 5 +----
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 0a73429..5a6215a 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -465,6 +465,7 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 			InnerArr: spec.InnerArr,
 			Typedef:  typedefNameOf(typ),
 
+			elem:        typedefNameOf(typ),
 			handle:      handle,
 			handleLevel: handleLevel,
 		}
@@ -473,7 +474,7 @@ func (t *Translator) typeSpec(typ cc.Type, name string, deep int, isConst bool,
 		if !isRet {
 			s.Typedef = typedefNameOf(typ)
 		}
-		s.handle, s.handleLevel = handle, handleLevel
+		s.elem, s.handle, s.handleLevel = typedefNameOf(typ), handle, handleLevel
 		return s
 	case cc.Function:
 		s := t.functionSpec(spec, typ, name, isConst, deep+1)
diff --git a/translator/model_struct_union.go b/translator/model_struct_union.go
index cacaebe..1a5a659 100644
--- a/translator/model_struct_union.go
+++ b/translator/model_struct_union.go
@@ -20,6 +20,7 @@ type CStructSpec struct {
 	// Pointers are counted from the typedef, and the struct itself is not known.
 	IsHandle bool
 
+	elem        string // the typedef of the struct itself
 	handle      string // the typedef of a pointer to the struct that the type is declared with
 	handleLevel uint8  // the pointers to this typedef
 }
diff --git a/translator/translator.go b/translator/translator.go
index 7d7b30b..fc49a64 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -1063,10 +1063,7 @@ func (t *Translator) resolveHandles() {
 			tag, hasTag := tags[spec.Tag]
 			switch {
 			case len(spec.handle) > 0:
-				elem := spec.Typedef
-				if elem == spec.handle {
-					elem = ""
-				}
+				elem := spec.elem
 				if hasTag && !tag.isHandle && len(elem) == 0 {
 					elem = tag.name
 				}
-- 
2.43.0


From 63610e45275c992c4f12b2757b3b1adaf1e755b7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:31:31 +0000
Subject: [PATCH 74/77] fix: adjacent strings that follow a short octal or hex
 escape

---
 translator/helpers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/translator/helpers.go b/translator/helpers.go
index 2172da6..28c1039 100644
--- a/translator/helpers.go
+++ b/translator/helpers.go
@@ -497,6 +497,10 @@ func goLiteral(src string) string {
 	if len(src) < 2 || src[0] != '\'' && src[0] != '"' {
 		return src
 	}
+	if src[0] == '"' && src[len(src)-1] != '"' {
+		// cc writes over the quote when it joins adjacent strings, ex: "\12" "x"
+		src += `"`
+	}
 	const hex = "0123456789abcdefABCDEF"
 	buf := make([]byte, 0, len(src))
 	for i := 0; i < len(src); i++ {
-- 
2.43.0


From 051eccf275bfbb4b90f4ca3711c90786e8f7f192 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:31:48 +0000
Subject: [PATCH 75/77] fix: type casts in macros end with their operand

---
 translator/translator.go | 59 ++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 23 deletions(-)

diff --git a/translator/translator.go b/translator/translator.go
index fc49a64..79f0304 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -455,12 +455,17 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 		exprParts := make([]string, 0, len(tokens))
 		valid := true
 
-		// TODO: some state machine
 		needsTypecast := false
-		typecastValue := false
-		typecastValueParens := 0
+		depth := 0
+		var casts []int // depths of the casts that wait for their operand
+		operandEnds := func() {
+			for len(casts) > 0 && casts[len(casts)-1] == depth {
+				exprParts = append(exprParts, ")")
+				casts = casts[:len(casts)-1]
+			}
+		}
 
-		for _, token := range tokens {
+		for i, token := range tokens {
 			src := token.SrcStr()
 			srcParts = append(srcParts, src)
 			switch token.Ch {
@@ -468,6 +473,7 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 				if _, ok := seen[src]; ok {
 					// const reference
 					exprParts = append(exprParts, string(t.TransformName(TargetConst, src)))
+					operandEnds()
 				} else if _, ok := t.typedefsSet[src]; ok {
 					// type reference
 					needsTypecast = true
@@ -478,25 +484,32 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 					break
 				}
 			default:
-				// TODO: state machine
 				const (
 					lparen = rune(40)
 					rparen = rune(41)
 				)
 				switch {
-				case needsTypecast && token.Ch == rparen:
-					typecastValue = true
-					needsTypecast = false
-					exprParts = append(exprParts, src+"(")
-				case typecastValue && token.Ch == lparen:
-					typecastValueParens++
-				case typecastValue && token.Ch == rparen:
-					if typecastValueParens == 0 {
-						typecastValue = false
-						exprParts = append(exprParts, ")"+src)
-					} else {
-						typecastValueParens--
+				case token.Ch == lparen:
+					depth++
+					if last := len(casts) - 1; last >= 0 && tokens[i-1].Ch == rparen && i+1 < len(tokens) {
+						if _, ok := t.typedefsSet[tokens[i+1].SrcStr()]; !ok {
+							// the value has its own parens
+							casts = casts[:last]
+							continue
+						}
 					}
+					exprParts = append(exprParts, src)
+				case token.Ch == rparen:
+					depth--
+					exprParts = append(exprParts, src)
+					if needsTypecast {
+						// the value is what comes next, a number or something in parens
+						needsTypecast = false
+						exprParts = append(exprParts, "(")
+						casts = append(casts, depth)
+						continue
+					}
+					operandEnds()
 				default:
 					// somewhere in the world a kitten died because of this
 					if token.Ch == '~' {
@@ -510,18 +523,18 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 						exprParts = append(exprParts, "+") // adjacent strings are one
 					}
 					exprParts = append(exprParts, goLiteral(src))
+					switch src {
+					case "*", "/", "%", "+", "-", "<<", ">>", "&", "^", "|":
+					default:
+						operandEnds()
+					}
 				}
 			}
 			if !valid {
 				break
 			}
 		}
-		if typecastValue {
-			// still in typecast value, need to close paren
-			exprParts = append(exprParts, ")")
-			typecastValue = false
-		}
-		if needsTypecast || !isGoConstExpr(strings.Join(exprParts, " ")) {
+		if needsTypecast || len(casts) > 0 || !isGoConstExpr(strings.Join(exprParts, " ")) {
 			// a type alone or something C-specific, not a constant expression in Go
 			valid = false
 		}
-- 
2.43.0


From 4bac59ba6562f09188cf09bb23586ec67d0a4e20 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:31:48 +0000
Subject: [PATCH 76/77] fix: hexadecimal numbers that are unsigned in C,
 enumerators with another value in Go

---
 translator/ast_walker.go |  7 +++-
 translator/helpers.go    | 88 +++++++++++++++++++++++++++++++++++++++-
 translator/translator.go |  6 ++-
 3 files changed, 97 insertions(+), 4 deletions(-)

diff --git a/translator/ast_walker.go b/translator/ast_walker.go
index 5a6215a..dc75197 100644
--- a/translator/ast_walker.go
+++ b/translator/ast_walker.go
@@ -149,6 +149,7 @@ func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 				srcParts := make([]string, 0, len(enTokens))
 				exprParts := make([]string, 0, len(enTokens))
 				valid := true
+				refs := make(map[string]Value)
 
 				// TODO: needsTypecast is never true here
 				// TODO: some state machine
@@ -167,6 +168,7 @@ func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 							break
 						}
 						exprParts = append(exprParts, string(t.TransformName(TargetConst, src)))
+						refs[exprParts[len(exprParts)-1]] = t.valueMap[blessName(src)]
 					case rune(cc.SIZEOF), rune(cc.ALIGNOF):
 						// not available in Go, using the evaluated value
 						valid = false
@@ -214,7 +216,10 @@ func (t *Translator) enumSpec(base *CTypeSpec, typ cc.Type) *CEnumSpec {
 
 				if valid && len(exprParts) > 0 && isGoConstExpr(strings.Join(exprParts, " ")) {
 					m.Expression = bindLikeC(strings.Join(exprParts, " "))
-				} else {
+				}
+				if !hasValue(m.Expression, refs, en.Value()) {
+					// has another value in Go or no value at all, ex: ~0x80000000
+					m.Expression = ""
 					m.Value = en.Value()
 				}
 				m.Src = strings.Join(srcParts, " ")
diff --git a/translator/helpers.go b/translator/helpers.go
index 28c1039..d84a094 100644
--- a/translator/helpers.go
+++ b/translator/helpers.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"go/ast"
+	"go/constant"
 	"go/format"
 	"go/parser"
 	"go/scanner"
@@ -409,7 +410,8 @@ func macroTokens(macro *cc.Macro, defines map[string]*cc.Macro, outer ...*cc.Mac
 	for _, token := range list {
 		if token.Ch == rune(cc.IDENTIFIER) {
 			if m, ok := defines[token.SrcStr()]; ok && !m.IsFnLike && !containsMacro(outer, m) {
-				if expanded := macroTokens(m, defines, outer...); hasBareOperator(expanded) {
+				if expanded := macroTokens(m, defines, outer...); hasBareOperator(expanded) ||
+					mayWrapAround(outer[0].ReplacementList()) && isUnsignedNumber(expanded) {
 					tokens = append(tokens, expanded...)
 					continue
 				}
@@ -464,6 +466,51 @@ func containsMacro(list []*cc.Macro, macro *cc.Macro) bool {
 	return false
 }
 
+// mayWrapAround reports whether there are operators that lead to other values for unsigned numbers of C
+// than for untyped numbers of Go, ex: ~0x80000000
+func mayWrapAround(tokens []cc.Token) bool {
+	for _, token := range tokens {
+		switch token.SrcStr() {
+		case "~", "-", "+", "*", "<<":
+			return true
+		}
+	}
+	return false
+}
+
+// isUnsignedNumber reports whether it is a single number that needs no suffix to be unsigned in C, such as
+// 0x80000000.
+func isUnsignedNumber(tokens []cc.Token) bool {
+	var numbers int
+	for _, token := range tokens {
+		switch src := token.SrcStr(); {
+		case src == "(" || src == ")":
+		case len(unsignedType(src)) > 0:
+			numbers++
+		default:
+			return false
+		}
+	}
+	return numbers == 1
+}
+
+// unsignedType gets the type of a hexadecimal or octal number that is too big for the signed type of its size.
+func unsignedType(src string) string {
+	if !strings.HasPrefix(src, "0") {
+		return ""
+	}
+	v, err := strconv.ParseUint(src, 0, 64)
+	switch {
+	case err != nil:
+		return ""
+	case v > math.MaxInt64:
+		return "uint64"
+	case v > math.MaxInt32 && v <= math.MaxUint32:
+		return "uint32"
+	}
+	return ""
+}
+
 // hasBareOperator reports whether there is a binary operator outside of any parens.
 func hasBareOperator(tokens []cc.Token) bool {
 	var depth int
@@ -679,10 +726,47 @@ func failedConsts(typeExprs, constExprs map[string]string) map[string]bool {
 			}
 		},
 	}
-	conf.Check("p", fset, []*ast.File{file}, nil)
+	info := &types.Info{Types: make(map[ast.Expr]types.TypeAndValue)}
+	conf.Check("p", fset, []*ast.File{file}, info)
+	ast.Inspect(file, func(n ast.Node) bool {
+		if x, ok := n.(*ast.UnaryExpr); ok && x.Op == gotoken.XOR && isNarrowUnsigned(info.TypeOf(x)) {
+			// an int in C
+			fail(fset.Position(x.Pos()).Line)
+		}
+		return true
+	})
 	return failed
 }
 
+func isNarrowUnsigned(typ types.Type) bool {
+	if typ == nil {
+		return false
+	}
+	basic, ok := typ.Underlying().(*types.Basic)
+	return ok && (basic.Kind() == types.Uint8 || basic.Kind() == types.Uint16)
+}
+
+// hasValue checks if the expression of an enumerator has the value in Go, refs being the enumerators it refers to.
+func hasValue(expr string, refs map[string]Value, value Value) bool {
+	var src bytes.Buffer
+	src.WriteString("package p\ntype _enum int32\n")
+	for name, v := range refs {
+		fmt.Fprintf(&src, "const %s _enum = %v\n", name, v)
+	}
+	fmt.Fprintf(&src, "const _value _enum = %s\n", expr)
+	fset := gotoken.NewFileSet()
+	file, err := parser.ParseFile(fset, "", src.Bytes(), 0)
+	if err != nil {
+		return false
+	}
+	pkg, err := new(types.Config).Check("p", fset, []*ast.File{file}, nil)
+	if err != nil {
+		return false
+	}
+	c, ok := pkg.Scope().Lookup("_value").(*types.Const)
+	return ok && constant.ToInt(c.Val()).ExactString() == fmt.Sprint(value)
+}
+
 // goConstValue returns the evaluated value of a macro in the form of a Go literal,
 // and false if there is no such form.
 func goConstValue(v cc.Value) (Value, bool) {
diff --git a/translator/translator.go b/translator/translator.go
index 79f0304..e1ac386 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -517,7 +517,11 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 					}
 					if runes := []rune(src); len(runes) > 0 && isNumeric(runes) {
 						// TODO(xlab): better const handling
-						src = readNumeric(runes)
+						if kind := unsignedType(src); len(kind) > 0 && mayWrapAround(tokens) {
+							src = kind + "(" + src + ")"
+						} else {
+							src = readNumeric(runes)
+						}
 					}
 					if last := len(exprParts) - 1; last >= 0 && strings.HasPrefix(src, `"`) && strings.HasPrefix(exprParts[last], `"`) {
 						exprParts = append(exprParts, "+") // adjacent strings are one
-- 
2.43.0


From 78f05644068b5985bf6ed804c31ad2280ce59eae Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:25:06 +0000
Subject: [PATCH 77/77] fix: macros that stand for an enumerator of the same
 name by its value

---
 translator/translator.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/translator/translator.go b/translator/translator.go
index e1ac386..1ce8a85 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -571,6 +571,7 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 func (t *Translator) checkDefines(declares []*CDecl) {
 	types := make(map[string]string)
 	consts := make(map[string]string)
+	enumerators := make(map[string]bool)
 	for _, decl := range t.typedefs {
 		if decl.Spec.Kind() == TypeKind && t.IsAcceptableName(TargetType, decl.Name) {
 			types[string(t.TransformName(TargetType, decl.Name))] = t.TranslateSpec(decl.Spec).UnderlyingString()
@@ -591,10 +592,25 @@ func (t *Translator) checkDefines(declares []*CDecl) {
 		}
 		for _, m := range spec.Members {
 			if t.IsAcceptableName(TargetConst, m.Name) {
+				enumerators[m.Name] = true
 				consts[string(t.TransformName(TargetConst, m.Name))] = fmt.Sprintf("%s = %v", goType, t.valueMap[m.Name])
 			}
 		}
 	}
+	left := t.defines[:0]
+	for _, decl := range t.defines {
+		expr := decl.Expression
+		if decl.Value != nil {
+			expr = fmt.Sprint(decl.Value)
+		}
+		if enumerators[decl.Name] && hasValue(expr, nil, t.valueMap[decl.Name]) {
+			continue // the same constant once more, ex: enum { A =
+			// #define A 0
+			// A };
+		}
+		left = append(left, decl)
+	}
+	t.defines = left
 	for {
 		defines := make(map[string]*CDecl, len(t.defines))
 		exprs := make(map[string]string, len(t.defines)+len(consts))
-- 
2.43.0

