From 0fc53e1f5ad471a8424ea8ffe09d20ac5d60e7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:18 +0000
Subject: [PATCH 01/63] fix: report invalid expanded function arguments without
 crashing

When the final argument of a call is expanded with ..., an error about one
of the expanded values was attributed using the unexpanded argument list,
which could be too short.
---
 hcl/hclsyntax/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index d3f7a74..7c5a475 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -393,7 +393,7 @@ func (e *FunctionCallExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnosti
 			} else {
 				param = varParam
 			}
-			argExpr := e.Args[i]
+			argExpr := args[i]
 
 			// TODO: we should also unpick a PathError here and show the
 			// path to the deep value where the error was detected.
-- 
2.43.0


From 8ff8ee852e1d72a4619d945337bed5e6b97ba2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:22 +0000
Subject: [PATCH 02/63] fix: allow expanding a function argument of unknown
 type

An argument whose type isn't known yet may still turn out to be a sequence,
so it must not be rejected before its type is known.
---
 hcl/hclsyntax/expression.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index 7c5a475..3b28c00 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -259,6 +259,8 @@ func (e *FunctionCallExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnosti
 		}
 
 		switch {
+		case expandVal.Type() == cty.DynamicPseudoType && !expandVal.IsKnown():
+			return cty.DynamicVal, diags
 		case expandVal.Type().IsTupleType() || expandVal.Type().IsListType() || expandVal.Type().IsSetType():
 			if expandVal.IsNull() {
 				diags = append(diags, &hcl.Diagnostic{
-- 
2.43.0


From 036af92e8b02f3258ceec7da84c5292a54ab3208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:41 +0000
Subject: [PATCH 03/63] fix: splat of a literal null is an empty tuple

A null of unspecified type is still null, so it must not be treated as a
value of unknown type.
---
 hcl/hclsyntax/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index 3b28c00..1b32de1 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -1265,7 +1265,7 @@ func (e *SplatExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 	}
 
 	sourceTy := sourceVal.Type()
-	if sourceTy == cty.DynamicPseudoType {
+	if sourceTy == cty.DynamicPseudoType && !sourceVal.IsKnown() {
 		// If we don't even know the _type_ of our source value yet then
 		// we'll need to defer all processing, since we can't decide our
 		// result type either.
-- 
2.43.0


From 554060549b6a83fad5ee07f52736fd1190bb2fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:45 +0000
Subject: [PATCH 04/63] fix: don't panic when splat results have differing
 types

The results for the elements of a list can differ in type, for example
when some elements are null, and can't form a list in that case.
---
 hcl/hclsyntax/expression.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index 1b32de1..73befd2 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -1372,6 +1372,12 @@ func (e *SplatExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 			diags = append(diags, tyDiags...)
 			return cty.ListValEmpty(ty.ElementType()), diags
 		}
+		for _, val := range vals[1:] {
+			if !val.Type().Equals(vals[0].Type()) {
+				// A list requires all elements to be of the same type.
+				return cty.TupleVal(vals), diags
+			}
+		}
 		return cty.ListVal(vals), diags
 	default:
 		return cty.TupleVal(vals), diags
-- 
2.43.0


From 69a465597ff75acdd6a9195a2754f2f5a72a85bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:06:04 +0000
Subject: [PATCH 05/63] fix: evaluate object constructor keys given in
 parentheses

A key like (foo) was taken as the literal name "foo" and a key like
(foo.bar) was rejected with advice to add the parentheses it already has.
---
 hcl/hclsyntax/expression.go | 9 ++++++++-
 hcl/hclsyntax/parser.go     | 6 +++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index 73befd2..48dce28 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -807,6 +807,10 @@ func (e *ObjectConsExpr) ExprMap() []hcl.KeyValuePair {
 // must be interpreted as a literal string rather than evaluated directly.
 type ObjectConsKeyExpr struct {
 	Wrapped Expression
+
+	// ForceNonLiteral is set for a key in parentheses, which is always
+	// evaluated as an expression.
+	ForceNonLiteral bool
 }
 
 func (e *ObjectConsKeyExpr) literalName() string {
@@ -815,6 +819,9 @@ func (e *ObjectConsKeyExpr) literalName() string {
 	// deals with some awkward cases like the expression being the result
 	// of the keywords "null", "true" and "false" which we'd want to interpret
 	// as keys here too.
+	if e.ForceNonLiteral {
+		return ""
+	}
 	return hcl.ExprAsKeyword(e.Wrapped)
 }
 
@@ -836,7 +843,7 @@ func (e *ObjectConsKeyExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnost
 	// (This is handled at evaluation time rather than parse time because
 	// an application using static analysis _can_ accept a naked multi-step
 	// traversal here, if desired.)
-	if travExpr, isTraversal := e.Wrapped.(*ScopeTraversalExpr); isTraversal && len(travExpr.Traversal) > 1 {
+	if travExpr, isTraversal := e.Wrapped.(*ScopeTraversalExpr); isTraversal && len(travExpr.Traversal) > 1 && !e.ForceNonLiteral {
 		var diags hcl.Diagnostics
 		diags = append(diags, &hcl.Diagnostic{
 			Severity: hcl.DiagError,
diff --git a/hcl/hclsyntax/parser.go b/hcl/hclsyntax/parser.go
index 772ebae..cc15549 100644
--- a/hcl/hclsyntax/parser.go
+++ b/hcl/hclsyntax/parser.go
@@ -1291,6 +1291,10 @@ func (p *parser) parseObjectCons() (Expression, hcl.Diagnostics) {
 			break
 		}
 
+		// Parentheses around a key force it to be interpreted as an
+		// expression, even if it would otherwise be a literal name.
+		forceNonLiteral := next.Type == TokenOParen
+
 		var key Expression
 		var keyDiags hcl.Diagnostics
 		key, keyDiags = p.ParseExpression()
@@ -1307,7 +1311,7 @@ func (p *parser) parseObjectCons() (Expression, hcl.Diagnostics) {
 		// We wrap up the key expression in a special wrapper that deals
 		// with our special case that naked identifiers as object keys
 		// are interpreted as literal strings.
-		key = &ObjectConsKeyExpr{Wrapped: key}
+		key = &ObjectConsKeyExpr{Wrapped: key, ForceNonLiteral: forceNonLiteral}
 
 		next = p.Peek()
 		if next.Type != TokenEqual && next.Type != TokenColon {
-- 
2.43.0


From 62b64186620c4ccb6aabc2f1dba007b0c03f9ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:22 +0000
Subject: [PATCH 06/63] fix: don't report already-read blocks when reading only
 attributes

---
 hcl/hclsyntax/structure.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hcl/hclsyntax/structure.go b/hcl/hclsyntax/structure.go
index 476025d..2e8c302 100644
--- a/hcl/hclsyntax/structure.go
+++ b/hcl/hclsyntax/structure.go
@@ -251,8 +251,10 @@ func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 	attrs := make(hcl.Attributes)
 	var diags hcl.Diagnostics
 
-	if len(b.Blocks) > 0 {
-		example := b.Blocks[0]
+	for _, example := range b.Blocks {
+		if _, hidden := b.hiddenBlocks[example.Type]; hidden {
+			continue
+		}
 		diags = append(diags, &hcl.Diagnostic{
 			Severity: hcl.DiagError,
 			Summary:  fmt.Sprintf("Unexpected %q block", example.Type),
@@ -262,6 +264,7 @@ func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 		// we will continue processing anyway, and return the attributes
 		// we are able to find so that certain analyses can still be done
 		// in the face of errors.
+		break
 	}
 
 	if b.Attributes == nil {
-- 
2.43.0


From 83dff72f011093d080f0c9356f9b67e2550243f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:50 +0000
Subject: [PATCH 07/63] fix: treat literals with escapes as literal index keys

---
 hcl/hclsyntax/expression_template.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hcl/hclsyntax/expression_template.go b/hcl/hclsyntax/expression_template.go
index ca3dae1..d0b73fd 100644
--- a/hcl/hclsyntax/expression_template.go
+++ b/hcl/hclsyntax/expression_template.go
@@ -102,11 +102,15 @@ func (e *TemplateExpr) StartRange() hcl.Range {
 // interpretation, not situations that result in literals as a technicality
 // of the template expression unwrapping behavior.
 func (e *TemplateExpr) IsStringLiteral() bool {
-	if len(e.Parts) != 1 {
-		return false
+	// Escape sequences can cause a literal to be split into several parts, and
+	// an empty literal has no parts at all.
+	for _, part := range e.Parts {
+		lit, ok := part.(*LiteralValueExpr)
+		if !ok || lit.Val.Type() != cty.String {
+			return false
+		}
 	}
-	_, ok := e.Parts[0].(*LiteralValueExpr)
-	return ok
+	return true
 }
 
 // TemplateJoinExpr is used to convert tuples of strings produced by template
-- 
2.43.0


From 68fa4587bf717503e857c6715d0ba233b8119ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:53 +0000
Subject: [PATCH 08/63] fix: don't crash when asking for the start of an empty
 string

---
 hcl/hclsyntax/expression_template.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hcl/hclsyntax/expression_template.go b/hcl/hclsyntax/expression_template.go
index d0b73fd..5dce3be 100644
--- a/hcl/hclsyntax/expression_template.go
+++ b/hcl/hclsyntax/expression_template.go
@@ -86,6 +86,9 @@ func (e *TemplateExpr) Range() hcl.Range {
 }
 
 func (e *TemplateExpr) StartRange() hcl.Range {
+	if len(e.Parts) == 0 { // the empty string has no parts
+		return e.SrcRange
+	}
 	return e.Parts[0].StartRange()
 }
 
-- 
2.43.0


From de1c5b86ba5d181d2ef0978e4247f2debc5f0be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:50 +0000
Subject: [PATCH 09/63] fix: source ranges of operations cover all of their
 operands

---
 hcl/hclsyntax/expression.go |  9 ++++++-
 hcl/hclsyntax/parser.go     | 53 +++++++++++++++++++++++--------------
 2 files changed, 41 insertions(+), 21 deletions(-)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index 48dce28..58ea692 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -619,6 +619,10 @@ type IndexExpr struct {
 
 	SrcRange  hcl.Range
 	OpenRange hcl.Range
+
+	// startRange is the start of the whole expression, including the
+	// collection expression, which SrcRange does not cover.
+	startRange hcl.Range
 }
 
 func (e *IndexExpr) walkChildNodes(w internalWalkFunc) {
@@ -640,7 +644,10 @@ func (e *IndexExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 }
 
 func (e *IndexExpr) Range() hcl.Range {
-	return e.SrcRange
+	if e.startRange == (hcl.Range{}) {
+		return e.SrcRange
+	}
+	return hcl.RangeBetween(e.startRange, e.SrcRange)
 }
 
 func (e *IndexExpr) StartRange() hcl.Range {
diff --git a/hcl/hclsyntax/parser.go b/hcl/hclsyntax/parser.go
index cc15549..ed2c4fb 100644
--- a/hcl/hclsyntax/parser.go
+++ b/hcl/hclsyntax/parser.go
@@ -501,7 +501,7 @@ func (p *parser) parseTernaryConditional() (Expression, hcl.Diagnostics) {
 		TrueResult:  trueExpr,
 		FalseResult: falseExpr,
 
-		SrcRange: hcl.RangeBetween(startRange, falseExpr.Range()),
+		SrcRange: hcl.RangeBetween(startRange, p.PrevRange()),
 	}, diags
 }
 
@@ -517,6 +517,11 @@ func (p *parser) parseBinaryOps(ops []map[TokenType]*Operation) (Expression, hcl
 	thisLevel := ops[0]
 	remaining := ops[1:]
 
+	// The operands might be in parentheses, which are not part of their own
+	// ranges but must be part of the range of the whole operation.
+	startRange := p.NextRange()
+	var endRange hcl.Range
+
 	var lhs, rhs Expression
 	var operation *Operation
 	var diags hcl.Diagnostics
@@ -553,7 +558,7 @@ func (p *parser) parseBinaryOps(ops []map[TokenType]*Operation) (Expression, hcl
 				Op:  operation,
 				RHS: rhs,
 
-				SrcRange: hcl.RangeBetween(lhs.Range(), rhs.Range()),
+				SrcRange: hcl.RangeBetween(startRange, endRange),
 			}
 		}
 
@@ -565,6 +570,7 @@ func (p *parser) parseBinaryOps(ops []map[TokenType]*Operation) (Expression, hcl
 		if p.recovery && rhsDiags.HasErrors() {
 			return lhs, diags
 		}
+		endRange = p.PrevRange()
 	}
 
 	if operation == nil {
@@ -576,18 +582,22 @@ func (p *parser) parseBinaryOps(ops []map[TokenType]*Operation) (Expression, hcl
 		Op:  operation,
 		RHS: rhs,
 
-		SrcRange: hcl.RangeBetween(lhs.Range(), rhs.Range()),
+		SrcRange: hcl.RangeBetween(startRange, endRange),
 	}, diags
 }
 
 func (p *parser) parseExpressionWithTraversals() (Expression, hcl.Diagnostics) {
+	startRange := p.NextRange()
 	term, diags := p.parseExpressionTerm()
-	ret, moreDiags := p.parseExpressionTraversals(term)
+	ret, moreDiags := p.parseExpressionTraversals(term, startRange)
 	diags = append(diags, moreDiags...)
 	return ret, diags
 }
 
-func (p *parser) parseExpressionTraversals(from Expression) (Expression, hcl.Diagnostics) {
+// parseExpressionTraversals parses zero or more traversal operators applied
+// to the given expression, whose source code (including any parentheses
+// around it) starts with the given range.
+func (p *parser) parseExpressionTraversals(from Expression, startRange hcl.Range) (Expression, hcl.Diagnostics) {
 	var diags hcl.Diagnostics
 	ret := from
 
@@ -611,7 +621,7 @@ Traversal:
 					SrcRange: rng,
 				}
 
-				ret = makeRelativeTraversal(ret, step, rng)
+				ret = makeRelativeTraversal(ret, step, hcl.RangeBetween(startRange, rng))
 
 			case TokenNumberLit:
 				// This is a weird form we inherited from HIL, allowing numbers
@@ -645,7 +655,7 @@ Traversal:
 						Key:      cty.DynamicVal,
 						SrcRange: rng,
 					}
-					ret = makeRelativeTraversal(ret, step, rng)
+					ret = makeRelativeTraversal(ret, step, hcl.RangeBetween(startRange, rng))
 					break
 				}
 
@@ -658,7 +668,7 @@ Traversal:
 					SrcRange: rng,
 				}
 
-				ret = makeRelativeTraversal(ret, step, rng)
+				ret = makeRelativeTraversal(ret, step, hcl.RangeBetween(startRange, rng))
 
 			case TokenStar:
 				// "Attribute-only" splat expression.
@@ -668,8 +678,7 @@ Traversal:
 				// whereas foo[*] can support _any_ traversal.
 				marker := p.Read() // eat star
 				trav := make(hcl.Traversal, 0, 1)
-				var firstRange, lastRange hcl.Range
-				firstRange = p.NextRange()
+				lastRange := marker.Range
 				for p.Peek().Type == TokenDot {
 					dot := p.Read()
 
@@ -751,7 +760,7 @@ Traversal:
 					travExpr = &RelativeTraversalExpr{
 						Source:    itemExpr,
 						Traversal: trav,
-						SrcRange:  hcl.RangeBetween(firstRange, lastRange),
+						SrcRange:  hcl.RangeBetween(dot.Range, lastRange),
 					}
 				}
 
@@ -760,7 +769,7 @@ Traversal:
 					Each:   travExpr,
 					Item:   itemExpr,
 
-					SrcRange:    hcl.RangeBetween(dot.Range, lastRange),
+					SrcRange:    hcl.RangeBetween(startRange, lastRange),
 					MarkerRange: hcl.RangeBetween(dot.Range, marker.Range),
 				}
 
@@ -811,7 +820,7 @@ Traversal:
 				}
 				// Now we'll recursively call this same function to eat any
 				// remaining traversal steps against the anonymous symbol.
-				travExpr, nestedDiags := p.parseExpressionTraversals(itemExpr)
+				travExpr, nestedDiags := p.parseExpressionTraversals(itemExpr, open.Range)
 				diags = append(diags, nestedDiags...)
 
 				ret = &SplatExpr{
@@ -819,7 +828,7 @@ Traversal:
 					Each:   travExpr,
 					Item:   itemExpr,
 
-					SrcRange:    hcl.RangeBetween(open.Range, travExpr.Range()),
+					SrcRange:    hcl.RangeBetween(startRange, travExpr.Range()),
 					MarkerRange: hcl.RangeBetween(open.Range, close.Range),
 				}
 
@@ -852,7 +861,7 @@ Traversal:
 						Key:      litKey,
 						SrcRange: rng,
 					}
-					ret = makeRelativeTraversal(ret, step, rng)
+					ret = makeRelativeTraversal(ret, step, hcl.RangeBetween(startRange, rng))
 				} else if tmpl, isTmpl := keyExpr.(*TemplateExpr); isTmpl && tmpl.IsStringLiteral() {
 					litKey, _ := tmpl.Value(nil)
 					rng := hcl.RangeBetween(open.Range, close.Range)
@@ -860,7 +869,7 @@ Traversal:
 						Key:      litKey,
 						SrcRange: rng,
 					}
-					ret = makeRelativeTraversal(ret, step, rng)
+					ret = makeRelativeTraversal(ret, step, hcl.RangeBetween(startRange, rng))
 				} else {
 					rng := hcl.RangeBetween(open.Range, close.Range)
 					ret = &IndexExpr{
@@ -869,6 +878,8 @@ Traversal:
 
 						SrcRange:  rng,
 						OpenRange: open.Range,
+
+						startRange: startRange,
 					}
 				}
 			}
@@ -885,15 +896,17 @@ Traversal:
 // a traversal expression that combines the two. If the given expression
 // is already a traversal, it is extended in place (mutating it) and
 // returned. If it isn't, a new RelativeTraversalExpr is created and returned.
+//
+// The given range must cover the whole of the resulting expression.
 func makeRelativeTraversal(expr Expression, next hcl.Traverser, rng hcl.Range) Expression {
 	switch texpr := expr.(type) {
 	case *ScopeTraversalExpr:
 		texpr.Traversal = append(texpr.Traversal, next)
-		texpr.SrcRange = hcl.RangeBetween(texpr.SrcRange, rng)
+		texpr.SrcRange = rng
 		return texpr
 	case *RelativeTraversalExpr:
 		texpr.Traversal = append(texpr.Traversal, next)
-		texpr.SrcRange = hcl.RangeBetween(texpr.SrcRange, rng)
+		texpr.SrcRange = rng
 		return texpr
 	default:
 		return &RelativeTraversalExpr{
@@ -1019,7 +1032,7 @@ func (p *parser) parseExpressionTerm() (Expression, hcl.Diagnostics) {
 			Op:  OpNegate,
 			Val: operand,
 
-			SrcRange:    hcl.RangeBetween(tok.Range, operand.Range()),
+			SrcRange:    hcl.RangeBetween(tok.Range, p.PrevRange()),
 			SymbolRange: tok.Range,
 		}, diags
 
@@ -1034,7 +1047,7 @@ func (p *parser) parseExpressionTerm() (Expression, hcl.Diagnostics) {
 			Op:  OpLogicalNot,
 			Val: operand,
 
-			SrcRange:    hcl.RangeBetween(tok.Range, operand.Range()),
+			SrcRange:    hcl.RangeBetween(tok.Range, p.PrevRange()),
 			SymbolRange: tok.Range,
 		}, diags
 
-- 
2.43.0


From 1047fc72ba7e42f6fdb4c3c450c0d2abdf81662a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:24 +0000
Subject: [PATCH 10/63] fix: keep closing parentheses of an argument value in
 place

---
 hclwrite/parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hclwrite/parser.go b/hclwrite/parser.go
index 0e8952d..4d869a2 100644
--- a/hclwrite/parser.go
+++ b/hclwrite/parser.go
@@ -262,6 +262,10 @@ func parseAttribute(nativeAttr *hclsyntax.Attribute, from, leadComments, lineCom
 		children.AppendNode(exprNode)
 	}
 
+	// Collect any stragglers, such as the closing parentheses of an expression
+	// that is in parentheses.
+	children.AppendUnstructuredTokens(from.Tokens())
+
 	{
 		cn := newNode(newComments(lineComments.Tokens()))
 		attr.lineComments = cn
@@ -270,9 +274,6 @@ func parseAttribute(nativeAttr *hclsyntax.Attribute, from, leadComments, lineCom
 
 	children.AppendUnstructuredTokens(newline.Tokens())
 
-	// Collect any stragglers, though there shouldn't be any
-	children.AppendUnstructuredTokens(from.Tokens())
-
 	return newNode(attr)
 }
 
-- 
2.43.0


From 419ff2151dc816df8565ce1b6977617be6980f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:43 +0000
Subject: [PATCH 11/63] fix: load references with legacy or unusual indices for
 rewriting

---
 hclwrite/parser.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hclwrite/parser.go b/hclwrite/parser.go
index 4d869a2..541c7c1 100644
--- a/hclwrite/parser.go
+++ b/hclwrite/parser.go
@@ -405,6 +405,15 @@ func parseTraversalStep(nativeStep hcl.Traverser, from inputTokens) (before inpu
 		children = step.inTree.children
 		before, from, after = from.Partition(nativeStep.SourceRange())
 
+		if from.Len() > 0 && from.nativeTokens[0].Type == hclsyntax.TokenDot {
+			// The legacy syntax for indices, as in foo.0
+			inBefore, token, inAfter := from.PartitionTypeSingle(hclsyntax.TokenNumberLit)
+			children.AppendUnstructuredTokens(inBefore.Tokens())
+			step.key = children.Append(newNumber(token))
+			children.AppendUnstructuredTokens(inAfter.Tokens())
+			return before, newNode(step), after
+		}
+
 		var inBefore, oBrack, keyTokens, cBrack inputTokens
 		inBefore, oBrack, from = from.PartitionType(hclsyntax.TokenOBrack)
 		children.AppendUnstructuredTokens(inBefore.Tokens())
@@ -422,6 +431,9 @@ func parseTraversalStep(nativeStep hcl.Traverser, from inputTokens) (before inpu
 			key := newNumber(valToken)
 			step.key = children.Append(key)
 			children.AppendUnstructuredTokens(valAfter.Tokens())
+		default:
+			// Not a valid key for any collection, but valid syntax.
+			children.AppendUnstructuredTokens(keyTokens.Tokens())
 		}
 
 		children.AppendUnstructuredTokens(cBrack.Tokens())
-- 
2.43.0


From 4fd1c19e5c6d5255aeb6c7a5fa99766647cecb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:04 +0000
Subject: [PATCH 12/63] fix: report invalid characters inside JSON objects and
 arrays instead of panicking

---
 hcl/json/peeker.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hcl/json/peeker.go b/hcl/json/peeker.go
index fc7bbf5..4c8611c 100644
--- a/hcl/json/peeker.go
+++ b/hcl/json/peeker.go
@@ -6,6 +6,13 @@ type peeker struct {
 }
 
 func newPeeker(tokens []token) *peeker {
+	// The scanner stops at an invalid token, but the parser relies on finding
+	// an EOF token at the end.
+	if last := tokens[len(tokens)-1]; last.Type != tokenEOF {
+		end := last.Range
+		end.Start = end.End
+		tokens = append(tokens, token{Type: tokenEOF, Range: end})
+	}
 	return &peeker{
 		tokens: tokens,
 		pos:    0,
-- 
2.43.0


From 213fd482e9ac988f2345ef878dfb595f37ef00d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:06 +0000
Subject: [PATCH 13/63] fix: find the end of JSON strings after prepended
 combining characters

---
 hcl/json/scanner.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hcl/json/scanner.go b/hcl/json/scanner.go
index da72884..452c6fd 100644
--- a/hcl/json/scanner.go
+++ b/hcl/json/scanner.go
@@ -219,6 +219,14 @@ Byte:
 			// Ignoring error because this scanner cannot produce errors.
 			advance, _, _ := textseg.ScanGraphemeClusters(buf[i:], true)
 
+			// Some characters combine with whatever follows them, but they
+			// must not hide a quote, a backslash or a control character.
+			for j := 1; j < advance; j++ {
+				if c := buf[i+j]; c == '"' || c == '\\' || c < 32 {
+					advance = j
+				}
+			}
+
 			p.Pos.Byte += advance
 			p.Pos.Column++
 			i += advance
-- 
2.43.0


From 5e23c7d83b774e62493b50a4d800dfeae41fa0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:07 +0000
Subject: [PATCH 14/63] fix: keep the range of invalid JSON string errors
 inside the string

---
 hcl/json/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hcl/json/parser.go b/hcl/json/parser.go
index d368ea8..f2d32ad 100644
--- a/hcl/json/parser.go
+++ b/hcl/json/parser.go
@@ -416,6 +416,13 @@ func parseString(p *peeker) (node, hcl.Diagnostics) {
 			errEndPos.Byte++
 			errEndPos.Column++
 
+			if errPos.Byte > tok.Range.End.Byte {
+				errPos = tok.Range.End
+			}
+			if errEndPos.Byte > tok.Range.End.Byte {
+				errEndPos = tok.Range.End
+			}
+
 			errRange = hcl.Range{
 				Filename: tok.Range.Filename,
 				Start:    errPos,
-- 
2.43.0


From 383c3841f8e258c6c50a1bb37466a244d907e94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:14:14 +0000
Subject: [PATCH 15/63] fix: give calls with invalid arguments a range inside
 the source

---
 hcl/hclsyntax/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/parser.go b/hcl/hclsyntax/parser.go
index ed2c4fb..d5bd459 100644
--- a/hcl/hclsyntax/parser.go
+++ b/hcl/hclsyntax/parser.go
@@ -1133,7 +1133,7 @@ Token:
 			// if there was a parse error in the argument then we've
 			// probably been left in a weird place in the token stream,
 			// so we'll bail out with a partial argument list.
-			p.recover(TokenCParen)
+			closeTok = p.recover(TokenCParen)
 			break Token
 		}
 
-- 
2.43.0


From fda954bba50165a6a25cf57b17b677ed7da095bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:14:30 +0000
Subject: [PATCH 16/63] fix: report invalid UTF-8 after a dollar or percent
 sign in templates

---
 hcl/hclsyntax/token.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/token.go b/hcl/hclsyntax/token.go
index 3d898fd..7b5e56d 100644
--- a/hcl/hclsyntax/token.go
+++ b/hcl/hclsyntax/token.go
@@ -3,6 +3,7 @@ package hclsyntax
 import (
 	"bytes"
 	"fmt"
+	"unicode/utf8"
 
 	"github.com/apparentlymart/go-textseg/textseg"
 	"github.com/hashicorp/hcl2/hcl"
@@ -275,7 +276,12 @@ func checkInvalidTokens(tokens Tokens) hcl.Diagnostics {
 
 				toldTabs++
 			}
-		case TokenBadUTF8:
+		case TokenBadUTF8, TokenQuotedLit, TokenStringLit:
+			// A literal can contain invalid bytes if one of them directly
+			// follows a character that might have begun a template sequence.
+			if tok.Type != TokenBadUTF8 && utf8.Valid(tok.Bytes) {
+				continue
+			}
 			if toldBadUTF8 < 1 {
 				diags = append(diags, &hcl.Diagnostic{
 					Severity: hcl.DiagError,
-- 
2.43.0


From 6a64074536fd733894ee43108635c3cd665652b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:25 +0000
Subject: [PATCH 17/63] fix: produce the tokens of a traversal

TokensForTraversal dropped the tokens of every step and so always
returned an empty sequence.
---
 hclwrite/generate.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hclwrite/generate.go b/hclwrite/generate.go
index d249cfd..0d30b7b 100644
--- a/hclwrite/generate.go
+++ b/hclwrite/generate.go
@@ -159,12 +159,12 @@ func appendTokensForValue(val cty.Value, toks Tokens) Tokens {
 
 func appendTokensForTraversal(traversal hcl.Traversal, toks Tokens) Tokens {
 	for _, step := range traversal {
-		appendTokensForTraversalStep(step, toks)
+		toks = appendTokensForTraversalStep(step, toks)
 	}
 	return toks
 }
 
-func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) {
+func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) Tokens {
 	switch ts := step.(type) {
 	case hcl.TraverseRoot:
 		toks = append(toks, &Token{
@@ -188,7 +188,7 @@ func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) {
 			Type:  hclsyntax.TokenOBrack,
 			Bytes: []byte{'['},
 		})
-		appendTokensForValue(ts.Key, toks)
+		toks = appendTokensForValue(ts.Key, toks)
 		toks = append(toks, &Token{
 			Type:  hclsyntax.TokenCBrack,
 			Bytes: []byte{']'},
@@ -196,6 +196,7 @@ func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) {
 	default:
 		panic(fmt.Sprintf("unsupported traversal step type %T", step))
 	}
+	return toks
 }
 
 func escapeQuotedStringLit(s string) []byte {
-- 
2.43.0


From a62df2d7be72e0ce27d392e26c868c1071d5205f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:28 +0000
Subject: [PATCH 18/63] fix: return the attribute that setting an attribute
 created

Setting a new attribute returned nil rather than the attribute, because
the result variable was shadowed.
---
 hclwrite/ast_body.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index cf69fee..9438a93 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -96,7 +96,7 @@ func (b *Body) SetAttributeValue(name string, val cty.Value) *Attribute {
 	if attr != nil {
 		attr.expr = attr.expr.ReplaceWith(expr)
 	} else {
-		attr := newAttribute()
+		attr = newAttribute()
 		attr.init(name, expr)
 		b.appendItem(attr)
 	}
@@ -117,7 +117,7 @@ func (b *Body) SetAttributeTraversal(name string, traversal hcl.Traversal) *Attr
 	if attr != nil {
 		attr.expr = attr.expr.ReplaceWith(expr)
 	} else {
-		attr := newAttribute()
+		attr = newAttribute()
 		attr.init(name, expr)
 		b.appendItem(attr)
 	}
-- 
2.43.0


From 411a285543c49103051c27c1f74ee710a0a13987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:31 +0000
Subject: [PATCH 19/63] fix: forget the items of a cleared body

A body that was cleared went on reporting its old attributes and blocks,
and setting one of those attributes again changed nothing in the output.
---
 hclwrite/ast_body.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index 9438a93..e7777aa 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -35,6 +35,7 @@ func (b *Body) appendItemNode(nn *node) *node {
 // Clear removes all of the items from the body, making it empty.
 func (b *Body) Clear() {
 	b.children.Clear()
+	b.items = newNodeSet()
 }
 
 func (b *Body) AppendUnstructuredTokens(ts Tokens) {
-- 
2.43.0


From d81930f501deb04cc857a83ad75373789b0ac2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:33 +0000
Subject: [PATCH 20/63] fix: list the blocks of a body in order

The blocks came in random order because the set of items was iterated
directly.
---
 hclwrite/ast_body.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index e7777aa..c390136 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -59,7 +59,7 @@ func (b *Body) Attributes() map[string]*Attribute {
 // Blocks returns a new slice of all the blocks in the body.
 func (b *Body) Blocks() []*Block {
 	ret := make([]*Block, 0, len(b.items))
-	for n := range b.items {
+	for _, n := range b.items.List() {
 		if block, isBlock := n.content.(*Block); isBlock {
 			ret = append(ret, block)
 		}
-- 
2.43.0


From 479bb294ca1603e58051f6ecb7e4bd3c127ab2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:36 +0000
Subject: [PATCH 21/63] fix: quote the object key "for" in generated tokens

An unquoted "for" after an opening brace starts a for expression, so the
generated object did not parse.
---
 hclwrite/generate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hclwrite/generate.go b/hclwrite/generate.go
index 0d30b7b..f004e2d 100644
--- a/hclwrite/generate.go
+++ b/hclwrite/generate.go
@@ -129,10 +129,10 @@ func appendTokensForValue(val cty.Value, toks Tokens) Tokens {
 				})
 			}
 			eKey, eVal := it.Element()
-			if hclsyntax.ValidIdentifier(eKey.AsString()) {
+			if name := eKey.AsString(); hclsyntax.ValidIdentifier(name) && name != "for" {
 				toks = append(toks, &Token{
 					Type:  hclsyntax.TokenIdent,
-					Bytes: []byte(eKey.AsString()),
+					Bytes: []byte(name),
 				})
 			} else {
 				toks = appendTokensForValue(eKey, toks)
-- 
2.43.0


From 5682bffce3d56d539edcd191dd48401b251613f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:10 +0000
Subject: [PATCH 22/63] fix: start a new line for items appended to a parsed
 body

Appending to a body whose last line has no newline, to a block written on
one line, or to a block whose body was cleared put the new item on a line
with other tokens, and the result did not parse.
---
 hclwrite/ast_body.go | 31 +++++++++++++++++++++++++++++++
 hclwrite/node.go     | 14 ++++++++++++++
 hclwrite/parser.go   |  1 +
 3 files changed, 46 insertions(+)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index c390136..a1fc724 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -10,6 +10,10 @@ type Body struct {
 	inTree
 
 	items nodeSet
+
+	// afterBrace is set for the body of a parsed block, whose opening brace
+	// is followed directly by the tokens of the body.
+	afterBrace bool
 }
 
 func newBody() *Body {
@@ -20,11 +24,38 @@ func newBody() *Body {
 }
 
 func (b *Body) appendItem(c nodeContent) *node {
+	b.startLine()
 	nn := b.children.Append(c)
 	b.items.Add(nn)
 	return nn
 }
 
+// startLine adds newlines as needed so that an item appended to the body is
+// on a line of its own.
+func (b *Body) startLine() {
+	toks := b.children.BuildTokens(nil)
+	newline := func() Tokens {
+		return Tokens{
+			{
+				Type:  hclsyntax.TokenNewline,
+				Bytes: []byte{'\n'},
+			},
+		}
+	}
+	if b.afterBrace {
+		i := 0
+		for i < len(toks) && toks[i].Type == hclsyntax.TokenComment && !tokenIsNewline(toks[i]) {
+			i++
+		}
+		if i == len(toks) || !tokenIsNewline(toks[i]) {
+			b.children.Prepend(newline())
+		}
+	}
+	if len(toks) > 0 && !tokenIsNewline(toks[len(toks)-1]) {
+		b.AppendUnstructuredTokens(newline())
+	}
+}
+
 func (b *Body) appendItemNode(nn *node) *node {
 	nn.assertUnattached()
 	b.children.AppendNode(nn)
diff --git a/hclwrite/node.go b/hclwrite/node.go
index 71fd00f..418d1c8 100644
--- a/hclwrite/node.go
+++ b/hclwrite/node.go
@@ -118,6 +118,20 @@ func (ns *nodes) Append(c nodeContent) *node {
 	return n
 }
 
+func (ns *nodes) Prepend(c nodeContent) *node {
+	n := newNode(c)
+	n.list = ns
+	n.after = ns.first
+	if ns.first != nil {
+		ns.first.before = n
+	}
+	ns.first = n
+	if ns.last == nil {
+		ns.last = n
+	}
+	return n
+}
+
 func (ns *nodes) AppendNode(n *node) {
 	if ns.last != nil {
 		n.before = ns.last
diff --git a/hclwrite/parser.go b/hclwrite/parser.go
index 541c7c1..a236767 100644
--- a/hclwrite/parser.go
+++ b/hclwrite/parser.go
@@ -328,6 +328,7 @@ func parseBlock(nativeBlock *hclsyntax.Block, from, leadComments, lineComments,
 	// that appear after it.
 	bodyTokens, cBrace, from := from.Partition(nativeBlock.CloseBraceRange)
 	before, body, after := parseBody(nativeBlock.Body, bodyTokens)
+	body.content.(*Body).afterBrace = true
 	children.AppendUnstructuredTokens(before.Tokens())
 	block.body = body
 	children.AppendNode(body)
-- 
2.43.0


From b4eb21f024103243c082b57c21a7c124d5a322b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:13 +0000
Subject: [PATCH 23/63] fix: do not turn a start offset or byte order mark into
 spaces

Parsing for rewriting a text with a byte order mark, or with a non-zero
start byte, added that many spaces before the first token.
---
 hclwrite/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hclwrite/parser.go b/hclwrite/parser.go
index a236767..4041b2e 100644
--- a/hclwrite/parser.go
+++ b/hclwrite/parser.go
@@ -1,6 +1,7 @@
 package hclwrite
 
 import (
+	"bytes"
 	"fmt"
 	"sort"
 
@@ -45,6 +46,12 @@ func parse(src []byte, filename string, start hcl.Pos) (*File, hcl.Diagnostics)
 	}
 	writerTokens := writerTokens(nativeTokens)
 
+	// Neither the start offset nor a byte order mark counts as spaces.
+	writerTokens[0].SpacesBefore -= start.Byte
+	if bytes.HasPrefix(src, []byte{0xef, 0xbb, 0xbf}) {
+		writerTokens[0].SpacesBefore -= 3
+	}
+
 	from := inputTokens{
 		nativeTokens: nativeTokens,
 		writerTokens: writerTokens,
-- 
2.43.0


From eccd0c039a212d381aba55718499de2c6f35991e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:16 +0000
Subject: [PATCH 24/63] fix: do not write to the shared placeholder token when
 formatting

Formatting wrote to a package-level token on every line, which is a data
race when two files are formatted at the same time.
---
 hclwrite/format.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hclwrite/format.go b/hclwrite/format.go
index 7111ebd..3ed8c0c 100644
--- a/hclwrite/format.go
+++ b/hclwrite/format.go
@@ -121,6 +121,9 @@ func formatSpaces(lines []formatLine) {
 			} else {
 				after = nilToken
 			}
+			if after == nilToken {
+				continue
+			}
 			if spaceAfterToken(token, before, after) {
 				after.SpacesBefore = 1
 			} else {
@@ -145,6 +148,9 @@ func formatSpaces(lines []formatLine) {
 			} else {
 				after = nilToken
 			}
+			if after == nilToken {
+				continue
+			}
 			if spaceAfterToken(token, before, after) {
 				after.SpacesBefore = 1
 			} else {
-- 
2.43.0


From 708c85511f5f8629da26666db63693027b35616c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:57 +0000
Subject: [PATCH 25/63] fix: keep numbers around a dot apart when formatting

Formatting a.0 .1 joined the two indexes into the number 0.1, so the
result no longer parsed.
---
 hclwrite/format.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hclwrite/format.go b/hclwrite/format.go
index 3ed8c0c..703766b 100644
--- a/hclwrite/format.go
+++ b/hclwrite/format.go
@@ -241,6 +241,10 @@ func spaceAfterToken(subject, before, after *Token) bool {
 		// Don't split a function name from open paren in a call
 		return false
 
+	case subject.Type == hclsyntax.TokenDot && before.Type == hclsyntax.TokenNumberLit && after.Type == hclsyntax.TokenNumberLit:
+		// Without a space, the two numbers would become a single one
+		return true
+
 	case subject.Type == hclsyntax.TokenDot || after.Type == hclsyntax.TokenDot:
 		// Don't use spaces around attribute access dots
 		return false
-- 
2.43.0


From 125a2af1f7891d46046894013f9c127c6173c644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:56:01 +0000
Subject: [PATCH 26/63] fix: a name starting with a byte order mark is not an
 identifier

The scanner skips a leading byte order mark, so such a name was reported
as valid although it cannot be written where an identifier is expected.
---
 hcl/hclsyntax/public.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/public.go b/hcl/hclsyntax/public.go
index cf0ee29..d34cb47 100644
--- a/hcl/hclsyntax/public.go
+++ b/hcl/hclsyntax/public.go
@@ -167,5 +167,6 @@ func ValidIdentifier(s string) bool {
 	// is easiest to do with our existing scanner-related infrastructure here
 	// and nobody should be validating identifiers in a tight loop.
 	tokens := scanTokens([]byte(s), "", hcl.Pos{}, scanIdentOnly)
-	return len(tokens) == 2 && tokens[0].Type == TokenIdent && tokens[1].Type == TokenEOF
+	// The scanner skips a byte order mark, so the token must also cover all of s.
+	return len(tokens) == 2 && tokens[0].Type == TokenIdent && tokens[1].Type == TokenEOF && len(tokens[0].Bytes) == len(s)
 }
-- 
2.43.0


From 77138f92de35b124c10427f332b69f2f09acf88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:53 +0000
Subject: [PATCH 27/63] fix: attribute map blocks with values of differing
 types no longer panic

With a dynamic element type the values were put in a map as they were. They
are now converted to a single type, and an error is reported if there is none.
---
 hcldec/spec.go | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/hcldec/spec.go b/hcldec/spec.go
index f9da7f6..298e44f 100644
--- a/hcldec/spec.go
+++ b/hcldec/spec.go
@@ -1238,6 +1238,45 @@ func (s *BlockAttrsSpec) decode(content *hcl.BodyContent, blockLabels []blockLab
 		vals[name] = attrVal
 	}
 
+	// If our element type is dynamic then the values may still have differing
+	// types here, in which case they must all be convertable to a single type
+	// because otherwise cty.MapVal would panic.
+	names := make([]string, 0, len(vals))
+	for name := range vals {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	etys := make([]cty.Type, len(names))
+	for i, name := range names {
+		etys[i] = vals[name].Type()
+	}
+	ety, convs := convert.UnifyUnsafe(etys)
+	if ety == cty.NilType {
+		diags = append(diags, &hcl.Diagnostic{
+			Severity: hcl.DiagError,
+			Summary:  "Inconsistent attribute value types",
+			Detail:   fmt.Sprintf("All of the attributes of a %q block must have values of the same type.", s.TypeName),
+			Subject:  &block.DefRange,
+		})
+		return cty.UnknownVal(s.impliedType()), diags
+	}
+	for i, name := range names {
+		if convs[i] == nil {
+			continue
+		}
+		newVal, err := convs[i](vals[name])
+		if err != nil {
+			diags = append(diags, &hcl.Diagnostic{
+				Severity: hcl.DiagError,
+				Summary:  "Invalid attribute value",
+				Detail:   fmt.Sprintf("Invalid value for attribute of %q block: %s.", s.TypeName, err),
+				Subject:  attrs[name].Expr.Range().Ptr(),
+			})
+			return cty.UnknownVal(s.impliedType()), diags
+		}
+		vals[name] = newVal
+	}
+
 	return cty.MapVal(vals), diags
 }
 
-- 
2.43.0


From 745fbe11767e17b42a7fe6653c656e5ae0d476e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:56 +0000
Subject: [PATCH 28/63] fix: source range of labelled blocks skips the labels
 used as keys

The labels that become map or object keys are not visible to the nested
specification, so a nested label has to be counted from the first label after
them, as it is when decoding.
---
 hcldec/spec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hcldec/spec.go b/hcldec/spec.go
index 298e44f..9e2d1e9 100644
--- a/hcldec/spec.go
+++ b/hcldec/spec.go
@@ -963,7 +963,7 @@ func (s *BlockMapSpec) sourceRange(content *hcl.BodyContent, blockLabels []block
 		return content.MissingItemRange
 	}
 
-	return sourceRange(childBlock.Body, labelsForBlock(childBlock), s.Nested)
+	return sourceRange(childBlock.Body, labelsForBlock(childBlock)[len(s.LabelNames):], s.Nested)
 }
 
 // A BlockObjectSpec is a Spec that produces a cty object of the results of
@@ -1107,7 +1107,7 @@ func (s *BlockObjectSpec) sourceRange(content *hcl.BodyContent, blockLabels []bl
 		return content.MissingItemRange
 	}
 
-	return sourceRange(childBlock.Body, labelsForBlock(childBlock), s.Nested)
+	return sourceRange(childBlock.Body, labelsForBlock(childBlock)[len(s.LabelNames):], s.Nested)
 }
 
 // A BlockAttrsSpec is a Spec that interprets a single block as if it were
-- 
2.43.0


From 1a0f9e62cd881966e9fe74e875efedf3338fb9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:59 +0000
Subject: [PATCH 29/63] fix: do not write into the caller's label name array
 when deriving a schema

---
 hcldec/spec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hcldec/spec.go b/hcldec/spec.go
index 9e2d1e9..de0e157 100644
--- a/hcldec/spec.go
+++ b/hcldec/spec.go
@@ -841,7 +841,7 @@ func (s *BlockMapSpec) blockHeaderSchemata() []hcl.BlockHeaderSchema {
 	return []hcl.BlockHeaderSchema{
 		{
 			Type:       s.TypeName,
-			LabelNames: append(s.LabelNames, findLabelSpecs(s.Nested)...),
+			LabelNames: append(s.LabelNames[:len(s.LabelNames):len(s.LabelNames)], findLabelSpecs(s.Nested)...),
 		},
 	}
 }
@@ -990,7 +990,7 @@ func (s *BlockObjectSpec) blockHeaderSchemata() []hcl.BlockHeaderSchema {
 	return []hcl.BlockHeaderSchema{
 		{
 			Type:       s.TypeName,
-			LabelNames: append(s.LabelNames, findLabelSpecs(s.Nested)...),
+			LabelNames: append(s.LabelNames[:len(s.LabelNames):len(s.LabelNames)], findLabelSpecs(s.Nested)...),
 		},
 	}
 }
-- 
2.43.0


From b8e19c173f7e9aad636f1d8e505f0634c931bc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:36:55 +0000
Subject: [PATCH 30/63] fix: a schema may name a required argument more than
 once

The first mention marked the argument as consumed, so that a second mention in
the same read took it for missing. A decoding specification with a default for
a required argument, which mentions it twice, always failed.
---
 hcl/hclsyntax/structure.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/structure.go b/hcl/hclsyntax/structure.go
index 2e8c302..52e1d0c 100644
--- a/hcl/hclsyntax/structure.go
+++ b/hcl/hclsyntax/structure.go
@@ -146,7 +146,7 @@ func (b *Body) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Bod
 	for _, attrS := range schema.Attributes {
 		name := attrS.Name
 		attr, exists := b.Attributes[name]
-		_, hidden := hiddenAttrs[name]
+		_, hidden := b.hiddenAttrs[name]
 		if hidden || !exists {
 			if attrS.Required {
 				diags = append(diags, &hcl.Diagnostic{
-- 
2.43.0


From 9ead924a9a279e12ff2a1e59490b0943351869d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:45:44 +0000
Subject: [PATCH 31/63] fix: block lists, sets and attribute maps with unknown
 types no longer panic

Unifying the types of values where one is of unknown type can leave values of
differing types, which can not be elements of one collection. Report them as
inconsistent like any others.
---
 hcldec/spec.go | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/hcldec/spec.go b/hcldec/spec.go
index de0e157..28a95ce 100644
--- a/hcldec/spec.go
+++ b/hcldec/spec.go
@@ -515,6 +515,15 @@ func (s *BlockListSpec) decode(content *hcl.BodyContent, blockLabels []blockLabe
 				elems[i] = newV
 			}
 		}
+		if i := firstInconsistent(elems); i >= 0 {
+			diags = append(diags, &hcl.Diagnostic{
+				Severity: hcl.DiagError,
+				Summary:  fmt.Sprintf("Unconsistent argument types in %s blocks", s.TypeName),
+				Detail:   "Corresponding attributes in all blocks of this type must be the same.",
+				Subject:  &sourceRanges[i],
+			})
+			return cty.DynamicVal, diags
+		}
 
 		ret = cty.ListVal(elems)
 	}
@@ -789,6 +798,15 @@ func (s *BlockSetSpec) decode(content *hcl.BodyContent, blockLabels []blockLabel
 				elems[i] = newV
 			}
 		}
+		if i := firstInconsistent(elems); i >= 0 {
+			diags = append(diags, &hcl.Diagnostic{
+				Severity: hcl.DiagError,
+				Summary:  fmt.Sprintf("Unconsistent argument types in %s blocks", s.TypeName),
+				Detail:   "Corresponding attributes in all blocks of this type must be the same.",
+				Subject:  &sourceRanges[i],
+			})
+			return cty.DynamicVal, diags
+		}
 
 		ret = cty.SetVal(elems)
 	}
@@ -1276,6 +1294,19 @@ func (s *BlockAttrsSpec) decode(content *hcl.BodyContent, blockLabels []blockLab
 		}
 		vals[name] = newVal
 	}
+	elems := make([]cty.Value, len(names))
+	for i, name := range names {
+		elems[i] = vals[name]
+	}
+	if i := firstInconsistent(elems); i >= 0 {
+		diags = append(diags, &hcl.Diagnostic{
+			Severity: hcl.DiagError,
+			Summary:  "Inconsistent attribute value types",
+			Detail:   fmt.Sprintf("All of the attributes of a %q block must have values of the same type.", s.TypeName),
+			Subject:  attrs[names[i]].Expr.Range().Ptr(),
+		})
+		return cty.UnknownVal(s.impliedType()), diags
+	}
 
 	return cty.MapVal(vals), diags
 }
@@ -1580,6 +1611,23 @@ func (s *TransformFuncSpec) sourceRange(content *hcl.BodyContent, blockLabels []
 	return s.Wrapped.sourceRange(content, blockLabels)
 }
 
+// firstInconsistent returns the index of the first of the given values whose
+// type differs from that of the values before it, or -1 if they may all be
+// elements of the same collection. Differing types can remain after type
+// unification if one of the unified types is dynamic.
+func firstInconsistent(vals []cty.Value) int {
+	ety := cty.DynamicPseudoType
+	for i, val := range vals {
+		switch ty := val.Type(); {
+		case ety == cty.DynamicPseudoType:
+			ety = ty
+		case ty != cty.DynamicPseudoType && !ety.Equals(ty):
+			return i
+		}
+	}
+	return -1
+}
+
 // noopSpec is a placeholder spec that does nothing, used in situations where
 // a non-nil placeholder spec is required. It is not exported because there is
 // no reason to use it directly; it is always an implementation detail only.
-- 
2.43.0


From e4cef68801451737880470af8d46159a5329b65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:50:24 +0000
Subject: [PATCH 32/63] fix: report the variables of an attribute map block
 that has errors

Decoding evaluates the attributes all the same, so the variables they need
have to be reported for a block that also contains nested blocks.
---
 hcldec/spec.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hcldec/spec.go b/hcldec/spec.go
index 28a95ce..7643020 100644
--- a/hcldec/spec.go
+++ b/hcldec/spec.go
@@ -1183,10 +1183,9 @@ func (s *BlockAttrsSpec) variablesNeeded(content *hcl.BodyContent) []hcl.Travers
 
 	var vars []hcl.Traversal
 
-	attrs, diags := block.Body.JustAttributes()
-	if diags.HasErrors() {
-		return nil
-	}
+	// Errors are ignored here because decoding will evaluate whatever
+	// attributes are returned even if there are errors.
+	attrs, _ := block.Body.JustAttributes()
 
 	for _, attr := range attrs {
 		vars = append(vars, attr.Expr.Variables()...)
-- 
2.43.0


From dc9793ca2207880bfc97f4ec31adb3d7b458da0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:42:54 +0000
Subject: [PATCH 33/63] fix: track what remains of an expanded body

After a partial read of a body with dynamic blocks, reading just the
arguments of the remainder returned arguments that were already consumed,
left iterators undefined, and a required argument consumed earlier was
silently missing. The remainder now builds on that of the original body.
---
 ext/dynblock/expand_body.go | 128 +++++++++++++++---------------------
 1 file changed, 52 insertions(+), 76 deletions(-)

diff --git a/ext/dynblock/expand_body.go b/ext/dynblock/expand_body.go
index dd30822..8b5e353 100644
--- a/ext/dynblock/expand_body.go
+++ b/ext/dynblock/expand_body.go
@@ -14,16 +14,15 @@ type expandBody struct {
 	forEachCtx *hcl.EvalContext
 	iteration  *iteration // non-nil if we're nested inside another "dynamic" block
 
-	// These are used with PartialContent to produce a "remaining items"
-	// body to return. They are nil on all bodies fresh out of the transformer.
+	// This is used with PartialContent to produce a "remaining items"
+	// body to return. It is nil on all bodies fresh out of the transformer.
 	//
-	// Note that this is re-implemented here rather than delegating to the
-	// existing support required by the underlying body because we need to
-	// retain access to the entire original body on subsequent decode operations
-	// so we can retain any "dynamic" blocks for types we didn't take consume
-	// on the first pass.
-	hiddenAttrs  map[string]struct{}
-	hiddenBlocks map[string]hcl.BlockHeaderSchema
+	// The underlying body keeps track of its own remaining arguments and
+	// blocks. This records the block types for which we've already expanded
+	// any "dynamic" blocks, because those blocks all stay available in the
+	// underlying body so that we can expand the others on later decode
+	// operations.
+	hiddenBlocks map[string]struct{}
 }
 
 func (b *expandBody) Content(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Diagnostics) {
@@ -46,8 +45,10 @@ func (b *expandBody) Content(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Diag
 func (b *expandBody) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Body, hcl.Diagnostics) {
 	extSchema := b.extendSchema(schema)
 	rawContent, _, diags := b.original.PartialContent(extSchema)
-	// We discard the "remain" argument above because we're going to construct
-	// our own remain that also takes into account remaining "dynamic" blocks.
+	// We discard the "remain" argument above because all of the "dynamic"
+	// blocks have been consumed from it. We need to retain the ones for block
+	// types that were not requested.
+	_, rawRemain, _ := b.original.PartialContent(schema)
 
 	blocks, blockDiags := b.expandBlocks(schema, rawContent.Blocks, true)
 	diags = append(diags, blockDiags...)
@@ -60,23 +61,16 @@ func (b *expandBody) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, h
 	}
 
 	remain := &expandBody{
-		original:     b.original,
+		original:     rawRemain,
 		forEachCtx:   b.forEachCtx,
 		iteration:    b.iteration,
-		hiddenAttrs:  make(map[string]struct{}),
-		hiddenBlocks: make(map[string]hcl.BlockHeaderSchema),
+		hiddenBlocks: make(map[string]struct{}),
 	}
-	for name := range b.hiddenAttrs {
-		remain.hiddenAttrs[name] = struct{}{}
-	}
-	for typeName, blockS := range b.hiddenBlocks {
-		remain.hiddenBlocks[typeName] = blockS
-	}
-	for _, attrS := range schema.Attributes {
-		remain.hiddenAttrs[attrS.Name] = struct{}{}
+	for typeName := range b.hiddenBlocks {
+		remain.hiddenBlocks[typeName] = struct{}{}
 	}
 	for _, blockS := range schema.Blocks {
-		remain.hiddenBlocks[blockS.Type] = blockS
+		remain.hiddenBlocks[blockS.Type] = struct{}{}
 	}
 
 	return content, remain, diags
@@ -88,62 +82,31 @@ func (b *expandBody) extendSchema(schema *hcl.BodySchema) *hcl.BodySchema {
 	// all of the literal child blocks we must also include.
 	extSchema := &hcl.BodySchema{
 		Attributes: schema.Attributes,
-		Blocks:     make([]hcl.BlockHeaderSchema, len(schema.Blocks), len(schema.Blocks)+len(b.hiddenBlocks)+1),
+		Blocks:     make([]hcl.BlockHeaderSchema, len(schema.Blocks), len(schema.Blocks)+1),
 	}
 	copy(extSchema.Blocks, schema.Blocks)
 	extSchema.Blocks = append(extSchema.Blocks, dynamicBlockHeaderSchema)
 
-	// If we have any hiddenBlocks then we also need to register those here
-	// so that a call to "Content" on the underlying body won't fail.
-	// (We'll filter these out again once we process the result of either
-	// Content or PartialContent.)
-	for _, blockS := range b.hiddenBlocks {
-		extSchema.Blocks = append(extSchema.Blocks, blockS)
-	}
-
-	// If we have any hiddenAttrs then we also need to register these, for
-	// the same reason as we deal with hiddenBlocks above.
-	if len(b.hiddenAttrs) != 0 {
-		newAttrs := make([]hcl.AttributeSchema, len(schema.Attributes), len(schema.Attributes)+len(b.hiddenAttrs))
-		copy(newAttrs, extSchema.Attributes)
-		for name := range b.hiddenAttrs {
-			newAttrs = append(newAttrs, hcl.AttributeSchema{
-				Name:     name,
-				Required: false,
-			})
-		}
-		extSchema.Attributes = newAttrs
-	}
-
 	return extSchema
 }
 
 func (b *expandBody) prepareAttributes(rawAttrs hcl.Attributes) hcl.Attributes {
-	if len(b.hiddenAttrs) == 0 && b.iteration == nil {
+	if b.iteration == nil {
 		// Easy path: just pass through the attrs from the original body verbatim
 		return rawAttrs
 	}
 
-	// Otherwise we have some work to do: we must filter out any attributes
-	// that are hidden (since a previous PartialContent call already saw these)
-	// and wrap the expressions of the inner attributes so that they will
-	// have access to our iteration variables.
+	// Otherwise we have some work to do: we must wrap the expressions of the
+	// inner attributes so that they will have access to our iteration
+	// variables.
 	attrs := make(hcl.Attributes, len(rawAttrs))
 	for name, rawAttr := range rawAttrs {
-		if _, hidden := b.hiddenAttrs[name]; hidden {
-			continue
-		}
-		if b.iteration != nil {
-			attr := *rawAttr // shallow copy so we can mutate it
-			attr.Expr = exprWrap{
-				Expression: attr.Expr,
-				i:          b.iteration,
-			}
-			attrs[name] = &attr
-		} else {
-			// If we have no active iteration then no wrapping is required.
-			attrs[name] = rawAttr
+		attr := *rawAttr // shallow copy so we can mutate it
+		attr.Expr = exprWrap{
+			Expression: attr.Expr,
+			i:          b.iteration,
 		}
+		attrs[name] = &attr
 	}
 	return attrs
 }
@@ -228,15 +191,13 @@ func (b *expandBody) expandBlocks(schema *hcl.BodySchema, rawBlocks hcl.Blocks,
 			}
 
 		default:
-			if _, hidden := b.hiddenBlocks[rawBlock.Type]; !hidden {
-				// A static block doesn't create a new iteration context, but
-				// it does need to inherit _our own_ iteration context in
-				// case it contains expressions that refer to our inherited
-				// iterators, or nested "dynamic" blocks.
-				expandedBlock := *rawBlock // shallow copy
-				expandedBlock.Body = b.expandChild(rawBlock.Body, b.iteration)
-				blocks = append(blocks, &expandedBlock)
-			}
+			// A static block doesn't create a new iteration context, but
+			// it does need to inherit _our own_ iteration context in
+			// case it contains expressions that refer to our inherited
+			// iterators, or nested "dynamic" blocks.
+			expandedBlock := *rawBlock // shallow copy
+			expandedBlock.Body = b.expandChild(rawBlock.Body, b.iteration)
+			blocks = append(blocks, &expandedBlock)
 		}
 	}
 
@@ -252,9 +213,24 @@ func (b *expandBody) expandChild(child hcl.Body, i *iteration) hcl.Body {
 
 func (b *expandBody) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 	// blocks aren't allowed in JustAttributes mode and this body can
-	// only produce blocks, so we'll just pass straight through to our
-	// underlying body here.
-	return b.original.JustAttributes()
+	// only produce blocks, so we'll just pass through to our underlying body
+	// here, unless a previous PartialContent call already consumed all of
+	// the dynamic blocks that remain in it.
+	original := b.original
+	if len(b.hiddenBlocks) != 0 {
+		content, remain, _ := original.PartialContent(b.extendSchema(&hcl.BodySchema{}))
+		consumed := len(content.Blocks) != 0
+		for _, block := range content.Blocks {
+			if _, hidden := b.hiddenBlocks[block.Labels[0]]; !hidden {
+				consumed = false
+			}
+		}
+		if consumed {
+			original = remain
+		}
+	}
+	rawAttrs, diags := original.JustAttributes()
+	return b.prepareAttributes(rawAttrs), diags
 }
 
 func (b *expandBody) MissingItemRange() hcl.Range {
-- 
2.43.0


From 87ecbfe563f5d2ea14f9c7faf28f5f6e268a942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:42:54 +0000
Subject: [PATCH 34/63] fix: include all variables of a specification in
 dynamic block walks

Variables in blocks read as a map of arguments, in expressions of the
specification itself, and in blocks described by several specifications
were missing.
---
 ext/dynblock/variables.go        | 30 +++++++++++------
 ext/dynblock/variables_hcldec.go | 57 +++++++++++++++++++++++++++++---
 2 files changed, 71 insertions(+), 16 deletions(-)

diff --git a/ext/dynblock/variables.go b/ext/dynblock/variables.go
index ad838f3..1153759 100644
--- a/ext/dynblock/variables.go
+++ b/ext/dynblock/variables.go
@@ -78,17 +78,7 @@ func (n WalkVariablesNode) Visit(schema *hcl.BodySchema) (vars []hcl.Traversal,
 
 	if n.includeContent {
 		for _, attr := range container.Attributes {
-			for _, traversal := range attr.Expr.Variables() {
-				var ours, inherited bool
-				if n.it != nil {
-					ours = traversal.RootName() == n.it.IteratorName
-					_, inherited = n.it.Inherited[traversal.RootName()]
-				}
-
-				if !(ours || inherited) {
-					vars = append(vars, traversal)
-				}
-			}
+			vars = append(vars, n.filterVariables(attr.Expr)...)
 		}
 	}
 
@@ -169,6 +159,24 @@ func (n WalkVariablesNode) Visit(schema *hcl.BodySchema) (vars []hcl.Traversal,
 	return vars, children
 }
 
+// filterVariables returns the variables needed by the given expression,
+// excluding any iterator names that are in scope for the node.
+func (n WalkVariablesNode) filterVariables(expr hcl.Expression) []hcl.Traversal {
+	var vars []hcl.Traversal
+	for _, traversal := range expr.Variables() {
+		var ours, inherited bool
+		if n.it != nil {
+			ours = traversal.RootName() == n.it.IteratorName
+			_, inherited = n.it.Inherited[traversal.RootName()]
+		}
+
+		if !(ours || inherited) {
+			vars = append(vars, traversal)
+		}
+	}
+	return vars
+}
+
 func (n WalkVariablesNode) extendSchema(schema *hcl.BodySchema) *hcl.BodySchema {
 	// We augment the requested schema to also include our special "dynamic"
 	// block type, since then we'll get instances of it interleaved with
diff --git a/ext/dynblock/variables_hcldec.go b/ext/dynblock/variables_hcldec.go
index a078d91..ebb876f 100644
--- a/ext/dynblock/variables_hcldec.go
+++ b/ext/dynblock/variables_hcldec.go
@@ -30,14 +30,61 @@ func ExpandVariablesHCLDec(body hcl.Body, spec hcldec.Spec) []hcl.Traversal {
 func walkVariablesWithHCLDec(node WalkVariablesNode, spec hcldec.Spec) []hcl.Traversal {
 	vars, children := node.Visit(hcldec.ImpliedSchema(spec))
 
-	if len(children) > 0 {
-		childSpecs := hcldec.ChildBlockTypes(spec)
-		for _, child := range children {
-			if childSpec, exists := childSpecs[child.BlockTypeName]; exists {
-				vars = append(vars, walkVariablesWithHCLDec(child.Node, childSpec)...)
+	if node.includeContent {
+		// Also include any variables needed by expressions that are part of
+		// the specification itself, rather than of the body.
+		vars = append(vars, hcldec.Variables(hcl.EmptyBody(), spec)...)
+	}
+
+	for _, child := range children {
+		for _, blockSpec := range blockSpecs(spec, child.BlockTypeName) {
+			if _, isAttrs := blockSpec.(*hcldec.BlockAttrsSpec); isAttrs {
+				// There is no nested specification in this case, because all
+				// of the attributes in the block body are used.
+				if node.includeContent {
+					attrs, _ := child.Body().JustAttributes()
+					for _, attr := range attrs {
+						vars = append(vars, child.Node.filterVariables(attr.Expr)...)
+					}
+				}
+				continue
+			}
+			if nested, exists := hcldec.ChildBlockTypes(blockSpec)[child.BlockTypeName]; exists {
+				vars = append(vars, walkVariablesWithHCLDec(child.Node, nested)...)
 			}
 		}
 	}
 
 	return vars
 }
+
+// blockSpecs returns all of the specs for blocks of the given type that would
+// be applied to the same body as the given spec. More than one spec can
+// refer to the same block type.
+func blockSpecs(spec hcldec.Spec, typeName string) []hcldec.Spec {
+	var ret []hcldec.Spec
+	switch s := spec.(type) {
+	case hcldec.ObjectSpec:
+		for _, c := range s {
+			ret = append(ret, blockSpecs(c, typeName)...)
+		}
+	case hcldec.TupleSpec:
+		for _, c := range s {
+			ret = append(ret, blockSpecs(c, typeName)...)
+		}
+	case *hcldec.DefaultSpec:
+		ret = append(ret, blockSpecs(s.Primary, typeName)...)
+		ret = append(ret, blockSpecs(s.Default, typeName)...)
+	case *hcldec.TransformExprSpec:
+		ret = append(ret, blockSpecs(s.Wrapped, typeName)...)
+	case *hcldec.TransformFuncSpec:
+		ret = append(ret, blockSpecs(s.Wrapped, typeName)...)
+	default:
+		for _, blockS := range hcldec.ImpliedSchema(spec).Blocks {
+			if blockS.Type == typeName {
+				ret = append(ret, spec)
+			}
+		}
+	}
+	return ret
+}
-- 
2.43.0


From 7f598f802f00d5d47c5532219b7f4eee22ed55e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:42:55 +0000
Subject: [PATCH 35/63] fix: keep the missing item range of blocks with unknown
 expansion

---
 ext/dynblock/unknown_body.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ext/dynblock/unknown_body.go b/ext/dynblock/unknown_body.go
index 932f6a3..23580c8 100644
--- a/ext/dynblock/unknown_body.go
+++ b/ext/dynblock/unknown_body.go
@@ -56,7 +56,9 @@ func (b unknownBody) MissingItemRange() hcl.Range {
 }
 
 func (b unknownBody) fixupContent(got *hcl.BodyContent) *hcl.BodyContent {
-	ret := &hcl.BodyContent{}
+	ret := &hcl.BodyContent{
+		MissingItemRange: got.MissingItemRange,
+	}
 	ret.Attributes = b.fixupAttrs(got.Attributes)
 	if len(got.Blocks) > 0 {
 		ret.Blocks = make(hcl.Blocks, 0, len(got.Blocks))
-- 
2.43.0


From e47afeedcec163f99f18d919349038928a8e7535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:46:39 +0000
Subject: [PATCH 36/63] fix: scan source fragments relative to the start of the
 fragment

A range scanner created with a non-zero starting byte offset used that
offset to index the fragment, so it skipped the first part of the fragment
or failed with an out of range slice.
---
 hcl/pos_scanner.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/hcl/pos_scanner.go b/hcl/pos_scanner.go
index 17c0d7c..7a9197d 100644
--- a/hcl/pos_scanner.go
+++ b/hcl/pos_scanner.go
@@ -20,12 +20,12 @@ import (
 // mimics the behavior we expect from a parser when producing ranges.
 type RangeScanner struct {
 	filename string
-	b        []byte
+	b        []byte // portion of the buffer not yet processed
 	cb       bufio.SplitFunc
 
-	pos Pos    // position of next byte to process in b
+	pos Pos    // position of the first byte in b
 	cur Range  // latest range
-	tok []byte // slice of b that is covered by cur
+	tok []byte // slice of the buffer that is covered by cur
 	err error  // error from last scan, if any
 }
 
@@ -56,7 +56,7 @@ func NewRangeScannerFragment(b []byte, filename string, start Pos, cb bufio.Spli
 }
 
 func (sc *RangeScanner) Scan() bool {
-	if sc.pos.Byte >= len(sc.b) || sc.err != nil {
+	if len(sc.b) == 0 || sc.err != nil {
 		// All done
 		return false
 	}
@@ -64,7 +64,7 @@ func (sc *RangeScanner) Scan() bool {
 	// Since we're operating on an in-memory buffer, we always pass the whole
 	// remainder of the buffer to our SplitFunc and set isEOF to let it know
 	// that it has the whole thing.
-	advance, token, err := sc.cb(sc.b[sc.pos.Byte:], true)
+	advance, token, err := sc.cb(sc.b, true)
 
 	// Since we are setting isEOF to true this should never happen, but
 	// if it does we will just abort and assume the SplitFunc is misbehaving.
@@ -92,7 +92,7 @@ func (sc *RangeScanner) Scan() bool {
 	// we're being asked to skip over by the SplitFunc.
 	// adv is a slice covering any additional bytes we are skipping over, based
 	// on what the SplitFunc told us to do with advance.
-	adv := sc.b[sc.pos.Byte : sc.pos.Byte+advance]
+	adv := sc.b[:advance]
 
 	// We now need to scan over our token to count the grapheme clusters
 	// so we can correctly advance Column, and count the newlines so we
@@ -129,6 +129,7 @@ func (sc *RangeScanner) Scan() bool {
 		Start:    start,
 		End:      end,
 	}
+	sc.b = sc.b[advance:]
 	sc.pos = new
 	return true
 }
-- 
2.43.0


From 8ad87d233bf0be9b444447ab8f3923537e01d270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:46:39 +0000
Subject: [PATCH 37/63] fix: adjacent source ranges do not overlap

Ranges that only touch share no characters, but were reported as
overlapping. The diagnostic writer relied on that to show a line whose
terminator is the subject, and so also showed the following line and left
out blank lines. It now treats the terminator as part of its line.
---
 hcl/diagnostic_text.go | 11 ++++++++++-
 hcl/pos.go             |  7 ++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/hcl/diagnostic_text.go b/hcl/diagnostic_text.go
index 0b4a262..f4463ad 100644
--- a/hcl/diagnostic_text.go
+++ b/hcl/diagnostic_text.go
@@ -112,7 +112,16 @@ func (w *diagnosticTextWriter) WriteDiagnostic(diag *Diagnostic) error {
 
 			for sc.Scan() {
 				lineRange := sc.Range()
-				if !lineRange.Overlaps(snipRange) {
+
+				// A line is also touched by a range that covers only its
+				// terminator, or that starts at the end of an unterminated
+				// final line.
+				wholeLineRange := lineRange
+				wholeLineRange.End = sc.pos
+				if wholeLineRange.End.Byte == lineRange.End.Byte {
+					wholeLineRange.End.Byte++
+				}
+				if !wholeLineRange.Overlaps(snipRange) {
 					continue
 				}
 
diff --git a/hcl/pos.go b/hcl/pos.go
index 06db8bf..de49308 100644
--- a/hcl/pos.go
+++ b/hcl/pos.go
@@ -202,12 +202,9 @@ func (r Range) Overlaps(other Range) bool {
 	case r.Empty() || other.Empty():
 		// Empty ranges can never overlap
 		return false
-	case r.ContainsOffset(other.Start.Byte) || r.ContainsOffset(other.End.Byte):
-		return true
-	case other.ContainsOffset(r.Start.Byte) || other.ContainsOffset(r.End.Byte):
-		return true
 	default:
-		return false
+		// Range ends are exclusive, so adjacent ranges share no characters.
+		return r.Start.Byte < other.End.Byte && other.Start.Byte < r.End.Byte
 	}
 }
 
-- 
2.43.0


From 3c1018e49c1ecadaa8ce611d0fd00385eb0f97c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:46:51 +0000
Subject: [PATCH 38/63] fix: a carriage return alone does not start a new line
 when scanning ranges

The parsers only count line feeds, optionally preceded by a carriage
return, so diagnostics for sources with stray carriage returns showed the
wrong lines.
---
 hcl/pos_scanner.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hcl/pos_scanner.go b/hcl/pos_scanner.go
index 7a9197d..1382b27 100644
--- a/hcl/pos_scanner.go
+++ b/hcl/pos_scanner.go
@@ -108,8 +108,9 @@ func (sc *RangeScanner) Scan() bool {
 
 		// We rely here on the fact that \r\n is considered a grapheme cluster
 		// and so we don't need to worry about miscounting additional lines
-		// on files with Windows-style line endings.
-		if len(gr) != 0 && (gr[0] == '\r' || gr[0] == '\n') {
+		// on files with Windows-style line endings. A carriage return alone
+		// does not end a line, for consistency with the parsers.
+		if len(gr) != 0 && gr[len(gr)-1] == '\n' {
 			new.Column = 1
 			new.Line++
 		}
-- 
2.43.0


From d5a842ad2d9cbc76e4640faf826bc0bf7adb8764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:20 +0000
Subject: [PATCH 39/63] fix: print object types whose first attribute is named
 for so they can be parsed

Directly after the opening brace the name was taken as the start of a for
expression.
---
 ext/typeexpr/public.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ext/typeexpr/public.go b/ext/typeexpr/public.go
index e3f5eef..87c65ff 100644
--- a/ext/typeexpr/public.go
+++ b/ext/typeexpr/public.go
@@ -97,6 +97,10 @@ func TypeString(ty cty.Type) string {
 				// Using Go-style quoting here isn't perfect, since it doesn't
 				// exactly match HCL syntax, but it's fine for an edge-case.
 				buf.WriteString(fmt.Sprintf("%q", name))
+			} else if first && name == "for" {
+				// At the start of the braces this would otherwise be taken
+				// as the introducer of a "for" expression.
+				buf.WriteString("(for)")
 			} else {
 				buf.WriteString(name)
 			}
-- 
2.43.0


From 21765ea41138d38ce21ae1931735f0393a4d01ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:59:36 +0000
Subject: [PATCH 40/63] fix: do not remember JSON files that could not be read

A missing file left an empty entry in the registry, and listing the
sources afterwards failed with a nil pointer.
---
 hclparse/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hclparse/parser.go b/hclparse/parser.go
index 6d47f12..680a461 100644
--- a/hclparse/parser.go
+++ b/hclparse/parser.go
@@ -89,6 +89,10 @@ func (p *Parser) ParseJSONFile(filename string) (*hcl.File, hcl.Diagnostics) {
 	}
 
 	file, diags := json.ParseFile(filename)
+	if file == nil {
+		// The file could not be read, so there is nothing to remember.
+		return nil, diags
+	}
 	p.files[filename] = file
 	return file, diags
 }
-- 
2.43.0


From b92184ceaed9744ddad07f1ed820ec4a9e187d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:22:31 +0000
Subject: [PATCH 41/63] fix: keep transforming blocks read from what remains of
 a partial read

---
 ext/transform/transform.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ext/transform/transform.go b/ext/transform/transform.go
index 30e9eed..de8c5da 100644
--- a/ext/transform/transform.go
+++ b/ext/transform/transform.go
@@ -45,6 +45,10 @@ func (w deepWrapper) Content(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Diag
 func (w deepWrapper) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Body, hcl.Diagnostics) {
 	content, remain, diags := w.Transformed.PartialContent(schema)
 	content = w.transformContent(content)
+	remain = deepWrapper{
+		Transformed: remain,
+		Transformer: w.Transformer,
+	}
 	return content, remain, diags
 }
 
-- 
2.43.0


From 322209eb3b0211cf6ccd14dd8c1d11104fc9fa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:22:31 +0000
Subject: [PATCH 42/63] fix: return a body as the rest of an error body

---
 ext/transform/error.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ext/transform/error.go b/ext/transform/error.go
index d7de418..bb9c5f3 100644
--- a/ext/transform/error.go
+++ b/ext/transform/error.go
@@ -67,7 +67,11 @@ func (b diagBody) Content(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Diagnos
 
 func (b diagBody) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Body, hcl.Diagnostics) {
 	if b.Diags.HasErrors() {
-		return b.emptyContent(), b.Wrapped, b.Diags
+		remain := b.Wrapped
+		if remain == nil {
+			remain = hcl.EmptyBody()
+		}
+		return b.emptyContent(), remain, b.Diags
 	}
 
 	content, remain, wrappedDiags := b.Wrapped.PartialContent(schema)
-- 
2.43.0


From bf6013c8d829ce2611512271b53e2417941bec58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:22:31 +0000
Subject: [PATCH 43/63] fix: report invalid include blocks and ignore missing
 included bodies

---
 ext/include/transformer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ext/include/transformer.go b/ext/include/transformer.go
index 15c513f..3288600 100644
--- a/ext/include/transformer.go
+++ b/ext/include/transformer.go
@@ -76,10 +76,13 @@ func (t *transformer) TransformBody(in hcl.Body) hcl.Body {
 		}
 
 		incBody, incDiags := t.Resolver.ResolveBodyPath(path, pathExpr.Range())
+		if incBody == nil && len(incDiags) == 0 {
+			continue
+		}
 		bodies = append(bodies, transform.BodyWithDiagnostics(incBody, incDiags))
 	}
 
-	return hcl.MergeBodies(bodies)
+	return transform.BodyWithDiagnostics(hcl.MergeBodies(bodies), diags)
 }
 
 var includeBlockSchema = &hcl.BodySchema{
-- 
2.43.0


From 8feef9eb5b4e1eb57e60ee66266eaba7aa3794cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:22:31 +0000
Subject: [PATCH 44/63] fix: do not crash when an included file cannot be read

---
 ext/include/file_resolver.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ext/include/file_resolver.go b/ext/include/file_resolver.go
index c79a094..672ade8 100644
--- a/ext/include/file_resolver.go
+++ b/ext/include/file_resolver.go
@@ -36,7 +36,10 @@ type fileResolver struct {
 }
 
 func (r fileResolver) ResolveBodyPath(path string, refRange hcl.Range) (hcl.Body, hcl.Diagnostics) {
-	callerFile := filepath.Join(r.BaseDir, refRange.Filename)
+	callerFile := refRange.Filename
+	if !filepath.IsAbs(callerFile) {
+		callerFile = filepath.Join(r.BaseDir, callerFile)
+	}
 	callerDir := filepath.Dir(callerFile)
 	targetFile := filepath.Join(callerDir, path)
 
@@ -48,5 +51,8 @@ func (r fileResolver) ResolveBodyPath(path string, refRange hcl.Range) (hcl.Body
 		f, diags = r.Parser.ParseHCLFile(targetFile)
 	}
 
+	if f == nil {
+		return nil, diags
+	}
 	return f.Body, diags
 }
-- 
2.43.0


From 72f5ac680bfe26b8d3a1b1698e68594e81c8295f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:44:17 +0000
Subject: [PATCH 45/63] fix: ignore packed ranges that refer to missing
 positions

---
 hclpack/positions_packed.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hclpack/positions_packed.go b/hclpack/positions_packed.go
index 29c7144..0cce9fc 100644
--- a/hclpack/positions_packed.go
+++ b/hclpack/positions_packed.go
@@ -172,10 +172,10 @@ func packRange(rng hcl.Range, pos map[string]map[hcl.Pos]posOfs) rangePacked {
 func (rp rangePacked) Unpack(fns []string, poss []position) hcl.Range {
 	startIdx := rp.Start.Index()
 	endIdx := rp.End.Index()
-	if startIdx < 0 && startIdx >= len(poss) {
+	if startIdx < 0 || startIdx >= len(poss) {
 		return hcl.Range{} // out of bounds, so invalid
 	}
-	if endIdx < 0 && endIdx >= len(poss) {
+	if endIdx < 0 || endIdx >= len(poss) {
 		return hcl.Range{} // out of bounds, so invalid
 	}
 	startPos := poss[startIdx]
-- 
2.43.0


From c9f6a666b5978ce437f8827ca5c438d115eae04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:44:17 +0000
Subject: [PATCH 46/63] fix: unpack columns of positions on earlier lines as
 they were packed

---
 hclpack/positions_packed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hclpack/positions_packed.go b/hclpack/positions_packed.go
index 0cce9fc..0ae68dd 100644
--- a/hclpack/positions_packed.go
+++ b/hclpack/positions_packed.go
@@ -110,7 +110,7 @@ func (pp positionsPacked) Unpack() []position {
 			accPos = hcl.Pos{} // reset base position for each new file
 			accFileIdx = pp[i].FileIdx
 		}
-		if relPos.LineDelta > 0 {
+		if relPos.LineDelta != 0 {
 			accPos.Column = 0 // reset column position for each new line
 		}
 		accPos.Line += relPos.LineDelta
-- 
2.43.0


From a87c22bd88ef978af32f8027fbec0d5386f344b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:44:17 +0000
Subject: [PATCH 47/63] fix: pack the right source of expressions when the file
 does not start at byte zero

---
 hclpack/pack_native.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/hclpack/pack_native.go b/hclpack/pack_native.go
index 05f67a6..6cbf566 100644
--- a/hclpack/pack_native.go
+++ b/hclpack/pack_native.go
@@ -14,15 +14,20 @@ import (
 func PackNativeFile(src []byte, filename string, start hcl.Pos) (*Body, hcl.Diagnostics) {
 	f, diags := hclsyntax.ParseConfig(src, filename, start)
 	rootBody := f.Body.(*hclsyntax.Body)
-	return packNativeBody(rootBody, src), diags
+	return packNativeBody(rootBody, src, start.Byte), diags
 }
 
-func packNativeBody(body *hclsyntax.Body, src []byte) *Body {
+// packNativeBody packs the given body, whose source code is src. Byte offsets
+// in source ranges are relative to startByte.
+func packNativeBody(body *hclsyntax.Body, src []byte, startByte int) *Body {
 	ret := &Body{}
 	for name, attr := range body.Attributes {
 		exprRng := attr.Expr.Range()
 		exprStartRng := attr.Expr.StartRange()
-		exprSrc := exprRng.SliceBytes(src)
+		srcRng := exprRng
+		srcRng.Start.Byte -= startByte
+		srcRng.End.Byte -= startByte
+		exprSrc := srcRng.SliceBytes(src)
 		ret.setAttribute(name, Attribute{
 			Expr: Expression{
 				Source:     exprSrc,
@@ -37,7 +42,7 @@ func packNativeBody(body *hclsyntax.Body, src []byte) *Body {
 	}
 
 	for _, block := range body.Blocks {
-		childBody := packNativeBody(block.Body, src)
+		childBody := packNativeBody(block.Body, src, startByte)
 		defRange := block.TypeRange
 		if len(block.LabelRanges) > 0 {
 			defRange = hcl.RangeBetween(defRange, block.LabelRanges[len(block.LabelRanges)-1])
-- 
2.43.0


From 7ae0e9f6263dfd0d409898e4b40ce967b7c41bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:44:19 +0000
Subject: [PATCH 48/63] fix: keep packed heredoc expressions parseable

---
 hclpack/pack_native.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hclpack/pack_native.go b/hclpack/pack_native.go
index 6cbf566..6d4f416 100644
--- a/hclpack/pack_native.go
+++ b/hclpack/pack_native.go
@@ -1,6 +1,8 @@
 package hclpack
 
 import (
+	"bytes"
+
 	"github.com/hashicorp/hcl2/hcl"
 	"github.com/hashicorp/hcl2/hcl/hclsyntax"
 )
@@ -28,6 +30,11 @@ func packNativeBody(body *hclsyntax.Body, src []byte, startByte int) *Body {
 		srcRng.Start.Byte -= startByte
 		srcRng.End.Byte -= startByte
 		exprSrc := srcRng.SliceBytes(src)
+		if bytes.Contains(exprSrc, []byte("<<")) {
+			// The end marker of a heredoc must be followed by a newline, which
+			// is not part of the range of the expression.
+			exprSrc = append(exprSrc[:len(exprSrc):len(exprSrc)], '\n')
+		}
 		ret.setAttribute(name, Attribute{
 			Expr: Expression{
 				Source:     exprSrc,
-- 
2.43.0


From 6c884b13be37066603c7c81b886a6fcd0768b539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:46:29 +0000
Subject: [PATCH 49/63] fix: give each argument of a packed body its own
 expression

---
 hclpack/structure.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hclpack/structure.go b/hclpack/structure.go
index 488a99e..c6d8b69 100644
--- a/hclpack/structure.go
+++ b/hclpack/structure.go
@@ -212,6 +212,8 @@ func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 
 	ret := make(hcl.Attributes, len(b.Attributes))
 	for n, a := range b.Attributes {
+		// Redeclare attribute so that each result refers to its own expression.
+		a := a
 		ret[n] = a.asHCLAttribute(n)
 	}
 	return ret, diags
-- 
2.43.0


From 81dd1e7ecd59b1671fead26927c9803a27e9da81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:51:29 +0000
Subject: [PATCH 50/63] Mark the steps of splat evaluation on shared state for
 schedule exploration (build tag verif)

---
 hcl/hclsyntax/expression.go |  3 +++
 hcl/hclsyntax/verif_off.go  | 10 ++++++++++
 hcl/hclsyntax/verif_on.go   | 17 +++++++++++++++++
 3 files changed, 30 insertions(+)
 create mode 100644 hcl/hclsyntax/verif_off.go
 create mode 100644 hcl/hclsyntax/verif_on.go

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index 58ea692..ad28892 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -1439,6 +1439,7 @@ func (e *AnonSymbolExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics
 		return cty.DynamicVal, nil
 	}
 
+	verifStep("get", ctx)
 	e.valuesLock.RLock()
 	defer e.valuesLock.RUnlock()
 
@@ -1452,6 +1453,7 @@ func (e *AnonSymbolExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics
 // setValue sets a temporary local value for the expression when evaluated
 // in the given context, which must be non-nil.
 func (e *AnonSymbolExpr) setValue(ctx *hcl.EvalContext, val cty.Value) {
+	verifStep("set", ctx)
 	e.valuesLock.Lock()
 	defer e.valuesLock.Unlock()
 
@@ -1465,6 +1467,7 @@ func (e *AnonSymbolExpr) setValue(ctx *hcl.EvalContext, val cty.Value) {
 }
 
 func (e *AnonSymbolExpr) clearValue(ctx *hcl.EvalContext) {
+	verifStep("clear", ctx)
 	e.valuesLock.Lock()
 	defer e.valuesLock.Unlock()
 
diff --git a/hcl/hclsyntax/verif_off.go b/hcl/hclsyntax/verif_off.go
new file mode 100644
index 0000000..f1abf79
--- /dev/null
+++ b/hcl/hclsyntax/verif_off.go
@@ -0,0 +1,10 @@
+// +build !verif
+
+package hclsyntax
+
+import (
+	"github.com/hashicorp/hcl2/hcl"
+)
+
+// verifStep marks a step on shared state. It does nothing in normal builds.
+func verifStep(step string, ctx *hcl.EvalContext) {}
diff --git a/hcl/hclsyntax/verif_on.go b/hcl/hclsyntax/verif_on.go
new file mode 100644
index 0000000..47c6028
--- /dev/null
+++ b/hcl/hclsyntax/verif_on.go
@@ -0,0 +1,17 @@
+// +build verif
+
+package hclsyntax
+
+import (
+	"github.com/hashicorp/hcl2/hcl"
+)
+
+// VerifStep, if set, is called before each step on state that is shared
+// between evaluations.
+var VerifStep func(step string, ctx *hcl.EvalContext)
+
+func verifStep(step string, ctx *hcl.EvalContext) {
+	if VerifStep != nil {
+		VerifStep(step, ctx)
+	}
+}
-- 
2.43.0


From 43e9b916205035a0fdfd67605f9f2b8565a79a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:31:03 +0000
Subject: [PATCH 51/63] fix: support block fields of the documented raw types
 and ignore raw fields when encoding

---
 gohcl/decode.go | 10 +++++-----
 gohcl/encode.go |  4 ++--
 gohcl/schema.go |  6 ++++++
 gohcl/types.go  |  6 ++++++
 4 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/gohcl/decode.go b/gohcl/decode.go
index 3a149a8..1409779 100644
--- a/gohcl/decode.go
+++ b/gohcl/decode.go
@@ -127,7 +127,7 @@ func decodeBodyToStruct(body hcl.Body, ctx *hcl.EvalContext, val reflect.Value)
 			isSlice = true
 			ty = ty.Elem()
 		}
-		if ty.Kind() == reflect.Ptr {
+		if ty.Kind() == reflect.Ptr && ty != blockType {
 			isPtr = true
 			ty = ty.Elem()
 		}
@@ -146,7 +146,7 @@ func decodeBodyToStruct(body hcl.Body, ctx *hcl.EvalContext, val reflect.Value)
 		}
 
 		if len(blocks) == 0 {
-			if isSlice || isPtr {
+			if isSlice || isPtr || ty == blockType {
 				val.Field(fieldIdx).Set(reflect.Zero(field.Type))
 			} else {
 				diags = append(diags, &hcl.Diagnostic{
@@ -230,15 +230,15 @@ func decodeBlockToValue(block *hcl.Block, ctx *hcl.EvalContext, v reflect.Value)
 
 	switch {
 	case blockType.AssignableTo(ty):
-		v.Elem().Set(reflect.ValueOf(block))
+		v.Set(reflect.ValueOf(block))
 	case bodyType.AssignableTo(ty):
-		v.Elem().Set(reflect.ValueOf(block.Body))
+		v.Set(reflect.ValueOf(block.Body))
 	case attrsType.AssignableTo(ty):
 		attrs, attrsDiags := block.Body.JustAttributes()
 		if len(attrsDiags) > 0 {
 			diags = append(diags, attrsDiags...)
 		}
-		v.Elem().Set(reflect.ValueOf(attrs))
+		v.Set(reflect.ValueOf(attrs))
 	default:
 		diags = append(diags, decodeBodyToValue(block.Body, ctx, v)...)
 
diff --git a/gohcl/encode.go b/gohcl/encode.go
index 3cbf7e4..764f034 100644
--- a/gohcl/encode.go
+++ b/gohcl/encode.go
@@ -107,7 +107,7 @@ func populateBody(rv reflect.Value, ty reflect.Type, tags *fieldTags, dst *hclwr
 		fieldTy := field.Type
 		fieldVal := rv.Field(fieldIdx)
 
-		if fieldTy.Kind() == reflect.Ptr {
+		if fieldTy.Kind() == reflect.Ptr && fieldTy != attrType && fieldTy != blockType {
 			fieldTy = fieldTy.Elem()
 			fieldVal = fieldVal.Elem()
 		}
@@ -150,7 +150,7 @@ func populateBody(rv reflect.Value, ty reflect.Type, tags *fieldTags, dst *hclwr
 				elemTy = elemTy.Elem()
 			}
 
-			if bodyType.AssignableTo(elemTy) || attrsType.AssignableTo(elemTy) {
+			if isRawBlockType(elemTy) {
 				continue // ignore undecoded fields
 			}
 			prevWasBlock = false
diff --git a/gohcl/schema.go b/gohcl/schema.go
index 88164cb..c4a43c4 100644
--- a/gohcl/schema.go
+++ b/gohcl/schema.go
@@ -77,6 +77,12 @@ func ImpliedBodySchema(val interface{}) (schema *hcl.BodySchema, partial bool) {
 		if fty.Kind() == reflect.Slice {
 			fty = fty.Elem()
 		}
+		if isRawBlockType(fty) {
+			blockSchemas = append(blockSchemas, hcl.BlockHeaderSchema{
+				Type: n,
+			})
+			continue
+		}
 		if fty.Kind() == reflect.Ptr {
 			fty = fty.Elem()
 		}
diff --git a/gohcl/types.go b/gohcl/types.go
index a94f275..8fc1d7d 100644
--- a/gohcl/types.go
+++ b/gohcl/types.go
@@ -14,3 +14,9 @@ var bodyType = reflect.TypeOf(&victimBody).Elem()
 var blockType = reflect.TypeOf((*hcl.Block)(nil))
 var attrType = reflect.TypeOf((*hcl.Attribute)(nil))
 var attrsType = reflect.TypeOf(hcl.Attributes(nil))
+
+// isRawBlockType returns true if the given type is one that receives a block,
+// or its contents, without any further decoding.
+func isRawBlockType(ty reflect.Type) bool {
+	return ty == blockType || ty == bodyType || ty == attrsType
+}
-- 
2.43.0


From 633ec9d6d1e82f4510559991b89eccea41045009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:31:04 +0000
Subject: [PATCH 52/63] fix: encode structures in which an argument and a block
 share a name

---
 gohcl/encode.go | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/gohcl/encode.go b/gohcl/encode.go
index 764f034..17e59b7 100644
--- a/gohcl/encode.go
+++ b/gohcl/encode.go
@@ -83,36 +83,37 @@ func EncodeAsBlock(val interface{}, blockType string) *hclwrite.Block {
 }
 
 func populateBody(rv reflect.Value, ty reflect.Type, tags *fieldTags, dst *hclwrite.Body) {
-	nameIdxs := make(map[string]int, len(tags.Attributes)+len(tags.Blocks))
-	namesOrder := make([]string, 0, len(tags.Attributes)+len(tags.Blocks))
+	type namedField struct {
+		name   string
+		idx    int
+		isAttr bool
+	}
+	fields := make([]namedField, 0, len(tags.Attributes)+len(tags.Blocks))
 	for n, i := range tags.Attributes {
-		nameIdxs[n] = i
-		namesOrder = append(namesOrder, n)
+		fields = append(fields, namedField{n, i, true})
 	}
 	for n, i := range tags.Blocks {
-		nameIdxs[n] = i
-		namesOrder = append(namesOrder, n)
+		fields = append(fields, namedField{n, i, false})
 	}
-	sort.SliceStable(namesOrder, func(i, j int) bool {
-		ni, nj := namesOrder[i], namesOrder[j]
-		return nameIdxs[ni] < nameIdxs[nj]
+	sort.SliceStable(fields, func(i, j int) bool {
+		return fields[i].idx < fields[j].idx
 	})
 
 	dst.Clear()
 
 	prevWasBlock := false
-	for _, name := range namesOrder {
-		fieldIdx := nameIdxs[name]
-		field := ty.Field(fieldIdx)
+	for _, f := range fields {
+		name := f.name
+		field := ty.Field(f.idx)
 		fieldTy := field.Type
-		fieldVal := rv.Field(fieldIdx)
+		fieldVal := rv.Field(f.idx)
 
 		if fieldTy.Kind() == reflect.Ptr && fieldTy != attrType && fieldTy != blockType {
 			fieldTy = fieldTy.Elem()
 			fieldVal = fieldVal.Elem()
 		}
 
-		if _, isAttr := tags.Attributes[name]; isAttr {
+		if f.isAttr {
 
 			if exprType.AssignableTo(fieldTy) || attrType.AssignableTo(fieldTy) {
 				continue // ignore undecoded fields
-- 
2.43.0


From 5398a533130d6216a8b6bfdad0aea8f7d6cb99fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:46:31 +0000
Subject: [PATCH 53/63] fix: check a file given more than once each time in
 hclfmt

---
 cmd/hclfmt/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/hclfmt/main.go b/cmd/hclfmt/main.go
index 5223897..fe3fa58 100644
--- a/cmd/hclfmt/main.go
+++ b/cmd/hclfmt/main.go
@@ -10,6 +10,7 @@ import (
 	"strings"
 
 	"github.com/hashicorp/hcl2/hcl"
+	"github.com/hashicorp/hcl2/hcl/hclsyntax"
 	"github.com/hashicorp/hcl2/hclparse"
 	"github.com/hashicorp/hcl2/hclwrite"
 	"golang.org/x/crypto/ssh/terminal"
@@ -119,7 +120,10 @@ func processFile(fn string, in *os.File) error {
 	}
 
 	if *check {
-		_, diags := parser.ParseHCL(inSrc, fn)
+		// The parser returns an already-parsed file without diagnostics, so
+		// it can't be used to check a file that was given more than once.
+		f, diags := hclsyntax.ParseConfig(inSrc, fn, hcl.Pos{Byte: 0, Line: 1, Column: 1})
+		parser.AddFile(fn, f)
 		diagWr.WriteDiagnostics(diags)
 		if diags.HasErrors() {
 			checkErrs = true
-- 
2.43.0


From 5d0f1d035b6a03e62203280a001b6bce99a70bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:50:20 +0000
Subject: [PATCH 54/63] fix: require a block type in hcldec block specs

---
 cmd/hcldec/spec.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cmd/hcldec/spec.go b/cmd/hcldec/spec.go
index c8b90d3..7847dfa 100644
--- a/cmd/hcldec/spec.go
+++ b/cmd/hcldec/spec.go
@@ -256,6 +256,16 @@ func decodeBlockSpec(body hcl.Body, impliedName string) (hcldec.Spec, hcl.Diagno
 	diags = append(diags, nestedDiags...)
 	spec.Nested = nested
 
+	if spec.TypeName == "" {
+		diags = append(diags, &hcl.Diagnostic{
+			Severity: hcl.DiagError,
+			Summary:  "Missing block_type in block spec",
+			Detail:   "The block_type attribute is required, to specify the block type name that is expected in an input HCL file.",
+			Subject:  body.MissingItemRange().Ptr(),
+		})
+		return errSpec, diags
+	}
+
 	return spec, diags
 }
 
-- 
2.43.0


From 59a7134cc6bb25af784d0f8d80584c6789a70852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:50:20 +0000
Subject: [PATCH 55/63] fix: reject block_map specs with collections of any
 type in hcldec

---
 cmd/hcldec/spec.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/cmd/hcldec/spec.go b/cmd/hcldec/spec.go
index 7847dfa..fe7def8 100644
--- a/cmd/hcldec/spec.go
+++ b/cmd/hcldec/spec.go
@@ -404,7 +404,7 @@ func decodeBlockMapSpec(body hcl.Body, impliedName string) (hcldec.Spec, hcl.Dia
 		return errSpec, diags
 	}
 
-	if hcldec.ImpliedType(spec).HasDynamicTypes() {
+	if hasDynamicType(hcldec.ImpliedType(spec)) {
 		diags = append(diags, &hcl.Diagnostic{
 			Severity: hcl.DiagError,
 			Summary:  "Invalid block_map spec",
@@ -416,6 +416,31 @@ func decodeBlockMapSpec(body hcl.Body, impliedName string) (hcldec.Spec, hcl.Dia
 	return spec, diags
 }
 
+// hasDynamicType returns true if the given type is or contains "any", including
+// as the element type of a collection.
+func hasDynamicType(ty cty.Type) bool {
+	switch {
+	case ty.IsCollectionType():
+		return hasDynamicType(ty.ElementType())
+	case ty.IsTupleType():
+		for _, ety := range ty.TupleElementTypes() {
+			if hasDynamicType(ety) {
+				return true
+			}
+		}
+		return false
+	case ty.IsObjectType():
+		for _, aty := range ty.AttributeTypes() {
+			if hasDynamicType(aty) {
+				return true
+			}
+		}
+		return false
+	default:
+		return ty == cty.DynamicPseudoType
+	}
+}
+
 func decodeBlockNestedSpec(body hcl.Body) (hcldec.Spec, hcl.Diagnostics) {
 	content, diags := body.Content(specSchemaUnlabelled)
 
-- 
2.43.0


From b9b8c791eb8e25edd4038884d42e0bf2676eadcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:50:20 +0000
Subject: [PATCH 56/63] fix: avoid a crash on an hcldec default spec with one
 candidate

---
 cmd/hcldec/spec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/hcldec/spec.go b/cmd/hcldec/spec.go
index fe7def8..00307f5 100644
--- a/cmd/hcldec/spec.go
+++ b/cmd/hcldec/spec.go
@@ -558,7 +558,7 @@ func decodeDefaultSpec(body hcl.Body) (hcldec.Spec, hcl.Diagnostics) {
 			Severity: hcl.DiagWarning,
 			Summary:  "Useless default block",
 			Detail:   "A default block with only one spec is equivalent to using that spec alone.",
-			Subject:  &content.Blocks[1].DefRange,
+			Subject:  &content.Blocks[0].DefRange,
 		})
 	}
 
-- 
2.43.0


From 70fed29f1d725896f40cc42c6630048cccb3d3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:50:20 +0000
Subject: [PATCH 57/63] fix: avoid a crash on an hcldec default spec with only
 invalid candidates

---
 cmd/hcldec/spec.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/hcldec/spec.go b/cmd/hcldec/spec.go
index 00307f5..aa5eaf5 100644
--- a/cmd/hcldec/spec.go
+++ b/cmd/hcldec/spec.go
@@ -580,6 +580,11 @@ func decodeDefaultSpec(body hcl.Body) (hcldec.Spec, hcl.Diagnostics) {
 		}
 	}
 
+	if spec == nil {
+		// All of the candidates were invalid.
+		return errSpec, diags
+	}
+
 	return spec, diags
 }
 
-- 
2.43.0


From 300cfbbc6ee9ebea51a49d9c4797294a3e493bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:50:20 +0000
Subject: [PATCH 58/63] fix: accept block_attrs specs nested in other hcldec
 specs

---
 cmd/hcldec/spec.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/hcldec/spec.go b/cmd/hcldec/spec.go
index aa5eaf5..1c3af81 100644
--- a/cmd/hcldec/spec.go
+++ b/cmd/hcldec/spec.go
@@ -646,6 +646,7 @@ var specBlockTypes = []string{
 	"attr",
 
 	"block",
+	"block_attrs",
 	"block_list",
 	"block_map",
 	"block_set",
-- 
2.43.0


From 029eb70569025a8c7f5380a5c6b4970448d902f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:06:20 +0000
Subject: [PATCH 59/63] fix: print numbers with full precision in hcldec

Removing null properties from the result went through float64, so a number
that needs more digits was printed as another number.
---
 cmd/hcldec/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/hcldec/main.go b/cmd/hcldec/main.go
index 16dbb03..b25022f 100644
--- a/cmd/hcldec/main.go
+++ b/cmd/hcldec/main.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io/ioutil"
@@ -332,7 +333,9 @@ func showVarRefsJSON(vars []hcl.Traversal, ctx *hcl.EvalContext) error {
 
 func stripJSONNullProperties(src []byte) []byte {
 	var v interface{}
-	err := json.Unmarshal(src, &v)
+	dec := json.NewDecoder(bytes.NewReader(src))
+	dec.UseNumber() // preserve the precision of numbers
+	err := dec.Decode(&v)
 	if err != nil {
 		// We expect valid JSON
 		panic(err)
-- 
2.43.0


From 17701db444fbc1399f2be7eae86b5a3e88f1b6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:09:56 +0000
Subject: [PATCH 60/63] fix: register all block specs with gob

---
 hcldec/gob.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hcldec/gob.go b/hcldec/gob.go
index e2027cf..08a6462 100644
--- a/hcldec/gob.go
+++ b/hcldec/gob.go
@@ -16,8 +16,11 @@ func init() {
 	gob.Register((*ExprSpec)(nil))
 	gob.Register((*BlockSpec)(nil))
 	gob.Register((*BlockListSpec)(nil))
+	gob.Register((*BlockTupleSpec)(nil))
 	gob.Register((*BlockSetSpec)(nil))
 	gob.Register((*BlockMapSpec)(nil))
+	gob.Register((*BlockObjectSpec)(nil))
+	gob.Register((*BlockAttrsSpec)(nil))
 	gob.Register((*BlockLabelSpec)(nil))
 	gob.Register((*DefaultSpec)(nil))
 }
-- 
2.43.0


From a4420c3aca42bedc55b1265593305e93c88d62f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:14:35 +0000
Subject: [PATCH 61/63] fix: do not suggest arguments a packed body already has

---
 hclpack/structure.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hclpack/structure.go b/hclpack/structure.go
index c6d8b69..829be7b 100644
--- a/hclpack/structure.go
+++ b/hclpack/structure.go
@@ -84,7 +84,7 @@ func (b *Body) content(schema *hcl.BodySchema, remain *Body) (*hcl.BodyContent,
 		}
 		var suggestions []string
 		for _, attrS := range schema.Attributes {
-			if _, defined := attrs[name]; defined {
+			if _, defined := attrs[attrS.Name]; defined {
 				continue
 			}
 			suggestions = append(suggestions, attrS.Name)
-- 
2.43.0


From d04d6d13f7a4dad59bc2904d6dd7819d8a779119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:14:37 +0000
Subject: [PATCH 62/63] fix: suggest functions of enclosing scopes

---
 hcl/hclsyntax/expression.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index ad28892..c1b1f35 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -221,8 +221,10 @@ func (e *FunctionCallExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnosti
 		}
 
 		avail := make([]string, 0, len(ctx.Functions))
-		for name := range ctx.Functions {
-			avail = append(avail, name)
+		for thisCtx = ctx; thisCtx != nil; thisCtx = thisCtx.Parent() {
+			for name := range thisCtx.Functions {
+				avail = append(avail, name)
+			}
 		}
 		suggestion := nameSuggestion(e.Name, avail)
 		if suggestion != "" {
-- 
2.43.0


From 88ed64540ab871bca6e366ba508c41853152455f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:40:02 +0000
Subject: [PATCH 63/63] fix: place static references in JSON strings behind the
 quote

Paths and calls read statically from a JSON string were reported one
character too early, on the opening quote mark.
---
 hcl/json/ast.go       | 9 +++++++++
 hcl/json/structure.go | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/hcl/json/ast.go b/hcl/json/ast.go
index 753bfa0..28d4331 100644
--- a/hcl/json/ast.go
+++ b/hcl/json/ast.go
@@ -93,6 +93,15 @@ func (n *stringVal) StartRange() hcl.Range {
 	return n.SrcRange
 }
 
+// innerStart is the position just after the opening quote mark.
+func (n *stringVal) innerStart() hcl.Pos {
+	return hcl.Pos{
+		Line:   n.SrcRange.Start.Line,
+		Column: n.SrcRange.Start.Column + 1,
+		Byte:   n.SrcRange.Start.Byte + 1,
+	}
+}
+
 type nullVal struct {
 	SrcRange hcl.Range
 }
diff --git a/hcl/json/structure.go b/hcl/json/structure.go
index 74847c7..f10459d 100644
--- a/hcl/json/structure.go
+++ b/hcl/json/structure.go
@@ -569,7 +569,7 @@ func (e *expression) AsTraversal() hcl.Traversal {
 
 	switch v := e.src.(type) {
 	case *stringVal:
-		traversal, diags := hclsyntax.ParseTraversalAbs([]byte(v.Value), v.SrcRange.Filename, v.SrcRange.Start)
+		traversal, diags := hclsyntax.ParseTraversalAbs([]byte(v.Value), v.SrcRange.Filename, v.innerStart())
 		if diags.HasErrors() {
 			return nil
 		}
@@ -586,7 +586,7 @@ func (e *expression) ExprCall() *hcl.StaticCall {
 
 	switch v := e.src.(type) {
 	case *stringVal:
-		expr, diags := hclsyntax.ParseExpression([]byte(v.Value), v.SrcRange.Filename, v.SrcRange.Start)
+		expr, diags := hclsyntax.ParseExpression([]byte(v.Value), v.SrcRange.Filename, v.innerStart())
 		if diags.HasErrors() {
 			return nil
 		}
-- 
2.43.0

