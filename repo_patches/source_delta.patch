From 3702a7a5827e4168789ddd874f4f293fdcf012ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 01/11] fix: accept comments at end of input and files without
 rules

A comment had to be terminated by a newline, so a file ending in a
comment was rejected, and skippable input was only allowed around a
rule, so files of nothing but blanks and comments were rejected too.
The generated parser is edited to match rules.peg (pigeon is not
available here); only its source positions are left as they were.
---
 parse/internal/parser/zparser.go | 176 +++++++------------------------
 parse/rules.peg                  |   6 +-
 2 files changed, 40 insertions(+), 142 deletions(-)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index 3e662e2..4f216f5 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -36,6 +36,42 @@ var g = &grammar{
 				expr: &seqExpr{
 					pos: position{line: 19, col: 9, offset: 152},
 					exprs: []interface{}{
+						&zeroOrMoreExpr{
+							pos: position{line: 191, col: 6, offset: 3525},
+							expr: &choiceExpr{
+								pos: position{line: 193, col: 10, offset: 3541},
+								alternatives: []interface{}{
+									&seqExpr{
+										pos: position{line: 197, col: 12, offset: 3594},
+										exprs: []interface{}{
+											&litMatcher{
+												pos:        position{line: 197, col: 12, offset: 3594},
+												val:        "//",
+												ignoreCase: false,
+												want:       "\"//\"",
+											},
+											&zeroOrMoreExpr{
+												pos: position{line: 197, col: 17, offset: 3599},
+												expr: &charClassMatcher{
+													pos:        position{line: 197, col: 17, offset: 3599},
+													val:        "[^\\n]",
+													chars:      []rune{'\n'},
+													ignoreCase: false,
+													inverted:   true,
+												},
+											},
+										},
+									},
+									&charClassMatcher{
+										pos:        position{line: 201, col: 15, offset: 3647},
+										val:        "[ \\t\\r\\n]",
+										chars:      []rune{' ', '\t', '\r', '\n'},
+										ignoreCase: false,
+										inverted:   false,
+									},
+								},
+							},
+						},
 						&labeledExpr{
 							pos:   position{line: 19, col: 9, offset: 152},
 							label: "rs",
@@ -44,48 +80,6 @@ var g = &grammar{
 								expr: &seqExpr{
 									pos: position{line: 19, col: 14, offset: 157},
 									exprs: []interface{}{
-										&zeroOrMoreExpr{
-											pos: position{line: 191, col: 6, offset: 3525},
-											expr: &choiceExpr{
-												pos: position{line: 193, col: 10, offset: 3541},
-												alternatives: []interface{}{
-													&seqExpr{
-														pos: position{line: 197, col: 12, offset: 3594},
-														exprs: []interface{}{
-															&litMatcher{
-																pos:        position{line: 197, col: 12, offset: 3594},
-																val:        "//",
-																ignoreCase: false,
-																want:       "\"//\"",
-															},
-															&zeroOrMoreExpr{
-																pos: position{line: 197, col: 17, offset: 3599},
-																expr: &charClassMatcher{
-																	pos:        position{line: 197, col: 17, offset: 3599},
-																	val:        "[^\\n]",
-																	chars:      []rune{'\n'},
-																	ignoreCase: false,
-																	inverted:   true,
-																},
-															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
-														},
-													},
-													&charClassMatcher{
-														pos:        position{line: 201, col: 15, offset: 3647},
-														val:        "[ \\t\\r\\n]",
-														chars:      []rune{' ', '\t', '\r', '\n'},
-														ignoreCase: false,
-														inverted:   false,
-													},
-												},
-											},
-										},
 										&ruleRefExpr{
 											pos:  position{line: 19, col: 16, offset: 159},
 											name: "Rule",
@@ -114,12 +108,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -195,12 +183,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -243,12 +225,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -313,12 +289,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -361,12 +331,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -446,12 +410,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -577,12 +535,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -735,12 +687,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -793,12 +739,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -853,12 +793,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -905,12 +839,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -1160,12 +1088,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -1211,12 +1133,6 @@ var g = &grammar{
 																inverted:   true,
 															},
 														},
-														&litMatcher{
-															pos:        position{line: 202, col: 8, offset: 3662},
-															val:        "\n",
-															ignoreCase: false,
-															want:       "\"\\n\"",
-														},
 													},
 												},
 												&charClassMatcher{
@@ -1259,12 +1175,6 @@ var g = &grammar{
 																inverted:   true,
 															},
 														},
-														&litMatcher{
-															pos:        position{line: 202, col: 8, offset: 3662},
-															val:        "\n",
-															ignoreCase: false,
-															want:       "\"\\n\"",
-														},
 													},
 												},
 												&charClassMatcher{
@@ -1305,12 +1215,6 @@ var g = &grammar{
 																inverted:   true,
 															},
 														},
-														&litMatcher{
-															pos:        position{line: 202, col: 8, offset: 3662},
-															val:        "\n",
-															ignoreCase: false,
-															want:       "\"\\n\"",
-														},
 													},
 												},
 												&charClassMatcher{
@@ -1350,12 +1254,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -1384,7 +1282,7 @@ var g = &grammar{
 func (c *current) onFile1(rs interface{}) (interface{}, error) {
 	f := &ast.File{}
 	for _, i := range rs.([]interface{}) {
-		r := i.([]interface{})[1].(*ast.Rule)
+		r := i.([]interface{})[0].(*ast.Rule)
 		f.Rules = append(f.Rules, r)
 	}
 	return f, nil
diff --git a/parse/rules.peg b/parse/rules.peg
index 8d8201f..e4ca079 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -16,10 +16,10 @@ type (
 
 // File
 
-File <- rs:( _ Rule _ )* EOF {
+File <- _ rs:( Rule _ )* EOF {
     f := &ast.File{}
     for _, i := range rs.([]interface{}) {
-        r := i.([]interface{})[1].(*ast.Rule)
+        r := i.([]interface{})[0].(*ast.Rule)
         f.Rules = append(f.Rules, r)
     }
     return f, nil
@@ -194,7 +194,7 @@ Skip <- (Comment / Whitespace / EOL)
 
 // Comments
 
-Comment <- "//" [^\n]* EOL
+Comment <- "//" [^\n]*
 
 // Character classes
 
-- 
2.43.0


From 98704f703889d562fff9aa589d16911ab744506d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 02/11] fix: end a rule's block at line breaks and comments

Block stopped at blanks, tabs and carriage returns only, so a block
followed by a newline swallowed the start of the result.
---
 parse/internal/parser/zparser.go | 38 +++++++++++++++++++++++++++-----
 parse/rules.peg                  |  2 +-
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index 4f216f5..8b14558 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -367,12 +367,38 @@ var g = &grammar{
 													exprs: []interface{}{
 														&notExpr{
 															pos: position{line: 184, col: 16, offset: 3443},
-															expr: &charClassMatcher{
-																pos:        position{line: 201, col: 15, offset: 3647},
-																val:        "[ \\t\\r]",
-																chars:      []rune{' ', '\t', '\r'},
-																ignoreCase: false,
-																inverted:   false,
+															expr: &choiceExpr{
+																pos: position{line: 193, col: 10, offset: 3541},
+																alternatives: []interface{}{
+																	&seqExpr{
+																		pos: position{line: 197, col: 12, offset: 3594},
+																		exprs: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 197, col: 12, offset: 3594},
+																				val:        "//",
+																				ignoreCase: false,
+																				want:       "\"//\"",
+																			},
+																			&zeroOrMoreExpr{
+																				pos: position{line: 197, col: 17, offset: 3599},
+																				expr: &charClassMatcher{
+																					pos:        position{line: 197, col: 17, offset: 3599},
+																					val:        "[^\\n]",
+																					chars:      []rune{'\n'},
+																					ignoreCase: false,
+																					inverted:   true,
+																				},
+																			},
+																		},
+																	},
+																	&charClassMatcher{
+																		pos:        position{line: 201, col: 15, offset: 3647},
+																		val:        "[ \\t\\r\\n]",
+																		chars:      []rune{' ', '\t', '\r', '\n'},
+																		ignoreCase: false,
+																		inverted:   false,
+																	},
+																},
 															},
 														},
 														&anyMatcher{
diff --git a/parse/rules.peg b/parse/rules.peg
index e4ca079..c289053 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -181,7 +181,7 @@ Condition <- ( . !"=>" )+ {
 
 // Block
 
-Block <- '@' ( !Whitespace .)+ {
+Block <- '@' ( !Skip .)+ {
     return string(c.text[1:]), nil
 }
 
-- 
2.43.0


From 95600b8afdbe20c4b3706b5a5efa8c3946ef962d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 03/11] fix: accept line breaks and comments within calls

The grammar allows them, but the call's text was handed to the Go
parser as is, which inserts semicolons at line breaks.
---
 parse/internal/parser/zparser.go | 8 +++++++-
 parse/rules.peg                  | 7 ++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index 8b14558..bc62824 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -10,6 +10,7 @@ import (
 	"io/ioutil"
 	"math"
 	"os"
+	"regexp"
 	"sort"
 	"strconv"
 	"strings"
@@ -25,6 +26,8 @@ type (
 	valueaux    ast.Expr
 )
 
+var commentregex = regexp.MustCompile(`//[^\n]*`)
+
 var g = &grammar{
 	rules: []*rule{
 		{
@@ -1555,7 +1558,10 @@ func (p *parser) callonExpr8() (interface{}, error) {
 }
 
 func (c *current) onCall1() (interface{}, error) {
-	expr, err := goexpr.Parse(string(c.text))
+	x := commentregex.ReplaceAllString(string(c.text), "")
+	x = strings.ReplaceAll(x, "\n", " ")
+
+	expr, err := goexpr.Parse(x)
 	if err != nil {
 		return nil, err
 	}
diff --git a/parse/rules.peg b/parse/rules.peg
index c289053..676fa84 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -12,6 +12,8 @@ type (
     valueaux ast.Expr
 )
 
+var commentregex = regexp.MustCompile(`//[^\n]*`)
+
 }
 
 // File
@@ -147,7 +149,10 @@ Aux <- '{' [^}]+ '}' {
 Expr <- Call / Variable / Placeholder
 
 Call <- Ident '(' _ Expr ( _ ',' _ Expr _ )* _ ')' {
-    expr, err := goexpr.Parse(string(c.text))
+    x := commentregex.ReplaceAllString(string(c.text), "")
+    x = strings.ReplaceAll(x, "\n", " ")
+
+    expr, err := goexpr.Parse(x)
     if err != nil {
         return nil, err
     }
-- 
2.43.0


From 41bbf266c993e21adc437bca18e257e80bf7d73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 04/11] fix: reject repeated type, auxint and aux operands

All but the last one were dropped silently.
---
 parse/internal/parser/zparser.go | 9 +++++++++
 parse/rules.peg                  | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index bc62824..f6ee5ef 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -1465,10 +1465,19 @@ func (c *current) onSExpr1(binding, op, operands, ellipsis, trailing interface{}
 	for _, is := range operands.([]interface{}) {
 		switch operand := is.([]interface{})[1].(type) {
 		case ast.Type:
+			if s.Type != "" {
+				return nil, errors.New("multiple types")
+			}
 			s.Type = operand
 		case *valueauxint:
+			if s.AuxInt != nil {
+				return nil, errors.New("multiple auxint values")
+			}
 			s.AuxInt = (*ast.Expr)(operand)
 		case *valueaux:
+			if s.Aux != nil {
+				return nil, errors.New("multiple aux values")
+			}
 			s.Aux = (*ast.Expr)(operand)
 		case ast.Value:
 			s.Args = append(s.Args, operand)
diff --git a/parse/rules.peg b/parse/rules.peg
index 676fa84..05ae8f5 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -60,10 +60,19 @@ SExpr <- binding:( Variable ':' )? '(' _ op:Op operands:( __ Operand )* ellipsis
     for _, is := range operands.([]interface{}) {
         switch operand := is.([]interface{})[1].(type) {
         case ast.Type:
+            if s.Type != "" {
+                return nil, errors.New("multiple types")
+            }
             s.Type = operand
         case *valueauxint:
+            if s.AuxInt != nil {
+                return nil, errors.New("multiple auxint values")
+            }
             s.AuxInt = (*ast.Expr)(operand)
         case *valueaux:
+            if s.Aux != nil {
+                return nil, errors.New("multiple aux values")
+            }
             s.Aux = (*ast.Expr)(operand)
         case ast.Value:
             s.Args = append(s.Args, operand)
-- 
2.43.0


From 9c61515ff1c5fcc8adcdc6a741f645d95fdfc338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 05/11] fix: keep the variadic marker of calls

f(x...) was parsed and printed as f(x).
---
 parse/internal/goexpr/parse.go | 5 ++++-
 printer/printer.go             | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/parse/internal/goexpr/parse.go b/parse/internal/goexpr/parse.go
index 15d43ff..209ca30 100644
--- a/parse/internal/goexpr/parse.go
+++ b/parse/internal/goexpr/parse.go
@@ -37,7 +37,10 @@ func clearpos(expr goast.Expr) error {
 			n.OpPos = gotoken.NoPos
 		case *goast.CallExpr:
 			n.Lparen = gotoken.NoPos
-			n.Ellipsis = gotoken.NoPos
+			if n.Ellipsis.IsValid() {
+				// The position is insignificant, but its presence is not.
+				n.Ellipsis = gotoken.Pos(1)
+			}
 			n.Rparen = gotoken.NoPos
 		case *goast.BinaryExpr:
 			n.OpPos = gotoken.NoPos
diff --git a/printer/printer.go b/printer/printer.go
index 5cdcc71..29765bd 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -210,6 +210,9 @@ func (p *printer) goexpr(expr goast.Expr) {
 			}
 			p.goexpr(arg)
 		}
+		if e.Ellipsis.IsValid() {
+			p.printf("...")
+		}
 		p.printf(")")
 	case *goast.StarExpr:
 		p.printf("*")
-- 
2.43.0


From 4528127a526c7c5f05b2024b0fda3a13aea507ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 06/11] fix: keep tokens apart when printing Go expressions

Operators printed next to each other were read back as different ones
(a - -b, a & ^b), as comments (a / *b), or as part of a number (1 .x).
---
 printer/printer.go | 46 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/printer/printer.go b/printer/printer.go
index 29765bd..121e686 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -192,10 +192,13 @@ func (p *printer) goexpr(expr goast.Expr) {
 		p.printf(")")
 	case *goast.UnaryExpr:
 		p.printf("%s", e.Op)
+		if merges(e.Op, e.X) {
+			p.printf(" ")
+		}
 		p.goexpr(e.X)
 	case *goast.BinaryExpr:
 		p.goexpr(e.X)
-		if e.Op.Precedence() < gotoken.ADD.Precedence() {
+		if e.Op.Precedence() < gotoken.ADD.Precedence() || merges(e.Op, e.Y) {
 			p.printf(" %s ", e.Op)
 		} else {
 			p.printf("%s", e.Op)
@@ -211,6 +214,9 @@ func (p *printer) goexpr(expr goast.Expr) {
 			p.goexpr(arg)
 		}
 		if e.Ellipsis.IsValid() {
+			if endsinliteral(e.Args[len(e.Args)-1]) {
+				p.printf(" ")
+			}
 			p.printf("...")
 		}
 		p.printf(")")
@@ -219,12 +225,50 @@ func (p *printer) goexpr(expr goast.Expr) {
 		p.goexpr(e.X)
 	case *goast.SelectorExpr:
 		p.goexpr(e.X)
+		if endsinliteral(e.X) {
+			p.printf(" ")
+		}
 		p.printf(".%s", e.Sel)
 	default:
 		p.seterror(errutil.UnexpectedType(expr))
 	}
 }
 
+// merges reports whether op directly followed by expr would be scanned as a
+// different operator, or as the start of a comment.
+func merges(op gotoken.Token, expr goast.Expr) bool {
+	switch e := expr.(type) {
+	case *goast.BinaryExpr:
+		return merges(op, e.X)
+	case *goast.StarExpr:
+		return op == gotoken.QUO // comment
+	case *goast.UnaryExpr:
+		switch op {
+		case gotoken.ADD, gotoken.SUB:
+			return e.Op == op // increment, decrement
+		case gotoken.AND:
+			return e.Op == gotoken.AND || e.Op == gotoken.XOR // logical and, bit clear
+		}
+	}
+	return false
+}
+
+// endsinliteral reports whether expr is printed with a literal at its end, so
+// that a dot directly following it could be scanned as part of a number.
+func endsinliteral(expr goast.Expr) bool {
+	switch e := expr.(type) {
+	case *goast.BasicLit:
+		return true
+	case *goast.UnaryExpr:
+		return endsinliteral(e.X)
+	case *goast.StarExpr:
+		return endsinliteral(e.X)
+	case *goast.BinaryExpr:
+		return endsinliteral(e.Y)
+	}
+	return false
+}
+
 func (p *printer) printf(format string, args ...interface{}) {
 	if p.err != nil {
 		return
-- 
2.43.0


From eb2ec9d84d3cc690eb6e3495a528bd35357ec16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 07/11] fix: walk conditions, auxint and aux values

Walk is documented to visit each of the children of a node, but left
out these.
---
 ast/walk.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ast/walk.go b/ast/walk.go
index 98ff516..7662047 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -24,10 +24,19 @@ func Walk(v Visitor, node Node) {
 
 	case *Rule:
 		Walk(v, n.Match)
+		if n.Condition != nil {
+			Walk(v, n.Condition)
+		}
 		Walk(v, n.Result)
 
 	case *SExpr:
 		Walk(v, n.Op)
+		if n.AuxInt != nil {
+			Walk(v, n.AuxInt)
+		}
+		if n.Aux != nil {
+			Walk(v, n.Aux)
+		}
 		for _, arg := range n.Args {
 			Walk(v, arg)
 		}
-- 
2.43.0


From 00f439e7052a27d2490fec1a9073e477d0e3ca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 08/11] fix: expand groups of one alternative

An opcode with a group of one alternative beside larger groups made
expansion panic, although the counts are compatible.
---
 pass/alt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pass/alt.go b/pass/alt.go
index 7100a47..ca07294 100644
--- a/pass/alt.go
+++ b/pass/alt.go
@@ -164,7 +164,7 @@ func expandopcodeparts(parts ast.OpcodeParts) ([]ast.Opcode, error) {
 			case ast.Opcode:
 				alts[i] += p
 			case ast.OpcodeAlt:
-				alts[i] += p[i]
+				alts[i] += p[idx(i, len(p))]
 			default:
 				return nil, errutil.UnexpectedType(part)
 			}
-- 
2.43.0


From 2acb4409796c1f623b898464224ff191cb4711c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 09/11] fix: generate an SMT constant per placeholder

All placeholders of a rule shared one constant, although they stand for
unrelated values, and its name _ is a reserved word in SMT-LIB.
---
 smt2/generate.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/smt2/generate.go b/smt2/generate.go
index 503f952..d0e3091 100644
--- a/smt2/generate.go
+++ b/smt2/generate.go
@@ -31,6 +31,8 @@ type generator struct {
 	ops  map[ast.Opcode]operation
 	vars map[ast.Variable]*value
 	err  error
+
+	placeholders int // number of placeholders declared
 }
 
 func (g *generator) generate(r *ast.Rule) error {
@@ -109,13 +111,22 @@ func (g *generator) variable(v ast.Variable, t gotypes.Type) (*value, error) {
 		return nil, fmt.Errorf("declare %s: %w", v, err)
 	}
 
-	g.printf("(declare-const %s %s)\n", v, s)
-	g.vars[v] = &value{
+	val := &value{
 		Expr: string(v),
 		Type: t,
 	}
 
-	return g.vars[v], nil
+	if v == ast.Placeholder {
+		// Placeholders stand for independent values.
+		val.Expr = fmt.Sprintf("$%d", g.placeholders)
+		g.placeholders++
+	} else {
+		g.vars[v] = val
+	}
+
+	g.printf("(declare-const %s %s)\n", val.Expr, s)
+
+	return val, nil
 }
 
 func typesort(t gotypes.Type) (string, error) {
-- 
2.43.0


From af57386077fcf351aa3d28397d2adf7b3fa8e7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 10/11] fix: do not declare SMT constants under reserved names

A variable called, say, not or true clashed with the symbol of that
name.
---
 smt2/generate.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/smt2/generate.go b/smt2/generate.go
index d0e3091..c2e5f47 100644
--- a/smt2/generate.go
+++ b/smt2/generate.go
@@ -116,6 +116,10 @@ func (g *generator) variable(v ast.Variable, t gotypes.Type) (*value, error) {
 		Type: t,
 	}
 
+	if reserved(val.Expr) {
+		val.Expr = "$" + val.Expr
+	}
+
 	if v == ast.Placeholder {
 		// Placeholders stand for independent values.
 		val.Expr = fmt.Sprintf("$%d", g.placeholders)
@@ -129,6 +133,19 @@ func (g *generator) variable(v ast.Variable, t gotypes.Type) (*value, error) {
 	return val, nil
 }
 
+// reserved reports whether the rule variable name cannot be declared in
+// SMT-LIB, being a reserved word, a command, or a symbol of the logic.
+func reserved(name string) bool {
+	switch name {
+	case "as", "exists", "forall", "let", "match", "par",
+		"assert", "echo", "exit", "pop", "push", "reset",
+		"and", "distinct", "false", "ite", "not", "or", "true", "xor",
+		"concat", "extract", "repeat", "zero_extend", "sign_extend", "rotate_left", "rotate_right":
+		return true
+	}
+	return strings.HasPrefix(name, "bv")
+}
+
 func typesort(t gotypes.Type) (string, error) {
 	b, ok := t.(*gotypes.Basic)
 	if !ok {
-- 
2.43.0


From 58cf3abd11202688ed8eaf19b00b0ddb60858bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:19 +0000
Subject: [PATCH 11/11] fix: take only Go's white space for white space around
 conditions

strings.TrimSpace also removes form feeds, no-break spaces and other
characters that are white space neither in rules nor in Go.
---
 parse/internal/parser/zparser.go | 1 -
 parse/rules.peg                  | 1 -
 2 files changed, 2 deletions(-)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index f6ee5ef..89dc311 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -1326,7 +1326,6 @@ func (p *parser) callonFile1() (interface{}, error) {
 func (c *current) onRule25() (interface{}, error) {
 	x := string(c.text)
 	x = strings.ReplaceAll(x, "\n", " ")
-	x = strings.TrimSpace(x)
 
 	cond, err := goexpr.Parse(x)
 	if err != nil {
diff --git a/parse/rules.peg b/parse/rules.peg
index 05ae8f5..096911c 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -183,7 +183,6 @@ Ident <- [a-z] [_a-zA-Z0-9]*
 Condition <- ( . !"=>" )+ {
     x := string(c.text)
     x = strings.ReplaceAll(x, "\n", " ")
-    x = strings.TrimSpace(x)
 
     cond, err := goexpr.Parse(x)
     if err != nil {
-- 
2.43.0

