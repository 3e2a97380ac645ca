package main

import (
	"fmt"
	goast "go/ast"
	gotoken "go/token"
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
)

// Projection of the real trees to the specification's trees.

func pGo(e goast.Expr) obj {
	switch x := e.(type) {
	case *goast.Ident:
		return obj{"k": "id", "n": x.Name}
	case *goast.BasicLit:
		return obj{"k": "lit", "v": x.Value}
	case *goast.ParenExpr:
		return obj{"k": "par", "x": pGo(x.X)}
	case *goast.UnaryExpr:
		return obj{"k": "un", "op": x.Op.String(), "x": pGo(x.X)}
	case *goast.BinaryExpr:
		return obj{"k": "bin", "op": x.Op.String(), "x": pGo(x.X), "y": pGo(x.Y)}
	case *goast.StarExpr:
		return obj{"k": "star", "x": pGo(x.X)}
	case *goast.SelectorExpr:
		return obj{"k": "sel", "x": pGo(x.X), "n": x.Sel.Name}
	case *goast.CallExpr:
		as := []interface{}{}
		for _, a := range x.Args {
			as = append(as, pGo(a))
		}
		return obj{"k": "call", "f": pGo(x.Fun), "a": as, "v": x.Ellipsis != gotoken.NoPos}
	default:
		return obj{"k": "?", "t": fmt.Sprintf("%T", e)}
	}
}

func pOptGo(e *ast.Expr) []interface{} {
	if e == nil {
		return []interface{}{}
	}
	return []interface{}{pGo(e.Expr)}
}

func pPart(p ast.OpPart) obj {
	switch x := p.(type) {
	case ast.Opcode:
		return obj{"k": "o", "n": string(x)}
	case ast.OpcodeAlt:
		as := []interface{}{}
		for _, a := range x {
			as = append(as, string(a))
		}
		return obj{"k": "a", "alts": as}
	default:
		return obj{"k": "?", "t": fmt.Sprintf("%T", p)}
	}
}

func pOp(o ast.Op) obj {
	switch x := o.(type) {
	case ast.Opcode:
		return obj{"k": "o", "n": string(x)}
	case ast.OpcodeParts:
		ps := []interface{}{}
		for _, p := range x {
			ps = append(ps, pPart(p))
		}
		return obj{"k": "p", "ps": ps}
	default:
		return obj{"k": "?", "t": fmt.Sprintf("%T", o)}
	}
}

func pValue(v ast.Value) obj {
	switch x := v.(type) {
	case ast.Variable:
		return obj{"k": "v", "n": string(x)}
	case *ast.Expr:
		if x == nil {
			return obj{"k": "?", "t": "nil expr"}
		}
		return obj{"k": "e", "e": pGo(x.Expr)}
	case *ast.SExpr:
		if x == nil {
			return obj{"k": "?", "t": "nil sexpr"}
		}
		as := []interface{}{}
		for _, a := range x.Args {
			as = append(as, pValue(a))
		}
		return obj{"k": "s", "bind": string(x.Binding), "op": pOp(x.Op), "t": string(x.Type),
			"ai": pOptGo(x.AuxInt), "ax": pOptGo(x.Aux), "a": as, "el": x.Ellipsis, "tr": x.Trailing}
	default:
		return obj{"k": "?", "t": fmt.Sprintf("%T", v)}
	}
}

func pRule(r *ast.Rule) obj {
	if r == nil {
		return obj{"k": "?", "t": "nil rule"}
	}
	return obj{"m": pValue(r.Match), "c": pOptGo(r.Condition), "b": r.Block, "r": pValue(r.Result)}
}

func pRules(rs []*ast.Rule) []interface{} {
	out := []interface{}{}
	for _, r := range rs {
		out = append(out, pRule(r))
	}
	return out
}

func pFile(f *ast.File) []interface{} {
	if f == nil {
		return []interface{}{}
	}
	return pRules(f.Rules)
}

// pNode projects any tree node, tagged with its kind in the tree.
func pNode(n ast.Node) obj {
	switch x := n.(type) {
	case *ast.File:
		return obj{"nk": "file", "rs": pFile(x)}
	case *ast.Rule:
		return obj{"nk": "rule", "r": pRule(x)}
	case *ast.SExpr:
		return obj{"nk": "sexpr", "v": pValue(x)}
	case *ast.Expr:
		if x == nil {
			return obj{"nk": "?", "t": "nil expr"}
		}
		return obj{"nk": "expr", "e": pGo(x.Expr)}
	case ast.Variable:
		return obj{"nk": "var", "n": string(x)}
	case ast.Opcode:
		return obj{"nk": "opcode", "n": string(x)}
	case ast.OpcodeParts:
		return obj{"nk": "parts", "op": pOp(x)}
	case ast.OpcodeAlt:
		return obj{"nk": "alt", "p": pPart(x)}
	default:
		return obj{"nk": "?", "t": fmt.Sprintf("%T", n)}
	}
}

// Construction of real trees from the specification's trees.

var ops = func() map[string]gotoken.Token {
	m := map[string]gotoken.Token{}
	for t := gotoken.ADD; t <= gotoken.TILDE; t++ {
		if t.IsOperator() {
			m[t.String()] = t
		}
	}
	return m
}()

var litKinds = map[byte]gotoken.Token{'"': gotoken.STRING, '`': gotoken.STRING, '\'': gotoken.CHAR}

func bGo(v interface{}) goast.Expr {
	c := v.(obj)
	switch str(c, "k") {
	case "id":
		return &goast.Ident{Name: str(c, "n")}
	case "lit":
		s := str(c, "v")
		k, ok := litKinds[s[0]]
		hex := strings.HasPrefix(strings.ToLower(s), "0x")
		switch {
		case ok:
		case s[len(s)-1] == 'i':
			k = gotoken.IMAG
		case strings.ContainsAny(s, ".pP") || !hex && strings.ContainsAny(s, "eE"):
			k = gotoken.FLOAT
		default:
			k = gotoken.INT
		}
		return &goast.BasicLit{Kind: k, Value: s}
	case "par":
		return &goast.ParenExpr{X: bGo(c["x"])}
	case "un":
		return &goast.UnaryExpr{Op: ops[str(c, "op")], X: bGo(c["x"])}
	case "bin":
		return &goast.BinaryExpr{Op: ops[str(c, "op")], X: bGo(c["x"]), Y: bGo(c["y"])}
	case "star":
		return &goast.StarExpr{X: bGo(c["x"])}
	case "sel":
		return &goast.SelectorExpr{X: bGo(c["x"]), Sel: &goast.Ident{Name: str(c, "n")}}
	case "call":
		e := &goast.CallExpr{Fun: bGo(c["f"])}
		for _, a := range list(c, "a") {
			e.Args = append(e.Args, bGo(a))
		}
		if c["v"] == true {
			e.Ellipsis = gotoken.Pos(1)
		}
		return e
	case "unprintable": // a Go expression outside the rule language
		return &goast.IndexExpr{X: &goast.Ident{Name: "a"}, Index: &goast.Ident{Name: "b"}}
	case "nil":
		return nil
	}
	panic("harness: bad Go tree " + str(c, "k"))
}

func bOptGo(l []interface{}) *ast.Expr {
	if len(l) == 0 {
		return nil
	}
	return &ast.Expr{Expr: bGo(l[0])}
}

func bPart(v interface{}) ast.OpPart {
	c := v.(obj)
	switch str(c, "k") {
	case "o":
		return ast.Opcode(str(c, "n"))
	case "a":
		alt := ast.OpcodeAlt{}
		for _, a := range list(c, "alts") {
			alt = append(alt, ast.Opcode(a.(string)))
		}
		return alt
	case "nil":
		return nil
	}
	panic("harness: bad part " + str(c, "k"))
}

func bOp(v interface{}) ast.Op {
	c := v.(obj)
	switch str(c, "k") {
	case "o":
		return ast.Opcode(str(c, "n"))
	case "p":
		parts := ast.OpcodeParts{}
		for _, p := range list(c, "ps") {
			parts = append(parts, bPart(p))
		}
		return parts
	case "nil":
		return nil
	}
	panic("harness: bad op " + str(c, "k"))
}

func bValue(v interface{}) ast.Value {
	c := v.(obj)
	switch str(c, "k") {
	case "v":
		return ast.Variable(str(c, "n"))
	case "e":
		return &ast.Expr{Expr: bGo(c["e"])}
	case "s":
		s := &ast.SExpr{
			Binding:  ast.Variable(str(c, "bind")),
			Op:       bOp(c["op"]),
			Type:     ast.Type(str(c, "t")),
			AuxInt:   bOptGo(list(c, "ai")),
			Aux:      bOptGo(list(c, "ax")),
			Ellipsis: c["el"] == true,
			Trailing: c["tr"] == true,
		}
		for _, a := range list(c, "a") {
			s.Args = append(s.Args, bValue(a))
		}
		return s
	case "nil":
		return nil
	}
	panic("harness: bad value " + str(c, "k"))
}

func bRule(v interface{}) *ast.Rule {
	c := v.(obj)
	return &ast.Rule{Match: bValue(c["m"]), Condition: bOptGo(list(c, "c")), Block: str(c, "b"), Result: bValue(c["r"])}
}

func bFile(l []interface{}) *ast.File {
	f := &ast.File{}
	for _, r := range l {
		f.Rules = append(f.Rules, bRule(r))
	}
	return f
}
