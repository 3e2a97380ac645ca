package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	goast "go/ast"
	gotoken "go/token"
	"reflect"
	"sort"
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
	"github.com/mmcloughlin/ssarules/printer"
	"github.com/mmcloughlin/ssarules/rules"
	"github.com/mmcloughlin/ssarules/smt2"
)

// census counts the items of a tree: how many of each kind, how long their
// texts are together, and which the first and the last few are.
type census struct {
	n, size map[string]int
	first   [][]string
	last    [][]string
}

func newCensus() *census { return &census{n: map[string]int{}, size: map[string]int{}} }

const ends = 4

func (t *census) add(kind, text string) {
	t.n[kind]++
	t.size[kind] += len(text)
	if len(text) > 200 {
		text = text[:200]
	}
	it := []string{kind, text}
	if len(t.first) < ends {
		t.first = append(t.first, it)
	}
	if len(t.last) == ends {
		t.last = t.last[1:]
	}
	t.last = append(t.last, it)
}

func (t *census) into(o obj) {
	kinds := []obj{}
	var ks []string
	for k := range t.n {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		kinds = append(kinds, obj{"k": k, "n": t.n[k], "len": t.size[k]})
	}
	o["kinds"] = kinds
	o["first"] = append([][]string{}, t.first...)
	o["last"] = append([][]string{}, t.last...)
}

func (t *census) goexpr(e goast.Expr) {
	switch x := e.(type) {
	case *goast.Ident:
		t.add("id", x.Name)
	case *goast.BasicLit:
		t.add("lit", x.Value)
	case *goast.ParenExpr:
		t.add("par", "")
		t.goexpr(x.X)
	case *goast.StarExpr:
		t.add("star", "")
		t.goexpr(x.X)
	case *goast.UnaryExpr:
		t.add("un", x.Op.String())
		t.goexpr(x.X)
	case *goast.BinaryExpr:
		t.add("bin", x.Op.String())
		t.goexpr(x.X)
		t.goexpr(x.Y)
	case *goast.SelectorExpr:
		t.add("sel", x.Sel.Name)
		t.goexpr(x.X)
	case *goast.CallExpr:
		t.add("call", "")
		t.goexpr(x.Fun)
		for _, a := range x.Args {
			t.goexpr(a)
		}
		if x.Ellipsis != gotoken.NoPos {
			t.add("dots", "")
		}
		t.add("end", "")
	default:
		t.add("?", "")
	}
}

func (t *census) part(p ast.OpPart) {
	switch x := p.(type) {
	case ast.Opcode:
		t.add("op", string(x))
	case ast.OpcodeAlt:
		t.add("alt", "")
		for _, a := range x {
			t.add("choice", string(a))
		}
		t.add("end", "")
	default:
		t.add("?", "")
	}
}

func (t *census) value(v ast.Value) {
	switch x := v.(type) {
	case ast.Variable:
		t.add("var", string(x))
	case *ast.Expr:
		t.add("expr", "")
		t.goexpr(x.Expr)
	case *ast.SExpr:
		t.add("sexpr", string(x.Binding))
		switch op := x.Op.(type) {
		case ast.Opcode:
			t.add("op", string(op))
		case ast.OpcodeParts:
			t.add("parts", "")
			for _, p := range op {
				t.part(p)
			}
			t.add("end", "")
		default:
			t.add("?", "")
		}
		t.add("type", string(x.Type))
		if x.AuxInt != nil {
			t.add("ai", "")
			t.goexpr(x.AuxInt.Expr)
		}
		if x.Aux != nil {
			t.add("ax", "")
			t.goexpr(x.Aux.Expr)
		}
		for _, a := range x.Args {
			t.value(a)
		}
		if x.Ellipsis {
			t.add("el", "")
		}
		if x.Trailing {
			t.add("tr", "")
		}
		t.add("end", "")
	default:
		t.add("?", "")
	}
}

func (t *census) rule(r *ast.Rule) {
	t.add("rule", r.Block)
	t.value(r.Match)
	if r.Condition != nil {
		t.add("cond", "")
		t.goexpr(r.Condition.Expr)
	}
	t.add("=>", "")
	t.value(r.Result)
}

// node counts a visited node.
func (t *census) node(n ast.Node) string {
	k, s := "?", ""
	switch x := n.(type) {
	case nil:
		k = "nil"
	case *ast.File:
		k = "file"
	case *ast.Rule:
		k = "rule"
	case *ast.SExpr:
		k = "sexpr"
	case *ast.Expr:
		k = "expr"
	case ast.Variable:
		k, s = "var", string(x)
	case ast.Opcode:
		k, s = "opcode", string(x)
	case ast.OpcodeParts:
		k = "parts"
	case ast.OpcodeAlt:
		k = "alt"
	}
	t.add(k, s)
	return k
}

type counter struct {
	t    *census
	stop string
}

func (v *counter) Visit(n ast.Node) ast.Visitor {
	if v.t.node(n) == v.stop {
		return nil
	}
	return v
}

// messageLines are the lines of a message, or its first two.
func messageLines(err error) []string {
	if err == nil {
		return []string{}
	}
	ls := strings.Split(strings.ToValidUTF8(err.Error(), "?"), "\n")
	for i := range ls {
		if len(ls[i]) > 300 {
			ls[i] = ls[i][:300]
		}
	}
	if len(ls) > 40 {
		ls = ls[:40]
	}
	return ls
}

func init() {
	handlers["bulktree"] = func(c obj) obj {
		f, err := parse.String(bulk(c))
		o := obj{"ok": err == nil && f != nil}
		t := newCensus()
		if f != nil {
			for _, r := range f.Rules {
				t.rule(r)
			}
		}
		t.into(o)
		return o
	}

	handlers["bulklayout"] = func(c obj) obj {
		f, err := parse.String(bulk(c))
		f2, err2 := parse.String(parts(strs(c, "q"), num(c, "n")))
		o := obj{"ok": err == nil, "ok2": err2 == nil, "n": 0, "n2": 0, "deep": false}
		if f != nil && f2 != nil {
			o["n"], o["n2"] = len(f.Rules), len(f2.Rules)
			o["deep"] = alike(reflect.ValueOf(f.Rules), reflect.ValueOf(f2.Rules))
		}
		return o
	}

	handlers["bulkwalk"] = func(c obj) obj {
		f, err := parse.String(bulk(c))
		o := obj{"parsed": err == nil && f != nil, "res": false}
		t, stop := newCensus(), str(c, "stop")
		if f != nil {
			switch str(c, "api") {
			case "walk":
				ast.Walk(&counter{t, stop}, f)
			case "inspect":
				ast.Inspect(f, func(n ast.Node) bool { return t.node(n) != stop })
			case "contains":
				o["res"] = ast.Contains(f, func(n ast.Node) bool { return t.node(n) == stop })
			}
		}
		t.into(o)
		return o
	}

	handlers["bulkquery"] = func(c obj) obj {
		f, err := parse.String(bulk(c))
		has := make([]int, 6)
		if f != nil {
			for _, r := range f.Rules {
				for i, q := range []func(*ast.Rule) bool{rules.HasBinding, rules.HasType, rules.HasAux, rules.HasAuxInt, rules.HasEllipsis, rules.HasTrailing} {
					if q(r) {
						has[i]++
					}
				}
			}
		}
		return obj{"parsed": err == nil && f != nil, "has": has}
	}

	handlers["bulkdump"] = func(c obj) obj {
		f, err := parse.String(bulk(c))
		o := obj{"parsed": err == nil && f != nil, "ok": false, "lines": 0, "ink": 0}
		if f == nil {
			return o
		}
		var b bytes.Buffer
		o["ok"] = ast.Fprint(&b, f) == nil
		o["lines"] = bytes.Count(b.Bytes(), []byte("\n"))
		ink := 0
		for _, x := range b.Bytes() {
			if !(x >= '0' && x <= '9') && x != ' ' && x != '.' && x != '\n' {
				ink++
			}
		}
		o["ink"] = ink
		return o
	}

	handlers["bulklocate"] = func(c obj) obj {
		p, name := strs(c, "p"), str(c, "name")
		f, err := parse.Reader(name, strings.NewReader(bulk(c)))
		o := obj{"ok": err == nil, "nil": f == nil, "name": name, "lines": messageLines(err)}
		for k, n := range map[string]int{"l3": 3, "l4": 4} {
			_, err := parse.Reader(name, strings.NewReader(parts(p, n)))
			o[k] = messageLines(err)
		}
		return o
	}
}

// everything is what all the operations make of a text.
func everything(src string) string {
	var b strings.Builder
	f, err := parse.String(src)
	if err != nil {
		return "error " + err.Error()
	}
	p, err := printer.Bytes(f)
	fmt.Fprintln(&b, "print", string(p), err)
	for _, r := range f.Rules {
		fmt.Fprintln(&b, rules.HasBinding(r), rules.HasType(r), rules.HasAux(r), rules.HasAuxInt(r), rules.HasEllipsis(r), rules.HasTrailing(r))
		t := newCensus()
		ast.Walk(&counter{t, ""}, r)
		fmt.Fprintln(&b, t.n, t.first, t.last)
		s, err := smt2.Generate(r)
		fmt.Fprintln(&b, string(s), err)
	}
	var d bytes.Buffer
	err = ast.Fprint(&d, f)
	fmt.Fprintln(&b, "dump", d.String(), err)
	err = pass.ExpandAlternates(f)
	p, perr := printer.Bytes(f)
	fmt.Fprintln(&b, "expanded", string(p), err, perr)
	return b.String()
}

func init() {
	// Many different texts, some of them over and over.
	handlers["bulkhistory"] = func(c obj) obj {
		n, often := num(c, "n"), strs(c, "often")
		src := func(i int) string {
			return strings.ReplaceAll(str(c, "src"), "#", fmt.Sprintf("%06d", i))
		}
		seen := map[int][32]byte{}
		varied, first := 0, -1
		look := func(i int, s string) {
			h := sha256.Sum256([]byte(everything(s)))
			old, ok := seen[i]
			if !ok {
				seen[i] = h
			} else if old != h {
				if varied++; first < 0 {
					first = i
				}
			}
		}
		for round := 0; round < num(c, "rounds"); round++ {
			for j := 0; j < n; j++ {
				i := j
				if round%2 == 1 {
					i = n - 1 - j
				}
				look(i, src(i))
				if len(often) > 0 {
					k := j % len(often)
					look(-1-k, often[k])
				}
			}
		}
		return obj{"varied": varied, "first": first}
	}
}
