package main

import (
	"encoding/base64"
	"encoding/json"
	goast "go/ast"
	goparser "go/parser"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
	"github.com/mmcloughlin/ssarules/printer"
)

// source of a text case: "src", or "b64" for texts that are not UTF-8.
func source(c obj) string {
	if s, ok := c["b64"].(string); ok {
		b, err := base64.StdEncoding.DecodeString(s)
		if err != nil {
			panic("harness: " + err.Error())
		}
		return string(b)
	}
	return str(c, "src")
}

// table shares equal rules of one observation: rules are recorded once and
// referred to by their (one-based) position.
type table struct {
	pos map[string]int
	tab []interface{}
}

func (t *table) ref(r *ast.Rule) int {
	o := pRule(r)
	b, err := json.Marshal(o)
	if err != nil {
		fatal(err)
	}
	if t.pos == nil {
		t.pos = map[string]int{}
	}
	i, ok := t.pos[string(b)]
	if !ok {
		t.tab = append(t.tab, o)
		i = len(t.tab)
		t.pos[string(b)] = i
	}
	return i
}

func (t *table) refs(rs []*ast.Rule) []int {
	out := []int{}
	for _, r := range rs {
		out = append(out, t.ref(r))
	}
	return out
}

func parseObs(src string) (*ast.File, obj) {
	f, err := parse.String(src)
	return f, obj{"ok": err == nil, "nil": f == nil, "rs": pFile(f)}
}

// printObs prints n and reads the text back.
func printObs(t *table, n ast.Node, want []*ast.Rule) obj {
	b, err := printer.Bytes(n)
	o := obj{"pok": err == nil, "pr": string(b), "ok2": false, "rs2": []int{}, "deep": false, "pok2": false, "pr2": ""}
	if err != nil {
		return o
	}
	f2, err := parse.String(string(b))
	if err != nil {
		return o
	}
	o["ok2"] = true
	o["rs2"] = t.refs(f2.Rules)
	o["deep"] = alike(reflect.ValueOf(f2.Rules), reflect.ValueOf(want))
	var m ast.Node = f2
	if _, rule := n.(*ast.Rule); rule && len(f2.Rules) == 1 {
		m = f2.Rules[0]
	}
	b2, err := printer.Bytes(m)
	o["pok2"] = err == nil
	o["pr2"] = string(b2)
	return o
}

// alike is deep equality, except that an empty list is as good as none.
func alike(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !alike(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Interface, reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return alike(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !alike(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int:
		return a.Int() == b.Int()
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func init() {
	// Parse a text.
	handlers["parse"] = func(c obj) obj {
		_, o := parseObs(source(c))
		return o
	}

	// Parse a text, recording only the number of rules.
	handlers["accept"] = func(c obj) obj {
		f, err := parse.String(source(c))
		o := obj{"ok": err == nil, "nil": f == nil, "rs": []int{}}
		if f != nil {
			o["rs"] = make([]int, len(f.Rules))
		}
		return o
	}

	// Parse a text, recording what the failure says.
	handlers["locate"] = func(c obj) obj {
		src, name := source(c), str(c, "name")
		var f *ast.File
		var err error
		switch str(c, "api") {
		case "string":
			name = "string"
			f, err = parse.String(src)
		case "reader":
			f, err = parse.Reader(name, strings.NewReader(src))
		case "file":
			dir, derr := os.MkdirTemp(os.Getenv("VERIF_TMP"), "locate")
			must(derr)
			defer os.RemoveAll(dir)
			name = filepath.Join(dir, name)
			must(os.WriteFile(name, []byte(src), 0o600))
			f, err = parse.File(name)
		default:
			panic("harness: bad api")
		}
		o := obj{"ok": err == nil, "nil": f == nil, "name": name, "lines": []string{}}
		if err != nil {
			o["lines"] = strings.Split(strings.ToValidUTF8(err.Error(), "?"), "\n")
		}
		return o
	}

	// Parse a text and another one meant to denote the same rules.
	handlers["layout"] = func(c obj) obj {
		f, o := parseObs(str(c, "src"))
		fb, b := parseObs(str(c, "base"))
		o["deep"] = f != nil && fb != nil && alike(reflect.ValueOf(f.Rules), reflect.ValueOf(fb.Rules))
		o["base"] = b
		return o
	}

	// Parse, print, parse again, print again: file, single rules, expansion.
	handlers["round"] = func(c obj) obj {
		f, err := parse.String(source(c))
		o := obj{"ok": err == nil, "nil": f == nil, "rs": []int{}, "tab": []int{}}
		if f == nil {
			return o
		}
		t := &table{}
		o["rs"] = t.refs(f.Rules)
		o["f"] = printObs(t, f, f.Rules)
		per := []interface{}{}
		for _, r := range f.Rules {
			per = append(per, printObs(t, r, []*ast.Rule{r}))
		}
		o["per"] = per
		x := obj{"xok": false, "rs": []int{}, "f": obj{}}
		if f3, err := parse.String(source(c)); err == nil && pass.ExpandAlternates(f3) == nil {
			x["xok"] = true
			x["rs"] = t.refs(f3.Rules)
			x["f"] = printObs(t, f3, f3.Rules)
		}
		o["x"] = x
		o["tab"] = t.tab
		if t.tab == nil {
			o["tab"] = []int{}
		}
		return o
	}

	// A Go expression in one of the slots of a rule.
	handlers["expr"] = func(c obj) obj {
		f, err := parse.String(str(c, "src"))
		o := obj{"ok": err == nil, "n": 0, "e": obj{"k": "none"}, "pok": false, "pr": "", "gok": false, "ge": obj{"k": "none"}}
		if err != nil {
			return o
		}
		o["n"] = len(f.Rules)
		o["rs"] = pFile(f)
		if len(f.Rules) != 1 {
			return o
		}
		var e *ast.Expr
		switch str(c, "slot") {
		case "cond":
			e = f.Rules[0].Condition
		case "ai":
			e = f.Rules[0].Match.(*ast.SExpr).AuxInt
		case "ax":
			e = f.Rules[0].Match.(*ast.SExpr).Aux
		case "arg":
			e, _ = f.Rules[0].Match.(*ast.SExpr).Args[0].(*ast.Expr)
		case "res":
			e, _ = f.Rules[0].Result.(*ast.Expr)
		}
		if e == nil {
			return o
		}
		for k, v := range gotreeObs(e.Expr) {
			o[k] = v
		}
		o["e"] = pGo(e.Expr)
		b, _ := printer.Bytes(f)
		o["fpr"] = string(b)
		return o
	}

	// A Go expression tree built by hand.
	handlers["gotree"] = func(c obj) obj { return gotreeObs(bGo(c["e"])) }

	// A rule file built by hand.
	handlers["tree"] = func(c obj) obj {
		f := bFile(list(c, "rs"))
		t := &table{}
		o := obj{"f": printObs(t, f, f.Rules)}
		per := []interface{}{}
		for _, r := range f.Rules {
			per = append(per, printObs(t, r, []*ast.Rule{r}))
		}
		o["per"] = per
		return o
	}
}

func gotreeObs(e goast.Expr) obj {
	o := obj{"pok": false, "pr": "", "gok": false, "ge": obj{"k": "none"}}
	b, err := printer.Bytes(&ast.Expr{Expr: e})
	if err != nil {
		return o
	}
	o["pok"], o["pr"] = true, string(b)
	if g, err := goparser.ParseExpr(string(b)); err == nil {
		o["gok"], o["ge"] = true, pGo(g)
	}
	return o
}
