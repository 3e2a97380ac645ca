package main

import (
	"encoding/json"
	"reflect"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/pass"
	"github.com/mmcloughlin/ssarules/rules"
)

// bNode builds a tree node from its specification.
func bNode(c obj) ast.Node {
	switch str(c, "nk") {
	case "file":
		return bFile(list(c, "rs"))
	case "many":
		f := &ast.File{}
		for i := 0; i < num(c, "n"); i++ {
			f.Rules = append(f.Rules, bFile(list(c, "rs")).Rules...)
		}
		return f
	case "rule":
		return bRule(c["r"])
	case "sexpr":
		return bValue(c["v"])
	case "expr":
		return &ast.Expr{Expr: bGo(c["e"])}
	case "var":
		return ast.Variable(str(c, "n"))
	case "opcode":
		return ast.Opcode(str(c, "n"))
	case "parts":
		return bOp(c["op"])
	case "alt":
		return bPart(c["p"])
	case "nil":
		return nil
	}
	panic("harness: bad node kind " + str(c, "nk"))
}

// pointers collects the identities of all pointer nodes of a tree.
func pointers(n interface{}, into map[interface{}]bool) {
	switch x := n.(type) {
	case *ast.File:
		into[x] = true
		for _, r := range x.Rules {
			pointers(r, into)
		}
	case *ast.Rule:
		into[x] = true
		pointers(x.Match, into)
		if x.Condition != nil {
			into[x.Condition] = true
		}
		pointers(x.Result, into)
	case *ast.SExpr:
		into[x] = true
		if x.AuxInt != nil {
			into[x.AuxInt] = true
		}
		if x.Aux != nil {
			into[x.Aux] = true
		}
		for _, a := range x.Args {
			pointers(a, into)
		}
	case *ast.Expr:
		into[x] = true
	}
}

type recorder struct {
	own   map[interface{}]bool
	pos   map[string]int
	tab   []interface{}
	ev    []obj
	sched []int
	used  int // visitors handed out
}

func newRecorder(n ast.Node, c obj) *recorder {
	r := &recorder{own: map[interface{}]bool{}, pos: map[string]int{}, used: 1, tab: []interface{}{}, ev: []obj{}}
	pointers(n, r.own)
	for _, d := range list(c, "sched") {
		r.sched = append(r.sched, int(d.(float64)))
	}
	return r
}

// visit records a call for n and returns the scheduled decision.
func (r *recorder) visit(w int, n ast.Node) (decision int) {
	if len(r.ev) > 20000 {
		panic("harness: endless traversal")
	}
	p := pNode(n)
	b, err := json.Marshal(p)
	if err != nil {
		fatal(err)
	}
	i, ok := r.pos[string(b)]
	if !ok {
		r.tab = append(r.tab, p)
		i = len(r.tab)
		r.pos[string(b)] = i
	}
	own := true
	if n == nil {
		own = false
	} else if reflect.TypeOf(n).Kind() == reflect.Ptr {
		own = r.own[n]
	}
	d := 1
	if k := len(r.ev); k < len(r.sched) {
		d = r.sched[k]
	}
	r.ev = append(r.ev, obj{"w": w, "n": i, "ret": 0, "own": own})
	return d
}

func (r *recorder) ret(v int) { r.ev[len(r.ev)-1]["ret"] = v }

type visitor struct {
	r  *recorder
	id int
}

func (v *visitor) Visit(n ast.Node) ast.Visitor {
	switch v.r.visit(v.id, n) {
	case 0:
		return nil
	case 1:
		v.r.ret(v.id)
		return v
	default:
		v.r.used++
		v.r.ret(v.r.used)
		return &visitor{r: v.r, id: v.r.used}
	}
}

func init() {
	// A traversal.  sched holds one decision per call of the visitor or
	// predicate: 0 nil/false, 1 the same visitor/true, 2 a fresh visitor.
	handlers["walk"] = func(c obj) obj {
		root := bNode(c["root"].(obj))
		before, _ := json.Marshal(pNode(root))
		r := newRecorder(root, c)
		o := obj{"res": false}
		switch str(c, "api") {
		case "walk":
			ast.Walk(&visitor{r: r, id: 1}, root)
		case "inspect":
			ast.Inspect(root, func(n ast.Node) bool {
				d := r.visit(1, n)
				if d == 0 {
					return false
				}
				r.ret(1)
				return true
			})
		case "contains":
			o["res"] = ast.Contains(root, func(n ast.Node) bool {
				if r.visit(1, n) == 0 {
					return false
				}
				r.ret(1)
				return true
			})
		}
		after, _ := json.Marshal(pNode(root))
		o["ev"], o["tab"], o["same"] = r.ev, r.tab, string(before) == string(after)
		return o
	}

	// The queries on one rule.
	handlers["pred"] = func(c obj) obj {
		r := bRule(c["r"])
		o := obj{
			"bind": rules.HasBinding(r), "t": rules.HasType(r), "ax": rules.HasAux(r), "ai": rules.HasAuxInt(r),
			"el": rules.HasEllipsis(r), "tr": rules.HasTrailing(r),
		}
		o["after"] = pRule(r)
		return o
	}

	// Expansion of a file.  With share, equal rules of the case are one rule
	// object; the rule list has spare capacity, as lists grown by append do.
	handlers["expand"] = func(c obj) obj {
		built := map[string]*ast.Rule{}
		f := &ast.File{}
		for _, v := range list(c, "rs") {
			b, _ := json.Marshal(v)
			r, ok := built[string(b)]
			if !ok || c["share"] != true {
				r = bRule(v)
				built[string(b)] = r
			}
			f.Rules = append(f.Rules, r)
		}
		old := f.Rules[:len(f.Rules):len(f.Rules)]
		list := f.Rules
		ptrs := append([]*ast.Rule{}, f.Rules...)
		t := &table{}
		o := obj{}
		err := pass.ExpandAlternates(f)
		o["ok"] = err == nil
		o["rs"] = t.refs(f.Rules)
		o["old"] = t.refs(ptrs)  // the rules that existed before, as they are now
		o["list"] = t.refs(list) // the list held before, as it is now
		identical := len(f.Rules) == len(ptrs)
		for i := range ptrs {
			identical = identical && i < len(f.Rules) && f.Rules[i] == ptrs[i] && old[i] == ptrs[i]
		}
		o["identical"] = identical
		err = pass.ExpandAlternates(f)
		o["ok2"] = err == nil
		o["rs2"] = t.refs(f.Rules)
		o["old2"] = t.refs(ptrs)
		o["tab"] = t.tab
		if t.tab == nil {
			o["tab"] = []int{}
		}
		return o
	}
}
