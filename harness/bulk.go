package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
	"github.com/mmcloughlin/ssarules/printer"
	"github.com/mmcloughlin/ssarules/smt2"
)

func strs(c obj, k string) []string {
	var ss []string
	for _, x := range list(c, k) {
		s, _ := x.(string)
		ss = append(ss, s)
	}
	return ss
}

// times is n times s, numbered.
func times(s string, n int) string {
	if !strings.Contains(s, "#") {
		return strings.Repeat(s, n)
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(strings.ReplaceAll(s, "#", fmt.Sprintf("%06d", i)))
	}
	return b.String()
}

func parts(p []string, n int) string {
	return p[0] + times(p[1], n) + p[2] + times(p[3], n) + p[4]
}

// bulk is a text of n equal parts, and as many after them.
func bulk(c obj) string {
	return parts(strs(c, "p"), num(c, "n"))
}

// size records how many rules a file has, how long its text is, and whether
// it is that of another recipe.
func size(c, o obj, f *ast.File) []byte {
	b, err := printer.Bytes(f)
	o["n"], o["pok"], o["plen"] = len(f.Rules), err == nil, len(b)
	if w := strs(c, "w"); len(w) > 0 {
		o["same"] = string(b) == parts(w, num(c, "n"))
	}
	return b
}

func init() {
	// Parse a text of repeated parts, print it, and read that back.
	handlers["bulk"] = func(c obj) obj {
		f, err := parse.String(bulk(c))
		o := obj{"ok": err == nil, "nil": f == nil, "n": 0, "pok": false, "plen": 0, "same": true, "ok2": false, "deep": false}
		if f == nil {
			return o
		}
		f2, err := parse.String(string(size(c, o, f)))
		o["ok2"] = err == nil
		o["deep"] = f2 != nil && alike(reflect.ValueOf(f2.Rules), reflect.ValueOf(f.Rules))
		return o
	}

	// Expand the rules of such a text.
	handlers["bulkexpand"] = func(c obj) obj {
		f, err := parse.String(bulk(c))
		o := obj{"parsed": err == nil, "ok": false, "n": 0, "pok": false, "plen": 0, "same": true}
		if f == nil {
			return o
		}
		o["ok"] = pass.ExpandAlternates(f) == nil
		size(c, o, f)
		return o
	}

	// Generate scripts for the rules of such a text.
	handlers["bulksmt"] = func(c obj) obj {
		f, err := parse.String(bulk(c))
		o := obj{"parsed": err == nil, "made": []bool{}}
		if f == nil {
			return o
		}
		made := []bool{}
		for _, r := range f.Rules {
			_, err := smt2.Generate(r)
			made = append(made, err == nil)
		}
		o["made"] = made
		return o
	}
}
