package main

import (
	"reflect"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/parse/verifgrammar"
)

func init() {
	// Read a text by the grammar file, and parse it.
	handlers["grammar"] = func(c obj) obj {
		v, err := verifgrammar.Parse([]byte(source(c)))
		f, _ := v.(*ast.File)
		_, p := parseObs(source(c))
		return obj{"ok": err == nil, "nil": f == nil, "rs": pFile(f), "parser": p}
	}
}

func init() {
	// The same with a text of many parts.
	handlers["bulkgrammar"] = func(c obj) obj {
		v, err := verifgrammar.Parse([]byte(bulk(c)))
		f, _ := v.(*ast.File)
		f2, err2 := parse.String(bulk(c))
		o := obj{"ok": err == nil, "ok2": err2 == nil, "deep": (f == nil) == (f2 == nil)}
		if f != nil && f2 != nil {
			o["deep"] = alike(reflect.ValueOf(f.Rules), reflect.ValueOf(f2.Rules))
		}
		return o
	}
}
