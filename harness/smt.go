package main

import (
	"github.com/mmcloughlin/ssarules/smt2"
)

func init() {
	// Generate a script for a rule.
	handlers["smt"] = func(c obj) obj {
		b, err := smt2.Generate(bRule(c["r"]))
		o := obj{"ok": err == nil, "none": len(b) == 0, "huge": false, "out": string(b)}
		if len(b) > 10000 { // many times the rule
			o["huge"], o["out"] = true, ""
		}
		return o
	}
}
