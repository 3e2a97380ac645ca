// Command verifharness replays cases into the real code and records what it
// does.  It is compiled inside the repository's module through an overlay and
// uses exported API only.  It never decides anything: every observation is
// written out and judged by the TLA+ specification.
//
//	verifharness < cases.ndjson > trace.ndjson
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"strconv"
	"time"
)

type obj = map[string]interface{}

var handlers = map[string]func(obj) obj{}

// guard runs f, turning panics and hangs into observations.
func guard(limit time.Duration, f func() obj) obj {
	ch := make(chan obj, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				ch <- obj{"panic": fmt.Sprint(r)}
			}
		}()
		ch <- f()
	}()
	end := time.After(limit)
	look := time.NewTicker(50 * time.Millisecond)
	defer look.Stop()
	for {
		select {
		case o := <-ch:
			return o
		case <-look.C:
			if resident() > 3<<30 {
				return obj{"hang": true, "memory": true}
			}
		case <-end:
			return obj{"hang": true}
		}
	}
}

// resident is how much memory the process has, in bytes.
func resident() int {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var size, pages int
	fmt.Sscan(string(b), &size, &pages)
	return pages * os.Getpagesize()
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	flushEach := os.Getenv("VERIF_FLUSH") != ""
	limit := 20 * time.Second
	hangs := 0
	if s := os.Getenv("VERIF_CASE_LIMIT"); s != "" {
		n, err := strconv.Atoi(s)
		if err != nil {
			fatal(err)
		}
		limit = time.Duration(n) * time.Second
	}
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 0 {
			var c obj
			if jerr := json.Unmarshal(line, &c); jerr != nil {
				fatal(jerr)
			}
			t, _ := c["t"].(string)
			h, ok := handlers[t]
			if !ok {
				fatal(fmt.Errorf("unknown case type %q", t))
			}
			c["o"] = obj{"panic": "", "hang": false}
			for k, v := range guard(limit, func() obj { return h(c) }) {
				c["o"].(obj)[k] = v
			}
			delete(c, "b64")
			b, merr := json.Marshal(c)
			if merr != nil {
				fatal(merr)
			}
			out.Write(b)
			out.WriteByte('\n')
			if flushEach {
				out.Flush()
			}
			if c["o"].(obj)["hang"] == true {
				// Cases do not hang; a few that do are enough.
				if hangs++; hangs == 2 || c["o"].(obj)["memory"] == true {
					out.Flush()
					os.Exit(4)
				}
			}
		}
		if err == io.EOF {
			break
		}
		if err != nil {
			fatal(err)
		}
	}
	if err := out.Flush(); err != nil {
		fatal(err)
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "verifharness:", err)
	os.Exit(3)
}

func str(c obj, k string) string {
	s, _ := c[k].(string)
	return s
}

func num(c obj, k string) int {
	f, _ := c[k].(float64)
	return int(f)
}

func list(c obj, k string) []interface{} {
	l, _ := c[k].([]interface{})
	return l
}
