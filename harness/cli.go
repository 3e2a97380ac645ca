package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
	"github.com/mmcloughlin/ssarules/smt2"
)

// strtab shares equal strings of one observation.
type strtab struct {
	pos map[string]int
	tab []string
}

func (t *strtab) ref(s string) int {
	if t.pos == nil {
		t.pos = map[string]int{}
		t.tab = []string{}
	}
	i, ok := t.pos[s]
	if !ok {
		t.tab = append(t.tab, s)
		i = len(t.tab)
		t.pos[s] = i
	}
	return i
}

func must(err error) {
	if err != nil {
		fatal(err)
	}
}

// listFiles lists all files below dir, except the inputs, given with their
// contents, that are as they were.  Names are relative to out.  Only regular
// files are listed.
func listFiles(dir, out string, inputs map[string]string, t *strtab) []interface{} {
	fs := []interface{}{}
	seen := 0
	must(filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			c, ok := inputs[p]
			if ok {
				seen++
			}
			if ok && c == string(b) {
				return nil
			}
			rel, err := filepath.Rel(out, p)
			if err != nil {
				return err
			}
			fs = append(fs, obj{"n": rel, "c": t.ref(strings.ToValidUTF8(string(b), "?"))})
		}
		return nil
	}))
	if seen != len(inputs) {
		fs = append(fs, obj{"n": "(an input is gone)", "c": t.ref("")})
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].(obj)["n"].(string) < fs[j].(obj)["n"].(string) })
	return fs
}

// renamed is a text of the same size that means the same to the command but
// for the names of variables.
func renamed(s string) string {
	b := []byte(s)
	for i, c := range b {
		switch c {
		case 'y':
			b[i] = 'z'
		case 'z':
			b[i] = 'y'
		}
	}
	return string(b)
}

// library lists every rule the texts stand for, one at a time, with the
// script the library makes of it.
func library(ins []interface{}, t *strtab) []interface{} {
	seen := map[string]bool{}
	out := []interface{}{}
	for _, v := range ins {
		in := v.(obj)
		if str(in, "k") != "text" {
			continue
		}
		f, err := parse.String(str(in, "src"))
		if err != nil {
			continue
		}
		for _, r := range f.Rules {
			g := &ast.File{Rules: []*ast.Rule{r}}
			if pass.ExpandAlternates(g) != nil {
				continue
			}
			for _, x := range g.Rules {
				p := pRule(x)
				b, err := json.Marshal(p)
				must(err)
				if seen[string(b)] {
					continue
				}
				seen[string(b)] = true
				if s, err := smt2.Generate(x); err == nil {
					out = append(out, obj{"r": p, "c": t.ref(string(s))})
				}
			}
		}
	}
	return out
}

func init() {
	// A run of the command.  ins, dir and pre are the configuration; how
	// selects the way directories are named.
	handlers["cli"] = func(c obj) obj {
		cmd := os.Getenv("VERIF_CMD")
		dir, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "cli-")
		must(err)
		defer os.RemoveAll(dir)
		how := str(c, "how")
		outname := "out"
		if how == "odd" {
			outname = "o u.t/%d"
		}
		out := filepath.Join(dir, outname)
		if how == "same" && c["dir"] != true {
			how = "rel"
		}
		must(os.MkdirAll(filepath.Join(dir, "in"), 0o755))
		exists := c["dir"] == true
		if exists {
			must(os.MkdirAll(out, 0o755))
		}
		if how == "cwd" && !exists {
			how = "rel"
		}
		for _, v := range list(c, "pre") {
			p := v.(obj)
			fn := filepath.Join(out, str(p, "n"))
			switch str(p, "k") {
			case "file":
				must(os.WriteFile(fn, []byte(str(p, "c")), 0o644))
			case "dir":
				must(os.Mkdir(fn, 0o755))
			case "full":
				must(os.Symlink("/dev/full", fn))
			case "dangling":
				must(os.Symlink(filepath.Join(dir, "nowhere", "x"), fn))
			default:
				panic("harness: bad file kind")
			}
		}
		cwd := dir
		indir := "in"
		var args []string
		switch how {
		case "rel":
			args = []string{"-outdir", outname}
		case "eq":
			args = []string{"-outdir=" + outname}
		case "slash":
			args = []string{"--outdir", "./" + outname + "/"}
		case "odd", "abs":
			args = []string{"-outdir", out}
			indir = filepath.Join(dir, "in")
		case "cwd":
			cwd = out
			indir = "../in"
		case "dashes":
			args = []string{"--outdir=" + outname, "--"}
		case "twice":
			must(os.Mkdir(filepath.Join(dir, "other"), 0o755))
			args = []string{"-outdir", "other", "-outdir", outname}
		case "names": // working where the inputs are
			cwd = filepath.Join(dir, "in")
			args = []string{"-outdir", "../" + outname, "--"}
			indir = ""
		case "link":
			must(os.Symlink(outname, filepath.Join(dir, "link")))
			args = []string{"-outdir", "link/../link"}
		case "same": // the inputs lie among the scripts
			args = []string{"-outdir", outname}
			indir = outname
		case "inlink", "stdin":
			args = []string{"-outdir", "in/../" + outname}
		default:
			panic("harness: bad how")
		}
		inputs := map[string]string{}
		var stdin string
		for i, v := range list(c, "ins") {
			in := v.(obj)
			base := fmt.Sprintf("f%d.rules", i)
			if how == "names" {
				base = []string{"-", "-outdir=x", ".hidden", "f %s %d.rules ", "\u00e9\u4e16:1:1 (2)", "@f", "*", "f.gz", "$HOME", "~"}[(i+num(c, "first"))%10]
				if i >= 10 {
					base += fmt.Sprint(i)
				}
			}
			if d := num(in, "dup"); d > 0 { // the very file given before
				base = filepath.Base(args[len(args)-i+d-1])
			}
			fn := filepath.Join(dir, "in", base)
			if how == "same" {
				fn = filepath.Join(out, base)
			}
			switch str(in, "k") {
			case "text", "bytes":
				if how == "inlink" && num(in, "dup") == 0 {
					to := fmt.Sprintf("%d", i)
					must(os.Symlink(to, fn))
					fn = filepath.Join(dir, "in", to)
				}
				must(os.WriteFile(fn, []byte(source(in)), 0o644))
				if num(in, "dup") == 0 {
					inputs[fn] = source(in)
				}
			case "dir":
				must(os.Mkdir(fn, 0o755))
			case "missing":
			default:
				panic("harness: bad input kind")
			}
			if how == "stdin" && i+1 == len(list(c, "ins")) && num(in, "dup") == 0 && inputs[fn] != "" {
				stdin = inputs[fn]
				args = append(args, "/dev/stdin")
			} else if indir == "" {
				args = append(args, base)
			} else {
				args = append(args, indir+"/"+base)
			}
		}

		names := append([]string{}, args[len(args)-len(list(c, "ins")):]...)
		t := &strtab{}
		if n := num(c, "fds"); n > 0 {
			args = append([]string{"-c", fmt.Sprintf(`ulimit -n %d; exec "$0" "$@"`, n), cmd}, args...)
			cmd = "/bin/sh"
		}
		if c["prior"] == true {
			// The command did its work on similar inputs before.
			for fn, src := range inputs {
				must(os.WriteFile(fn, []byte(renamed(src)), 0o644))
			}
			p := exec.Command(cmd, args...)
			p.Dir = cwd
			if stdin != "" {
				p.Stdin = strings.NewReader(renamed(stdin))
			}
			must(p.Start())
			timer := time.AfterFunc(15*time.Second, func() { p.Process.Kill() })
			p.Wait()
			timer.Stop()
			for fn, src := range inputs {
				must(os.WriteFile(fn, []byte(src), 0o644))
				must(os.Chtimes(fn, epoch, epoch))
			}
		}
		p := exec.Command(cmd, args...)
		p.Dir = cwd
		var stderr, stdout bytes.Buffer
		if stdin != "" {
			p.Stdin = strings.NewReader(stdin)
		}
		p.Stderr, p.Stdout = &stderr, &stdout
		must(p.Start())
		timer := time.AfterFunc(15*time.Second, func() { p.Process.Kill() })
		err = p.Wait()
		o := obj{}
		if !timer.Stop() {
			o["hang"] = true
		}
		if _, bad := err.(*exec.ExitError); err != nil && !bad {
			fatal(err)
		}
		msg := stderr.String() + stdout.String()
		if strings.Contains(msg, "\ngoroutine ") {
			o["panic"] = "panic in command"
		}
		o["ok"] = err == nil
		o["names"] = names
		o["msg"] = strings.ToValidUTF8(msg, "?")
		o["files"] = listFiles(dir, out, inputs, t)
		o["lib"] = library(list(c, "ins"), t)
		pre := []interface{}{}
		for _, v := range list(c, "pre") {
			if p := v.(obj); str(p, "k") == "file" {
				pre = append(pre, obj{"n": str(p, "n"), "c": t.ref(str(p, "c"))})
			}
		}
		o["tab"] = t.tab
		if t.tab == nil {
			o["tab"] = []string{}
		}
		return o
	}

	// The same with texts of many parts, of which some are given many times.
	handlers["bulkcli"] = func(c obj) obj {
		ins := []interface{}{}
		for _, v := range list(c, "ins") {
			in := obj{"k": "text", "src": parts(strs(v.(obj), "p"), num(c, "n"))}
			for i := 0; i < num(v.(obj), "copies"); i++ {
				ins = append(ins, in)
			}
		}
		o := handlers["cli"](obj{"ins": ins, "dir": c["dir"], "pre": c["pre"], "how": c["how"], "fds": c["fds"]})
		o["said"] = o["msg"] != ""
		delete(o, "msg")
		delete(o, "names")
		return o
	}
}
