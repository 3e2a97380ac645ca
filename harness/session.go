package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
	"github.com/mmcloughlin/ssarules/printer"
	"github.com/mmcloughlin/ssarules/rules"
	"github.com/mmcloughlin/ssarules/smt2"
)

// What a dump shows of positions and of empty lists carries no meaning.
var (
	positions = regexp.MustCompile(`\b(\w*Pos|Lparen|Rparen|Ellipsis|Star): \d+`)
	empties   = regexp.MustCompile(`\[\][\w.]+ \(len = 0\) \{\}`)
)

func js(v interface{}) string {
	b, err := json.Marshal(v)
	must(err)
	return string(b)
}

// failAfter is a writer that accepts n bytes.
type failAfter struct {
	n   int
	buf bytes.Buffer
}

var errFull = errors.New("full")

func (w *failAfter) Write(p []byte) (int, error) {
	if len(p) > w.n {
		k := w.n
		w.buf.Write(p[:k])
		w.n = 0
		return k, errFull
	}
	w.n -= len(p)
	return w.buf.Write(p)
}

// readFunc is a reader of nothing that does something when asked.
type readFunc func()

func (r readFunc) Read(p []byte) (int, error) {
	r()
	return 0, io.EOF
}

type writeFunc func(p []byte)

func (w writeFunc) Write(p []byte) (int, error) {
	w(p)
	return len(p), nil
}

var epoch = time.Unix(1e9, 0)

var scratch string

func scratchFile() string {
	if scratch == "" {
		var err error
		scratch, err = os.MkdirTemp(os.Getenv("VERIF_TMP"), "session")
		must(err)
	}
	return filepath.Join(scratch, "f.rules")
}

// spoil alters everything that can be reached from v.
func spoil(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && !seen[v.Pointer()] {
			seen[v.Pointer()] = true
			spoil(v.Elem(), seen)
		}
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		switch e := v.Elem(); e.Kind() {
		case reflect.Ptr, reflect.Slice:
			spoil(e, seen)
		default:
			if v.CanSet() {
				n := reflect.New(e.Type()).Elem()
				spoil(n, seen)
				v.Set(n)
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				spoil(v.Field(i), seen)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			spoil(v.Index(i), seen)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("spoiled")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	}
}

// query runs one operation on its argument (a file, of which some operations
// use the first rule only, or a text) and returns what it says.  A returned
// file is passed on; keep is output a caller may hold on to.
func query(op string, src string, f *ast.File) (res string, file *ast.File, keep []byte) {
	defer func() {
		if r := recover(); r != nil {
			res = "panic: " + fmt.Sprint(r)
		}
	}()
	switch op {
	case "parse":
		g, err := parse.String(src)
		return js([]interface{}{err == nil, pFile(g), errText(err)}), g, nil
	case "read":
		g, err := parse.Reader("r", &chunks{s: src, sizes: []int{1, 7}})
		return js([]interface{}{err == nil, pFile(g), errText(err)}), g, nil
	case "badread":
		g, err := parse.Reader("r", io.MultiReader(&chunks{s: src}, &chunks{fail: errFull}))
		return js([]interface{}{err == nil, pFile(g), errText(err)}), nil, nil
	case "file": // the same file over and over, with a constant date
		fn := scratchFile()
		must(os.WriteFile(fn, []byte(src), 0o600))
		must(os.Chtimes(fn, epoch, epoch))
		g, err := parse.File(fn)
		return strings.ReplaceAll(js([]interface{}{err == nil, pFile(g), errText(err)}), filepath.Dir(fn), "DIR"), g, nil
	case "spoil": // the caller keeps what was read to itself, and alters it
		g, err := parse.String(src)
		res := js([]interface{}{err == nil, pFile(g), errText(err)})
		spoil(reflect.ValueOf(g), map[uintptr]bool{})
		return res, nil, nil
	case "spoilx":
		g, err := parse.String(src)
		if err == nil {
			err = pass.ExpandAlternates(g)
		}
		res := js([]interface{}{err == nil, pFile(g), errText(err)})
		spoil(reflect.ValueOf(g), map[uintptr]bool{})
		return res, nil, nil
	case "nestread": // the reader parses too
		n := 0
		r := readFunc(func() {
			n++
			g, err := parse.String("(N x) => y\n")
			if err != nil || len(g.Rules) != 1 {
				n += 1000
			}
		})
		g, err := parse.Reader("r", io.MultiReader(strings.NewReader(src[:len(src)/2]), r, strings.NewReader(src[len(src)/2:])))
		return js([]interface{}{err == nil, pFile(g), errText(err), n}), nil, nil
	case "panicread":
		r := readFunc(func() { panic("read") })
		g, err := parse.Reader("r", io.MultiReader(strings.NewReader(src), r))
		return js([]interface{}{err == nil, pFile(g), errText(err)}), nil, nil
	case "nestprint": // the writer prints too
		var out, inner bytes.Buffer
		err := printer.Fprint(writeFunc(func(p []byte) {
			if inner.Len() < 1000 {
				b, err := printer.Bytes(f)
				inner.Write(b)
				inner.WriteString(errText(err))
			}
			out.Write(p)
		}), f)
		return js([]interface{}{out.String(), inner.String(), errText(err)}), nil, nil
	case "panicprint":
		n := 0
		err := printer.Fprint(writeFunc(func(p []byte) {
			if n += len(p); n > 7 {
				panic("write")
			}
		}), f)
		return js([]interface{}{errText(err)}), nil, nil
	case "nestwalk": // the visitor walks, asks and prints too
		ns := []interface{}{}
		ast.Inspect(f, func(n ast.Node) bool {
			k := 0
			ast.Inspect(n, func(ast.Node) bool { k++; return true })
			ns = append(ns, pNode(n)["nk"], k, ast.Contains(n, func(m ast.Node) bool {
				return ast.Contains(m, func(l ast.Node) bool { _, ok := l.(ast.Variable); return ok })
			}))
			if r, ok := n.(*ast.Rule); ok {
				b, err := printer.Bytes(r)
				ns = append(ns, string(b), errText(err), rules.HasBinding(r), rules.HasTrailing(r))
			}
			return true
		})
		return js(ns), nil, nil
	case "panicwalk":
		k := 0
		ast.Inspect(f, func(n ast.Node) bool {
			if k++; k == 4 {
				panic("visit")
			}
			return true
		})
		return js(k), nil, nil
	case "spoilprint": // the caller alters the bytes it was given
		b, err := printer.Bytes(f)
		res := js([]interface{}{string(b), errText(err)})
		for i := range b[:cap(b)] {
			b[:cap(b)][i] = '#'
		}
		return res, nil, nil
	case "spoilgen":
		b, err := smt2.Generate(f.Rules[0])
		res := js([]interface{}{string(b), errText(err)})
		for i := range b[:cap(b)] {
			b[:cap(b)][i] = '#'
		}
		return res, nil, nil
	case "print":
		b, err := printer.Bytes(f)
		return js([]interface{}{string(b), errText(err)}), nil, b
	case "prule":
		b, err := printer.Bytes(f.Rules[0])
		return js([]interface{}{string(b), errText(err)}), nil, b
	case "badprint":
		w := &failAfter{n: 11}
		err := printer.Fprint(w, f)
		return js([]interface{}{w.buf.String(), errText(err)}), nil, nil
	case "dump":
		s, err := ast.Dump(f.Rules[0])
		s = positions.ReplaceAllString(s, "$1: -")
		s = empties.ReplaceAllString(s, "nil")
		return js([]interface{}{s, errText(err)}), nil, nil
	case "gen":
		b, err := smt2.Generate(f.Rules[0])
		return js([]interface{}{string(b), errText(err)}), nil, b
	case "preds":
		r := f.Rules[0]
		return js([]bool{rules.HasBinding(r), rules.HasType(r), rules.HasAux(r), rules.HasAuxInt(r), rules.HasEllipsis(r), rules.HasTrailing(r)}), nil, nil
	case "walk":
		ns := []interface{}{}
		ast.Inspect(f, func(n ast.Node) bool {
			ns = append(ns, pNode(n)["nk"])
			return true
		})
		return js(ns), nil, nil
	case "prune":
		ns := []interface{}{}
		ast.Inspect(f, func(n ast.Node) bool {
			ns = append(ns, pNode(n)["nk"])
			return len(ns)%3 != 0
		})
		return js(ns), nil, nil
	case "contains":
		k := 0
		b := ast.Contains(f, func(n ast.Node) bool {
			k++
			_, v := n.(ast.Variable)
			return v
		})
		return js([]interface{}{b, k}), nil, nil
	case "expand":
		err := pass.ExpandAlternates(f)
		return js([]interface{}{err == nil, pFile(f), errText(err)}), nil, nil
	}
	panic("harness: bad operation " + op)
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

var onRule = map[string]bool{"prule": true, "dump": true, "gen": true, "preds": true, "spoilgen": true}
var onText = map[string]bool{"parse": true, "read": true, "badread": true, "file": true, "spoil": true, "spoilx": true, "nestread": true, "panicread": true}

type invocation struct {
	Op  string
	Src string
	Rs  []interface{}
}

// cold performs invocations, each on fresh arguments, in a process of its own
// and in reverse order.
func cold(is []string) []string {
	exe := os.Getenv("VERIF_PLAIN")
	if exe == "" {
		var err error
		exe, err = os.Executable()
		must(err)
	}
	cmd := exec.Command(exe)
	cmd.Stdin = bytes.NewReader([]byte(js(obj{"t": "invocations", "is": is}) + "\n"))
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		panic("cold process: " + err.Error())
	}
	var c struct {
		O struct {
			Res   []string
			Panic string
			Hang  bool
		}
	}
	must(json.Unmarshal(b, &c))
	if c.O.Panic != "" || c.O.Hang {
		panic("cold process: " + c.O.Panic)
	}
	return c.O.Res
}

type event struct {
	Op   string  `json:"op"`
	Key  int     `json:"key"`
	Res  int     `json:"res"`
	Slot int     `json:"slot"`
	Fs   [][]int `json:"fs"`
	Objs []int   `json:"objs"`
}

// session is a history of operations over shared files.
type session struct {
	files  []*ast.File
	ids    map[*ast.Rule]int
	byID   []*ast.Rule
	strs   strtab
	keys   strtab
	objtab strtab
	kept   [][]byte
	keptAs []string
	ev     []event
}

func (s *session) id(r *ast.Rule) int {
	i, ok := s.ids[r]
	if !ok {
		s.byID = append(s.byID, r)
		i = len(s.byID)
		s.ids[r] = i
	}
	return i
}

// state records the files as lists of rule identities, and what every rule
// ever seen looks like now.
func (s *session) state() (fs [][]int, objs []int) {
	fs = [][]int{}
	for _, f := range s.files {
		l := []int{}
		for _, r := range f.Rules {
			l = append(l, s.id(r))
		}
		fs = append(fs, l)
	}
	objs = []int{}
	for _, r := range s.byID {
		objs = append(objs, s.objtab.ref(js(pRule(r))))
	}
	return fs, objs
}

func (s *session) do(c obj) {
	op := str(c, "op")
	e := event{Op: op}
	src := str(c, "src")
	var f *ast.File
	if !onText[op] {
		if len(s.files) == 0 {
			return
		}
		e.Slot = 1 + num(c, "slot")%len(s.files)
		f = s.files[e.Slot-1]
		if onRule[op] {
			if len(f.Rules) == 0 {
				return
			}
			f = &ast.File{Rules: f.Rules[num(c, "k")%len(f.Rules):]}
			f.Rules = f.Rules[:1:1]
		}
	}
	if op == "share" {
		s.files = append(s.files, &ast.File{Rules: f.Rules})
	} else {
		e.Key = s.keys.ref(js(invocation{op, src, pFile(f)}))
		res, g, keep := query(op, src, f)
		e.Res = s.strs.ref(res)
		if g != nil {
			s.files = append(s.files, g)
			e.Slot = len(s.files)
		}
		if keep != nil {
			s.kept = append(s.kept, keep)
			s.keptAs = append(s.keptAs, string(keep))
		}
	}
	e.Fs, e.Objs = s.state()
	s.ev = append(s.ev, e)
}

func init() {
	handlers["invocations"] = func(c obj) obj {
		is := list(c, "is")
		res := make([]string, len(is))
		for k := len(is) - 1; k >= 0; k-- {
			var i invocation
			must(json.Unmarshal([]byte(is[k].(string)), &i))
			res[k], _, _ = query(i.Op, i.Src, bFile(i.Rs))
		}
		return obj{"Res": res}
	}

	// ops: a history.  par: lists of operations performed at the same time
	// afterwards, on the files there are then.
	handlers["session"] = func(c obj) obj {
		s := &session{ids: map[*ast.Rule]int{}, ev: []event{}}
		for _, v := range list(c, "ops") {
			s.do(v.(obj))
		}
		par := []event{}
		if ts := list(c, "par"); len(ts) > 0 {
			type call struct {
				op, src, key, res string
				f                 *ast.File
			}
			var all [][]*call
			for _, t := range ts {
				var cs []*call
				for _, v := range t.([]interface{}) {
					o := v.(obj)
					k := &call{op: str(o, "op"), src: str(o, "src")}
					if !onText[k.op] {
						if len(s.files) == 0 {
							continue
						}
						f := s.files[num(o, "slot")%len(s.files)]
						if onRule[k.op] && len(f.Rules) == 0 {
							continue
						}
						// A file of the thread's own, sharing its rules.
						k.f = &ast.File{Rules: f.Rules[:len(f.Rules):len(f.Rules)]}
						if onRule[k.op] {
							i := num(o, "k") % len(f.Rules)
							k.f.Rules = f.Rules[i : i+1 : i+1]
						}
					}
					k.key = js(invocation{k.op, k.src, pFile(k.f)})
					cs = append(cs, k)
				}
				all = append(all, cs)
			}
			var wg sync.WaitGroup
			start := make(chan struct{})
			for _, cs := range all {
				wg.Add(1)
				go func(cs []*call) {
					defer wg.Done()
					<-start
					for _, k := range cs {
						k.res, _, _ = query(k.op, k.src, k.f)
					}
				}(cs)
			}
			close(start)
			wg.Wait()
			for _, cs := range all {
				for _, k := range cs {
					par = append(par, event{Op: k.op, Key: s.keys.ref(k.key), Res: s.strs.ref(k.res), Fs: [][]int{}, Objs: []int{}})
				}
			}
		}
		fs, objs := s.state()
		same := true
		for i, b := range s.kept {
			same = same && string(b) == s.keptAs[i]
		}
		o := obj{"ev": s.ev, "par": par, "fs": fs, "objs": objs, "same": same}
		keys := s.keys.tab
		if keys == nil {
			keys = []string{}
		}
		res := []int{}
		for _, r := range cold(keys) {
			res = append(res, s.strs.ref(r))
		}
		o["cold"] = res
		if c["full"] == true {
			o["keys"], o["strs"], o["objtab"] = keys, s.strs.tab, s.objtab.tab
		}
		return o
	}
}
