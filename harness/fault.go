package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"syscall"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/printer"
)

// writer does as scheduled: takes a piece (0), or reports an error having
// taken nothing (1), some (2) or all (3) of it.
type writer struct {
	sched []int
	then  int
	acc   []byte
	w     [][]int
	errs  []error
}

func (w *writer) Write(p []byte) (int, error) {
	d := w.then
	if k := len(w.w); k < len(w.sched) {
		d = w.sched[k]
	}
	n := len(p)
	switch d {
	case 1:
		n = 0
	case 2:
		n = len(p) / 2
	}
	w.acc = append(w.acc, p[:n]...)
	e := 0
	if d != 0 {
		w.errs = append(w.errs, fmt.Errorf("write error %d", len(w.errs)+1))
		e = len(w.errs)
	}
	w.w = append(w.w, []int{len(p), n, e})
	if e == 0 {
		return n, nil
	}
	return n, w.errs[e-1]
}

// richWriter takes pieces in other forms as well.
type richWriter struct{ *writer }

func (w richWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

func (w richWriter) WriteByte(b byte) error {
	_, err := w.Write([]byte{b})
	return err
}

func (w richWriter) WriteRune(r rune) (int, error) { return w.Write([]byte(string(r))) }

func (w richWriter) ReadFrom(r io.Reader) (int64, error) {
	sum, buf := int64(0), make([]byte, 32)
	for {
		n, rerr := r.Read(buf)
		if n > 0 {
			n, err := w.Write(buf[:n])
			sum += int64(n)
			if err != nil {
				return sum, err
			}
		}
		if rerr == io.EOF {
			return sum, nil
		}
		if rerr != nil {
			return sum, rerr
		}
	}
}

const ownError = 1000001

func returned(err error, errs []error) int {
	if err == nil {
		return 0
	}
	for i, e := range errs {
		if errors.Is(err, e) {
			return i + 1
		}
	}
	return ownError
}

func init() {
	// Print a tree.  api: "fprint" to a scheduled writer (with fill, so many
	// pieces are taken before the schedule applies), "bytes", or "print" with
	// standard output a file, closed, or full.  Or dump it: "fdump", "dump",
	// "pdump".
	handlers["fault"] = func(c obj) obj {
		n := bNode(c["root"].(obj))
		fprint, print := printer.Fprint, printer.Print
		switch str(c, "api") {
		case "fdump", "pdump":
			fprint, print = ast.Fprint, ast.Print
		}
		before := js(pNode(n))
		o := obj{"w": [][]int{}, "acc": "", "ret": 0}
		switch str(c, "api") {
		case "fprint", "fdump":
			w := &writer{then: num(c, "then")}
			for i := 0; i < num(c, "fill"); i++ {
				w.sched = append(w.sched, 0)
			}
			for _, d := range list(c, "sched") {
				w.sched = append(w.sched, int(d.(float64)))
			}
			var to io.Writer = w
			if c["rich"] == true {
				to = richWriter{w}
			}
			err := fprint(to, n)
			if w.w != nil {
				o["w"] = w.w
			}
			o["acc"], o["ret"] = string(w.acc), returned(err, w.errs)
		case "bytes":
			b, err := printer.Bytes(n)
			o["w"] = [][]int{{len(b), len(b), 0}}
			o["acc"], o["ret"] = string(b), returned(err, nil)
		case "dump":
			b, err := ast.Dump(n)
			o["w"] = [][]int{{len(b), len(b), 0}}
			o["acc"], o["ret"] = b, returned(err, nil)
		case "print", "pdump":
			o = printed(print, n, str(c, "out"))
		default:
			panic("harness: bad api")
		}
		o["same"] = js(pNode(n)) == before
		return o
	}
}

// printed prints to standard output, meanwhile a file.
func printed(print func(ast.Node) error, n ast.Node, out string) obj {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "out")
	must(err)
	defer os.RemoveAll(dir)
	fn := filepath.Join(dir, "out")
	f, err := os.Create(fn)
	must(err)
	switch out {
	case "file":
	case "closed":
		must(f.Close())
	case "full":
		f, err = os.OpenFile("/dev/full", os.O_WRONLY, 0)
		must(err)
	}
	old := os.Stdout
	os.Stdout = f
	err = print(n)
	os.Stdout = old
	f.Close()
	b, rerr := os.ReadFile(fn)
	must(rerr)
	o := obj{"w": [][]int{{len(b), len(b), 0}}, "acc": string(b), "ret": returned(err, nil)}
	if out != "file" && err != nil && (errors.Is(err, os.ErrClosed) || errors.Is(err, syscall.ENOSPC)) {
		o["w"], o["ret"] = [][]int{{1, 0, 1}}, 1
	}
	return o
}
