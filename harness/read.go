package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
)

var failures = map[string]error{
	"custom":     errors.New("custom"),
	"unexpected": io.ErrUnexpectedEOF,
	"wrapped":    fmt.Errorf("wrapped: %w", io.EOF),
	"progress":   io.ErrNoProgress,
	"closed":     io.ErrClosedPipe,
	"short":      io.ErrShortBuffer,
	"other":      errors.New("EOF"),
}

// feed delivers s in pieces of the given sizes (over and over with again, else
// the rest at once), failing once at failat; then, if it goes on, the rest.
type feed struct {
	s      string
	sizes  []int
	again  bool
	failat int
	fail   error
	goon   bool
	late   bool

	pos, k int
	failed bool
	ev     [][]int
}

func (f *feed) Read(p []byte) (int, error) {
	n, err := f.read(p)
	e := 0
	if err == io.EOF {
		e = 1
	} else if err != nil {
		e = 2
	}
	f.ev = append(f.ev, []int{n, e})
	if len(f.ev) > 300000 {
		panic("harness: endless reading")
	}
	return n, err
}

func (f *feed) read(p []byte) (int, error) {
	stop, end := len(f.s), io.EOF
	if f.failat <= len(f.s) && !(f.failed && f.goon) {
		stop, end = f.failat, f.fail
	}
	if f.pos == stop {
		f.failed = f.failed || end != io.EOF
		return 0, end
	}
	n := stop - f.pos
	if f.k < len(f.sizes) {
		n = f.sizes[f.k]
		f.k++
		if f.again && f.k == len(f.sizes) {
			f.k = 0
		}
	}
	if n > len(p) {
		n = len(p)
	}
	if n > stop-f.pos {
		n = stop - f.pos
	}
	copy(p, f.s[f.pos:f.pos+n])
	f.pos += n
	if f.pos == stop && f.late && n > 0 {
		f.failed = f.failed || end != io.EOF
		return n, end
	}
	return n, nil
}

// through is another kind of reader that reads what f delivers, or a common
// one that holds the same text, having been read from before.
func through(via string, f *feed) (io.Reader, func()) {
	const junk = "(A x) =>"
	none := func() {}
	held := func(r io.Reader) (io.Reader, func()) {
		f.ev = [][]int{{len(f.s), 1}}
		_, err := io.ReadFull(r, make([]byte, len(junk)))
		must(err)
		return r, none
	}
	switch via {
	case "":
		return f, none
	case "bufio":
		return bufio.NewReader(f), none
	case "limited":
		return io.LimitReader(f, int64(len(f.s))+1000), none
	case "multi":
		return io.MultiReader(strings.NewReader(""), f, strings.NewReader("")), none
	case "tee":
		return io.TeeReader(f, io.Discard), none
	case "pipe":
		r, w := io.Pipe()
		end := make(chan bool)
		go func() {
			_, err := io.Copy(w, f)
			w.CloseWithError(err)
			close(end)
		}()
		return r, func() { r.Close(); <-end }
	case "strings":
		return held(strings.NewReader(junk + f.s))
	case "bytes":
		return held(bytes.NewReader([]byte(junk + f.s)))
	case "buffer":
		return held(bytes.NewBufferString(junk + f.s))
	case "section":
		return held(io.NewSectionReader(strings.NewReader("( "+junk+f.s+" ("), 2, int64(len(junk)+len(f.s))))
	case "file":
		t, err := os.CreateTemp(os.Getenv("VERIF_TMP"), "held")
		must(err)
		_, err = t.WriteString(junk + f.s)
		must(err)
		_, err = t.Seek(0, io.SeekStart)
		must(err)
		r, _ := held(t)
		return r, func() { t.Close(); os.Remove(t.Name()) }
	}
	panic("harness: bad via")
}

func init() {
	handlers["read"] = func(c obj) obj {
		src := source(c)
		unit := -1 // rules of what is repeated
		if f, err := parse.String(src); err == nil && num(c, "times") > 0 {
			unit = len(f.Rules)
		}
		for i := 0; i < num(c, "times"); i++ {
			src += src
		}
		var rules, msgs strtab
		ret := func(f *ast.File, err error) obj {
			r := obj{"ok": err == nil, "nil": f == nil, "rules": rules.ref(js(pFile(f))), "msg": 0, "n": 0}
			if f != nil {
				r["n"] = len(f.Rules)
			}
			if err != nil {
				r["msg"] = msgs.ref(err.Error())
			}
			return r
		}
		o := obj{"len": len(src), "named": false, "unit": unit, "units": 1 << num(c, "times")}
		switch str(c, "api") {
		case "reader":
			f := &feed{s: src, failat: num(c, "failat"), fail: failures[str(c, "fail")], again: c["again"] == true, goon: c["goon"] == true, late: c["late"] == true}
			if f.fail == nil {
				f.failat = len(src) + 1
			}
			for _, v := range list(c, "sizes") {
				f.sizes = append(f.sizes, int(v.(float64)))
			}
			r, done := through(str(c, "via"), f)
			o["ret"] = ret(parse.Reader("string", r))
			done()
			o["ev"], o["named"] = f.ev, true
			if f.ev == nil {
				o["ev"] = [][]int{}
			}
		case "file":
			dir, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "read")
			must(err)
			defer os.RemoveAll(dir)
			fn := filepath.Join(dir, "f.rules"+str(c, "base"))
			o["ev"] = [][]int{{len(src), 1}}
			if c["before"] == true { // something else of that size was read there
				must(os.WriteFile(fn, bytes.Map(func(r rune) rune {
					if 'a' <= r && r <= 'z' {
						return 'a' + 'z' - r
					}
					return r
				}, []byte(src)), 0o600))
				must(os.Chtimes(fn, epoch, epoch))
				parse.File(fn)
				must(os.Remove(fn))
			}
			switch str(c, "kind") {
			case "file":
				must(os.WriteFile(fn, []byte(src), 0o600))
				must(os.Chtimes(fn, epoch, epoch))
			case "link":
				must(os.WriteFile(fn+"x", []byte(src), 0o600))
				must(os.Symlink(fn+"x", fn))
			case "fifo":
				must(syscall.Mkfifo(fn, 0o600))
				go func() {
					w, err := os.OpenFile(fn, os.O_WRONLY, 0)
					if err != nil {
						return
					}
					defer w.Close()
					for i := 0; i < len(src); i += 1 + len(src)/5 {
						j := i + 1 + len(src)/5
						if j > len(src) {
							j = len(src)
						}
						w.Write([]byte(src[i:j]))
					}
				}()
			case "missing":
				o["ev"] = [][]int{{0, 2}}
			case "dangling":
				must(os.Symlink(fn+"x", fn))
				o["ev"] = [][]int{{0, 2}}
			case "dir":
				must(os.Mkdir(fn, 0o700))
				o["ev"] = [][]int{{0, 2}}
			case "below":
				must(os.WriteFile(fn, []byte(src), 0o600))
				fn = filepath.Join(fn, "f")
				o["ev"] = [][]int{{0, 2}}
			case "none":
				fn = ""
				o["ev"] = [][]int{{0, 2}}
			default:
				panic("harness: bad kind")
			}
			o["ret"] = ret(parse.File(fn))
		default:
			panic("harness: bad api")
		}
		o["means"] = ret(parse.String(src))
		return o
	}
}
