// Package verifgrammar reads texts by the grammar file itself: the rest of it
// is made from parse/rules.peg by tool/peg.py.
package verifgrammar

import (
	"bytes"
	"errors"
	"fmt"
	"unicode"
	"unicode/utf8"
)

// here is what actions see of the text read since at.
func (m *machine) here(at int) *current {
	c := &current{text: m.data[at:m.at]}
	c.pos.offset = at
	before := m.data[:at]
	c.pos.line = 1 + bytes.Count(before, []byte("\n"))
	c.pos.col = 1 + utf8.RuneCount(before[bytes.LastIndexByte(before, '\n')+1:])
	return c
}

type expr interface {
	read(*machine) (interface{}, bool)
}

var (
	rules map[string]expr
	start string
)

// current is what actions see as c.
type current struct {
	text []byte
	pos  struct{ line, col, offset int }
}

type machine struct {
	data []byte
	at   int
	rn   rune
	w    int
	vals []map[string]interface{}
	errs []error
}

// Parse reads a text.
func Parse(data []byte) (v interface{}, err error) {
	m := &machine{data: data}
	// Panics of actions are failures.
	defer func() {
		if e := recover(); e != nil {
			v, err = nil, errors.Join(append(m.errs, fmt.Errorf("%v", e))...)
		}
	}()
	m.look()
	v, ok := ref(start).read(m)
	if !ok && len(m.errs) == 0 {
		return nil, errors.New("no match")
	}
	if len(m.errs) != 0 {
		return nil, errors.Join(m.errs...)
	}
	return v, nil
}

func (m *machine) look() {
	m.rn, m.w = utf8.DecodeRune(m.data[m.at:])
	if m.rn == utf8.RuneError && m.w == 1 {
		m.errs = append(m.errs, errors.New("invalid encoding"))
	}
}

func (m *machine) end() bool { return m.at == len(m.data) }

func (m *machine) next() {
	m.at += m.w
	m.look()
}

func (m *machine) back(at int) {
	m.at = at
	m.rn, m.w = utf8.DecodeRune(m.data[at:])
}

func (m *machine) scoped(e expr) (interface{}, bool) {
	m.vals = append(m.vals, map[string]interface{}{})
	v, ok := e.read(m)
	m.vals = m.vals[:len(m.vals)-1]
	return v, ok
}

type ref string

func (e ref) read(m *machine) (interface{}, bool) { return m.scoped(rules[string(e)]) }

type lit struct {
	s    string
	fold bool
}

func (e lit) read(m *machine) (interface{}, bool) {
	at := m.at
	for _, want := range e.s {
		got := m.rn
		if e.fold {
			got = unicode.ToLower(got)
		}
		if m.end() || got != want {
			m.back(at)
			return nil, false
		}
		m.next()
	}
	return m.data[at:m.at], true
}

type class struct {
	not, fold bool
	rs        [][2]rune
}

func (e class) read(m *machine) (interface{}, bool) {
	if m.end() {
		return nil, false
	}
	r := m.rn
	if e.fold {
		r = unicode.ToLower(r)
	}
	in := false
	for _, x := range e.rs {
		in = in || x[0] <= r && r <= x[1]
	}
	if in == e.not {
		return nil, false
	}
	return anything{}.read(m)
}

type anything struct{}

func (anything) read(m *machine) (interface{}, bool) {
	if m.end() {
		return nil, false
	}
	at := m.at
	m.next()
	return m.data[at:m.at], true
}

type seq []expr

func (es seq) read(m *machine) (interface{}, bool) {
	at := m.at
	vs := []interface{}{}
	for _, e := range es {
		v, ok := e.read(m)
		if !ok {
			m.back(at)
			return nil, false
		}
		vs = append(vs, v)
	}
	return vs, true
}

type choice []expr

func (es choice) read(m *machine) (interface{}, bool) {
	for _, e := range es {
		if v, ok := m.scoped(e); ok {
			return v, ok
		}
	}
	return nil, false
}

type label struct {
	n string
	e expr
}

func (e label) read(m *machine) (interface{}, bool) {
	v, ok := m.scoped(e.e)
	if ok {
		m.vals[len(m.vals)-1][e.n] = v
	}
	return v, ok
}

type star struct{ e expr }

func (e star) read(m *machine) (interface{}, bool) {
	var vs []interface{}
	for {
		v, ok := m.scoped(e.e)
		if !ok {
			return vs, true
		}
		vs = append(vs, v)
	}
}

type plus struct{ e expr }

func (e plus) read(m *machine) (interface{}, bool) {
	vs, _ := star{e.e}.read(m)
	if len(vs.([]interface{})) == 0 {
		return nil, false
	}
	return vs, true
}

type opt struct{ e expr }

func (e opt) read(m *machine) (interface{}, bool) {
	v, _ := m.scoped(e.e)
	return v, true
}

type not struct{ e expr }

func (e not) read(m *machine) (interface{}, bool) {
	at := m.at
	_, ok := m.scoped(e.e)
	m.back(at)
	return nil, !ok
}

type and struct{ e expr }

func (e and) read(m *machine) (interface{}, bool) {
	at := m.at
	_, ok := m.scoped(e.e)
	m.back(at)
	return nil, ok
}

// predicate is a test made by code.
type predicate struct {
	want bool
	run  func(*current, map[string]interface{}) (bool, error)
}

func (e predicate) read(m *machine) (interface{}, bool) {
	ok, err := e.run(m.here(m.at), m.vals[len(m.vals)-1])
	if err != nil {
		m.errs = append(m.errs, err)
	}
	return nil, ok == e.want
}

type action struct {
	e   expr
	run func(*current, map[string]interface{}) (interface{}, error)
}

func (e action) read(m *machine) (interface{}, bool) {
	at := m.at
	_, ok := e.e.read(m)
	if !ok {
		return nil, false
	}
	v, err := e.run(m.here(at), m.vals[len(m.vals)-1])
	if err != nil {
		m.errs = append(m.errs, err)
	}
	return v, true
}
