package main

import "io"

// chunks is a reader that delivers s in pieces of the given sizes (the last
// one repeated; 0: an empty read), then fail or io.EOF.  With late, the end is
// reported along with the last piece.
type chunks struct {
	s     string
	sizes []int
	fail  error
	late  bool
	k     int
	calls int
}

func (c *chunks) end() error {
	if c.fail != nil {
		return c.fail
	}
	return io.EOF
}

func (c *chunks) Read(p []byte) (int, error) {
	c.calls++
	if c.s == "" {
		return 0, c.end()
	}
	n := len(c.s)
	if len(c.sizes) > 0 {
		n = c.sizes[len(c.sizes)-1]
		if c.k < len(c.sizes) {
			n = c.sizes[c.k]
		}
		c.k++
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.s) {
		n = len(c.s)
	}
	copy(p, c.s[:n])
	c.s = c.s[n:]
	if c.s == "" && c.late {
		return n, c.end()
	}
	return n, nil
}
