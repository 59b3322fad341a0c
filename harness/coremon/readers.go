package coremon

import (
	"bytes"
	"errors"
	"io"
	"math/rand"
)

func newReader(b []byte) io.Reader { return bytes.NewReader(b) }

// splitReader delivers data in random small pieces, sometimes with nothing at all, and may return
// the last piece together with EOF.
type splitReader struct {
	b       []byte
	r       *rand.Rand
	max     int
	zero    bool
	withEOF bool
	read    int
}

func (s *splitReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	if s.zero && s.r.Intn(4) == 0 {
		return 0, nil
	}
	n := 1 + s.r.Intn(s.max)
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], s.b)
	s.b = s.b[n:]
	s.read += n
	if len(s.b) == 0 && s.withEOF {
		return n, io.EOF
	}
	return n, nil
}

var errWriter = errors.New("injected write failure")

// failWriter accepts a number of bytes and then fails.
type failWriter struct {
	left   int
	writes int
	failed bool
	got    bytes.Buffer
}

func (f *failWriter) Write(p []byte) (int, error) {
	f.writes++
	if len(p) > f.left {
		n := f.left
		f.got.Write(p[:n])
		f.left = 0
		f.failed = true
		return n, errWriter
	}
	f.left -= len(p)
	f.got.Write(p)
	return len(p), nil
}
