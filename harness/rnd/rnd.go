// Package rnd replaces crypto/rand.Reader by seeded, observable and breakable sources, one per party.
// Its import path sorts first so that it is initialised before the packages under test copy
// rand.Reader.
package rnd

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"io"
	"sync"
	"unsafe"
)

// ErrInjected is what the source returns once it has been told to fail.
var ErrInjected = errors.New("injected failure of the randomness source")

// Source is one switchable reader.
type Source struct {
	mx       sync.Mutex
	seed     [32]byte
	ctr      uint64
	buf      []byte
	reads    int64
	bytes    int64
	armed    bool
	failAt   int64 // number of reads that still succeed
	failOnce bool
	failed   int64
	script   []byte // bytes served before the generator
	logging  bool
	log      [][]byte
	pos      int64 // bytes served since Seed
	flip     int64 // 1 + position since Seed of a byte to change, or 0
	partial  bool  // failing reads still deliver half of what was asked for
	failWith error
}

// S is the source of goroutines that have none of their own.
var S = &Source{}

// System is the reader that was there before.
var System io.Reader

type mux struct{}

func (mux) Read(p []byte) (int, error) {
	if s := current(); s != nil {
		return s.Read(p)
	}
	return S.Read(p)
}

func init() {
	System = rand.Reader
	S.Seed(1)
	rand.Reader = mux{}
}

//go:linkname getProfLabel runtime/pprof.runtime_getProfLabel
func getProfLabel() unsafe.Pointer

var streams sync.Map // label set -> *Source

func current() *Source {
	p := getProfLabel()
	if p == nil {
		return nil
	}
	if v, ok := streams.Load(p); ok {
		return v.(*Source)
	}
	return nil
}

// New makes a source.
func New(seed int64) *Source {
	s := &Source{}
	s.Seed(seed)
	return s
}

// Register makes s the source of goroutines with the profiler labels that this goroutine has now.
// (This package must not import runtime/pprof, or it would be initialised too late.)
func Register(s *Source) { streams.Store(getProfLabel(), s) }

// Seed restarts the generator.
func (s *Source) Seed(n int64) {
	s.mx.Lock()
	defer s.mx.Unlock()
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], uint64(n))
	s.seed = sha256.Sum256(append([]byte("vmon seed"), b[:]...))
	s.ctr, s.buf = 0, nil
	s.pos, s.flip = 0, 0
}

// Flip changes one bit of the byte at the given position of the stream since Seed.
func (s *Source) Flip(pos int64) {
	s.mx.Lock()
	s.flip = pos + 1
	s.mx.Unlock()
}

// Pos is the number of bytes served since Seed.
func (s *Source) Pos() int64 {
	s.mx.Lock()
	defer s.mx.Unlock()
	return s.pos
}

// Script makes the next reads return the given bytes first.
func (s *Source) Script(b []byte) {
	s.mx.Lock()
	s.script = append([]byte{}, b...)
	s.mx.Unlock()
}

// Arm makes the source fail after n more reads; once makes later reads succeed again.
func (s *Source) Arm(n int64, once bool) {
	s.mx.Lock()
	s.armed, s.failAt, s.failOnce, s.failed = true, n, once, 0
	s.partial, s.failWith = false, ErrInjected
	s.mx.Unlock()
}

// ArmWith does the same with a given error, possibly after half of the bytes.
func (s *Source) ArmWith(n int64, once, partial bool, err error) {
	s.Arm(n, once)
	s.mx.Lock()
	s.partial, s.failWith = partial, err
	s.mx.Unlock()
}

// Disarm stops failing and tells how many reads failed.
func (s *Source) Disarm() int64 {
	s.mx.Lock()
	defer s.mx.Unlock()
	s.armed = false
	return s.failed
}

// Reads is the number of reads so far.
func (s *Source) Reads() int64 {
	s.mx.Lock()
	defer s.mx.Unlock()
	return s.reads
}

// Bytes is the number of bytes asked for so far.
func (s *Source) Bytes() int64 {
	s.mx.Lock()
	defer s.mx.Unlock()
	return s.bytes
}

// StartLog keeps what every read returns from now on.
func (s *Source) StartLog() {
	s.mx.Lock()
	s.logging, s.log = true, nil
	s.mx.Unlock()
}

// Log returns the kept reads.
func (s *Source) Log() [][]byte {
	s.mx.Lock()
	defer s.mx.Unlock()
	return append([][]byte{}, s.log...)
}

// Read implements io.Reader.
func (s *Source) Read(p []byte) (int, error) {
	s.mx.Lock()
	defer s.mx.Unlock()
	s.reads++
	s.bytes += int64(len(p))
	if s.armed {
		if s.failAt <= 0 {
			if !s.failOnce || s.failed == 0 {
				s.failed++
				n := 0
				if s.partial {
					n = len(p) / 2
					for i := range p[:n] {
						p[i] = byte(i) ^ s.seed[i%32]
					}
				}
				return n, s.failWith
			}
		} else {
			s.failAt--
		}
	}
	n := copy(p, s.script)
	s.script = s.script[n:]
	for n < len(p) {
		if len(s.buf) == 0 {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], s.ctr)
			s.ctr++
			h := sha256.Sum256(append(s.seed[:], b[:]...))
			s.buf = append([]byte{}, h[:]...)
		}
		k := copy(p[n:], s.buf)
		s.buf = s.buf[k:]
		n += k
	}
	if at := s.flip - 1 - s.pos; s.flip > 0 && at >= 0 && at < int64(len(p)) {
		p[at] ^= 1
	}
	s.pos += int64(len(p))
	if s.logging {
		s.log = append(s.log, append([]byte{}, p...))
	}
	return n, nil
}
