package simnet

import (
	"context"
	"fmt"
	"runtime/debug"
	"runtime/pprof"
	"sync"
	"sync/atomic"
	"time"

	"aaa.vmon/mon"
	"aaa.vmon/rnd"
	rsync "gitlab.com/alephledger/threshold-ecdsa/pkg/sync"
)

// Session is a set of parties with running round servers.
type Session struct {
	*Net
	N     int
	Srv   []rsync.Server
	Dead  bool
	Tries int
	Rnd   []*rnd.Source // randomness of the parties, if set
}

// PanicError is a panic of a party.
type PanicError struct {
	V     interface{}
	Stack string
}

func (p *PanicError) Error() string { return fmt.Sprintf("panic: %v\n%s", p.V, p.Stack) }

// RoundDuration is long: it is not enforced by the code and has no part in any verdict.
const RoundDuration = 20 * time.Second

// NewSession connects n parties and runs one empty round, so that the start is behind. When the
// machine was too slow for the start time, it tries again with a later one.
func NewSession(o Opts) (*Session, error) { return NewSessionDuration(o, RoundDuration) }

// NewSessionDuration does the same with a given duration of rounds.
func NewSessionDuration(o Opts, dur time.Duration) (*Session, error) {
	lead := 40 * time.Millisecond
	var errs []error
	for try := 1; try <= 9; try++ {
		s := startServers(o, time.Now().Add(lead), dur)
		s.Tries = try
		hook := o.OnFrame
		s.SetOnFrame(nil)
		errs = s.AllCut(func(pid int) error {
			return s.Srv[pid].Round([][]byte{{}}, func(uint16, []byte) error { return nil })
		})
		if Errs(errs) == 0 {
			s.SetOnFrame(hook)
			s.mx.Lock()
			s.frames = nil
			s.mx.Unlock()
			return s, nil
		}
		s.Down()
		for _, e := range errs {
			if _, ok := e.(*PanicError); ok {
				return nil, e
			}
		}
		lead *= 2
	}
	return nil, fmt.Errorf("the first round of %d honest parties fails: %v", o.N, errs)
}

func startServers(o Opts, start time.Time, dur time.Duration) *Session {
	s := &Session{Net: New(o), N: o.N}
	for i := 0; i < o.N; i++ {
		s.Srv = append(s.Srv, rsync.NewServer(uint16(i), uint16(o.N), start, dur, s.Server(uint16(i))))
	}
	for i := range s.Srv {
		s.Srv[i].Start()
	}
	return s
}

// StartOnly makes servers and starts them without any round.
func StartOnly(o Opts, lead time.Duration) *Session {
	return startServers(o, time.Now().Add(lead), RoundDuration)
}

func (s *Session) run(pids []int, cut bool, f func(pid int) error) []error {
	errs := make([]error, s.N)
	var wg sync.WaitGroup
	for _, pid := range pids {
		wg.Add(1)
		go func(pid int) {
			defer wg.Done()
			func() {
				defer func() {
					if r := recover(); r != nil {
						errs[pid] = &PanicError{r, string(debug.Stack())}
					}
				}()
				var src *rnd.Source
				if s.Rnd != nil {
					src = s.Rnd[pid]
				}
				WithSource(src, func() { errs[pid] = f(pid) })
			}()
			mon.Tick()
			if errs[pid] != nil && cut {
				s.Cut(uint16(pid))
			}
		}(pid)
	}
	wg.Wait()
	if cut && Errs(errs) > 0 {
		s.Dead = true
	}
	return errs
}

func (s *Session) pids() []int {
	var p []int
	for i := 0; i < s.N; i++ {
		p = append(p, i)
	}
	return p
}

// All runs an operation at all parties and returns their errors.
func (s *Session) All(f func(pid int) error) []error { return s.run(s.pids(), false, f) }

// AllCut does the same; a party that fails dies, which closes its connections.
func (s *Session) AllCut(f func(pid int) error) []error { return s.run(s.pids(), true, f) }

// Some runs an operation at some parties.
func (s *Session) Some(pids []int, f func(pid int) error) []error { return s.run(pids, false, f) }

// SomeCut does the same, with failing parties dying.
func (s *Session) SomeCut(pids []int, f func(pid int) error) []error { return s.run(pids, true, f) }

// Errs counts errors.
func Errs(errs []error) int {
	n := 0
	for _, e := range errs {
		if e != nil {
			n++
		}
	}
	return n
}

// Panicked returns the first panic among the errors.
func Panicked(errs []error) *PanicError {
	for _, e := range errs {
		if p, ok := e.(*PanicError); ok {
			return p
		}
	}
	return nil
}

var sources int64

// WithSource runs f with src as the randomness of this goroutine and of those it starts.
func WithSource(src *rnd.Source, f func()) {
	if src == nil {
		f()
		return
	}
	pprof.Do(context.Background(), pprof.Labels("rnd", fmt.Sprint(atomic.AddInt64(&sources, 1))), func(context.Context) {
		rnd.Register(src) // for good: goroutines started by f may outlive it
		f()
	})
}
