package main

import (
	"math/rand"
	"sync"
	"time"
)

// Sched holds back the writes of an instance and lets them happen one at a time in a random order, so that every
// completion order of parallel writes can occur and a crash or fault can be placed at an exact write.
type Sched struct {
	// Decide is called when the n-th write (from 1) is about to happen.
	Decide func(n int, op *Op) Verdict
	// OnCrash is called (once, no locks held) at the moment of the crash.
	OnCrash func()
	Quiet   time.Duration

	mu      sync.Mutex
	rng     *rand.Rand
	held    []*heldOp
	arrived time.Time
	n       int
	crashed bool
	open    bool // let everything through
	stop    chan struct{}
	kick    chan struct{}
	Kinds   map[string]int
	Depth   int // largest number of writes held at once
}

type heldOp struct {
	op *Op
	ch chan Action
}

type Verdict struct {
	Act   Action
	Crash bool // the process dies now; Act still applies to this write
	Stall bool // keep this write (and all others) waiting
}

func NewSched(rng *rand.Rand) *Sched {
	s := &Sched{rng: rng, Quiet: 1500 * time.Microsecond, stop: make(chan struct{}), kick: make(chan struct{}, 1), Kinds: map[string]int{}}
	go s.loop()
	return s
}

func (s *Sched) Policy(op *Op) Action {
	if op.Method != "PUT" {
		s.mu.Lock()
		c := s.crashed
		s.mu.Unlock()
		if c {
			return Action{Status: 403}
		}
		return Action{}
	}
	s.mu.Lock()
	if s.crashed {
		s.mu.Unlock()
		return Action{Status: 403, Drop: true}
	}
	if s.open {
		s.mu.Unlock()
		return Action{}
	}
	h := &heldOp{op, make(chan Action, 1)}
	s.held = append(s.held, h)
	s.arrived = time.Now()
	if len(s.held) > s.Depth {
		s.Depth = len(s.held)
	}
	s.mu.Unlock()
	select {
	case s.kick <- struct{}{}:
	default:
	}
	return <-h.ch
}

// Open lets all writes through from now on.
func (s *Sched) Open() {
	s.mu.Lock()
	s.open = true
	for _, h := range s.held {
		h.ch <- Action{}
	}
	s.held = nil
	s.mu.Unlock()
}

func (s *Sched) Close() {
	s.mu.Lock()
	defer s.mu.Unlock()
	select {
	case <-s.stop:
	default:
		close(s.stop)
	}
	s.crashed = true
	for _, h := range s.held {
		h.ch <- Action{Status: 403, Drop: true}
	}
	s.held = nil
}

func (s *Sched) Crashed() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.crashed
}

func (s *Sched) Writes() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.n
}

// CrashNow kills the process at this moment; each write in flight happens or not.
func (s *Sched) CrashNow() {
	s.mu.Lock()
	s.crashLocked()
	s.mu.Unlock()
}

func (s *Sched) crashLocked() {
	if s.crashed {
		return
	}
	s.crashed = true
	if s.OnCrash != nil {
		s.OnCrash()
	}
	for _, h := range s.held {
		h.ch <- Action{Status: 403, Drop: s.rng.Intn(2) == 0}
	}
	s.held = nil
}

func (s *Sched) loop() {
	for {
		select {
		case <-s.stop:
			return
		case <-s.kick:
		}
		for {
			s.mu.Lock()
			if len(s.held) == 0 {
				s.mu.Unlock()
				break
			}
			if d := time.Since(s.arrived); d < s.Quiet {
				s.mu.Unlock()
				time.Sleep(s.Quiet - d)
				continue
			}
			i := s.rng.Intn(len(s.held))
			h := s.held[i]
			s.n++
			v := Verdict{}
			if s.Decide != nil {
				v = s.Decide(s.n, h.op)
			}
			if v.Stall {
				s.n--
				s.mu.Unlock()
				select {
				case <-s.stop:
					return
				case <-time.After(2 * time.Millisecond):
				}
				continue
			}
			s.held = append(s.held[:i], s.held[i+1:]...)
			s.Kinds[opKind(h.op.Key)]++
			if v.Crash {
				s.crashLocked()
				v.Act.Status = 403
			}
			h.ch <- v.Act
			burst := s.rng.Intn(3) == 0
			s.mu.Unlock()
			if burst {
				time.Sleep(200 * time.Microsecond)
			}
		}
	}
}

func opKind(key string) string {
	switch {
	case key == "ct/v1/get-sth":
		return "sth"
	case key == "checkpoint":
		return "checkpoint"
	case len(key) > 10 && key[:10] == "tile/data/":
		return "data tile"
	case len(key) > 5 && key[:5] == "tile/":
		return "hash tile"
	case len(key) > 7 && key[:7] == "issuer/":
		return "issuer"
	case len(key) > 11 && key[:11] == "int/hashes/":
		return "hash index"
	case len(key) > 11 && key[:11] == "int/dedupe/":
		return "dedupe index"
	}
	return "other"
}

// jitter delays writes randomly, heads more often, so that premature answers become visible.
func jitter(rng *rand.Rand, headDelay time.Duration) func(op *Op) Action {
	var mu sync.Mutex
	return func(op *Op) Action {
		if op.Method != "PUT" {
			return Action{}
		}
		mu.Lock()
		defer mu.Unlock()
		var d time.Duration
		switch x := rng.Intn(20); {
		case x < 4:
			d = time.Duration(rng.Intn(4000)) * time.Microsecond
		case x == 4:
			d = time.Duration(rng.Intn(20)) * time.Millisecond
		}
		if k := opKind(op.Key); (k == "sth" || k == "checkpoint" || k == "dedupe index") && rng.Intn(2) == 0 {
			d += time.Duration(rng.Int63n(int64(headDelay) + 1))
		}
		return Action{Delay: d}
	}
}
