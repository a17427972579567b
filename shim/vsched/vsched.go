// Package vsched lets a controller decide the order in which goroutines pass
// the synchronisation points of instrumented code. Outside a session every
// point is free.
package vsched

import (
	"sync"
	"sync/atomic"
)

// Thread is one goroutine under control.
type Thread struct {
	ID     int
	Name   string
	gid    uint64
	resume chan struct{}

	// Guarded by Session.mu.
	parked  bool
	kind    string
	obj     any
	enabled func() bool
	done    bool
	soft    bool
	spawned bool
}

// Session is one controlled execution.
type Session struct {
	mu      sync.Mutex
	threads []*Thread
	byGid   map[uint64]*Thread
	free    map[uint64]bool
	closed  bool
}

var cur atomic.Pointer[Session]

// Start begins a session; the calling goroutine (the controller) is free.
func Start() *Session {
	s := &Session{byGid: map[uint64]*Thread{}, free: map[uint64]bool{Gid(): true}}
	cur.Store(s)
	return s
}

// Stop ends the session: every point is free again.
func (s *Session) Stop() {
	s.mu.Lock()
	s.closed = true
	for _, t := range s.threads {
		if t.parked {
			t.parked = false
			close(t.resume)
		}
	}
	s.mu.Unlock()
	cur.CompareAndSwap(s, nil)
}

// Active tells whether the caller is under control.
func Active() bool {
	s := cur.Load()
	return s != nil && !s.free[Gid()]
}

// Go starts a named thread of the session.
func (s *Session) Go(name string, f func()) {
	s.mu.Lock()
	t := &Thread{ID: len(s.threads), Name: name, resume: make(chan struct{})}
	s.threads = append(s.threads, t)
	s.mu.Unlock()
	go func() {
		s.register(t)
		defer s.finish()
		Point("start", nil, nil)
		f()
	}()
}

func (s *Session) register(t *Thread) {
	g := Gid()
	s.mu.Lock()
	defer s.mu.Unlock()
	t.gid = g
	s.byGid[g] = t
}

func (s *Session) finish() {
	s.mu.Lock()
	if t := s.byGid[Gid()]; t != nil {
		t.done = true
		delete(s.byGid, t.gid)
	}
	s.mu.Unlock()
}

// Point is a synchronisation point: the caller waits until the controller
// lets it pass, which happens only when enabled (if given) is true.
func Point(kind string, obj any, enabled func() bool) { point(kind, obj, enabled, false) }

// Step is a point between two statements.
func Step() {
	if cur.Load() != nil {
		point("step", nil, nil, true)
	}
}

func point(kind string, obj any, enabled func() bool, soft bool) {
	s := cur.Load()
	if s == nil {
		return
	}
	g := Gid()
	if s.free[g] {
		return
	}
	s.mu.Lock()
	if s.closed {
		s.mu.Unlock()
		return
	}
	t := s.byGid[g]
	if t == nil {
		t = &Thread{ID: len(s.threads), Name: "spawned", spawned: true, gid: g, resume: make(chan struct{})}
		s.threads = append(s.threads, t)
		s.byGid[g] = t
	}
	t.parked, t.kind, t.obj, t.enabled, t.soft = true, kind, obj, enabled, soft
	r := t.resume
	s.mu.Unlock()
	<-r
}

// Runnable lists the threads that wait at a point they may pass, and tells
// whether any thread is parked at all and whether all known threads are done.
func (s *Session) Runnable() (run []*Thread, parked, unfinished int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, t := range s.threads {
		if t.done {
			continue
		}
		// A goroutine the code started itself may have ended unseen.
		if !t.spawned || t.parked {
			unfinished++
		}
		if t.parked {
			parked++
			if t.enabled == nil || t.enabled() {
				run = append(run, t)
			}
		}
	}
	return
}

// Kind and Soft describe the point a thread waits at.
func (t *Thread) Kind() string { return t.kind }
func (t *Thread) Soft() bool   { return t.soft }
func (t *Thread) Obj() any     { return t.obj }

// Resume lets a parked thread pass.
func (s *Session) Resume(t *Thread) {
	s.mu.Lock()
	t.parked = false
	r := t.resume
	s.mu.Unlock()
	r <- struct{}{}
}

// Blocked describes the threads that are not done, for deadlock reports.
func (s *Session) Blocked() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var v []string
	for _, t := range s.threads {
		if !t.done {
			w := "blocked outside a point"
			if t.parked {
				w = "waiting at " + t.kind
			}
			v = append(v, t.Name+": "+w)
		}
	}
	return v
}
