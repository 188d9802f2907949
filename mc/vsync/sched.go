// Package vsync is a stand-in for sync under a controlled scheduler: while a run is active, only one of its
// threads executes at a time, and at every point (a lock being taken, a call through one of the seams of the
// code under test, the beginning of a call) the scheduler decides which one continues.
//
// The scheduler's own hand-overs are invisible to the race detector, so that it finds the accesses which only
// the hand-overs order; the locks themselves are real and order what they order.
package vsync

import (
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

const (
	ready   = iota // at a point
	running        // the one which executes
	outside        // executes or blocks where the scheduler does not see it
	done
)

// Thread is one controlled goroutine.
type Thread struct {
	ID       int
	goid     uint64
	state    int
	wait     waiter // what it waits for, if not nil
	kind     int
	label    string
	free     bool // at the beginning of a call
	locks    int  // how many it holds exclusively
	wake     chan struct{}
	spawned  bool
	ran      bool
	outsides int
}

type waiter interface{ free(kind int) bool }

// Choice is one decision with more than one possibility.
type Choice struct {
	Enabled []int // thread IDs
	Took    int
	Cost    []int // preemptions of each possibility
	Label   string
	Fresh   []bool   // whether the possibilities have not executed at all
	Begins  []string // the calls which the possibilities begin, if the one which executed last is within a call and holds a lock
}

// First is the first point of a call.
type First struct {
	Call string
	Lock bool
}

// Run is one controlled execution.
type Run struct {
	mu      sync.Mutex
	threads []*Thread
	Firsts  []First
	cur     *Thread
	last    int // ID of the thread which executed last
	prefix  []int
	Choices []Choice
	steps   int64
	stamp   int64
	end     chan struct{}
	ended   bool

	Diverged bool   // the prefix could not be followed
	Outside  int    // how often a thread was blocked where the scheduler does not see it
	Dead     string // why nothing goes on
	Points   int
	patience time.Duration
	stuck    time.Duration
}

var active atomic.Pointer[Run]

// New prepares a run which follows the given decisions and goes on without preemptions.
func New(prefix []int, patience, stuck time.Duration) *Run {
	return &Run{threads: make([]*Thread, 0, 1024), prefix: prefix, end: make(chan struct{}, 1), last: -1, patience: patience, stuck: stuck}
}

// Start adds a thread which begins with a call; it waits until the run begins.
func (r *Run) Start(call string, f func(t *Thread)) {
	t := &Thread{ID: len(r.threads), state: ready, label: call, free: true, wake: make(chan struct{}, 1)}
	r.threads = append(r.threads, t)
	go body(r, t, f)
}

//go:norace
func body(r *Run, t *Thread, f func(t *Thread)) {
	Enter(&Handle{r, t})
	f(t)
	Exit(&Handle{r, t})
}

// Go executes the run. It returns once all threads are done or nothing goes on.
//
//go:norace
func (r *Run) Go() {
	off()
	active.Store(r)
	r.mu.Lock()
	r.next()
	r.mu.Unlock()
	tick := time.NewTicker(5 * time.Millisecond)
	seen, since := int64(-1), time.Now()
loop:
	for {
		select {
		case <-r.end:
			break loop
		case <-tick.C:
		}
		r.mu.Lock()
		if r.steps != seen {
			seen, since = r.steps, time.Now()
		} else if r.cur != nil && time.Since(since) > r.patience {
			// It blocks on something else, or takes long.
			r.cur.state = outside
			r.cur.outsides++
			r.Outside++
			r.steps++
			r.cur = nil
			r.next()
		} else if r.cur == nil && !r.ended && time.Since(since) > r.patience {
			only := true
			for _, t := range r.threads {
				if t.state != done && !t.spawned {
					only = false
				}
			}
			if only {
				r.finish("")
			} else if time.Since(since) > r.stuck {
				r.finish("no call goes on:" + r.where())
			}
		}
		r.mu.Unlock()
	}
	tick.Stop()
	active.Store(nil)
	on()
}

//go:norace
func (r *Run) finish(why string) {
	if !r.ended {
		r.ended = true
		r.Dead = why
		r.end <- struct{}{}
	}
}

//go:norace
func (r *Run) where() string {
	s := ""
	for _, t := range r.threads {
		if t.state != done {
			s += " thread " + string(rune('0'+t.ID)) + " at " + t.label + ";"
		}
	}
	return s
}

// next decides who continues. r.mu is held and nobody executes.
//
//go:norace
func (r *Run) next() {
	if r.ended {
		return
	}
	var en []*Thread
	out, left := false, false
	for _, t := range r.threads {
		switch t.state {
		case ready:
			if !t.spawned {
				left = true
			}
			if t.wait == nil || t.wait.free(t.kind) {
				en = append(en, t)
			}
		case outside:
			out = true
			if !t.spawned {
				left = true
			}
		}
	}
	r.cur = nil
	if len(en) == 0 {
		if !left && !out {
			r.finish("")
		} else if !out {
			r.finish("deadlock:" + r.where())
		}
		return
	}
	// The one which executed last goes on by default.
	def := en[0]
	var prev *Thread
	for _, t := range en {
		if t.ID == r.last {
			def, prev = t, t
		}
	}
	pick := def
	if len(en) > 1 {
		c := Choice{}
		for _, t := range en {
			c.Enabled = append(c.Enabled, t.ID)
			cost := 0
			if prev != nil && t != prev {
				cost = 1
			}
			c.Cost = append(c.Cost, cost)
			b := ""
			if prev != nil && !prev.free && prev.locks > 0 && t.free {
				b = t.label
			}
			c.Begins = append(c.Begins, b)
			c.Fresh = append(c.Fresh, !t.ran)
		}
		if n := len(r.Choices); n < len(r.prefix) {
			found := false
			for _, t := range en {
				if t.ID == r.prefix[n] {
					pick, found = t, true
				}
			}
			if !found {
				r.Diverged = true
			}
		}
		c.Took = pick.ID
		c.Label = pick.label
		r.Choices = append(r.Choices, c)
	}
	r.cur = pick
	r.last = pick.ID
	r.steps++
	r.Points++
	pick.state = running
	pick.wait = nil
	pick.ran = true
	pick.wake <- struct{}{}
}

// self is the thread of the calling goroutine.
//
//go:norace
func self() (*Run, *Thread) {
	r := active.Load()
	if r == nil {
		return nil, nil
	}
	id := goid()
	for _, t := range r.threads {
		if t.goid == id {
			return r, t
		}
	}
	return r, nil
}

//go:norace
func goid() uint64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	id := uint64(0)
	for i := len("goroutine "); i < n && b[i] >= '0' && b[i] <= '9'; i++ {
		id = id*10 + uint64(b[i]-'0')
	}
	return id
}

// point lets the scheduler decide; it returns once the caller continues.
//
//go:norace
func point(label string, free bool, w waiter, kind int) *Thread {
	off()
	r, t := self()
	if t == nil {
		on()
		return nil
	}
	r.mu.Lock()
	if r.ended {
		r.mu.Unlock()
		on()
		return nil
	}
	was := t.state
	if t.free && !free {
		_, lock := w.(*Mutex)
		r.Firsts = append(r.Firsts, First{t.label, lock})
	}
	t.state, t.label, t.free, t.wait, t.kind = ready, label, free, w, kind
	r.steps++
	if was == running || r.cur == nil {
		r.next()
	}
	r.mu.Unlock()
	<-t.wake
	on()
	return t
}

// Point is a place where another thread may continue.
//
//go:norace
func Point(label string) {
	if active.Load() != nil {
		point(label, false, nil, 0)
	}
}

// Boundary is the beginning of a call.
//
//go:norace
func Boundary(label string) { point(label, true, nil, 0) }

// Stamp numbers the moments of a run.
//
//go:norace
func Stamp() int64 {
	r := active.Load()
	if r == nil {
		return 0
	}
	off()
	n := atomic.AddInt64(&r.stamp, 1)
	on()
	return n
}

// Handle is a goroutine which the code under test starts.
type Handle struct {
	r *Run
	t *Thread
}

// Spawn announces a goroutine.
//
//go:norace
func Spawn() *Handle {
	off()
	defer on()
	r, t := self()
	if t == nil {
		return nil
	}
	r.mu.Lock()
	n := &Thread{ID: len(r.threads), state: ready, label: "start", wake: make(chan struct{}, 1), spawned: true}
	r.threads = append(r.threads, n)
	r.mu.Unlock()
	return &Handle{r, n}
}

// Enter is the first thing which an announced goroutine does.
//
//go:norace
func Enter(h *Handle) {
	if h == nil {
		return
	}
	off()
	id := goid()
	h.r.mu.Lock()
	h.t.goid = id
	ended := h.r.ended
	h.r.mu.Unlock()
	if !ended {
		<-h.t.wake
	}
	on()
}

// Exit is the last thing which an announced goroutine does.
//
//go:norace
func Exit(h *Handle) {
	if h == nil {
		return
	}
	off()
	h.r.mu.Lock()
	was := h.t.state
	h.t.state = done
	h.r.steps++
	if was == running || h.r.cur == nil {
		h.r.next()
	}
	h.r.mu.Unlock()
	on()
}
