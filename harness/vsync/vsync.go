// Package vsync stands in for package sync in the controlled-schedule build of the library (see cmd/schedgen).
// While a controlled run is active, goroutines take turns: one runs until its next synchronisation point, where the
// generated schedule says which goroutine goes on. Otherwise the real primitives are used, with optional noise.
package vsync

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// Mode is "sched" (controlled runs possible) or "noise"; set at link time.
var Mode = ""

type (
	Locker = sync.Locker
	Map    = sync.Map
	Pool   = sync.Pool
)

func OnceFunc(f func()) func()                           { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return sync.OnceValue(f) }
func OnceValues[A, B any](f func() (A, B)) func() (A, B) { return sync.OnceValues(f) }

// Thread is a controlled goroutine.
type Thread struct {
	id      int
	wake    chan struct{}
	entered chan struct{}
	ready   func() bool
	what    string
	s       *sched
	Name    string
}

type abort struct{}

type sched struct {
	threads []*Thread
	cur     *Thread
	next    *Thread // spawned, not yet entered
	nextID  int
	choices []byte
	pos     int
	steps   int
	dead    string
	aborted bool
	limit   bool
	panics  []string
	wg      sync.WaitGroup
}

var cur *sched // the active controlled run

// Active says whether a controlled run is in progress.
func Active() bool { return cur != nil }

const maxSteps = 20000

// Result of a controlled run.
type Result struct {
	Deadlock string // description, if no goroutine could go on
	Limit    bool   // step limit reached
	Panics   []string
	Steps    int
	Used     int // schedule entries used
}

// Run executes f as the first controlled goroutine under the given schedule: entry 0 lets the current goroutine go on,
// entry k>0 chooses the k-th goroutine (counted cyclically after the current one) that can go on.
func Run(choices []byte, f func()) Result {
	s := &sched{choices: choices}
	t := s.add("main")
	s.cur = t
	cur = s
	go func() {
		defer Exit(t)
		f()
	}()
	s.wg.Wait() // every goroutine, those of the library included
	cur = nil
	return Result{Deadlock: s.dead, Limit: s.limit, Panics: s.panics, Steps: s.steps, Used: s.pos}
}

// Go starts a controlled goroutine from a controlled goroutine.
func Go(name string, f func()) {
	s := cur
	Spawn()
	s.next.Name = name
	go func() {
		defer Exit(Enter())
		f()
	}()
	Spawned()
}

func (s *sched) add(name string) *Thread {
	t := &Thread{s: s, id: s.nextID, wake: make(chan struct{}, 1), entered: make(chan struct{}, 1), Name: name}
	s.nextID++
	s.threads = append(s.threads, t)
	s.wg.Add(1)
	return t
}

// Spawn announces that the current goroutine is about to start another one.
func Spawn() {
	s := cur
	if s == nil || s.aborted {
		return
	}
	s.next = s.add(fmt.Sprintf("library goroutine %d", s.nextID))
	s.next.what = "start"
}

// Enter is the first call of a started goroutine.
func Enter() *Thread {
	s := cur
	if s == nil {
		return nil
	}
	if s.aborted { // started by a goroutine that is unwinding
		runtime.Goexit()
	}
	t := s.next
	t.entered <- struct{}{}
	<-t.wake
	if s.aborted {
		s.wg.Done()
		runtime.Goexit() // Exit is not deferred yet
	}
	return t
}

// Spawned waits until the started goroutine is registered.
func Spawned() {
	s := cur
	if s == nil || s.aborted {
		return
	}
	<-s.next.entered
	Yield("go")
}

// Exit is deferred by every controlled goroutine.
func Exit(t *Thread) {
	if t == nil {
		return
	}
	s := t.s
	defer s.wg.Done()
	p := recover()
	if p != nil {
		if _, ok := p.(abort); !ok {
			if s.aborted {
				return
			}
			s.panics = append(s.panics, fmt.Sprintf("%s: panic: %v\n%s", t.Name, p, stack()))
			s.kill()
			return
		}
		return
	}
	if s.aborted {
		return
	}
	for i, x := range s.threads {
		if x == t {
			s.threads = append(s.threads[:i:i], s.threads[i+1:]...)
			break
		}
	}
	if len(s.threads) == 0 {
		return
	}
	n := s.choose(nil)
	if n == nil {
		s.deadlock()
		return
	}
	s.cur = n
	n.wake <- struct{}{}
}

func stack() string {
	b := make([]byte, 4096)
	return string(b[:runtime.Stack(b, false)])
}

func (s *sched) deadlock() {
	var d []string
	for _, t := range s.threads {
		d = append(d, t.Name+" waits at "+t.what)
	}
	sort.Strings(d)
	s.dead = strings.Join(d, "; ")
	s.kill()
}

// kill ends the run: every goroutine unwinds.
func (s *sched) kill() {
	s.aborted = true
	for _, t := range s.threads {
		select {
		case t.wake <- struct{}{}:
		default:
		}
	}
}

func (s *sched) choose(me *Thread) *Thread {
	var en []*Thread
	at := 0
	for _, t := range s.threads {
		if me != nil && t.id <= me.id {
			at = len(en)
			if t.id < me.id {
				at++
			}
		}
		if t.ready == nil || t.ready() {
			en = append(en, t)
		} else if t == me {
			at = len(en)
		}
	}
	if len(en) == 0 {
		return nil
	}
	c := 0
	if s.pos < len(s.choices) {
		c = int(s.choices[s.pos])
		s.pos++
	}
	if c == 0 && me != nil {
		for _, t := range en {
			if t == me {
				return me
			}
		}
	}
	return en[(at+c)%len(en)]
}

// wait gives up the turn until ready holds and the schedule chooses the caller.
func (s *sched) wait(what string, ready func() bool) {
	t := s.cur
	t.what, t.ready = what, ready
	s.steps++
	if s.steps > maxSteps {
		s.limit = true
		s.kill()
		panic(abort{})
	}
	n := s.choose(t)
	if n == nil {
		s.deadlock()
		panic(abort{})
	}
	if n != t {
		s.cur = n
		n.wake <- struct{}{}
		<-t.wake
		if s.aborted {
			panic(abort{})
		}
	}
	t.ready = nil
}

// Yield is a point where the schedule may switch.
func Yield(what string) {
	s := cur
	if s == nil || s.aborted {
		return
	}
	s.wait(what, nil)
}

// WaitAll blocks the calling controlled goroutine until it is the only one left.
func WaitAll() {
	s := cur
	s.wait("join", func() bool { return len(s.threads) == 1 })
}

// --- noise for real runs ---

var noise struct {
	sync.Mutex
	on  bool
	rng uint64
}

// SetNoise turns on random delays at synchronisation points of uncontrolled runs.
func SetNoise(seed uint64) {
	noise.Lock()
	noise.on, noise.rng = seed != 0, seed
	noise.Unlock()
}

func jitter() {
	noise.Lock()
	if !noise.on {
		noise.Unlock()
		return
	}
	noise.rng = noise.rng*6364136223846793005 + 1442695040888963407
	r := noise.rng >> 40
	noise.Unlock()
	switch {
	case r%16 == 0:
		time.Sleep(time.Duration(r>>4%50) * time.Microsecond)
	case r%2 == 0:
		runtime.Gosched()
	}
}

// --- primitives ---

func point(what string) *sched {
	s := cur
	if s == nil {
		jitter()
		return nil
	}
	return s
}

// Mutex stands in for sync.Mutex.
type Mutex struct {
	real sync.Mutex
	held bool
}

func (m *Mutex) Lock() {
	s := point("Lock")
	if s == nil {
		m.real.Lock()
		jitter()
		return
	}
	if s.aborted {
		panic(abort{})
	}
	s.wait("Mutex.Lock", nil)
	if m.held {
		s.wait("Mutex.Lock", func() bool { return !m.held })
	}
	m.held = true
}

func (m *Mutex) TryLock() bool {
	s := point("TryLock")
	if s == nil {
		return m.real.TryLock()
	}
	if s.aborted {
		panic(abort{})
	}
	s.wait("Mutex.TryLock", nil)
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	s := cur
	if s == nil {
		m.real.Unlock()
		jitter()
		return
	}
	if s.aborted {
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	s.wait("after Mutex.Unlock", nil)
}

// RWMutex stands in for sync.RWMutex: a waiting writer holds up new readers, as in package sync.
type RWMutex struct {
	real    sync.RWMutex
	writer  bool
	readers int
	waiting int
}

func (m *RWMutex) Lock() {
	s := point("Lock")
	if s == nil {
		m.real.Lock()
		jitter()
		return
	}
	if s.aborted {
		panic(abort{})
	}
	s.wait("RWMutex.Lock", nil)
	if m.writer || m.readers > 0 {
		m.waiting++
		s.wait("RWMutex.Lock", func() bool { return !m.writer && m.readers == 0 })
		m.waiting--
	}
	m.writer = true
}

func (m *RWMutex) TryLock() bool {
	s := point("TryLock")
	if s == nil {
		return m.real.TryLock()
	}
	if s.aborted {
		panic(abort{})
	}
	s.wait("RWMutex.TryLock", nil)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	s := cur
	if s == nil {
		m.real.Unlock()
		jitter()
		return
	}
	if s.aborted {
		return
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	s.wait("after RWMutex.Unlock", nil)
}

func (m *RWMutex) RLock() {
	s := point("RLock")
	if s == nil {
		m.real.RLock()
		jitter()
		return
	}
	if s.aborted {
		panic(abort{})
	}
	s.wait("RWMutex.RLock", nil)
	if m.writer || m.waiting > 0 {
		s.wait("RWMutex.RLock", func() bool { return !m.writer && m.waiting == 0 })
	}
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	s := point("TryRLock")
	if s == nil {
		return m.real.TryRLock()
	}
	if s.aborted {
		panic(abort{})
	}
	s.wait("RWMutex.TryRLock", nil)
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	s := cur
	if s == nil {
		m.real.RUnlock()
		jitter()
		return
	}
	if s.aborted {
		return
	}
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	s.wait("after RWMutex.RUnlock", nil)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is as in package sync.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup stands in for sync.WaitGroup.
type WaitGroup struct {
	real sync.WaitGroup
	n    int
}

func (w *WaitGroup) Add(d int) {
	s := point("Add")
	if s == nil {
		w.real.Add(d)
		return
	}
	if s.aborted {
		return
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	s.wait("WaitGroup.Add", nil)
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	s := point("Wait")
	if s == nil {
		w.real.Wait()
		return
	}
	if s.aborted {
		panic(abort{})
	}
	s.wait("WaitGroup.Wait", func() bool { return w.n == 0 })
}

// Go is as in package sync.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Spawn()
	go func() {
		defer Exit(Enter())
		defer w.Done()
		f()
	}()
	Spawned()
}

// Once stands in for sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Cond stands in for sync.Cond.
type Cond struct {
	L    Locker
	real *sync.Cond
	q    []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }

func (c *Cond) Wait() {
	s := cur
	if s == nil {
		c.real.Wait()
		return
	}
	if s.aborted {
		panic(abort{})
	}
	b := new(bool)
	c.q = append(c.q, b)
	c.L.Unlock()
	s.wait("Cond.Wait", func() bool { return *b })
	c.L.Lock()
}

func (c *Cond) Signal() {
	s := cur
	if s == nil {
		c.real.Signal()
		return
	}
	if len(c.q) > 0 && !s.aborted {
		*c.q[0] = true
		c.q = c.q[1:]
		s.wait("Cond.Signal", nil)
	}
}

func (c *Cond) Broadcast() {
	s := cur
	if s == nil {
		c.real.Broadcast()
		return
	}
	if s.aborted {
		return
	}
	for _, b := range c.q {
		*b = true
	}
	c.q = nil
	s.wait("Cond.Broadcast", nil)
}
