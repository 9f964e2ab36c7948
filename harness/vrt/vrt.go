// Package vrt is the runtime of the instrumented copy of the library: it
// replaces finalizers, mutexes and, in mode sched, the goroutine scheduler, so
// that the explorer owns every source of nondeterminism.
package vrt

import (
	"fmt"
	"reflect"
	"unsafe"
)

// ---------------------------------------------------------------- finalizers

type entry struct {
	fn    func(*int)
	other func()
	seq   int
}

var registry = map[*int]*entry{}
var others = map[uintptr]func(){}
var seq int

// Fresh lists the objects registered since the last call to ResetFresh.
var Fresh []*int

// Registered counts the calls to SetFinalizer.
var Registered, Finalized int64

// Reset forgets all the registered finalizers.
func Reset() {
	registry = map[*int]*entry{}
	others = map[uintptr]func(){}
	Kept = map[*int]int{}
	Fresh = Fresh[:0]
}

// ResetFresh empties the list of fresh objects.
func ResetFresh() { Fresh = Fresh[:0] }

// SetFinalizer replaces runtime.SetFinalizer.
func SetFinalizer(obj, fn any) {
	Point()
	p, ok := obj.(*int)
	if !ok {
		// a defined type such as Node
		v := reflect.ValueOf(obj)
		if v.Kind() != reflect.Pointer || v.Type().Elem().Kind() != reflect.Int {
			if fn != nil {
				others[v.Pointer()] = func() { reflect.ValueOf(fn).Call([]reflect.Value{v}) }
			}
			return
		}
		p = (*int)(v.UnsafePointer())
	}
	if fn == nil {
		delete(registry, p)
		return
	}
	if registry[p] != nil {
		panic("vrt: runtime.SetFinalizer: finalizer already set")
	}
	var g func(*int)
	switch f := fn.(type) {
	case func(*int):
		g = f
	default:
		rv := reflect.ValueOf(fn)
		if rv.Kind() != reflect.Func || rv.Type().NumIn() != 1 {
			panic("vrt: runtime.SetFinalizer: second argument is not a function of one argument")
		}
		g = func(x *int) {
			rv.Call([]reflect.Value{reflect.ValueOf(x).Convert(rv.Type().In(0))})
		}
	}
	seq++
	Registered++
	registry[p] = &entry{fn: g, seq: seq}
	Fresh = append(Fresh, p)
}

// Cleanup is the result of AddCleanup.
type Cleanup struct{ p *int }

// Stop cancels the cleanup.
func (c Cleanup) Stop() {
	if e := registry[c.p]; e != nil {
		e.other = nil
		if e.fn == nil {
			delete(registry, c.p)
		}
	}
}

// AddCleanup replaces runtime.AddCleanup.
func AddCleanup[T, S any](ptr *T, cleanup func(S), arg S) Cleanup {
	Point()
	p, ok := any(ptr).(*int)
	if !ok {
		return Cleanup{}
	}
	e := registry[p]
	if e == nil {
		seq++
		Registered++
		e = &entry{seq: seq}
		registry[p] = e
		Fresh = append(Fresh, p)
	}
	prev := e.other
	e.other = func() {
		if prev != nil {
			prev()
		}
		cleanup(arg)
	}
	return Cleanup{p}
}

// KeepAlive, GC and Gosched replace the functions of package runtime. When
// references are noticed as dropped is decided by the explorer, so there is
// nothing to do.
func KeepAlive(x any) {
	Point()
	keep(x)
}

// Kept counts the calls to KeepAlive for each pointer.
var Kept = map[*int]int{}

func keep(x any) {
	if S == nil {
		return
	}
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Pointer:
		if v.Type().Elem().Kind() == reflect.Int {
			Kept[(*int)(v.UnsafePointer())]++
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if k := v.Index(i).Kind(); k == reflect.Pointer || k == reflect.Interface {
				keep(v.Index(i).Interface())
			}
		}
	}
}

// GC replaces runtime.GC.
func GC() { Point() }

// Gosched replaces runtime.Gosched.
func Gosched() { Point() }

// HasFinalizer tells if dropping p has an effect.
func HasFinalizer(p *int) bool { return registry[p] != nil }

// Drop runs the finalizer of p: the runtime has noticed that p is unreachable.
func Drop(p *int) bool {
	e := registry[p]
	if e == nil {
		return false
	}
	delete(registry, p)
	Finalized++
	if e.fn != nil {
		e.fn(p)
	}
	if e.other != nil {
		e.other()
	}
	return true
}

// Count returns the number of registered objects.
func Count() int { return len(registry) }

// ------------------------------------------------------------------- mutexes

// Mutex replaces sync.Mutex.
type Mutex struct {
	held bool
	c    clock
}

// Deadlock is the value of the panic raised when a single thread blocks
// forever.
type Deadlock struct{ What string }

func (d Deadlock) Error() string { return "deadlock: " + d.What }

// Lock locks m.
func (m *Mutex) Lock() {
	if S != nil {
		S.lockpoint()
		S.wait("Mutex.Lock", func() bool { return !m.held })
	} else if m.held {
		panic(Deadlock{"Mutex.Lock on a mutex that is already locked"})
	}
	m.held = true
	acquire(&m.c)
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	lockPoint()
	if m.held {
		return false
	}
	m.held = true
	acquire(&m.c)
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	if !m.held {
		panic("vrt: unlock of unlocked mutex")
	}
	m.held = false
	release(&m.c)
	lockPoint()
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	w       bool
	r       int
	pending int // writers that wait
	wc, rc  clock
}

// Lock locks m for writing.
func (m *RWMutex) Lock() {
	if S != nil {
		S.lockpoint()
		m.pending++
		S.wait("RWMutex.Lock", func() bool { return !m.w && m.r == 0 })
		m.pending--
	} else if m.w || m.r > 0 {
		panic(Deadlock{"RWMutex.Lock on a mutex that is already locked"})
	}
	m.w = true
	acquire(&m.wc)
	acquire(&m.rc)
}

// RLock locks m for reading. Like with the real one, readers queue behind a
// waiting writer.
func (m *RWMutex) RLock() {
	if S != nil {
		S.lockpoint()
		S.wait("RWMutex.RLock", func() bool { return !m.w && m.pending == 0 })
	} else if m.w {
		panic(Deadlock{"RWMutex.RLock on a mutex that is locked for writing"})
	}
	m.r++
	acquire(&m.wc)
}

// TryLock tries to lock m for writing.
func (m *RWMutex) TryLock() bool {
	lockPoint()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	acquire(&m.wc)
	acquire(&m.rc)
	return true
}

// TryRLock tries to lock m for reading.
func (m *RWMutex) TryRLock() bool {
	lockPoint()
	if m.w || m.pending > 0 {
		return false
	}
	m.r++
	acquire(&m.wc)
	return true
}

// Unlock unlocks m for writing.
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("vrt: unlock of unlocked RWMutex")
	}
	m.w = false
	release(&m.wc)
	lockPoint()
}

// RUnlock unlocks m for reading.
func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("vrt: RUnlock of unlocked RWMutex")
	}
	m.r--
	release(&m.rc)
	lockPoint()
}

// Once replaces sync.Once.
type Once struct {
	done bool
	m    Mutex
}

// Do calls f the first time.
func (o *Once) Do(f func()) {
	Point()
	if o.done {
		acquire(&o.m.c)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Pool replaces sync.Pool: the last object that was put is returned.
type Pool struct {
	New   func() any
	items []any
	c     clock
}

// Get takes an object.
func (p *Pool) Get() any {
	Point()
	acquire(&p.c)
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put gives an object back.
func (p *Pool) Put(x any) {
	Point()
	if x != nil {
		release(&p.c)
		p.items = append(p.items, x)
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() interface {
	Lock()
	Unlock()
} {
	return (*rlocker)(m)
}

// ----------------------------------------------------------------- scheduler

// Quiet removes the scheduling points of the locks, except when they block.
var Quiet bool

func (s *Sched) lockpoint() {
	if !Quiet {
		s.point()
	}
}

func lockPoint() {
	if S != nil && !Quiet {
		S.point()
	}
}

// S is the active scheduler, nil outside of a scheduled execution.
var S *Sched

// Point is a scheduling point.
func Point() {
	if S != nil {
		S.point()
	}
}

// Store is *p = v with a scheduling point between the evaluation of v and the
// store.
func Store[T any](p *T, v T) {
	Point()
	*p = v
}

// Dev is a deviation from the default schedule: at this step run thread T.
type Dev struct{ Step, T int }

func (d Dev) String() string { return fmt.Sprintf("%d:T%d", d.Step, d.T) }

type thread struct {
	id      int
	wake    chan struct{}
	done    bool
	cond    func() bool // nil if the thread is not waiting
	what    string
	started bool
	body    func()
}

// StepInfo describes the alternatives at one step of an execution.
type StepInfo struct {
	Alts    uint8 // bit t is set when thread t could have run instead
	Preempt bool  // the running thread was enabled
}

// Sched runs one execution.
type Sched struct {
	threads []*thread
	cur     *thread
	devs    []Dev
	nextdev int
	Steps   int
	Info    []StepInfo
	// Diverged tells that a deviation of the schedule was not possible
	Diverged bool
	over     chan string // result of the execution
	Max      int
	failed   string
	aborted  bool
	// Race describes the first data race of the execution
	Race    string
	clocks  [maxThreads]clock
	synced  clock
	shadows map[unsafe.Pointer]*shadow
}

// Run executes the bodies under the schedule devs. It returns the trace of
// alternatives and a non-empty string when the execution failed (panic,
// deadlock, divergence).
func Run(bodies []func(), devs []Dev, max int) (*Sched, string) {
	s := &Sched{devs: devs, over: make(chan string, 1), Max: max}
	for i, b := range bodies {
		s.threads = append(s.threads, &thread{id: i, wake: make(chan struct{}), body: b})
	}
	for i := range s.threads {
		if i < maxThreads {
			s.clocks[i][i] = 1
		}
	}
	s.shadows = map[unsafe.Pointer]*shadow{}
	S = s
	s.cur = s.threads[0]
	s.choose(true) // initial choice: which thread starts
	s.start(s.cur)
	res := <-s.over
	S = nil
	if res == "" {
		res = s.Race
	}
	if s.nextdev != len(devs) {
		s.Diverged = true
	}
	return s, res
}

func (s *Sched) start(t *thread) {
	t.started = true
	go func() {
		defer func() {
			if r := recover(); r != nil {
				s.finish(fmt.Sprintf("T%d panics: %v", t.id, r))
				return
			}
			t.done = true
			s.next()
		}()
		t.body()
	}()
}

func (s *Sched) finish(msg string) {
	if !s.aborted {
		s.aborted = true
		s.over <- msg
	}
}

func (s *Sched) enabled(t *thread) bool {
	return !t.done && (t.cond == nil || t.cond())
}

// choose picks the thread that runs next: the current one by default. It
// returns false when nothing is enabled.
func (s *Sched) choose(initial bool) bool {
	step := s.Steps
	s.Steps++
	curok := s.enabled(s.cur)
	var alts uint8
	pick := -1
	if curok {
		pick = s.cur.id
	}
	for _, t := range s.threads {
		if t != s.cur && s.enabled(t) {
			alts |= 1 << t.id
			if pick < 0 {
				pick = t.id
			}
		}
	}
	if pick < 0 {
		return false
	}
	if !curok {
		alts &^= 1 << pick
	}
	s.Info = append(s.Info, StepInfo{Alts: alts, Preempt: curok && !initial})
	if s.nextdev < len(s.devs) && s.devs[s.nextdev].Step == step {
		d := s.devs[s.nextdev]
		s.nextdev++
		if alts&(1<<d.T) == 0 {
			// the code is not deterministic (it keeps state from one execution
			// to the next, or iterates over a map): what runs is still one of
			// its executions, only another one
			s.Diverged = true
		} else {
			pick = d.T
		}
	}
	s.cur = s.threads[pick]
	return true
}

func (s *Sched) resume(t *thread) {
	if !t.started {
		s.start(t)
	} else {
		t.wake <- struct{}{}
	}
}

// next is called by a thread that has ended.
func (s *Sched) next() {
	all := true
	for _, t := range s.threads {
		if !t.done {
			all = false
		}
	}
	if all {
		s.finish("")
		return
	}
	if !s.choose(false) {
		s.finish(s.deadlock())
		return
	}
	s.resume(s.cur)
}

func (s *Sched) deadlock() string {
	res := "deadlock:"
	for _, t := range s.threads {
		if !t.done {
			res += fmt.Sprintf(" T%d waits in %s;", t.id, t.what)
		}
	}
	return res
}

func (s *Sched) point() {
	me := s.cur
	if s.Steps > s.Max {
		s.finish(fmt.Sprintf("no termination after %d steps", s.Steps))
		select {}
	}
	if !s.choose(false) {
		s.finish(s.deadlock())
		select {}
	}
	if s.cur != me {
		s.resume(s.cur)
		<-me.wake
	}
}

// wait blocks the current thread until cond holds.
func (s *Sched) wait(what string, cond func() bool) {
	if cond() {
		return
	}
	me := s.cur
	me.cond, me.what = cond, what
	if !s.choose(false) {
		s.finish(s.deadlock())
		select {}
	}
	if s.cur != me {
		s.resume(s.cur)
		<-me.wake
	}
	me.cond = nil
}

// Wait lets a body of the harness wait for a condition.
func Wait(what string, cond func() bool) {
	if S != nil {
		S.wait(what, cond)
	}
}

// Explorer enumerates the schedules with at most Bound preemptions.
type Explorer struct {
	Bound int
	// Exec runs one execution and checks it; it returns the trace.
	Exec func(devs []Dev) *Sched
	// Stop is tested between executions.
	Stop      func() bool
	Execs     int64
	Steps     int64
	Capped    bool
	MaxSteps  int
	ShardI, N int // split the first deviation over shards
}

// Explore runs all the schedules.
func (e *Explorer) Explore() {
	e.explore(nil, 0)
}

func (e *Explorer) explore(devs []Dev, cost int) {
	if e.Stop != nil && e.Stop() {
		e.Capped = true
		return
	}
	tr := e.Exec(devs)
	e.Execs++
	e.Steps += int64(tr.Steps)
	if tr.Steps > e.MaxSteps {
		e.MaxSteps = tr.Steps
	}
	from := 0
	if len(devs) > 0 {
		from = devs[len(devs)-1].Step + 1
	}
	for i := from; i < len(tr.Info); i++ {
		inf := tr.Info[i]
		if inf.Alts == 0 {
			continue
		}
		c := cost
		if inf.Preempt {
			c++
		}
		if c > e.Bound {
			continue
		}
		if len(devs) == 0 && e.N > 1 && i%e.N != e.ShardI {
			continue
		}
		for t := 0; t < 8; t++ {
			if inf.Alts&(1<<t) != 0 {
				nd := append(append(make([]Dev, 0, len(devs)+1), devs...), Dev{i, t})
				e.explore(nd, c)
				if e.Capped {
					return
				}
			}
		}
	}
}
