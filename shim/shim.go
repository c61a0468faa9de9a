// Package shim runs goroutines of instrumented code one at a time under a
// controller. The instrumented code calls Point before each statement and uses
// this package in place of sync; everything else (channels, timers) blocks for
// real inside a testing/synctest bubble, where the controller can tell when
// every goroutine has come to rest.
package shim

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"
	"unsafe"
)

//go:linkname getProfLabel runtime/pprof.runtime_getProfLabel
func getProfLabel() unsafe.Pointer

//go:linkname setProfLabel runtime/pprof.runtime_setProfLabel
func setProfLabel(unsafe.Pointer)

// G is a controlled goroutine. It is found through the goroutine's profiler
// label pointer, which child goroutines inherit; the first field keeps it
// readable as an empty label set.
type G struct {
	labels  []struct{ k, v string }
	ctl     *Ctl
	id      int
	Name    string
	park    chan bool
	parked  bool
	enabled func() bool
	where   string
	Done    bool
}

// Event is something the environment can do.
type Event struct {
	Name string
	Do   func()
}

// Ctl controls the goroutines of one execution.
type Ctl struct {
	mu       sync.Mutex
	gs       []*G
	last     *G
	dead     bool
	Panic    string
	pruned   bool
	Steps    int
	Choose   func(n, cost int, label string) int
	Trace    func(string)
	MaxStep  int
	Overrun  bool
	Diverged string
}

// New makes a controller. It must be called inside the bubble.
func New(choose func(n, cost int, label string) int, trace func(string)) *Ctl {
	return &Ctl{Choose: choose, Trace: trace, MaxStep: 20000}
}

func cur() *G { return (*G)(getProfLabel()) }

func (c *Ctl) newG(name string) *G {
	c.mu.Lock()
	g := &G{ctl: c, id: len(c.gs), Name: name, park: make(chan bool)}
	c.gs = append(c.gs, g)
	c.mu.Unlock()
	return g
}

type killed struct{}

func (g *G) main(f func()) {
	setProfLabel(unsafe.Pointer(g))
	normal := false
	defer func() {
		if !normal {
			if e := recover(); e != nil {
				g.ctl.mu.Lock()
				if m := fmt.Sprint(e); strings.HasPrefix(m, "mc: replay divergence") {
					g.ctl.Diverged = m
				} else if g.ctl.Panic == "" && !g.ctl.dead {
					g.ctl.Panic = fmt.Sprintf("goroutine %s: %v\n%s", g.Name, e, stack())
				}
				g.ctl.mu.Unlock()
			}
		}
		g.ctl.mu.Lock()
		g.Done = true
		g.parked = false
		g.ctl.mu.Unlock()
	}()
	g.wait("start", nil)
	f()
	normal = true
}

func stack() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "philhofer/seth") {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

// Go starts a controlled goroutine.
func (c *Ctl) Go(name string, f func()) *G {
	g := c.newG(name)
	go g.main(f)
	return g
}

// Wrap (used for "go f(args)") makes f run as a controlled goroutine.
func Wrap[F any](f F, where string) F {
	p := cur()
	if p == nil {
		return f
	}
	g := p.ctl.newG(where)
	v := reflect.ValueOf(f)
	w := reflect.MakeFunc(v.Type(), func(args []reflect.Value) (out []reflect.Value) {
		out = make([]reflect.Value, v.Type().NumOut())
		for i := range out {
			out[i] = reflect.Zero(v.Type().Out(i))
		}
		g.main(func() {
			if v.Type().IsVariadic() {
				v.CallSlice(args)
			} else {
				v.Call(args)
			}
		})
		return out
	})
	return w.Interface().(F)
}

func (g *G) wait(where string, enabled func() bool) {
	c := g.ctl
	c.mu.Lock()
	if c.dead {
		c.mu.Unlock()
		runtime.Goexit()
	}
	g.where = where
	g.enabled = enabled
	g.parked = true
	c.mu.Unlock()
	if !<-g.park {
		runtime.Goexit()
	}
}

// Point is a scheduling point.
func Point(where string) {
	if g := cur(); g != nil {
		g.wait(where, nil)
	}
}

// Block parks the calling goroutine until cond holds.
func Block(where string, cond func() bool) {
	if g := cur(); g != nil {
		g.wait(where, cond)
		return
	}
	for i := 0; !cond(); i++ {
		if i > 3000000 {
			fail(where + " can never go on")
		}
		runtime.Gosched()
	}
}

// Controlled tells whether the caller is a controlled goroutine.
func Controlled() bool { return cur() != nil }

// Pref picks which of n ready cases of a select is taken first.
func Pref(n int) int {
	g := cur()
	if g == nil {
		return 0
	}
	return g.ctl.Choose(n, 0, "select")
}

// Miss ends the execution: the preferred case was not ready, so another
// execution covers it.
func Miss() {
	g := cur()
	g.ctl.mu.Lock()
	g.ctl.pruned = true
	g.ctl.mu.Unlock()
	runtime.Goexit()
}

// Pruned tells that this execution repeats another.
func (c *Ctl) Pruned() bool { return c.pruned }

// Run schedules until nothing can happen any more. env lists what the
// environment can do now; idle says that no goroutine can run.
func (c *Ctl) Run(env func(idle bool) []Event) {
	for {
		synctest.Wait()
		if c.Panic != "" || c.pruned || c.Diverged != "" {
			return
		}
		var en []*G
		c.mu.Lock()
		for _, g := range c.gs {
			if g.parked && (g.enabled == nil || g.enabled()) {
				en = append(en, g)
			}
		}
		c.mu.Unlock()
		evs := env(len(en) == 0)
		if len(en) == 0 && len(evs) == 0 {
			return
		}
		if c.Steps++; c.Steps > c.MaxStep {
			c.Overrun = true
			return
		}
		lastOK := false
		for i, g := range en {
			if g == c.last {
				lastOK = true
				en[0], en[i] = en[i], en[0]
			}
		}
		if lastOK {
			rest := en[1:]
			sort.Slice(rest, func(i, j int) bool { return rest[i].id < rest[j].id })
		}
		pick := 0
		switch {
		case len(en) == 0:
			pick = c.choose(len(evs), 0, "event")
		case lastOK:
			// leaving a goroutine that could go on is a preemption
			pick = c.choose(len(en)+len(evs), 1, "preempt")
		default:
			if len(evs) > 0 {
				// an event before the goroutines that could run
				pick = c.choose(1+len(evs), 1, "early event")
				if pick > 0 {
					pick += len(en) - 1
				}
			}
			if pick == 0 {
				pick = c.choose(len(en), 0, "schedule")
			}
		}
		if pick >= len(en) {
			e := evs[pick-len(en)]
			if c.Trace != nil {
				c.Trace("event: " + e.Name)
			}
			e.Do()
			continue
		}
		g := en[pick]
		if c.Trace != nil {
			c.Trace(fmt.Sprintf("%s at %s", g.Name, g.where))
		}
		c.last = g
		c.mu.Lock()
		g.parked = false
		c.mu.Unlock()
		g.park <- true
	}
}

func (c *Ctl) choose(n, cost int, label string) int {
	if n == 1 {
		return 0
	}
	return c.Choose(n, cost, label)
}

// Kill ends every parked goroutine; those blocked for real must be released by
// the caller.
func (c *Ctl) Kill() {
	c.mu.Lock()
	c.dead = true
	c.mu.Unlock()
	for i := 0; i < 100; i++ {
		synctest.Wait()
		n := 0
		c.mu.Lock()
		gs := append([]*G(nil), c.gs...)
		c.mu.Unlock()
		for _, g := range gs {
			c.mu.Lock()
			p := g.parked
			g.parked = false
			c.mu.Unlock()
			if p {
				n++
				g.park <- false
			}
		}
		if n == 0 {
			return
		}
	}
}

// Stuck lists goroutines that have not ended.
func (c *Ctl) Stuck() (out []string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, g := range c.gs {
		if !g.Done {
			w := "blocked after " + g.where
			if g.parked {
				w = "waiting at " + g.where
			}
			out = append(out, g.Name+" "+w)
		}
	}
	return
}

// It iterates over a map in a fixed order.
type It[K comparable, V any] struct {
	m    map[K]V
	keys []K
}

// Iter begins an iteration in ascending or descending key order.
func Iter[M ~map[K]V, K comparable, V any](m M) (it *It[K, V], k K, v V) {
	it = &It[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sort.Slice(it.keys, func(i, j int) bool {
		a, b := reflect.ValueOf(it.keys[i]), reflect.ValueOf(it.keys[j])
		switch {
		case a.CanInt():
			return a.Int() < b.Int()
		case a.CanUint():
			return a.Uint() < b.Uint()
		}
		return fmt.Sprint(it.keys[i]) < fmt.Sprint(it.keys[j])
	})
	if g := cur(); g != nil && len(it.keys) > 1 && g.ctl.Choose(2, 1, "map order") == 1 {
		for i, j := 0, len(it.keys)-1; i < j; i, j = i+1, j-1 {
			it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
		}
	}
	return
}

// Next moves to the next entry that is still in the map.
func (it *It[K, V]) Next(k *K, v *V) bool {
	for len(it.keys) > 0 {
		key := it.keys[0]
		it.keys = it.keys[1:]
		if val, ok := it.m[key]; ok {
			*k, *v = key, val
			return true
		}
	}
	return false
}

// Advance lets virtual time pass.
func Advance(d time.Duration) { time.Sleep(d) }

func fail(what string) {
	panic("sync: " + what)
}

func isDead() bool {
	g := cur()
	return g != nil && g.ctl.dead
}

// ---- sync replacements ----

type (
	Map    = sync.Map
	Pool   = sync.Pool
	Locker = sync.Locker
)

func OnceFunc(f func()) func()             { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }

// Mutex replaces sync.Mutex.
type Mutex struct{ locked atomic.Bool }

func (m *Mutex) Lock() {
	for !m.locked.CompareAndSwap(false, true) {
		if isDead() {
			return
		}
		Block("Mutex.Lock", func() bool { return !m.locked.Load() })
	}
}

func (m *Mutex) TryLock() bool { return m.locked.CompareAndSwap(false, true) }

func (m *Mutex) Unlock() {
	if !m.locked.CompareAndSwap(true, false) && !isDead() {
		fail("unlock of unlocked mutex")
	}
}

// RWMutex replaces sync.RWMutex. n is -1 when write-locked.
type RWMutex struct{ n atomic.Int32 }

func (m *RWMutex) Lock() {
	for !m.n.CompareAndSwap(0, -1) {
		if isDead() {
			return
		}
		Block("RWMutex.Lock", func() bool { return m.n.Load() == 0 })
	}
}
func (m *RWMutex) TryLock() bool { return m.n.CompareAndSwap(0, -1) }
func (m *RWMutex) Unlock() {
	if !m.n.CompareAndSwap(-1, 0) && !isDead() {
		fail("Unlock of unlocked RWMutex")
	}
}
func (m *RWMutex) RLock() {
	for {
		if n := m.n.Load(); n >= 0 {
			if m.n.CompareAndSwap(n, n+1) {
				return
			}
			continue
		}
		if isDead() {
			return
		}
		Block("RWMutex.RLock", func() bool { return m.n.Load() >= 0 })
	}
}
func (m *RWMutex) TryRLock() bool {
	n := m.n.Load()
	return n >= 0 && m.n.CompareAndSwap(n, n+1)
}
func (m *RWMutex) RUnlock() {
	if m.n.Add(-1) < 0 && !isDead() {
		fail("RUnlock of unlocked RWMutex")
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is sync's.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct{ n atomic.Int64 }

func (w *WaitGroup) Add(d int) {
	if w.n.Add(int64(d)) < 0 {
		fail("negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if w.n.Load() > 0 {
		Block("WaitGroup.Wait", func() bool { return w.n.Load() == 0 })
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go Wrap(func() { defer w.Done(); f() }, "WaitGroup.Go")()
}

// Cond replaces sync.Cond.
type Cond struct {
	L    Locker
	wait []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	b := new(bool)
	c.wait = append(c.wait, b)
	c.L.Unlock()
	Block("Cond.Wait", func() bool { return *b })
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.wait) > 0 {
		*c.wait[0] = true
		c.wait = c.wait[1:]
	}
}
func (c *Cond) Broadcast() {
	for _, b := range c.wait {
		*b = true
	}
	c.wait = nil
}
