// Package schedprops decides the properties about concurrency: the instrumented
// implementation runs one goroutine at a time under shim's controller, inside a
// synctest bubble (virtual time), and mc enumerates the schedules.
package schedprops

import (
	"fmt"
	"io"
	"log"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"verif.local/mc/mc"
	"verif.local/mc/shim"
)

func init() { log.SetOutput(io.Discard) }

// E is one controlled execution.
type E struct {
	X   *mc.X
	C   *shim.Ctl
	fin []func()

	key, msg string // the violation found, if any
}

// Failf records a violation; the first one counts.
func (e *E) Failf(key, f string, args ...interface{}) {
	if e.key == "" {
		e.key, e.msg = key, fmt.Sprintf(f, args...)
	}
}

// Cleanup runs f when the execution is over, to release what still blocks.
func (e *E) Cleanup(f func()) { e.fin = append(e.fin, f) }

// Go starts a controlled goroutine of the driver.
func (e *E) Go(name string, f func()) *shim.G { return e.C.Go(name, f) }

// Run schedules until nothing can happen, then checks for panics and
// non-termination.
func (e *E) Run(env func(idle bool) []shim.Event) {
	e.C.Run(func(idle bool) []shim.Event {
		if e.key != "" {
			return nil
		}
		return env(idle)
	})
	if e.C.Panic != "" {
		e.Failf("panic", "%s", e.C.Panic)
	}
	if e.C.Overrun {
		e.Failf("livelock", "no end after %d steps", e.C.Steps)
	}
}

// cutShort tells that the execution ended before its natural end.
func (e *E) cutShort() bool { return e.C.Pruned() || e.C.Diverged != "" || e.key != "" }

// explore enumerates the schedules of body.
func explore(r *mc.R, o mc.Opts, body func(e *E)) {
	o.Hang = 60 * time.Second
	r.Explore(o, func(x *mc.X) {
		e := &E{X: x}
		var inside interface{}
		func() {
			// the bubble reports goroutines that can never go on
			defer func() {
				if p := recover(); p != nil && inside == nil {
					s := fmt.Sprint(p)
					if strings.Contains(s, "deadlock") {
						e.Failf("stuck", "%s\n%s", s, strings.Join(e.C.Stuck(), "\n"))
					} else {
						inside = p
					}
				}
			}()
			synctest.Test(r.T, func(*testing.T) {
				defer func() {
					if p := recover(); p != nil {
						inside = p
					}
				}()
				e.C = shim.New(x.ChooseCost, func(s string) { x.Logf("%s", s) })
				func() {
					defer func() {
						if p := recover(); p != nil {
							inside = p
						}
					}()
					body(e)
				}()
				e.C.Kill()
				for _, f := range e.fin {
					f()
				}
				e.C.Kill()
			})
		}()
		for i := 0; i < e.C.Steps; i++ {
			x.Step()
		}
		if inside != nil {
			panic(inside)
		}
		if e.C.Diverged != "" {
			x.Outcome("schedule not reproducible")
			x.Prune()
		}
		if e.key != "" {
			x.Logf("violation: %s", e.msg)
			x.Failf(e.key, "%s", e.msg)
		}
		if e.C.Pruned() {
			x.Prune()
		}
		x.Validated()
	})
	runtime.KeepAlive(o)
}

// conn is an in-memory connection. The driver puts what the peer sends; Write
// is reported to it.
type conn struct {
	name    string
	mu      sync.Mutex
	in      []byte
	err     error // what Read returns once in is empty
	wake    chan struct{}
	closed  bool
	writing bool
	onWrite func(c *conn, b []byte) (int, error)
	late    bool // reads still work after Close
	bad     func(what string)
}

func newConn(name string, onWrite func(*conn, []byte) (int, error)) *conn {
	return &conn{name: name, wake: make(chan struct{}, 1), onWrite: onWrite}
}

func (c *conn) kick() {
	select {
	case c.wake <- struct{}{}:
	default:
	}
}

func (c *conn) put(b string) {
	c.mu.Lock()
	c.in = append(c.in, b...)
	c.mu.Unlock()
	c.kick()
}

func (c *conn) fail(err error) {
	c.mu.Lock()
	if c.err == nil {
		c.err = err
	}
	c.mu.Unlock()
	c.kick()
}

func (c *conn) Read(p []byte) (int, error) {
	for {
		shim.Point(c.name + ".Read")
		c.mu.Lock()
		switch {
		case len(c.in) > 0 && (!c.closed || c.late):
			n := copy(p, c.in)
			c.in = c.in[n:]
			c.mu.Unlock()
			return n, nil
		case c.err != nil && !c.closed:
			err := c.err
			c.mu.Unlock()
			return 0, err
		case c.closed && (!c.late || c.err != nil):
			c.mu.Unlock()
			return 0, io.ErrClosedPipe
		}
		c.mu.Unlock()
		<-c.wake
	}
}

func (c *conn) Write(p []byte) (int, error) {
	c.mu.Lock()
	if c.writing && c.bad != nil {
		c.bad("two goroutines write to " + c.name + " at the same time")
	}
	c.writing = true
	c.mu.Unlock()
	b := append([]byte(nil), p...)
	shim.Point(c.name + ".Write")
	c.mu.Lock()
	c.writing = false
	closed := c.closed
	c.mu.Unlock()
	if closed {
		return 0, io.ErrClosedPipe
	}
	return c.onWrite(c, b)
}

func (c *conn) Close() error {
	c.mu.Lock()
	c.closed = true
	c.mu.Unlock()
	c.kick()
	return nil
}
