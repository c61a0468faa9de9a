package schedprops

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"

	"github.com/philhofer/seth"
	"verif.local/mc/mc"
	"verif.local/mc/shim"
)

// call is one RPC made by the driver.
type call struct {
	tag      string // its parameter, which the peer echoes
	kind     int    // 0 result, 1 error, 2 null
	started  bool
	returned int
	out      string
	err      error
	id       int
	on       *conn // connection its request was written to (or tried on)
	wrote    bool
	answered bool
}

type request struct {
	c     *call
	id    int
	on    *conn
	asked int // position in the order of requests
}

// wire is the peer: it keeps the connections and the requests seen.
type wire struct {
	e       *E
	calls   []*call
	conns   []*conn
	reqs    []*request // unanswered requests, in order of arrival
	all     []*request
	dialErr func(n int) error // nil: succeeds
	onWrite func(c *conn, nth int) error
	writes  map[*conn]int
	dials   int
	client  *seth.Client
}

func newWire(e *E) *wire {
	w := &wire{e: e, writes: map[*conn]int{}}
	w.client = seth.NewClient(w.dial)
	e.Cleanup(func() {
		for _, c := range w.conns {
			c.mu.Lock()
			c.late = false
			c.mu.Unlock()
			c.Close()
		}
	})
	return w
}

func (w *wire) dial() (io.ReadWriteCloser, error) {
	n := w.dials
	w.dials++
	shim.Point(fmt.Sprintf("dial %d", n))
	if w.dialErr != nil {
		if err := w.dialErr(n); err != nil {
			return nil, err
		}
	}
	c := newConn(fmt.Sprintf("conn%d", len(w.conns)), nil)
	c.bad = func(s string) { w.e.Failf("concurrent-write", "%s", s) }
	var part []byte
	c.onWrite = func(c *conn, b []byte) (int, error) {
		n := w.writes[c]
		w.writes[c]++
		var werr error
		if w.onWrite != nil {
			werr = w.onWrite(c, n)
		}
		part = append(part, b...)
		for {
			var rq seth.RPCRequest
			d := json.NewDecoder(bytes.NewReader(part))
			if err := d.Decode(&rq); err != nil {
				if err != io.EOF && err != io.ErrUnexpectedEOF {
					w.e.Failf("corrupt-request", "the peer received %q", part)
				}
				break
			}
			part = part[d.InputOffset():]
			w.arrive(c, &rq, werr)
		}
		if werr != nil {
			return 0, werr
		}
		return len(b), nil
	}
	w.conns = append(w.conns, c)
	return c, nil
}

func (w *wire) arrive(c *conn, rq *seth.RPCRequest, werr error) {
	var tag string
	if len(rq.Params) == 1 {
		json.Unmarshal(rq.Params[0], &tag)
	}
	for _, cl := range w.calls {
		if cl.tag != tag {
			continue
		}
		if rq.Version != "2.0" || rq.Method != "m_"+tag {
			w.e.Failf("wrong-request", "call %s was sent as %+v", tag, rq)
		}
		if cl.on != nil {
			w.e.Failf("sent-twice", "the request of call %s was sent twice", tag)
		}
		for _, o := range w.calls {
			if o != cl && o.on != nil && o.returned == 0 && o.id == rq.ID {
				w.e.Failf("shared-id", "outstanding calls %s and %s share the request id %d", o.tag, cl.tag, rq.ID)
			}
		}
		cl.on, cl.id = c, rq.ID
		r := &request{c: cl, id: rq.ID, on: c, asked: len(w.all)}
		if werr == nil {
			cl.wrote = true
			w.reqs = append(w.reqs, r)
		}
		w.all = append(w.all, r)
		return
	}
	w.e.Failf("wrong-request", "the peer received a request nobody made: %+v", rq)
}

func response(id int, kind int, tag string) string {
	switch kind {
	case 1:
		return fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"error":{"code":%d,"message":"err-%s"}}`+"\n", id, -32000-id, tag)
	case 2:
		return fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"result":null}`+"\n", id)
	}
	return fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"result":"res-%s"}`+"\n", id, tag)
}

// do makes the call and records how it ended.
func (w *wire) do(c *call) {
	p, _ := json.Marshal(c.tag)
	c.started = true
	out := "untouched"
	err := w.client.Do("m_"+c.tag, []json.RawMessage{p}, &out)
	shim.Point("return of " + c.tag)
	c.returned++
	c.out, c.err = out, err
	w.check(c)
}

// check compares the outcome of a call that was answered.
func (w *wire) check(c *call) {
	if c.err == nil && c.kind != 0 || c.err == nil && c.out != "res-"+c.tag {
		w.e.Failf("wrong-response", "call %s (id %d, expecting outcome %d) returned %q and no error", c.tag, c.id, c.kind, c.out)
		return
	}
	if c.err == nil && !c.answered {
		w.e.Failf("unanswered", "call %s returned %q before any response was sent", c.tag, c.out)
		return
	}
	if c.err == nil {
		return
	}
	if rpc, ok := c.err.(*seth.RPCError); ok && c.kind == 1 && c.answered {
		if rpc.Message != "err-"+c.tag || rpc.Code != -32000-c.id {
			w.e.Failf("wrong-response", "call %s (id %d) returned the error %v", c.tag, c.id, rpc)
		}
		return
	}
	if c.err == seth.ErrNotFound && c.kind == 2 && c.answered {
		return
	}
	// otherwise only a failure of the connection can explain it, and that is
	// neither an error of the server nor the absence of a result
	if _, ok := c.err.(*seth.RPCError); ok || c.err == seth.ErrNotFound {
		w.e.Failf("made-up", "call %s (id %d) returned %v, which nobody sent it", c.tag, c.id, c.err)
	}
	c.answered = false
}

func (w *wire) answer(r *request) string {
	for i := range w.reqs {
		if w.reqs[i] == r {
			w.reqs = append(append([]*request(nil), w.reqs[:i]...), w.reqs[i+1:]...)
			break
		}
	}
	if r.c.returned == 0 {
		r.c.answered = true
	}
	return response(r.id, r.c.kind, r.c.tag)
}

// answers lists the events that answer one request.
func (w *wire) answers(usable func(c *conn) bool) (out []shim.Event) {
	for _, r := range w.reqs {
		r := r
		if usable != nil && !usable(r.on) {
			continue
		}
		out = append(out, shim.Event{Name: fmt.Sprintf("answer %s (id %d)", r.c.tag, r.id), Do: func() { r.on.put(w.answer(r)) }})
	}
	return
}

func init() {
	mc.Register(&mc.Prop{
		ID:    "C01",
		Level: "exploration",
		Rule:  "every schedule of callers, the reader and the peer within the preemption budget; a case is one complete execution in which responses were delivered, distinguished by the order of answers and outcomes",
		Run: func(r *mc.R) {
			type shape struct {
				name   string
				prog   [][]int // per goroutine, the kinds of its calls
				extras int     // spurious responses
				budget int
			}
			shapes := []shape{
				{"two callers", [][]int{{0}, {1}}, 0, r.N(2, 3)},
				{"two callers, results", [][]int{{0}, {0}}, 1, r.N(1, 3)},
				{"two calls and one", [][]int{{0, 2}, {0}}, 0, r.N(2, 3)},
				{"two calls and two", [][]int{{0, 0}, {1, 0}}, 1, r.N(0, 2)},
				{"three callers", [][]int{{0}, {1}, {0}}, 0, r.N(1, 3)},
				{"four callers", [][]int{{0}, {1}, {2}, {0}}, 0, r.N(0, 1)},
				{"three callers, spurious", [][]int{{0}, {0}, {2}}, 2, r.N(0, 1)},
			}
			many := r.N(1<<20, 1<<24)
			r.Explore(mc.Opts{Name: "overtaken", Budget: -1, Bound: fmt.Sprintf("a call outstanding while %d others are made and answered", many)}, func(x *mc.X) {
				o := &overtaken{many: many}
				o.c = seth.NewClientTransport(o)
				var out string
				if err := o.c.Do("first", nil, &out); err != nil || out != "first" {
					x.Failf("wrong-response", "the first call returned %q, %v", out, err)
				}
				if o.bad != "" {
					x.Failf("shared-id", "%s", o.bad)
				}
				x.Step()
				x.Case("overtaken")
			})
			for i, s := range shapes {
				s := s
				explore(r, mc.Opts{Name: s.name, Budget: s.budget, Share: 1 / float64(len(shapes)-i), Bound: fmt.Sprintf("%d deviations (preemptions, early events)", s.budget)}, func(e *E) {
					rpcOrder(e, s.prog, s.extras)
				})
			}
		},
	})
}

// overtaken is a transport on which the first call is answered last.
type overtaken struct {
	c    *seth.Client
	many int
	id   int
	bad  string
}

func (o *overtaken) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
	res.ID, res.Version = req.ID, "2.0"
	if req.Method == "first" {
		o.id = req.ID
		for i := 0; i < o.many; i++ {
			var out string
			if err := o.c.Do("next", nil, &out); (err != nil || out != "next") && o.bad == "" {
				o.bad = fmt.Sprintf("call %d returned %q, %v", i, out, err)
			}
		}
	} else if req.ID == o.id && o.bad == "" {
		o.bad = fmt.Sprintf("the number of an outstanding call, %d, is used for another", o.id)
	}
	res.Result = json.RawMessage(`"` + req.Method + `"`)
	return nil
}

// rpcOrder: concurrent calls over one healthy connection.
func rpcOrder(e *E, prog [][]int, extras int) {
	w := newWire(e)
	var gs []*shim.G
	for i, kinds := range prog {
		var mine []*call
		for j, k := range kinds {
			mine = append(mine, &call{tag: fmt.Sprintf("%c%d", 'a'+i, j), kind: k})
		}
		w.calls = append(w.calls, mine...)
		gs = append(gs, e.Go(fmt.Sprintf("caller%d", i), func() {
			for _, c := range mine {
				w.do(c)
			}
		}))
	}
	order := ""
	e.Run(func(idle bool) []shim.Event {
		evs := w.answers(nil)
		if idle && len(w.reqs) > 1 {
			// several responses in one piece, last request first
			evs = append(evs, shim.Event{Name: "answer all at once", Do: func() {
				s := ""
				on := w.reqs[0].on
				for len(w.reqs) > 0 {
					r := w.reqs[len(w.reqs)-1]
					order += r.c.tag
					s += w.answer(r)
				}
				on.put(s)
			}})
		}
		if extras > 0 && len(w.conns) > 0 && len(evs) > 0 {
			spurious := func(name, msg string) shim.Event {
				return shim.Event{Name: name, Do: func() { extras--; w.conns[0].put(msg) }}
			}
			evs = append(evs, spurious("response with an unknown id", response(99, 0, "zz")))
			for _, r := range w.all {
				if r.c.answered {
					evs = append(evs, spurious("duplicate response for "+r.c.tag, response(r.id, 0, "zz")))
					break
				}
			}
			evs = append(evs, spurious("error response without id", `{"jsonrpc":"2.0","error":{"code":-1,"message":"zz"}}`+"\n"))
		}
		return evs
	})
	if e.cutShort() {
		return
	}
	for i, g := range gs {
		if !g.Done {
			e.Failf("hang", "caller %d never returned: %v", i, e.C.Stuck())
		}
	}
	for _, c := range w.calls {
		if c.returned != 1 {
			e.Failf("returns", "call %s returned %d times", c.tag, c.returned)
		} else if !c.answered {
			e.Failf("wrong-response", "call %s (id %d, expecting outcome %d) failed on a healthy connection: %v", c.tag, c.id, c.kind, c.err)
		}
		order += fmt.Sprint(c.tag, c.id, c.kind, ";")
	}
	if w.dials != 1 {
		e.Failf("dials", "%d connections were dialled though the first one is healthy", w.dials)
	}
	e.X.Case(order, fmt.Sprint(e.C.Steps))
	e.X.State(order)
}

func init() {
	mc.Register(&mc.Prop{
		ID:    "C02",
		Level: "fault_enumeration",
		Rule:  "every failure kind of the connection, at every point of every schedule within the preemption budget, followed by calls over a fresh connection; a case is one complete execution in which the failure happened",
		Run: func(r *mc.R) {
			modes := []string{"read error", "end of file", "garbage", "garbage after response", "cut message", "write error 1", "write error 2", "dial error", "dial error twice", "reconnect dial error", "error, then bytes of the old peer", "late responses"}
			type shape struct {
				name   string
				prog   [][]int
				budget int
				late   int // messages of the old peer
				modes  []string
			}
			few := []string{"read error", "write error 2", "late responses"}
			twoWrites := []string{"write error 2", "late responses"}
			if r.Thorough {
				twoWrites = modes
			}
			shapes := []shape{
				{"one after another", [][]int{{0, 0}}, r.N(2, 3), 2, modes},
				{"two callers", [][]int{{0, 0}, {0}}, r.N(1, 2), r.N(1, 2), modes},
				{"two callers, one call each", [][]int{{0}, {0}}, r.N(2, 3), 1, twoWrites},
				{"three callers", [][]int{{0, 0}, {1}, {0}}, r.N(0, 1), 1, few},
			}
			for i, s := range shapes {
				s := s
				explore(r, mc.Opts{Name: s.name, Budget: s.budget, Share: 1 / float64(len(shapes)-i), Bound: fmt.Sprintf("%d deviations (preemptions, early events), %d failure kinds", s.budget, len(s.modes))}, func(e *E) {
					rpcFail(e, s.prog, s.modes[e.X.Choose(len(s.modes))], s.late)
				})
			}
		},
	})
}

var errBroken = errors.New("verif: connection broken")

func rpcFail(e *E, prog [][]int, mode string, lateLeft int) {
	w := newWire(e)
	e.X.Logf("failure: %s", mode)
	broken := func(c *conn) bool { return false } // connections that failed
	failed := map[*conn]bool{}
	broken = func(c *conn) bool { return failed[c] }
	dialFails := 0
	injected := false
	switch mode {
	case "dial error", "dial error twice":
		n := 1
		if mode == "dial error twice" {
			n = 2
		}
		w.dialErr = func(i int) error {
			if i < n {
				injected = true
				dialFails++
				return errBroken
			}
			return nil
		}
	case "reconnect dial error":
		w.dialErr = func(i int) error {
			if i == 1 {
				dialFails++
				return errBroken
			}
			return nil
		}
	case "write error 1", "write error 2":
		n := 0
		if mode == "write error 2" {
			n = 1
		}
		w.onWrite = func(c *conn, nth int) error {
			if c == w.conns[0] && nth >= n {
				injected = true
				failed[c] = true
				return errBroken
			}
			return nil
		}
	}
	var gs []*shim.G
	for i, kinds := range prog {
		var mine []*call
		for j, k := range kinds {
			mine = append(mine, &call{tag: fmt.Sprintf("%c%d", 'a'+i, j), kind: k})
		}
		w.calls = append(w.calls, mine...)
		gs = append(gs, e.Go(fmt.Sprintf("caller%d", i), func() {
			for _, c := range mine {
				w.do(c)
			}
		}))
	}
	e.Run(func(idle bool) []shim.Event {
		evs := w.answers(func(c *conn) bool { return !broken(c) || c.late })
		if len(w.conns) == 0 {
			return evs
		}
		c0 := w.conns[0]
		fail := func(name string, f func()) {
			if !failed[c0] {
				evs = append(evs, shim.Event{Name: name, Do: func() {
					injected = true
					failed[c0] = true
					f()
				}})
			}
		}
		var forOld *request
		for _, r := range w.reqs {
			if r.on == c0 {
				forOld = r
			}
		}
		// an event is offered as long as some request could be affected
		if len(w.reqs) > 0 || !idle {
			switch mode {
			case "read error", "reconnect dial error":
				fail("read error", func() { c0.fail(errBroken) })
			case "end of file":
				fail("EOF", func() { c0.fail(io.EOF) })
			case "garbage":
				fail("garbage", func() { c0.put("<html>bad gateway</html>\n") })
			case "garbage after response":
				if forOld != nil {
					fail("a response and garbage", func() { c0.put(w.answer(forOld) + "}\n") })
				}
			case "cut message":
				if forOld != nil {
					fail("half a response and EOF", func() {
						s := response(forOld.id, 0, forOld.c.tag)
						c0.put(s[:len(s)/2])
						c0.fail(io.EOF)
					})
				}
			case "error, then bytes of the old peer", "late responses":
				// the connection fails for writing while responses are still
				// on their way to the reader
				if !failed[c0] && len(w.all) > 0 {
					evs = append(evs, shim.Event{Name: "the peer stops reading", Do: func() {
						injected = true
						failed[c0] = true
						c0.late = true
						w.onWrite = func(c *conn, nth int) error {
							if c == c0 {
								return errBroken
							}
							return nil
						}
						if mode[0] == 'e' {
							c0.fail(errBroken)
						}
					}})
				}
			}
		}
		if failed[c0] && c0.late && lateLeft > 0 && len(w.conns) > 1 {
			// responses of the old peer, with ids used on the new connection
			for _, r := range w.reqs {
				if r.on != c0 {
					r := r
					evs = append(evs,
						shim.Event{Name: fmt.Sprintf("old peer sends a response with id %d", r.id), Do: func() {
							lateLeft--
							c0.put(response(r.id, 0, "stale"))
						}})
					break
				}
			}
			evs = append(evs, shim.Event{Name: "old peer sends an unknown id", Do: func() {
				lateLeft--
				c0.put(response(77, 0, "stale"))
			}}, shim.Event{Name: "old connection: read error", Do: func() {
				lateLeft = 0
				c0.fail(errBroken)
			}})
			if idle && len(w.reqs) == 0 {
				// nothing left to disturb
				return nil
			}
		}
		return evs
	})
	if e.cutShort() {
		return
	}
	for i, g := range gs {
		if !g.Done {
			e.Failf("hang", "caller %d never returned after %q: %v", i, mode, e.C.Stuck())
		}
	}
	sum := mode
	for _, c := range w.calls {
		sum += fmt.Sprint(" ", c.tag, c.on != nil, c.err)
		if c.returned != 1 {
			e.Failf("returns", "call %s returned %d times", c.tag, c.returned)
			continue
		}
		if c.answered {
			continue // with the right outcome (see check)
		}
		// the call failed: its own connection must have failed
		switch {
		case c.on == nil && dialFails > 0:
			dialFails--
		case c.on != nil && failed[c.on]:
		case c.on == nil && len(w.conns) > 0 && failed[w.conns[0]]:
		default:
			on := "no connection"
			if c.on != nil {
				on = c.on.name
			}
			e.Failf("disturbed", "after %q, call %s (on %s, id %d) failed with %v though its connection is healthy", mode, c.tag, on, c.id, c.err)
		}
	}
	isClosed := func(c *conn) bool {
		c.mu.Lock()
		defer c.mu.Unlock()
		return c.closed
	}
	for i, c := range w.conns {
		// given up: a call on it failed, or another connection took its place
		up := i < len(w.conns)-1
		for _, cl := range w.calls {
			up = up || cl.on == c && cl.returned > 0 && !cl.answered
		}
		if up && !isClosed(c) {
			e.Failf("left-open", "after %q, %s failed and was never closed", mode, c.name)
		}
	}
	if injected {
		e.X.Case(sum, fmt.Sprint(e.C.Steps))
	}
	e.X.State(sum)
}
