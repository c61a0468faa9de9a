package schedprops

import (
	"fmt"
	"strings"
	"time"

	"github.com/philhofer/seth"
	"verif.local/mc/mc"
	"verif.local/mc/shim"
)

type filterCase struct {
	name    string
	fixed   bool
	closers []int // number of Close calls of each closing goroutine
	byUser  bool  // the reader itself closes after its first log (or at the end)
	first   []int // possible sizes of the first reply
	next    []int // possible sizes of later replies
	errs    bool
	ticks   int
	logs    int // most logs in all
	budget  int
	late    bool // the reader only starts once nothing else can happen
}

func init() {
	mc.Register(&mc.Prop{
		ID:    "C04",
		Level: "model_checking",
		Rule:  "every schedule of poller, reader and closers within the preemption budget x every sequence of server replies; a case is one complete execution, distinguished by the replies, the logs delivered and the way it ended",
		Run: func(r *mc.R) {
			small := []int{0, 1, 2}
			cases := []filterCase{
				{"fixed range", true, nil, false, []int{0, 1, 2, 3}, nil, true, 3, 4, r.N(3, 4), false},
				{"fixed range, closed", true, []int{1}, false, small, nil, true, 2, 4, r.N(1, 3), false},
				{"fixed range, more logs than the buffer holds", true, nil, false, []int{19, 20, 21, 23}, nil, false, 1, 30, r.N(1, 2), false},
				{"polling", false, nil, false, small, small, true, r.N(3, 4), 5, r.N(2, 3), false},
				{"polling, one closer", false, []int{1}, false, []int{0, 1}, []int{0, 1, 2}, true, 2, 3, r.N(2, 3), false},
				{"polling, closed twice by one goroutine", false, []int{2}, false, []int{0, 1}, []int{1}, false, 2, 3, r.N(2, 3), false},
				{"polling, two closers", false, []int{1, 1}, false, []int{1}, []int{1}, r.Thorough, 1, 3, r.N(1, 3), false},
				{"polling, three closers", false, []int{1, 1, 1}, false, []int{0}, []int{1}, false, 1, 2, r.N(0, 2), false},
				{"polling, closed by the reader", false, nil, true, []int{1, 2}, []int{1, 2}, true, 2, 5, r.N(2, 3), false},
				{"polling, buffer full, closed by the reader", false, nil, true, []int{22}, []int{1}, false, 1, 30, r.N(1, 2), false},
				{"fixed range, slow reader", true, nil, false, []int{19, 20, 21, 23}, nil, true, 3, 30, r.N(1, 2), true},
				{"polling, slow reader", false, nil, false, []int{20, 21}, []int{0, 1}, true, r.N(3, 4), 24, r.N(1, 2), true},
				{"polling, slow reader, closer", false, []int{1}, false, []int{1, 20}, []int{1, 2}, true, 2, 24, r.N(1, 2), true},
				{"polling, buffer full, closer", false, []int{1}, false, []int{21}, []int{22}, false, 2, 50, r.N(0, 1), false},
			}
			for i, c := range cases {
				c := c
				explore(r, mc.Opts{Name: c.name, Budget: c.budget, Share: 1 / float64(len(cases)-i), Bound: fmt.Sprintf("%d deviations, %d ticks", c.budget, c.ticks)}, func(e *E) { filterRun(e, c) })
			}
		},
	})
}

func logJSON(from, n int) string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, fmt.Sprintf(`{"logIndex":"0x%x","blockNumber":"0x%x","address":"0x%040x","data":"0x%04x","topics":["0x%02x"],"removed":%t}`, from+i, from+i+1000, from+i, from+i, (from+i)%256, (from+i)%2 == 1))
	}
	return "[" + strings.Join(out, ",") + "]"
}

func filterRun(e *E, fc filterCase) {
	n := &node{e: e}
	c := seth.NewClientTransport(n)
	var (
		f          *seth.Filter
		ferr       error
		made       bool
		got        []int
		outClosed  bool
		errAtEnd   error
		errSeen    bool
		sent       int // logs in the replies so far
		failure    string
		uninstalls int
		closeBegan bool
		closesDone int
		closesWant int
		fetchDone  bool
		ticks      = fc.ticks
		history    string
		readOK     = !fc.late
	)
	const id = "0x2a"
	quit := make(chan struct{})
	e.Cleanup(func() {
		close(quit)
		if f != nil {
			drain(e, f.Out())
		}
	})
	n.onReq = func(r *rpc) {
		if r.method == "eth_newFilter" {
			return
		}
		if len(r.params) != 1 || string(r.params[0]) != `"`+id+`"` {
			e.Failf("wrong-filter", "%s was sent with %s instead of the filter's id", r.method, r.params)
		}
		if r.method == "eth_uninstallFilter" {
			uninstalls++
			if !closeBegan {
				e.Failf("uninstall", "the filter was uninstalled before it was closed")
			}
			if uninstalls > 1 {
				e.Failf("uninstall", "the filter was uninstalled %d times", uninstalls)
			}
		} else if failure != "" {
			e.Failf("fetch-after-failure", "%s was sent although the last fetch failed", r.method)
		} else if (r.method == "eth_getFilterLogs") == fetchDone {
			e.Failf("wrong-fetch", "%s was sent, first fetch done: %v", r.method, fetchDone)
		}
	}
	closeIt := func() {
		closeBegan = true
		f.Close()
		shim.Point("return of Close")
		closesDone++
	}
	reader := e.Go("reader", func() {
		start, end := int64(-1), int64(-1)
		if fc.fixed {
			start, end = 5, 9
		}
		f, ferr = c.FilterTopics([]*seth.Hash{&seth.ERC20Transfer}, nil, start, end)
		made = true
		if ferr != nil {
			return
		}
		shim.Block("reader waits", func() bool { return readOK })
		for {
			var l *seth.Log
			var ok bool
			select {
			case l, ok = <-f.Out():
			case <-quit:
				return
			}
			if !ok {
				break
			}
			shim.Point("reader received")
			if l.LogIndex == nil || l.BlockNumber == nil || uint64(*l.BlockNumber) != uint64(*l.LogIndex)+1000 || len(l.Data) != 2 || int(l.Data[0])<<8|int(l.Data[1]) != int(*l.LogIndex) || len(l.Topics) != 1 || int(l.Topics[0][0]) != int(*l.LogIndex)%256 || l.Removed != (*l.LogIndex%2 == 1) {
				e.Failf("log-content", "log arrived as %+v", l)
			} else {
				got = append(got, int(*l.LogIndex))
			}
			if fc.byUser && !closeBegan {
				closesWant++
				closeIt()
			}
		}
		shim.Point("reader saw the channel closed")
		outClosed = true
		errAtEnd = f.Err()
		errSeen = true
	})
	var closers []*shim.G
	for i, k := range fc.closers {
		k := k
		closesWant += k
		closers = append(closers, e.Go(fmt.Sprintf("closer%d", i), func() {
			shim.Block("filter made", func() bool { return made })
			for ; k > 0; k-- {
				closeIt()
			}
		}))
	}
	e.Run(func(idle bool) (evs []shim.Event) {
		for _, r := range append([]*rpc(nil), n.open...) {
			r := r
			batch := func(sizes []int) {
				for _, k := range sizes {
					k := k
					if sent+k > fc.logs {
						continue
					}
					ev := n.reply(r, logJSON(sent, k))
					do := ev.Do
					ev.Do = func() { sent += k; fetchDone = true; history += fmt.Sprint(k, ","); do() }
					evs = append(evs, ev)
				}
				if fc.errs {
					for _, ev := range []shim.Event{n.refuse(r, "filter not found"), n.lose(r), n.reply(r, `{"not":"a list"}`)} {
						do, name := ev.Do, ev.Name
						ev.Do = func() { failure = name; fetchDone = true; history += "F"; do() }
						evs = append(evs, ev)
					}
				}
			}
			switch r.method {
			case "eth_newFilter":
				evs = append(evs, n.reply(r, `"`+id+`"`))
			case "eth_getFilterLogs":
				batch(fc.first)
			case "eth_getFilterChanges":
				batch(fc.next)
			case "eth_uninstallFilter":
				evs = append(evs, n.reply(r, "true"))
				if fc.errs {
					evs = append(evs, n.reply(r, "false"), n.lose(r))
				}
			default:
				e.Failf("wrong-method", "unexpected request %s", r.method)
			}
		}
		if idle && len(n.open) == 0 && ticks > 0 && !reader.Done {
			evs = append(evs, shim.Event{Name: "1 s passes", Do: func() { ticks--; shim.Advance(time.Second) }})
		}
		if idle && !readOK && made {
			evs = append(evs, shim.Event{Name: "the reader starts", Do: func() { readOK = true }})
		}
		return
	})
	if e.cutShort() {
		return
	}
	if len(n.open) > 0 { // the log budget is used up in mid-flight
		e.X.Outcome("reply budget used up")
		return
	}
	if ferr != nil || !made {
		e.Failf("create", "the filter could not be made: %v", ferr)
		return
	}
	for i, g := range closers {
		if !g.Done {
			e.Failf("close-hangs", "closer %d hangs: %v", i, e.C.Stuck())
		}
	}
	if closesDone != closesWant {
		e.Failf("close-hangs", "%d of %d Close calls returned: %v", closesDone, closesWant, e.C.Stuck())
	}
	for i, l := range got {
		if l != i {
			e.Failf("log-order", "the server sent logs 0..%d, the reader got %v", sent-1, got)
		}
	}
	if len(got) > sent {
		e.Failf("log-order", "the server sent %d logs, the reader got %v", sent, got)
	}
	if !closeBegan && len(got) != sent {
		e.Failf("log-lost", "the server sent %d logs, the reader got %v (failure: %q)", sent, got, failure)
	}
	want := 0
	if closeBegan {
		want = 1
	}
	if uninstalls != want {
		e.Failf("uninstall", "closed: %v, uninstalled %d times", closeBegan, uninstalls)
	}
	mustEnd := closeBegan || failure != "" || fc.fixed
	if mustEnd != outClosed {
		e.Failf("channel", "closed %v, failed %q, fixed range %v: output channel closed %v; %v", closeBegan, failure, fc.fixed, outClosed, e.C.Stuck())
	}
	if failure != "" && !closeBegan && errSeen && errAtEnd == nil {
		e.Failf("error-lost", "%s, but Err() was nil when the channel was closed", failure)
	}
	if failure == "" && errSeen && errAtEnd != nil {
		e.Failf("error-invented", "no fetch failed but Err() = %v", errAtEnd)
	}
	if errAtEnd != nil && strings.Contains(failure, "filter not found") && !strings.Contains(errAtEnd.Error(), "filter not found") {
		e.Failf("error-changed", "%s was reported as %v", failure, errAtEnd)
	}
	sum := fmt.Sprint(history, got, outClosed, errAtEnd)
	e.X.Case(sum, fmt.Sprint(e.C.Steps))
	e.X.State(sum)
}

// drain releases the producer behind ch: it ends at its next step.
func drain[T any](e *E, ch <-chan T) {
	for i := 0; i < 3; i++ {
		for more := true; more; {
			select {
			case _, ok := <-ch:
				more = ok
			default:
				more = false
			}
		}
		e.C.Kill()
		shim.Advance(5 * time.Second)
		e.C.Kill()
	}
}

func init() {
	mc.Register(&mc.Prop{
		ID:    "C05",
		Level: "model_checking",
		Rule:  "every schedule of iterator, reader and stopper within the preemption budget x every sequence of node answers; a case is one complete execution, distinguished by the answers and the blocks delivered",
		Run: func(r *mc.R) {
			cases := []iterCase{
				{"answers", 0, []string{"ok", "missing", "error", "lost", "bad"}, false, r.N(5, 6), 4, false, r.N(1, 2)},
				{"answers from a later block", 41, []string{"ok", "missing", "lost"}, true, r.N(4, 5), 3, false, r.N(2, 3)},
				{"stop", 0, []string{"ok", "missing"}, false, r.N(3, 4), 2, true, r.N(3, 4)},
				{"stop, failing", 7, []string{"ok", "missing", "error"}, true, r.N(3, 4), 2, true, r.N(2, 3)},
				{"stop by the reader", 3, []string{"ok", "missing"}, false, r.N(4, 5), 2, false, r.N(3, 4)},
			}
			for i, c := range cases {
				c := c
				explore(r, mc.Opts{Name: c.name, Budget: c.budget, Share: 1 / float64(len(cases)-i+1), Bound: fmt.Sprintf("%d deviations, %d answers", c.budget, c.replies)}, func(e *E) { iterRun(e, c) })
			}
			for i := 0; i < 4; i++ {
				late, stop := i&1 == 1, i&2 == 2
				explore(r, mc.Opts{Name: fmt.Sprintf("full buffer, reader late %v, stopped %v", late, stop), Budget: r.N(0, 1), Bound: "150 blocks, the buffer holds 64; a late reader starts 3 s after it is full"}, func(e *E) {
					ticks := 0
					if late {
						ticks = 3
					}
					iterRun(e, iterCase{"", 0, []string{"ok"}, late, 150, ticks, stop, 0})
				})
			}
		},
	})
}

type iterCase struct {
	name    string
	from    int64
	answers []string
	late    bool // the reader only starts once nothing else can happen
	replies int
	ticks   int
	stopper bool
	budget  int
}

func iterRun(e *E, ic iterCase) {
	n := &node{e: e}
	c := seth.NewClientTransport(n)
	var (
		it        *seth.BlockIterator
		next      = ic.from // the block the iterator has to ask for
		served    = ic.from
		got       []int64
		outClosed bool
		stopped   bool
		after     int // requests begun after Stop
		replies   = ic.replies
		ticks     = ic.ticks
		readOK    = !ic.late
		history   string
		txs       = e.X.Bool()
	)
	n.onReq = func(r *rpc) {
		want := fmt.Sprintf(`"0x%x"`, next)
		ok := len(r.params) == 2 && (string(r.params[0]) == want || next == 0 && string(r.params[0]) == `"earliest"`) && string(r.params[1]) == fmt.Sprint(txs)
		if r.method != "eth_getBlockByNumber" || !ok {
			e.Failf("wrong-request", "%s %s was sent; block %d (transactions: %v) is next", r.method, r.params, next, txs)
		}
		if stopped {
			if after++; after > 1 {
				e.Failf("asks-after-stop", "%d requests were begun after Stop returned", after)
			}
		}
	}
	stop := func() {
		it.Stop()
		stopped = true
	}
	quit := make(chan struct{})
	e.Cleanup(func() {
		close(quit)
		if it != nil {
			drain(e, it.Next())
		}
	})
	reader := e.Go("reader", func() {
		it = c.IterateBlocks(ic.from, txs)
		shim.Block("reader waits", func() bool { return readOK })
		for {
			var b *seth.Block
			var ok bool
			select {
			case b, ok = <-it.Next():
			case <-quit:
				return
			}
			if !ok {
				break
			}
			shim.Point("reader received")
			if b.Number == nil || uint64(b.Timestamp) != uint64(*b.Number)+500 {
				e.Failf("block-content", "block arrived as %+v", b)
				return
			}
			got = append(got, int64(*b.Number))
			if ic.name == "stop by the reader" && len(got) == 2 {
				stop()
			}
		}
		shim.Point("reader saw the channel closed")
		outClosed = true
	})
	if ic.stopper {
		e.Go("stopper", func() {
			shim.Block("iterator made", func() bool { return it != nil })
			stop()
		})
	}
	e.Run(func(idle bool) (evs []shim.Event) {
		if idle && !readOK && (ic.name != "" || ticks == 0 || replies == 0) {
			evs = append(evs, shim.Event{Name: "the reader starts", Do: func() { readOK = true }})
		}
		for _, r := range append([]*rpc(nil), n.open...) {
			r := r
			if replies == 0 {
				// only what lets it finish
				if stopped {
					evs = append(evs, n.reply(r, "null"))
				}
				continue
			}
			for _, a := range ic.answers {
				var ev shim.Event
				switch a {
				case "ok":
					ev = n.reply(r, fmt.Sprintf(`{"number":"0x%x","timestamp":"0x%x"}`, next, next+500))
					do := ev.Do
					ev.Do = func() { next++; served++; do() }
				case "missing":
					ev = n.reply(r, "null")
				case "error":
					ev = n.refuse(r, "busy")
				case "lost":
					ev = n.lose(r)
				case "bad":
					ev = n.reply(r, `{"number":"zz"}`)
				}
				do, a := ev.Do, a
				ev.Do = func() { replies--; history += a + ","; do() }
				evs = append(evs, ev)
			}
		}
		if idle && len(n.open) == 0 && ticks > 0 && !reader.Done && (ic.name != "" || !readOK) {
			evs = append(evs, shim.Event{Name: "1 s passes", Do: func() { ticks--; shim.Advance(time.Second) }})
		}
		return
	})
	if e.cutShort() {
		return
	}
	for i, b := range got {
		if b != ic.from+int64(i) {
			e.Failf("block-order", "from %d: the reader got %v", ic.from, got)
		}
	}
	if ic.late && !readOK {
		e.X.Outcome("reader never started")
		return
	}
	if int64(len(got)) != served-ic.from {
		e.Failf("block-lost", "%d blocks were served from %d on, the reader got %v; %v", served-ic.from, ic.from, got, e.C.Stuck())
	}
	if outClosed && !stopped {
		e.Failf("closed-early", "the channel was closed though the iterator was not stopped")
	}
	if stopped && !outClosed && (ticks > 0 || !strings.Contains(history, "missing") && !strings.Contains(history, "error")) {
		e.Failf("not-closed", "the iterator was stopped but its channel was not closed: %v", e.C.Stuck())
	}
	if !stopped && replies > 0 && ticks > 0 && len(n.open) == 0 {
		e.Failf("stalled", "the iterator stopped asking after %s: %v", history, e.C.Stuck())
	}
	sum := fmt.Sprint(history, got, outClosed)
	e.X.Case(sum, fmt.Sprint(e.C.Steps))
	e.X.State(sum)
}
