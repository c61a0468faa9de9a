package props

import (
	"encoding/json"
	"fmt"

	"github.com/ethereum/go-ethereum/common"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"
	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{ID: "C28", Level: "model_checking",
		Rule: "shapes: every filter over {any address, 2 addresses} x {up to 3 topic positions, each any/1/2} x block ranges against a chain holding every log shape in every block; " +
			"histories: every interleaving of emissions, failed emissions, seals, polls and listings of two filters, installation of a third and uninstallation; a state is the log list with the filters' poll positions",
		Notes: []string{"a tag in place of the first block of a range is only used when the chain holds no earlier log", "polling reports all matching logs not yet reported by a poll of that filter, including those emitted before it was installed"},
		Run:   runC28})
}

type filtM struct {
	from, to int64 // -1: tag
	addr     *seth.Address
	topics   []int // 0: any
	pos      int
	id       seth.Int
	dead     bool
}

func (f *filtM) match(l *logM) bool {
	if f.from >= 0 && l.Block < uint64(f.from) || f.to >= 0 && l.Block > uint64(f.to) {
		return false
	}
	if f.addr != nil && *f.addr != l.Addr {
		return false
	}
	for i, t := range f.topics {
		if t == 0 {
			continue
		}
		if i >= len(l.Topics) || l.Topics[i] != common.BytesToHash(word(uint64(t))) {
			return false
		}
	}
	return true
}

func (f *filtM) req(tags [2]string) map[string]interface{} {
	m := map[string]interface{}{"fromBlock": tags[0], "toBlock": tags[1]}
	if f.from >= 0 {
		m["fromBlock"] = fmt.Sprintf("0x%x", f.from)
	}
	if f.to >= 0 {
		m["toBlock"] = fmt.Sprintf("0x%x", f.to)
	}
	if f.addr != nil {
		m["address"] = *f.addr
	}
	if f.topics != nil {
		var ts []*seth.Hash
		for _, t := range f.topics {
			if t == 0 {
				ts = append(ts, nil)
			} else {
				h := seth.Hash(common.BytesToHash(word(uint64(t))))
				ts = append(ts, &h)
			}
		}
		m["topics"] = ts
	}
	return m
}

func (f *filtM) install(x *mc.X, c *tevm.Chain, tags [2]string) {
	r := f.req(tags)
	if err := rpcDo(c, "eth_newFilter", &f.id, r); err != nil {
		j, _ := json.Marshal(r)
		x.Failf("filter-install", "eth_newFilter(%s): %v", j, err)
	}
}

func (f *filtM) list(x *mc.X, c *tevm.Chain, m *refChain, what string) {
	var got []seth.Log
	if err := rpcDo(c, "eth_getFilterLogs", &got, &f.id); err != nil {
		x.Failf("filter-list", "%s: eth_getFilterLogs: %v", what, err)
	}
	var want []logM
	for i := range m.logs {
		if f.match(&m.logs[i]) {
			want = append(want, m.logs[i])
		}
	}
	compareLogs(x, what+" listing", got, want)
}

func (f *filtM) poll(x *mc.X, c *tevm.Chain, m *refChain, what string) {
	var got []seth.Log
	if err := rpcDo(c, "eth_getFilterChanges", &got, &f.id); err != nil {
		x.Failf("filter-poll", "%s: eth_getFilterChanges: %v", what, err)
	}
	var want []logM
	for i := f.pos; i < len(m.logs); i++ {
		if f.match(&m.logs[i]) {
			want = append(want, m.logs[i])
		}
	}
	f.pos = len(m.logs)
	compareLogs(x, what+" poll", got, want)
}

func topicLists(n int) [][]int {
	out := [][]int{nil, {}}
	level := [][]int{{}}
	for i := 0; i < n; i++ {
		var next [][]int
		for _, l := range level {
			for t := 0; t < 3; t++ {
				next = append(next, append(append([]int{}, l...), t))
			}
		}
		out = append(out, next...)
		level = next
	}
	return out
}

func emit(x *mc.X, c *tevm.Chain, m *refChain, addr seth.Address, data uint64, topics ...int) {
	d := word(data)
	for _, t := range topics {
		d = append(d, word(uint64(t))...)
	}
	a := addr
	mineBoth(x, c, m, mkTx(adA, &a, d, 0, 200000, 0))
}

func runC28(r *mc.R) {
	r.Explore(mc.Opts{Name: "shapes", Budget: -1, Bound: "3 addresses x 41 topic lists x 15 ranges x tags x installed before/after the logs, against 3 blocks each holding every log of 2 addresses x up to 3 topics from {1,2}, plus one of 4 topics"}, func(x *mc.X) {
		c, m := newWorld(worldAccounts)
		b0 := int64(m.pend.Number)
		f := &filtM{}
		switch x.Choose(3) {
		case 1:
			f.addr = &adL
		case 2:
			f.addr = &adM
		}
		tl := topicLists(3)
		f.topics = tl[x.Choose(len(tl))]
		type one struct {
			*filtM
			tags [2]string
			late bool
		}
		var fs []one
		ranges := [][2]int64{{0, -1}, {b0, -1}, {b0 + 1, -1}, {b0 + 2, -1}, {b0 + 3, -1}, {b0, b0}, {b0 + 1, b0 + 1}, {b0 + 2, b0 + 2}, {b0, b0 + 1}, {b0 + 1, b0 + 2}, {b0, b0 + 2}, {b0, b0 + 9}, {0, b0}, {1, b0 - 1}, {b0 + 3, b0 + 9}}
		for _, rg := range ranges {
			for _, end := range []string{"latest", "pending"} {
				for _, late := range []bool{false, true} {
					if rg[1] >= 0 && end == "pending" {
						continue
					}
					g := one{&filtM{from: rg[0], to: rg[1], addr: f.addr, topics: f.topics}, [2]string{"latest", end}, late}
					fs = append(fs, g)
					if !late {
						g.install(x, c, g.tags)
					}
				}
			}
		}
		seq := uint64(0)
		for b := 0; b < 3; b++ {
			for _, a := range []seth.Address{adL, adM} {
				level := [][]int{{}}
				for n := 0; n < 4; n++ {
					var next [][]int
					for _, l := range level {
						seq++
						emit(x, c, m, a, seq, l...)
						if n < 3 {
							next = append(next, append(append([]int{}, l...), 1), append(append([]int{}, l...), 2))
						}
					}
					level = next
				}
			}
			seq++
			emit(x, c, m, adL, seq, 1, 2, 1, 2)
			if b < 2 {
				sealBoth(x, c, m)
			}
		}
		x.Step()
		for _, f := range fs {
			if f.late {
				f.install(x, c, f.tags)
			}
		}
		for _, f := range fs {
			what := fmt.Sprintf("filter addr=%v topics=%v range=[%d,%d] installed late=%v", f.addr, f.topics, f.from, f.to, f.late)
			f.list(x, c, m, what)
			f.poll(x, c, m, what)
			f.poll(x, c, m, what+" again")
			f.list(x, c, m, what+" again")
			n := 0
			for i := range m.logs {
				if f.match(&m.logs[i]) {
					n++
				}
			}
			x.State(what, f.tags[1])
			x.Outcome(fmt.Sprintf("%d matching logs", n/10*10))
			x.Sample(what)
		}
		x.Validated()
	})

	shapes := []func(b0 int64) *filtM{
		func(b0 int64) *filtM { return &filtM{from: -1, to: -1} },
		func(b0 int64) *filtM { return &filtM{from: -1, to: -1, addr: &adL, topics: []int{1}} },
		func(b0 int64) *filtM { return &filtM{from: b0, to: b0, topics: []int{0, 2}} },
		func(b0 int64) *filtM { return &filtM{from: b0 + 1, to: -1, addr: &adM} },
	}
	depth := r.N(3, 4)
	r.Explore(mc.Opts{Name: "histories", Budget: -1, Bound: fmt.Sprintf("pairs of 4 filters; %d steps over {4 emissions, failed emission, seal, poll/list each filter, install third, uninstall}", depth)}, func(x *mc.X) {
		c, m := newWorld(worldAccounts)
		b0 := int64(m.pend.Number)
		fs := []*filtM{shapes[x.Choose(4)](b0), shapes[x.Choose(4)](b0)}
		for _, f := range fs {
			f.install(x, c, [2]string{"latest", "latest"})
		}
		seq := uint64(0)
		for d := 0; d < depth; d++ {
			n := 6 + 2*len(fs)
			if len(fs) < 3 {
				n++
			}
			k := x.Choose(n + 1)
			x.Step()
			seq++
			switch {
			case k == 0:
				emit(x, c, m, adL, seq, 1)
			case k == 1:
				emit(x, c, m, adL, seq, 1, 2)
			case k == 2:
				emit(x, c, m, adM, seq, 2, 2)
			case k == 3:
				emit(x, c, m, adM, seq)
			case k == 4:
				emit(x, c, m, adL, 0xbad, 1) // reverts: no log
			case k == 5:
				sealBoth(x, c, m)
			case k < 6+2*len(fs):
				f := fs[(k-6)/2]
				if f.dead {
					var out []seth.Log
					if rpcDo(c, "eth_getFilterChanges", &out, &f.id) == nil || rpcDo(c, "eth_getFilterLogs", &out, &f.id) == nil {
						x.Failf("filter-dead", "an uninstalled filter still answers")
					}
				} else if (k-6)%2 == 0 {
					x.Logf("poll filter %d", (k-6)/2)
					f.poll(x, c, m, fmt.Sprintf("filter %d", (k-6)/2))
				} else {
					x.Logf("list filter %d", (k-6)/2)
					f.list(x, c, m, fmt.Sprintf("filter %d", (k-6)/2))
				}
			case k == n && !fs[0].dead:
				x.Logf("uninstall filter 0")
				var ok bool
				if err := rpcDo(c, "eth_uninstallFilter", &ok, &fs[0].id); err != nil || !ok {
					x.Failf("filter-uninstall", "uninstalling: %v %v", ok, err)
				}
				if err := rpcDo(c, "eth_uninstallFilter", &ok, &fs[0].id); err != nil || ok {
					x.Failf("filter-uninstall", "uninstalling twice: %v %v", ok, err)
				}
				fs[0].dead = true
			case k == n:
				x.Prune()
			default:
				x.Logf("install a third filter")
				f := &filtM{from: 0, to: -1, topics: []int{0}}
				f.install(x, c, [2]string{"latest", "pending"})
				for _, o := range fs {
					if o.id.Cmp(&f.id) == 0 {
						x.Failf("filter-id", "two filters share id %v", f.id.Big())
					}
				}
				fs = append(fs, f)
			}
		}
		s := fmt.Sprint(len(m.logs), m.pend.Number)
		for i, f := range fs {
			if !f.dead {
				f.list(x, c, m, fmt.Sprintf("finally filter %d", i))
				f.poll(x, c, m, fmt.Sprintf("finally filter %d", i))
			}
			s += fmt.Sprint(f.from, f.to, f.topics, f.pos, f.dead)
		}
		compareLogs(x, "all logs", c.Logs(), m.logs)
		x.State(s)
		x.Validated()
	})
	depth = r.N(5, 7)
	r.Explore(mc.Opts{Name: "deep", Budget: -1, Bound: fmt.Sprintf("each of 4 filters next to an observer; %d steps over {2 emissions, seal, poll, list, poll the observer}", depth)}, func(x *mc.X) {
		c, m := newWorld(worldAccounts)
		b0 := int64(m.pend.Number)
		f, o := shapes[x.Choose(4)](b0), &filtM{from: 0, to: -1}
		f.install(x, c, [2]string{"latest", "latest"})
		o.install(x, c, [2]string{"latest", "pending"})
		for d := 0; d < depth; d++ {
			x.Step()
			switch x.Choose(6) {
			case 0:
				emit(x, c, m, adL, uint64(d), 1, 2)
			case 1:
				emit(x, c, m, adM, uint64(d), 2, 2)
			case 2:
				sealBoth(x, c, m)
			case 3:
				x.Logf("poll")
				f.poll(x, c, m, "filter")
			case 4:
				x.Logf("list")
				f.list(x, c, m, "filter")
			case 5:
				x.Logf("poll the observer")
				o.poll(x, c, m, "observer")
			}
		}
		f.list(x, c, m, "finally filter")
		f.poll(x, c, m, "finally filter")
		o.list(x, c, m, "finally observer")
		o.poll(x, c, m, "finally observer")
		x.State(fmt.Sprint(len(m.logs), m.pend.Number, f.from, f.to, f.topics, f.pos, o.pos))
		x.Validated()
	})
	depth = r.N(5, 6)
	r.Explore(mc.Opts{Name: "lifetimes", Budget: -1, Bound: fmt.Sprintf("%d steps over {install (one of 2 filters), uninstall each one ever installed, poll each one, emission}, every id given out asked for after each step, and ids never given out", depth)}, func(x *mc.X) {
		c, m := newWorld(worldAccounts)
		var fs []*filtM
		hist := ""
		for d := 0; d < depth; d++ {
			x.Step()
			k := x.Choose(3 + 2*len(fs))
			switch {
			case k == 0:
				emit(x, c, m, adL, uint64(d), 1)
				hist += "emit "
			case k < 3:
				f := &filtM{from: 0, to: -1}
				if k == 2 {
					f.topics = []int{1}
				}
				f.install(x, c, [2]string{"latest", "latest"})
				for _, o := range fs {
					if o.id.Cmp(&f.id) == 0 {
						x.Failf("filter-id", "%s: a new filter has the id %v of an earlier one (removed: %v)", hist, f.id.Big(), o.dead)
					}
				}
				fs = append(fs, f)
				hist += fmt.Sprintf("install(%d)=%v ", k, f.id.Big())
			case k < 3+len(fs):
				f := fs[k-3]
				var ok bool
				hist += fmt.Sprintf("uninstall(%v) ", f.id.Big())
				if err := rpcDo(c, "eth_uninstallFilter", &ok, &f.id); err != nil || ok == f.dead {
					x.Failf("filter-uninstall", "%s: %v %v", hist, ok, err)
				}
				f.dead = true
			default:
				f := fs[k-3-len(fs)]
				if f.dead {
					x.Prune()
				}
				hist += fmt.Sprintf("poll(%v) ", f.id.Big())
				f.poll(x, c, m, hist)
			}
			for _, f := range fs {
				if !f.dead {
					f.list(x, c, m, hist)
					continue
				}
				var out []seth.Log
				if rpcDo(c, "eth_getFilterChanges", &out, &f.id) == nil || rpcDo(c, "eth_getFilterLogs", &out, &f.id) == nil {
					x.Failf("filter-dead", "%s: the removed filter %v answers", hist, f.id.Big())
				}
			}
		}
	unknown:
		for _, id := range []int64{0, 1, 2, 77, 1 << 40} {
			n := seth.NewInt(id)
			for _, f := range fs {
				if f.id.Cmp(n) == 0 {
					continue unknown
				}
			}
			var out []seth.Log
			var ok bool
			if rpcDo(c, "eth_getFilterChanges", &out, n) == nil || rpcDo(c, "eth_getFilterLogs", &out, n) == nil || rpcDo(c, "eth_uninstallFilter", &ok, n) == nil && ok {
				x.Failf("filter-unknown", "%s: filter %d, which was never installed, answers", hist, id)
			}
		}
		for _, f := range fs {
			if !f.dead {
				f.poll(x, c, m, hist+"finally")
			}
		}
		s := fmt.Sprint(len(m.logs))
		for _, f := range fs {
			s += fmt.Sprint(f.topics, f.pos, f.dead)
		}
		x.State("lifetimes", s)
		x.Validated()
	})
}
