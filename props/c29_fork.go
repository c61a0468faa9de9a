package props

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"sync"

	"github.com/ethereum/go-ethereum/common"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"
	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{ID: "C29", Level: "model_checking",
		Rule: "every sequence of StateDB writes (including clearing ones), snapshots and reverts on a fork of a recorded base chain, compared through every read after every step, and in a second pass only at the end " +
			"(so that no read has cached anything); then every sequence of chain operations, seals, copies and views on a fork; a state is the reference content",
		Notes: []string{"the base chain is a stub transport that records every request"},
		Run:   runC29})
}

const forkBlock = 7

// baseChain answers the four state queries from fixed tables.
type baseChain struct {
	mu   sync.Mutex
	bad  string
	acct map[seth.Address]*acctM
}

func (b *baseChain) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
	b.mu.Lock()
	defer b.mu.Unlock()
	res.ID = req.ID
	res.Version = "2.0"
	fail := func(f string, a ...interface{}) error {
		if b.bad == "" {
			b.bad = fmt.Sprintf(f, a...)
		}
		res.Error = seth.RPCError{Code: -1, Message: "bad request"}
		return nil
	}
	var a seth.Address
	if len(req.Params) < 2 || json.Unmarshal(req.Params[0], &a) != nil {
		return fail("%s%s", req.Method, req.Params)
	}
	if string(req.Params[len(req.Params)-1]) != fmt.Sprintf(`"0x%x"`, forkBlock) {
		return fail("%s asked for block %s, the fork is at %d", req.Method, req.Params[len(req.Params)-1], forkBlock)
	}
	w := b.acct[a]
	if w == nil {
		w = &acctM{}
	}
	switch req.Method {
	case "eth_getBalance":
		res.Result = json.RawMessage(fmt.Sprintf(`"0x%x"`, w.balance))
	case "eth_getTransactionCount":
		res.Result = json.RawMessage(fmt.Sprintf(`"0x%x"`, w.nonce))
	case "eth_getCode":
		res.Result = json.RawMessage(fmt.Sprintf(`"0x%x"`, w.code))
	case "eth_getStorageAt":
		var h seth.Hash
		if len(req.Params) != 3 || json.Unmarshal(req.Params[1], &h) != nil {
			return fail("%s%s", req.Method, req.Params)
		}
		v := byte(0)
		for i := range stSlot {
			if common.Hash(h) == stSlot[i] {
				v = w.slots[i]
			}
		}
		res.Result = json.RawMessage(fmt.Sprintf(`"0x%064x"`, v))
	default:
		return fail("%s%s", req.Method, req.Params)
	}
	return nil
}

// the base-chain variants for (account 0, account 1)
func baseVariants() [][2]acctM {
	full := acctM{exists: true, base: true, balance: 0x50000, nonce: 3, code: "\x60\x00", slots: [2]byte{7, 0}, everCode: true, everStore: true}
	user := acctM{exists: true, base: true, balance: 0x123, nonce: 0}
	spent := acctM{exists: true, base: true, balance: 0, nonce: 9}
	old := acctM{exists: true, base: true, code: "\x60\x01\x50", slots: [2]byte{0, 5}, everCode: true, everStore: true}
	none := acctM{}
	return [][2]acctM{{full, none}, {user, old}, {spent, full}, {none, user}}
}

// reload: the fork may be serialised, loaded and attached to the base chain again
func forkBody(ops []stOp, depth int, each bool, reload bool) func(x *mc.X) {
	return func(x *mc.X) {
		vs := baseVariants()
		v := vs[x.Choose(len(vs))]
		base := &baseChain{acct: map[seth.Address]*acctM{}}
		m := new(stateM)
		for i := range v {
			w := v[i]
			base.acct[seth.Address(stAddr[i])] = &w
			m.acct[i] = v[i]
		}
		ch := tevm.NewFork(seth.NewClientTransport(base), forkBlock)
		db := ch.State.StateDB()
		type snap struct {
			id int
			m  *stateM
		}
		var snaps []snap
		seq := 0
		for d := 0; d < depth; d++ {
			var av []int
			for i := range ops {
				if ops[i].ok == nil || ops[i].ok(m) {
					av = append(av, i)
				}
			}
			n := len(av) + 1 + len(snaps)
			if reload {
				n++
			}
			c := x.Choose(n)
			x.Step()
			seq++
			switch {
			case c < len(av):
				x.Logf("%s (%d)", ops[av[c]].name, seq)
				ops[av[c]].do(x, db, m, seq)
			case c == len(av):
				snaps = append(snaps, snap{db.Snapshot(), m.clone()})
				x.Logf("Snapshot() = %d", snaps[len(snaps)-1].id)
			case c == len(av)+1+len(snaps):
				x.Logf("saved and loaded")
				b, err := json.Marshal(ch)
				if err != nil {
					x.Failf("json-marshal", "serialising the fork: %v", err)
				}
				ch2 := new(tevm.Chain)
				if err := json.Unmarshal(b, ch2); err != nil {
					x.Failf("json-unmarshal", "loading the fork: %v", err)
				}
				ch2.State.Fallback.Client = ch.State.Fallback.Client
				ch = ch2
				db = ch.State.StateDB()
			default:
				k := c - len(av) - 1
				x.Logf("RevertToSnapshot(%d)", snaps[k].id)
				db.RevertToSnapshot(snaps[k].id)
				m = snaps[k].m.clone()
				snaps = snaps[:k]
			}
			if each {
				compareState(x, &ch.State, db, m)
			}
		}
		compareState(x, &ch.State, db, m)
		compareState(x, &ch.State, db, m)
		if base.bad != "" {
			x.Failf("fork-base-request", "the base chain received %s", base.bad)
		}
		s := m.String()
		for _, p := range snaps {
			s += "|" + p.m.String()
		}
		x.State(s)
		x.Sample(s)
		x.Validated()
	}
}

func runC29(r *mc.R) {
	all := stOps("all")
	d := r.N(3, 4)
	r.Explore(mc.Opts{Name: "each", Budget: -1, Bound: fmt.Sprintf("4 base chains, %d kinds of write, snapshot, revert; %d operations, read after each", len(all), d)}, forkBody(all, d, true, false))
	r.Explore(mc.Opts{Name: "blind", Budget: -1, Bound: fmt.Sprintf("4 base chains, %d kinds of write, snapshot, revert; %d operations, read at the end only", len(all), d)}, forkBody(all, d, false, false))
	for i, g := range []struct {
		ops string
		d   int
	}{
		{"put00 clr00 put01 clr01", r.N(5, 7)},
		{"add0 sub0 nonce0 kill0", r.N(5, 7)},
		{"code0 uncode0 code1 add1", r.N(5, 7)},
	} {
		o := stOps(g.ops)
		r.Explore(mc.Opts{Name: fmt.Sprintf("deep-%d", i), Budget: -1, Bound: fmt.Sprintf("4 base chains, writes {%s}, snapshot, revert; %d operations, read at the end only", g.ops, g.d)}, forkBody(o, g.d, false, false))
	}
	// chain level: balances through copies, views and the caller's own memory
	depth := r.N(5, 6)
	names := "add0 add1 read send01 seal copy switch view"
	r.Explore(mc.Opts{Name: "chain", Budget: -1, Bound: fmt.Sprintf("{%s}; %d operations, chain and copy", names, depth)}, func(x *mc.X) {
		base := &baseChain{acct: map[seth.Address]*acctM{}}
		base.acct[seth.Address(stAddr[0])] = &acctM{balance: 1000, nonce: 1}
		type cm struct {
			c      *tevm.Chain
			b      [2]int64
			sealed map[int64][2]int64
		}
		cs := []*cm{{tevm.NewFork(seth.NewClientTransport(base), forkBlock), [2]int64{1000, 0}, map[int64][2]int64{}}}
		cur := 0
		check := func(what string, c *tevm.Chain, b [2]int64) {
			for i := range stAddr {
				a := seth.Address(stAddr[i])
				if got := c.BalanceOf(&a); got.Cmp(big.NewInt(b[i])) != 0 {
					x.Failf("fork-balance", "%s: balance of %d is %v, want %d", what, i, got, b[i])
				}
				a = seth.Address{1, 2, 3} // the chain must not have kept a reference
			}
		}
		ops := strings.Fields(names)
		for d := 0; d < depth; d++ {
			o := ops[x.Choose(len(ops))]
			k := cs[cur]
			x.Step()
			x.Logf("chain %d: %s", cur, o)
			a0, a1 := seth.Address(stAddr[0]), seth.Address(stAddr[1])
			switch o {
			case "add0":
				k.c.AddBalance(&a0, big.NewInt(10))
				k.b[0] += 10
			case "add1":
				k.c.AddBalance(&a1, big.NewInt(7))
				k.b[1] += 7
			case "read":
				check("read", k.c, k.b)
			case "send01":
				err := k.c.Send(&a0, &a1, big.NewInt(600))
				if (err == nil) != (k.b[0] >= 600) {
					x.Failf("fork-send", "Send with balance %d: %v", k.b[0], err)
				}
				if err == nil {
					k.b[0] -= 600
					k.b[1] += 600
				}
			case "seal":
				k.sealed[int64(*k.c.State.Pending.Number)] = k.b
				k.c.Seal()
			case "copy":
				if len(cs) == 2 {
					x.Prune()
				}
				n := &cm{k.c.Copy(), k.b, map[int64][2]int64{}}
				for bn, b := range k.sealed {
					n.sealed[bn] = b
				}
				cs = append(cs, n)
			case "switch":
				if len(cs) == 1 {
					x.Prune()
				}
				cur = 1 - cur
			case "view":
				if len(k.sealed) == 0 {
					x.Prune()
				}
				for bn, b := range k.sealed {
					v := k.c.AtBlock(bn)
					if v == nil {
						x.Failf("fork-view", "no view at sealed block %d", bn)
					}
					check("view", v, b)
					v.AddBalance(&a0, big.NewInt(1))
				}
			}
		}
		s := ""
		for i, k := range cs {
			check(fmt.Sprintf("chain %d", i), k.c, k.b)
			for bn, b := range k.sealed {
				v := k.c.AtBlock(bn)
				if v == nil {
					x.Failf("fork-view", "no view at sealed block %d", bn)
				}
				check(fmt.Sprintf("chain %d at block %d", i, bn), v, b)
				s += fmt.Sprint(bn, b)
			}
			s += fmt.Sprint(k.b)
		}
		if base.bad != "" {
			x.Failf("fork-base-request", "the base chain received %s", base.bad)
		}
		x.State(s)
		x.Validated()
	})
}
