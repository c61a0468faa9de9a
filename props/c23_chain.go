package props

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"
	"verif.local/mc/mc"
)

func init() {
	note := "reference: go-ethereum's EVM over a state of plain maps, history by deep copy; block timestamps and miner fields are not compared"
	mc.Register(&mc.Prop{ID: "C23", Level: "model_checking", Notes: []string{note},
		Rule: "every sequence of transactions, seals, taking a historical view and executing on a held view, up to a depth; after the sequence (and in a second pass after every step) the chain, " +
			"the view at every sealed block and every held view are compared with the reference; a state is the reference content of all of them",
		Run: runC23})
	mc.Register(&mc.Prop{ID: "C24", Level: "model_checking", Notes: []string{note},
		Rule: "every sequence of transactions, seals and copies over up to three chains; all of them compared with their references in every observable; a state is the reference content of all chains",
		Run:  runC24})
	mc.Register(&mc.Prop{ID: "C25", Level: "model_checking", Notes: []string{note, "a negative amount cannot be transferred", "self-destruct in favour of the contract itself burns its balance, as the protocol defines"},
		Rule: "every sequence of value-moving transactions up to a depth; the sum over all accounts is compared with the initial sum after every step and every balance with the reference",
		Run:  runC25})
	mc.Register(&mc.Prop{ID: "C27", Level: "model_checking", Notes: []string{note},
		Rule: "every sequence of mining (success, revert, invalid, creation, logs, reused transaction value) and sealing up to a depth, every transaction, receipt and block fetched and compared field by field",
		Run:  runC27})
	mc.Register(&mc.Prop{ID: "C30", Level: "model_checking", Notes: []string{note, "filters are not expected to survive serialisation"},
		Rule: "every short history, then serialisation, then every short continuation applied to the loaded chain (and to the original), everything compared with the reference",
		Run:  runC30})
}

type inst struct {
	c    *tevm.Chain
	m    *refChain
	w    *world
	what string
	view bool
}

func totalEther(c *tevm.Chain) *big.Int {
	sum := new(big.Int)
	c.State.Accounts.Iterate(func(k, v []byte) bool {
		var a tevm.Account
		copy(a[:], v)
		b := a.Balance()
		sum.Add(sum, b.Big())
		return true
	})
	return sum
}

type chainCfg struct {
	ops      []chainOp
	viewOps  []chainOp // applied to held views
	depth    int
	views    int // how many views may be held
	copies   int // how many copies may be made
	loads    int // how many times the chain may be replaced by its serialisation
	eachStep bool
	sealed   int  // blocks sealed beforehand
	pend     int  // up to so many transactions are pending beforehand
	fork     bool // a fork, the accounts are those of the base chain
}

func reload(x *mc.X, c *tevm.Chain) *tevm.Chain {
	b, err := json.Marshal(c)
	if err != nil {
		x.Failf("json-marshal", "serialising the chain: %v", err)
	}
	n := new(tevm.Chain)
	if err := json.Unmarshal(b, n); err != nil {
		x.Failf("json-unmarshal", "loading the chain: %v", err)
	}
	if c.State.Fallback.Client != nil {
		n.State.Fallback.Client, n.State.Fallback.Block = c.State.Fallback.Client, c.State.Fallback.Block
	}
	return n
}

func chainBody(cfg chainCfg) func(x *mc.X) {
	return func(x *mc.X) {
		mk := newWorld
		if cfg.fork {
			mk = newForkWorld
		}
		c, m := mk(worldAccounts)
		ins := []*inst{{c: c, m: m, w: &world{}, what: "chain"}}
		for i := 0; i < cfg.sealed; i++ {
			ins[0].w.seq++
			chainOps["store"](x, c, m, ins[0].w)
			chainOps["transfer"](x, c, m, ins[0].w)
			sealBoth(x, c, m)
		}
		if cfg.pend > 0 {
			for n := x.Choose(cfg.pend + 1); n > 0; n-- {
				ins[0].w.seq++
				chainOps["log"](x, c, m, ins[0].w)
			}
		}
		checkAll := func() {
			for _, in := range ins {
				compareChain(x, in.what, in.c, in.m, in.w.extra...)
				compareHistory(x, in.what, in.c, in.m, in.w.extra...)
			}
		}
		loads, views, copies := 0, 0, 0
		for d := 0; d < cfg.depth; d++ {
			type choice struct {
				in   *inst
				op   *chainOp
				kind int
				arg  uint64
			}
			var cs []choice
			for _, in := range ins {
				ops := cfg.ops
				if in.view {
					ops = cfg.viewOps
				}
				for i := range ops {
					cs = append(cs, choice{in: in, op: &ops[i]})
				}
				if !in.view && views < cfg.views {
					for n := m.pend.Number; n > 0; n-- {
						if _, ok := in.m.sealed[n-1]; !ok {
							break
						}
						cs = append(cs, choice{in: in, kind: 1, arg: n - 1})
					}
				}
				if copies < cfg.copies {
					cs = append(cs, choice{in: in, kind: 2})
				}
				if loads < cfg.loads {
					cs = append(cs, choice{in: in, kind: 3}, choice{in: in, kind: 4})
				}
			}
			ch := cs[x.Choose(len(cs))]
			x.Step()
			in := ch.in
			in.w.seq++
			switch ch.kind {
			case 0:
				x.Logf("%s: %s", in.what, ch.op.name)
				ch.op.do(x, in.c, in.m, in.w)
			case 1:
				views++
				x.Logf("%s: hold view at block %d", in.what, ch.arg)
				v := in.c.AtBlock(int64(ch.arg))
				if v == nil {
					x.Failf("view-missing", "no view at sealed block %d", ch.arg)
				}
				ins = append(ins, &inst{c: v, m: in.m.sealed[ch.arg].clone(), w: &world{seq: 100 * len(ins), extra: append([]seth.Address(nil), in.w.extra...)}, what: fmt.Sprintf("view%d@%d", len(ins), ch.arg), view: true})
				// a view at block n is the chain whose pending block is block n
				nv := ins[len(ins)-1]
				nv.m.view = true
				for k := range nv.m.sealed {
					if k >= ch.arg {
						delete(nv.m.sealed, k)
					}
				}
			case 2:
				copies++
				x.Logf("copy %d of %s", len(ins), in.what)
				ins = append(ins, &inst{c: in.c.Copy(), m: in.m.clone(), w: &world{seq: 100 * len(ins), extra: append([]seth.Address(nil), in.w.extra...)}, what: fmt.Sprintf("copy%d", len(ins)), view: in.view})
			case 3:
				loads++
				x.Logf("%s: replaced by its serialisation", in.what)
				in.c = reload(x, in.c)
			case 4:
				loads++
				x.Logf("%s: serialised, both kept", in.what)
				ins = append(ins, &inst{c: reload(x, in.c), m: in.m.clone(), w: &world{seq: 100 * len(ins), extra: append([]seth.Address(nil), in.w.extra...)}, what: fmt.Sprintf("loaded%d", len(ins)), view: in.view})
			}
			if cfg.eachStep {
				checkAll()
			}
		}
		checkAll()
		s := ""
		for _, in := range ins {
			s += in.what + in.m.String() + "|"
		}
		x.State(s)
		x.Validated()
		if len(ins) > 1 {
			x.Sample(s)
		}
	}
}

func exploreChain(r *mc.R, name string, cfg chainCfg, maxDepth int) {
	var names []string
	for _, o := range cfg.ops {
		names = append(names, o.name)
	}
	bound := fmt.Sprintf("operations {%s}, held views<=%d, copies<=%d, reloads<=%d, %d blocks beforehand, up to %d transactions pending", strings.Join(names, " "), cfg.views, cfg.copies, cfg.loads, cfg.sealed, cfg.pend)
	if cfg.fork {
		bound = "on a fork: " + bound
	}
	if cfg.eachStep {
		cfg.depth = maxDepth
		r.Explore(mc.Opts{Name: name, Budget: -1, Bound: fmt.Sprintf("%s; %d steps, compared after every step", bound, maxDepth)}, chainBody(cfg))
		return
	}
	for d := 1; d <= maxDepth; d++ {
		cfg.depth = d
		r.Explore(mc.Opts{Name: fmt.Sprintf("%s-%d", name, d), Budget: -1, Bound: fmt.Sprintf("%s; %d steps, compared at the end", bound, d)}, chainBody(cfg))
	}
}

func runC23(r *mc.R) {
	vops := pickOps("transfer store log seal")
	exploreChain(r, "views", chainCfg{ops: pickOps("transfer store log seal"), viewOps: vops, views: 2, sealed: 1}, r.N(4, 5))
	exploreChain(r, "views-step", chainCfg{ops: pickOps("store seal"), viewOps: vops, views: 2, sealed: 2, eachStep: true}, r.N(3, 5))
	exploreChain(r, "history", chainCfg{ops: pickOps("transfer store clear log log-revert create kill addbal rpc-send seal")}, r.N(4, 5))
	exploreChain(r, "forks", chainCfg{ops: pickOps("transfer-all addbal store clear kill create seal"), viewOps: pickOps("transfer store"), views: 1, fork: true}, r.N(4, 5))
	exploreChain(r, "tags", chainCfg{ops: pickOps("transfer seal"), viewOps: pickOps("transfer store seal"), views: 1, copies: 1, sealed: 1}, r.N(4, 5))
}

func runC24(r *mc.R) {
	exploreChain(r, "copies", chainCfg{ops: pickOps("transfer store log seal"), copies: 2}, r.N(4, 5))
	exploreChain(r, "copies-later", chainCfg{ops: pickOps("store create seal send"), copies: 2, sealed: 1}, r.N(4, 5))
	exploreChain(r, "copies-step", chainCfg{ops: pickOps("log seal reuse"), copies: 2, eachStep: true}, r.N(4, 5))
	exploreChain(r, "copies-pending", chainCfg{ops: pickOps("transfer log seal"), copies: 2, pend: 5}, r.N(3, 4))
	exploreChain(r, "copies-forks", chainCfg{ops: pickOps("transfer-all store clear kill seal"), copies: 2, fork: true}, r.N(4, 5))
	exploreChain(r, "copies-undone", chainCfg{ops: pickOps("emit addbal state-snapshot state-revert log"), copies: 1}, r.N(5, 6))
}

func runC27(r *mc.R) {
	exploreChain(r, "mine", chainCfg{ops: pickOps("transfer-too-much log log-revert revert create create-fail rpc-send reuse seal")}, r.N(4, 5))
	exploreChain(r, "mine-forks", chainCfg{ops: pickOps("transfer-too-much transfer-all log revert create rpc-send seal"), fork: true}, r.N(4, 5))
	exploreChain(r, "mine-step", chainCfg{ops: pickOps("log reuse create revert seal"), eachStep: true}, r.N(5, 6))
	// long chains and long blocks: every transaction keeps its own name
	shapes := [][2]int{{r.N(600, 5000), 3}, {r.N(3, 4), r.N(600, 5000)}, {r.N(40, 70), r.N(40, 300)}}
	r.Explore(mc.Opts{Name: "long", Budget: -1, Bound: fmt.Sprintf("chains of (blocks, transactions in each) %v: every transaction and block has a hash of its own, and each is found under it with its receipt, block, number and index", shapes)}, func(x *mc.X) {
		sh := shapes[x.Choose(len(shapes))]
		c := tevm.NewChain()
		a := c.NewAccount(100)
		to := c.NewAccount(1)
		cl := c.Client()
		type rec struct {
			blk, idx int
			gas      uint64
		}
		seen := map[seth.Hash]rec{}
		var first uint64
		for b := 0; b < sh[0]; b++ {
			for i := 0; i < sh[1]; i++ {
				x.Step()
				gas := uint64(100000 + len(seen))
				_, h, err := c.Mine(&seth.Transaction{From: &a, To: &to, Gas: seth.Uint64(gas)})
				if err != nil {
					x.Failf("long-mine", "block %d transaction %d: %v", b, i, err)
				}
				if o, ok := seen[h]; ok {
					x.Failf("long-hash", "transaction %d of block %d has the hash of transaction %d of block %d: %s", i, b, o.idx, o.blk, h.String())
				}
				seen[h] = rec{b, i, gas}
			}
			if b == 0 {
				n, err := cl.BlockNumber()
				if err != nil {
					x.Failf("long-number", "%v", err)
				}
				first = uint64(n)
			}
			c.Seal()
		}
		blocks := map[seth.Hash]int{}
		for h, want := range seen {
			h := h
			x.Step()
			tx, err := cl.GetTransaction(&h)
			if err != nil || tx == nil {
				x.Failf("long-transaction", "transaction %d of block %d: %v %v", want.idx, want.blk, tx, err)
			}
			if uint64(tx.Gas) != want.gas || tx.Hash != h || uint64(tx.BlockNumber) != first+uint64(want.blk) || tx.TxIndex == nil || int(*tx.TxIndex) != want.idx {
				x.Failf("long-transaction", "transaction %d of block %d (gas %d) is recorded as %v", want.idx, want.blk, want.gas, tx)
			}
			rx, err := cl.GetReceipt(&h)
			if err != nil || rx == nil {
				x.Failf("long-receipt", "transaction %d of block %d: %v %v", want.idx, want.blk, rx, err)
			}
			if rx.Hash != h || int(rx.Index) != want.idx || uint64(rx.BlockNumber) != first+uint64(want.blk) || rx.BlockHash != tx.Block {
				x.Failf("long-receipt", "transaction %d of block %d has the receipt %v", want.idx, want.blk, rx)
			}
			if o, ok := blocks[tx.Block]; ok && o != want.blk {
				x.Failf("long-block-hash", "blocks %d and %d have the hash %s", o, want.blk, tx.Block.String())
			}
			blocks[tx.Block] = want.blk
		}
		if len(blocks) != sh[0] {
			x.Failf("long-block-hash", "%d blocks have %d hashes", sh[0], len(blocks))
		}
		x.Case(fmt.Sprint(sh))
		x.Validated()
	})
}

func runC30(r *mc.R) {
	exploreChain(r, "serialise", chainCfg{ops: pickOps("transfer store log create kill seal"), loads: 1}, r.N(4, 5))
	exploreChain(r, "serialise-forks", chainCfg{ops: pickOps("transfer-all store clear log kill seal"), loads: 2, fork: true}, r.N(4, 5))
	exploreChain(r, "serialise-later", chainCfg{ops: pickOps("store clear log-revert seal"), loads: 2, sealed: 2}, r.N(3, 4))
	all := stOps("all")
	fd := r.N(3, 4)
	r.Explore(mc.Opts{Name: "forks", Budget: -1, Bound: fmt.Sprintf("forks of 4 base chains; %d kinds of write, snapshot, revert, saving and loading and attaching to the base chain again; %d operations, read at the end", len(all), fd)}, forkBody(all, fd, false, true))
	for i, ops := range []string{"put00 clr00 put01 clr01", "code0 uncode0 kill0 add0"} {
		o := stOps(ops)
		r.Explore(mc.Opts{Name: fmt.Sprintf("forks-deep-%d", i), Budget: -1, Bound: fmt.Sprintf("the same with writes {%s}; %d operations", ops, fd+1)}, forkBody(o, fd+1, false, true))
	}
	r.Explore(mc.Opts{Name: "loaded-over", Budget: -1, Bound: "2 chains, each after one of 4 histories and with any of {no filter, a fresh one, a polled one} installed, the one loaded over the other, then one of 4 continuations"}, func(x *mc.X) {
		hist := []string{"", "log", "log seal log", "store log log seal"}
		type side struct {
			c *tevm.Chain
			m *refChain
			w *world
			f []*filtM
		}
		mk := func(what string) *side {
			c, m := newWorld(worldAccounts)
			s := &side{c: c, m: m, w: &world{}}
			run := func(o string) {
				for _, op := range pickOps(o) {
					s.w.seq++
					x.Step()
					op.do(x, c, m, s.w)
				}
			}
			h := hist[x.Choose(len(hist))]
			x.Logf("%s: %s", what, h)
			run(h)
			for n := x.Choose(3); n > 0; n-- {
				f := &filtM{from: 0, to: -1}
				x.Logf("%s: filter %d", what, len(s.f))
				f.install(x, c, [2]string{"latest", "latest"})
				if n == 2 {
					f.poll(x, c, m, what)
				}
				s.f = append(s.f, f)
			}
			return s
		}
		src, dst := mk("source"), mk("destination")
		b, err := json.Marshal(src.c)
		if err != nil {
			x.Failf("json-marshal", "serialising the chain: %v", err)
		}
		if err := json.Unmarshal(b, dst.c); err != nil {
			x.Failf("json-unmarshal", "loading the chain: %v", err)
		}
		w := &world{seq: 1000}
		m := src.m.clone()
		for _, op := range pickOps(hist[x.Choose(len(hist))]) {
			w.seq++
			x.Step()
			op.do(x, dst.c, m, w)
		}
		compareChain(x, "loaded", dst.c, m, w.extra...)
		compareHistory(x, "loaded", dst.c, m, w.extra...)
		compareChain(x, "source", src.c, src.m, src.w.extra...)
		// the filters on the chain that was replaced are unknown to the one that replaced it, or report its logs
		for i, f := range dst.f {
			var got []seth.Log
			if err := rpcDo(dst.c, "eth_getFilterChanges", &got, &f.id); err == nil {
				compareLogsWithin(x, fmt.Sprintf("filter %d of the replaced chain", i), got, m.logs)
			}
			if err := rpcDo(dst.c, "eth_getFilterLogs", &got, &f.id); err == nil {
				compareLogsWithin(x, fmt.Sprintf("filter %d of the replaced chain", i), got, m.logs)
			}
		}
		// a new filter works
		f := &filtM{from: 0, to: -1}
		f.install(x, dst.c, [2]string{"latest", "latest"})
		f.list(x, dst.c, m, "new filter")
		f.poll(x, dst.c, m, "new filter")
		w.seq++
		chainOps["log"](x, dst.c, m, w)
		f.poll(x, dst.c, m, "new filter")
		x.State(m.String() + fmt.Sprint(len(src.f), len(dst.f)))
		x.Validated()
	})
	exploreChain(r, "serialise-copies", chainCfg{ops: pickOps("store seal"), viewOps: pickOps("store seal"), loads: 1, copies: 1, views: 1, sealed: 1}, r.N(4, 5))
}

func runC25(r *mc.R) {
	names := "transfer transfer-new transfer-self transfer-too-much transfer-all create create-fail fund-future kill kill-new kill-self forward forward-self forward-fail forward-revert forward-kill factory revert send transfer-negative create-negative rpc-negative"
	ops := pickOps(names)
	// on a fork the chain holds but a part of the accounts: add up all that there are
	totalFork := func(c *tevm.Chain, w *world) *big.Int {
		sum := new(big.Int)
		var zero seth.Address
		for _, g := range append(append([]genesis{{addr: adN}, {addr: zero}}, worldAccounts...), worldExtra(w)...) {
			sum.Add(sum, c.BalanceOf(&g.addr))
		}
		return sum
	}
	body := func(depth int, fork bool, ops []chainOp) func(x *mc.X) {
		return func(x *mc.X) {
			c, m := newWorld(worldAccounts)
			w := &world{}
			total := func() *big.Int { return totalEther(c) }
			if fork {
				c, m = newForkWorld(worldAccounts)
				total = func() *big.Int { return totalFork(c, w) }
			}
			want := total()
			for d := 0; d < depth; d++ {
				o := ops[x.Choose(len(ops))]
				x.Step()
				x.Logf("%s", o.name)
				w.seq++
				burn := new(big.Int)
				if o.name == "kill-self" && len(m.st.GetCode([20]byte(adK))) > 0 {
					burn = c.BalanceOf(&adK)
				}
				o.do(x, c, m, w)
				want.Sub(want, burn)
				if got := total(); got.Cmp(want) != 0 {
					x.Failf("ether-total", "after %s the total is %v wei, want %v", o.name, got, want)
				}
				compareAccounts(x, "after "+o.name, c, m, w.extra...)
			}
			x.State(m.String())
			x.Validated()
			x.Sample(m.String())
		}
	}
	d := r.N(3, 4)
	r.Explore(mc.Opts{Name: "value", Budget: -1, Bound: fmt.Sprintf("{%s}; %d transactions, compared after every one", names, d)}, body(d, false, ops))
	few := "transfer transfer-new transfer-self transfer-all create fund-future kill kill-new forward forward-revert factory send"
	r.Explore(mc.Opts{Name: "value-forks", Budget: -1, Bound: fmt.Sprintf("on a fork: {%s}; %d transactions, compared after every one", few, d)}, body(d, true, pickOps(few)))
	// direct transfers of every amount around the balance, between every pair
	r.Explore(mc.Opts{Name: "amounts", Budget: -1, Bound: "Send and Mine of every amount in {0,1,balance-1,balance,balance+1,2^64,2^255,-5} between every ordered pair of 4 accounts, twice, on a fresh chain and on a fork"}, func(x *mc.X) {
		c, m := newWorld(worldAccounts)
		total := func() *big.Int { return totalEther(c) }
		if x.Bool() {
			c, m = newForkWorld(worldAccounts)
			total = func() *big.Int { return totalFork(c, &world{}) }
		}
		want := total()
		as := []seth.Address{adA, adB, adN, adK}
		for k := 0; k < 2; k++ {
			f, t := as[x.Choose(4)], as[x.Choose(4)]
			bal := c.BalanceOf(&f)
			v := []*big.Int{big.NewInt(0), big.NewInt(1), new(big.Int).Sub(bal, big.NewInt(1)), bal, new(big.Int).Add(bal, big.NewInt(1)), new(big.Int).Lsh(big.NewInt(1), 64), new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(-5)}[x.Choose(8)]
			x.Step()
			if x.Bool() {
				x.Logf("Send(%s,%s,%v)", f.String(), t.String(), v)
				err := c.Send(&f, &t, v)
				_, _, _, _, werr := m.exec(f, &t, nil, 6000000, v)
				callErr(x, "Send", err, werr)
			} else {
				tx := mkTx(f, &t, nil, 0, 100000, 0)
				tx.Value = seth.Int(*new(big.Int).Set(v))
				x.Logf("Mine(%s,%s,%v)", f.String(), t.String(), v)
				mineBoth(x, c, m, tx)
			}
			if got := total(); got.Cmp(want) != 0 {
				x.Failf("ether-total", "the total is %v wei, want %v", got, want)
			}
			compareAccounts(x, "transfer", c, m)
		}
		x.State(m.String())
		x.Validated()
	})
	// what happens within one transaction
	steps := r.N(3, 4)
	r.Explore(mc.Opts{Name: "within", Budget: -1, Bound: fmt.Sprintf("one transaction that makes %d calls of {destroy to another, a new one, itself, by way of a contract; pay what was or will be destroyed, a new account, more than there is; create; fail; destroy and undo} one after the other, then payments to and a call of what was destroyed; on a fresh chain and on a fork", steps)}, func(x *mc.X) {
		acc := append(append([]genesis{}, worldAccounts...), genesis{adT, 20, codeScript(steps)}, genesis{adV, 0, codeCallRevert})
		mk, fork := newWorld, x.Bool()
		if fork {
			mk = newForkWorld
		}
		c, m := mk(acc)
		w := &world{}
		var zero seth.Address
		extra := []seth.Address{zero, adT, adV}
		for i := uint64(0); i < uint64(steps); i++ {
			extra = append(extra, createAddr(adC, 1+i))
		}
		w.extra = extra[1:] // the zero address is counted anyway
		total := func() *big.Int {
			if fork {
				return totalFork(c, w)
			}
			return totalEther(c)
		}
		ref := func() *big.Int {
			sum := new(big.Int)
			for _, v := range m.st.accts {
				sum.Add(sum, v.bal)
			}
			return sum
		}
		items := []struct {
			what string
			to   seth.Address
			val  uint64
			arg  seth.Address
			kill bool
		}{
			{"destroy K to B", adK, 0, adB, true},
			{"destroy K to a new account", adK, 0, adN, true},
			{"destroy K to itself", adK, 0, adK, true},
			{"destroy K to the caller, with 3", adK, 3, adT, true},
			{"pay a new account", adN, 5, zero, false},
			{"pay B too much", adB, 5000, zero, false},
			{"destroy K by way of F, with 2", adF, 2, adK, true},
			{"pay K by way of a call that fails", adG, 2, adK, false},
			{"create with 4", adC, 4, zero, false},
			{"fail, with 2", adR, 2, zero, false},
			{"destroy K to B and undo it", adV, 0, adB, false},
		}
		var data []byte
		hist, kill := "", false
		for i := 0; i < steps; i++ {
			k := x.Choose(len(items) + 1)
			if k == len(items) {
				break
			}
			it := items[k]
			data = append(data, cat(awordb(it.to), word(it.val), awordb(it.arg))...)
			hist += it.what + "; "
			kill = kill || it.kill
		}
		before := total()
		check := func(what string, burns bool) {
			x.Step()
			compareAccounts(x, what, c, m, extra...)
			got := total()
			if got.Cmp(ref()) != 0 || got.Cmp(before) > 0 || !burns && got.Cmp(before) != 0 {
				x.Failf("ether-total", "%s: the total is %v wei, was %v, want %v", what, got, before, ref())
			}
			before = got
		}
		what := fmt.Sprintf("fork=%v, in one transaction: %s", fork, hist)
		mineBoth(x, c, m, mkTx(adA, &adT, data, 10, 1000000, 0))
		check(what, kill)
		mineBoth(x, c, m, mkTx(adA, &adK, awordb(adB), 1, 100000, 1))
		check(what+"then K called with 1", false)
		mineBoth(x, c, m, mkTx(adB, &adN, nil, 1, 100000, 2))
		check(what+"then N paid", false)
		x.State("within", m.String())
		x.Validated()
		x.Sample(what)
	})
	r.Explore(mc.Opts{Name: "new-accounts", Budget: -1, Bound: "NewAccount of {0,1,9,10,18,19,1000,2^31,2^40} ether, twice, on a fresh chain and on a fork, and a transfer between the two"}, func(x *mc.X) {
		c := tevm.NewChain()
		if x.Bool() {
			c, _ = newForkWorld(worldAccounts)
		}
		sizes := []int{0, 1, 9, 10, 18, 19, 1000, 1 << 31, 1 << 40}
		wei := big.NewInt(1e18)
		var as [2]seth.Address
		var bal [2]*big.Int
		for i := range as {
			n := sizes[x.Choose(len(sizes))]
			as[i] = c.NewAccount(n)
			bal[i] = new(big.Int).Mul(big.NewInt(int64(n)), wei)
			x.Step()
		}
		if as[0] == as[1] {
			x.Failf("new-account", "two new accounts have the address %s", as[0].String())
		}
		for i := 0; i < 2; i++ {
			for j := range as {
				if got := c.BalanceOf(&as[j]); got.Cmp(bal[j]) != 0 {
					x.Failf("new-account", "the balance of account %d is %v wei, want %v", j, got, bal[j])
				}
			}
			v := new(big.Int).Set(bal[0])
			if err := c.Send(&as[0], &as[1], v); err != nil {
				x.Failf("new-account", "sending all of %v: %v", bal[0], err)
			}
			bal[1].Add(bal[1], bal[0])
			bal[0] = new(big.Int)
		}
		x.State("new", bal[1].String())
		x.Validated()
	})
}

var (
	adT = seth.Address{0: 0xc0, 19: 'T'}
	adV = seth.Address{0: 0xc0, 19: 'V'}
	// calls K with its call data, then reverts
	codeCallRevert = asm("0x00 CALLDATALOAD 0x00 MSTORE 0x00 0x00 0x20 0x00 0x00 0x" + fmt.Sprintf("%x", adK[:]) + " GAS CALL 0x00 0x00 REVERT")
)

// codeScript makes the calls (address, value, argument) in its call data one after the other.
func codeScript(n int) []byte {
	s := ""
	for i := 0; i < n; i++ {
		o := 96 * i
		s += fmt.Sprintf("CALLDATASIZE 0x%04x LT ISZERO @end JUMPI 0x%04x CALLDATALOAD 0x00 MSTORE 0x00 0x00 0x20 0x00 0x%04x CALLDATALOAD 0x%04x CALLDATALOAD GAS CALL POP ", o, o+64, o+32, o)
	}
	return asm(s + "end: STOP")
}

func worldExtra(w *world) (out []genesis) {
	for _, a := range w.extra {
		out = append(out, genesis{addr: a})
	}
	return
}
