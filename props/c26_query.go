package props

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"
	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{ID: "C26", Level: "model_checking",
		Rule: "every query (kind x target x caller x block) after every short history, made twice: both answers must agree and every observable (including existence, refund counter, history) must equal the reference, which ignores queries; " +
			"every gas estimate is then offered as the gas limit of the same transaction; a state is the reference content before the query",
		Run: runC26})
}

type query struct {
	name string
	do   func(c *tevm.Chain) string
}

func rpcQuery(method string, params ...interface{}) query {
	pj, _ := json.Marshal(params)
	return query{fmt.Sprintf("%s%s", method, pj), func(c *tevm.Chain) string {
		var out json.RawMessage
		if err := rpcDo(c, method, &out, params...); err != nil {
			return "error: " + err.Error()
		}
		return string(out)
	}}
}

type estTx struct {
	name  string
	from  seth.Address
	to    *seth.Address
	data  []byte
	value int64
}

func estTxs() []estTx {
	nest := cat(word(1), word(9))
	return []estTx{
		{"transfer", adA, &adB, nil, 5},
		{"transfer-new", adA, &adN, nil, 5},
		{"transfer-too-much", adB, &adA, nil, 1 << 40},
		{"store", adA, &adS, cat(word(0), word(77)), 0},
		{"clear", adA, &adS, cat(word(0), word(0)), 0},
		{"nested", adA, &adP, nest, 0},
		{"log", adA, &adL, cat(word(1), word(2)), 0},
		{"log-revert", adA, &adL, cat(word(0xbad), word(2)), 0},
		{"revert", adA, &adR, nil, 1},
		{"invalid", adA, &adI, nil, 1},
		{"kill", adA, &adK, awordb(adB), 1},
		{"forward", adA, &adF, awordb(adN), 3},
		{"forward-nested", adA, &adF, awordb(adP), 0},
		{"factory", adA, &adC, nil, 3},
		{"create", adA, nil, initOf(codeStore), 2},
		{"create-fail", adA, nil, asm("INVALID"), 2},
		{"create-empty", adN, nil, nil, 0},
	}
}

func (t estTx) args() map[string]interface{} {
	a := map[string]interface{}{"from": t.from, "value": fmt.Sprintf("0x%x", t.value), "data": seth.Data(t.data)}
	if t.to != nil {
		a["to"] = *t.to
	}
	return a
}

func allQueries(m *refChain) []query {
	var qs []query
	blocks := []interface{}{"pending", "latest", "earliest", fmt.Sprintf("0x%x", m.pend.Number), "0x7"}
	for n := range m.sealed {
		blocks = append(blocks, fmt.Sprintf("0x%x", n))
	}
	for _, b := range blocks {
		for _, t := range estTxs() {
			qs = append(qs, rpcQuery("eth_estimateGas", t.args(), b))
			qs = append(qs, rpcQuery("eth_call", t.args(), b))
		}
		qs = append(qs, rpcQuery("eth_call", map[string]interface{}{"from": adN, "to": seth.Address{7, 7}, "data": "0x"}, b))
		qs = append(qs, rpcQuery("eth_estimateGas", map[string]interface{}{"from": adN, "to": seth.Address{7, 7}, "data": "0x"}, b))
		for _, a := range []seth.Address{adA, adN, adS} {
			qs = append(qs, rpcQuery("eth_getBalance", a, b))
		}
		qs = append(qs, rpcQuery("eth_getBlockByNumber", b, true), rpcQuery("eth_getBlockByNumber", b, false))
	}
	hs := []seth.Hash{{1, 2, 3}, m.pend.Hash}
	for h := range m.txs {
		hs = append(hs, h)
	}
	for _, b := range m.sealed {
		hs = append(hs, b.pend.Hash)
	}
	for _, h := range hs {
		qs = append(qs, rpcQuery("eth_getBlockByHash", h, true), rpcQuery("eth_getBlockByHash", h, false), rpcQuery("eth_getTransactionByHash", h), rpcQuery("eth_getTransactionReceipt", h))
	}
	qs = append(qs, rpcQuery("eth_blockNumber"), rpcQuery("eth_gasPrice"), rpcQuery("eth_syncing"), rpcQuery("eth_protocolVersion"), rpcQuery("eth_nonsense"), rpcQuery("eth_call"))
	qs = append(qs,
		query{"StaticCall(store)", func(c *tevm.Chain) string {
			r, err := c.StaticCall(&adA, &adS, "f(uint256)", seth.NewInt(3))
			return fmt.Sprintf("%x %v", r, err)
		}},
		query{"StaticCall(new)", func(c *tevm.Chain) string {
			r, err := c.StaticCall(&adN, &seth.Address{9: 9}, "f()")
			return fmt.Sprintf("%x %v", r, err)
		}},
		query{"StaticCall(write)", func(c *tevm.Chain) string {
			r, err := c.StaticCall(&adA, &adR, "f()")
			return fmt.Sprintf("%x %v", r, err)
		}},
		query{"EstimateGas(store)", func(c *tevm.Chain) string {
			r, err := c.EstimateGas(&adA, &adS, "f(uint256)", seth.NewInt(3))
			return fmt.Sprint(r, err)
		}},
		query{"BalanceOf(caller memory)", func(c *tevm.Chain) string {
			a := adB
			s := c.BalanceOf(&a).String()
			c.BalanceOf(&a).SetInt64(12345)
			a = seth.Address{}
			return s
		}},
		query{"Logs", func(c *tevm.Chain) string {
			ls := c.Logs()
			b, _ := json.Marshal(ls)
			// what the caller does to its logs is its own business
			for i := range ls {
				for _, d := range append(append([]seth.Data(nil), ls[i].Topics...), ls[i].Data) {
					for j := range d {
						d[j] ^= 0xff
					}
				}
				for _, h := range []*seth.Hash{ls[i].TxHash, ls[i].BlockHash} {
					if h != nil {
						h[3] ^= 0xff
					}
				}
				for _, n := range []*seth.Uint64{ls[i].BlockNumber, ls[i].TxIndex, ls[i].LogIndex} {
					if n != nil {
						*n += 17
					}
				}
			}
			return string(b)
		}},
		query{"Copy", func(c *tevm.Chain) string { c.Copy(); return "" }},
		query{"AtBlock", func(c *tevm.Chain) string { c.AtBlock(-2); c.AtBlock(7); return "" }},
		query{"filter", func(c *tevm.Chain) string {
			var id seth.Int
			if err := rpcDo(c, "eth_newFilter", &id, map[string]interface{}{"fromBlock": "0x0", "toBlock": "latest"}); err != nil {
				return err.Error()
			}
			// a twin of it that is not asked for all its logs
			var twin seth.Int
			rpcDo(c, "eth_newFilter", &twin, map[string]interface{}{"fromBlock": "0x0", "toBlock": "latest"})
			var a, b, b2 json.RawMessage
			rpcDo(c, "eth_getFilterLogs", &a, &id)
			rpcDo(c, "eth_getFilterChanges", &b, &id)
			rpcDo(c, "eth_getFilterChanges", &b2, &twin)
			rpcDo(c, "eth_uninstallFilter", new(bool), &id)
			rpcDo(c, "eth_uninstallFilter", new(bool), &twin)
			if string(b) != string(b2) {
				return fmt.Sprintf("!after eth_getFilterLogs a filter reports the changes %s; one that was not asked, %s", b, b2)
			}
			return string(a) + string(b)
		}},
	)
	return qs
}

func compareExtra(x *mc.X, what string, c *tevm.Chain, m *refChain) {
	db := c.State.StateDB()
	for _, a := range []seth.Address{adA, adB, adN, adS, adK, {7, 7}, {9: 9}, {}} {
		if got, want := db.Exist(common.Address(a)), m.st.Exist(common.Address(a)); got != want {
			x.Failf("query-exist", "%s: account %s exists=%v, want %v", what, a.String(), got, want)
		}
	}
	if got := db.GetRefund(); got != m.st.refund {
		x.Failf("query-refund", "%s: refund counter %d, want %d", what, got, m.st.refund)
	}
}

func runC26(r *mc.R) {
	ops := pickOps("transfer store log create revert seal")
	var names []string
	for _, o := range ops {
		names = append(names, o.name)
	}
	maxd := r.N(2, 3)
	type shape struct {
		d    int
		fork bool
	}
	var shapes []shape
	for d := 0; d <= maxd; d++ {
		shapes = append(shapes, shape{d, false})
	}
	for d := 0; d < maxd; d++ {
		shapes = append(shapes, shape{d, true})
	}
	for _, s := range shapes {
		d, fork, on, name := s.d, s.fork, "", fmt.Sprint(s.d)
		if fork {
			on, name = "on a fork: ", name+"-forks"
		}
		hist := func(x *mc.X) (*tevm.Chain, *refChain, *world) {
			c, m := newWorld(worldAccounts)
			if fork {
				c, m = newForkWorld(worldAccounts)
			}
			w := &world{}
			if x.Bool() {
				chainOps["store"](x, c, m, w)
				sealBoth(x, c, m)
			}
			for i := 0; i < d; i++ {
				o := ops[x.Choose(len(ops))]
				x.Step()
				w.seq++
				x.Logf("%s", o.name)
				o.do(x, c, m, w)
			}
			x.State(m.String())
			return c, m, w
		}
		r.Explore(mc.Opts{Name: "queries-" + name, Budget: -1, Bound: on + fmt.Sprintf("all histories of %d operations over {%s}, then every query twice", d, strings.Join(names, " "))}, func(x *mc.X) {
			c, m, w := hist(x)
			qs := allQueries(m)
			q := qs[x.Choose(len(qs))]
			x.Logf("query %s", q.name)
			x.Step()
			a1 := q.do(c)
			if strings.HasPrefix(a1, "!") {
				x.Failf("query-filter", "%s", a1[1:])
			}
			compareExtra(x, "after "+q.name, c, m)
			compareChain(x, "after "+q.name, c, m, w.extra...)
			compareHistory(x, "after "+q.name, c, m, w.extra...)
			if a2 := q.do(c); a1 != a2 {
				x.Failf("query-answer", "%s answered %s, then %s", q.name, a1, a2)
			}
			if d == 0 {
				kind := "ok"
				if strings.HasPrefix(a1, "error") {
					kind = "error"
				}
				x.Outcome(strings.SplitN(q.name, "[", 2)[0] + " " + kind)
			}
			x.Sample(map[string]string{"query": q.name, "answer": a1})
			x.Validated()
		})
		r.Explore(mc.Opts{Name: "estimate-" + name, Budget: -1, Bound: on + fmt.Sprintf("all histories of %d operations, then every transaction estimated and mined with exactly that gas", d)}, func(x *mc.X) {
			c, m, w := hist(x)
			ts := estTxs()
			t := ts[x.Choose(len(ts))]
			// another estimate first: it must not influence this one
			alts := len(ts) + 1
			if d >= 2 && !x.R.Thorough {
				alts = 1
			}
			if k := x.Choose(alts); k > 0 {
				rpcDo(c, "eth_estimateGas", new(seth.Uint64), ts[k-1].args(), "pending")
			}
			x.Logf("estimate and mine %s", t.name)
			x.Step()
			var gas seth.Uint64
			err := rpcDo(c, "eth_estimateGas", &gas, t.args(), "pending")
			probe := m.clone()
			_, _, _, _, werr := probe.exec(t.from, t.to, t.data, 6000000, mkTx(t.from, t.to, nil, t.value, 0, 0).Value.Big())
			if (err == nil) != (werr == nil) {
				x.Failf("estimate-error", "estimating %s: %v, but executing it: %v", t.name, err, werr)
			}
			if err == nil {
				tx := mkTx(t.from, t.to, t.data, t.value, uint64(gas), 1)
				mineBoth(x, c, m, tx)
				if !m.pend.rxs[len(m.pend.rxs)-1].OK {
					x.Failf("estimate-short", "%s fails when offered the estimated %d gas", t.name, gas)
				}
				if rx := m.pend.rxs[len(m.pend.rxs)-1]; rx.Addr != nil {
					w.addExtra(rx.Addr)
				}
			}
			compareChain(x, "after "+t.name, c, m, w.extra...)
			x.Validated()
		})
	}
}
