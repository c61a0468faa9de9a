package schedprops

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"net/http/httptest"
	"strings"
	"sync"

	"github.com/ethereum/go-ethereum/common"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"
	"verif.local/mc/mc"
	"verif.local/mc/shim"
)

var (
	chA = seth.Address{0xa1, 19: 1}
	chB = seth.Address{0xb2, 19: 2}
	chC = seth.Address{0xc3, 19: 3}
	chZ = seth.Address{0xd4, 19: 4}
	chR = seth.Address{0xe5, 19: 5}
	chO = seth.Address{0xf6, 19: 6}

	// adds one to its slot 0, logs and returns the new value
	counterCode, _ = hex.DecodeString("600054600101" + "80600055" + "600052" + "60206000a0" + "60206000f3")
	// logs, writes its slot 0, pays 5 wei to chB and then reverts it all
	revertCode, _ = hex.DecodeString("60006000a0" + "6001600055" + "60006000600060006005" + "73" + hex.EncodeToString(chB[:]) + "61ffff" + "f1" + "60006000fd")
	// returns the balance of chB
	observeCode, _ = hex.DecodeString("73" + hex.EncodeToString(chB[:]) + "31" + "600052" + "60206000f3")
	// deploys a contract whose code is one zero byte
	tinyInit, _ = hex.DecodeString("60016000f3")
)

// chainOp is one operation; what it returns is evaluated at the end, except
// for what it captures while it runs.
type chainOp struct {
	name string
	run  func(c *tevm.Chain) func() string
}

func ret(s string, a ...interface{}) func() string {
	t := fmt.Sprintf(s, a...)
	return func() string { return t }
}

func rpcOp(name, method string, params ...string) chainOp {
	return chainOp{name, func(c *tevm.Chain) func() string {
		req := &seth.RPCRequest{Version: "2.0", Method: method, ID: 7}
		for _, p := range params {
			req.Params = append(req.Params, json.RawMessage(p))
		}
		var res seth.RPCResponse
		err := c.Execute(req, &res)
		return ret("%s %v %v id %d", res.Result, res.Error, err, res.ID)
	}}
}

func callTx(gas uint64) *seth.Transaction {
	return &seth.Transaction{From: &chA, To: &chC, Gas: seth.Uint64(gas), GasPrice: *seth.NewInt(1), Input: seth.Data{1, 2, 3, 4}}
}

var chainOps = []chainOp{
	{"Call", func(c *tevm.Chain) func() string {
		b, err := c.Call(&chA, &chC, "inc()")
		return ret("%x %v", b, err)
	}},
	{"Send", func(c *tevm.Chain) func() string { return ret("%v", c.Send(&chA, &chB, big.NewInt(600))) }},
	{"Send back", func(c *tevm.Chain) func() string { return ret("%v", c.Send(&chB, &chA, big.NewInt(250))) }},
	{"Mine", func(c *tevm.Chain) func() string {
		tx := callTx(100000)
		b, h, err := c.Mine(tx)
		return ret("%x %x %v %v %d", b, h, err, *tx.TxIndex, tx.BlockNumber)
	}},
	{"Seal", func(c *tevm.Chain) func() string { c.Seal(); return ret("") }},
	{"Create", func(c *tevm.Chain) func() string {
		a, err := c.Create(&chA, tinyInit)
		return ret("%x %v", a, err)
	}},
	{"CreateAt", func(c *tevm.Chain) func() string { return ret("%v", c.CreateAt(&chZ, &chA, tinyInit)) }},
	{"CreateAt failing", func(c *tevm.Chain) func() string { return ret("%v", c.CreateAt(&chZ, &chA, []byte{0xfe})) }},
	{"Create failing", func(c *tevm.Chain) func() string {
		a, err := c.Create(&chA, []byte{0xfe})
		return ret("%x %v", a, err)
	}},
	{"Send too much", func(c *tevm.Chain) func() string { return ret("%v", c.Send(&chA, &chB, big.NewInt(1e18))) }},
	{"Mine failing", func(c *tevm.Chain) func() string {
		b, h, err := c.Mine(callTx(10))
		return ret("%x %x %v", b, h, err)
	}},
	{"Mine reverting", func(c *tevm.Chain) func() string {
		tx := callTx(200000)
		tx.To, tx.Value = &chR, *seth.NewInt(40)
		b, h, err := c.Mine(tx)
		return ret("%x %x %v", b, h, err)
	}},
	{"Call reverting", func(c *tevm.Chain) func() string {
		b, err := c.Call(&chA, &chR, "x()")
		return ret("%x %v", b, err)
	}},
	{"Send reverting", func(c *tevm.Chain) func() string { return ret("%v", c.Send(&chA, &chR, big.NewInt(30))) }},
	{"BalanceOf sender", func(c *tevm.Chain) func() string { return ret("%v", c.BalanceOf(&chA)) }},
	{"AtBlock unknown", func(c *tevm.Chain) func() string { return ret("%v", c.AtBlock(7) == nil) }},
	{"UnmarshalJSON bad", func(c *tevm.Chain) func() string { return ret("%v", c.UnmarshalJSON([]byte(`{"State":`+"`"))) }},
	{"HTTP", func(c *tevm.Chain) func() string {
		body := fmt.Sprintf(`{"jsonrpc":"2.0","id":9,"method":"eth_sendTransaction","params":[{"from":"%s","to":"%s","gas":"0x30000","gasPrice":"0x1","value":"0x0","data":"0x05"}]}`, &chA, &chC)
		w := httptest.NewRecorder()
		c.ServeHTTP(w, httptest.NewRequest("POST", "/", strings.NewReader(body)))
		return ret("%d %s", w.Code, w.Body)
	}},
	rpcOp("unknown method", "eth_nothing"),
	rpcOp("bad parameters", "eth_getBalance", `7`),
	rpcOp("eth_call failing", "eth_call", fmt.Sprintf(`{"from":"%s","to":"%s","gas":"0x1","data":"0x01"}`, &chA, &chC), `"latest"`),
	{"AddBalance", func(c *tevm.Chain) func() string { c.AddBalance(&chB, big.NewInt(7)); return ret("") }},
	{"SubBalance", func(c *tevm.Chain) func() string { c.SubBalance(&chB, big.NewInt(3)); return ret("") }},
	{"BalanceOf", func(c *tevm.Chain) func() string { return ret("%v", c.BalanceOf(&chB)) }},
	{"NewAccount", func(c *tevm.Chain) func() string {
		a := c.NewAccount(2)
		return func() string { return c.BalanceOf(&a).String() }
	}},
	{"StaticCall", func(c *tevm.Chain) func() string {
		b, err := c.StaticCall(&chA, &chO, "x()")
		return ret("%x %v", b, err)
	}},
	{"EstimateGas", func(c *tevm.Chain) func() string {
		n, err := c.EstimateGas(&chA, &chB, "x()")
		return ret("%d %v", n, err)
	}},
	{"Logs", func(c *tevm.Chain) func() string {
		b, _ := json.Marshal(c.Logs())
		return ret("%s", b)
	}},
	{"Copy", func(c *tevm.Chain) func() string {
		cc := c.Copy()
		return func() string { return dumpChain(cc, false) }
	}},
	{"AtBlock", func(c *tevm.Chain) func() string {
		cc := c.AtBlock(100)
		return func() string { return dumpChain(cc, false) }
	}},
	{"MarshalJSON", func(c *tevm.Chain) func() string {
		b, err := c.MarshalJSON()
		return func() string {
			cc := new(tevm.Chain)
			if err == nil {
				err = cc.UnmarshalJSON(b)
			}
			if err != nil {
				return err.Error()
			}
			return dumpChain(cc, false)
		}
	}},
	rpcOp("eth_sendTransaction", "eth_sendTransaction", fmt.Sprintf(`{"from":"%s","to":"%s","gas":"0x30000","gasPrice":"0x1","value":"0x0","data":"0x01020304"}`, &chA, &chC)),
	rpcOp("eth_blockNumber", "eth_blockNumber"),
	rpcOp("eth_call", "eth_call", fmt.Sprintf(`{"from":"%s","to":"%s","gas":"0x30000","data":"0x01"}`, &chA, &chO), `"pending"`),
	rpcOp("eth_getBalance latest", "eth_getBalance", `"`+chB.String()+`"`, `"latest"`),
	rpcOp("eth_getBalance", "eth_getBalance", `"`+chA.String()+`"`, `"pending"`),
	rpcOp("eth_estimateGas", "eth_estimateGas", fmt.Sprintf(`{"from":"%s","to":"%s","data":"0x"}`, &chA, &chC), `"pending"`),
	rpcOp("eth_getBlockByNumber pending", "eth_getBlockByNumber", `"pending"`, `true`),
	rpcOp("eth_getBlockByNumber 101", "eth_getBlockByNumber", `"0x65"`, `true`),
	rpcOp("eth_newFilter", "eth_newFilter", `{"fromBlock":"latest","toBlock":"latest"}`),
	rpcOp("eth_getFilterChanges", "eth_getFilterChanges", `"0x1"`),
	rpcOp("eth_getFilterLogs", "eth_getFilterLogs", `"0x1"`),
	rpcOp("eth_uninstallFilter", "eth_uninstallFilter", `"0x1"`),
}

func opIndex(name string) int {
	for i := range chainOps {
		if chainOps[i].name == name {
			return i
		}
	}
	panic(name)
}

// newBase makes the chain every program starts from: one sealed block, one
// pending transaction, one filter.
func newBase() *tevm.Chain {
	c := tevm.NewChain()
	db := c.State.StateDB()
	for _, a := range []seth.Address{chA, chB, chC} {
		db.CreateAccount(common.Address(a))
	}
	db.AddBalance(common.Address(chA), big.NewInt(1000))
	db.AddBalance(common.Address(chB), big.NewInt(300))
	db.SetCode(common.Address(chC), counterCode)
	db.SetCode(common.Address(chR), revertCode)
	db.AddBalance(common.Address(chR), big.NewInt(50))
	db.SetCode(common.Address(chO), observeCode)
	c.Mine(callTx(100000))
	c.Seal()
	rpcOp("", "eth_newFilter", `{"fromBlock":"0x0","toBlock":"latest"}`).run(c)
	c.Mine(callTx(100000))
	return c
}

// dumpChain describes everything observable about a chain.
func dumpChain(c *tevm.Chain, filters bool) string {
	if c == nil {
		return "none"
	}
	var b strings.Builder
	db := c.State.StateDB()
	accounts := 0
	c.State.Accounts.Iterate(func(k, v []byte) bool { accounts++; return true })
	fmt.Fprintf(&b, "%d accounts\n", accounts)
	for _, a := range []seth.Address{chA, chB, chC, chZ, chR} {
		ca := common.Address(a)
		fmt.Fprintf(&b, "%x bal %v nonce %d code %x slot %x\n", a, db.GetBalance(ca), db.GetNonce(ca), db.GetCode(ca), db.GetState(ca, common.Hash{}))
	}
	logs, _ := json.Marshal(c.Logs())
	b.Write(logs)
	do := func(method string, params ...string) string {
		return rpcOp("", method, params...).run(c)()
	}
	for n := 99; n < 106; n++ {
		s := do("eth_getBlockByNumber", fmt.Sprintf(`"0x%x"`, n), "true")
		b.WriteString(s + "\n")
		fmt.Fprintln(&b, do("eth_getBalance", `"`+chB.String()+`"`, fmt.Sprintf(`"0x%x"`, n)))
		var blk seth.Block
		json.Unmarshal([]byte(strings.SplitN(s, " {", 2)[0]), &blk)
		for _, t := range blk.Transactions {
			var tx seth.Transaction
			json.Unmarshal(t, &tx)
			fmt.Fprintln(&b, do("eth_getTransactionReceipt", `"`+tx.Hash.String()+`"`))
			fmt.Fprintln(&b, do("eth_getTransactionByHash", `"`+tx.Hash.String()+`"`))
		}
	}
	if filters {
		for id := 1; id <= 3; id++ {
			fmt.Fprintln(&b, do("eth_getFilterLogs", fmt.Sprintf(`"0x%x"`, id)), do("eth_getFilterChanges", fmt.Sprintf(`"0x%x"`, id)))
		}
		// the next filter id
		fmt.Fprintln(&b, do("eth_newFilter", `{"fromBlock":"0x0","toBlock":"latest"}`))
	}
	return b.String()
}

type program [][]int // per goroutine, indices of operations

func (p program) String() string {
	var out []string
	for _, g := range p {
		var ops []string
		for _, o := range g {
			ops = append(ops, chainOps[o].name)
		}
		out = append(out, strings.Join(ops, "; "))
	}
	return strings.Join(out, " || ")
}

var (
	seqMu    sync.Mutex
	seqCache = map[string]map[string]bool{}
)

// outcome renders the results (in program order) and the final state.
func outcome(p program, res [][]func() string, c *tevm.Chain) string {
	var b strings.Builder
	state := dumpChain(c, true)
	for g := range p {
		for i := range p[g] {
			fmt.Fprintf(&b, "%s -> %s\n", chainOps[p[g][i]].name, res[g][i]())
		}
	}
	return b.String() + state
}

// sequential returns the outcomes of all sequential orders of a program.
func sequential(p program) map[string]bool {
	key := p.String()
	seqMu.Lock()
	s := seqCache[key]
	seqMu.Unlock()
	if s != nil {
		return s
	}
	s = map[string]bool{}
	var orders func(pos []int, order []int)
	orders = func(pos, order []int) {
		done := true
		for g := range p {
			if pos[g] < len(p[g]) {
				done = false
				np := append([]int(nil), pos...)
				np[g]++
				orders(np, append(append([]int(nil), order...), g))
			}
		}
		if !done {
			return
		}
		c := newBase()
		res := make([][]func() string, len(p))
		at := make([]int, len(p))
		for _, g := range order {
			res[g] = append(res[g], chainOps[p[g][at[g]]].run(c))
			at[g]++
		}
		s[outcome(p, res, c)] = true
	}
	orders(make([]int, len(p)), nil)
	seqMu.Lock()
	seqCache[key] = s
	seqMu.Unlock()
	return s
}

func chainRun(e *E, p program) {
	want := sequential(p)
	c := newBase()
	res := make([][]func() string, len(p))
	var gs []*shim.G
	for g := range p {
		g := g
		gs = append(gs, e.Go(fmt.Sprintf("goroutine%d", g), func() {
			for _, o := range p[g] {
				f := chainOps[o].run(c)
				shim.Point("return of " + chainOps[o].name)
				res[g] = append(res[g], f)
			}
		}))
	}
	e.Run(func(idle bool) []shim.Event { return nil })
	if e.cutShort() {
		return
	}
	for i, g := range gs {
		if !g.Done {
			e.Failf("deadlock", "%s: goroutine %d hangs: %v", p, i, e.C.Stuck())
			return
		}
	}
	got := outcome(p, res, c)
	if !want[got] {
		var w []string
		for s := range want {
			w = append(w, s)
		}
		e.Failf("not-serializable", "%s: the outcome matches none of the %d sequential ones; against one of them: %s", p, len(want), firstDiff(got, w[0]))
	}
	e.X.Case(p.String(), got)
	e.X.State(got)
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range la {
		if i >= len(lb) || la[i] != lb[i] {
			o := ""
			if i < len(lb) {
				o = lb[i]
			}
			return fmt.Sprintf("%.600q instead of %.600q", la[i], o)
		}
	}
	return "shorter"
}

func init() {
	mc.Register(&mc.Prop{
		ID:    "C31",
		Level: "model_checking",
		Rule:  "every schedule within the preemption budget of every pair of chain operations (and of some longer programs); a case is one complete execution, distinguished by the program and its outcome",
		Notes: []string{"the expected outcomes are those of all sequential orders, executed on the same code without concurrency"},
		Run: func(r *mc.R) {
			n := len(chainOps)
			explore(r, mc.Opts{Name: "pairs", Budget: r.N(1, 2), Share: 0.6, Bound: fmt.Sprintf("%d operations, %d preemptions", n, r.N(1, 2))}, func(e *E) {
				i := e.X.Choose(n)
				j := i + e.X.Choose(n-i)
				chainRun(e, program{{i}, {j}})
			})
			o := opIndex
			progs := []program{
				{{o("Call")}, {o("Call")}, {o("Call")}},
				{{o("Mine")}, {o("Seal")}, {o("Mine")}},
				{{o("eth_sendTransaction")}, {o("eth_sendTransaction")}, {o("eth_blockNumber")}},
				{{o("Mine"), o("Seal")}, {o("Mine"), o("eth_getBlockByNumber 101")}},
				{{o("Send"), o("BalanceOf")}, {o("Send back"), o("BalanceOf")}},
				{{o("Send")}, {o("BalanceOf sender"), o("BalanceOf")}},
				{{o("Send back")}, {o("BalanceOf"), o("eth_getBalance")}},
				{{o("Mine reverting"), o("BalanceOf")}, {o("BalanceOf"), o("Mine reverting")}},
				{{o("eth_newFilter"), o("eth_getFilterChanges")}, {o("eth_newFilter"), o("eth_sendTransaction")}},
				{{o("eth_getFilterChanges"), o("Mine")}, {o("Mine"), o("eth_getFilterChanges")}},
				{{o("eth_uninstallFilter")}, {o("eth_uninstallFilter")}, {o("eth_getFilterLogs")}},
				{{o("AddBalance"), o("SubBalance")}, {o("AddBalance"), o("Copy")}},
				{{o("Seal"), o("Seal")}, {o("AtBlock"), o("MarshalJSON")}},
				{{o("Create"), o("Create")}, {o("Create"), o("Copy")}},
				{{o("eth_call"), o("eth_estimateGas")}, {o("Mine"), o("eth_getBalance latest")}},
			}
			explore(r, mc.Opts{Name: "programs", Budget: r.N(1, 3), Bound: fmt.Sprintf("%d programs, %d preemptions", len(progs), r.N(1, 3))}, func(e *E) {
				chainRun(e, progs[e.X.Choose(len(progs))])
			})
		},
	})
}
