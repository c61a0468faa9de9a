package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"
	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{
		ID:    "C46",
		Level: "fault_enumeration",
		Rule:  "every sequence of operations on a fork up to a depth, with the base chain failing in every way at every single request of one of them (and of one more later); the fork is compared in every observable with a twin whose base chain never fails and on which the operations that failed were not performed",
		Notes: []string{"an operation may fail with an error or a panic", "the twin runs the same code without faults; that code is decided by C29 and C41"},
		Run:   runC46,
	})
}

// faultyBase serves worldAccounts as they are at forkBlock.
type faultyBase struct {
	mu  sync.Mutex
	ask func(method string) int // 0 or 1 + the kind of fault, for every request
	bad string
}

var baseFaults = []string{"no connection", "an error response", "a malformed result", "a null result"}

func (b *faultyBase) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
	b.mu.Lock()
	defer b.mu.Unlock()
	res.ID, res.Version = req.ID, "2.0"
	if b.ask != nil {
		switch b.ask(req.Method) {
		case 1:
			return errors.New("verif: no connection")
		case 2:
			res.Error = seth.RPCError{Code: -32000, Message: "verif: overloaded"}
			return nil
		case 3:
			res.Result = json.RawMessage(`"0xzz"`)
			return nil
		case 4:
			res.Result = json.RawMessage(`null`)
			return nil
		}
	}
	var a seth.Address
	if len(req.Params) < 2 || json.Unmarshal(req.Params[0], &a) != nil || string(req.Params[len(req.Params)-1]) != fmt.Sprintf(`"0x%x"`, forkBlock) {
		b.bad = fmt.Sprintf("%s%s", req.Method, req.Params)
	}
	var g genesis
	for _, w := range worldAccounts {
		if w.addr == a {
			g = w
		}
	}
	switch req.Method {
	case "eth_getBalance":
		res.Result = json.RawMessage(fmt.Sprintf(`"0x%x"`, g.bal))
	case "eth_getTransactionCount":
		n := 0
		if g.code != nil || g.bal > 100 {
			n = 1
		}
		res.Result = json.RawMessage(fmt.Sprintf(`"0x%x"`, n))
	case "eth_getCode":
		res.Result = json.RawMessage(fmt.Sprintf(`"0x%x"`, g.code))
	case "eth_getStorageAt":
		v := 0
		if a == adS {
			v = 6
		}
		res.Result = json.RawMessage(fmt.Sprintf(`"0x%064x"`, v))
	default:
		b.bad = req.Method
	}
	return nil
}

type forkOp struct {
	name string
	do   func(c *tevm.Chain, seq int) (string, error)
}

func forkOps(names string) (out []forkOp) {
	rpc := func(c *tevm.Chain, method string, params ...interface{}) (string, error) {
		var res json.RawMessage
		err := rpcDo(c, method, &res, params...)
		return string(res), err
	}
	post := func(c *tevm.Chain, method string, params ...interface{}) (string, error) {
		b, err := json.Marshal(map[string]interface{}{"jsonrpc": "2.0", "id": 1, "method": method, "params": params})
		if err != nil {
			panic(err)
		}
		w := httptest.NewRecorder()
		r := httptest.NewRequest("POST", "/", bytes.NewReader(b))
		c.ServeHTTP(w, r)
		if w.Code != http.StatusOK || strings.Contains(w.Body.String(), `"error"`) {
			return "", fmt.Errorf("%d %s", w.Code, w.Body.String())
		}
		return w.Body.String(), nil
	}
	tx := func(to *seth.Address, data []byte, value int64) map[string]interface{} {
		m := map[string]interface{}{"from": adA, "gas": seth.Uint64(300000), "gasPrice": seth.NewInt(1), "value": seth.NewInt(value), "data": seth.Data(data)}
		if to != nil {
			m["to"] = *to
		}
		return m
	}
	mine := func(c *tevm.Chain, t *seth.Transaction) (string, error) {
		ret, h, err := c.Mine(t)
		return fmt.Sprintf("%x %s", ret, h.String()), err
	}
	ops := map[string]func(c *tevm.Chain, seq int) (string, error){
		"send":      func(c *tevm.Chain, seq int) (string, error) { return "", c.Send(&adA, &adB, big.NewInt(7)) },
		"send-new":  func(c *tevm.Chain, seq int) (string, error) { return "", c.Send(&adA, &adN, big.NewInt(7)) },
		"send-make": func(c *tevm.Chain, seq int) (string, error) { return "", c.Send(&adA, &adC, big.NewInt(3)) },
		"kill":      func(c *tevm.Chain, seq int) (string, error) { return "", c.Send(&adA, &adK, big.NewInt(1)) },
		"forward": func(c *tevm.Chain, seq int) (string, error) {
			return mine(c, mkTx(adA, &adF, awordb(adL), 5, 300000, seq))
		},
		"forward-bad": func(c *tevm.Chain, seq int) (string, error) {
			return mine(c, mkTx(adA, &adG, awordb(adK), 5, 300000, seq))
		},
		"store": func(c *tevm.Chain, seq int) (string, error) {
			return mine(c, mkTx(adA, &adP, cat(word(1), word(uint64(seq))), 0, 300000, seq))
		},
		"mine-new": func(c *tevm.Chain, seq int) (string, error) {
			return mine(c, mkTx(adA, nil, initOf(codeStore), 2, 300000, seq))
		},
		"create": func(c *tevm.Chain, seq int) (string, error) {
			a, err := c.Create(&adA, initOf(codeStore))
			return a.String(), err
		},
		"create-at": func(c *tevm.Chain, seq int) (string, error) {
			return "", c.CreateAt(&adN, &adA, cat(asm("0x05 0x01 SSTORE"), initOf(codeStore)))
		},
		"call": func(c *tevm.Chain, seq int) (string, error) {
			b, err := c.Call(&adA, &adF, "x()")
			return fmt.Sprintf("%x", b), err
		},
		"static": func(c *tevm.Chain, seq int) (string, error) {
			b, err := c.StaticCall(&adA, &adS, "x()")
			return fmt.Sprintf("%x", b), err
		},
		"estimate": func(c *tevm.Chain, seq int) (string, error) {
			g, err := c.EstimateGas(&adA, &adF, "x()")
			return fmt.Sprint(g), err
		},
		"balance": func(c *tevm.Chain, seq int) (string, error) { return c.BalanceOf(&adB).String(), nil },
		"add":     func(c *tevm.Chain, seq int) (string, error) { c.AddBalance(&adB, big.NewInt(11)); return "", nil },
		"sub":     func(c *tevm.Chain, seq int) (string, error) { c.SubBalance(&adB, big.NewInt(12)); return "", nil },
		"seal":    func(c *tevm.Chain, seq int) (string, error) { c.Seal(); return "", nil },
		"peek": func(c *tevm.Chain, seq int) (string, error) {
			db := c.State.StateDB()
			a := common.Address(adS)
			v := db.GetState(a, common.BytesToHash(word(1)))
			return fmt.Sprintf("%x %x %d %v", v, db.GetCode(a), db.GetNonce(a), db.GetBalance(a)), nil
		},
		"peek-exist": func(c *tevm.Chain, seq int) (string, error) {
			db := c.State.StateDB()
			return fmt.Sprint(db.Empty(common.Address(adL)), db.Exist(common.Address(adL)), db.GetCodeSize(common.Address(adL)), db.Exist(common.Address(adN))), nil
		},
		"view-balance": func(c *tevm.Chain, seq int) (string, error) {
			return c.AtBlock(int64(*c.State.Pending.Number) - 1).BalanceOf(&adL).String(), nil
		},
		"copy-send": func(c *tevm.Chain, seq int) (string, error) {
			n := c.Copy()
			return "", n.Send(&adA, &adG, big.NewInt(2))
		},
		"rpc-balance": func(c *tevm.Chain, seq int) (string, error) { return rpc(c, "eth_getBalance", adK, "latest") },
		"rpc-call": func(c *tevm.Chain, seq int) (string, error) {
			return rpc(c, "eth_call", tx(&adS, word(1), 0), "pending")
		},
		"rpc-send": func(c *tevm.Chain, seq int) (string, error) {
			return rpc(c, "eth_sendTransaction", tx(&adF, awordb(adN), 4))
		},
		"rpc-estimate": func(c *tevm.Chain, seq int) (string, error) {
			return rpc(c, "eth_estimateGas", tx(&adP, cat(word(1), word(9)), 0), "pending")
		},
		"post-balance": func(c *tevm.Chain, seq int) (string, error) { return post(c, "eth_getBalance", adK, "latest") },
		"post-call": func(c *tevm.Chain, seq int) (string, error) {
			return post(c, "eth_call", tx(&adS, word(1), 0), "pending")
		},
		"post-send": func(c *tevm.Chain, seq int) (string, error) {
			return post(c, "eth_sendTransaction", tx(&adF, awordb(adL), 4))
		},
	}
	for _, n := range strings.Fields(names) {
		if ops[n] == nil {
			panic(n)
		}
		out = append(out, forkOp{n, ops[n]})
	}
	return out
}

// attempt performs op; a panic counts as an error.
func attempt(x *mc.X, c *tevm.Chain, op forkOp, seq int) (res string, err error) {
	done := make(chan bool)
	var internal interface{}
	go func() {
		defer close(done)
		defer func() {
			if p := recover(); p != nil {
				if strings.HasPrefix(fmt.Sprint(p), "mc:") {
					internal = p
				}
				err = fmt.Errorf("panic: %v", p)
			}
		}()
		res, err = op.do(c, seq)
	}()
	t := time.NewTimer(20 * time.Second)
	defer t.Stop()
	select {
	case <-done:
		if internal != nil {
			panic(internal)
		}
	case <-t.C:
		x.Failf("base-hang", "%s never returns", op.name)
	}
	return res, err
}

// forkDump renders everything observable on a fork.
func forkDump(x *mc.X, c *tevm.Chain) string {
	var b strings.Builder
	as := []seth.Address{adA, adB, adN, adS, adL, adK, adF, adG, adC, adP, {}}
	for n := uint64(1); n < 9; n++ {
		as = append(as, createAddr(adA, n))
	}
	as = append(as, createAddr(adC, 1), createAddr(adC, 2), createAddr(adC, 3))
	op := forkOp{"reading the fork", func(c *tevm.Chain, seq int) (string, error) {
		db := c.State.StateDB()
		for i := range as {
			a := common.Address(as[i])
			fmt.Fprintf(&b, "%x: %v %d %x", a[:], c.BalanceOf(&as[i]), db.GetNonce(a), db.GetCode(a))
			for s := uint64(0); s < 2; s++ {
				fmt.Fprintf(&b, " %x", db.GetState(a, common.BytesToHash(word(s))))
			}
			b.WriteString("\n")
		}
		j, _ := json.Marshal(c.Logs())
		fmt.Fprintf(&b, "logs %s\n", j)
		for n := int64(forkBlock + 1); ; n++ {
			blk := new(seth.Block)
			if err := rpcDo(c, "eth_getBlockByNumber", blk, seth.Uint64(n), true); err != nil {
				break
			}
			blk.Timestamp = 0
			j, _ = json.Marshal(blk)
			fmt.Fprintf(&b, "block %s\n", j)
			var full []seth.Transaction
			for _, t := range blk.Transactions {
				var tx seth.Transaction
				json.Unmarshal(t, &tx)
				full = append(full, tx)
			}
			for i := range full {
				var rx json.RawMessage
				err := rpcDo(c, "eth_getTransactionReceipt", &rx, full[i].Hash)
				fmt.Fprintf(&b, "receipt %s %v\n", rx, err)
			}
			if n <= int64(*c.State.Pending.Number)-1 {
				v := c.AtBlock(n)
				fmt.Fprintf(&b, "then %v %v\n", v.BalanceOf(&adA), v.BalanceOf(&adN))
			}
		}
		fmt.Fprintf(&b, "refund %d", db.GetRefund())
		return "", nil
	}}
	if _, err := attempt(x, c, op, 0); err != nil {
		x.Failf("base-read", "reading the fork while the base chain is well: %v", err)
	}
	return b.String()
}

func firstDiff(a, b string) string {
	as, bs := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range as {
		if i >= len(bs) || as[i] != bs[i] {
			o := ""
			if i < len(bs) {
				o = bs[i]
			}
			return fmt.Sprintf("%s\n  instead of %s", as[i], o)
		}
	}
	return "less than " + b
}

func runC46(r *mc.R) {
	var dumps sync.Map
	twinDump := func(x *mc.X, twin *tevm.Chain, done string) string {
		if s, ok := dumps.Load(done); ok {
			return s.(string)
		}
		s := forkDump(x, twin)
		dumps.Store(done, s)
		return s
	}
	body := func(ops []forkOp, depth, faults int, each bool) func(x *mc.X) {
		return func(x *mc.X) {
			base, twinBase := new(faultyBase), new(faultyBase)
			c := tevm.NewFork(seth.NewClientTransport(base), forkBlock)
			twin := tevm.NewFork(seth.NewClientTransport(twinBase), forkBlock)
			left := faults
			sum, done := "", "" // done: what the twin has performed
			for d := 0; d < depth; d++ {
				op := ops[x.Choose(len(ops))]
				sum += op.name
				x.Step()
				hit := false
				without := twin
				if left > 0 {
					without = twin.Copy()
					n := 0
					base.ask = func(method string) int {
						n++
						if left == 0 || hit {
							return 0
						}
						k := x.Choose(1 + len(baseFaults))
						if k > 0 {
							left--
							hit = true
							x.Logf("request %d of %s, %s, gets %s", n, op.name, method, baseFaults[k-1])
							sum += fmt.Sprint("!", n, k)
						}
						return k
					}
				}
				x.Logf("%s", op.name)
				res, err := attempt(x, c, op, d+1)
				base.ask = nil
				sum += ";"
				wres, werr := attempt(x, twin, op, d+1)
				if err == nil && werr != nil {
					x.Failf("base-success", "%s succeeds with %q, though it fails with %v when the base chain is well", op.name, res, werr)
				}
				if err == nil && res != wres {
					x.Failf("base-result", "%s yields %q, though it yields %q when the base chain is well", op.name, res, wres)
				}
				if !hit && werr == nil && err != nil {
					x.Failf("base-after", "%s fails with %v though the base chain is well", op.name, err)
				}
				if hit && err != nil {
					if werr != nil {
						// it may count as performed or not
						x.Prune()
					}
					// it failed: nothing happened
					twin = without
				} else {
					done += fmt.Sprint(op.name, d, ";")
				}
				if each {
					if g, w := forkDump(x, c), twinDump(x, twin, done); g != w {
						x.Failf("base-effect", "after %s: the fork has %s", op.name, firstDiff(g, w))
					}
				}
			}
			g, w := forkDump(x, c), twinDump(x, twin, done)
			if g != w {
				x.Failf("base-effect", "at the end: the fork has %s", firstDiff(g, w))
			}
			if base.bad != "" {
				x.Failf("base-request", "the base chain received %s", base.bad)
			}
			x.State(g)
			x.Case(sum)
			x.Validated()
		}
	}
	all := forkOps("send send-new send-make kill forward forward-bad store mine-new create create-at call static balance add sub peek peek-exist view-balance copy-send rpc-balance rpc-call rpc-send post-balance post-call post-send seal")
	some := forkOps("send-new kill forward store create-at static peek rpc-send post-call seal")
	few := forkOps("kill forward store rpc-send")
	r.Explore(mc.Opts{Name: "one", Budget: -1, Bound: fmt.Sprintf("2 of %d operations, a fault of %d kinds at every request of one, compared at the end", len(all), len(baseFaults))}, body(all, 2, 1, false))
	r.Explore(mc.Opts{Name: "each", Budget: -1, Bound: fmt.Sprintf("%d of %d operations, one fault, compared after each", r.N(2, 3), len(some))}, body(some, r.N(2, 3), 1, true))
	est := forkOps("estimate rpc-estimate")
	r.Explore(mc.Opts{Name: "estimate", Budget: -1, Bound: "the operations with hundreds of requests alone, one fault, compared after it"}, body(est, 1, 1, true))
	r.Explore(mc.Opts{Name: "two", Budget: -1, Bound: fmt.Sprintf("%d of %d operations, two faults, compared at the end", r.N(2, 4), len(few))}, body(few, r.N(2, 4), 2, false))
}
