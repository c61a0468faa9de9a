package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"testing"
	"testing/synctest"

	"github.com/philhofer/seth"
	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{
		ID:    "C08",
		Level: "model_checking",
		Rule:  "every sequence of answers a node can give to Wait, Drain, Cancel and Create up to the bound (each answer is a choice point; afterwards the node answers so that the protocol can end) x gas prices and nonces; a case is a distinct sequence of requests and answers whose verdict was compared",
		Notes: []string{"the protocols run in virtual time (testing/synctest)"},
		Run:   runC08,
	})
}

// bubble runs f in virtual time.
func bubble(x *mc.X, f func()) {
	var p interface{}
	synctest.Test(x.R.T, func(*testing.T) {
		defer func() { p = recover() }()
		f()
	})
	if p != nil {
		panic(p)
	}
}

var errLost = errors.New("verif: connection lost")

// fateNode answers each request from a list of scripted alternatives.
type fateNode struct {
	x     *mc.X
	left  int // choices left
	trace []string
	log   []recReq
	max   int
	lost  bool // the last answer was a transport failure
	// answer gives the reply to a request.
	answer func(method string, p []interface{}) (string, *seth.RPCError)
}

func (n *fateNode) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
	buf, _ := json.Marshal(req)
	var w recReq
	w.Raw = string(buf)
	json.Unmarshal(buf, &struct {
		Method *string        `json:"method"`
		Params *[]interface{} `json:"params"`
	}{&w.Method, &w.Params})
	n.log = append(n.log, w)
	n.x.Step()
	if len(n.log) > n.max {
		n.x.Failf("never-ends", "still asking after %d requests: %s", len(n.log), n)
	}
	r, rerr := n.answer(w.Method, w.Params)
	t := r
	if rerr != nil {
		t = "error " + rerr.Message
	}
	n.trace = append(n.trace, fmt.Sprintf("%s %v -> %.200s", w.Method, w.Params, t))
	if rerr == c08Lost {
		return errLost
	}
	if rerr != nil {
		res.Error = *rerr
		return nil
	}
	res.ID, res.Result = req.ID, json.RawMessage(r)
	return nil
}

func (n *fateNode) String() string { return strings.Join(n.trace, "; ") }

// pick chooses among k answers while choices are left, else it is the last one.
func (n *fateNode) pick(k int) int {
	if n.left == 0 {
		return k - 1
	}
	n.left--
	return n.x.Choose(k)
}

var (
	c08Err  = &seth.RPCError{Code: -32001, Message: "node trouble"}
	c08Lost = &seth.RPCError{Code: -1, Message: "(connection lost)"}
)

// checkErr compares the error of a failed step with what was returned.
func c08CheckErr(x *mc.X, where string, want interface{}, err error) {
	var e *seth.RPCError
	ok := false
	switch want {
	case c08Err:
		ok = errors.As(err, &e) && e.Code == c08Err.Code && e.Message == c08Err.Message
	case c08Lost:
		ok = errors.Is(err, errLost)
	case seth.ErrNotFound:
		ok = errors.Is(err, seth.ErrNotFound)
	case "any":
		ok = err != nil
	case nil:
		ok = err == nil
	}
	if !ok {
		x.Failf("wrong-verdict", "%s: it returned %v instead of %v", where, err, want)
	}
}

// txAnswer answers a lookup of hash: one of error, lost connection, not
// found, malformed, pending, mined. It returns the error to be reported, and
// whether the transaction is mined.
func (n *fateNode) txAnswer(hash, extra string) (js string, rerr *seth.RPCError, fail interface{}, mined bool) {
	switch n.pick(7) {
	case 0:
		return `{"hash":"` + hash + `","transactionIndex":null,"blockNumber":null` + extra + `}`, nil, nil, false
	case 1:
		return `{"hash":"` + hash + `"` + extra + `}`, nil, nil, false
	case 2:
		return "", c08Err, c08Err, false
	case 3:
		return "", c08Lost, c08Lost, false
	case 4:
		return "null", nil, seth.ErrNotFound, false
	case 5:
		return `{"hash":"0x12"}`, nil, "any", false
	}
	return `{"hash":"` + hash + `","transactionIndex":"0x` + []string{"0", "1", "ff"}[n.pick(3)%3] + `","blockNumber":"0x5"` + extra + `}`, nil, nil, true
}

func runC08(r *mc.R) {
	h1 := seth.Hash{0: 1, 31: 9}
	me := addrOf(c07Key)
	other := addrOf(c07Other)

	r.Explore(mc.Opts{Name: "wait", Bound: fmt.Sprintf("%d answers of 7 kinds", r.N(9, 14))}, func(x *mc.X) {
		n := &fateNode{x: x, left: r.N(9, 14), max: 40}
		mined := false
		var fail interface{}
		n.answer = func(m string, p []interface{}) (string, *seth.RPCError) {
			if mined || fail != nil {
				x.Failf("asks-on", "asks %s %v after the fate was known: %s", m, p, n)
			}
			if m != "eth_getTransactionByHash" || len(p) != 1 || !wireIs(p[0], h1[:]) {
				x.Failf("request", "waiting asks %s %v: %s", m, p, n)
			}
			js, e, f, mi := n.txAnswer(wireD(h1[:]), "")
			fail, mined = f, mi
			return js, e
		}
		s := seth.NewSender(seth.NewClientTransport(n), me)
		var err error
		bubble(x, func() { h := h1; err = s.Wait(&h) })
		if !mined && fail == nil {
			x.Failf("too-early", "waiting returns %v before the transaction is mined: %s", err, n)
		}
		c08CheckErr(x, "wait: "+n.String(), fail, err)
		x.Case(n.String())
		x.Validated()
	})

	// transactions of the pending block
	type ptx struct{ from, hash, js string }
	mk := func(from *seth.Address, b byte, extra string) ptx {
		h := wireD(hashOf(b))
		f := "null"
		if from != nil {
			f = `"` + wireD(from[:]) + `"`
		}
		return ptx{f, h, fmt.Sprintf(`{"hash":"%s","from":%s,"nonce":"0x%x","transactionIndex":%s}`, h, f, b, extra)}
	}
	mine := `"` + wireD(me[:]) + `"`
	for _, idx := range []string{"null", `"0x0"`} {
		idx := idx
		a, b, o, none := mk(me, 0xa1, idx), mk(me, 0xb2, idx), mk(other, 0xc3, idx), mk(nil, 0xd4, idx)
		upper := a
		upper.js = strings.Replace(a.js, mine, `"0x`+strings.ToUpper(mine[3:len(mine)-1])+`"`, 1)
		lists := [][]ptx{{a}, {o, a}, {a, b}, {b, o}, {none, b}, {upper}, {o, none}, {o}, {}}
		r.Explore(mc.Opts{Name: "drain " + idx, Bound: fmt.Sprintf("%d answers; pending blocks of 9 shapes or failing; lookups of 7 kinds; 0-2 prompts", r.N(6, 10))}, func(x *mc.X) {
			n := &fateNode{x: x, left: r.N(6, 10), max: 40}
			var cur []ptx // own transactions in the last pending block
			var fail interface{}
			drained := false
			blockKnown := false
			waitingFor := ""
			var waited []string
			n.answer = func(m string, p []interface{}) (string, *seth.RPCError) {
				if fail != nil || drained {
					x.Failf("asks-on", "asks %s %v after the end was known: %s", m, p, n)
				}
				switch m {
				case "eth_getBlockByNumber":
					if len(p) != 2 || p[0] != "pending" || p[1] != true {
						x.Failf("request", "draining asks %s %v: %s", m, p, n)
					}
					if waitingFor != "" {
						x.Failf("gave-up", "draining looks at the pending block while %s is pending: %s", waitingFor, n)
					}
					k := n.pick(len(lists) + 3)
					switch k {
					case 0:
						fail = c08Err
						return "", c08Err
					case 1:
						fail = c08Lost
						return "", c08Lost
					case 2:
						fail = "any"
						return `{"number":null,"transactions":["` + a.hash + `"]}`, nil
					}
					l := lists[k-3]
					cur = nil
					var js []string
					for _, t := range l {
						js = append(js, t.js)
						if t.from == mine {
							cur = append(cur, t)
						}
					}
					drained = len(cur) == 0
					blockKnown = true
					return `{"number":null,"hash":null,"transactions":[` + strings.Join(js, ",") + `]}`, nil
				case "eth_getTransactionByHash":
					ok := false
					for _, t := range cur {
						ok = ok || len(p) == 1 && p[0] == t.hash
					}
					if !ok || !blockKnown {
						x.Failf("request", "draining asks %s %v: %s", m, p, n)
					}
					hash := p[0].(string)
					if waitingFor == "" {
						waited = append(waited, hash)
					} else if waitingFor != hash {
						x.Failf("gave-up", "draining asks for %s while %s is pending: %s", hash, waitingFor, n)
					}
					js, e, f, mined := n.txAnswer(hash, "")
					fail = f
					waitingFor = hash
					if mined {
						waitingFor = ""
					}
					return js, e
				}
				x.Failf("request", "draining asks %s %v: %s", m, p, n)
				return "", nil
			}
			s := seth.NewSender(seth.NewClientTransport(n), me)
			np := x.Choose(3)
			var prompted [2][]string
			var prompts []func(*seth.Transaction)
			for i := 0; i < np; i++ {
				i := i
				prompts = append(prompts, func(t *seth.Transaction) {
					if t == nil || t.From == nil || *t.From != *me {
						x.Failf("prompt", "prompts for %v: %s", t, n)
					}
					prompted[i] = append(prompted[i], wireD(t.Hash[:]))
				})
			}
			var err error
			bubble(x, func() { err = s.Drain(prompts...) })
			if !drained && fail == nil {
				x.Failf("too-early", "draining returns %v while transactions are pending: %s", err, n)
			}
			c08CheckErr(x, "drain: "+n.String(), fail, err)
			for i := 0; i < np; i++ {
				if !reflect.DeepEqual(prompted[i], waited) {
					x.Failf("prompt", "prompted for %v, waited for %v: %s", prompted[i], waited, n)
				}
			}
			x.Case(n.String(), fmt.Sprint(np))
			x.Validated()
		})
	}

	prices := []string{"0", "1", "49999999999", "50000000000", "50000000001", "9223372036854775806", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1000000000000000000000000000000"}
	nonces := []uint64{0, 1, 127, 1<<64 - 1}
	r.Explore(mc.Opts{Name: "cancel", Bound: fmt.Sprintf("original: 7 lookup answers x %d gas prices x %d nonces; %d prices of the sender; with and without a signer; failing estimate, send", len(prices), len(nonces), len(prices))}, func(x *mc.X) {
		cn := newC07Node()
		n := &fateNode{x: x, left: 1, max: 40}
		price, _ := new(big.Int).SetString(prices[x.Choose(len(prices))], 10)
		nonce := nonces[x.Choose(len(nonces))]
		var fail interface{}
		mined, looked := false, false
		n.answer = func(m string, p []interface{}) (string, *seth.RPCError) {
			if m != "eth_getTransactionByHash" {
				return cn.answer(m, p)
			}
			if len(p) != 1 || !wireIs(p[0], h1[:]) {
				x.Failf("request", "cancelling asks %s %v", m, p)
			}
			looked = true
			js, e, f, mi := n.txAnswer(wireD(h1[:]), fmt.Sprintf(`,"nonce":"0x%x","gasPrice":"0x%x","from":%s,"to":"%s","value":"0x5","gas":"0x9999","input":"0x1234"`, nonce, price, mine, wireD(other[:])))
			fail, mined = f, mi
			return js, e
		}
		s := seth.NewSender(seth.NewClientTransport(n), me)
		if p := prices[x.Choose(len(prices))]; p != "50000000000" {
			s.GasPrice = *bigInt(p)
		}
		si := x.Choose(2)
		if si == 1 {
			s.Signer = c07Signers[1].sign
		}
		cn.failing = []string{"", "eth_estimateGas", "eth_sendTransaction", "eth_sendRawTransaction"}[x.Choose(4)]
		h := h1
		var got seth.Hash
		var err error
		bubble(x, func() { got, err = s.Cancel(&h) })
		where := fmt.Sprintf("cancel, original price %v nonce %d, sender price %s, signer %s, failing %q: %s", price, nonce, &s.GasPrice, c07Signers[si].name, cn.failing, n)
		var rest []recReq
		sends := 0
		for _, q := range n.log {
			if q.Method != "eth_getTransactionByHash" {
				rest = append(rest, q)
			}
			if strings.HasPrefix(q.Method, "eth_send") {
				sends++
			}
		}
		if !looked {
			x.Failf("request", "%s: the original was not looked up", where)
		}
		switch {
		case fail != nil:
			c08CheckErr(x, where, fail, err)
			if sends > 0 {
				x.Failf("sent-anyway", "%s", where)
			}
		case mined:
			if err != seth.ErrCannotCancel {
				x.Failf("mined", "%s: it returned %v", where, err)
			}
			if sends > 0 {
				x.Failf("sent-anyway", "%s", where)
			}
		default:
			// the price is the sender's choice as long as it is higher
			nn := seth.Uint64(nonce)
			asked := &seth.CallOpts{From: me, To: me, Nonce: &nn}
			if len(rest) > 0 && cn.failing == "" {
				gp := c08Price(x, where, rest[len(rest)-1])
				if gp.Cmp(price) <= 0 {
					x.Failf("price", "%s: the replacement offers %v for %v", where, gp, price)
				}
				if s.GasPrice.Big().Cmp(price) > 0 && gp.Cmp(s.GasPrice.Big()) != 0 {
					x.Failf("price", "%s: the replacement offers %v instead of the sender's price", where, gp)
				}
				asked.GasPrice = (*seth.Int)(gp)
			} else {
				asked.GasPrice = &s.GasPrice
				if s.GasPrice.Big().Cmp(price) <= 0 {
					asked.GasPrice = (*seth.Int)(new(big.Int).Add(price, big.NewInt(1)))
				}
			}
			if cn.failing != "" { // the estimate may offer any price
				rest = dropEstimates(rest)
			}
			c07Check(x, where, s, cn, rest, si, asked, got, err)
		}
		x.Case(where)
		x.Validated()
	})

	code := [][]byte{{}, {0x60, 0x01}, make([]byte, 1000)}
	r.Explore(mc.Opts{Name: "create", Bound: fmt.Sprintf("%d lookup answers of 7 kinds x receipts of 6 kinds x failing estimate, nonce, send x signer x code x value", r.N(3, 4))}, func(x *mc.X) {
		cn := newC07Node()
		n := &fateNode{x: x, left: r.N(3, 4), max: 40}
		var fail interface{}
		mined, receipts, threw := false, 0, false
		var addr *seth.Address
		n.answer = func(m string, p []interface{}) (string, *seth.RPCError) {
			switch m {
			case "eth_getTransactionByHash":
				if len(p) != 1 || !wireIs(p[0], cn.sent[:]) || mined {
					x.Failf("request", "creating asks %s %v: %s", m, p, n)
				}
				js, e, f, mi := n.txAnswer(wireD(cn.sent[:]), "")
				fail, mined = f, mi
				return js, e
			case "eth_getTransactionReceipt":
				if len(p) != 1 || !wireIs(p[0], cn.sent[:]) {
					x.Failf("request", "creating asks %s %v: %s", m, p, n)
				}
				receipts++
				n.left = 1
				switch n.pick(7) {
				case 0:
					fail = c08Err
					return "", c08Err
				case 1:
					fail = c08Lost
					return "", c08Lost
				case 2:
					fail = seth.ErrNotFound
					return "null", nil
				case 3:
					fail = "any"
					return `{"status":"0x1","contractAddress":null}`, nil
				case 4:
					fail = "any"
					return `{"status":"0x0"}`, nil
				case 5:
					threw = true
					addr = &c06Addrs[2]
					return `{"status":"0x0","contractAddress":"` + wireD(addr[:]) + `"}`, nil
				}
				addr = &c06Addrs[1]
				return `{"status":"0x1","contractAddress":"` + wireD(addr[:]) + `","transactionHash":"` + wireD(cn.sent[:]) + `"}`, nil
			}
			return cn.answer(m, p)
		}
		s := seth.NewSender(seth.NewClientTransport(n), me)
		si := x.Choose(4)
		if si > 0 {
			s.Signer = c07Signers[si].sign
		}
		cn.failing = []string{"", "eth_estimateGas", "eth_getTransactionCount", "eth_sendTransaction", "eth_sendRawTransaction"}[x.Choose(5)]
		o := &seth.CallOpts{Data: code[x.Choose(len(code))]}
		if x.Bool() {
			o.Value = bigInt("0x123456789abcdef01")
		}
		var got seth.Address
		var err error
		bubble(x, func() { got, err = s.Create(append([]byte{}, o.Data...), o.Value) })
		var rest []recReq
		for _, q := range n.log {
			if q.Method != "eth_getTransactionByHash" && q.Method != "eth_getTransactionReceipt" {
				rest = append(rest, q)
			}
		}
		where := fmt.Sprintf("create, %s, failing %q, code of %d bytes, value %v: %s", c07Signers[si].name, cn.failing, len(o.Data), o.Value, n)
		herr := err
		sent := len(n.log) > len(rest)
		if sent {
			herr = nil // it was sent, whatever happened next
		}
		c07Check(x, where, s, cn, rest, si, o, cn.sent, herr)
		switch {
		case !sent:
			if err == nil {
				x.Failf("failure-ignored", "%s: it returned %s", where, &got)
			}
		case fail != nil:
			c08CheckErr(x, where, fail, err)
		case addr == nil:
			x.Failf("too-early", "%s: it returned %s, %v", where, &got, err)
		case threw:
			// the receipt's address or an error
			if err == nil && got != *addr {
				x.Failf("address", "%s: it returned %s", where, &got)
			}
		case err != nil || got != *addr:
			x.Failf("address", "%s: it returned %s, %v instead of %s", where, &got, err, addr)
		}
		if addr != nil && !mined {
			x.Failf("too-early", "%s: the receipt was asked for before the transaction was mined", where)
		}
		x.Case(where)
		x.Validated()
	})
}

func hashOf(b byte) []byte { h := hashFill(b); return h[:] }

func dropEstimates(rs []recReq) (out []recReq) {
	for _, q := range rs {
		if q.Method != "eth_estimateGas" {
			out = append(out, q)
		}
	}
	return
}

// c08Price is the gas price of a send request.
func c08Price(x *mc.X, where string, q recReq) *big.Int {
	if len(q.Params) != 1 {
		x.Failf("send-request", "%s: %s", where, q.Raw)
	}
	if m, ok := q.Params[0].(map[string]interface{}); ok {
		s, _ := m["gasPrice"].(string)
		i, ok := new(big.Int).SetString(s, 0)
		if !ok {
			x.Failf("send-request", "%s: %s", where, q.Raw)
		}
		return i
	}
	s, _ := q.Params[0].(string)
	tx := ethDecodeHex(s)
	if tx == nil {
		x.Failf("send-request", "%s: %s", where, q.Raw)
	}
	return tx.GasPrice()
}
