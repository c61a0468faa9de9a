package props

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync/atomic"
	"time"

	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"
	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{
		ID:    "C40",
		Level: "model_checking",
		Rule:  "every method x the product of raw parameter alphabets at several chain states, every malformed body, and every sequence of requests up to a depth, posted to the chain's HTTP server and executed in process on a twin chain; every start-up of the daemon from a table, against a recording node; a state is the serialised chain",
		Notes: []string{"the twin is the same chain built by the same history; histories themselves are decided by C23 to C28"},
		Run:   runC40,
	})
}

// post gives the server a request body and returns status and answer.
func c40Post(c *tevm.Chain, body string) (int, string) {
	w := httptest.NewRecorder()
	c.ServeHTTP(w, httptest.NewRequest("POST", "/", strings.NewReader(body)))
	return w.Code, w.Body.String()
}

// c40Answer reads a JSON-RPC 2.0 response, strictly.
func c40Answer(x *mc.X, req string, id int, status int, body string) (result json.RawMessage, errmsg string) {
	if status != 200 {
		x.Failf("status", "%s: status %d", req, status)
	}
	d := json.NewDecoder(strings.NewReader(body))
	var m map[string]json.RawMessage
	if err := d.Decode(&m); err != nil {
		x.Failf("response", "%s: answered %q: %v", req, body, err)
	}
	if d.Decode(new(interface{})) != io.EOF {
		x.Failf("response", "%s: answered %q, more than one document", req, body)
	}
	if string(m["id"]) != fmt.Sprint(id) {
		x.Failf("response-id", "%s: answered with id %s", req, m["id"])
	}
	if string(m["jsonrpc"]) != `"2.0"` {
		x.Failf("response-version", "%s: answered %q", req, body)
	}
	res, hasRes := m["result"]
	e, hasErr := m["error"]
	if string(e) == "null" {
		hasErr = false
	}
	if hasErr {
		if hasRes && string(res) != "null" {
			x.Failf("result-and-error", "%s: answered %q, with a result and an error", req, body)
		}
		var v struct {
			Code    *int
			Message *string
		}
		if err := json.Unmarshal(e, &v); err != nil || v.Code == nil || *v.Code == 0 || v.Message == nil || *v.Message == "" {
			x.Failf("response-error", "%s: answered %q", req, body)
		}
		return nil, fmt.Sprint(*v.Code, " ", *v.Message)
	}
	if !hasRes {
		x.Failf("response", "%s: answered %q", req, body)
	}
	return res, ""
}

// c40World is a chain with some history; two of them are alike.
func c40World(blocks int) *tevm.Chain {
	c, _ := newWorld(worldAccounts)
	c.State.Pending.Timestamp = 1500000000
	for i := 0; i < blocks; i++ {
		c.Mine(mkTx(adA, &adS, cat(word(0), word(uint64(i+5))), 0, 100000, i))
		c.Mine(mkTx(adA, &adB, nil, int64(i+1), 100000, i))
		c.Mine(mkTx(adA, &adL, cat(word(uint64(i)), word(1), word(2)), 0, 100000, i))
		// a slot that is new in this block
		c.Mine(mkTx(adA, &adS, cat(word(uint64(i+40)), word(1)), 0, 100000, i))
		c.Seal()
	}
	c.Mine(mkTx(adA, &adB, nil, 50, 100000, 9))
	c.Mine(mkTx(adA, &adS, cat(word(0), word(77)), 0, 100000, 9))
	return c
}

// sealTime: blocks are stamped with the time of day
var sealTime = regexp.MustCompile(`"timestamp":"0x[0-9a-f]+"`)

// c40Seen is everything a client can learn of the chain.
func c40Seen(c *tevm.Chain) string {
	var b strings.Builder
	for _, t := range []*tevm.Tree{&c.State.Accounts, &c.State.Code, &c.State.Storage, &c.State.Transactions, &c.State.Receipts} {
		t.Iterate(func(k, v []byte) bool {
			fmt.Fprintf(&b, "%x=%x ", k, v)
			return true
		})
		b.WriteString("\n")
	}
	c.State.Blocks.Iterate(func(k, v []byte) bool {
		var blk seth.Block
		if _, err := blk.UnmarshalMsg(v); err != nil {
			fmt.Fprintf(&b, "block %x: %v", k, err)
		}
		j, _ := json.Marshal(&blk)
		fmt.Fprintf(&b, "%x=%s ", k, j)
		return true
	})
	for _, v := range []interface{}{c.State.Pending, c.State.Logs, c.State.Refund} {
		j, _ := json.Marshal(v)
		b.Write(j)
	}
	return sealTime.ReplaceAllString(b.String(), "")
}

// twin executes the request in process.
func c40Exec(x *mc.X, c *tevm.Chain, method, params string, id int) (json.RawMessage, string) {
	req := seth.RPCRequest{Version: "2.0", Method: method, ID: id}
	json.Unmarshal([]byte(params), &req.Params)
	var res seth.RPCResponse
	if err := c.Execute(&req, &res); err != nil {
		x.Failf("execute", "%s %s: %v", method, params, err)
	}
	if res.Error.Code != 0 {
		return nil, fmt.Sprint(res.Error.Code, " ", res.Error.Message)
	}
	return res.Result, ""
}

func sameRaw(a, b json.RawMessage) bool {
	a, b = sealTime.ReplaceAll(a, []byte(`"timestamp":"0x0"`)), sealTime.ReplaceAll(b, []byte(`"timestamp":"0x0"`))
	var p, q interface{}
	return json.Unmarshal(a, &p) == nil && json.Unmarshal(b, &q) == nil && fmt.Sprintf("%#v", p) == fmt.Sprintf("%#v", q)
}

func runC40(r *mc.R) {
	log.SetOutput(io.Discard)
	q := func(a seth.Address) string { return `"` + a.String() + `"` }
	data := func(b ...[]byte) string { return `"` + (*seth.Data)(ptrBytes(cat(b...))).String() + `"` }
	specs := []string{`"latest"`, `"pending"`, `"earliest"`, `"0x64"`, `100`, `"100"`, `"0x65"`, `"0x66"`, `102`, `"0x67"`, `"0x7fffffffffffffff"`, `"0x8000000000000000"`, `"0x0"`, `"0xzz"`, `"safe"`, `-1`, `"-1"`, `"-0x1"`, `true`, `{}`, `[]`, `1.5`, `""`}
	bools := []string{"true", "false", "1", `"true"`}
	calls := []string{
		`{"from":` + q(adA) + `,"to":` + q(adS) + `,"data":` + data(word(0)) + `}`,
		`{"to":` + q(adS) + `,"data":` + data(word(0)) + `}`,
		`{"from":` + q(adA) + `,"to":` + q(adB) + `,"value":"0x3"}`,
		`{"from":` + q(adA) + `,"to":` + q(adB) + `,"value":"0xffffffffffff"}`,
		`{"from":` + q(adA) + `,"to":` + q(adR) + `}`,
		`{"from":` + q(adA) + `,"data":` + data(initOf(codeStore)) + `,"gas":"0x493e0"}`,
		`{"from":` + q(adA) + `,"to":` + q(adS) + `,"data":` + data(word(0), word(9)) + `,"gas":"0x10"}`,
		`{"from":` + q(adA) + `,"to":` + q(adS) + `,"data":` + data(word(0), word(9)) + `,"gas":"0xffffffffffffffff"}`,
		`{"from":` + q(adA) + `,"to":` + q(adB) + `,"value":"-0x3"}`,
		`{"from":` + q(adA) + `,"to":` + q(adS) + `,"data":` + data(word(41), word(9)) + `}`,
		`{"from":` + q(adA) + `,"to":` + q(adS) + `,"data":` + data(word(40), word(0)) + `,"gasPrice":"0x1"}`,
		`{"from":"0x12"}`, `{"to":7}`, `{"gas":"x"}`, `{"data":"0x1"}`, `[]`, `"x"`, `7`,
	}
	hashes := func(c *tevm.Chain) []string {
		out := []string{`"0x` + strings.Repeat("12", 32) + `"`, `"0x12"`, `7`, `"` + c.State.Pending.Hash.String() + `"`}
		for n := int64(100); n < int64(*c.State.Pending.Number)+1; n++ {
			b, err := c.Client().GetBlock(n, false)
			if err != nil {
				continue
			}
			out = append(out, `"`+b.Hash.String()+`"`)
			for _, t := range b.Transactions {
				out = append(out, string(t))
			}
		}
		return out
	}
	filts := []string{`{}`, `{"fromBlock":"latest"}`, `{"fromBlock":"0x64","toBlock":"0x65"}`, `{"fromBlock":"0x65","toBlock":"0x64"}`, `{"fromBlock":100}`, `{"address":` + q(adL) + `}`, `{"topics":[null,` + string(js40(word(2))) + `]}`, `{"topics":[]}`, `{"address":"x"}`, `{"topics":7}`, `[]`}
	fids := []string{`"0x1"`, `1`, `"0x2"`, `"0x0"`, `"x"`, `{}`, `"-0x1"`, `"0xffffffffffffffffffff"`, `"0x10000000000000001"`}
	// the parameters of every method
	methods := []struct {
		name string
		kind string
	}{
		{"eth_protocolVersion", ""}, {"eth_syncing", ""}, {"eth_gasPrice", ""}, {"eth_blockNumber", ""},
		{"eth_call", "cb"}, {"eth_estimateGas", "cb"}, {"eth_sendTransaction", "c"},
		{"eth_getTransactionReceipt", "h"}, {"eth_getTransactionByHash", "h"}, {"eth_getBlockByHash", "hB"}, {"eth_getBlockByNumber", "bB"},
		{"eth_getBalance", "ab"}, {"eth_newFilter", "f"}, {"eth_getFilterChanges", "i"}, {"eth_getFilterLogs", "i"}, {"eth_uninstallFilter", "i"},
		{"eth_nothing", ""}, {"", ""}, {"eth_getBalance ", "ab"}, {"ETH_CALL", "cb"},
	}
	addrs := []string{q(adA), q(adB), q(adN), `"0x12"`, `7`, `"` + strings.ToUpper(adB.String()[2:]) + `"`}
	r.Explore(mc.Opts{Name: "requests", Budget: -1, Bound: fmt.Sprintf("%d methods x the product of their parameters, as given, with one left out and with one too many; chains with 0 and 2 sealed blocks and a pending one", len(methods))}, func(x *mc.X) {
		blocks := []int{0, 2}[x.Choose(2)]
		m := methods[x.Choose(len(methods))]
		a, b := c40World(blocks), c40World(blocks)
		var ps []string
		for _, k := range m.kind {
			var alpha []string
			switch k {
			case 'c':
				alpha = calls
			case 'b':
				alpha = specs
			case 'h':
				alpha = hashes(b)
			case 'B':
				alpha = bools
			case 'a':
				alpha = addrs
			case 'f':
				alpha = filts
			case 'i':
				alpha = fids
			}
			ps = append(ps, alpha[x.Choose(len(alpha))])
		}
		shape := x.Choose(3)
		if shape == 1 {
			if len(ps) == 0 {
				x.Prune()
			}
			ps = ps[:len(ps)-1]
		} else if shape == 2 {
			ps = append(ps, "null")
		}
		if strings.HasPrefix(m.kind, "i") {
			for _, c := range []*tevm.Chain{a, b} {
				c40Exec(x, c, "eth_newFilter", `[{"address":`+q(adL)+`}]`, 1)
			}
		}
		params := "[" + strings.Join(ps, ",") + "]"
		id := 7 + len(params)*1000
		req := fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"method":%q,"params":%s}`, id, m.name, params)
		x.Step()
		before := c40Seen(b)
		status, body := c40Post(a, req)
		got, e1 := c40Answer(x, req, id, status, body)
		want, e2 := c40Exec(x, b, m.name, params, id)
		if e1 != e2 || e1 == "" && !sameRaw(got, want) {
			x.Failf("differs", "%s: answered %s, in process: %s %s", req, body, want, e2)
		}
		sa, sb := c40Seen(a), c40Seen(b)
		if sa != sb {
			x.Failf("state", "%s: the chain is in another state than the one it was done to in process", req)
		}
		if c40Seen(a) != before && (m.name != "eth_sendTransaction" || shape != 0 || e1 != "" && len(b.State.Pending.Transactions) != 3) {
			// a transaction that fails is part of the block
			x.Failf("changed", "%s: the chain changed", req)
		}
		bad := shape != 0 && !(shape == 1 && len(ps) == 0 && m.kind == "")
		known := false
		for _, k := range methods[:16] {
			known = known || k.name == m.name
		}
		if (bad || !known) && e1 == "" {
			x.Failf("not-refused", "%s: answered %s", req, body)
		}
		if !bad && known {
			c40Semantics(x, b, m.name, ps, got, e1, req)
		}
		if e1 == "" {
			x.Outcome("result")
		} else {
			x.Outcome("error")
		}
		x.Case(req, fmt.Sprint(blocks))
		x.Validated()
	})

	// ---- bodies that are no requests
	bodies := []string{``, ` `, `{`, `}`, `nul`, `"x"`, `7`, `true`, `[`, `[]`, `[{"jsonrpc":"2.0","id":1,"method":"eth_blockNumber","params":[]}]`,
		`{"jsonrpc":"2.0","id":1,"method":7,"params":[]}`, `{"jsonrpc":"2.0","id":1,"method":"eth_sendTransaction","params":{"from":` + q(adA) + `}}`, `{"jsonrpc":"2.0","id":1,"method":"eth_sendTransaction","params":[{"from":` + q(adA) + `,"to":` + q(adB) + `,"value":"0x1"}]`,
		`{"jsonrpc":"2.0","id":{},"method":"eth_sendTransaction","params":[{"from":` + q(adA) + `}]}`, `{"jsonrpc":"2.0","id":1,"method":"eth_sendTransaction","params":"x"}`, "\x00", "\xff\xfe", `{"jsonrpc":"2.0","id":1,,}`, strings.Repeat("[", 100000), strings.Repeat("{\"a\":", 20000), `POST / HTTP/1.1`}
	full := `{"jsonrpc":"2.0","id":1,"method":"eth_sendTransaction","params":[{"from":` + q(adA) + `,"to":` + q(adB) + `,"gas":"0x15f90","value":"0x1"}]}`
	for i := 1; i < len(full); i++ {
		bodies = append(bodies, full[:i])
	}
	r.Explore(mc.Opts{Name: "bodies", Bound: fmt.Sprintf("%d bodies that are no request, including every beginning of one that sends a transaction; the next request is served", len(bodies))}, func(x *mc.X) {
		c := c40World(1)
		before := c40Seen(c)
		body := bodies[x.Choose(len(bodies))]
		x.Step()
		status, ans := c40Post(c, body)
		if status < 400 {
			// an answer must then be an error
			var m struct {
				Result json.RawMessage
				Error  *struct{ Code int }
			}
			if json.Unmarshal([]byte(ans), &m) != nil || m.Error == nil || m.Error.Code == 0 || len(m.Result) > 0 && string(m.Result) != "null" {
				x.Failf("not-refused", "%.100q: status %d, %q", body, status, ans)
			}
		}
		if c40Seen(c) != before {
			x.Failf("changed", "%.100q: the chain changed", body)
		}
		req := `{"jsonrpc":"2.0","id":3,"method":"eth_blockNumber","params":[]}`
		status, ans = c40Post(c, req)
		if res, e := c40Answer(x, req, 3, status, ans); e != "" || string(res) != `"0x65"` {
			x.Failf("later", "after %.100q: %s answered %q", body, req, ans)
		}
		x.Case(body)
		x.Validated()
	})

	// ---- sequences of requests
	type rq struct{ method, params string }
	seq := []rq{
		{"eth_sendTransaction", `[{"from":` + q(adA) + `,"to":` + q(adB) + `,"gas":"0x15f90","value":"0x2"}]`},
		{"eth_sendTransaction", `[{"from":` + q(adA) + `,"to":` + q(adL) + `,"gas":"0x15f90","data":` + data(word(4), word(1), word(2)) + `}]`},
		{"eth_sendTransaction", `[{"from":` + q(adA) + `,"gas":"0x493e0","data":` + data(initOf(codeStore)) + `}]`},
		{"eth_sendTransaction", `[{"from":` + q(adA) + `,"to":` + q(adI) + `,"gas":"0x15f90"}]`},
		{"eth_getBlockByNumber", `["latest",true]`},
		{"eth_getBlockByNumber", `["pending",false]`},
		{"eth_getBalance", `[` + q(adB) + `,"latest"]`},
		{"eth_call", `[{"to":` + q(adS) + `,"data":` + data(word(0)) + `},"pending"]`},
		{"eth_estimateGas", `[{"from":` + q(adA) + `,"to":` + q(adS) + `,"data":` + data(word(0), word(3)) + `},"latest"]`},
		{"eth_newFilter", `[{"address":` + q(adL) + `}]`},
		{"eth_getFilterChanges", `["0x1"]`},
		{"eth_getFilterLogs", `["0x1"]`},
		{"eth_uninstallFilter", `["0x1"]`},
		{"", `{"jsonrpc":"2.0","id":1,"method":"eth_sendTransaction","params":[`}, // not a request
	}
	depth := r.N(3, 4)
	r.Explore(mc.Opts{Name: "sequences", Budget: -1, Bound: fmt.Sprintf("all sequences of %d requests out of %d", depth, len(seq))}, func(x *mc.X) {
		a, b := c40World(1), c40World(1)
		hist := ""
		for d := 0; d < depth; d++ {
			i := x.Choose(len(seq))
			s := seq[i]
			hist += fmt.Sprint(i, " ")
			x.Step()
			x.Logf("%s %s", s.method, s.params)
			if s.method == "" {
				if status, body := c40Post(a, s.params); status < 400 {
					x.Failf("not-refused", "%s: status %d, %s", s.params, status, body)
				}
				continue
			}
			req := fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"method":%q,"params":%s}`, d+40, s.method, s.params)
			status, body := c40Post(a, req)
			got, e1 := c40Answer(x, req, d+40, status, body)
			want, e2 := c40Exec(x, b, s.method, s.params, d+40)
			if e1 != e2 || e1 == "" && !sameRaw(got, want) {
				x.Failf("differs", "%s: answered %s, in process: %s %s", req, body, want, e2)
			}
		}
		sa := c40Seen(a)
		if sa != c40Seen(b) {
			x.Failf("state", "after %s the served chain and the one used in process differ", hist)
		}
		x.State(sa)
		x.Case(hist)
		x.Validated()
	})

	// ---- requests that lack something, after others that do not
	type part struct{ k, v string }
	wholes := [][]part{
		{{"jsonrpc", `"2.0"`}, {"id", "31"}, {"method", `"eth_getBalance"`}, {"params", `[` + q(adB) + `,"pending"]`}},
		{{"jsonrpc", `"2.0"`}, {"id", "32"}, {"method", `"eth_sendTransaction"`}, {"params", `[{"from":` + q(adA) + `,"to":` + q(adB) + `,"gas":"0x15f90","value":"0x7"}]`}},
		{{"jsonrpc", `"2.0"`}, {"id", "33"}, {"method", `"eth_blockNumber"`}, {"params", `[]`}},
		{{"jsonrpc", `"2.0"`}, {"id", "34"}, {"method", `"eth_newFilter"`}, {"params", `[{"fromBlock":"0x64","toBlock":"0x65","address":` + q(adL) + `,"topics":[` + string(js40(word(2))) + `]}]`}},
		{{"jsonrpc", `"2.0"`}, {"id", "35"}, {"method", `"eth_call"`}, {"params", `[{"from":` + q(adA) + `,"to":` + q(adS) + `,"data":` + data(word(0)) + `,"gas":"0x30d40"},"latest"]`}},
	}
	var incomplete []string
	for _, w := range wholes {
		for m := 0; m < 1<<uint(len(w)); m++ {
			var f []string
			for i, p := range w {
				if m>>uint(i)&1 == 0 {
					f = append(f, fmt.Sprintf("%q:%s", p.k, p.v))
				}
			}
			incomplete = append(incomplete, "{"+strings.Join(f, ",")+"}")
		}
	}
	incomplete = append(incomplete,
		`{"jsonrpc":"2.0","id":36,"method":"eth_sendTransaction","params":[{"from":`+q(adA)+`,"gas":"0x15f90","value":"0x7"}]}`,
		`{"jsonrpc":"2.0","id":37,"method":"eth_sendTransaction","params":[{"from":`+q(adA)+`,"to":`+q(adB)+`,"gas":"0x15f90"}]}`,
		`{"jsonrpc":"2.0","id":38,"method":"eth_sendTransaction","params":[{}]}`,
		`{"jsonrpc":"2.0","id":39,"method":"eth_newFilter","params":[{}]}`,
		`{"jsonrpc":"2.0","id":41,"method":"eth_call","params":[{"to":`+q(adS)+`},"latest"]}`,
		`{"jsonrpc":null,"id":null,"method":null,"params":null}`,
		`{"jsonrpc":"2.0","id":42,"method":"eth_blockNumber","params":null}`,
		`null`,
	)
	seen := map[string]bool{}
	var lacking []string
	for _, s := range incomplete {
		if !seen[s] {
			seen[s] = true
			lacking = append(lacking, s)
		}
	}
	nreq := r.N(2, 2)
	r.Explore(mc.Opts{Name: "incomplete", Budget: -1, Bound: fmt.Sprintf("every sequence of %d out of %d requests, among them every one without some of its members: each is answered as by a chain that never saw another request's members", nreq, len(lacking))}, func(x *mc.X) {
		a, b := c40World(1), c40World(1)
		for k := 0; k < nreq; k++ {
			body := lacking[x.Choose(len(lacking))]
			x.Step()
			x.Logf("%s", body)
			before := c40Seen(b)
			status, got := c40Post(a, body)
			var req seth.RPCRequest
			var res seth.RPCResponse
			if err := json.Unmarshal([]byte(body), &req); err != nil {
				panic(err)
			}
			err := b.Execute(&req, &res)
			if status != 200 {
				if c40Seen(b) != before || err == nil && res.Error.Code == 0 {
					x.Failf("differs", "%s: status %d, in process %s", body, status, res.Result)
				}
			} else if err != nil {
				x.Failf("differs", "%s: answered %s, in process %v", body, got, err)
			} else {
				var g seth.RPCResponse
				if err := json.Unmarshal([]byte(got), &g); err != nil {
					x.Failf("response", "%s: answered %q: %v", body, got, err)
				}
				if g.ID != res.ID || g.Version != res.Version || g.Error.Code != res.Error.Code || g.Error.Message != res.Error.Message || res.Error.Code == 0 && !sameRaw(g.Result, res.Result) {
					want, _ := json.Marshal(&res)
					x.Failf("differs", "%s: answered %s, in process %s", body, got, want)
				}
			}
			if !strings.Contains(body, `"method":"`) && strings.Contains(got, `"result"`) && !strings.Contains(got, `"error"`) {
				x.Failf("not-refused", "%s: answered %s", body, got)
			}
		}
		if c40Seen(a) != c40Seen(b) {
			x.Failf("state", "the served chain and the one used in process differ")
		}
		x.Validated()
	})

	// ---- over a socket, with the library's own client
	r.Explore(mc.Opts{Name: "over a socket", Bound: "the library's client over HTTP and in process: every pair of queries and transactions"}, func(x *mc.X) {
		a, b := c40World(1), c40World(1)
		srv := httptest.NewServer(a)
		defer srv.Close()
		ca, cb := seth.NewClientTransport(&seth.HTTPTransport{URL: srv.URL}), b.Client()
		ops := []func(c *seth.Client) (interface{}, error){
			func(c *seth.Client) (interface{}, error) { return c.Latest(true) },
			func(c *seth.Client) (interface{}, error) { return c.GetBlock(seth.Pending, true) },
			func(c *seth.Client) (interface{}, error) { return c.GetBlock(100, false) },
			func(c *seth.Client) (interface{}, error) { return c.GetBlock(5, false) },
			func(c *seth.Client) (interface{}, error) { return c.GetBalance(&adB) },
			func(c *seth.Client) (interface{}, error) { return c.GetBalanceAt(&adB, 100) },
			func(c *seth.Client) (interface{}, error) { return c.GetNonce(&adA) },
			func(c *seth.Client) (interface{}, error) { return c.GasPrice() },
			func(c *seth.Client) (interface{}, error) {
				s := seth.NewSender(c, &adA)
				h, err := s.Call(&seth.CallOpts{To: &adB, Value: seth.NewInt(1)})
				return h, err
			},
			func(c *seth.Client) (interface{}, error) {
				f, err := c.FilterTopics([]*seth.Hash{nil}, &adL, 0, -1)
				if f != nil {
					f.Close()
				}
				return nil, err
			},
		}
		for k := 0; k < 2; k++ {
			op := ops[x.Choose(len(ops))]
			x.Step()
			va, ea := op(ca)
			vb, eb := op(cb)
			ja, _ := json.Marshal(va)
			jb, _ := json.Marshal(vb)
			if (ea == nil) != (eb == nil) || ea != nil && ea.Error() != eb.Error() || ea == nil && !sameRaw(ja, jb) {
				x.Failf("differs", "over HTTP %s, %v; in process %s, %v", ja, ea, jb, eb)
			}
			x.Case(fmt.Sprint(k), string(ja))
		}
		if c40Seen(a) != c40Seen(b) {
			x.Failf("state", "the chain served over a socket differs")
		}
		x.Validated()
	})

	runTevmd(r, q)
}

func ptrBytes(b []byte) *[]byte { return &b }

func js40(w []byte) []byte { return []byte(`"` + (*seth.Data)(&w).String() + `"`) }

var hexQuantity = regexp.MustCompile(`^"0x(0|[1-9a-f][0-9a-f]*)"$`)

// c40Semantics says what a well-formed request has to be answered: every way
// of naming a block names the same block.
func c40Semantics(x *mc.X, c *tevm.Chain, method string, ps []string, got json.RawMessage, e, req string) {
	num := func(spec string) (n int64, ok, valid bool) {
		pend := int64(*c.State.Pending.Number)
		switch spec {
		case `"latest"`:
			if pend == 100 {
				return pend, true, true // nothing but the pending block
			}
			return pend - 1, true, true
		case `"pending"`:
			return pend, true, true
		case `"earliest"`, `"0x0"`:
			return 0, false, true
		case `"0x64"`, `100`, `"100"`:
			n = 100
		case `"0x65"`:
			n = 101
		case `"0x66"`, `102`:
			n = 102
		case `"0x67"`, `"0x7fffffffffffffff"`:
			return 0, false, true
		default:
			return 0, false, false
		}
		return n, n <= pend, true
	}
	fail := func(f string, args ...interface{}) {
		x.Failf("meaning", "%s: answered %s %s; %s", req, got, e, fmt.Sprintf(f, args...))
	}
	viewAt := func(n int64) *tevm.Chain {
		if n == int64(*c.State.Pending.Number) {
			return c
		}
		return c.AtBlock(n)
	}
	for _, p := range ps {
		// what no method can make sense of, where it is
		switch p {
		case `{"from":"0x12"}`, `{"to":7}`, `{"gas":"x"}`, `[]`, `"x"`, `7`, `"0x12"`, `{"address":"x"}`, `{"topics":7}`, `1.5`, `"0xzz"`, `"true"`:
			if e == "" {
				fail("%s has to be refused", p)
			}
			return
		}
	}
	switch method {
	case "eth_getBlockByHash":
		var b seth.Block
		if ps[1] == "1" || ps[0] == `"0x`+strings.Repeat("12", 32)+`"` {
			if e == "" {
				fail("this has to be refused")
			}
			return
		}
		if e == "" && (json.Unmarshal(got, &b) != nil || b.Hash == nil || `"`+b.Hash.String()+`"` != ps[0] || b.Number == nil) {
			fail("this is another block")
		}
		if e != "" {
			for n := int64(100); n <= int64(*c.State.Pending.Number); n++ {
				if b, err := c.Client().GetBlock(n, false); err == nil && `"`+b.Hash.String()+`"` == ps[0] {
					fail("this is the hash of block %d", n)
				}
			}
		}
		for _, t := range b.Transactions {
			var h seth.Hash
			var tx seth.Transaction
			if ps[1] == "false" && json.Unmarshal(t, &h) != nil || ps[1] == "true" && (json.Unmarshal(t, &tx) != nil || tx.Hash == (seth.Hash{})) {
				fail("transactions in full: %s", ps[1])
			}
		}
	case "eth_getTransactionReceipt", "eth_getTransactionByHash":
		var h seth.Hash
		json.Unmarshal([]byte(ps[0]), &h)
		known := false
		last := int64(*c.State.Pending.Number)
		if method == "eth_getTransactionReceipt" {
			last-- // until a block is sealed there are no receipts
		}
		for n := int64(100); n <= last; n++ {
			if b, err := c.Client().GetBlock(n, false); err == nil {
				for _, t := range b.Transactions {
					known = known || string(t) == ps[0]
				}
			}
		}
		var v struct{ Hash, TransactionHash seth.Hash }
		if known != (e == "") || known && (json.Unmarshal(got, &v) != nil || v.Hash != h && v.TransactionHash != h) {
			fail("the chain knows of the transaction: %v", known)
		}
	}
	switch method {
	case "eth_protocolVersion", "eth_gasPrice", "eth_blockNumber", "eth_getBalance", "eth_estimateGas", "eth_newFilter":
		if e == "" && !hexQuantity.Match(got) {
			fail("this is no quantity")
		}
	}
	switch method {
	case "eth_getFilterChanges", "eth_getFilterLogs":
		if (e == "") != (ps[0] == `"0x1"` || ps[0] == "1") {
			fail("the only filter is number 1")
		}
	case "eth_uninstallFilter":
		if (e == "" && string(got) == "true") != (ps[0] == `"0x1"` || ps[0] == "1") {
			fail("the only filter is number 1")
		}
	case "eth_blockNumber":
		if string(got) != fmt.Sprintf(`"0x%x"`, int64(*c.State.Pending.Number)) {
			fail("the pending block is %d", *c.State.Pending.Number)
		}
	case "eth_getBalance":
		n, ok, valid := num(ps[1])
		var a seth.Address
		if json.Unmarshal([]byte(ps[0]), &a) != nil {
			valid = false
		}
		if !valid || !ok {
			if e == "" {
				fail("this has to be refused")
			}
			return
		}
		var v seth.Int
		if e != "" || json.Unmarshal(got, &v) != nil || v.Big().Cmp(viewAt(n).BalanceOf(&a)) != 0 {
			fail("the balance at %d is %v", n, viewAt(n).BalanceOf(&a))
		}
	case "eth_call":
		n, ok, valid := num(ps[1])
		if !valid || !ok {
			if e == "" {
				fail("this has to be refused")
			}
			return
		}
		if strings.Contains(ps[0], adS.String()) && strings.Contains(ps[0], string(js40(word(0)))) && !strings.Contains(ps[0], "gas") {
			v := viewAt(n)
			w := v.State.StateDB().GetState([20]byte(adS), worldSlots[0])
			if e != "" || string(got) != string(js40(w[:])) {
				fail("the slot holds %x at %d", w, n)
			}
		}
	case "eth_estimateGas":
		n, ok, valid := num(ps[1])
		if !valid || !ok {
			if e == "" {
				fail("this has to be refused")
			}
			return
		}
		// the same question put to a chain that ends with that block
		res, e2 := c40Exec(x, viewAt(n), method, "["+ps[0]+`,"pending"]`, 1)
		if e != e2 || string(got) != string(res) {
			fail("at %d it takes %s %s", n, res, e2)
		}
	case "eth_getBlockByNumber":
		n, ok, valid := num(ps[0])
		if !valid || !ok || ps[1] != "true" && ps[1] != "false" {
			if e == "" {
				fail("this has to be refused")
			}
			return
		}
		var b seth.Block
		if e != "" || json.Unmarshal(got, &b) != nil || b.Number == nil || int64(*b.Number) != n {
			fail("this is block %d", n)
		}
		if n < int64(*c.State.Pending.Number) && len(b.Transactions) != 4 {
			fail("block %d has 4 transactions", n)
		}
	}
}

var tevmdNo int64

// runTevmd starts the daemon in every way of a table.
func runTevmd(r *mc.R, q func(seth.Address) string) {
	node := newToolNode()
	defer node.close()
	scratch, done := toolScratch(r, "C40")
	defer done()
	type start struct {
		name   string
		args   func(url string) []string
		fork   int64 // -1: no fork; -2: the node's latest
		refuse bool
	}
	starts := []start{
		{"fresh", func(string) []string { return nil }, -1, false},
		{"fork at 5", func(u string) []string { return []string{"-e", u, "fork", "5"} }, 5, false},
		{"fork at 9876543", func(u string) []string { return []string{"-e", u, "fork", "9876543"} }, 9876543, false},
		{"fork at 0", func(u string) []string { return []string{"-e", u, "fork", "0"} }, 0, false},
		{"fork at the latest", func(u string) []string { return []string{"-e", u, "fork"} }, -2, false},
		{"fork x", func(u string) []string { return []string{"-e", u, "fork", "x"} }, 0, true},
		{"fork 5 6", func(u string) []string { return []string{"-e", u, "fork", "5", "6"} }, 0, true},
		{"fork of nothing", func(u string) []string { return []string{"-e", "/nonexistent/ipc", "fork", "5"} }, 0, true},
		{"fork of a failing node", func(u string) []string { return []string{"-e", u, "fork"} }, -3, true},
		{"bad flag", func(u string) []string { return []string{"-nosuch"} }, 0, true},
	}
	r.Explore(mc.Opts{Name: "daemon", Bound: fmt.Sprintf("%d ways to start it, from a node over HTTP and over a socket, quiet and verbose", len(starts))}, func(x *mc.X) {
		s := starts[x.Choose(len(starts))]
		ipc, verbose := x.Bool(), x.Bool()
		var asked []recReq
		talk, url := node.talk(func(method string, p []interface{}) (string, string) {
			switch method {
			case "eth_getBlockByNumber":
				if s.fork == -3 {
					return "", "not now"
				}
				b, _ := json.Marshal(c39Chain{latest: 9}.doc(9, false))
				return string(b), ""
			case "eth_getBalance":
				return `"0x1234"`, ""
			case "eth_getTransactionCount", "eth_getStorageAt":
				return `"0x0"`, ""
			case "eth_getCode":
				return `"0x"`, ""
			}
			return "", "unexpected " + method
		})
		defer node.done(url)
		n := atomic.AddInt64(&tevmdNo, 1)
		src := url
		if ipc {
			src = filepath.Join(scratch, fmt.Sprintf("n%d.ipc", n))
			l, err := net.Listen("unix", src)
			if err != nil {
				panic(err)
			}
			defer l.Close()
			go func() {
				for {
					c, err := l.Accept()
					if err != nil {
						return
					}
					go func() { // each request in turn is passed on to the recording node
						defer c.Close()
						d := json.NewDecoder(c)
						for {
							var raw json.RawMessage
							if d.Decode(&raw) != nil {
								return
							}
							res, err := http.Post(url, "application/json", bytes.NewReader(raw))
							if err != nil {
								return
							}
							io.Copy(c, res.Body)
							res.Body.Close()
						}
					}()
				}
			}()
		}
		addr := fmt.Sprintf("127.%d.%d.%d:18043", 10+os.Getpid()%100, n/200, n%200+1)
		args := append([]string{"-a", addr}, s.args(src)...)
		if verbose {
			args = append([]string{"-v"}, args...)
		}
		cmd := exec.Command(filepath.Join(os.Getenv("MC_BIN"), "tevmd"), args...)
		cmd.Env = []string{"HOME=" + scratch, "PATH=/nonexistent"}
		pr, pw, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		cmd.Stderr = pw
		x.Step()
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		pw.Close()
		lines := make(chan string, 10000)
		go func() {
			sc := bufio.NewScanner(pr)
			sc.Buffer(nil, 1<<20)
			for sc.Scan() {
				lines <- sc.Text()
			}
			close(lines)
			io.Copy(io.Discard, pr)
		}()
		exit := make(chan error, 1)
		go func() { exit <- cmd.Wait() }()
		defer func() { cmd.Process.Kill(); pr.Close() }()
		where := fmt.Sprintf("tevmd %q", args)
		if s.refuse {
			select {
			case err := <-exit:
				if err == nil {
					x.Failf("not-refused", "%s exits with 0", where)
				}
			case <-time.After(20 * time.Second):
				x.Failf("not-refused", "%s does not exit", where)
			}
			x.Case(s.name, fmt.Sprint(ipc, verbose))
			return
		}
		var acct, text string
		deadline := time.After(60 * time.Second)
		for acct == "" {
			select {
			case l, ok := <-lines:
				if !ok {
					x.Failf("start", "%s: exits: %s", where, text)
				}
				text += l + "\n"
				if i := strings.Index(l, "default account: "); i >= 0 {
					acct = l[i+len("default account: "):]
				}
			case <-deadline:
				x.Failf("start", "%s: does not start: %s", where, text)
			}
		}
		var cl *seth.Client
		for try := 0; ; try++ {
			c, err := net.Dial("tcp", addr)
			if err == nil {
				c.Close()
				break
			}
			if try > 1000 {
				x.Failf("start", "%s: does not listen: %v", where, err)
			}
			time.Sleep(20 * time.Millisecond)
		}
		cl = seth.NewClientTransport(&seth.HTTPTransport{URL: "http://" + addr})
		a, err := seth.ParseAddress(acct)
		if err != nil {
			x.Failf("start", "%s: default account %q", where, acct)
		}
		bal := func(who *seth.Address) string {
			b, err := cl.GetBalanceAt(who, seth.Pending)
			if err != nil {
				x.Failf("balance", "%s: balance: %v", where, err)
			}
			return b.String()
		}
		if b := bal(a); b != "0x8ac7230489e80000" {
			x.Failf("default-account", "%s: the default account holds %s wei", where, b)
		}
		other := "0x0"
		wantNum := "0x64"
		forkAt := s.fork
		if forkAt == -2 {
			forkAt = 9
		}
		if forkAt >= 0 {
			other, wantNum = "0x1234", fmt.Sprintf("0x%x", forkAt+1)
		}
		if b := bal(&adB); b != other {
			x.Failf("fork", "%s: an account of the node's holds %s, want %s", where, b, other)
		}
		var num string
		if err := cl.Do("eth_blockNumber", nil, &num); err != nil || num != wantNum {
			x.Failf("fork", "%s: the block is %s, %v; want %s", where, num, err, wantNum)
		}
		if _, err := seth.NewSender(cl, a).Call(&seth.CallOpts{To: &adB, Value: seth.NewInt(6)}); err != nil {
			x.Failf("send", "%s: sending from the default account: %v", where, err)
		}
		wb := "0x6"
		if forkAt >= 0 {
			wb = "0x123a"
		}
		if b := bal(&adB); b != wb {
			x.Failf("send", "%s: the recipient holds %s, want %s", where, b, wb)
		}
		if b := bal(a); b != "0x8ac7230489e7fffa" {
			x.Failf("send", "%s: the sender holds %s", where, b)
		}
		node.mu.Lock()
		asked = append(asked, talk.asked...)
		node.mu.Unlock()
		for _, k := range asked {
			switch k.Method {
			case "eth_getBlockByNumber":
				if s.fork != -2 || k.Params[0] != "latest" {
					x.Failf("asked", "%s: asked the node %v", where, k)
				}
			case "eth_getBalance", "eth_getTransactionCount", "eth_getCode", "eth_getStorageAt":
				want := fmt.Sprintf("0x%x", forkAt)
				if p := k.Params[len(k.Params)-1]; forkAt < 0 || p != want && !(forkAt == 0 && p == "earliest") {
					x.Failf("asked", "%s: asked the node %v", where, k)
				}
			default:
				x.Failf("asked", "%s: asked the node %v", where, k)
			}
		}
		if forkAt >= 0 && len(asked) == 0 || forkAt < 0 && len(asked) > 0 {
			x.Failf("asked", "%s: asked the node %v", where, asked)
		}
		x.Case(s.name, fmt.Sprint(ipc, verbose))
		x.Validated()
	})
}
