package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/url"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"
	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{
		ID:    "C03",
		Level: "exploration",
		Rule:  "every response of the grammar (result x error x layout) x every destination type x every transport and delivery; and all pairs of consecutive outcomes on one transport; a case is non-trivial if the response reached the client and its outcome was compared",
		Notes: []string{"HTTP runs over a substituted http.DefaultTransport, the stream over an in-memory pipe; no network is used"},
		Run:   runC03,
	})
}

// c03Answer is what the peer does with a request.
type c03Answer struct {
	body    string // with ID for the request's id
	status  int
	chunk   int  // bytes per read, 0: all at once
	cut     bool // the connection breaks at the end of the body
	refused bool // no response at all
}

// c03Net answers HTTP requests; the executions are told apart by the method.
type c03Net struct {
	mu   sync.Mutex
	post sync.Mutex
	m    map[string]func(r *http.Request, body []byte) c03Answer
}

func (n *c03Net) RoundTrip(r *http.Request) (*http.Response, error) {
	var body []byte
	if r.Body != nil {
		body, _ = io.ReadAll(r.Body)
		r.Body.Close()
	}
	var rq seth.RPCRequest
	json.Unmarshal(body, &rq)
	method := rq.Method
	if r.Method == "GET" {
		method = r.URL.Path[strings.LastIndexByte(r.URL.Path, '/')+1:]
	}
	if i := strings.IndexByte(r.URL.Host, '.'); strings.HasPrefix(r.URL.Host, "c") && strings.HasSuffix(r.URL.Host, ".test") {
		method = r.URL.Host[:i]
	}
	n.mu.Lock()
	f := n.m[method]
	n.mu.Unlock()
	if f == nil {
		return nil, errors.New("verif: no such host")
	}
	a := f(r, body)
	if a.refused {
		return nil, errors.New("verif: connection refused")
	}
	return &http.Response{
		StatusCode: a.status, Status: fmt.Sprint(a.status, " ", http.StatusText(a.status)),
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {"application/json"}},
		ContentLength: -1, Request: r,
		Body: io.NopCloser(&chunked{b: []byte(a.body), n: a.chunk, cut: a.cut}),
	}, nil
}

type chunked struct {
	b   []byte
	n   int
	cut bool
}

func (c *chunked) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		if c.cut {
			return 0, io.ErrUnexpectedEOF
		}
		return 0, io.EOF
	}
	n := len(p)
	if c.n > 0 && n > c.n {
		n = c.n
	}
	n = copy(p[:n], c.b)
	c.b = c.b[n:]
	return n, nil
}

// c03Conn is the stream's peer: it answers every request from answer.
type c03Conn struct {
	mu     sync.Mutex
	cond   *sync.Cond
	in     []byte
	cut    bool
	chunk  int
	closed bool
	part   []byte
	answer func(rq *seth.RPCRequest) c03Answer
}

func (c *c03Conn) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for len(c.in) == 0 && !c.closed && !c.cut {
		c.cond.Wait()
	}
	if c.closed {
		return 0, io.ErrClosedPipe
	}
	if len(c.in) == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if c.chunk > 0 && n > c.chunk {
		n = c.chunk
	}
	n = copy(p[:n], c.in)
	c.in = c.in[n:]
	return n, nil
}

func (c *c03Conn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return 0, io.ErrClosedPipe
	}
	c.part = append(c.part, p...)
	for {
		var rq seth.RPCRequest
		d := json.NewDecoder(bytes.NewReader(c.part))
		if d.Decode(&rq) != nil {
			return len(p), nil
		}
		c.part = c.part[d.InputOffset():]
		a := c.answer(&rq)
		c.in = append(c.in, a.body...)
		c.chunk = a.chunk
		c.cut = c.cut || a.cut || a.refused
		c.cond.Broadcast()
	}
}

func (c *c03Conn) Close() error {
	c.mu.Lock()
	c.closed = true
	c.cond.Broadcast()
	c.mu.Unlock()
	return nil
}

// direct is an in-process transport.
type direct struct {
	answer func(rq *seth.RPCRequest) c03Answer
}

func (d *direct) Execute(rq *seth.RPCRequest, res *seth.RPCResponse) error {
	a := d.answer(rq)
	if a.refused {
		return errors.New("verif: not today")
	}
	return json.Unmarshal([]byte(a.body), res)
}

var c03Transports = []string{"stream", "http", "direct", "infura get", "infura post"}

var c03Posts = []string{"eth_sendRawTransaction", "eth_estimateGas", "eth_submitWork", "eth_submitHashrate"}

type c03Response struct {
	name   string
	result string // "" if absent
	err    string // "" if absent
	bad    bool   // the response cannot be decoded
	isErr  bool
	code   int
	msg    string
	data   string // JSON of the error's data, "" if none
}

func c03Results() []string {
	return []string{
		``, `null`, `"0x2a"`, `"0x"`, `"zz"`, `""`, `42`, `-1`, `1.5`, `true`, `false`, `[]`, `{}`, `"0x1234567890123456789012345678901234567890"`,
		`"0x1234567890123456789012345678901234567890123456789012345678901234"`, `["0x1234567890123456789012345678901234567890"]`,
		`{"number":"0x10","timestamp":"0x11","transactions":["0x01"]}`, `{"number":null}`, `{"number":{}}`, `[{"logIndex":"0x1","topics":["0x01","0x02"],"data":"0x"}]`, `[1,2]`,
		`"0xffffffffffffffff"`, `"0x10000000000000000"`, `"null"`, `"a\"b\u00e9"`, ` null `, `"` + strings.Repeat("ab", 3000) + `"`,
	}
}

var c03Errors = []c03Response{
	{name: "absent"},
	{name: "null", err: `null`},
	{name: "code and message", err: `{"code":-32000,"message":"insufficient funds"}`, isErr: true, code: -32000, msg: "insufficient funds"},
	{name: "with data", err: `{"code":3,"message":"execution reverted","data":"0x08c379a0"}`, isErr: true, code: 3, msg: "execution reverted", data: `"0x08c379a0"`},
	{name: "with data object", err: `{"message":"m","data":{"a":[1,null]},"code":-32601}`, isErr: true, code: -32601, msg: "m", data: `{"a":[1,null]}`},
	{name: "with null data", err: `{"code":1,"message":"m","data":null}`, isErr: true, code: 1, msg: "m", data: `null`},
	{name: "no message", err: `{"code":-1,"message":""}`, isErr: true, code: -1},
	{name: "only a code", err: `{"code":7}`, isErr: true, code: 7},
	{name: "only a message", err: `{"message":"boo"}`, isErr: true, msg: "boo"},
	{name: "zero code", err: `{"code":0,"message":"boo"}`, isErr: true, msg: "boo"},
	{name: "string", err: `"failed"`, bad: true},
	{name: "ill-typed code", err: `{"code":"x","message":"m"}`, bad: true},
}

var c03Dests = []struct {
	name string
	mk   func() interface{}
}{
	{"string", func() interface{} { return new(string) }},
	{"Int", func() interface{} { return new(seth.Int) }},
	{"Uint64", func() interface{} { return new(seth.Uint64) }},
	{"Hash", func() interface{} { return new(seth.Hash) }},
	{"Address", func() interface{} { return new(seth.Address) }},
	{"Data", func() interface{} { return new(seth.Data) }},
	{"bool", func() interface{} { return new(bool) }},
	{"RawMessage", func() interface{} { return new(json.RawMessage) }},
	{"Block", func() interface{} { return new(seth.Block) }},
	{"[]Log", func() interface{} { return new([]seth.Log) }},
	{"[]Address", func() interface{} { return new([]seth.Address) }},
	{"interface", func() interface{} { return new(interface{}) }},
}

// c03Layouts arrange the members of a response.
var c03Layouts = []func(id int, result, err string) string{
	func(id int, result, err string) string {
		s := fmt.Sprintf(`{"jsonrpc":"2.0","id":%d`, id)
		if result != "" {
			s += `,"result":` + result
		}
		if err != "" {
			s += `,"error":` + err
		}
		return s + "}\n"
	},
	func(id int, result, err string) string {
		s := "{"
		if err != "" {
			s += ` "error" : ` + err + " ,"
		}
		if result != "" {
			s += ` "result" : ` + result + " ,"
		}
		return s + fmt.Sprintf(` "id" : %d , "extra":{"error":{"code":5}} } `, id)
	},
}

var c03Serial int64

type c03Client struct {
	*seth.Client
	close  func()
	method string
}

// newC03 makes a client over the given transport; answer is what its peer does.
func newC03(x *mc.X, netw *c03Net, kind string, answer func(rq *seth.RPCRequest) c03Answer) *c03Client {
	serial := atomic.AddInt64(&c03Serial, 1)
	c := &c03Client{method: fmt.Sprintf("m%d", serial), close: func() {}}
	listen := func(key string) {
		netw.mu.Lock()
		netw.m[key] = func(r *http.Request, body []byte) c03Answer {
			var rq seth.RPCRequest
			if r.Method == "GET" && kind == "infura post" {
				x.Failf("http-request", "%s was not posted", c.method)
			}
			if r.Method == "GET" {
				rq.Method = r.URL.Path[strings.LastIndexByte(r.URL.Path, '/')+1:]
				q, err := url.ParseQuery(r.URL.RawQuery)
				if err != nil || json.Unmarshal([]byte(q.Get("params")), &rq.Params) != nil {
					x.Failf("http-request", "bad query %q", r.URL.RawQuery)
				}
				rq.ID = 1
			} else {
				if r.Method != "POST" || r.Header.Get("Content-Type") != "application/json" {
					x.Failf("http-request", "%s with content type %q", r.Method, r.Header.Get("Content-Type"))
				}
				if err := json.Unmarshal(body, &rq); err != nil || rq.Version != "2.0" {
					x.Failf("http-request", "body %q (%v)", body, err)
				}
			}
			return answer(&rq)
		}
		netw.mu.Unlock()
		c.close = func() {
			netw.mu.Lock()
			delete(netw.m, key)
			netw.mu.Unlock()
		}
	}
	switch kind {
	case "stream":
		var conns []*c03Conn
		c.Client = seth.NewClient(func() (io.ReadWriteCloser, error) {
			cn := &c03Conn{answer: answer}
			cn.cond = sync.NewCond(&cn.mu)
			conns = append(conns, cn)
			return cn, nil
		})
		c.close = func() {
			for _, cn := range conns {
				cn.Close()
			}
		}
	case "http":
		key := fmt.Sprintf("c%d", serial)
		c.Client = seth.NewHTTPClient("http://" + key + ".test/rpc?key=a%20b")
		listen(key)
	case "infura get":
		c.Client = seth.NewClientTransport(seth.InfuraTransport{})
		listen(c.method)
	case "infura post":
		c.Client = seth.NewClientTransport(seth.InfuraTransport{})
		c.method = c03Posts[x.Choose(len(c03Posts))]
		netw.post.Lock() // the requests of different executions look alike
		listen(c.method)
		unlisten := c.close
		c.close = func() {
			unlisten()
			netw.post.Unlock()
		}
	case "direct":
		c.Client = seth.NewClientTransport(&direct{answer})
	}
	return c
}

func c03Check(x *mc.X, where string, r c03Response, err error, dest, ref interface{}) string {
	switch {
	case r.bad:
		if err == nil {
			x.Failf("bad-accepted", "%s: the call succeeded with %s", where, mustJSON(dest))
		}
		return "undecodable"
	case r.isErr:
		var e *seth.RPCError
		if !errors.As(err, &e) {
			x.Failf("error-lost", "%s: the call returned %v, not the server's error", where, err)
		}
		data := string(bytes.TrimSpace(e.Data))
		if e.Code != r.code || e.Message != r.msg || data != r.data && !(data == "" && r.data == "null") {
			x.Failf("error-changed", "%s: the error arrived as code %d, message %q, data %s", where, e.Code, e.Message, e.Data)
		}
		if s := e.Error(); !strings.Contains(s, r.msg) || !strings.Contains(s, strconv.Itoa(r.code)) {
			x.Failf("error-text", "%s: the error prints as %q", where, s)
		}
		return "error"
	case strings.TrimSpace(r.result) == "null":
		if err != seth.ErrNotFound {
			x.Failf("not-found", "%s: a null result gave %v", where, err)
		}
		return "not found"
	case r.result == "":
		if err == nil {
			x.Failf("no-result", "%s: the call succeeded without a result", where)
		}
		return "no result"
	}
	if rerr := json.Unmarshal([]byte(r.result), ref); rerr != nil {
		if err == nil {
			x.Failf("ill-typed", "%s: the call succeeded with %s", where, mustJSON(dest))
		}
		return "ill-typed"
	}
	if err != nil {
		x.Failf("result-lost", "%s: the call failed with %v", where, err)
	}
	if !reflect.DeepEqual(dest, ref) {
		x.Failf("result-changed", "%s: the destination holds %s", where, mustJSON(dest))
	}
	return "result"
}

// sameJSON tells whether two texts denote the same JSON value.
func sameJSON(a json.RawMessage, b string) bool {
	var x, y interface{}
	return json.Unmarshal(a, &x) == nil && json.Unmarshal([]byte(b), &y) == nil && reflect.DeepEqual(x, y)
}

func mustJSON(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return fmt.Sprintf("%.300s", b)
}

func runC03(r *mc.R) {
	log.SetOutput(io.Discard)
	netw := &c03Net{m: map[string]func(*http.Request, []byte) c03Answer{}}
	old := http.DefaultTransport
	http.DefaultTransport = netw
	defer func() { http.DefaultTransport = old }()

	results := c03Results()
	r.Explore(mc.Opts{Name: "outcomes", Bound: fmt.Sprintf("%d results x %d errors x %d layouts x %d destinations x %d transports", len(results), len(c03Errors), len(c03Layouts), len(c03Dests), len(c03Transports))}, func(x *mc.X) {
		kind := c03Transports[x.Choose(len(c03Transports))]
		resp := c03Errors[x.Choose(len(c03Errors))]
		resp.result = results[x.Choose(len(results))]
		li := x.Choose(len(c03Layouts))
		dt := c03Dests[x.Choose(len(c03Dests))]
		chunk := 0
		if li == 1 && len(resp.result) < 200 {
			chunk = x.Choose(2) * 3
		}
		asked := 0
		var sent string
		c := newC03(x, netw, kind, func(rq *seth.RPCRequest) c03Answer {
			asked++
			if len(rq.Params) != 2 || !sameJSON(rq.Params[0], `"p q&r+%41#;é/?="`) || !sameJSON(rq.Params[1], `{"a":[1]}`) {
				x.Failf("request", "%s: the parameters arrived as %s", kind, rq.Params)
			}
			sent = c03Layouts[li](rq.ID, resp.result, resp.err)
			return c03Answer{body: sent, status: 200, chunk: chunk}
		})
		defer c.close()
		dest := dt.mk()
		err := c.Do(c.method, []json.RawMessage{json.RawMessage(`"p q&r+%41#;é/?="`), json.RawMessage(`{"a":[1]}`)}, dest)
		x.Step()
		where := fmt.Sprintf("%s, response %.200q, into a %s", kind, sent, dt.name)
		if asked != 1 {
			x.Failf("request", "%s: %d requests were made", where, asked)
		}
		out := c03Check(x, where, resp, err, dest, dt.mk())
		x.Outcome(kind + " " + out)
		x.Case(kind, resp.name, resp.result, fmt.Sprint(li, chunk), dt.name)
		x.Validated()
	})

	r.Explore(mc.Opts{Name: "http failures", Bound: "statuses x bodies; truncated, empty and non-JSON bodies; refused connections"}, func(x *mc.X) {
		kind := []string{"http", "infura get", "infura post"}[x.Choose(3)]
		statuses := []int{200, 400, 401, 403, 404, 405, 429, 500, 502, 503, 504}
		status := statuses[x.Choose(len(statuses))]
		good := func(id int) string { return c03Layouts[0](id, `"0x2a"`, "") }
		bodies := []func(id int) string{
			good,
			func(id int) string { return "" },
			func(id int) string { return "<html>502</html>" },
			func(id int) string { return c03Layouts[0](id, "", `{"code":-5,"message":"m"}`) },
			func(id int) string { s := good(id); return s[:len(s)-3] },
			func(id int) string { s := good(id); return s[:len(s)/2] },
			func(id int) string { return "[" + good(id) + "]" },
			func(id int) string { return `"0x2a"` },
			func(id int) string { return "null" },
		}
		bi := x.Choose(len(bodies))
		cut := x.Bool()
		refused := x.Bool()
		c := newC03(x, netw, kind, func(rq *seth.RPCRequest) c03Answer {
			return c03Answer{body: bodies[bi](rq.ID), status: status, cut: cut, refused: refused}
		})
		defer c.close()
		var out seth.Int
		err := c.Do(c.method, nil, &out)
		x.Step()
		where := fmt.Sprintf("%s, status %d, body %d, cut %v, refused %v", kind, status, bi, cut, refused)
		ok := status == 200 && bi == 0 && !refused
		if ok && !cut && (err != nil || out.Int64() != 42) {
			x.Failf("result-lost", "%s: %v, %v", where, err, &out)
		}
		if ok && cut && err == nil && out.Int64() != 42 {
			x.Failf("result-changed", "%s: %v", where, &out)
		}
		if !ok && err == nil {
			x.Failf("failure-lost", "%s: the call succeeded with %v", where, &out)
		}
		if status == 200 && bi == 3 && !refused && !cut {
			var e *seth.RPCError
			if !errors.As(err, &e) || e.Code != -5 {
				x.Failf("error-lost", "%s: %v", where, err)
			}
		}
		if err == seth.ErrNotFound {
			x.Failf("failure-as-not-found", "%s: a failure was reported as not found", where)
		}
		x.Case(where)
		x.Validated()
	})

	r.Explore(mc.Opts{Name: "consecutive calls", Bound: fmt.Sprintf("%d calls on one client, 11 outcomes each", r.N(3, 4))}, func(x *mc.X) {
		kind := c03Transports[x.Choose(3)]
		depth := r.N(3, 4)
		steps := []c03Response{
			{result: `"0x2a"`}, {result: `"0x"`}, {result: `null`}, {result: ``}, {result: `[]`}, {result: `{"a":1}`},
			c03Errors[2], c03Errors[3], c03Errors[8], c03Errors[10],
			{name: "lost"},
		}
		var cur c03Response
		c := newC03(x, netw, kind, func(rq *seth.RPCRequest) c03Answer {
			a := c03Answer{body: c03Layouts[0](rq.ID, cur.result, cur.err), status: 200}
			if cur.name == "lost" {
				a.body, a.status, a.refused = "", 500, true
			}
			return a
		})
		defer c.close()
		hist := kind
		for i := 0; i < depth; i++ {
			cur = steps[x.Choose(len(steps))]
			dest := new(seth.Data)
			err := c.Do(c.method, nil, dest)
			x.Step()
			hist += fmt.Sprintf("; result %q error %q %s", cur.result, cur.err, cur.name)
			if cur.name == "lost" {
				cur.bad = true
			}
			c03Check(x, hist, cur, err, dest, new(seth.Data))
		}
		x.Case(hist)
		x.Validated()
	})

	r.Explore(mc.Opts{Name: "chain as transport", Bound: "methods and parameters of the in-process chain"}, func(x *mc.X) {
		c := tevm.NewChain().Client()
		cases := []struct {
			method, params string
			want           string // "" for an error of the server
		}{
			{"eth_protocolVersion", `[]`, `"0x3f"`}, {"eth_blockNumber", `[]`, `"0x64"`}, {"eth_syncing", `[]`, `false`},
			{"eth_nothing", `[]`, ""}, {"eth_blockNumber", `[1]`, ""}, {"eth_getBalance", `["0x12"]`, ""},
			{"eth_getTransactionByHash", `["0x1234567890123456789012345678901234567890123456789012345678901234"]`, ""},
			{"eth_getBalance", `["0x1234567890123456789012345678901234567890","latest"]`, `"0x0"`},
		}
		cs := cases[x.Choose(len(cases))]
		var params []json.RawMessage
		json.Unmarshal([]byte(cs.params), &params)
		var out json.RawMessage
		err := c.Do(cs.method, params, &out)
		x.Step()
		if cs.want == "" {
			var e *seth.RPCError
			if !errors.As(err, &e) || e.Code == 0 || e.Message == "" {
				x.Failf("chain-error", "%s %s: %v", cs.method, cs.params, err)
			}
		} else if err != nil || string(out) != cs.want {
			x.Failf("chain-result", "%s %s: %s, %v", cs.method, cs.params, out, err)
		}
		x.Case(cs.method, cs.params)
		x.Validated()
	})
}
