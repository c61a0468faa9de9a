package props

import (
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"sync"

	"github.com/philhofer/seth"
	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{
		ID:    "C06",
		Level: "exploration",
		Rule:  "every client method x the product of its arguments' alphabets, and every client method x every reply of its alphabet (for documents: every field at every value, and all pairs of fields); a case is non-trivial if the request seen by the node, or the value returned, was compared",
		Notes: []string{"the node is an in-process transport that sees the marshalled request"},
		Run:   runC06,
	})
}

// recNode records the requests, as JSON, and answers from answer.
type recNode struct {
	mu     sync.Mutex
	log    []recReq
	answer func(method string, params []interface{}) (result string, err *seth.RPCError)
}

type recReq struct {
	Method string
	Params []interface{}
	Raw    string
}

func (n *recNode) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
	buf, err := json.Marshal(req)
	if err != nil {
		return err
	}
	var w struct {
		Version string        `json:"jsonrpc"`
		Method  string        `json:"method"`
		Params  []interface{} `json:"params"`
	}
	if err := json.Unmarshal(buf, &w); err != nil {
		return err
	}
	if w.Version != "2.0" {
		return fmt.Errorf("verif: version %q", w.Version)
	}
	n.mu.Lock()
	n.log = append(n.log, recReq{w.Method, w.Params, string(buf)})
	n.mu.Unlock()
	result, rerr := n.answer(w.Method, w.Params)
	if rerr != nil {
		res.Error = *rerr
		return nil
	}
	res.ID = req.ID
	res.Result = json.RawMessage(result)
	return nil
}

func (n *recNode) requests() []recReq {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]recReq(nil), n.log...)
}

type execFunc func(req *seth.RPCRequest, res *seth.RPCResponse) error

func (f execFunc) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error { return f(req, res) }

// wireQ is the protocol's form of a quantity.
func wireQ(i *big.Int) string { return "0x" + i.Text(16) }

func wireD(b []byte) string { return "0x" + hex.EncodeToString(b) }

// wireBlock tells whether v is block n on the wire.
func wireBlock(v interface{}, n int64) bool {
	s, ok := v.(string)
	if !ok {
		return false
	}
	switch n {
	case -2:
		return s == "pending"
	case -1:
		return s == "latest"
	case 0:
		return s == "earliest" || s == "0x0"
	}
	return s == "0x"+strconv.FormatInt(n, 16)
}

// wireIs tells whether v is the given hex text (case does not matter).
func wireIs(v interface{}, b []byte) bool {
	s, ok := v.(string)
	return ok && strings.EqualFold(s, wireD(b))
}

// wireOpts compares a call object with the options.
func wireOpts(v interface{}, o *seth.CallOpts, gasPrice bool) error {
	m, ok := v.(map[string]interface{})
	if !ok {
		return fmt.Errorf("the call is %v", v)
	}
	want := map[string]string{}
	if o.From != nil {
		want["from"] = wireD(o.From[:])
	}
	if o.To != nil {
		want["to"] = wireD(o.To[:])
	}
	for _, f := range []struct {
		n string
		v *seth.Int
	}{{"gas", o.Gas}, {"gasPrice", o.GasPrice}, {"value", o.Value}} {
		if f.v != nil {
			want[f.n] = wireQ(f.v.Big())
		}
	}
	if o.Nonce != nil {
		want["nonce"] = wireQ(new(big.Int).SetUint64(uint64(*o.Nonce)))
	}
	want["data"] = wireD(o.Data)
	if _, ok := m["data"]; !ok && len(o.Data) == 0 {
		delete(want, "data")
	}
	for k, w := range want {
		g, ok := m[k].(string)
		if k == "gasPrice" && !gasPrice {
			continue
		}
		exact := k != "from" && k != "to" && k != "data"
		if !ok || exact && g != w || !strings.EqualFold(g, w) {
			return fmt.Errorf("%s is %v, not %s", k, m[k], w)
		}
	}
	for k := range m {
		if _, ok := want[k]; !ok && (gasPrice || k != "gasPrice") {
			return fmt.Errorf("%s is %v, it was not given", k, m[k])
		}
	}
	return nil
}

var (
	c06Addrs  = []seth.Address{{}, {0: 0x0a, 19: 1}, addrFill(0xff)}
	c06Hashes = []seth.Hash{{}, {0: 0x01, 31: 0xf0}, hashFill(0xff)}
	c06Blocks = []int64{-2, -1, 0, 1, 2, 15, 16, 255, 1 << 32, 1<<53 + 1, math.MaxInt64}
)

func addrFill(b byte) (a seth.Address) {
	for i := range a {
		a[i] = b
	}
	return
}

func hashFill(b byte) (h seth.Hash) {
	for i := range h {
		h[i] = b
	}
	return
}

func c06Ints() []*seth.Int {
	out := []*seth.Int{nil}
	for _, s := range []string{"0", "1", "15", "16", "9223372036854775807", "9223372036854775808", "18446744073709551616", "115792089237316195423570985008687907853269984665640564039457584007913129639935"} {
		i, _ := new(big.Int).SetString(s, 10)
		out = append(out, (*seth.Int)(i))
	}
	return out
}

var c06Datas = []seth.Data{nil, {}, {0}, {0xde, 0xad, 0xbe, 0xef}, make(seth.Data, 33)}

func c06Opts(x *mc.X, full bool) *seth.CallOpts {
	o := &seth.CallOpts{}
	ints := c06Ints()
	pickInt := func() *seth.Int {
		if full {
			return ints[x.Choose(len(ints))]
		}
		return ints[[]int{0, 1, 7}[x.Choose(3)]]
	}
	if i := x.Choose(len(c06Addrs) + 1); i > 0 {
		a := c06Addrs[i-1]
		o.From = &a
	}
	if i := x.Choose(len(c06Addrs) + 1); i > 0 {
		a := c06Addrs[i-1]
		o.To = &a
	}
	o.Gas = pickInt()
	o.GasPrice = pickInt()
	o.Value = pickInt()
	o.Data = c06Datas[x.Choose(len(c06Datas))]
	if n := []uint64{0, 0, 1, math.MaxUint64}; true {
		if i := x.Choose(len(n)); i > 0 || x.Bool() {
			u := seth.Uint64(n[i])
			o.Nonce = &u
		}
	}
	return o
}

// c06Method is one client method.
type c06Method struct {
	name   string // for messages
	method string // on the wire
	// call picks arguments, makes the call and returns the value it gave;
	// params judges the parameters.
	call  func(x *mc.X, c *seth.Client) (v interface{}, err error, params func(p []interface{}) error)
	reply []c06Reply
}

// c06Reply is a reply and the value to be returned for it.
type c06Reply struct {
	json string
	want interface{}
}

func c06NoParams(p []interface{}) error {
	if len(p) != 0 {
		return fmt.Errorf("%d parameters", len(p))
	}
	return nil
}

func c06Params(preds ...func(v interface{}) error) func([]interface{}) error {
	return func(p []interface{}) error {
		if len(p) != len(preds) {
			return fmt.Errorf("%d parameters instead of %d", len(p), len(preds))
		}
		for i := range p {
			if err := preds[i](p[i]); err != nil {
				return fmt.Errorf("parameter %d: %v", i, err)
			}
		}
		return nil
	}
}

func c06Hex(b []byte) func(v interface{}) error {
	b = append([]byte(nil), b...)
	return func(v interface{}) error {
		if !wireIs(v, b) {
			return fmt.Errorf("%v instead of %s", v, wireD(b))
		}
		return nil
	}
}

func c06Is(want interface{}) func(v interface{}) error {
	return func(v interface{}) error {
		if !reflect.DeepEqual(v, want) {
			return fmt.Errorf("%v instead of %v", v, want)
		}
		return nil
	}
}

func c06Block(n int64) func(v interface{}) error {
	return func(v interface{}) error {
		if !wireBlock(v, n) {
			return fmt.Errorf("%v for block %d", v, n)
		}
		return nil
	}
}

func c06Call(o *seth.CallOpts) func(v interface{}) error {
	return func(v interface{}) error { return wireOpts(v, o, true) }
}

func c06Int64s() []c06Reply {
	return []c06Reply{{`"0x0"`, int64(0)}, {`"0x1"`, int64(1)}, {`"0x10"`, int64(16)}, {`"0xffffffff"`, int64(math.MaxUint32)}, {`"0x7fffffffffffffff"`, int64(math.MaxInt64)}}
}

func c06BigReplies() []c06Reply {
	out := []c06Reply{}
	for _, i := range c06Ints()[1:] {
		out = append(out, c06Reply{`"` + wireQ(i.Big()) + `"`, i.Big().String()})
	}
	return out
}

func c06HashReplies() []c06Reply {
	out := []c06Reply{}
	for _, h := range c06Hashes {
		out = append(out, c06Reply{`"` + wireD(h[:]) + `"`, h})
	}
	return out
}

func c06Methods() []c06Method {
	pickAddr := func(x *mc.X) *seth.Address { a := c06Addrs[x.Choose(len(c06Addrs))]; return &a }
	pickHash := func(x *mc.X) *seth.Hash { h := c06Hashes[x.Choose(len(c06Hashes))]; return &h }
	pickBlock := func(x *mc.X) int64 { return c06Blocks[x.Choose(len(c06Blocks))] }
	bools := []c06Reply{{`true`, true}, {`false`, false}}
	txHash := c06HashReplies()
	codes := []c06Reply{{`"0x"`, ""}, {`"0x00"`, "00"}, {`"0x6001600255"`, "6001600255"}, {`"0x` + strings.Repeat("ab", 24576) + `"`, strings.Repeat("ab", 24576)}}
	// explored field by field below
	docs := func(kind string) []c06Reply {
		pick := map[string]int{}
		for _, f := range c06Docs[kind] {
			pick[f.wire] = 1
		}
		a, ca := c06Doc(kind, nil)
		b, cb := c06Doc(kind, pick)
		return []c06Reply{{a, ca}, {b, cb}}
	}
	return []c06Method{
		{"ProtocolVersion", "eth_protocolVersion", func(x *mc.X, c *seth.Client) (interface{}, error, func([]interface{}) error) {
			v, err := c.ProtocolVersion()
			return v, err, c06NoParams
		}, []c06Reply{{`"0x3f"`, "0x3f"}, {`"63"`, "63"}, {`""`, ""}}},
		{"Syncing", "eth_syncing", func(x *mc.X, c *seth.Client) (interface{}, error, func([]interface{}) error) {
			v, err := c.Syncing()
			if v == nil {
				return nil, err, c06NoParams
			}
			return *v, err, c06NoParams
		}, []c06Reply{{`false`, nil}, {`{"startingBlock":"0x0","currentBlock":"0x386","highestBlock":"0xffffffffffffffff"}`, seth.SyncStatus{Starting: 0, Current: 0x386, Highest: math.MaxUint64}}, {`{"highestBlock":"0x3","currentBlock":"0x2","startingBlock":"0x1","pulledStates":"0x9"}`, seth.SyncStatus{Starting: 1, Current: 2, Highest: 3}}}},
		{"Coinbase", "eth_coinbase", func(x *mc.X, c *seth.Client) (interface{}, error, func([]interface{}) error) {
			v, err := c.Coinbase()
			if v == nil {
				return nil, err, c06NoParams
			}
			return *v, err, c06NoParams
		}, []c06Reply{{`"0x0a00000000000000000000000000000000000001"`, c06Addrs[1]}, {`"0xFFffffffffffffffffffffffffffffffffffffff"`, c06Addrs[2]}}},
		{"Mining", "eth_mining", func(x *mc.X, c *seth.Client) (interface{}, error, func([]interface{}) error) {
			v, err := c.Mining()
			return v, err, c06NoParams
		}, bools},
		{"Hashrate", "eth_hashrate", func(x *mc.X, c *seth.Client) (interface{}, error, func([]interface{}) error) {
			v, err := c.Hashrate()
			return v, err, c06NoParams
		}, c06Int64s()},
		{"GasPrice", "eth_gasPrice", func(x *mc.X, c *seth.Client) (interface{}, error, func([]interface{}) error) {
			v, err := c.GasPrice()
			return v, err, c06NoParams
		}, c06Int64s()},
		{"Accounts", "eth_accounts", func(x *mc.X, c *seth.Client) (interface{}, error, func([]interface{}) error) {
			v, err := c.Accounts()
			return fmt.Sprintf("%x", v), err, c06NoParams
		}, []c06Reply{{`[]`, "[]"}, {`["0x0a00000000000000000000000000000000000001"]`, fmt.Sprintf("%x", c06Addrs[1:2])}, {`["0xffffffffffffffffffffffffffffffffffffffff","0x0a00000000000000000000000000000000000001","0x0000000000000000000000000000000000000000"]`, fmt.Sprintf("%x", []seth.Address{c06Addrs[2], c06Addrs[1], c06Addrs[0]})}}},
		{"BlockNumber", "eth_blockNumber", func(x *mc.X, c *seth.Client) (interface{}, error, func([]interface{}) error) {
			v, err := c.BlockNumber()
			return v, err, c06NoParams
		}, c06Int64s()},
		{"GetNonceAt", "eth_getTransactionCount", func(x *mc.X, c *seth.Client) (interface{}, error, func([]interface{}) error) {
			a, b := pickAddr(x), pickBlock(x)
			v, err := c.GetNonceAt(a, b)
			return v, err, c06Params(c06Hex(a[:]), c06Block(b))
		}, c06Int64s()},
		{"GetNonce", "eth_getTransactionCount", func(x *mc.X, c *seth.Client) (interface{}, error, func([]interface{}) error) {
			a := pickAddr(x)
			v, err := c.GetNonce(a)
			return v, err, c06Params(c06Hex(a[:]), c06Block(-1))
		}, c06Int64s()},
		{"GetBalanceAt", "eth_getBalance", func(x *mc.X, c *seth.Client) (interface{}, error, func([]interface{}) error) {
			a, b := pickAddr(x), pickBlock(x)
			v, err := c.GetBalanceAt(a, b)
			return v.Big().String(), err, c06Params(c06Hex(a[:]), c06Block(b))
		}, c06BigReplies()},
		{"GetBalance", "eth_getBalance", func(x *mc.X, c *seth.Client) (interface{}, error, func([]interface{}) error) {
			a := pickAddr(x)
			v, err := c.GetBalance(a)
			return v.Big().String(), err, c06Params(c06Hex(a[:]), c06Block(-1))
		}, c06BigReplies()},
		{"GetCodeAt", "eth_getCode", func(x *mc.X, c *seth.Client) (interface{}, error, func([]interface{}) error) {
			a, b := pickAddr(x), pickBlock(x)
			v, err := c.GetCodeAt(a, b)
			return hex.EncodeToString(v), err, c06Params(c06Hex(a[:]), c06Block(b))
		}, codes},
		{"GetCode", "eth_getCode", func(x *mc.X, c *seth.Client) (interface{}, error, func([]interface{}) error) {
			a := pickAddr(x)
			v, err := c.GetCode(a)
			return hex.EncodeToString(v), err, c06Params(c06Hex(a[:]), c06Block(-1))
		}, codes},
		{"StorageAt", "eth_getStorageAt", func(x *mc.X, c *seth.Client) (interface{}, error, func([]interface{}) error) {
			a, h, b := pickAddr(x), pickHash(x), pickBlock(x)
			v, err := c.StorageAt(a, h, b)
			return v, err, c06Params(c06Hex(a[:]), c06Hex(h[:]), c06Block(b))
		}, txHash},
		{"GetBlock", "eth_getBlockByNumber", func(x *mc.X, c *seth.Client) (interface{}, error, func([]interface{}) error) {
			b, txs := pickBlock(x), x.Bool()
			v, err := c.GetBlock(b, txs)
			if err != nil {
				return nil, err, c06Params(c06Block(b), c06Is(txs))
			}
			return canonDoc("block", v), err, c06Params(c06Block(b), c06Is(txs))
		}, docs("block")},
		{"Latest", "eth_getBlockByNumber", func(x *mc.X, c *seth.Client) (interface{}, error, func([]interface{}) error) {
			txs := x.Bool()
			v, err := c.Latest(txs)
			if err != nil {
				return nil, err, c06Params(c06Block(-1), c06Is(txs))
			}
			return canonDoc("block", v), err, c06Params(c06Block(-1), c06Is(txs))
		}, docs("block")},
		{"Pending", "eth_getBlockByNumber", func(x *mc.X, c *seth.Client) (interface{}, error, func([]interface{}) error) {
			v, err := c.Pending()
			return len(v), err, c06Params(c06Block(-2), c06Is(true))
		}, []c06Reply{{`{"transactions":[]}`, 0}, {`{"number":null,"transactions":[{"nonce":"0x1"}]}`, 1}, {`{"transactions":[{"nonce":"0x1"},{"nonce":"0x2"},{"nonce":"0x1"}]}`, 3}}},
		{"GetTransaction", "eth_getTransactionByHash", func(x *mc.X, c *seth.Client) (interface{}, error, func([]interface{}) error) {
			h := pickHash(x)
			v, err := c.GetTransaction(h)
			if err != nil {
				return nil, err, c06Params(c06Hex(h[:]))
			}
			return canonDoc("transaction", v), err, c06Params(c06Hex(h[:]))
		}, docs("transaction")},
		{"GetReceipt", "eth_getTransactionReceipt", func(x *mc.X, c *seth.Client) (interface{}, error, func([]interface{}) error) {
			h := pickHash(x)
			v, err := c.GetReceipt(h)
			if err != nil {
				return nil, err, c06Params(c06Hex(h[:]))
			}
			return canonDoc("receipt", v), err, c06Params(c06Hex(h[:]))
		}, docs("receipt")},
		{"Call", "eth_sendTransaction", func(x *mc.X, c *seth.Client) (interface{}, error, func([]interface{}) error) {
			o := c06Opts(x, true)
			v, err := c.Call(o)
			return v, err, c06Params(c06Call(o))
		}, txHash},
		{"RawCall", "eth_sendRawTransaction", func(x *mc.X, c *seth.Client) (interface{}, error, func([]interface{}) error) {
			d := [][]byte{{}, {0}, {0xf8, 0x01}, make([]byte, 300)}[x.Choose(4)]
			v, err := c.RawCall(d)
			return v, err, c06Params(c06Hex(d))
		}, txHash},
		{"EstimateGas", "eth_estimateGas", func(x *mc.X, c *seth.Client) (interface{}, error, func([]interface{}) error) {
			o := c06Opts(x, false)
			v, err := c.EstimateGas(o)
			return v.Big().String(), err, c06Params(c06Call(o), c06Block(-2))
		}, c06BigReplies()},
		{"ConstCall", "eth_call", func(x *mc.X, c *seth.Client) (interface{}, error, func([]interface{}) error) {
			o := c06Opts(x, false)
			pend := x.Bool()
			var out seth.Data
			err := c.ConstCall(o, &out, pend)
			b := int64(-1)
			if pend {
				b = -2
			}
			return hex.EncodeToString(out), err, c06Params(c06Call(o), c06Block(b))
		}, codes[:3]},
		{"ConstCallAt", "eth_call", func(x *mc.X, c *seth.Client) (interface{}, error, func([]interface{}) error) {
			o := c06Opts(x, false)
			b := pickBlock(x)
			var out seth.Data
			err := c.ConstCallAt(o, &out, b)
			return hex.EncodeToString(out), err, c06Params(c06Call(o), c06Block(b))
		}, codes[:3]},
		{"Sender.ConstCall", "eth_call", func(x *mc.X, c *seth.Client) (interface{}, error, func([]interface{}) error) {
			a, to := pickAddr(x), pickAddr(x)
			s := seth.NewSender(c, a)
			arg := c06Ints()[1+x.Choose(4)]
			var out seth.Data
			err := s.ConstCall(to, "f(uint256,address)", &out, arg, to)
			data := append(refKeccak([]byte("f(uint256,address)"))[:4], leftPad(arg.Big().Bytes(), 32)...)
			data = append(data, leftPad(to[:], 32)...)
			return hex.EncodeToString(out), err, c06Params(func(v interface{}) error {
				return wireOpts(v, &seth.CallOpts{From: a, To: to, Data: data}, false)
			}, c06Block(-2))
		}, codes[:3]},
		{"UnlockAccount", "personal_unlockAccount", func(x *mc.X, c *seth.Client) (interface{}, error, func([]interface{}) error) {
			a := pickAddr(x)
			pw := []string{"", "secret", `q"\` + "\n", "<é&>\u2028"}[x.Choose(4)]
			err := c.UnlockAccount(a, pw)
			ok := err == nil
			if err == seth.PasswordDenied {
				err = nil
			}
			return ok, err, func(p []interface{}) error {
				if len(p) < 2 || len(p) > 3 {
					return fmt.Errorf("%d parameters", len(p))
				}
				return c06Params(c06Hex(a[:]), c06Is(pw))(p[:2])
			}
		}, bools},
	}
}

func leftPad(b []byte, n int) []byte {
	return append(make([]byte, n-len(b)), b...)
}

// c06Field is one member of a document: its name on the wire and in Go, and
// its kind: q a quantity of 64 bits, i one of any size, h a hash, a an
// address, d data; upper case if it may be absent; the rest are lists.
type c06Field struct{ wire, goName, kind string }

var c06Docs = map[string][]c06Field{
	"block": {
		{"number", "Number", "Q"}, {"hash", "Hash", "H"}, {"parentHash", "Parent", "h"}, {"nonce", "Nonce", "q"}, {"sha3Uncles", "UncleHash", "h"},
		{"logsBloom", "Bloom", "d"}, {"transactionsRoot", "TxRoot", "h"}, {"stateRoot", "StateRoot", "h"}, {"receiptsRoot", "ReceiptsRoot", "h"}, {"miner", "Miner", "a"},
		{"gasLimit", "GasLimit", "q"}, {"gasUsed", "GasUsed", "q"}, {"transactions", "Transactions", "raws"}, {"uncles", "Uncles", "hs"},
		{"difficulty", "Difficulty", "I"}, {"totalDifficulty", "TotalDifficulty", "I"}, {"timestamp", "Timestamp", "q"}, {"extraData", "Extra", "d"},
	},
	"transaction": {
		{"hash", "Hash", "h"}, {"nonce", "Nonce", "q"}, {"blockHash", "Block", "h"}, {"blockNumber", "BlockNumber", "q"}, {"to", "To", "A"},
		{"transactionIndex", "TxIndex", "Q"}, {"from", "From", "A"}, {"value", "Value", "i"}, {"gasPrice", "GasPrice", "i"}, {"gas", "Gas", "q"}, {"input", "Input", "d"},
	},
	"receipt": {
		{"transactionHash", "Hash", "h"}, {"transactionIndex", "Index", "q"}, {"blockHash", "BlockHash", "h"}, {"blockNumber", "BlockNumber", "q"}, {"gasUsed", "GasUsed", "q"},
		{"cumulativeGasUsed", "Cumulative", "q"}, {"contractAddress", "Address", "A"}, {"status", "Status", "q"}, {"logs", "Logs", "logs"},
	},
	"log": {
		{"removed", "Removed", "b"}, {"logIndex", "LogIndex", "Q"}, {"transactionIndex", "TxIndex", "Q"}, {"transactionHash", "TxHash", "H"}, {"blockHash", "BlockHash", "H"},
		{"blockNumber", "BlockNumber", "Q"}, {"address", "Address", "a"}, {"data", "Data", "d"}, {"topics", "Topics", "ds"},
	},
}

// c06Values lists the values of a kind, as JSON and in the canonical form of
// canonField; "" is an absent member.
func c06Values(kind string, salt byte) [][2]string {
	var out [][2]string
	add := func(j, c string) { out = append(out, [2]string{j, c}) }
	zero := map[string]string{"q": "0", "i": "0", "h": strings.Repeat("00", 32), "a": strings.Repeat("00", 20), "d": "", "b": "false"}
	z := zero[kind]
	if kind == "Q" || kind == "H" || kind == "A" || kind == "I" {
		z = "none"
	}
	s := byte(salt*7 + 1)
	switch strings.ToLower(kind) {
	case "q":
		for _, v := range []uint64{uint64(s), 0, 1<<63 - 1, math.MaxUint64} {
			add(fmt.Sprintf(`"0x%x"`, v), fmt.Sprint(v))
		}
	case "i":
		add(fmt.Sprintf(`"0x%x"`, s), fmt.Sprint(s))
		for _, i := range c06Ints()[1:] {
			add(`"`+wireQ(i.Big())+`"`, i.Big().String())
		}
	case "h":
		for _, b := range []byte{s, 0, 0xff} {
			add(`"0x`+strings.Repeat(fmt.Sprintf("%02x", b), 32)+`"`, strings.Repeat(fmt.Sprintf("%02x", b), 32))
		}
	case "a":
		for _, b := range []byte{s, 0, 0xff} {
			add(`"0x`+strings.Repeat(fmt.Sprintf("%02x", b), 20)+`"`, strings.Repeat(fmt.Sprintf("%02x", b), 20))
		}
		add(`"0x5aAeb6053F3E94C9b9A09f33669435E7Ef1BeAed"`, "5aaeb6053f3e94c9b9a09f33669435e7ef1beaed")
	case "d":
		for _, b := range []string{fmt.Sprintf("%02x", s), "", "00", strings.Repeat("ab", 256)} {
			add(`"0x`+b+`"`, b)
		}
	case "b":
		add("true", "true")
		add("false", "false")
	case "raws":
		add(`["0x`+strings.Repeat("12", 32)+`"]`, `["0x`+strings.Repeat("12", 32)+`"]`)
		add(`[]`, "[]")
		add(`[{"nonce":"0x1","extra":[1, 2]},{"nonce":"0x2"}]`, `[{"nonce":"0x1","extra":[1, 2]} {"nonce":"0x2"}]`)
		z = "[]"
	case "hs":
		add(`["0x`+strings.Repeat("12", 32)+`","0x`+strings.Repeat("34", 32)+`"]`, "["+strings.Repeat("12", 32)+" "+strings.Repeat("34", 32)+"]")
		add(`[]`, "[]")
		z = "[]"
	case "ds":
		add(`["0x`+strings.Repeat("12", 32)+`","0x`+strings.Repeat("00", 32)+`"]`, "["+strings.Repeat("12", 32)+" "+strings.Repeat("00", 32)+"]")
		add(`[]`, "[]")
		add(`["0x`+strings.Repeat("ff", 32)+`"]`, "["+strings.Repeat("ff", 32)+"]")
		z = "[]"
	case "logs":
		j, c := c06Doc("log", nil)
		add("["+j+"]", "["+c+"]")
		add("[]", "[]")
		j2, c2 := c06Doc("log", map[string]int{"data": 1, "topics": 1, "logIndex": 2, "removed": 1})
		add("["+j2+","+j+"]", "["+c2+" "+c+"]")
		z = "[]"
	}
	add("null", z)
	add("", z)
	return out
}

// c06Doc makes a document with the given value of each field (default 0) and
// its canonical form.
func c06Doc(doc string, pick map[string]int) (js, canon string) {
	var a, b []string
	for i, f := range c06Docs[doc] {
		v := c06Values(f.kind, byte(i))[pick[f.wire]]
		if v[0] != "" {
			a = append(a, fmt.Sprintf("%q:%s", f.wire, v[0]))
		}
		b = append(b, f.goName+"="+v[1])
	}
	a = append(a, `"unheardOf":{"hash":"0x12"}`)
	return "{" + strings.Join(a, ",") + "}", strings.Join(b, ",")
}

func canonField(v reflect.Value) string {
	switch t := v.Interface().(type) {
	case seth.Uint64:
		return strconv.FormatUint(uint64(t), 10)
	case seth.Int:
		return t.Big().String()
	case seth.Hash:
		return hex.EncodeToString(t[:])
	case seth.Address:
		return hex.EncodeToString(t[:])
	case seth.Data:
		return hex.EncodeToString(t)
	case json.RawMessage:
		return string(t)
	case bool:
		return fmt.Sprint(t)
	case seth.Log:
		return canonDoc("log", &t)
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "none"
		}
		return canonField(v.Elem())
	case reflect.Slice:
		var out []string
		for i := 0; i < v.Len(); i++ {
			out = append(out, canonField(v.Index(i)))
		}
		return "[" + strings.Join(out, " ") + "]"
	}
	return fmt.Sprintf("?%T", v.Interface())
}

func canonDoc(doc string, p interface{}) string {
	v := reflect.ValueOf(p).Elem()
	var out []string
	for _, f := range c06Docs[doc] {
		out = append(out, f.goName+"="+canonField(v.FieldByName(f.goName)))
	}
	return strings.Join(out, ",")
}

func runC06(r *mc.R) {
	methods := c06Methods()
	benign := map[string]string{"eth_getBlockByNumber": `{"transactions":[]}`, "eth_getTransactionByHash": `{"nonce":"0x1"}`, "eth_getTransactionReceipt": `{"status":"0x1"}`}
	r.Explore(mc.Opts{Name: "requests", Bound: fmt.Sprintf("%d methods x the product of their argument alphabets", len(methods))}, func(x *mc.X) {
		m := methods[x.Choose(len(methods))]
		node := &recNode{answer: func(method string, p []interface{}) (string, *seth.RPCError) {
			if s, ok := benign[method]; ok {
				return s, nil
			}
			return m.reply[0].json, nil
		}}
		_, err, params := m.call(x, seth.NewClientTransport(node))
		x.Step()
		reqs := node.requests()
		if err != nil || len(reqs) != 1 {
			x.Failf("call "+m.name, "%s: %v, requests %v", m.name, err, reqs)
		}
		if reqs[0].Method != m.method {
			x.Failf("method "+m.name, "%s asks for %s", m.name, reqs[0].Method)
		}
		if err := params(reqs[0].Params); err != nil {
			x.Failf("params "+m.name, "%s: %v in %.600s", m.name, err, reqs[0].Raw)
		}
		x.Case(m.name, reqs[0].Raw)
		x.Validated()
	})

	r.Explore(mc.Opts{Name: "replies", Bound: "methods x replies, the not-found and the error reply"}, func(x *mc.X) {
		m := methods[x.Choose(len(methods))]
		kind := x.Choose(3)
		var rep c06Reply
		var rerr *seth.RPCError
		switch kind {
		case 0:
			if len(m.reply) == 0 {
				return
			}
			rep = m.reply[x.Choose(len(m.reply))]
		case 1:
			rep.json = "null"
		case 2:
			rerr = &seth.RPCError{Code: -32000, Message: "no"}
		}
		node := &recNode{answer: func(method string, p []interface{}) (string, *seth.RPCError) { return rep.json, rerr }}
		v, err, _ := m.call(x.Fixed(), seth.NewClientTransport(node))
		x.Step()
		switch kind {
		case 0:
			if err != nil || !reflect.DeepEqual(v, rep.want) {
				x.Failf("reply "+m.name, "%s: the reply %.200s became %.200v (%v)", m.name, rep.json, v, err)
			}
		case 1:
			if err != seth.ErrNotFound {
				x.Failf("null "+m.name, "%s: the null reply became %v", m.name, err)
			}
		case 2:
			var e *seth.RPCError
			if !errors.As(err, &e) || e.Code != -32000 || e.Message != "no" {
				x.Failf("error "+m.name, "%s: the error reply became %v", m.name, err)
			}
		}
		x.Case(m.name, rep.json, fmt.Sprint(kind))
		x.Validated()
	})

	// another call at any point at which this one is in the hands of the
	// transport: while it waits to be sent, and while its reply is under way
	r.Explore(mc.Opts{Name: "overlapping", Bound: "every pair of methods on one client, one of them made while the other waits to be sent, or while its reply is under way"}, func(x *mc.X) {
		ms := [2]c06Method{methods[x.Choose(len(methods))], methods[x.Choose(len(methods))]}
		after := x.Bool()
		var values [2]interface{}
		var errs [2]error
		var params [2]func([]interface{}) error
		reply := [2]c06Reply{ms[0].reply[0], ms[1].reply[len(ms[1].reply)-1]}
		var nodes [2]*recNode
		for i := range nodes {
			i := i
			nodes[i] = &recNode{answer: func(string, []interface{}) (string, *seth.RPCError) { return reply[i].json, nil }}
		}
		calls := 0
		var c *seth.Client
		do := func(i int) { values[i], errs[i], params[i] = ms[i].call(x.FixedAt(i), c) }
		c = seth.NewClientTransport(execFunc(func(req *seth.RPCRequest, res *seth.RPCResponse) error {
			calls++
			if calls == 2 {
				return nodes[1].Execute(req, res)
			}
			if !after {
				do(1)
			}
			err := nodes[0].Execute(req, res)
			if after {
				do(1)
			}
			return err
		}))
		do(0)
		for i, m := range ms {
			x.Step()
			what := fmt.Sprintf("%s overlapping with %s", m.name, ms[1-i].name)
			reqs := nodes[i].requests()
			if errs[i] != nil || len(reqs) != 1 {
				x.Failf("overlapping "+m.name, "%s: %v, requests %v", what, errs[i], reqs)
			}
			if err := params[i](reqs[0].Params); err != nil || reqs[0].Method != m.method {
				x.Failf("overlapping "+m.name, "%s: %v in %.600s", what, err, reqs[0].Raw)
			}
			if !reflect.DeepEqual(values[i], reply[i].want) {
				x.Failf("overlapping "+m.name, "%s: the reply %.200s became %.200v", what, reply[i].json, values[i])
			}
		}
		x.Case(ms[0].name, ms[1].name, fmt.Sprint(after))
		x.Validated()
	})

	docs := []string{"block", "transaction", "receipt", "log", "pending"}
	r.Explore(mc.Opts{Name: "documents", Bound: "every pair of fields at every pair of values, the others at their first"}, func(x *mc.X) {
		doc := docs[x.Choose(len(docs))]
		shape := doc
		if doc == "pending" {
			shape = "transaction"
		}
		fs := c06Docs[shape]
		i := x.Choose(len(fs))
		j := i + x.Choose(len(fs)-i)
		pick := map[string]int{}
		pick[fs[i].wire] = x.Choose(len(c06Values(fs[i].kind, byte(i))))
		if j != i {
			pick[fs[j].wire] = x.Choose(len(c06Values(fs[j].kind, byte(j))))
		}
		js, want := c06Doc(shape, pick)
		full, wantFull := c06Doc(shape, nil)
		node := &recNode{answer: func(method string, p []interface{}) (string, *seth.RPCError) {
			switch method {
			case "eth_newFilter":
				return `"0x1"`, nil
			case "eth_getFilterLogs":
				return "[" + full + "," + js + "]", nil
			}
			if doc == "pending" {
				return `{"transactions":[` + js + "," + full + `]}`, nil
			}
			return js, nil
		}}
		c := seth.NewClientTransport(node)
		var got string
		var err error
		switch doc {
		case "block":
			var b *seth.Block
			if b, err = c.GetBlock(5, true); err == nil {
				got = canonDoc(doc, b)
				if t := b.Time(); t.Unix() != int64(b.Timestamp) || t.Nanosecond() != 0 {
					x.Failf("time", "the time of %s is %v", js, t)
				}
			}
		case "transaction":
			var t *seth.Transaction
			if t, err = c.GetTransaction(&c06Hashes[1]); err == nil {
				got = canonDoc(doc, t)
			}
		case "receipt":
			var rc *seth.Receipt
			if rc, err = c.GetReceipt(&c06Hashes[1]); err == nil {
				got = canonDoc(doc, rc)
				if rc.Threw() != (rc.Status == 0) {
					x.Failf("threw", "status %v, threw %v", rc.Status, rc.Threw())
				}
			}
		case "log":
			var f *seth.Filter
			if f, err = c.FilterTopics(nil, nil, 1, 2); err == nil {
				var all []string
				for l := range f.Out() {
					all = append(all, canonDoc("log", l))
				}
				want = wantFull + ";" + want
				got = strings.Join(all, ";")
				err = f.Err()
			}
		case "pending":
			var ts []seth.Transaction
			if ts, err = c.Pending(); err == nil {
				var all []string
				for i := range ts {
					all = append(all, canonDoc(shape, &ts[i]))
				}
				want += ";" + wantFull
				got = strings.Join(all, ";")
			}
		}
		x.Step()
		if err != nil || got != want {
			x.Failf("document "+doc, "%s: the reply %.1200s became %.1200s instead of %.1200s (%v)", doc, js, got, want, err)
		}
		x.Case(doc, js)
		x.Validated()
	})

	ids := []string{"0x0", "0x1", "0xff", "0x7fffffffffffffff", "0x8000000000000000", "0xc6ef2fc5426d6ad6fd9e2a26abeab0aa"}
	r.Explore(mc.Opts{Name: "filters", Bound: "topic lists up to 4 with wildcards x addresses x block ranges; token transfers x wildcards; filter ids"}, func(x *mc.X) {
		starts := []int64{-1, 0, 1, 255, math.MaxInt64}
		token := x.Bool()
		var topics []*seth.Hash
		var addr *seth.Address
		var from, to *seth.Address
		pick := func() *seth.Address {
			if i := x.Choose(len(c06Addrs) + 1); i > 0 {
				a := c06Addrs[i-1]
				return &a
			}
			return nil
		}
		if token {
			h := seth.Hash{}
			copy(h[:], refKeccak([]byte("Transfer(address,address,uint256)")))
			topics = []*seth.Hash{&h, nil, nil}
			if from = pick(); from != nil {
				topics[1] = new(seth.Hash)
				copy(topics[1][12:], from[:])
			}
			if to = pick(); to != nil {
				topics[2] = new(seth.Hash)
				copy(topics[2][12:], to[:])
			}
		} else {
			for n := x.Choose(r.N(4, 5)); n > 0; n-- {
				if i := x.Choose(len(c06Hashes) + 1); i > 0 {
					h := c06Hashes[i-1]
					topics = append(topics, &h)
				} else {
					topics = append(topics, nil)
				}
			}
		}
		addr = pick()
		start, end := starts[x.Choose(len(starts))], starts[x.Choose(len(starts))]
		id := ids[1]
		if len(topics) == 0 || token && from == nil && to == nil {
			id = ids[x.Choose(len(ids))]
		}
		done := make(chan struct{})
		var once sync.Once
		node := &recNode{answer: func(method string, p []interface{}) (string, *seth.RPCError) {
			switch method {
			case "eth_newFilter":
				return `"` + id + `"`, nil
			case "eth_getFilterLogs":
				once.Do(func() { close(done) })
				return `[]`, nil
			case "eth_uninstallFilter":
				return `true`, nil
			}
			return "", &seth.RPCError{Code: -32601, Message: "the method " + method + " does not exist"}
		}}
		c := seth.NewClientTransport(node)
		var f *seth.Filter
		var err error
		if token {
			f, err = c.TokenTransfers(from, to, addr, start, end)
		} else {
			f, err = c.FilterTopics(topics, addr, start, end)
		}
		x.Step()
		if err != nil {
			x.Failf("filter", "cannot make a filter: %v", err)
		}
		<-done
		f.Close()
		for range f.Out() {
		}
		reqs := node.requests()
		p := reqs[0].Params
		if reqs[0].Method != "eth_newFilter" || len(p) != 1 {
			x.Failf("filter-request", "%s", reqs[0].Raw)
		}
		m, ok := p[0].(map[string]interface{})
		if !ok {
			x.Failf("filter-request", "%s", reqs[0].Raw)
		}
		for k := range m {
			if k != "fromBlock" && k != "toBlock" && k != "address" && k != "topics" {
				x.Failf("filter-request", "unknown member in %s", reqs[0].Raw)
			}
		}
		wantFrom, wantTo := start, end
		if !wireBlock(m["fromBlock"], wantFrom) || !wireBlock(m["toBlock"], wantTo) {
			x.Failf("filter-range", "blocks %d to %d asked for as %s", start, end, reqs[0].Raw)
		}
		if a, ok := m["address"]; addr == nil && ok && a != nil || addr != nil && !wireIs(a, addr[:]) {
			x.Failf("filter-address", "address %v asked for as %s", addr, reqs[0].Raw)
		}
		ts, _ := m["topics"].([]interface{})
		if len(ts) != len(topics) {
			x.Failf("filter-topics", "topics %v asked for as %s", topics, reqs[0].Raw)
		}
		for i := range ts {
			if topics[i] == nil && ts[i] != nil || topics[i] != nil && !wireIs(ts[i], topics[i][:]) {
				x.Failf("filter-topics", "topics %v asked for as %s", topics, reqs[0].Raw)
			}
		}
		for _, q := range reqs[1:] {
			if len(q.Params) != 1 || q.Params[0] != id {
				x.Failf("filter-id", "the server named the filter %s, the client asks %s", id, q.Raw)
			}
		}
		x.Case(reqs[0].Raw, id)
		x.Validated()
	})
}
