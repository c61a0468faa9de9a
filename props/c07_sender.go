package props

import (
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"

	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/rlp"
	"github.com/philhofer/seth"
	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{
		ID:    "C07",
		Level: "fault_enumeration",
		Rule:  "every subset of omitted fields x boundary values of the fields given x signer behaviours x failing node steps x sender configurations, and every sequence of such sends on one sender; a case is non-trivial if what the node received was decoded by go-ethereum and compared, or it was checked that the node received nothing",
		Notes: []string{"signatures are made by libsecp256k1 (go-ethereum); raw transactions are decoded and their sender recovered by go-ethereum"},
		Run:   runC07,
	})
}

// toSeth turns a [R || S || V] signature into the implementation's.
func toSeth(sig []byte) *seth.Signature {
	z := new(seth.Signature)
	copy(z[:], sig)
	return z
}

func ethSign(d *big.Int, hash []byte) []byte {
	k, err := crypto.ToECDSA(be32(d))
	if err != nil {
		panic(err)
	}
	sig, err := crypto.Sign(hash, k)
	if err != nil {
		panic(err)
	}
	return sig
}

var (
	c07Key      = new(big.Int).SetBytes(refKeccak([]byte("the sender")))
	c07Other    = new(big.Int).SetBytes(refKeccak([]byte("somebody else")))
	c07Order, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
	errSigner   = errors.New("verif: the signer refuses")
)

var c07Addrs = func() map[string]seth.Address {
	m := map[string]seth.Address{}
	for _, d := range []*big.Int{c07Key, c07Other} {
		var a seth.Address
		copy(a[:], refAddress(d))
		m[d.String()] = a
	}
	return m
}()

func addrOf(d *big.Int) *seth.Address {
	a := c07Addrs[d.String()]
	return &a
}

// c07Signers make a signature of the given hash; good tells whether it is one
// by the sender's key over the hash.
var c07Signers = []struct {
	name string
	good bool
	fail bool
	sign seth.Signer
}{
	{name: "no signer"},
	{"right key", true, false, func(h *seth.Hash) (*seth.Signature, error) { return toSeth(ethSign(c07Key, h[:])), nil }},
	{"other key", false, false, func(h *seth.Hash) (*seth.Signature, error) { return toSeth(ethSign(c07Other, h[:])), nil }},
	{"failing signer", false, true, func(h *seth.Hash) (*seth.Signature, error) { return nil, errSigner }},
	{"failing signer with a signature", false, true, func(h *seth.Hash) (*seth.Signature, error) {
		return toSeth(ethSign(c07Key, h[:])), errSigner
	}},
	{"zero signature", false, false, func(h *seth.Hash) (*seth.Signature, error) { return new(seth.Signature), nil }},
	{"high s", false, false, func(h *seth.Hash) (*seth.Signature, error) {
		s := ethSign(c07Key, h[:])
		copy(s[32:64], be32(new(big.Int).Sub(c07Order, new(big.Int).SetBytes(s[32:64]))))
		s[64] ^= 1
		return toSeth(s), nil
	}},
	{"other parity", false, false, func(h *seth.Hash) (*seth.Signature, error) {
		s := ethSign(c07Key, h[:])
		s[64] ^= 1
		return toSeth(s), nil
	}},
	{"other hash", false, false, func(h *seth.Hash) (*seth.Signature, error) {
		return toSeth(ethSign(c07Key, refKeccak(h[:]))), nil
	}},
	{"r that is no curve point", false, false, func(h *seth.Hash) (*seth.Signature, error) {
		return seth.NewSignature(big.NewInt(5), big.NewInt(7), 0), nil
	}},
}

// c07Node answers a sender.
type c07Node struct {
	recNode
	estimate *big.Int
	nonce    uint64
	failing  string // method that fails
	null     bool   // it fails with a null reply
	sent     seth.Hash
}

func newC07Node() *c07Node {
	n := &c07Node{estimate: big.NewInt(21004), nonce: 7}
	copy(n.sent[:], refKeccak([]byte("sent")))
	n.answer = func(method string, p []interface{}) (string, *seth.RPCError) {
		if method == n.failing {
			if n.null {
				return "null", nil
			}
			return "", &seth.RPCError{Code: -32000, Message: "out of order: " + method}
		}
		switch method {
		case "eth_estimateGas":
			return `"` + wireQ(n.estimate) + `"`, nil
		case "eth_getTransactionCount":
			return fmt.Sprintf(`"0x%x"`, n.nonce), nil
		case "eth_sendTransaction", "eth_sendRawTransaction":
			return `"` + wireD(n.sent[:]) + `"`, nil
		}
		return "", &seth.RPCError{Code: -32601, Message: "no method " + method}
	}
	return n
}

func copyOpts(o *seth.CallOpts) *seth.CallOpts {
	c := &seth.CallOpts{}
	if o.From != nil {
		a := *o.From
		c.From = &a
	}
	if o.To != nil {
		a := *o.To
		c.To = &a
	}
	for _, f := range []struct {
		dst **seth.Int
		src *seth.Int
	}{{&c.Gas, o.Gas}, {&c.GasPrice, o.GasPrice}, {&c.Value, o.Value}} {
		if f.src != nil {
			*f.dst = (*seth.Int)(new(big.Int).Set(f.src.Big()))
		}
	}
	if o.Nonce != nil {
		n := *o.Nonce
		c.Nonce = &n
	}
	if o.Data != nil {
		c.Data = append(seth.Data{}, o.Data...)
	}
	return c
}

// c07Check judges one send. asked is what the caller described.
func c07Check(x *mc.X, where string, s *seth.Sender, node *c07Node, reqs []recReq, si int, asked *seth.CallOpts, hash seth.Hash, err error) string {
	signer := c07Signers[si]
	want := copyOpts(asked)
	if want.From == nil {
		want.From = s.Addr
	}
	if want.GasPrice == nil {
		want.GasPrice = (*seth.Int)(new(big.Int).Set(s.GasPrice.Big()))
	}
	fails := ""
	if want.Gas == nil {
		if node.failing == "eth_estimateGas" {
			fails = "estimation"
		}
		g := new(big.Int).Mul(node.estimate, big.NewInt(int64(s.GasRatio.Num)))
		want.Gas = (*seth.Int)(g.Div(g, big.NewInt(int64(s.GasRatio.Denom))))
	}
	if si != 0 {
		if want.Nonce == nil {
			switch {
			case want.From == nil:
				fails = "no address to look the nonce up for"
			case node.failing == "eth_getTransactionCount":
				fails = "nonce lookup"
			}
			n := seth.Uint64(node.nonce)
			want.Nonce = &n
		}
		if signer.fail {
			fails = "signing"
		}
		if want.From != nil && (!signer.good || *want.From != *addrOf(c07Key)) {
			if !(signer.name == "other key" && *want.From == *addrOf(c07Other)) {
				fails = "signature does not belong to the sender"
			}
		}
		if !want.Gas.Big().IsUint64() {
			fails = "gas does not fit in a transaction"
		}
	}
	var sends []recReq
	for _, q := range reqs {
		switch q.Method {
		case "eth_sendTransaction", "eth_sendRawTransaction":
			sends = append(sends, q)
		case "eth_estimateGas":
			// the estimate is for this call
			est := copyOpts(want)
			est.Gas = asked.Gas
			est.Nonce = asked.Nonce
			if len(q.Params) < 1 {
				x.Failf("estimate", "%s: %s", where, q.Raw)
			}
			if err := wireOpts(q.Params[0], est, true); err != nil {
				x.Failf("estimate", "%s: the estimate is for another call: %v: %s", where, err, q.Raw)
			}
		case "eth_getTransactionCount":
			if len(q.Params) != 2 || want.From == nil || !wireIs(q.Params[0], want.From[:]) || q.Params[1] != "pending" {
				x.Failf("nonce-lookup", "%s: the nonce is looked up with %s", where, q.Raw)
			}
		}
	}
	if fails != "" {
		if err == nil {
			x.Failf("failure-ignored", "%s: %s fails, but sending returns %s", where, fails, &hash)
		}
		if len(sends) != 0 {
			x.Failf("sent-anyway", "%s: %s fails, but %s is sent", where, fails, sends[0].Raw)
		}
		return "refused: " + fails
	}
	if len(sends) != 1 {
		x.Failf("send-count", "%s: %d transactions are sent (%v)", where, len(sends), err)
	}
	send := sends[0]
	if node.failing == send.Method {
		if err == nil {
			x.Failf("failure-ignored", "%s: the node refuses %s, but sending returns %s", where, send.Raw, &hash)
		}
		return "refused by the node"
	}
	if err != nil {
		x.Failf("send-failed", "%s: %v", where, err)
	}
	if hash != node.sent {
		x.Failf("send-hash", "%s: the node's answer %s became %s", where, &node.sent, &hash)
	}
	if si == 0 {
		if send.Method != "eth_sendTransaction" || len(send.Params) != 1 {
			x.Failf("send-request", "%s: %s", where, send.Raw)
		}
		if err := wireOpts(send.Params[0], want, true); err != nil {
			x.Failf("send-fields", "%s: %v in %s", where, err, send.Raw)
		}
		return "sent to be signed by the node"
	}
	if send.Method != "eth_sendRawTransaction" || len(send.Params) != 1 {
		x.Failf("send-request", "%s: %s", where, send.Raw)
	}
	text, _ := send.Params[0].(string)
	if len(text) < 2 || text[:2] != "0x" {
		x.Failf("send-request", "%s: %s", where, send.Raw)
	}
	raw, herr := hex.DecodeString(text[2:])
	if herr != nil {
		x.Failf("send-request", "%s: %s", where, send.Raw)
	}
	ethCheckRaw(x, where, raw, want, signer.good)
	return "sent raw"
}

// ethCheckRaw decodes a raw transaction with go-ethereum.
func ethCheckRaw(x *mc.X, where string, raw []byte, want *seth.CallOpts, good bool) {
	var tx types.Transaction
	if err := rlp.DecodeBytes(raw, &tx); err != nil {
		x.Failf("raw-undecodable", "%s: go-ethereum cannot decode %x: %v", where, raw, err)
	}
	if again, err := rlp.EncodeToBytes(&tx); err != nil || string(again) != string(raw) {
		x.Failf("raw-canonical", "%s: %x is not canonical", where, raw)
	}
	val := big.NewInt(0)
	if want.Value != nil {
		val = want.Value.Big()
	}
	if (tx.To() == nil) != (want.To == nil) || want.To != nil && *tx.To() != [20]byte(*want.To) ||
		tx.Nonce() != uint64(*want.Nonce) || new(big.Int).SetUint64(tx.Gas()).Cmp(want.Gas.Big()) != 0 || tx.GasPrice().Cmp(want.GasPrice.Big()) != 0 ||
		tx.Value().Cmp(val) != 0 || string(tx.Data()) != string(want.Data) {
		js, _ := tx.MarshalJSON()
		x.Failf("raw-fields", "%s: sent %s instead of %s", where, js, mustJSON(want))
	}
	if good {
		from, err := types.NewEIP155Signer(big.NewInt(1)).Sender(&tx)
		if err != nil || from != [20]byte(*addrOf(c07Key)) {
			x.Failf("raw-sender", "%s: go-ethereum recovers %x (%v)", where, from, err)
		}
	}
}

func bigInt(s string) *seth.Int {
	b, ok := new(big.Int).SetString(s, 0)
	if !ok {
		panic(s)
	}
	return (*seth.Int)(b)
}

func runC07(r *mc.R) {
	u64 := func(n uint64) *seth.Uint64 { u := seth.Uint64(n); return &u }
	var (
		froms   = []*seth.Address{nil, addrOf(c07Key), addrOf(c07Other)}
		tos     = []*seth.Address{nil, {0: 1, 19: 2}, {}}
		gases   = []*seth.Int{nil, bigInt("0"), bigInt("21000"), bigInt("0xffffffffffffffff"), bigInt("0x10000000000000000")}
		prices  = []*seth.Int{nil, bigInt("0"), bigInt("1"), bigInt("0x7fffffffffffffff"), bigInt("0x123456789abcdef0123")}
		values  = []*seth.Int{nil, bigInt("0"), bigInt("127"), bigInt("128"), bigInt("0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff")}
		datas   = []seth.Data{nil, {}, {0}, {0x7f}, {0x80}, make(seth.Data, 55), make(seth.Data, 56), make(seth.Data, 300)}
		nonces  = []*seth.Uint64{nil, u64(0), u64(1), u64(127), u64(128), u64(1<<64 - 1)}
		ests    = []string{"0", "1", "2", "21004", "0x8000000000000000", "0xffffffffffffffff"}
		ratios  = [][2]int{{6, 5}, {5, 4}, {1, 1}, {3, 1}, {1, 2}}
		methods = []string{"", "eth_estimateGas", "eth_getTransactionCount", "eth_sendTransaction", "eth_sendRawTransaction"}
	)
	one := func(x *mc.X, s *seth.Sender, node *c07Node, si int, o *seth.CallOpts) {
		asked := copyOpts(o)
		h, err := s.Call(o)
		x.Step()
		where := fmt.Sprintf("%s, sender %v, ratio %v, price %s, failing %q, estimate %s, asked %s", c07Signers[si].name, s.Addr, s.GasRatio, &s.GasPrice, node.failing, node.estimate, mustJSON(asked))
		out := c07Check(x, where, s, node, node.requests(), si, asked, h, err)
		x.Outcome(out)
		x.Case(where)
		x.Validated()
	}
	mk := func(node *c07Node, si int, addr *seth.Address) *seth.Sender {
		s := seth.NewSender(seth.NewClientTransport(node), addr)
		if si > 0 {
			s.Signer = c07Signers[si].sign
		}
		return s
	}

	r.Explore(mc.Opts{Name: "fields", Bound: "to 3 x gas 5 x price 5 x value 5 x data 8 x nonce 3 (6 in the thorough tier) x {node, own signer}"}, func(x *mc.X) {
		node := newC07Node()
		si := x.Choose(2)
		s := mk(node, si, addrOf(c07Key))
		o := &seth.CallOpts{To: tos[x.Choose(3)], Gas: gases[x.Choose(5)], GasPrice: prices[x.Choose(5)], Value: values[x.Choose(5)], Data: datas[x.Choose(8)], Nonce: nonces[[]int{0, 1, 4, 2, 3, 5}[x.Choose(r.N(3, 6))]]}
		one(x, s, node, si, copyOpts(o))
	})

	r.Explore(mc.Opts{Name: "faults", Bound: "signers 10 x sender address 3 x from 3 x gas/nonce/price omitted or given x failing method 5 x error or null reply"}, func(x *mc.X) {
		node := newC07Node()
		si := x.Choose(len(c07Signers))
		s := mk(node, si, froms[x.Choose(3)])
		node.failing = methods[x.Choose(len(methods))]
		if node.failing != "" {
			node.null = x.Bool()
		}
		o := &seth.CallOpts{From: froms[x.Choose(3)], To: tos[x.Choose(2)], Gas: gases[[]int{0, 2, 4}[x.Choose(3)]], GasPrice: prices[x.Choose(2)*2], Nonce: nonces[x.Choose(r.N(2, 3))], Data: datas[4]}
		one(x, s, node, si, copyOpts(o))
	})

	r.Explore(mc.Opts{Name: "defaults", Bound: "estimates 6 x ratios 5 x sender prices 4 x pending nonces 4 x signer 2 x omitted subsets of gas, price, nonce"}, func(x *mc.X) {
		node := newC07Node()
		si := x.Choose(2)
		s := mk(node, si, addrOf(c07Key))
		node.estimate = bigInt(ests[x.Choose(len(ests))]).Big()
		node.nonce = []uint64{0, 1, 128, 1<<63 - 1}[x.Choose(4)]
		rt := ratios[x.Choose(len(ratios))]
		s.GasRatio.Num, s.GasRatio.Denom = rt[0], rt[1]
		if p := prices[x.Choose(len(prices))]; p != nil {
			s.GasPrice = p.Copy()
		} else if s.GasPrice.Big().Sign() <= 0 {
			x.Failf("default-price", "a new sender offers a gas price of %s", &s.GasPrice)
		}
		o := &seth.CallOpts{To: tos[1], Gas: gases[x.Choose(2)*2], GasPrice: prices[x.Choose(2)*2], Nonce: nonces[x.Choose(r.N(2, 3))]}
		one(x, s, node, si, copyOpts(o))
	})

	r.Explore(mc.Opts{Name: "sequences", Bound: fmt.Sprintf("%d sends by one sender, its price, address and the node's answers changing in between", r.N(2, 3))}, func(x *mc.X) {
		node := newC07Node()
		si := x.Choose(2)
		s := mk(node, si, addrOf(c07Key))
		for i := 0; i < r.N(2, 3); i++ {
			switch x.Choose(4) {
			case 1:
				s.GasPrice = seth.Int(*big.NewInt(int64(100 + i)))
			case 2:
				node.failing = []string{"eth_estimateGas", "eth_getTransactionCount"}[x.Choose(2)]
			case 3:
				node.failing = ""
			}
			node.nonce++
			node.estimate = big.NewInt(int64(30000 + i))
			node.sent[0] = byte(i)
			node.mu.Lock()
			node.log = nil
			node.mu.Unlock()
			o := &seth.CallOpts{To: tos[1], Gas: gases[x.Choose(2)*2], GasPrice: prices[x.Choose(2)*2], Nonce: nonces[x.Choose(r.N(2, 3))]}
			one(x, s, node, si, copyOpts(o))
		}
	})

	r.Explore(mc.Opts{Name: "send and sign", Bound: "Sender.Send x argument lists x signers; SignTransaction x field values x signers"}, func(x *mc.X) {
		node := newC07Node()
		if x.Bool() {
			si := 1 + x.Choose(4)
			tx := &seth.Transaction{Nonce: seth.Uint64(x.Choose(3) * 127), To: tos[x.Choose(3)], Gas: seth.Uint64(uint64(x.Choose(2)) * (1<<64 - 1)), GasPrice: *prices[1+x.Choose(4)], Value: *values[1+x.Choose(4)], Input: datas[x.Choose(8)]}
			raw, err := seth.SignTransaction(tx, c07Signers[si].sign)
			x.Step()
			where := fmt.Sprintf("SignTransaction %s, %s", mustJSON(tx), c07Signers[si].name)
			if c07Signers[si].fail {
				if err == nil || len(raw) != 0 {
					x.Failf("failure-ignored", "%s: %x, %v", where, raw, err)
				}
				return
			}
			if err != nil {
				x.Failf("sign-failed", "%s: %v", where, err)
			}
			n := tx.Nonce
			gas := new(big.Int).SetUint64(uint64(tx.Gas))
			ethCheckRaw(x, where, raw, &seth.CallOpts{To: tx.To, Gas: (*seth.Int)(gas), GasPrice: &tx.GasPrice, Value: &tx.Value, Data: tx.Input, Nonce: &n}, c07Signers[si].good)
			x.Case(where)
			x.Validated()
			return
		}
		si := x.Choose(3)
		s := mk(node, si, addrOf(c07Key))
		to := tos[1+x.Choose(2)]
		var h seth.Hash
		var err error
		o := &seth.CallOpts{To: to}
		if x.Bool() {
			v := values[1+x.Choose(4)]
			a := froms[1+x.Choose(2)]
			h, err = s.Send(to, "transfer(address,uint256)", a, v)
			o.Data = append(refKeccak([]byte("transfer(address,uint256)"))[:4], append(leftPad(a[:], 32), leftPad(v.Big().Bytes(), 32)...)...)
		} else {
			h, err = s.Send(to, "f()")
			o.Data = refKeccak([]byte("f()"))[:4]
		}
		x.Step()
		where := fmt.Sprintf("Send to %s data %x, %s", to, o.Data, c07Signers[si].name)
		x.Outcome(c07Check(x, where, s, node, node.requests(), si, o, h, err))
		x.Case(where)
		x.Validated()
	})
}

func ethDecodeHex(s string) *types.Transaction {
	if len(s) < 2 {
		return nil
	}
	raw, err := hex.DecodeString(s[2:])
	if err != nil {
		return nil
	}
	var tx types.Transaction
	if rlp.DecodeBytes(raw, &tx) != nil {
		return nil
	}
	return &tx
}
