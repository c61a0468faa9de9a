package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/params"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"
	"verif.local/mc/mc"
)

// The reference chain: go-ethereum's EVM over a state of plain maps, and plain
// maps for blocks, transactions and receipts. History is kept by deep copies.

func asm(src string) []byte {
	var out []byte
	lab := map[string]int{}
	type fix struct {
		at  int
		lab string
	}
	var fixes []fix
	for _, t := range strings.Fields(src) {
		switch {
		case strings.HasSuffix(t, ":"):
			lab[t[:len(t)-1]] = len(out)
			out = append(out, byte(vm.JUMPDEST))
		case strings.HasPrefix(t, "@"):
			out = append(out, byte(vm.PUSH1), 0)
			fixes = append(fixes, fix{len(out) - 1, t[1:]})
		case strings.HasPrefix(t, "0x"):
			b := common.FromHex(t)
			out = append(out, byte(vm.PUSH1)+byte(len(b)-1))
			out = append(out, b...)
		case t == "INVALID":
			out = append(out, 0xfe)
		default:
			op := vm.StringToOp(t)
			if op == 0 && t != "STOP" {
				panic("asm: " + t)
			}
			out = append(out, byte(op))
		}
	}
	for _, f := range fixes {
		out[f.at] = byte(lab[f.lab])
	}
	return out
}

// initOf wraps runtime code in deployment code.
func initOf(code []byte) []byte {
	if len(code) > 255 {
		panic("initOf: too long")
	}
	n := fmt.Sprintf("0x%02x", len(code))
	pre := asm(n + " 0x0c 0x00 CODECOPY " + n + " 0x00 RETURN")
	if len(pre) != 12 {
		panic(fmt.Sprint("initOf: ", len(pre)))
	}
	return append(pre, code...)
}

func word(v uint64) []byte { return common.BigToHash(new(big.Int).SetUint64(v)).Bytes() }

func awordb(a seth.Address) []byte { return append(make([]byte, 12), a[:]...) }

func cat(bs ...[]byte) []byte { return bytes.Join(bs, nil) }

var (
	adA = seth.Address{0: 0xaa, 19: 1}
	adB = seth.Address{0: 0xbb, 19: 2}
	adN = seth.Address{0: 0x99, 19: 3} // does not exist at first
	adS = seth.Address{0: 0xc0, 19: 'S'}
	adL = seth.Address{0: 0xc0, 19: 'L'}
	adM = seth.Address{0: 0xc0, 19: 'M'} // a second logger
	adR = seth.Address{0: 0xc0, 19: 'R'}
	adI = seth.Address{0: 0xc0, 19: 'I'}
	adK = seth.Address{0: 0xc0, 19: 'K'}
	adF = seth.Address{0: 0xc0, 19: 'F'}
	adG = seth.Address{0: 0xc0, 19: 'G'}
	adC = seth.Address{0: 0xc0, 19: 'C'}
	adP = seth.Address{0: 0xc0, 19: 'P'}
	adH = seth.Address{0: 0xc0, 19: 'H'}
	adE = seth.Address{0: 0xc0, 19: 'E'}
	adD = seth.Address{0: 0xc0, 19: 'D'}

	codeStore = asm("CALLDATASIZE 0x40 EQ @st JUMPI 0x00 CALLDATALOAD SLOAD 0x00 MSTORE 0x20 0x00 RETURN " +
		"st: 0x20 CALLDATALOAD 0x00 CALLDATALOAD SSTORE STOP")
	// data word, then up to four topics; if the data word is 0xbad it reverts afterwards
	codeLog = asm("0x00 CALLDATALOAD 0x00 MSTORE " +
		"CALLDATASIZE 0x20 EQ @t0 JUMPI CALLDATASIZE 0x40 EQ @t1 JUMPI CALLDATASIZE 0x60 EQ @t2 JUMPI CALLDATASIZE 0x80 EQ @t3 JUMPI " +
		"0x80 CALLDATALOAD 0x60 CALLDATALOAD 0x40 CALLDATALOAD 0x20 CALLDATALOAD 0x20 0x00 LOG4 @end JUMP " +
		"t3: 0x60 CALLDATALOAD 0x40 CALLDATALOAD 0x20 CALLDATALOAD 0x20 0x00 LOG3 @end JUMP " +
		"t2: 0x40 CALLDATALOAD 0x20 CALLDATALOAD 0x20 0x00 LOG2 @end JUMP " +
		"t1: 0x20 CALLDATALOAD 0x20 0x00 LOG1 @end JUMP " +
		"t0: 0x20 0x00 LOG0 " +
		"end: 0x00 CALLDATALOAD 0x0bad EQ @rv JUMPI STOP rv: 0x00 0x00 REVERT")
	codeRevert  = asm("0x1234 0x00 MSTORE 0x01 0x00 SSTORE 0x20 0x00 REVERT")
	codeInvalid = asm("0x01 0x00 SSTORE INVALID")
	// self-destructs in favour of the address in the call data
	codeKill = asm("0x00 CALLDATALOAD SELFDESTRUCT")
	// forwards the received value to the address in the call data; returns the success flag
	codeFwd = asm("0x00 0x00 0x00 0x00 CALLVALUE 0x00 CALLDATALOAD GAS CALL 0x00 MSTORE 0x20 0x00 RETURN")
	// the same, then reverts
	codeFwdRev = asm("0x00 0x00 0x00 0x00 CALLVALUE 0x00 CALLDATALOAD GAS CALL 0x00 0x00 REVERT")
	// creates an empty contract endowed with the received value
	codeFactory = asm("0x00 0x00 CALLVALUE CREATE 0x00 MSTORE 0x20 0x00 RETURN")
	// passes its call data on to the store contract with all gas and requires success
	codeNested = asm("CALLDATASIZE 0x00 0x00 CALLDATACOPY 0x00 0x00 CALLDATASIZE 0x00 0x00 0x" + fmt.Sprintf("%x", adS[:]) +
		" GAS CALL @ok JUMPI 0x00 0x00 REVERT ok: STOP")
)

type genesis struct {
	addr seth.Address
	bal  int64
	code []byte
}

var worldAccounts = []genesis{
	{adA, 1000, nil}, {adB, 300, nil},
	{adS, 0, codeStore}, {adL, 0, codeLog}, {adM, 0, codeLog}, {adR, 0, codeRevert}, {adI, 0, codeInvalid},
	{adK, 70, codeKill}, {adF, 0, codeFwd}, {adG, 0, codeFwdRev}, {adC, 0, codeFactory}, {adP, 0, codeNested},
	{adH, 0, codeHelp}, {adE, 7, codeEnv}, {adD, 40, codeKill4},
}

var refParams = params.ChainConfig{
	ChainID: big.NewInt(5), HomesteadBlock: new(big.Int), ConstantinopleBlock: new(big.Int), PetersburgBlock: new(big.Int),
	IstanbulBlock: new(big.Int), ByzantiumBlock: new(big.Int), EIP150Block: new(big.Int), EIP155Block: new(big.Int), EIP158Block: new(big.Int),
}

type logM struct {
	Addr   seth.Address
	Topics []common.Hash
	Data   []byte
	Block  uint64
	Tx     seth.Hash
	TxIdx  int
	Idx    int
	Mined  bool
	BHash  seth.Hash
}

type txM struct {
	Hash     seth.Hash
	From     seth.Address
	To       *seth.Address
	Input    []byte
	Value    *big.Int
	Gas      uint64
	GasPrice int64
	Nonce    uint64
	Block    uint64
	BHash    seth.Hash
	Idx      int
}

type rxM struct {
	Hash  seth.Hash
	Idx   int
	Block uint64
	BHash seth.Hash
	Used  uint64
	Cum   uint64
	Addr  *seth.Address // nil: not a creation
	OK    bool
	Logs  []logM
}

type blockM struct {
	Number  uint64
	Hash    seth.Hash
	Parent  seth.Hash
	GasUsed uint64
	Miner   seth.Address
	Diff    int64
	Limit   uint64
	Time    uint64
	Txs     []*txM
	rxs     []*rxM
}

func (b *blockM) clone() *blockM {
	n := *b
	n.Txs = append([]*txM(nil), b.Txs...)
	n.rxs = append([]*rxM(nil), b.rxs...)
	return &n
}

type refChain struct {
	st     *refState
	logs   []logM
	pend   *blockM
	txs    map[seth.Hash]*txM
	rxs    map[seth.Hash]*rxM
	sealed map[uint64]*refChain // state at the moment of sealing; pend is the sealed block
	view   bool                 // executing on a historical view: positions of logs within its block are unspecified
}

func (m *refChain) clone() *refChain {
	n := &refChain{st: m.st.Copy(), logs: append([]logM(nil), m.logs...), pend: m.pend.clone(), view: m.view,
		txs: map[seth.Hash]*txM{}, rxs: map[seth.Hash]*rxM{}, sealed: map[uint64]*refChain{}}
	for k, v := range m.txs {
		n.txs[k] = v
	}
	for k, v := range m.rxs {
		n.rxs[k] = v
	}
	for k, v := range m.sealed {
		n.sealed[k] = v
	}
	return n
}

// newWorld makes a real chain and its reference with the given accounts.
func newWorld(accts []genesis) (*tevm.Chain, *refChain) {
	c := tevm.NewChain()
	st := newRefState()
	m := &refChain{st: st, txs: map[seth.Hash]*txM{}, rxs: map[seth.Hash]*rxM{}, sealed: map[uint64]*refChain{}}
	m.pend = &blockM{Number: uint64(*c.State.Pending.Number), Hash: *c.State.Pending.Hash, Time: uint64(c.State.Pending.Timestamp), Diff: c.State.Pending.Difficulty.Int64(), Limit: uint64(c.State.Pending.GasLimit)}
	for _, db := range []vm.StateDB{c.State.StateDB(), st} {
		for _, g := range accts {
			a := common.Address(g.addr)
			db.CreateAccount(a)
			if g.bal > 0 {
				db.AddBalance(a, big.NewInt(g.bal))
			}
			if g.code != nil {
				db.SetNonce(a, 1)
				db.SetCode(a, g.code)
			}
		}
	}
	return c, m
}

// worldBase serves some accounts as they are at worldFork.
type worldBase []genesis

const worldFork = 16777300

func (b worldBase) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
	res.ID, res.Version = req.ID, "2.0"
	var a seth.Address
	if len(req.Params) < 2 || json.Unmarshal(req.Params[0], &a) != nil || string(req.Params[len(req.Params)-1]) != fmt.Sprintf(`"0x%x"`, worldFork) {
		res.Error = seth.RPCError{Code: -32602, Message: fmt.Sprintf("verif: %s%s", req.Method, req.Params)}
		return nil
	}
	var g genesis
	for _, w := range b {
		if w.addr == a {
			g = w
		}
	}
	switch req.Method {
	case "eth_getBalance":
		res.Result = json.RawMessage(fmt.Sprintf(`"0x%x"`, g.bal))
	case "eth_getTransactionCount":
		n := 0
		if g.code != nil {
			n = 1
		}
		res.Result = json.RawMessage(fmt.Sprintf(`"0x%x"`, n))
	case "eth_getCode":
		res.Result = json.RawMessage(fmt.Sprintf(`"0x%x"`, g.code))
	case "eth_getStorageAt":
		var h seth.Hash
		if err := json.Unmarshal(req.Params[1], &h); err != nil {
			res.Error = seth.RPCError{Code: -32602, Message: "verif: " + err.Error()}
			return nil
		}
		res.Result = json.RawMessage(fmt.Sprintf(`"0x%x"`, worldStorage(a, common.Hash(h)).Bytes()))
	default:
		res.Error = seth.RPCError{Code: -32601, Message: "verif: " + req.Method}
	}
	return nil
}

// worldStorage is the storage of the base chain of a fork.
func worldStorage(a seth.Address, h common.Hash) (v common.Hash) {
	if a == adS && h == (common.Hash{}) {
		v[31] = 0x77
	}
	if a == adS && h == (common.Hash{31: 1}) {
		v[0] = 0x80
	}
	return v
}

// newForkWorld is newWorld with the accounts on the base chain of a fork.
func newForkWorld(accts []genesis) (*tevm.Chain, *refChain) {
	_, m := newWorld(accts)
	for _, h := range worldSlots {
		if v := worldStorage(adS, h); v != (common.Hash{}) {
			m.st.SetState(common.Address(adS), h, v)
		}
	}
	c := tevm.NewFork(seth.NewClientTransport(worldBase(accts)), worldFork)
	m.pend = &blockM{Number: worldFork + 1, Hash: *c.State.Pending.Hash, Time: uint64(c.State.Pending.Timestamp), Diff: c.State.Pending.Difficulty.Int64(), Limit: uint64(c.State.Pending.GasLimit)}
	return c, m
}

func refContext(m *refChain, from common.Address) vm.Context {
	return vm.Context{
		CanTransfer: func(db vm.StateDB, a common.Address, v *big.Int) bool {
			return v.Sign() >= 0 && db.GetBalance(a).Cmp(v) >= 0
		},
		Transfer: func(db vm.StateDB, f, t common.Address, v *big.Int) {
			if v.Sign() != 0 {
				db.SubBalance(f, v)
				db.AddBalance(t, v)
			}
		},
		GetHash:     func(uint64) common.Hash { return common.Hash{} },
		Origin:      from,
		GasLimit:    6000000,
		BlockNumber: new(big.Int).SetUint64(m.pend.Number),
		Time:        big.NewInt(1),
		Difficulty:  big.NewInt(100),
		GasPrice:    big.NewInt(0),
	}
}

// exec runs a message on the reference and returns its logs.
func (m *refChain) exec(from seth.Address, to *seth.Address, data []byte, gas uint64, value *big.Int) (ret []byte, addr seth.Address, left uint64, logs []*types.Log, err error) {
	f := common.Address(from)
	l0 := len(m.st.logs)
	e := vm.NewEVM(refContext(m, f), m.st, &refParams, vm.Config{})
	if to == nil {
		var a common.Address
		ret, a, left, err = e.Create(vm.AccountRef(f), data, gas, value)
		addr = seth.Address(a)
	} else {
		ret, left, err = e.Call(vm.AccountRef(f), common.Address(*to), data, gas, value)
	}
	m.st.finalise()
	return ret, addr, left, m.st.logs[l0:], err
}

func (m *refChain) addLogs(ls []*types.Log, tx *txM) []logM {
	var out []logM
	n := 0
	for _, r := range m.pend.rxs {
		n += len(r.Logs)
	}
	for i, l := range ls {
		e := logM{Addr: seth.Address(l.Address), Topics: l.Topics, Data: l.Data, Block: m.pend.Number}
		if tx != nil {
			e.Mined, e.Tx, e.TxIdx, e.Idx, e.BHash = true, tx.Hash, tx.Idx, n+i, m.pend.Hash
			if m.view {
				e.Idx = -1
			}
		}
		out = append(out, e)
	}
	m.logs = append(m.logs, out...)
	return out
}

// mine performs the transaction on both and compares the immediate results.
func mineBoth(x *mc.X, c *tevm.Chain, m *refChain, tx *seth.Transaction) *txM {
	want := &txM{From: *tx.From, Input: append([]byte(nil), tx.Input...), Value: new(big.Int).Set(tx.Value.Big()), Gas: uint64(tx.Gas),
		GasPrice: tx.GasPrice.Int64(), Nonce: uint64(tx.Nonce), Block: m.pend.Number, BHash: m.pend.Hash, Idx: len(m.pend.Txs)}
	if tx.To != nil {
		to := *tx.To
		want.To = &to
	}
	ret, h, err := c.Mine(tx)
	wret, waddr, wleft, wlogs, werr := m.exec(want.From, want.To, want.Input, want.Gas, want.Value)
	if (err == nil) != (werr == nil) {
		x.Failf("mine-error", "Mine returned error %v, reference %v", err, werr)
	}
	if !bytes.Equal(ret, wret) {
		x.Failf("mine-return", "Mine returned %x, reference %x", ret, wret)
	}
	if _, dup := m.txs[h]; dup {
		x.Failf("mine-hash-reused", "transaction hash %s was already used", h.String())
	}
	want.Hash = h
	used := want.Gas - wleft
	m.pend.GasUsed += used
	rx := &rxM{Hash: h, Idx: want.Idx, Block: want.Block, BHash: want.BHash, Used: used, Cum: m.pend.GasUsed, OK: werr == nil}
	rx.Logs = m.addLogs(wlogs, want)
	if want.To == nil {
		a := waddr
		rx.Addr = &a
	}
	m.pend.Txs = append(m.pend.Txs, want)
	m.pend.rxs = append(m.pend.rxs, rx)
	m.txs[h] = want
	return want
}

func sealBoth(x *mc.X, c *tevm.Chain, m *refChain) {
	c.Seal()
	m.sealRef()
	p := c.State.Pending
	if p.Number == nil || uint64(*p.Number) != m.pend.Number+0 {
		x.Failf("seal-number", "pending block number %v after sealing, want %d", p.Number, m.pend.Number)
	}
	if p.Hash == nil {
		x.Failf("seal-hash", "pending block has no hash")
	}
	for _, b := range m.sealed {
		if b.pend.Hash == *p.Hash {
			x.Failf("seal-hash", "new block has the hash of block %d", b.pend.Number)
		}
	}
	m.pend.Hash = *p.Hash
	m.stamp(x, c)
}

// stamp takes the time of the new pending block from the chain: it is the
// time of day, but no earlier than the parent's.
func (m *refChain) stamp(x *mc.X, c *tevm.Chain) {
	t := uint64(c.State.Pending.Timestamp)
	if t < m.pend.Time {
		x.Failf("seal-time", "block %d has time %d, its parent %d", m.pend.Number, t, m.pend.Time)
	}
	m.pend.Time = t
}

func (m *refChain) sealRef() {
	for _, r := range m.pend.rxs {
		m.rxs[r.Hash] = r
	}
	s := m.clone()
	s.sealed = map[uint64]*refChain{}
	for k, v := range m.sealed {
		s.sealed[k] = v
	}
	m.sealed[m.pend.Number] = s
	m.view = false
	p := m.pend
	m.pend = &blockM{Number: p.Number + 1, Parent: p.Hash, Miner: p.Miner, Diff: p.Diff, Limit: p.Limit, Time: p.Time}
}

// mkTx makes a transaction value for Mine.
func mkTx(from seth.Address, to *seth.Address, data []byte, value int64, gas uint64, nonce int) *seth.Transaction {
	f := from
	tx := &seth.Transaction{From: &f, Input: data, Gas: seth.Uint64(gas), GasPrice: *seth.NewInt(7), Nonce: seth.Uint64(nonce)}
	if to != nil {
		t := *to
		tx.To = &t
	}
	tx.Value = *seth.NewInt(value)
	return tx
}

// ---- comparing observables ----

var worldSlots = []common.Hash{{}, {31: 1}, {31: 2}}

func compareAccounts(x *mc.X, what string, c *tevm.Chain, m *refChain, extra ...seth.Address) {
	db := c.State.StateDB()
	check := func(a seth.Address) {
		ca := common.Address(a)
		if got, want := c.BalanceOf(&a), m.st.GetBalance(ca); got.Cmp(want) != 0 {
			x.Failf("chain-balance", "%s: balance of %s is %v, want %v", what, a.String(), got, want)
		}
		if got, want := db.GetNonce(ca), m.st.GetNonce(ca); got != want {
			x.Failf("chain-nonce", "%s: nonce of %s is %d, want %d", what, a.String(), got, want)
		}
		if got, want := db.GetCode(ca), m.st.GetCode(ca); !bytes.Equal(got, want) {
			x.Failf("chain-code", "%s: code of %s is %x, want %x", what, a.String(), got, want)
		}
		for _, s := range worldSlots {
			if got, want := db.GetState(ca, s), m.st.GetState(ca, s); got != want {
				if m.st.stale[ca] && want == (common.Hash{}) && x.Known("stale-storage", fmt.Sprintf("%s: a new contract at %s has %x in slot %d, left by the one before", what, a.String(), got, s[31])) {
					continue
				}
				if m.st.stale[ca] && want == (common.Hash{}) {
					x.Failf("stale-storage", "%s: %s has %x in slot %d, left by a contract that is gone", what, a.String(), got, s[31])
				}
				x.Failf("chain-storage", "%s: storage of %s at %x is %x, want %x", what, a.String(), s[31], got, want)
			}
		}
	}
	for _, g := range worldAccounts {
		check(g.addr)
	}
	check(adN)
	for _, a := range extra {
		check(a)
	}
}

func compareLogs(x *mc.X, what string, got []seth.Log, want []logM) {
	if len(got) != len(want) {
		x.Failf("chain-logs", "%s: %d logs, want %d", what, len(got), len(want))
	}
	for i := range got {
		g, w := &got[i], &want[i]
		ok := g.Address == w.Addr && bytes.Equal(g.Data, w.Data) && len(g.Topics) == len(w.Topics) && g.BlockNumber != nil && uint64(*g.BlockNumber) == w.Block && !g.Removed
		for k := range g.Topics {
			ok = ok && bytes.Equal(g.Topics[k], w.Topics[k][:])
		}
		if w.Mined {
			ok = ok && g.TxHash != nil && *g.TxHash == w.Tx && g.TxIndex != nil && int(*g.TxIndex) == w.TxIdx && g.LogIndex != nil && (w.Idx < 0 || int(*g.LogIndex) == w.Idx) && g.BlockHash != nil && *g.BlockHash == w.BHash
		}
		if !ok {
			gj, _ := json.Marshal(g)
			wj, _ := json.Marshal(w)
			x.Failf("chain-log", "%s: log %d is %s, want %s", what, i, gj, wj)
		}
	}
}

// compareLogsWithin: every log is one of want.
func compareLogsWithin(x *mc.X, what string, got []seth.Log, want []logM) {
	for i := range got {
		g := &got[i]
		found := false
		for k := range want {
			w := &want[k]
			found = found || g.Address == w.Addr && bytes.Equal(g.Data, w.Data) && g.BlockNumber != nil && uint64(*g.BlockNumber) == w.Block && (!w.Mined || g.TxHash != nil && *g.TxHash == w.Tx)
		}
		if !found {
			gj, _ := json.Marshal(g)
			x.Failf("chain-log", "%s: log %s is not one of the chain", what, gj)
		}
	}
}

func compareTx(x *mc.X, what string, t *seth.Transaction, w *txM) {
	ok := t.Hash == w.Hash && uint64(t.Nonce) == w.Nonce && t.Block == w.BHash && uint64(t.BlockNumber) == w.Block && t.From != nil && *t.From == w.From &&
		t.TxIndex != nil && int(*t.TxIndex) == w.Idx && t.Value.Big().Cmp(w.Value) == 0 && t.GasPrice.Int64() == w.GasPrice && uint64(t.Gas) == w.Gas && bytes.Equal(t.Input, w.Input) &&
		(t.To == nil) == (w.To == nil) && (t.To == nil || *t.To == *w.To)
	if !ok {
		gj, _ := json.Marshal(t)
		wj, _ := json.Marshal(w)
		x.Failf("chain-tx", "%s: transaction is %s, want %s", what, gj, wj)
	}
}

func compareRx(x *mc.X, what string, r *seth.Receipt, w *rxM) {
	ok := r.Hash == w.Hash && int(r.Index) == w.Idx && r.BlockHash == w.BHash && uint64(r.BlockNumber) == w.Block && uint64(r.GasUsed) == w.Used && uint64(r.Cumulative) == w.Cum &&
		r.Threw() == !w.OK
	if w.Addr == nil {
		ok = ok && r.Address == nil
	} else if w.OK {
		ok = ok && r.Address != nil && *r.Address == *w.Addr
	}
	if !ok {
		gj, _ := json.Marshal(r)
		wj, _ := json.Marshal(w)
		x.Failf("chain-receipt", "%s: receipt is %s, want %s", what, gj, wj)
	}
	compareLogs(x, what+" receipt", r.Logs, w.Logs)
}

func compareBlock(x *mc.X, what string, b *seth.Block, w *blockM, full bool) {
	if b.Number == nil || uint64(*b.Number) != w.Number || b.Hash == nil || *b.Hash != w.Hash || b.Parent != w.Parent || uint64(b.GasUsed) != w.GasUsed {
		j, _ := json.Marshal(b)
		x.Failf("chain-block", "%s: block is %s, want number %d hash %s parent %s gas %d", what, j, w.Number, w.Hash.String(), w.Parent.String(), w.GasUsed)
	}
	if b.Miner != w.Miner || b.Difficulty == nil || b.Difficulty.Int64() != w.Diff || uint64(b.GasLimit) != w.Limit || uint64(b.Timestamp) != w.Time {
		j, _ := json.Marshal(b)
		x.Failf("chain-block-params", "%s: block is %s, want miner %s difficulty %d gas limit %d time %d", what, j, w.Miner.String(), w.Diff, w.Limit, w.Time)
	}
	if len(b.Transactions) != len(w.Txs) {
		x.Failf("chain-block-txs", "%s: block %d has %d transactions, want %d", what, w.Number, len(b.Transactions), len(w.Txs))
	}
	if full {
		txs, err := b.ParseTransactions()
		if err != nil {
			x.Failf("chain-block-txs", "%s: block %d: %v", what, w.Number, err)
		}
		for i := range txs {
			compareTx(x, fmt.Sprintf("%s block %d full tx %d", what, w.Number, i), &txs[i], w.Txs[i])
		}
		return
	}
	for i := range b.Transactions {
		var h seth.Hash
		if err := json.Unmarshal(b.Transactions[i], &h); err != nil || h != w.Txs[i].Hash {
			x.Failf("chain-block-txs", "%s: block %d tx %d is %s, want %s", what, w.Number, i, b.Transactions[i], w.Txs[i].Hash.String())
		}
	}
}

func rpcDo(c *tevm.Chain, method string, out interface{}, params ...interface{}) error {
	ps := make([]json.RawMessage, len(params))
	for i := range params {
		b, err := json.Marshal(params[i])
		if err != nil {
			panic(err)
		}
		ps[i] = b
	}
	return c.Client().Do(method, ps, out)
}

// compareChain checks everything observable at the tip of c.
func compareChain(x *mc.X, what string, c *tevm.Chain, m *refChain, extra ...seth.Address) {
	compareAccounts(x, what, c, m, extra...)
	compareLogs(x, what, c.Logs(), m.logs)
	cl := c.Client()
	for h, t := range m.txs {
		h := h
		got, err := cl.GetTransaction(&h)
		if err != nil {
			x.Failf("chain-tx-missing", "%s: transaction %s: %v", what, h.String(), err)
		}
		compareTx(x, what, got, t)
		r, ok := m.rxs[h]
		rx, err := cl.GetReceipt(&h)
		if !ok {
			if err == nil {
				x.Failf("chain-receipt-early", "%s: receipt of a transaction in the pending block", what)
			}
			continue
		}
		if err != nil {
			x.Failf("chain-receipt-missing", "%s: receipt %s: %v", what, h.String(), err)
		}
		compareRx(x, what, rx, r)
	}
	check := func(b *blockM) {
		for _, full := range []bool{false, true} {
			g, err := cl.GetBlock(int64(b.Number), full)
			if err != nil {
				x.Failf("chain-block-missing", "%s: block %d: %v", what, b.Number, err)
			}
			compareBlock(x, what, g, b, full)
			var g2 seth.Block
			if err := rpcDo(c, "eth_getBlockByHash", &g2, b.Hash, full); err != nil {
				x.Failf("chain-block-missing", "%s: block %s: %v", what, b.Hash.String(), err)
			}
			compareBlock(x, what+" by hash", &g2, b, full)
		}
	}
	check(m.pend)
	for _, s := range m.sealed {
		check(s.pend)
	}
}

// compareHistory checks the view at every sealed block.
func compareHistory(x *mc.X, what string, c *tevm.Chain, m *refChain, extra ...seth.Address) {
	for n, s := range m.sealed {
		v := c.AtBlock(int64(n))
		if v == nil {
			x.Failf("view-missing", "%s: no view at sealed block %d", what, n)
		}
		compareChain(x, fmt.Sprintf("%s at block %d", what, n), v, s, extra...)
		for _, g := range []seth.Address{adA, adB, adN, adK} {
			g := g
			bal, err := c.Client().GetBalanceAt(&g, int64(n))
			if err != nil || bal.Big().Cmp(s.st.GetBalance(common.Address(g))) != 0 {
				x.Failf("view-rpc-balance", "%s: eth_getBalance(%s, %d) = %v, %v; want %v", what, g.String(), n, bal.Big(), err, s.st.GetBalance(common.Address(g)))
			}
		}
		var ret seth.Data
		if err := rpcDo(c, "eth_call", &ret, map[string]interface{}{"from": adA, "to": adS, "data": seth.Data(word(0))}, fmt.Sprintf("0x%x", n)); err != nil || common.BytesToHash(ret) != s.st.GetState(common.Address(adS), common.Hash{}) {
			x.Failf("view-rpc-call", "%s: eth_call at block %d returned %s, %v", what, n, ret.String(), err)
		}
	}
	// the block being made can be asked for by its number as well as by name
	for _, n := range []int64{-1, int64(m.pend.Number)} {
		v := c.AtBlock(n)
		if v == nil {
			x.Failf("view-missing", "%s: no view at block %d, pending is %d", what, n, m.pend.Number)
		}
		for _, g := range []seth.Address{adA, adK} {
			g := g
			if got, want := v.BalanceOf(&g), m.st.GetBalance(common.Address(g)); got.Cmp(want) != 0 {
				x.Failf("view-pending", "%s: balance of %s at block %d is %v, want %v", what, g.String(), n, got, want)
			}
		}
	}
	for _, n := range []int64{5, 99, int64(m.pend.Number) + 1, 1 << 40} {
		if _, ok := m.sealed[uint64(n)]; !ok && c.AtBlock(n) != nil {
			x.Failf("view-unknown", "%s: view at unknown block %d", what, n)
		}
	}
}

func (m *refChain) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d/%d/%d/%d;", m.pend.Number, len(m.pend.Txs), len(m.logs), m.pend.GasUsed)
	for _, g := range worldAccounts {
		a := common.Address(g.addr)
		fmt.Fprintf(&b, "%v,%d,%x;", m.st.GetBalance(a), m.st.GetNonce(a), m.st.GetState(a, common.Hash{}))
	}
	return b.String()
}

// ---- the operation alphabet ----

type chainOp struct {
	name string
	do   func(x *mc.X, c *tevm.Chain, m *refChain, w *world)
}

// world carries per-execution counters.
type world struct {
	seq   int
	extra []seth.Address // contracts created on the way
	fresh []seth.Address // accounts made by NewAccount
	reuse *seth.Transaction
	undo  func() // goes back to the last "state-snapshot"
}

func (w *world) addExtra(a *seth.Address) {
	if a != nil {
		for _, e := range w.extra {
			if e == *a {
				return
			}
		}
		w.extra = append(w.extra, *a)
	}
}

func callErr(x *mc.X, what string, err, werr error) {
	if (err == nil) != (werr == nil) {
		x.Failf("exec-error", "%s returned error %v, reference %v", what, err, werr)
	}
}

var chainOps = map[string]func(x *mc.X, c *tevm.Chain, m *refChain, w *world){
	"transfer": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		mineBoth(x, c, m, mkTx(adA, &adB, nil, int64(w.seq), 100000, w.seq))
	},
	"transfer-new": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		mineBoth(x, c, m, mkTx(adB, &adN, nil, 9, 100000, w.seq))
	},
	"transfer-self": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		mineBoth(x, c, m, mkTx(adA, &adA, nil, 17, 100000, w.seq))
	},
	"transfer-too-much": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		mineBoth(x, c, m, mkTx(adB, &adA, nil, 5000, 100000, w.seq))
	},
	// no amount below zero can be moved
	"transfer-negative": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		mineBoth(x, c, m, mkTx(adA, &adB, nil, -5, 100000, w.seq))
	},
	"create-negative": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		mineBoth(x, c, m, mkTx(adA, nil, initOf(codeStore), -4, 300000, w.seq))
	},
	"rpc-negative": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		// whether it is refused or mined as a failure, nothing moves
		var h seth.Hash
		for _, v := range []string{"-0x5", "-5"} {
			rpcDo(c, "eth_sendTransaction", &h, map[string]interface{}{"from": adA, "to": adB, "gas": seth.Uint64(90000), "gasPrice": seth.NewInt(7), "value": v})
			rpcDo(c, "eth_sendTransaction", &h, map[string]interface{}{"from": adA, "gas": seth.Uint64(90000), "gasPrice": seth.NewInt(7), "value": v, "data": seth.Data{0}})
		}
	},
	"transfer-all": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		mineBoth(x, c, m, mkTx(adB, &adA, nil, m.st.GetBalance(common.Address(adB)).Int64(), 100000, w.seq))
	},
	"store": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		mineBoth(x, c, m, mkTx(adA, &adS, cat(word(0), word(uint64(w.seq))), 0, 100000, w.seq))
	},
	"clear": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		mineBoth(x, c, m, mkTx(adA, &adS, cat(word(0), word(0)), 0, 100000, w.seq))
	},
	"log": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		mineBoth(x, c, m, mkTx(adA, &adL, cat(word(uint64(w.seq)), word(1), word(2)), 0, 100000, w.seq))
	},
	"log-revert": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		mineBoth(x, c, m, mkTx(adA, &adL, cat(word(0xbad), word(1)), 0, 100000, w.seq))
	},
	"revert": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		mineBoth(x, c, m, mkTx(adA, &adR, nil, 3, 100000, w.seq))
	},
	"invalid": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		mineBoth(x, c, m, mkTx(adA, &adI, nil, 3, 100000, w.seq))
	},
	"create": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		mineBoth(x, c, m, mkTx(adA, nil, initOf(codeStore), 4, 300000, w.seq))
		w.addExtra(m.pend.rxs[len(m.pend.rxs)-1].Addr)
	},
	"create-fail": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		mineBoth(x, c, m, mkTx(adA, nil, asm("INVALID"), 4, 100000, w.seq))
		w.addExtra(m.pend.rxs[len(m.pend.rxs)-1].Addr)
	},
	"fund-future": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		a := createAddr(adA, m.st.GetNonce(common.Address(adA)))
		w.addExtra(&a)
		mineBoth(x, c, m, mkTx(adB, &a, nil, 6, 100000, w.seq))
	},
	"kill": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		mineBoth(x, c, m, mkTx(adA, &adK, awordb(adB), 2, 100000, w.seq))
	},
	"kill-new": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		mineBoth(x, c, m, mkTx(adA, &adK, awordb(adN), 0, 100000, w.seq))
	},
	"kill-self": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		mineBoth(x, c, m, mkTx(adA, &adK, awordb(adK), 0, 100000, w.seq))
	},
	"forward": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		mineBoth(x, c, m, mkTx(adA, &adF, awordb(adN), 5, 200000, w.seq))
	},
	"forward-self": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		mineBoth(x, c, m, mkTx(adA, &adF, awordb(adF), 5, 200000, w.seq))
	},
	"forward-fail": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		mineBoth(x, c, m, mkTx(adA, &adF, awordb(adR), 5, 200000, w.seq))
	},
	"forward-revert": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		mineBoth(x, c, m, mkTx(adA, &adG, awordb(adB), 5, 200000, w.seq))
	},
	"forward-kill": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		// the killed contract's own call data is empty: the beneficiary is the zero address
		mineBoth(x, c, m, mkTx(adA, &adF, awordb(adK), 5, 200000, w.seq))
	},
	"factory": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		a := createAddr(adC, m.st.GetNonce(common.Address(adC)))
		w.addExtra(&a)
		mineBoth(x, c, m, mkTx(adA, &adC, nil, 8, 200000, w.seq))
	},
	"nested": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		mineBoth(x, c, m, mkTx(adA, &adP, cat(word(1), word(uint64(w.seq))), 0, 200000, w.seq))
	},
	"reuse": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		// the caller keeps one transaction value and mines it again and again
		if w.reuse == nil {
			w.reuse = mkTx(adA, &adL, cat(word(uint64(w.seq)), word(3)), 0, 100000, w.seq)
		} else {
			w.reuse.Nonce++
			w.reuse.From[1]++
		}
		mineBoth(x, c, m, w.reuse)
	},
	"seal": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) { sealBoth(x, c, m) },
	// unrecorded execution
	"send": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		err := c.Send(&adB, &adA, big.NewInt(1))
		_, _, _, _, werr := m.exec(adB, &adA, nil, 6000000, big.NewInt(1))
		callErr(x, "Send", err, werr)
	},
	// use of the state underneath the chain
	"emit": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		l := types.Log{Address: common.Address(adL), Topics: []common.Hash{common.BytesToHash(word(uint64(w.seq)))}, Data: word(uint64(w.seq)), BlockNumber: m.pend.Number}
		o := l
		c.State.StateDB().AddLog(&l)
		m.addLogs([]*types.Log{&o}, nil)
	},
	"state-snapshot": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		id, st, logs := c.State.StateDB().Snapshot(), m.st.Copy(), append([]logM(nil), m.logs...)
		blk := m.pend.Number
		ntx := len(m.pend.Txs)
		w.undo = func() {
			if m.pend.Number != blk || len(m.pend.Txs) != ntx {
				return // only what is not part of the history is undone
			}
			c.State.StateDB().RevertToSnapshot(id)
			m.st, m.logs = st.Copy(), append([]logM(nil), logs...)
		}
	},
	"state-revert": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		if w.undo != nil {
			w.undo()
		}
	},
	"addbal": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		c.AddBalance(&adB, big.NewInt(11))
		m.st.AddBalance(common.Address(adB), big.NewInt(11))
	},
	"rpc-send": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		var h seth.Hash
		err := rpcDo(c, "eth_sendTransaction", &h, map[string]interface{}{"from": adA, "to": adB, "gas": seth.Uint64(90000), "gasPrice": seth.NewInt(7), "value": seth.NewInt(2), "data": seth.Data{1, 2}})
		if err != nil {
			x.Failf("rpc-send", "eth_sendTransaction: %v", err)
		}
		t := &txM{Hash: h, From: adA, To: &adB, Input: []byte{1, 2}, Value: big.NewInt(2), Gas: 90000, GasPrice: 7, Block: m.pend.Number, BHash: m.pend.Hash, Idx: len(m.pend.Txs)}
		_, _, left, _, werr := m.exec(adA, &adB, t.Input, t.Gas, t.Value)
		if werr != nil {
			panic(werr)
		}
		used := t.Gas - left
		m.pend.GasUsed += used
		m.pend.rxs = append(m.pend.rxs, &rxM{Hash: h, Idx: t.Idx, Block: t.Block, BHash: t.BHash, Used: used, Cum: m.pend.GasUsed, OK: true})
		m.pend.Txs = append(m.pend.Txs, t)
		m.txs[h] = t
		m.sealRef()
		m.pend.Hash = *c.State.Pending.Hash
		m.stamp(x, c)
	},
}

func createAddr(a seth.Address, nonce uint64) seth.Address {
	// RLP of [address, nonce] for nonce < 128
	b := append([]byte{0xd6, 0x94}, a[:]...)
	if nonce == 0 {
		b = append(b, 0x80)
	} else if nonce < 0x80 {
		b = append(b, byte(nonce))
	} else {
		panic("createAddr")
	}
	h := refKeccak(b)
	var o seth.Address
	copy(o[:], h[12:])
	return o
}

func pickOps(names string) []chainOp {
	var o []chainOp
	for _, n := range strings.Fields(names) {
		f := chainOps[n]
		if f == nil {
			panic("no op " + n)
		}
		o = append(o, chainOp{n, f})
	}
	return o
}
