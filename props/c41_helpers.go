package props

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"
	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{
		ID:    "C41",
		Level: "model_checking",
		Rule:  "every sequence up to a depth of the chain's helper calls, recorded transactions, sealing and changes of the block's parameters, on the chain, its views, copies and reloads; a state is the content of the reference chain",
		Notes: []string{"the reference executes the same messages with go-ethereum's EVM over a state of plain maps"},
		Run:   runC41,
	})
}

var (
	// no argument: two slots and the caller; else stores the argument and the
	// caller, logs and returns the argument; 0xbad reverts with it
	codeHelp = asm("CALLDATASIZE 0x04 EQ @get JUMPI 0x04 CALLDATALOAD 0x00 SSTORE CALLER 0x01 SSTORE 0x04 CALLDATALOAD 0x00 MSTORE " +
		"0x07 0x20 0x00 LOG1 0x04 CALLDATALOAD 0x0bad EQ @rv JUMPI 0x20 0x00 RETURN rv: 0x20 0x00 REVERT " +
		"get: 0x00 SLOAD 0x00 MSTORE 0x01 SLOAD 0x20 MSTORE CALLER 0x40 MSTORE 0x60 0x00 RETURN")
	codeKill4 = asm("0x04 CALLDATALOAD SELFDESTRUCT")
	codeEnv   = asm("NUMBER 0x00 MSTORE TIMESTAMP 0x20 MSTORE COINBASE 0x40 MSTORE DIFFICULTY 0x60 MSTORE GASLIMIT 0x80 MSTORE " +
		"0x01 NUMBER SUB BLOCKHASH 0xa0 MSTORE NUMBER BLOCKHASH 0xc0 MSTORE CALLER 0xe0 MSTORE ORIGIN 0x0100 MSTORE CALLVALUE 0x0120 MSTORE " +
		"ADDRESS 0x0140 MSTORE ADDRESS BALANCE 0x0160 MSTORE GASPRICE 0x0180 MSTORE 0x02 NUMBER SUB BLOCKHASH 0x01a0 MSTORE 0x01c0 0x00 RETURN")

	// a constructor that stores, logs, and then returns, reverts or fails
	initGood = append(asm("CALLER 0x00 SSTORE 0x09 0x01 SSTORE 0x05 0x20 0x00 LOG1"), initAt(codeHelp, 14)...)
	initRev  = asm("0x01 0x00 SSTORE 0x00 0x00 LOG0 0x04 0x00 MSTORE 0x20 0x00 REVERT")
	initBad  = asm("0x01 0x00 SSTORE INVALID")
	initKill = asm("CALLER SELFDESTRUCT")
	initSend = asm("0x00 0x00 0x00 0x00 0x00 0x" + fmt.Sprintf("%x", adH[:]) + " GAS CALL 0x00 0x00 REVERT")
)

// initAt is initOf for a preamble of n bytes.
func initAt(code []byte, n int) []byte {
	l := fmt.Sprintf("0x%02x", len(code))
	pre := asm(l + fmt.Sprintf(" 0x%02x 0x00 CODECOPY ", 12+n) + l + " 0x00 RETURN")
	return append(pre, code...)
}

func b32(v int64) *seth.Int { return seth.NewInt(v) }

// refCreateAt creates a contract on the reference at an address.
func (m *refChain) refCreateAt(addr, from seth.Address, code []byte) error {
	snap := m.st.Snapshot()
	l0 := len(m.st.logs)
	e := vm.NewEVM(refContext(m, common.Address(from)), m.st, &refParams, vm.Config{})
	a := common.Address(addr)
	m.st.CreateAccount(a)
	m.st.SetNonce(a, 1)
	k := vm.NewContract(vm.AccountRef(from), vm.AccountRef(addr), new(big.Int), 6000000)
	k.Code = code
	k.CodeAddr = &a
	ret, err := e.Interpreter().Run(k, nil, false)
	if err != nil {
		m.st.RevertToSnapshot(snap)
		return err
	}
	m.st.SetCode(a, ret)
	m.st.finalise()
	m.addLogs(m.st.logs[l0:], nil)
	return nil
}

func helpCall(from, to seth.Address, sig string, args ...seth.EtherType) func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
	return func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		f, t := from, to
		ret, err := c.Call(&f, &t, sig, args...)
		wret, _, _, logs, werr := m.exec(from, &to, seth.ABIEncode(sig, args...), 6000000, new(big.Int))
		callErr(x, "Call", err, werr)
		if !bytes.Equal(ret, wret) {
			x.Failf("call-return", "Call %s returned %x, reference %x", sig, ret, wret)
		}
		m.addLogs(logs, nil)
	}
}

func helpStatic(writes bool, from, to seth.Address, sig string, args ...seth.EtherType) func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
	return func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		f, t := from, to
		n := m.clone()
		wret, _, left, _, werr := n.exec(from, &to, seth.ABIEncode(sig, args...), 6000000, new(big.Int))
		ret, err := c.StaticCall(&f, &t, sig, args...)
		if writes && err != nil {
			// a static call may refuse to write
		} else {
			callErr(x, "StaticCall", err, werr)
			if !bytes.Equal(ret, wret) {
				x.Failf("static-return", "StaticCall %s returned %x, reference %x", sig, ret, wret)
			}
		}
		gas, err := c.EstimateGas(&f, &t, sig, args...)
		callErr(x, "EstimateGas", err, werr)
		if err == nil && gas != 6000000-left {
			x.Failf("estimate", "EstimateGas %s is %d, the call takes %d", sig, gas, 6000000-left)
		}
	}
}

func helpCreate(code []byte) func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
	return func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		f := adA
		a, err := c.Create(&f, code)
		_, wa, _, logs, werr := m.exec(adA, nil, code, 6000000, new(big.Int))
		callErr(x, "Create", err, werr)
		if err == nil && a != wa {
			x.Failf("create-address", "Create returned %s, want %s", a.String(), wa.String())
		}
		m.addLogs(logs, nil)
		w.addExtra(&wa)
	}
}

func helpCreateAt(at seth.Address, code []byte) func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
	return func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		f, a := adB, at
		w.addExtra(&at)
		err := c.CreateAt(&a, &f, code)
		if a != at || f != adB {
			x.Failf("arguments", "CreateAt changed its arguments")
		}
		callErr(x, "CreateAt", err, m.refCreateAt(at, adB, code))
	}
}

func helpSend(from, to seth.Address, v int64) func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
	return func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		f, t, amt := from, to, big.NewInt(v)
		err := c.Send(&f, &t, amt)
		if amt.Int64() != v || f != from || t != to {
			x.Failf("arguments", "Send changed its arguments")
		}
		_, _, _, logs, werr := m.exec(from, &to, nil, 6000000, big.NewInt(v))
		callErr(x, "Send", err, werr)
		m.addLogs(logs, nil)
	}
}

func helpNew(ether int) func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
	return func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
		a := c.NewAccount(ether)
		if m.st.Exist(common.Address(a)) || a == (seth.Address{}) {
			x.Failf("new-account", "NewAccount returned the existing %s", a.String())
		}
		m.st.CreateAccount(common.Address(a))
		v := new(big.Int).Mul(big.NewInt(int64(ether)), big.NewInt(1000000000000000000))
		m.st.AddBalance(common.Address(a), v)
		w.addExtra(&a)
		w.fresh = append(w.fresh, a)
	}
}

// the last account made sends something
func helpFresh(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
	if len(w.fresh) == 0 {
		x.Prune()
	}
	f := w.fresh[len(w.fresh)-1]
	helpSend(f, adB, 5)(x, c, m, w)
	helpCall(f, adH, "set(uint256)", b32(3))(x, c, m, w)
}

func checkEnv(x *mc.X, how string, m *refChain, ret []byte, from seth.Address, value, price int64) {
	if len(ret) != 0x1c0 {
		x.Failf("env", "%s: returned %x", how, ret)
	}
	h := func(n uint64) []byte {
		if s := m.sealed[n]; s != nil {
			return s.pend.Hash[:]
		}
		return nil
	}
	bal := m.st.GetBalance(common.Address(adE))
	want := [][]byte{word(m.pend.Number), word(m.pend.Time), awordb(m.pend.Miner), word(uint64(m.pend.Diff)), word(m.pend.Limit),
		h(m.pend.Number - 1), word(0), awordb(from), awordb(from), word(uint64(value)), awordb(adE), word(bal.Uint64()), word(uint64(price)), h(m.pend.Number - 2)}
	names := "number time coinbase difficulty gaslimit parent-hash own-hash caller origin value address balance price grandparent-hash"
	for i, w := range want {
		if g := ret[i*32 : i*32+32]; w != nil && !bytes.Equal(g, w) {
			x.Failf("env", "%s: of %s, number %d is %x, want %x", how, names, i, g, w)
		}
	}
}

func helpEnv(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
	f, t := adA, adE
	ret, err := c.Call(&f, &t, "env()")
	if err != nil {
		x.Failf("env", "Call: %v", err)
	}
	m.exec(adA, &adE, seth.ABIEncode("env()"), 6000000, new(big.Int))
	checkEnv(x, "Call", m, ret, adA, 0, 0)
	if ret, err = c.StaticCall(&f, &t, "env()"); err != nil {
		x.Failf("env", "StaticCall: %v", err)
	}
	checkEnv(x, "StaticCall", m, ret, adA, 0, 0)
	var out seth.Data
	if err := rpcDo(c, "eth_call", &out, map[string]interface{}{"from": adB, "to": adE}, "pending"); err != nil {
		x.Failf("env", "eth_call: %v", err)
	}
	checkEnv(x, "eth_call", m, out, adB, 0, 0)
}

func helpEnvTx(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
	tx := mkTx(adA, &adE, nil, 3, 100000, w.seq)
	want := &txM{From: adA, Value: big.NewInt(3), Gas: 100000, GasPrice: 7, Nonce: uint64(w.seq), Block: m.pend.Number, BHash: m.pend.Hash, Idx: len(m.pend.Txs)}
	to := adE
	want.To = &to
	ret, h, err := c.Mine(tx)
	if err != nil {
		x.Failf("env", "Mine: %v", err)
	}
	_, _, left, _, _ := m.exec(adA, &adE, nil, 100000, big.NewInt(3))
	checkEnv(x, "Mine", m, ret, adA, 3, 7)
	want.Hash = h
	m.pend.GasUsed += want.Gas - left
	m.pend.Txs = append(m.pend.Txs, want)
	m.pend.rxs = append(m.pend.rxs, &rxM{Hash: h, Idx: want.Idx, Block: want.Block, BHash: want.BHash, Used: want.Gas - left, Cum: m.pend.GasUsed, OK: true})
	m.txs[h] = want
}

func init() {
	adX := seth.Address{0: 0xdd, 19: 'X'}
	for n, f := range map[string]func(x *mc.X, c *tevm.Chain, m *refChain, w *world){
		"h-new0":           helpNew(0),
		"h-new5":           helpNew(5),
		"h-fresh":          helpFresh,
		"h-create":         helpCreate(initGood),
		"h-create-rev":     helpCreate(initRev),
		"h-create-bad":     helpCreate(initBad),
		"h-create-kill":    helpCreate(initKill),
		"h-create-nothing": helpCreate(nil),
		"h-at":             helpCreateAt(adX, initGood),
		"h-at-rev":         helpCreateAt(adX, initRev),
		"h-at-bad":         helpCreateAt(adX, initBad),
		"h-at-kill":        helpCreateAt(adX, initKill),
		"h-at-send":        helpCreateAt(adX, initSend),
		"h-at-over":        helpCreateAt(adR, initOf(codeHelp)),
		"h-at-over-bad":    helpCreateAt(adR, initBad),
		"h-at-rich":        helpCreateAt(adB, initOf(codeHelp)),
		"h-at-rich-rev":    helpCreateAt(adB, initRev),
		"h-set":            helpCall(adA, adH, "set(uint256)", b32(21)),
		"h-set-b":          helpCall(adB, adH, "set(uint256)", b32(0)),
		"h-set-bad":        helpCall(adA, adH, "set(uint256)", b32(0xbad)),
		"h-get":            helpCall(adB, adH, "get()"),
		"h-none":           helpCall(adA, adN, "get()"),
		"h-call-x":         helpCall(adA, adX, "set(uint256)", b32(8)),
		"h-kill":           helpCall(adA, adD, "kill(address)", &adB),
		"h-kill-self":      helpCall(adA, adD, "kill(address)", &adD),
		"h-static":         helpStatic(false, adB, adH, "get()"),
		"h-static-set":     helpStatic(true, adA, adH, "set(uint256)", b32(22)),
		"h-static-bad":     helpStatic(true, adA, adH, "set(uint256)", b32(0xbad)),
		"h-static-kill":    helpStatic(true, adA, adD, "kill(address)", &adN),
		"h-static-none":    helpStatic(false, adA, adN, "get()"),
		"h-send":           helpSend(adA, adB, 6),
		"h-send-new":       helpSend(adA, adX, 6),
		"h-send-much":      helpSend(adB, adA, 100000),
		"h-send-rev":       helpSend(adA, adI, 6),
		"h-send-neg":       helpSend(adA, adB, -6),
		"h-send-d":         helpSend(adA, adD, 4),
		"h-add": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
			a, v := adN, big.NewInt(13)
			c.AddBalance(&a, v)
			if v.Int64() != 13 || a != adN {
				x.Failf("arguments", "AddBalance changed its arguments")
			}
			m.st.AddBalance(common.Address(adN), v)
		},
		"h-sub": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
			a := adB
			v := m.st.GetBalance(common.Address(adB))
			if v.Int64() > 100 {
				v = big.NewInt(100)
			}
			c.SubBalance(&a, v)
			m.st.SubBalance(common.Address(adB), v)
		},
		"h-env":    helpEnv,
		"h-env-tx": helpEnvTx,
		"h-params": func(x *mc.X, c *tevm.Chain, m *refChain, w *world) {
			p := c.State.Pending
			p.Miner = seth.Address{5, 19: byte(w.seq)}
			p.Difficulty = seth.NewInt(int64(1000 + w.seq))
			p.GasLimit = seth.Uint64(5000000 + w.seq)
			p.Timestamp = seth.Uint64(3000000000 + w.seq)
			m.pend.Miner, m.pend.Diff, m.pend.Limit, m.pend.Time = p.Miner, int64(1000+w.seq), uint64(p.GasLimit), uint64(p.Timestamp)
		},
	} {
		chainOps[n] = f
	}
}

func runC41(r *mc.R) {
	all := "h-new0 h-new5 h-fresh h-create h-create-rev h-create-bad h-create-kill h-create-nothing h-at h-at-rev h-at-bad h-at-kill h-at-send h-at-over h-at-over-bad h-at-rich h-at-rich-rev " +
		"h-set h-set-b h-set-bad h-get h-none h-call-x h-kill h-kill-self h-static h-static-set h-static-bad h-static-kill h-static-none h-send h-send-new h-send-much h-send-rev h-send-neg h-send-d " +
		"h-add h-sub h-env h-env-tx h-params transfer kill seal"
	exploreChain(r, "helpers", chainCfg{ops: pickOps(all)}, r.N(3, 4))
	exploreChain(r, "sealed", chainCfg{ops: pickOps("h-create h-at-bad h-set h-set-bad h-kill h-static-set h-env h-env-tx h-params log seal"), eachStep: true}, r.N(4, 5))
	exploreChain(r, "views", chainCfg{ops: pickOps("h-set h-params h-env seal"), viewOps: pickOps("h-set h-at h-at-over-bad h-kill h-env h-env-tx h-static-set h-send seal"), views: 1, copies: 1, loads: 1, sealed: 1}, r.N(3, 4))
	exploreChain(r, "on a fork", chainCfg{ops: pickOps("h-create h-create-kill h-at h-at-rich-rev h-set h-set-bad h-get h-kill h-kill-self h-static h-static-set h-env h-env-tx h-params h-send h-send-much h-add h-sub seal"), fork: true}, r.N(3, 4))
}
