package props

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/philhofer/seth/tevm"
	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{
		ID:    "C22",
		Level: "model_checking",
		Rule: "every sequence over an alphabet of StateDB writes, Snapshot and RevertToSnapshot (to every live snapshot), on two accounts and " +
			"two slots, compared after every step with a reference made of plain maps through every StateDB read; a state is the reference content with its snapshot stack",
		Notes: []string{"SubBalance and SubRefund are only used within the available amount CreateAccount only on accounts without code or storage, and code and storage are written to existing accounts only, as the EVM does",
			"a snapshot that was reverted past is not used again"},
		Run: runC22,
	})
}

type acctM struct {
	exists    bool
	base      bool // an account of a base chain: it is only known to exist while it is not empty (EIP-161)
	balance   int64
	nonce     uint64
	suicided  bool
	code      string
	slots     [2]byte
	everCode  bool
	everStore bool
}

type stateM struct {
	acct   [2]acctM
	refund uint64
	logs   []string
}

func (m *stateM) clone() *stateM {
	n := *m
	n.logs = append([]string(nil), m.logs...)
	return &n
}

func (m *stateM) String() string { return fmt.Sprint(m.acct, m.refund, m.logs) }

var stAddr = [2]common.Address{{19: 0x11}, {0: 0x22}}
var stSlot = [2]common.Hash{{31: 1}, {0: 2}}

func logStr(l *types.Log) string { return fmt.Sprintf("%x/%x", l.Address, l.Data) }

func compareState(x *mc.X, st *tevm.State, db vm.StateDB, m *stateM) {
	for i := range stAddr {
		a, w := stAddr[i], &m.acct[i]
		if got := db.GetBalance(a); got.Cmp(big.NewInt(w.balance)) != 0 {
			x.Failf("state-balance", "account %d: balance %v, want %d", i, got, w.balance)
		}
		if got := db.GetNonce(a); got != w.nonce {
			x.Failf("state-nonce", "account %d: nonce %d, want %d", i, got, w.nonce)
		}
		if got := db.GetCode(a); string(got) != w.code {
			x.Failf("state-code", "account %d: code %x, want %x", i, got, w.code)
		}
		if got := db.GetCodeSize(a); got != len(w.code) {
			x.Failf("state-codesize", "account %d: code size %d, want %d", i, got, len(w.code))
		}
		if got, want := db.GetCodeHash(a), crypto.Keccak256Hash([]byte(w.code)); got != want && !(w.code == "" && got == common.Hash{}) {
			x.Failf("state-codehash", "account %d: code hash %x, want %x", i, got, want)
		}
		for s := range stSlot {
			if got := db.GetState(a, stSlot[s]); got != (common.Hash{31: w.slots[s]}) {
				x.Failf("state-storage", "account %d slot %d: %x, want %x", i, s, got, w.slots[s])
			}
		}
		if got := db.HasSuicided(a); got != w.suicided {
			x.Failf("state-suicided", "account %d: suicided=%v, want %v", i, got, w.suicided)
		}
		if got := db.Exist(a); got != w.exists && !w.vague() {
			x.Failf("state-exist", "account %d: exist=%v, want %v", i, got, w.exists)
		}
		if got, want := db.Empty(a), w.balance == 0 && w.nonce == 0 && w.code == ""; got != want {
			x.Failf("state-empty", "account %d: empty=%v, want %v", i, got, want)
		}
	}
	if got := db.GetRefund(); got != m.refund {
		x.Failf("state-refund", "refund %d, want %d", got, m.refund)
	}
	if len(st.Logs) != len(m.logs) {
		x.Failf("state-logs", "%d logs, want %d", len(st.Logs), len(m.logs))
	}
	for i := range st.Logs {
		if logStr(st.Logs[i]) != m.logs[i] {
			x.Failf("state-logs", "log %d is %s, want %s", i, logStr(st.Logs[i]), m.logs[i])
		}
	}
}

type stOp struct {
	name string
	// do applies the operation; nil-returning ok means it applies in this state
	ok func(m *stateM) bool
	do func(x *mc.X, db vm.StateDB, m *stateM, seq int)
}

func (w *acctM) vague() bool { return w.base && w.nonce == 0 && w.balance == 0 && w.code == "" }

func stOps(which string) []stOp {
	var ops []stOp
	add := func(name string, ok func(m *stateM) bool, do func(x *mc.X, db vm.StateDB, m *stateM, seq int)) {
		if which == "all" || strings.Contains(" "+which+" ", " "+name+" ") {
			ops = append(ops, stOp{name, ok, do})
		}
	}
	for i := range stAddr {
		i := i
		a := stAddr[i]
		n := fmt.Sprint(i)
		add("create"+n, func(m *stateM) bool { return !m.acct[i].everCode && !m.acct[i].everStore }, func(x *mc.X, db vm.StateDB, m *stateM, seq int) {
			db.CreateAccount(a)
			w := &m.acct[i]
			*w = acctM{exists: true, balance: w.balance, base: w.base}
		})
		add("add"+n, nil, func(x *mc.X, db vm.StateDB, m *stateM, seq int) {
			amt := int64(seq) << 8 // so that halving it drops a byte
			v := big.NewInt(amt)
			db.AddBalance(a, v)
			if v.Cmp(big.NewInt(amt)) != 0 {
				x.Failf("state-arg", "AddBalance modified its argument")
			}
			m.acct[i].balance += amt
			m.acct[i].exists = true
		})
		add("sub"+n, func(m *stateM) bool { return m.acct[i].balance > 0 }, func(x *mc.X, db vm.StateDB, m *stateM, seq int) {
			v := m.acct[i].balance
			if v > 1 {
				v = v/2 + 1
			}
			db.SubBalance(a, big.NewInt(v))
			m.acct[i].balance -= v
		})
		add("nonce"+n, nil, func(x *mc.X, db vm.StateDB, m *stateM, seq int) {
			v := uint64(seq) << 56
			db.SetNonce(a, v|uint64(seq))
			m.acct[i].nonce = v | uint64(seq)
			m.acct[i].exists = true
		})
		exists := func(m *stateM) bool { return m.acct[i].exists }
		add("code"+n, exists, func(x *mc.X, db vm.StateDB, m *stateM, seq int) {
			c := bytes.Repeat([]byte{byte(seq)}, seq)
			db.SetCode(a, append([]byte(nil), c...))
			m.acct[i].code = string(c)
			m.acct[i].everCode = true
		})
		add("uncode"+n, func(m *stateM) bool { return m.acct[i].code != "" }, func(x *mc.X, db vm.StateDB, m *stateM, seq int) {
			db.SetCode(a, nil)
			m.acct[i].code = ""
		})
		for s := range stSlot {
			s := s
			add(fmt.Sprintf("put%d%d", i, s), exists, func(x *mc.X, db vm.StateDB, m *stateM, seq int) {
				db.SetState(a, stSlot[s], common.Hash{31: byte(seq)})
				m.acct[i].slots[s] = byte(seq)
				m.acct[i].everStore = true
			})
			add(fmt.Sprintf("clr%d%d", i, s), exists, func(x *mc.X, db vm.StateDB, m *stateM, seq int) {
				db.SetState(a, stSlot[s], common.Hash{})
				m.acct[i].slots[s] = 0
			})
		}
		add("kill"+n, func(m *stateM) bool { return !m.acct[i].suicided && !m.acct[i].vague() }, func(x *mc.X, db vm.StateDB, m *stateM, seq int) {
			got := db.Suicide(a)
			w := &m.acct[i]
			if got != w.exists && !w.vague() {
				x.Failf("state-suicide-result", "Suicide returned %v for existing=%v", got, w.exists)
			}
			if w.exists {
				w.suicided = true
				w.balance = 0
			}
		})
		add("log"+n, nil, func(x *mc.X, db vm.StateDB, m *stateM, seq int) {
			l := &types.Log{Address: a, Topics: []common.Hash{}, Data: []byte{byte(seq)}}
			db.AddLog(l)
			m.logs = append(m.logs, logStr(l))
		})
	}
	add("refund+", nil, func(x *mc.X, db vm.StateDB, m *stateM, seq int) {
		db.AddRefund(uint64(seq))
		m.refund += uint64(seq)
	})
	add("refund-", func(m *stateM) bool { return m.refund > 0 }, func(x *mc.X, db vm.StateDB, m *stateM, seq int) {
		db.SubRefund(1)
		m.refund--
	})
	return ops
}

func stBody(ops []stOp, prefill int, depth int) func(x *mc.X) {
	return func(x *mc.X) {
		var st tevm.State
		db := st.StateDB()
		m := new(stateM)
		type snap struct {
			id int
			m  *stateM
		}
		var snaps []snap
		seq := 0
		for _, o := range ops[:prefill] {
			seq++
			if o.ok == nil || o.ok(m) {
				o.do(x, db, m, seq)
			}
		}
		for d := 0; d < depth; d++ {
			var av []int
			for i := range ops {
				if ops[i].ok == nil || ops[i].ok(m) {
					av = append(av, i)
				}
			}
			c := x.Choose(len(av) + 1 + len(snaps))
			x.Step()
			seq++
			switch {
			case c < len(av):
				x.Logf("%s (%d)", ops[av[c]].name, seq)
				ops[av[c]].do(x, db, m, seq)
			case c == len(av):
				id := db.Snapshot()
				x.Logf("Snapshot() = %d", id)
				for _, s := range snaps {
					if s.id == id {
						x.Failf("state-snap-id", "snapshot id %d handed out twice", id)
					}
				}
				snaps = append(snaps, snap{id, m.clone()})
			default:
				k := c - len(av) - 1
				x.Logf("RevertToSnapshot(%d)", snaps[k].id)
				db.RevertToSnapshot(snaps[k].id)
				m = snaps[k].m.clone()
				snaps = snaps[:k]
			}
			compareState(x, &st, db, m)
		}
		s := m.String()
		for _, p := range snaps {
			s += "|" + p.m.String()
		}
		x.State(s)
		x.Validated()
		if len(snaps) == 2 {
			x.Sample(map[string]interface{}{"final": m.String(), "live_snapshots": len(snaps), "operations": depth})
		}
	}
}

func runC22(r *mc.R) {
	all := stOps("all")
	d := r.N(4, 5)
	r.Explore(mc.Opts{Name: "all", Budget: -1, Bound: fmt.Sprintf("%d kinds of write on 2 accounts, snapshot, revert to any live snapshot; %d operations", len(all), d)}, stBody(all, 0, d))
	r.Explore(mc.Opts{Name: "all-prefilled", Budget: -1, Bound: fmt.Sprintf("the same from a populated state; %d operations", d-1)}, stBody(all, len(all), d-1))
	for i, g := range []struct {
		ops string
		d   int
	}{
		{"create0 put00 clr00 put01", r.N(8, 10)},
		{"create0 add0 sub0 kill0 nonce0", r.N(7, 8)},
		{"add0 add1 sub0 log0 refund+", r.N(6, 8)},
		{"add0 code0 uncode0 create1 code1", r.N(7, 8)},
	} {
		o := stOps(g.ops)
		r.Explore(mc.Opts{Name: fmt.Sprintf("deep-%d", i), Budget: -1, Bound: fmt.Sprintf("writes {%s}, snapshot, revert; %d operations", g.ops, g.d)}, stBody(o, 0, g.d))
	}
}
