package props

import (
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
)

// refState is a vm.StateDB made of plain maps; snapshots are deep copies.
type refAcct struct {
	bal      *big.Int
	nonce    uint64
	code     []byte
	suicided bool
	slots    map[common.Hash]common.Hash
}

type refState struct {
	accts  map[common.Address]*refAcct
	refund uint64
	logs   []*types.Log
	snaps  []*refState
	stale  map[common.Address]bool // where a contract that had storage was destroyed or replaced
}

func (s *refState) setStale(a common.Address, v *refAcct) {
	if len(v.slots) > 0 {
		n := map[common.Address]bool{a: true}
		for k := range s.stale {
			n[k] = true
		}
		s.stale = n
	}
}

func newRefState() *refState { return &refState{accts: map[common.Address]*refAcct{}} }

func (s *refState) Copy() *refState {
	n := &refState{accts: make(map[common.Address]*refAcct, len(s.accts)), refund: s.refund, logs: append([]*types.Log(nil), s.logs...), stale: s.stale}
	for a, v := range s.accts {
		w := &refAcct{bal: new(big.Int).Set(v.bal), nonce: v.nonce, code: v.code, suicided: v.suicided}
		if len(v.slots) > 0 {
			w.slots = make(map[common.Hash]common.Hash, len(v.slots))
			for k, x := range v.slots {
				w.slots[k] = x
			}
		}
		n.accts[a] = w
	}
	return n
}

func (s *refState) get(a common.Address) *refAcct {
	v := s.accts[a]
	if v == nil {
		v = &refAcct{bal: new(big.Int)}
		s.accts[a] = v
	}
	return v
}

func (s *refState) CreateAccount(a common.Address) {
	n := &refAcct{bal: new(big.Int)}
	if o := s.accts[a]; o != nil {
		n.bal.Set(o.bal)
		s.setStale(a, o)
	}
	s.accts[a] = n
}
func (s *refState) SubBalance(a common.Address, v *big.Int) { b := s.get(a); b.bal.Sub(b.bal, v) }
func (s *refState) AddBalance(a common.Address, v *big.Int) { b := s.get(a); b.bal.Add(b.bal, v) }
func (s *refState) GetBalance(a common.Address) *big.Int {
	if v := s.accts[a]; v != nil {
		return new(big.Int).Set(v.bal)
	}
	return new(big.Int)
}
func (s *refState) GetNonce(a common.Address) uint64 {
	if v := s.accts[a]; v != nil {
		return v.nonce
	}
	return 0
}
func (s *refState) SetNonce(a common.Address, n uint64) { s.get(a).nonce = n }
func (s *refState) GetCodeHash(a common.Address) common.Hash {
	if v := s.accts[a]; v != nil {
		return crypto.Keccak256Hash(v.code)
	}
	return common.Hash{}
}
func (s *refState) GetCode(a common.Address) []byte {
	if v := s.accts[a]; v != nil {
		return v.code
	}
	return nil
}
func (s *refState) SetCode(a common.Address, c []byte) {
	s.get(a).code = append([]byte(nil), c...)
}
func (s *refState) GetCodeSize(a common.Address) int { return len(s.GetCode(a)) }
func (s *refState) AddRefund(v uint64)               { s.refund += v }
func (s *refState) SubRefund(v uint64)               { s.refund -= v }
func (s *refState) GetRefund() uint64                { return s.refund }
func (s *refState) GetCommittedState(a common.Address, h common.Hash) common.Hash {
	panic("refState: GetCommittedState")
}
func (s *refState) GetState(a common.Address, h common.Hash) common.Hash {
	if v := s.accts[a]; v != nil {
		return v.slots[h]
	}
	return common.Hash{}
}
func (s *refState) SetState(a common.Address, h, v common.Hash) {
	b := s.get(a)
	if b.slots == nil {
		b.slots = map[common.Hash]common.Hash{}
	}
	b.slots[h] = v
}
func (s *refState) Suicide(a common.Address) bool {
	v := s.accts[a]
	if v == nil {
		return false
	}
	v.suicided = true
	v.bal = new(big.Int)
	return true
}

// finalise ends a transaction: what self-destructed is gone.
func (s *refState) finalise() {
	for a, v := range s.accts {
		if v.suicided {
			s.setStale(a, v)
			delete(s.accts, a)
		}
	}
}
func (s *refState) HasSuicided(a common.Address) bool {
	v := s.accts[a]
	return v != nil && v.suicided
}
func (s *refState) Exist(a common.Address) bool { return s.accts[a] != nil }
func (s *refState) Empty(a common.Address) bool {
	v := s.accts[a]
	return v == nil || v.nonce == 0 && v.bal.Sign() == 0 && len(v.code) == 0
}
func (s *refState) RevertToSnapshot(i int) {
	o := s.snaps[i]
	s.snaps = s.snaps[:i]
	s.accts, s.refund, s.logs, s.stale = o.accts, o.refund, o.logs, o.stale
}
func (s *refState) Snapshot() int {
	s.snaps = append(s.snaps, s.Copy())
	return len(s.snaps) - 1
}
func (s *refState) AddLog(l *types.Log)             { s.logs = append(s.logs, l) }
func (s *refState) AddPreimage(common.Hash, []byte) {}
func (s *refState) ForEachStorage(common.Address, func(a, v common.Hash) bool) error {
	panic("refState: ForEachStorage")
}
