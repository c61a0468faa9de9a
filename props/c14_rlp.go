package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"

	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/rlp"
	"github.com/philhofer/seth"
	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{ID: "C14", Level: "exploration",
		Rule: "the product of boundary values of all transaction fields (one- and two-byte, 55/56-byte and multi-length-byte RLP boundaries), signing hash and signed encoding compared with an independent RLP encoder, " +
			"decoded and re-hashed by go-ethereum, and (for real keys) the sender recovered by go-ethereum; a case is a distinct transaction and signature",
		Run: runC14})
}

// an independent RLP encoder, from the yellow paper
func rlpStr(b []byte) []byte {
	if len(b) == 1 && b[0] < 0x80 {
		return []byte{b[0]}
	}
	return append(rlpHead(0x80, len(b)), b...)
}

func rlpHead(base byte, n int) []byte {
	if n <= 55 {
		return []byte{base + byte(n)}
	}
	l := new(big.Int).SetInt64(int64(n)).Bytes()
	return append([]byte{base + 55 + byte(len(l))}, l...)
}

func rlpNum(n *big.Int) []byte { return rlpStr(n.Bytes()) }

func rlpU(n uint64) []byte { return rlpNum(new(big.Int).SetUint64(n)) }

func rlpSeq(items ...[]byte) []byte {
	b := bytes.Join(items, nil)
	return append(rlpHead(0xc0, len(b)), b...)
}

type txShape struct {
	nonce, gas   uint64
	price, value *big.Int
	to           []byte
	input        []byte
}

func (s *txShape) items() [][]byte {
	return [][]byte{rlpU(s.nonce), rlpNum(s.price), rlpU(s.gas), rlpStr(s.to), rlpNum(s.value), rlpStr(s.input)}
}

func (s *txShape) signHash() []byte {
	return refKeccak(rlpSeq(append(s.items(), rlpU(1), rlpU(0), rlpU(0))...))
}

func (s *txShape) signed(r, v *big.Int, sv *big.Int) []byte {
	return rlpSeq(append(s.items(), rlpNum(v), rlpNum(r), rlpNum(sv))...)
}

func (s *txShape) tx() *seth.Transaction {
	t := &seth.Transaction{Nonce: seth.Uint64(s.nonce), Gas: seth.Uint64(s.gas), GasPrice: seth.Int(*new(big.Int).Set(s.price)), Value: seth.Int(*new(big.Int).Set(s.value)), Input: append(seth.Data(nil), s.input...)}
	if s.to != nil {
		a := new(seth.Address)
		copy(a[:], s.to)
		t.To = a
	}
	return t
}

func (s *txShape) String() string {
	in := fmt.Sprintf("%x", s.input)
	if len(in) > 16 {
		in = fmt.Sprintf("%s.. (%d bytes)", in[:16], len(s.input))
	}
	return fmt.Sprintf("nonce=%d price=%d gas=%d to=%x value=%d input=%s", s.nonce, s.price, s.gas, s.to, s.value, in)
}

// ethDecode decodes a signed transaction with go-ethereum and checks its fields.
func ethDecode(x *mc.X, raw []byte, s *txShape, what string) *types.Transaction {
	var t types.Transaction
	if err := rlp.DecodeBytes(raw, &t); err != nil {
		x.Failf("tx-undecodable", "%s: go-ethereum cannot decode %x: %v", what, raw, err)
	}
	var to []byte
	if t.To() != nil {
		to = t.To()[:]
	}
	if t.Nonce() != s.nonce || t.Gas() != s.gas || t.GasPrice().Cmp(s.price) != 0 || t.Value().Cmp(s.value) != 0 || !bytes.Equal(to, s.to) || !bytes.Equal(t.Data(), s.input) {
		x.Failf("tx-fields", "%s: go-ethereum decodes other fields: %v", what, &t)
	}
	return &t
}

func runC14(r *mc.R) {
	nums := []uint64{0, 1, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 1 << 56, math.MaxUint64}
	bigs := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(0x7f), big.NewInt(0x80), big.NewInt(256), plus(pow2(64), 3), pow2(248), plus(pow2(256), -1)}
	tos := [][]byte{nil, make([]byte, 20), adrPat, adrLow}
	var inputs [][]byte
	for _, b := range []byte{0, 1, 0x7f, 0x80, 0xff} {
		inputs = append(inputs, []byte{b})
	}
	for _, n := range []int{0, 2, 54, 55, 56, 57, 255, 256, 65535, 65536} {
		inputs = append(inputs, patBytes(n, 0))
	}
	inputs = append(inputs, make([]byte, 2), make([]byte, 60))
	order := bigS("0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
	half := new(big.Int).Rsh(order, 1)
	check := func(x *mc.X, s *txShape, sig *seth.Signature, rr, ss *big.Int, v int) {
		what := s.String()
		x.Step()
		x.Logf("%s r=%x s=%x v=%d", what, rr, ss, v)
		t := s.tx()
		if h := t.HashToSign(); !bytes.Equal(h[:], s.signHash()) {
			x.Failf("tx-signing-hash", "%s: signing hash %x, want %x", what, h[:], s.signHash())
		}
		raw := t.Encode(sig)
		want := s.signed(rr, big.NewInt(int64(v)+37), ss)
		if !bytes.Equal(raw, want) {
			x.Failf("tx-encoding", "%s r=%x s=%x v=%d:\n got %.200x\nwant %.200x", what, rr, ss, v, raw, want)
		}
		et := ethDecode(x, raw, s, what)
		if h := types.NewEIP155Signer(big.NewInt(1)).Hash(et); !bytes.Equal(h[:], s.signHash()) {
			x.Failf("tx-signing-hash", "%s: go-ethereum's signing hash differs", what)
		}
		var calls int
		raw2, err := seth.SignTransaction(t, func(h *seth.Hash) (*seth.Signature, error) {
			calls++
			if !bytes.Equal(h[:], s.signHash()) {
				x.Failf("tx-signing-hash", "%s: SignTransaction signs %x", what, h[:])
			}
			return sig, nil
		})
		if err != nil || calls != 1 || !bytes.Equal(raw2, want) {
			x.Failf("tx-sign", "%s: SignTransaction: %v after %d calls, %.200x", what, err, calls, raw2)
		}
		// what is not part of the encoding has no effect on it
		idx, from := seth.Uint64(3), seth.Address{9}
		t.Hash, t.From = seth.Hash{1}, &from
		if h := t.HashToSign(); !bytes.Equal(h[:], s.signHash()) {
			x.Failf("tx-signing-hash", "%s: signing hash of the pending transaction %x, want %x", what, h[:], s.signHash())
		}
		if raw := t.Encode(sig); !bytes.Equal(raw, want) {
			x.Failf("tx-encoding", "%s: the pending transaction encodes as\n got %.200x\nwant %.200x", what, raw, want)
		}
		t.Block, t.BlockNumber, t.TxIndex = seth.Hash{2}, 77, &idx
		before, _ := json.Marshal(t)
		if h := t.HashToSign(); !bytes.Equal(h[:], s.signHash()) {
			x.Failf("tx-signing-hash", "%s: signing hash of the mined transaction %x, want %x", what, h[:], s.signHash())
		}
		if raw := t.Encode(sig); !bytes.Equal(raw, want) {
			x.Failf("tx-encoding", "%s: the mined transaction encodes as\n got %.200x\nwant %.200x", what, raw, want)
		}
		seth.SignTransaction(t, func(h *seth.Hash) (*seth.Signature, error) { return sig, nil })
		if after, _ := json.Marshal(t); !bytes.Equal(before, after) {
			x.Failf("tx-changed", "%s: encoding changes the transaction from %s to %s", what, before, after)
		}
		x.Case(what, fmt.Sprint(rr, ss, v))
		x.Validated()
	}
	key := seth.NewPrivateKey(bigS("0x1234567890123456789012345678901234567890"))
	shape := func(x *mc.X, ns []uint64, bs []*big.Int, ins [][]byte) *txShape {
		return &txShape{nonce: ns[x.Choose(len(ns))], gas: ns[x.Choose(len(ns))], price: bs[x.Choose(len(bs))], value: bs[x.Choose(len(bs))], to: tos[x.Choose(len(tos))], input: ins[x.Choose(len(ins))]}
	}
	n2, b2, i2 := nums, bigs, inputs
	if !r.Thorough {
		n2 = []uint64{0, 0x7f, 0x80, 0x100, math.MaxUint64}
		b2 = []*big.Int{bigs[0], bigs[2], bigs[3], bigs[7]}
		i2 = [][]byte{nil, {0}, {0x7f}, {0x80}, patBytes(55, 0), patBytes(56, 0), patBytes(256, 0)}
	}
	r.Explore(mc.Opts{Name: "products", Budget: -1, Bound: fmt.Sprintf("%d nonces x %d gas x %d prices x %d values x 4 recipients x %d inputs", len(n2), len(n2), len(b2), len(b2), len(i2))}, func(x *mc.X) {
		s := shape(x, n2, b2, i2)
		rr, ss := plus(pow2(255), 7), plus(pow2(254), 9)
		x.Sample(s.String())
		check(x, s, seth.NewSignature(rr, ss, 1), rr, ss, 1)
	})
	r.Explore(mc.Opts{Name: "each", Budget: -1, Bound: "each field at each boundary value, the others fixed"}, func(x *mc.X) {
		s := &txShape{nonce: 5, gas: 21000, price: big.NewInt(1e9), value: big.NewInt(1e15), to: adrPat, input: patBytes(4, 1)}
		switch x.Choose(6) {
		case 0:
			s.nonce = nums[x.Choose(len(nums))]
		case 1:
			s.gas = nums[x.Choose(len(nums))]
		case 2:
			s.price = bigs[x.Choose(len(bigs))]
		case 3:
			s.value = bigs[x.Choose(len(bigs))]
		case 4:
			s.to = tos[x.Choose(len(tos))]
		case 5:
			s.input = inputs[x.Choose(len(inputs))]
		}
		rr, ss := big.NewInt(77), big.NewInt(0x80)
		check(x, s, seth.NewSignature(rr, ss, 0), rr, ss, 0)
	})
	r.Explore(mc.Opts{Name: "lengths", Budget: -1, Bound: "every input length 0-300, so that every list length around 55/56 and 255/256 occurs, with and without recipient"}, func(x *mc.X) {
		s := &txShape{price: big.NewInt(0), value: big.NewInt(0), input: patBytes(x.Choose(301), 9)}
		if x.Bool() {
			s.to = adrPat
		}
		rr, ss := big.NewInt(int64(1+x.Choose(2)*300)), big.NewInt(1)
		check(x, s, seth.NewSignature(rr, ss, 0), rr, ss, 0)
	})
	rs := []*big.Int{big.NewInt(1), big.NewInt(0x7f), big.NewInt(0x80), big.NewInt(0x100), plus(pow2(240), -1), pow2(247), pow2(255), plus(order, -1)}
	r.Explore(mc.Opts{Name: "signatures", Budget: -1, Bound: "8 r x 8 s (s and its complement) x both parities"}, func(x *mc.X) {
		s := &txShape{nonce: 9, gas: 20000, price: big.NewInt(9), value: big.NewInt(0), to: adrPat}
		rr, ss, v := rs[x.Choose(len(rs))], rs[x.Choose(len(rs))], x.Choose(2)
		if ss.Cmp(half) > 0 {
			// NewSignature canonicalises
			check(x, s, seth.NewSignature(rr, ss, v), rr, new(big.Int).Sub(order, ss), v^1)
		} else {
			check(x, s, seth.NewSignature(rr, ss, v), rr, ss, v)
		}
	})
	nk := r.N(12, 64)
	r.Explore(mc.Opts{Name: "senders", Budget: -1, Bound: fmt.Sprintf("%d keys x 8 transactions, signed for real", nk)}, func(x *mc.X) {
		k := key
		if i := x.Choose(nk); i > 0 {
			k = seth.NewPrivateKey(plus(pow2(uint(4*i)), int64(i)))
		}
		s := &txShape{nonce: uint64(x.Choose(2)) * 0x80, gas: 21000, price: big.NewInt(int64(x.Choose(2)) << 33), value: big.NewInt(1), to: tos[x.Choose(2)*2], input: nil}
		raw, err := seth.SignTransaction(s.tx(), k.Signer())
		x.Step()
		if err != nil {
			x.Failf("tx-sign", "%v: %v", s, err)
		}
		et := ethDecode(x, raw, s, s.String())
		from, err := types.Sender(types.NewEIP155Signer(big.NewInt(1)), et)
		if err != nil {
			x.Failf("tx-sender", "%v: go-ethereum finds no sender: %v", s, err)
		}
		if want := refAddress(new(big.Int).SetBytes(k[:])); !bytes.Equal(from[:], want) {
			x.Failf("tx-sender", "%v: go-ethereum recovers sender %x, the key's address is %x", s, from, want)
		}
		if !bytes.Equal(k.Address()[:], from[:]) {
			x.Failf("tx-address", "Address() of key %x is %x", k[:], k.Address()[:])
		}
		x.Case(s.String(), k.String())
		x.Validated()
	})
	r.Explore(mc.Opts{Name: "failing-signer", Budget: -1, Bound: "a signer that fails"}, func(x *mc.X) {
		s := &txShape{price: big.NewInt(1), value: big.NewInt(1), to: adrPat}
		e := errors.New("no")
		raw, err := seth.SignTransaction(s.tx(), func(*seth.Hash) (*seth.Signature, error) { return nil, e })
		if err == nil || raw != nil {
			x.Failf("tx-sign-error", "SignTransaction with a failing signer: %x, %v", raw, err)
		}
		x.Step()
	})
}
