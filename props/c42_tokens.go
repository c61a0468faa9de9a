package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/cc"
	"github.com/philhofer/seth/tevm"
	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{
		ID:    "C42",
		Level: "exploration",
		Rule:  "every shape of log (number and lengths of topics, event, data) parsed as a transfer; every combination of transfer filter arguments against a chain holding every combination of emitted events, read to the end",
		Run:   runC42,
	})
	mc.Register(&mc.Prop{
		ID:    "C43",
		Level: "model_checking",
		Rule:  "every sequence of registrations up to a depth, accepted or refused, compared after every step with a registry of plain maps; every method of every currency; a state is the content of the reference registry",
		Notes: []string{"names and addresses are fresh in every execution, since the registry is global and only grows"},
		Run:   runC43,
	})
}

// transferSig is keccak256("Transfer(address,address,uint256)").
var transferSig = refKeccak([]byte("Transfer(address,address,uint256)"))

func flipBit(b []byte, i int) []byte {
	c := append([]byte(nil), b...)
	c[i/8] ^= 1 << uint(i%8)
	return c
}

func runC42(r *mc.R) {
	pad := func(n int, fill byte, a seth.Address) []byte { // a topic of n bytes holding an address
		b := bytes.Repeat([]byte{fill}, 12)
		b = append(b, a[:]...)
		for len(b) < n {
			b = append(b, 7)
		}
		return b[:n]
	}
	sigs := [][]byte{transferSig, flipBit(transferSig, 0), flipBit(transferSig, 255), flipBit(transferSig, 128), transferSig[:31], append(append([]byte(nil), transferSig...), 0), {}, seth.ERC20Approve[:]}
	max := bytes.Repeat([]byte{0xff}, 32)
	datas := [][]byte{word(0), word(1), word(1 << 63), max, append([]byte{0x80}, make([]byte, 31)...), word(0x1234)[:31], {}, {1}, append(word(5), 0), append(word(5), word(6)...), append([]byte{0}, word(9)...)}
	ads := []seth.Address{{}, adA, adB, {0: 0xff, 1: 0xff, 19: 0xff}}
	r.Explore(mc.Opts{Name: "parse", Budget: -1, Bound: "0 to 5 topics; 8 first topics; second and third of 0, 12, 20, 31, 32 or 33 bytes for 4 addresses; 11 contents of data; 3 receipts"}, func(x *mc.X) {
		nt := x.Choose(6)
		l := &seth.Log{Address: seth.Address{3, 19: 4}}
		from, to := ads[0], ads[0]
		lens := []int{32, 0, 12, 20, 31, 33}
		ok := nt == 3
		for i := 0; i < nt; i++ {
			switch i {
			case 0:
				k := x.Choose(len(sigs))
				ok = ok && k == 0
				l.Topics = append(l.Topics, seth.Data(append([]byte(nil), sigs[k]...)))
			case 1, 2:
				n := lens[x.Choose(len(lens))]
				a := ads[x.Choose(len(ads))]
				ok = ok && n == 32
				if i == 1 {
					from = a
				} else {
					to = a
				}
				l.Topics = append(l.Topics, seth.Data(pad(n, 0, a)))
			default:
				l.Topics = append(l.Topics, seth.Data(word(uint64(i))))
			}
		}
		d := datas[x.Choose(len(datas))]
		ok = ok && len(d) == 32
		l.Data = append(seth.Data(nil), d...)
		rx := &seth.Receipt{BlockNumber: seth.Uint64([]uint64{0, 77, 1 << 40}[x.Choose(3)]), Index: seth.Uint64(nt * 3)}
		x.Step()
		lj, _ := json.Marshal(l)
		tt, got := rx.ParseTransfer(l)
		if got != ok {
			x.Failf("parse", "%s: parsed: %v, want %v", lj, got, ok)
		}
		if got {
			want := new(big.Int).SetBytes(d)
			if tt.Block != int64(rx.BlockNumber) || tt.TxHeight != int(rx.Index) || tt.Token != l.Address || tt.From != from || tt.To != to || tt.Amount.Big().Cmp(want) != 0 {
				x.Failf("parse", "%s in %+v: parsed as %+v", lj, rx, tt)
			}
			(*big.Int)(&tt.Amount).Add(tt.Amount.Big(), big.NewInt(1))
			tt.From[0]++
		} else if !tt.Amount.IsZero() || tt.From != (seth.Address{}) || tt.To != (seth.Address{}) {
			x.Failf("parse", "%s: not a transfer, but gives %+v", lj, tt)
		}
		if after, _ := json.Marshal(l); !bytes.Equal(after, lj) {
			x.Failf("parse", "%s: changed to %s", lj, after)
		}
		x.Outcome(fmt.Sprint(got))
		x.Case(string(lj), fmt.Sprint(rx.BlockNumber))
	})

	// ---- filters of transfers
	type ev struct {
		tok      seth.Address
		from, to seth.Address
		topics   int
		sig      []byte
		block    uint64
	}
	people := []seth.Address{adA, adB}
	r.Explore(mc.Opts{Name: "filters", Budget: -1, Bound: "sender, recipient and token each any or one of two, over 4 ranges of blocks; a chain holding transfers of two tokens between all pairs of two people in two blocks, approvals, and events with fewer or more topics"}, func(x *mc.X) {
		c, _ := newWorld(worldAccounts)
		var evs []ev
		emit := func(tok seth.Address, sig []byte, topics int, f, t seth.Address, v uint64) {
			data := cat(word(v), sig, awordb(f), awordb(t), word(9))[:32+32*topics]
			if _, _, err := c.Mine(mkTx(adA, &tok, data, 0, 100000, len(evs))); err != nil {
				panic(err)
			}
			evs = append(evs, ev{tok, f, t, topics, sig, uint64(*c.State.Pending.Number)})
		}
		for blk := 0; blk < 2; blk++ {
			for _, tok := range []seth.Address{adL, adM} {
				for _, f := range people {
					for _, t := range people {
						emit(tok, transferSig, 3, f, t, uint64(len(evs)))
					}
				}
				emit(tok, seth.ERC20Approve[:], 3, adA, adB, 1)
				emit(tok, transferSig, 2, adA, adB, 1)
				emit(tok, transferSig, 4, adA, adB, 1)
				emit(tok, transferSig, 1, adA, adB, 1)
			}
			c.Seal()
		}
		pick := func(as ...seth.Address) *seth.Address {
			k := x.Choose(len(as) + 1)
			if k == 0 {
				return nil
			}
			a := as[k-1]
			return &a
		}
		f, t, tok := pick(adA, adB), pick(adA, adB), pick(adL, adM)
		rng := [][2]int64{{100, 101}, {100, 100}, {101, 101}, {102, 200}}[x.Choose(4)]
		x.Step()
		where := fmt.Sprintf("transfers from %v to %v of %v in [%d,%d]", f, t, tok, rng[0], rng[1])
		cl := c.Client()
		fl, err := cl.TokenTransfers(f, t, tok, rng[0], rng[1])
		if err != nil {
			x.Failf("filter", "%s: %v", where, err)
		}
		var got []string
		for l := range fl.Out() {
			got = append(got, fmt.Sprint(l.Address.String(), *l.BlockNumber, *l.LogIndex))
			if len(l.Topics) == 3 {
				rx, err := cl.GetReceipt(l.TxHash)
				if err != nil {
					x.Failf("filter", "%s: receipt of a log: %v", where, err)
				}
				tt, ok := rx.ParseTransfer(l)
				if !ok || f != nil && tt.From != *f || t != nil && tt.To != *t || tok != nil && tt.Token != *tok || tt.Block != int64(*l.BlockNumber) {
					x.Failf("filter", "%s: a log parses as %+v, %v", where, tt, ok)
				}
			}
		}
		if err := fl.Err(); err != nil {
			x.Failf("filter", "%s: %v", where, err)
		}
		var want []string
		n := map[uint64]int{}
		for _, e := range evs {
			i := n[e.block]
			n[e.block]++
			if !bytes.Equal(e.sig, transferSig) || tok != nil && e.tok != *tok || int64(e.block) < rng[0] || int64(e.block) > rng[1] {
				continue
			}
			if f != nil && (e.topics < 2 || e.from != *f) || t != nil && (e.topics < 3 || e.to != *t) {
				continue
			}
			want = append(want, fmt.Sprint(e.tok.String(), e.block, i))
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			x.Failf("filter", "%s: logs %v, want %v", where, got, want)
		}
		x.Case(where)
		x.Validated()
	})
}

// ---- the registry

var regNo int

type regEntry struct {
	digits int
	addr   *seth.Address
}

func runC43(r *mc.R) {
	type op struct {
		name   int // which of the names
		digits int
		addr   int // -1: not a token
	}
	var ops []op
	for n := 0; n < 2; n++ {
		for _, d := range []int{0, 18} {
			for a := -1; a < 2; a++ {
				ops = append(ops, op{n, d, a})
			}
		}
	}
	ops = append(ops, op{-1, 3, -1}, op{-1, 3, 0}, op{0, 18, 2}, op{1, 18, 3}, op{2, 18, 4}) // no name, a malformed address, the zero address, a well-known token's address
	depth := r.N(4, 5)
	// the registry is global: one execution at a time
	lock := make(chan bool, 1)
	omg := *cc.OMG.Addr()
	known := cc.OMG
	r.Explore(mc.Opts{Name: "registry", Budget: -1, Bound: fmt.Sprintf("all sequences of %d registrations out of %d over 3 names, 2 precisions, and no, either of two, a malformed, the zero or a well-known address", depth, len(ops))}, func(x *mc.X) {
		lock <- true
		defer func() { <-lock }()
		regNo++
		name := func(n int) string {
			if n < 0 {
				return ""
			}
			return fmt.Sprintf("%c%d", 'p'+n, regNo)
		}
		addr := func(a int) seth.Address {
			return seth.Address{0: 0xab, 1: byte(regNo >> 24), 2: byte(regNo >> 16), 3: byte(regNo >> 8), 4: byte(regNo), 19: byte(a)}
		}
		m := map[string]regEntry{}
		toks := map[seth.Address]string{omg: "OMG"}
		for d := 0; d < depth; d++ {
			k := x.Choose(len(ops))
			o := ops[k]
			x.Step()
			nm := name(o.name)
			want := regEntry{digits: o.digits}
			txt := ""
			bad := nm == ""
			switch o.addr {
			case -1:
			case 2:
				txt, bad = "0x12345", true
			case 3:
				txt = (&seth.Address{}).String()
			case 4:
				a := omg
				want.addr, txt = &a, a.String()
			default:
				a := addr(o.addr)
				want.addr = &a
				txt = a.String()
				if d%2 == 1 {
					txt = "0x" + strings.ToUpper(txt[2:])
				}
			}
			if e, ok := m[nm]; ok && (e.digits != want.digits || (e.addr == nil) != (want.addr == nil) || e.addr != nil && *e.addr != *want.addr) {
				bad = true
			} else if !ok && want.addr != nil && toks[*want.addr] != "" {
				bad = true
			}
			x.Logf("register %q with %d digits at %q", nm, o.digits, txt)
			got, refused := func() (c cc.Currency, refused bool) {
				defer func() { refused = recover() != nil }()
				if o.addr < 0 {
					return cc.NewCurrency(nm, o.digits), false
				}
				return cc.NewToken(nm, o.digits, txt), false
			}()
			if refused != bad {
				x.Failf("accepted", "registering %q: refused: %v, want %v", nm, refused, bad)
			}
			if !refused {
				if string(got) != nm {
					x.Failf("currency", "registering %q gave %q", nm, string(got))
				}
				m[nm] = want
				if want.addr != nil {
					toks[*want.addr] = nm
				}
			}
			// everything there is to see
			for n := 0; n < 3; n++ {
				checkCurrency(x, name(n), m)
			}
			for a := 0; a < 2; a++ {
				ad := addr(a)
				c, ok := cc.TokenByAddress(&ad)
				if string(c) != toks[ad] || ok != (toks[ad] != "") {
					x.Failf("by-address", "the token at %s is %q, %v; want %q", ad.String(), string(c), ok, toks[ad])
				}
			}
			if c, ok := cc.TokenByAddress(&omg); c != known || !ok || !c.Exists() || c.Digits() != 18 || *c.Addr() != omg {
				x.Failf("by-address", "the token at %s is %q, %v", omg.String(), string(c), ok)
			}
			if c, ok := cc.TokenByAddress(&seth.Address{}); ok {
				x.Failf("by-address", "the token at the zero address is %q", string(c))
			}
		}
		var s []string
		for n, e := range m {
			s = append(s, fmt.Sprintf("%c %d %v", n[0], e.digits, e.addr != nil))
		}
		sort.Strings(s)
		x.State(fmt.Sprint(s))
		x.Validated()
	})

	// ---- the well-known ones are consistent
	r.Explore(mc.Opts{Name: "well-known", Bound: "every currency and token the package comes with"}, func(x *mc.X) {
		seen := map[seth.Address]string{}
		for _, w := range wellKnown {
			c, ok := cc.CurrencyByName(string(w.c))
			if !ok || c != w.c || !c.Exists() {
				x.Failf("well-known", "%q is not registered", string(w.c))
			}
			if c.Digits() != w.digits || c.Token() != w.token {
				x.Failf("well-known", "%q has %d digits, token: %v", string(w.c), c.Digits(), c.Token())
			}
			if !w.token {
				continue
			}
			a := *c.Addr()
			if o := seen[a]; o != "" {
				x.Failf("well-known", "%q and %q have one address", o, string(c))
			}
			seen[a] = string(c)
			if t, ok := cc.TokenByAddress(&a); !ok || t != c {
				x.Failf("well-known", "the token at %s is %q", a.String(), string(t))
			}
			x.Case(string(c))
		}
		if _, ok := cc.CurrencyByName(""); ok {
			x.Failf("well-known", "there is a currency without a name")
		}
		for _, s := range []string{"usd", "USD ", " USD", "Usd", "BTCX", "BT"} {
			if c, ok := cc.CurrencyByName(s); ok {
				x.Failf("well-known", "%q is %q", s, string(c))
			}
		}
		x.Validated()
	})
}

// checkCurrency looks at one name in every way.
func checkCurrency(x *mc.X, nm string, m map[string]regEntry) {
	e, want := m[nm]
	c, ok := cc.CurrencyByName(nm)
	if ok != want || ok && string(c) != nm || !ok && c != "" {
		x.Failf("by-name", "the currency named %q is %q, %v; registered: %v", nm, string(c), ok, want)
	}
	k := cc.Currency(nm)
	if k.Exists() != want || k.Nil() || k.String() != nm {
		x.Failf("currency", "%q exists: %v, registered: %v", nm, k.Exists(), want)
	}
	b, err := k.MarshalText()
	if err != nil || string(b) != nm {
		x.Failf("text", "%q marshals to %q, %v", nm, b, err)
	}
	old := cc.Currency("USD")
	err = old.UnmarshalText([]byte(nm))
	if (err == nil) != want || want && string(old) != nm || !want && old != cc.USD {
		x.Failf("text", "%q unmarshals to %q, %v; registered: %v", nm, string(old), err, want)
	}
	var j struct{ C cc.Currency }
	err = json.Unmarshal([]byte(fmt.Sprintf(`{"C":%q}`, nm)), &j)
	if (err == nil) != want || want && string(j.C) != nm {
		x.Failf("text", "%q unmarshals from JSON to %q, %v", nm, string(j.C), err)
	}
	panics := func(f func()) (p bool) {
		defer func() { p = recover() != nil }()
		f()
		return
	}
	for i, f := range []func(){func() { k.Name() }, func() { k.Digits() }, func() { k.Addr() }, func() { k.Token() }} {
		if panics(f) == want {
			x.Failf("currency", "%q: method %d panics: %v, registered: %v", nm, i, !want, want)
		}
	}
	a, err := cc.ParseAmount("1 " + nm)
	if (err == nil) != want {
		x.Failf("amount", "1 %s parses with error %v", nm, err)
	}
	if !want {
		return
	}
	if a.Currency != k || a.Amount.Cmp(ten(e.digits)) != 0 {
		x.Failf("amount", "1 %s is %v of %q", nm, &a.Amount, string(a.Currency))
	}
	if k.Name() != nm || k.Digits() != e.digits || k.Token() != (e.addr != nil) || (k.Addr() == nil) != (e.addr == nil) || e.addr != nil && *k.Addr() != *e.addr {
		x.Failf("currency", "%q: %q, %d digits, %v", nm, k.Name(), k.Digits(), k.Addr())
	}
	if p := k.Addr(); p != nil {
		// what a caller does to the address it got is its own business
		p[7] ^= 0xff
		if *k.Addr() != *e.addr {
			p[7] ^= 0xff
			x.Failf("address-shared", "changing the address %q gave changed the registry", nm)
		}
	}
}

var wellKnown = func() []struct {
	c      cc.Currency
	digits int
	token  bool
} {
	type w = struct {
		c      cc.Currency
		digits int
		token  bool
	}
	return []w{{cc.EUR, 8, false}, {cc.GBP, 8, false}, {cc.USD, 8, false}, {cc.BTC, 8, false}, {cc.ETH, 18, false}, {cc.ZEC, 9, false},
		{cc.AION, 8, true}, {cc.AIR, 8, true}, {cc.ANT, 18, true}, {cc.BAT, 18, true}, {cc.BNT, 18, true}, {cc.DGD, 9, true}, {cc.DICE, 16, true}, {cc.EDG, 0, true},
		{cc.EOS, 18, true}, {cc.FUCK, 4, true}, {cc.FUN, 8, true}, {cc.GNO, 18, true}, {cc.GNT, 18, true}, {cc.GOOD, 6, true}, {cc.GUP, 3, true}, {cc.HODL, 8, true},
		{cc.ICN, 18, true}, {cc.JTT1, 8, true}, {cc.JTT2, 8, true}, {cc.MCAP, 8, true}, {cc.MKR, 18, true}, {cc.MLN, 18, true}, {cc.OMG, 18, true}, {cc.OST, 18, true},
		{cc.PLBT, 6, true}, {cc.PLU, 18, true}, {cc.QTUM, 18, true}, {cc.REP, 18, true}, {cc.RLC, 9, true}, {cc.SCAM, 18, true}, {cc.SNGLS, 0, true}, {cc.SNT, 18, true},
		{cc.SWT, 18, true}, {cc.TKN, 8, true}, {cc.UET, 18, true}, {cc.UNI, 0, true}, {cc.VEROS, 5, true}, {cc.VSL, 18, true}, {cc.WINGS, 18, true}, {cc.XAUR, 8, true}, {cc.ZRX, 18, true}}
}()

var _ = tevm.NewChain
var _ common.Address
