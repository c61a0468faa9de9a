package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"
	"github.com/philhofer/seth/tevm/erc20"
	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{
		ID:    "C44",
		Level: "exploration",
		Rule:  "every descriptor over a parameter alphabet with tuples nested to a depth, every contract of up to three of them in every order; every bytecode made of a body and an undamaged or damaged metadata trailer",
		Run:   runC44,
	})
	mc.Register(&mc.Prop{
		ID:    "C45",
		Level: "exploration",
		Rule:  "every compliant variant of a hand-assembled token, and every token with one or two deviations from the standard at the points the suite checks, run through the suite on a real chain; every public interface that lacks or misdeclares one or two of its parts",
		Notes: []string{"deviations are behaviour at the calls the suite makes: events missing, repeated, malformed or from another contract; wrong balances, results and errors; over-spent allowances; a broken burn"},
		Run:   runC45,
	})
}

// --- C44 ---

type sigType struct {
	p    seth.ABIParam
	want string
}

func sigTypes(depth int) []sigType {
	out := []sigType{
		{seth.ABIParam{Name: "a", Type: "uint256"}, "uint256"},
		{seth.ABIParam{Name: "b", Type: "address[]", Indexed: true}, "address[]"},
		{seth.ABIParam{Type: "bytes"}, "bytes"},
	}
	if depth == 0 {
		return out
	}
	sub := sigTypes(depth - 1)
	var inner [][]sigType
	inner = append(inner, nil)
	for _, a := range sub {
		inner = append(inner, []sigType{a})
	}
	for i, a := range sub {
		b := sub[(i*5+1)%len(sub)]
		inner = append(inner, []sigType{a, b}, []sigType{b, a, a})
	}
	for _, in := range inner {
		var comps []seth.ABIParam
		var ws []string
		for _, s := range in {
			comps = append(comps, s.p)
			ws = append(ws, s.want)
		}
		for _, suf := range []string{"", "[]", "[3]", "[2][]"} {
			out = append(out, sigType{seth.ABIParam{Name: "t", Type: "tuple" + suf, Components: comps}, "(" + strings.Join(ws, ",") + ")" + suf})
		}
	}
	return out
}

func runC44(r *mc.R) {
	deep := sigTypes(2)
	flat := sigTypes(1)
	r.Explore(mc.Opts{Name: "signature", Budget: -1, Bound: fmt.Sprintf("0 to 3 parameters of %d types for one, %d for more, tuples nested 2 deep; 3 names; functions and events", len(deep), len(flat))}, func(x *mc.X) {
		d := seth.ABIDescriptor{Type: []string{"function", "event"}[x.Choose(2)], Name: []string{"f", "transferFrom", "_x$"}[x.Choose(3)]}
		n := x.Choose(4)
		ts := deep
		if n > 1 {
			ts = flat
		}
		if n == 3 {
			ts = flat[:12]
		}
		var ws []string
		for i := 0; i < n; i++ {
			s := ts[x.Choose(len(ts))]
			d.Inputs = append(d.Inputs, s.p)
			ws = append(ws, s.want)
		}
		d.Outputs = []seth.ABIParam{{Type: "bool"}}
		want := d.Name + "(" + strings.Join(ws, ",") + ")"
		x.Logf("%s", want)
		x.Step()
		if got := d.Signature(); got != want {
			x.Failf("signature", "signature of a %s is %q, not %q", d.Type, got, want)
		}
		c := seth.CompiledContract{ABI: []seth.ABIDescriptor{d}}
		if c.Find(want) != &c.ABI[0] {
			x.Failf("find", "%q was not found", want)
		}
		for _, not := range []string{want + " ", strings.ToUpper(want), want[:len(want)-1], "", d.Name, want + ")"} {
			if not != want && c.Find(not) != nil {
				x.Failf("find-other", "%q found %q", not, want)
			}
		}
		if n > 0 {
			x.Case("signature", want)
		}
		x.Validated()
	})

	pool := []seth.ABIDescriptor{
		{Type: "function", Name: "transfer", Inputs: []seth.ABIParam{{Type: "address"}, {Type: "uint256"}}},
		{Type: "function", Name: "transfer", Inputs: []seth.ABIParam{{Type: "uint256"}, {Type: "address"}}},
		{Type: "function", Name: "transfer"},
		{Type: "event", Name: "Transfer", Inputs: []seth.ABIParam{{Type: "address"}, {Type: "uint256"}}},
		{Type: "function", Name: "Transfer", Inputs: []seth.ABIParam{{Type: "tuple", Components: []seth.ABIParam{{Type: "address"}, {Type: "uint256"}}}}},
		{Type: "constructor", Inputs: []seth.ABIParam{{Type: "address"}}},
		{Type: "fallback"},
		// this one has the selector of the first
		{Type: "function", Name: "many_msg_babbage", Inputs: []seth.ABIParam{{Type: "bytes1"}}},
	}
	wants := []string{"transfer(address,uint256)", "transfer(uint256,address)", "transfer()", "Transfer(address,uint256)", "Transfer((address,uint256))", 7: "many_msg_babbage(bytes1)"}
	if !bytes.Equal(refKeccak([]byte(wants[0]))[:4], refKeccak([]byte(wants[7]))[:4]) {
		panic("the selectors differ")
	}
	r.Explore(mc.Opts{Name: "find", Budget: -1, Bound: "every sequence of up to 4 distinct descriptors of 8, two of them with the same selector; every lookup"}, func(x *mc.X) {
		var idx []int
		left := []int{0, 1, 2, 3, 4, 5, 6, 7}
		for n := x.Choose(5); n > 0; n-- {
			k := x.Choose(len(left))
			idx = append(idx, left[k])
			left = append(append([]int(nil), left[:k]...), left[k+1:]...)
		}
		c := new(seth.CompiledContract)
		for _, i := range idx {
			c.ABI = append(c.ABI, pool[i])
		}
		x.Logf("%v", idx)
		for w, s := range wants {
			if s == "" {
				continue
			}
			var want *seth.ABIDescriptor
			for j, i := range idx {
				if i == w {
					want = &c.ABI[j]
				}
			}
			x.Step()
			if got := c.Find(s); got != want {
				x.Failf("find-among", "%q among %v: found %v, want %v", s, idx, got, want)
			}
		}
		x.Case(fmt.Sprint("find ", idx))
		x.Validated()
	})

	prefix := []byte{0xa1, 0x65, 'b', 'z', 'z', 'r', '0', 0x58, 0x20}
	r.Explore(mc.Opts{Name: "metadata", Budget: -1, Bound: "bodies of 0 to 3, 43 and 86 bytes, some ending in a trailer of their own; trailers whole, cut at either end, extended or with any single bit changed; 4 hashes"}, func(x *mc.X) {
		mk := func(h byte) []byte {
			t := append([]byte(nil), prefix...)
			for i := 0; i < 32; i++ {
				t = append(t, h+byte(i)*(h&1))
			}
			return append(t, 0, 0x29)
		}
		bodies := [][]byte{{}, {0x60}, {0x60, 0x80}, {0, 0x29, 0}, bytes.Repeat([]byte{0x29}, 43), mk(7), cat(mk(9), mk(8)), cat(mk(7), []byte{0})}
		bi := x.Choose(len(bodies))
		body := bodies[bi]
		h := []byte{0, 0xff, 1, 0xa1}[x.Choose(4)]
		tr := mk(h)
		whole := false
		kind := x.Choose(5)
		switch kind {
		case 0:
			whole = true
		case 1: // cut at the end
			tr = tr[:x.Choose(43)]
		case 2: // cut at the front
			tr = tr[1+x.Choose(42):]
		case 3: // extended
			tr = append(tr, []byte{0, 0x29, 0xa1}[x.Choose(3)])
		case 4:
			i := x.Choose(43 * 8)
			tr = flipBit(tr, i)
			whole = i/8 >= 9 && i/8 < 41
		}
		b := cat(body, tr)
		// by definition: the last 43 bytes, if they have the form of a trailer
		is := len(b) >= 43
		if is {
			t := b[len(b)-43:]
			is = bytes.Equal(t[:9], prefix) && t[41] == 0 && t[42] == 0x29
		}
		if whole && !is {
			panic("reference")
		}
		x.Logf("%x", b)
		arg := append([]byte(nil), b...)
		x.Step()
		hash, rest := seth.MetadataHash(arg), seth.StripBytecode(arg)
		if !is && (hash != nil || !bytes.Equal(rest, b)) {
			x.Failf("meta-none", "no metadata in %x, but hash %x and code %x", b, hash, rest)
		}
		if is && (!bytes.Equal(hash, b[len(b)-34:len(b)-2]) || !bytes.Equal(rest, b[:len(b)-43])) {
			x.Failf("meta", "metadata of %x: hash %x and code %x", b, hash, rest)
		}
		if !bytes.Equal(arg, b) {
			x.Failf("meta-arg", "the argument was changed")
		}
		if is {
			x.Case("metadata", fmt.Sprint(kind, bi), string(b))
		}
		x.Validated()
	})
}

// --- C45 ---

// asm2 is asm with two-byte label references.
func asm2(src string) []byte {
	var out []byte
	lab := map[string]int{}
	fix := map[int]string{}
	for _, t := range strings.Fields(src) {
		switch {
		case strings.HasSuffix(t, ":"):
			if _, dup := lab[t]; dup {
				panic("asm2: " + t)
			}
			lab[t] = len(out)
			out = append(out, byte(vm.JUMPDEST))
		case strings.HasPrefix(t, "@"):
			fix[len(out)+1] = t[1:] + ":"
			out = append(out, byte(vm.PUSH2), 0, 0)
		default:
			out = append(out, asm(t)...)
		}
	}
	for at, l := range fix {
		v, ok := lab[l]
		if !ok {
			panic("asm2: " + l)
		}
		binary.BigEndian.PutUint16(out[at:], uint16(v))
	}
	return out
}

// initOf2 is initOf for code longer than 255 bytes.
func initOf2(code []byte) []byte {
	n := fmt.Sprintf("0x%04x", len(code))
	pre := asm(n + " 0x000f 0x00 CODECOPY " + n + " 0x00 RETURN")
	if len(pre) != 14 {
		pre = append(pre, make([]byte, 15-len(pre))...)
	} else {
		pre = append(pre, 0)
	}
	return append(pre, code...)
}

type tokenBugs map[string]bool

// tokEvents are the calls that emit an event, tokEvent the ways to get it wrong.
var (
	tokEvents = []string{"mint", "transfer", "approve", "transferFrom", "burn"}
	tokEvent  = []string{"none", "twice", "sig", "from", "to", "swap", "few", "notopics", "four", "foreign"}
	tokState  = []string{
		"mint-none", "mint-more", "mint-revert", "mint-error",
		"transfer-ret0", "transfer-retnone", "transfer-nodebit", "transfer-nocredit", "transfer-more", "transfer-revert",
		"approve-ret0", "approve-retnone", "approve-norecord", "approve-revert",
		"transferFrom-ret0", "transferFrom-retnone", "transferFrom-revert", "transferFrom-nolimit", "transferFrom-failevent", "transferFrom-nodebit",
		"balance-revert",
	}
	tokBurn = []string{"burn-nodebit", "burn-nosupply", "burn-moresupply", "burn-revert", "supply-revert"}
)

var (
	approvalSig = refKeccak([]byte("Approval(address,address,uint256)"))
	supplySlot  = "0x01" + strings.Repeat("00", 20)
	tokLogger   = seth.Address{0: 0xc0, 19: 0x77}
)

// tokenCode assembles an ERC20 token with an open mint. Memory: 0x00 from, 0x20
// to, 0x40 amount. over selects what happens when too much is asked for.
func tokenCode(bugs tokenBugs, over string) []byte {
	sel := func(sig string) string { return fmt.Sprintf("0x%x", refKeccak([]byte(sig))[:4]) }
	var b strings.Builder
	p := func(s ...string) { b.WriteString(strings.Join(s, " ") + " ") }
	uniq := 0
	emit := func(site string, sig, other []byte) {
		from, to := "0x00 MLOAD", "0x20 MLOAD"
		hx := func(b []byte) string { return fmt.Sprintf("0x%x", b) }
		s := hx(sig)
		one := func(topics string, n int) { p(topics, "0x20 0x40", fmt.Sprintf("LOG%d", n)) }
		is := func(k string) bool { return bugs[site+":"+k] }
		if is("none") {
			return
		}
		if is("sig") {
			s = hx(other)
		}
		if is("from") {
			from = "0x1234"
		}
		if is("to") {
			to = "0x1234"
		}
		if is("swap") {
			from, to = to, from
		}
		switch {
		case is("few"):
			one(s, 1)
		case is("notopics"):
			one("", 0)
		case is("foreign"):
			// the logger takes the data, then the topics
			p("0x40 MLOAD 0x0200 MSTORE", s, "0x0220 MSTORE", from, "0x0240 MSTORE", to, "0x0260 MSTORE")
			p(fmt.Sprintf("0x00 0x00 0x80 0x0200 0x00 0x%x GAS CALL POP", tokLogger[:]))
		case is("four"):
			one("0x01 "+to+" "+from+" "+s, 4)
		default:
			one(to+" "+from+" "+s, 3)
		}
		if is("twice") {
			one(to+" "+from+" "+s, 3)
		}
	}
	ret := func(site string) {
		switch {
		case bugs[site+"-ret0"]:
			p("0x00 0x60 MSTORE 0x20 0x60 RETURN")
		case bugs[site+"-retnone"]:
			p("0x00 0x00 RETURN")
		default:
			p("0x01 0x60 MSTORE 0x20 0x60 RETURN")
		}
	}
	rv := func(site string) {
		if bugs[site+"-revert"] {
			p("0x00 0x00 REVERT")
		}
	}
	fail := func(site string) { // jumped to when the condition on the stack holds
		uniq++
		ok := fmt.Sprintf("ok%d", uniq)
		p("ISZERO @"+ok, "JUMPI")
		if bugs["transferFrom-failevent"] && site == "transferFrom" {
			emit("transferFrom", transferSig, approvalSig)
			p("0x00 0x60 MSTORE 0x20 0x60 RETURN")
		} else if over == "revert" {
			p("0x00 0x00 REVERT")
		} else if over == "invalid" {
			p("INVALID")
		} else {
			p("0x00 0x60 MSTORE 0x20 0x60 RETURN")
		}
		p(ok + ":")
	}
	arg := func(i int) string { return fmt.Sprintf("0x%02x CALLDATALOAD", 4+32*i) }
	credit := func(extra string) { p("0x40 MLOAD", extra, "0x20 MLOAD SLOAD ADD 0x20 MLOAD SSTORE") }
	debit := func() { p("0x40 MLOAD 0x00 MLOAD SLOAD SUB 0x00 MLOAD SSTORE") }
	enough := func(site string) { p("0x40 MLOAD 0x00 MLOAD SLOAD LT"); fail(site) }

	p("0x01" + strings.Repeat("00", 28) + " 0x00 CALLDATALOAD DIV")
	fns := []string{"mint(address,uint256)", "transfer(address,uint256)", "approve(address,uint256)", "transferFrom(address,address,uint256)", "balanceOf(address)", "totalSupply()", "burn(uint256)", "allowance(address,address)"}
	for i, f := range fns {
		p("DUP1", sel(f), "EQ", fmt.Sprintf("@f%d", i), "JUMPI")
	}
	p("0x00 0x00 REVERT")

	p("f0:") // mint
	rv("mint")
	p("0x00 0x00 MSTORE", arg(0), "0x20 MSTORE", arg(1), "0x40 MSTORE")
	if !bugs["mint-none"] {
		extra := ""
		if bugs["mint-more"] {
			extra = "0x01 ADD"
		}
		credit(extra)
	}
	p("0x40 MLOAD", supplySlot, "SLOAD ADD", supplySlot, "SSTORE")
	emit("mint", transferSig, approvalSig)
	p("STOP")

	p("f1:") // transfer
	rv("transfer")
	p("CALLER 0x00 MSTORE", arg(0), "0x20 MSTORE", arg(1), "0x40 MSTORE")
	enough("transfer")
	if !bugs["transfer-nodebit"] {
		debit()
	}
	if !bugs["transfer-nocredit"] {
		extra := ""
		if bugs["transfer-more"] {
			extra = "0x01 ADD"
		}
		credit(extra)
	}
	emit("transfer", transferSig, approvalSig)
	ret("transfer")

	allow := "0x40 0x0100 SHA3"
	p("f2:") // approve
	rv("approve")
	p("CALLER 0x00 MSTORE", arg(0), "0x20 MSTORE", arg(1), "0x40 MSTORE")
	p("CALLER 0x0100 MSTORE", arg(0), "0x0120 MSTORE")
	if !bugs["approve-norecord"] {
		p("0x40 MLOAD", allow, "SSTORE")
	}
	emit("approve", approvalSig, transferSig)
	ret("approve")

	p("f3:") // transferFrom
	rv("transferFrom")
	p(arg(0), "0x00 MSTORE", arg(1), "0x20 MSTORE", arg(2), "0x40 MSTORE")
	p(arg(0), "0x0100 MSTORE CALLER 0x0120 MSTORE")
	if !bugs["transferFrom-nolimit"] {
		p("0x40 MLOAD", allow, "SLOAD LT")
		fail("transferFrom")
		p("0x40 MLOAD", allow, "SLOAD SUB", allow, "SSTORE")
	}
	enough("transferFrom")
	if !bugs["transferFrom-nodebit"] {
		debit()
	}
	credit("")
	emit("transferFrom", transferSig, approvalSig)
	ret("transferFrom")

	p("f4:")
	rv("balance")
	p(arg(0), "SLOAD 0x60 MSTORE 0x20 0x60 RETURN")
	p("f5:")
	rv("supply")
	p(supplySlot, "SLOAD 0x60 MSTORE 0x20 0x60 RETURN")

	p("f6:") // burn
	rv("burn")
	p("CALLER 0x00 MSTORE 0x00 0x20 MSTORE", arg(0), "0x40 MSTORE")
	p("0x40 MLOAD 0x00 MLOAD SLOAD LT @rv JUMPI")
	if !bugs["burn-nodebit"] {
		debit()
	}
	if bugs["burn-moresupply"] {
		p("0x01", supplySlot, "SLOAD SUB", supplySlot, "SSTORE")
	}
	if !bugs["burn-nosupply"] {
		p("0x40 MLOAD", supplySlot, "SLOAD SUB", supplySlot, "SSTORE")
	}
	emit("burn", transferSig, approvalSig)
	p("STOP rv: 0x00 0x00 REVERT")

	p("f7:")
	p(arg(0), "0x0100 MSTORE", arg(1), "0x0120 MSTORE", allow, "SLOAD 0x60 MSTORE 0x20 0x60 RETURN")
	return asm2(b.String())
}

var testMu sync.Mutex

// underTest runs f as a test; reports whether it failed and whether it crashed.
func underTest(f func(t *testing.T)) (failed bool, crash string) {
	testMu.Lock()
	defer testMu.Unlock()
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	defer null.Close()
	out := os.Stdout
	os.Stdout = null
	defer func() { os.Stdout = out }()
	ok := testing.RunTests(func(pat, str string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "token", F: func(t *testing.T) {
		defer func() {
			if p := recover(); p != nil {
				crash = fmt.Sprint(p)
			}
		}()
		f(t)
	}}})
	return !ok, crash
}

func runC45(r *mc.R) {
	var all []string
	for _, s := range tokEvents {
		for _, k := range tokEvent {
			all = append(all, s+":"+k)
		}
	}
	all = append(all, tokState...)
	all = append(all, tokBurn...)
	sort.Strings(all)
	burnOnly := func(b string) bool {
		return strings.HasPrefix(b, "burn") || strings.HasPrefix(b, "supply")
	}
	overs := []string{"false", "revert", "invalid"}
	run := func(x *mc.X, bugs []string, over string, hasBurn, owner, twice bool) {
		x.Logf("deviations %v, over-spending %s, burn %v, owner %v, second run %v", bugs, over, hasBurn, owner, twice)
		set := tokenBugs{}
		bad := false
		for _, b := range bugs {
			set[b] = true
			bad = bad || hasBurn || !burnOnly(b)
		}
		if set["transferFrom-failevent"] && set["transferFrom:none"] && len(set) == 2 {
			bad = true // for the event of a successful call is missing as well
		}
		code := tokenCode(set, over)
		c := tevm.NewChain()
		deployer := c.NewAccount(1)
		if err := c.CreateAt(&tokLogger, &deployer, initOf(codeLog)); err != nil {
			panic(err)
		}
		addr, err := c.Create(&deployer, initOf2(code))
		if err != nil {
			panic(err)
		}
		mint := func(tok *erc20.Token, to *seth.Address, amt *seth.Int) error {
			_, err := c.Call(&deployer, tok.Addr, "mint(address,uint256)", to, amt)
			if err == nil && set["mint-error"] {
				err = errors.New("mint reports an error")
			}
			return err
		}
		tok := &erc20.Token{C: c, Addr: &addr, HasBurn: hasBurn, Mint: mint}
		if owner {
			tok.Owner = &deployer
		}
		n := 1
		if twice {
			n = 2 // a chain that already has logs
		}
		var failed bool
		var crash string
		for i := 0; i < n; i++ {
			failed, crash = underTest(func(t *testing.T) { tok.T = t; erc20.TestCompliance(tok) })
			x.Step()
			if crash != "" {
				x.Failf("suite-crash", "deviations %v (over-spending %s, burn %v, owner %v): the suite crashed: %s", bugs, over, hasBurn, owner, crash)
			}
			if failed != bad {
				x.Failf("suite", "deviations %v (over-spending %s, burn %v, owner %v, run %d): suite failed: %v", bugs, over, hasBurn, owner, i, failed)
			}
		}
		x.Outcome(fmt.Sprintf("failed %v", failed))
		x.Case(append([]string{over, fmt.Sprint(hasBurn, owner, twice)}, bugs...)...)
		x.Validated()
	}
	r.Explore(mc.Opts{Name: "compliant", Budget: -1, Bound: "over-spending returns false, reverts or is invalid; with and without burn and owner; once and twice on the same chain"}, func(x *mc.X) {
		over := overs[x.Choose(3)]
		run(x, nil, over, x.Bool(), x.Bool(), x.Bool())
	})
	r.Explore(mc.Opts{Name: "one", Budget: -1, Bound: fmt.Sprintf("each of %d deviations, with every variant", len(all))}, func(x *mc.X) {
		b := all[x.Choose(len(all))]
		over := overs[x.Choose(3)]
		run(x, []string{b}, over, x.Bool(), x.Bool(), false)
	})
	// two faults at different places; kinds of the same event are alternatives
	// and are not combined
	r.Explore(mc.Opts{Name: "two", Budget: -1, Bound: "each pair of deviations at different calls, with burn, over-spending returns false or reverts"}, func(x *mc.X) {
		i := x.Choose(len(all) - 1)
		j := i + 1 + x.Choose(len(all)-i-1)
		a, b := all[i], all[j]
		site := func(s string) string { return s[:strings.IndexAny(s, ":-")] }
		if site(a) == site(b) {
			x.Prune()
		}
		run(x, []string{a, b}, overs[x.Choose(2)], true, true, false)
	})

	arg := func(ts string, idx int) []seth.ABIParam {
		var out []seth.ABIParam
		for i, t := range strings.Split(ts, ",") {
			out = append(out, seth.ABIParam{Type: t, Indexed: i < idx})
		}
		return out
	}
	mk := func() []seth.ABIDescriptor {
		return []seth.ABIDescriptor{
			{Type: "function", Name: "transfer", Inputs: arg("address,uint256", 0)},
			{Type: "function", Name: "approve", Inputs: arg("address,uint256", 0)},
			{Type: "function", Name: "transferFrom", Inputs: arg("address,address,uint256", 0)},
			{Type: "function", Name: "allowance", Inputs: arg("address,address", 0), Constant: true},
			{Type: "function", Name: "balanceOf", Inputs: arg("address", 0), Constant: true},
			{Type: "event", Name: "Transfer", Inputs: arg("address,address,uint256", 2)},
			{Type: "event", Name: "Approval", Inputs: arg("address,address,uint256", 2)},
			{Type: "function", Name: "extra", Inputs: arg("bytes", 0)},
			{Type: "constructor", Inputs: arg("uint256", 0)},
		}
	}
	// ways to spoil a part; reports whether it did
	spoil := func(d *seth.ABIDescriptor, how int) bool {
		switch how {
		case 0:
			d.Name = "gone"
		case 1:
			d.Inputs = append(d.Inputs, seth.ABIParam{Type: "uint256"})
		case 2:
			d.Inputs = d.Inputs[:len(d.Inputs)-1]
		case 3:
			d.Inputs[0].Type = "bytes32"
		case 4:
			d.Constant = !d.Constant
			return d.Type == "function"
		case 5:
			if d.Type == "event" {
				d.Type = "function"
			} else {
				d.Type = "event"
			}
		case 6:
			d.Inputs[0].Indexed = false
			return d.Type == "event"
		case 7:
			if len(d.Inputs) > 1 {
				d.Inputs[1].Indexed = false
			}
			return d.Type == "event"
		case 8:
			d.Payable, d.Mutability, d.Anonymous = true, "payable", false
			return false
		case 9:
			d.Inputs[0].Name = "renamed"
			return false
		case 10:
			return false
		}
		return true
	}
	r.Explore(mc.Opts{Name: "interface", Budget: -1, Bound: "each part spoilt in each of 10 ways or left alone, then another; 3 orders"}, func(x *mc.X) {
		abi := mk()
		i := x.Choose(7)
		h := x.Choose(11)
		bad := spoil(&abi[i], h)
		j, h2 := i, 10
		if j = i + 1 + x.Choose(8-i); j < 7 {
			h2 = x.Choose(11)
			bad = spoil(&abi[j], h2) || bad
		}
		switch x.Choose(3) {
		case 1:
			for a, b := 0, len(abi)-1; a < b; a, b = a+1, b-1 {
				abi[a], abi[b] = abi[b], abi[a]
			}
		case 2:
			abi = append(abi[4:], abi[:4]...)
		}
		x.Logf("part %d spoilt by %d, part %d by %d", i, h, j, h2)
		x.Step()
		failed, crash := underTest(func(t *testing.T) { erc20.TestABICompliance(t, &seth.CompiledContract{ABI: abi}) })
		if crash != "" {
			x.Failf("abi-crash", "part %d spoilt by %d, part %d by %d: the suite crashed: %s", i, h, j, h2, crash)
		}
		if failed != bad {
			x.Failf("abi", "part %d spoilt by %d, part %d by %d: suite failed: %v, want %v", i, h, j, h2, failed, bad)
		}
		x.Case("interface", fmt.Sprint(i, h, j, h2))
		x.Validated()
	})
}
