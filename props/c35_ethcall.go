package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"os"
	"strings"

	"github.com/ethereum/go-ethereum/core/types"
	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{
		ID:    "C35",
		Level: "exploration",
		Rule:  "every argument type x every boundary spelling, every ordered pair of types, every shape of wrong signature and argument count, every result type x boundary word, each run as the real program against a recording node; a case is a distinct command line and node answer, non-trivial if something was encoded, sent or printed",
		Notes: []string{"spellings whose meaning is not settled (numbers with a leading zero, booleans as 0/1, missing 0x) and types outside the tool's list may be refused, but if they are sent they have to be encoded as written"},
		Run:   runC35,
	})
}

const (
	argOK     = iota
	argRefuse // must not be sent
	argEither // may be refused
)

// cliArg is one way of writing an argument.
type cliArg struct {
	typ, text string
	kind      int
	val       abiVal // what it means, unless it has to be refused
}

func cliInts(typ string, bits uint, signed bool) []cliArg {
	lo, hi := big.NewInt(0), plus(pow2(bits), -1)
	if signed {
		lo, hi = new(big.Int).Neg(pow2(bits-1)), plus(pow2(bits-1), -1)
	}
	var out []cliArg
	seen := map[string]bool{}
	add := func(n *big.Int) {
		if seen[n.String()] {
			return
		}
		seen[n.String()] = true
		kind := argOK
		if n.Cmp(lo) < 0 || n.Cmp(hi) > 0 {
			kind = argRefuse
		}
		out = append(out, cliArg{typ, n.String(), kind, vInt(typ, n)})
		if n.Sign() >= 0 {
			out = append(out, cliArg{typ, "0x" + n.Text(16), kind, vInt(typ, n)})
		} else if kind == argOK {
			out = append(out, cliArg{typ, "-0x" + new(big.Int).Neg(n).Text(16), argEither, vInt(typ, n)})
		}
	}
	for _, b := range []*big.Int{big.NewInt(0), lo, hi, pow2(bits), pow2(bits - 1), new(big.Int).Neg(pow2(bits - 1)), new(big.Int).Neg(pow2(bits)), pow2(256), new(big.Int).Neg(pow2(256)), pow2(64), pow2(128)} {
		for d := int64(-1); d <= 1; d++ {
			add(plus(b, d))
		}
	}
	out = append(out, cliArg{typ, "+1", argEither, vInt(typ, big.NewInt(1))}, cliArg{typ, "0X1f", argEither, vInt(typ, big.NewInt(31))})
	for _, bad := range []string{"", "x", "0x", "1.5", "1e1", "--1", " 1", "1 ", "1,2", "0xg", "-", "true", "[1]", "1z"} {
		out = append(out, cliArg{typ: typ, text: bad, kind: argRefuse})
	}
	return out
}

// cliArgs is the whole alphabet, by type; first comes a good value.
func cliArgs() [][]cliArg {
	var out [][]cliArg
	for _, b := range []uint{8, 16, 32, 64, 128, 256} {
		out = append(out, cliInts(fmt.Sprintf("uint%d", b), b, false), cliInts(fmt.Sprintf("int%d", b), b, true))
	}
	ok := func(v abiVal, text string) cliArg { return cliArg{v.typ, text, argOK, v} }
	either := func(v abiVal, text string) cliArg { return cliArg{v.typ, text, argEither, v} }
	bad := func(typ string, texts ...string) (l []cliArg) {
		for _, t := range texts {
			l = append(l, cliArg{typ: typ, text: t, kind: argRefuse})
		}
		return
	}
	bit := func(n int64) abiVal { return vInt("bool", big.NewInt(n)) }
	out = append(out, append([]cliArg{ok(bit(1), "true"), ok(bit(0), "false"), either(bit(1), "1"), either(bit(0), "0"), either(bit(1), "True")}, bad("bool", "", "2", "yes", "truefalse", " true", "0x2", "-1")...))
	var as []cliArg
	for _, a := range [][]byte{adrPat, adrLow, adrHigh, make([]byte, 20)} {
		h := hex.EncodeToString(a)
		as = append(as, ok(vAddr(a), "0x"+h), either(vAddr(a), h), either(vAddr(a), "0x"+strings.ToUpper(h)))
	}
	h := hex.EncodeToString(adrPat)
	out = append(out, append(as, bad("address", "", "0x", "0x"+h[:39], "0x"+h[:38], "0x"+h+"0", "0x"+h+"00", "0x"+h[:39]+"g", "1", "0x0x"+h[:36], h[:39], " 0x"+h)...))
	// bytes and strings of every length around the word boundaries
	var bs, ss []cliArg
	for _, n := range []int{3, 0, 1, 2, 31, 32, 33, 63, 64, 65, 200} {
		b := patBytes(n, 0x31)
		bs = append(bs, ok(vBytes("bytes", b), "0x"+hex.EncodeToString(b)), either(vBytes("bytes", b), hex.EncodeToString(b)))
		s := strings.Repeat("text ", 40)[:n]
		ss = append(ss, ok(vBytes("string", []byte(s)), s))
	}
	for _, s := range []string{"0x6869", "6869", "0x", "[1]", "true", "-x", "é ü 漢", "a,b", "a\nb\n", "%s%d", `\x00"'`, "0x1"} {
		ss = append(ss, ok(vBytes("string", []byte(s)), s))
	}
	out = append(out, append(bs, bad("bytes", "0x1", "123", "0xgg", "zz", "0x 12", "[1]")...), ss)
	for n := 1; n <= 32; n++ {
		typ := fmt.Sprintf("bytes%d", n)
		b := patBytes(n, 0x41)
		x := hex.EncodeToString(b)
		l := []cliArg{ok(vFixed(b), "0x"+x), either(vFixed(b), x), ok(vFixed(make([]byte, n)), "0x"+strings.Repeat("00", n))}
		l = append(l, bad(typ, "", "0x", "0x"+x[2:], "0x"+x+"00", "0x"+x[1:], x+"0", "0x"+x[:len(x)-1]+"g")...)
		if n < 32 {
			l = append(l, bad(typ, "0x"+x+strings.Repeat("00", 32-n))...)
		}
		out = append(out, l)
	}
	// arrays
	arr := func(typ string, texts []string, vals []abiVal, bads ...string) {
		e := func(n int) abiVal { return vSlice(typ+"[]", vals[:n]) }
		l := []cliArg{ok(e(2), "["+texts[0]+","+texts[1]+"]"), ok(e(0), "[]"), ok(e(1), "["+texts[0]+"]"),
			ok(e(3), "["+strings.Join(texts[:3], ",")+"]"), either(e(2), "[ "+texts[0]+", "+texts[1]+" ]"), either(e(2), texts[0]+","+texts[1]), either(e(2), "["+texts[0]+", "+texts[1]+"]"), either(e(0), "[ ]")}
		l = append(l, bad(typ+"[]", "", "[", "]", "[,]", "["+texts[0]+",]", "[,"+texts[0]+"]", "["+texts[0]+","+texts[1], texts[0]+","+texts[1]+"]", "["+texts[0]+" "+texts[1]+"]", "[["+texts[0]+"]]", "["+texts[0]+"],["+texts[1]+"]", "[x]", "][", "["+texts[0]+"]]")...)
		for _, b := range bads {
			l = append(l, bad(typ+"[]", "["+b+"]", "["+texts[0]+","+b+"]", "["+b+","+texts[0]+"]", "["+texts[0]+","+b+","+texts[1]+"]")...)
		}
		out = append(out, l)
	}
	for _, b := range []uint{8, 16, 32, 64, 128, 256} {
		u, s := fmt.Sprintf("uint%d", b), fmt.Sprintf("int%d", b)
		hi, shi, slo := plus(pow2(b), -1), plus(pow2(b-1), -1), new(big.Int).Neg(pow2(b-1))
		arr(u, []string{"1", hi.String(), "0"}, []abiVal{vInt(u, big.NewInt(1)), vInt(u, hi), vInt(u, big.NewInt(0))}, pow2(b).String(), "-1", "true")
		arr(s, []string{"-1", shi.String(), slo.String()}, []abiVal{vInt(s, big.NewInt(-1)), vInt(s, shi), vInt(s, slo)}, pow2(b-1).String(), plus(slo, -1).String())
	}
	arr("bool", []string{"true", "false", "true"}, []abiVal{bit(1), bit(0), bit(1)}, "2", "yes")
	arr("address", []string{"0x" + h, "0x" + hex.EncodeToString(adrLow), "0x" + hex.EncodeToString(adrHigh)}, []abiVal{vAddr(adrPat), vAddr(adrLow), vAddr(adrHigh)}, "1", "0x"+h+"00")
	// types the tool need not know: as written, or not at all
	e1 := func(typ, text string, v abiVal) []cliArg { v.typ = typ; return []cliArg{either(v, text)} }
	b4, b32 := patBytes(4, 1), patBytes(32, 1)
	x4, x32 := "0x"+hex.EncodeToString(b4), "0x"+hex.EncodeToString(b32)
	out = append(out, e1("uint24", "70000", vInt("", big.NewInt(70000))), e1("int24", "-2", vInt("", big.NewInt(-2))), e1("uint248", "1", vInt("", big.NewInt(1))),
		e1("bytes4[]", "["+x4+"]", vSlice("bytes4[]", []abiVal{vFixed(b4)})), e1("bytes4[]", "[]", vSlice("bytes4[]", nil)),
		e1("bytes32[]", "["+x32+","+x32+"]", vSlice("bytes32[]", []abiVal{vFixed(b32), vFixed(b32)})), e1("bytes32[]", "[]", vSlice("bytes32[]", nil)))
	out = append(out, bad("uint24", "16777216", "-1"), bad("int24", "8388608", "-8388609"), bad("uint7", "1"), bad("int0", "0"), bad("uint264", "1"), bad("uint0", "0"), bad("bytes0", "0x", ""), bad("bytes33", "0x"+strings.Repeat("11", 33)), bad("", "1", ""), bad("uint8 ", "1"), bad(" uint8", "1"), bad("Uint8", "1"), bad("bytes4[]", "["+x32+"]"), bad("strin", "a"), bad("uint08", "1"), bad("[]", "[1]", "[]"), bad("bytesx", "0x11"), bad("bytes-1", "0x11"), bad("bytes32a", x32))
	return out
}

func hexOf(v interface{}) ([]byte, bool) {
	s, ok := v.(string)
	if !ok || !strings.HasPrefix(s, "0x") {
		return nil, false
	}
	b, err := hex.DecodeString(s[2:])
	return b, err == nil
}

func selector(sig string) []byte { return refKeccak([]byte(sig))[:4] }

func wordsOf(ws ...[]byte) string { return `"0x` + hex.EncodeToString(bytes.Join(ws, nil)) + `"` }

type c35World struct {
	node *toolNode
	dir  string
	addr string
	path string
}

// eth runs `eth sub ...` against a node that answers calls with ret.
func (w *c35World) eth(x *mc.X, pass string, answer func(method string, params []interface{}) (string, string), args ...string) (toolRun, *toolTalk) {
	t, url := w.node.talk(func(m string, p []interface{}) (string, string) {
		if answer != nil {
			if r, e := answer(m, p); r != "" || e != "" {
				return r, e
			}
		}
		switch m {
		case "eth_call":
			return wordsOf(abiWord(big.NewInt(7))), ""
		case "eth_getCode":
			return `"0x"`, ""
		case "eth_getTransactionCount":
			return `"0x9"`, ""
		case "eth_estimateGas":
			return `"0x5208"`, ""
		case "eth_gasPrice":
			return `"0x1"`, ""
		case "eth_sendRawTransaction", "eth_sendTransaction":
			return `"0x` + strings.Repeat("5a", 32) + `"`, ""
		case "net_version":
			return `"1"`, ""
		}
		return "", "no such method"
	})
	defer w.node.done(url)
	env := []string{"SETH_URL=" + url, "HOME=" + w.dir, "KEY_PATH=" + w.dir, "ETHER_ADDR=mykey", "PATH=/nonexistent"}
	var r toolRun
	if pass != "" {
		r = toolPass("eth", env, pass, args...)
	} else {
		r = tool("eth", env, nil, args...)
	}
	w.node.mu.Lock()
	defer w.node.mu.Unlock()
	if t.bad != "" {
		x.Failf("bad-request", "%q: the node was sent something it cannot read: %s", args, t.bad)
	}
	if r.code == -1 {
		x.Failf("hang", "%q: %v", args, r)
	}
	x.Step()
	return r, t
}

// sent returns the call data of everything that was sent to be executed.
func (w *c35World) sent(x *mc.X, args []string, t *toolTalk) (calls [][]byte, to []string, raws []*types.Transaction) {
	for _, q := range t.asked {
		switch q.Method {
		case "eth_call", "eth_sendTransaction", "eth_estimateGas":
			m, _ := q.Params[0].(map[string]interface{})
			d, ok := hexOf(m["data"])
			if !ok {
				x.Failf("no-data", "%q: %s of %v", args, q.Method, q.Params)
			}
			if q.Method != "eth_estimateGas" {
				calls = append(calls, d)
				a, _ := m["to"].(string)
				to = append(to, a)
			}
		case "eth_sendRawTransaction":
			s, _ := q.Params[0].(string)
			tx := ethDecodeHex(s)
			if tx == nil {
				x.Failf("raw-undecodable", "%q: sent %s", args, s)
			}
			raws = append(raws, tx)
		}
	}
	return
}

// judge checks one run of read or call with the given arguments.
func (w *c35World) read(x *mc.X, sig string, as []cliArg, kind int) {
	args := []string{"read", "-f", w.addr, sig}
	var vs []abiVal
	for _, a := range as {
		args = append(args, a.text)
		vs = append(vs, a.val)
		if a.kind == argRefuse || a.kind == argEither && kind == argOK {
			kind = a.kind
		}
	}
	for _, a := range as {
		if a.kind == argRefuse {
			kind = argRefuse
		}
	}
	if kind != argRefuse {
		args = append(args, "uint256")
	}
	r, t := w.eth(x, "", nil, args...)
	calls, to, raws := w.sent(x, args, t)
	if len(raws) > 0 {
		x.Failf("read-sends", "%q sent a transaction", args)
	}
	switch {
	case kind == argRefuse && (r.code == 0 || len(calls) > 0):
		x.Failf("not-refused", "%q has to be refused: %v, called with %x", args, r, calls)
	case kind == argOK && r.code != 0:
		x.Failf("refused", "%q is refused: %v", args, r)
	}
	if r.code != 0 && len(calls) > 0 {
		x.Failf("refused-after", "%q: called and failed: %v", args, r)
	}
	if r.code == 0 {
		want := append(selector(sig), abiTuple(vs)...)
		if len(calls) != 1 || !bytes.Equal(calls[0], want) || !strings.EqualFold(to[0], w.addr) {
			x.Failf("call-data", "%q: called %v with %x, want %x", args, to, calls, want)
		}
		if r.out != "7\n" {
			x.Failf("printed", "%q: printed %q, the result is 7", args, r.out)
		}
		x.Outcome("sent")
	} else {
		x.Outcome("refused")
	}
	x.Case(args...)
	x.Validated()
}

func runC35(r *mc.R) {
	dir, done := toolScratch(r, "C35")
	defer done()
	w := &c35World{node: newToolNode(), dir: dir, addr: "0x" + hex.EncodeToString(patBytes(20, 0x77))}
	defer w.node.close()
	toolKey(dir, "key.json", "mykey", "d9e1a8a4-0000-4000-8000-000000000001", "pw", 77)
	os.Mkdir(dir+"/sub", 0755)
	types := cliArgs()

	total := 0
	for _, t := range types {
		total += len(t)
	}
	r.Explore(mc.Opts{Name: "values", Bound: fmt.Sprintf("one argument: %d spellings of %d types", total, len(types))}, func(x *mc.X) {
		t := types[x.Choose(len(types))]
		a := t[x.Choose(len(t))]
		w.read(x, "f("+a.typ+")", []cliArg{a}, argOK)
	})

	// one good value of every type, in every order
	var good, wrong []cliArg
	for _, t := range types {
		if t[0].kind != argOK || strings.HasPrefix(t[0].typ, "bytes") && !strings.Contains("bytes1 bytes4 bytes31 bytes32 bytes", t[0].typ) {
			continue
		}
		if !r.Thorough && (strings.Contains(t[0].typ, "16") || strings.Contains(t[0].typ, "64") || strings.Contains(t[0].typ, "32[") || strings.Contains(t[0].typ, "128")) {
			continue
		}
		good = append(good, t[0])
		if len(t[0].typ) < 8 {
			for _, b := range t {
				if b.kind == argRefuse && b.text != "" {
					wrong = append(wrong, b)
					break
				}
			}
		}
	}
	r.Explore(mc.Opts{Name: "pairs", Bound: fmt.Sprintf("two arguments: all ordered pairs of %d types", len(good))}, func(x *mc.X) {
		a, b := good[x.Choose(len(good))], good[x.Choose(len(good))]
		w.read(x, "pair("+a.typ+","+b.typ+")", []cliArg{a, b}, argOK)
	})
	few := []cliArg{}
	for _, g := range good {
		if strings.Contains(" uint8 int256 address bytes string bytes4 bool[] address[] ", " "+g.typ+" ") {
			few = append(few, g)
		}
	}
	few = few[:r.N(5, len(few))]
	r.Explore(mc.Opts{Name: "triples", Bound: fmt.Sprintf("three arguments: all ordered triples of %d types", len(few))}, func(x *mc.X) {
		a, b, c := few[x.Choose(len(few))], few[x.Choose(len(few))], few[x.Choose(len(few))]
		w.read(x, "t("+a.typ+","+b.typ+","+c.typ+")", []cliArg{a, b, c}, argOK)
	})
	r.Explore(mc.Opts{Name: "one wrong", Bound: fmt.Sprintf("one of %d bad values before, between or after good ones", len(wrong))}, func(x *mc.X) {
		b := wrong[x.Choose(len(wrong))]
		g := few[x.Choose(len(few))]
		as := []cliArg{g, g, g}
		as[x.Choose(3)] = b
		w.read(x, "t("+as[0].typ+","+as[1].typ+","+as[2].typ+")", as, argOK)
	})

	// signatures
	one := cliArg{"uint256", "1", argOK, vInt("uint256", big.NewInt(1))}
	names := []string{"f", "F", "_x", "transferFrom", "a1", strings.Repeat("long", 20)}
	sigs := []string{"f", "f(", "f)", "f(uint256", "fuint256)", "f)uint256(", "f(uint256)x", "f((uint256))", "f(uint256))", "f(uint256,)", "f(,uint256)", "f(uint256;uint256)", "f(uint256 )", "(uint256)", "", " f(uint256)", "f (uint256)", "f(uint256) ", "f(uint256)(uint256)", "f[uint256]", "f(uint256,uint256)", "f(uint256,uint256,uint256)", "f-g(uint256)", "f(uint256[)"}
	r.Explore(mc.Opts{Name: "signatures", Bound: fmt.Sprintf("%d names without and with an argument; %d malformed or unfillable signatures, by read and by call", len(names), len(sigs))}, func(x *mc.X) {
		i := x.Choose(len(names) + len(sigs))
		if i < len(names) {
			if x.Bool() {
				w.read(x, names[i]+"()", nil, argOK)
			} else {
				w.read(x, names[i]+"(uint256)", []cliArg{one}, argOK)
			}
			return
		}
		sig := sigs[i-len(names)]
		if x.Bool() {
			w.read(x, sig, []cliArg{one}, argRefuse)
		} else {
			w.call(x, sig, []string{"1"}, nil, argRefuse, -1, -1, "pw")
		}
	})

	// transactions
	var sendable []cliArg
	for _, t := range types {
		for _, a := range t {
			if a.kind == argOK && (r.Thorough || len(t) < 3 || &t[0] == &a || a.text == t[0].text || strings.HasPrefix(a.text, "-")) {
				sendable = append(sendable, a)
			}
		}
	}
	r.Explore(mc.Opts{Name: "transactions", Bound: fmt.Sprintf("`eth call` with each of %d arguments; the raw transaction is decoded and its sender recovered with go-ethereum", len(sendable))}, func(x *mc.X) {
		a := sendable[x.Choose(len(sendable))]
		w.call(x, "g("+a.typ+")", []string{a.text}, []abiVal{a.val}, argOK, -1, -1, "pw")
	})
	r.Explore(mc.Opts{Name: "transaction options", Bound: "nonce {from the node, 0, 1, 200, 2^31, 2^32+5}, gas price {default, 0, 1, 20, 1000, 3e9, 2^63/1e9, one more, 2^62} gwei or negative, 0..2 arguments for signatures of 0..2, right and wrong passphrase"}, func(x *mc.X) {
		nonce := []int{-1, 0, 1, 200, 1 << 31, 1<<32 + 5}[x.Choose(6)]
		gwei := []int{-1, 0, 1, 20, 1000, 3e9, 9223372036, 9223372037, 1 << 62, -2}[x.Choose(10)]
		n, given := 0, 0
		pass := "pw"
		if nonce <= 0 && (gwei == -1 || gwei == 0) {
			n, given = x.Choose(3), x.Choose(4)
			pass = []string{"pw", "pww", "p"}[x.Choose(3)]
		}
		var ts, texts []string
		var vs []abiVal
		for i := 0; i < n; i++ {
			ts = append(ts, "uint256")
		}
		for i := 0; i < given; i++ {
			texts = append(texts, fmt.Sprint(i+5))
			vs = append(vs, vInt("uint256", big.NewInt(int64(i+5))))
		}
		kind := argOK
		if n != given || pass != "pw" || gwei < -1 {
			kind = argRefuse
		}
		w.call(x, "h("+strings.Join(ts, ",")+")", texts, vs, kind, nonce, gwei, pass)
	})

	// the jump-table check
	r.Explore(mc.Opts{Name: "jump table", Bound: "read and call without -f: the selector is in the table, is not, or differs from one that is in any one byte, alone or as the last of three; or there is no code"}, func(x *mc.X) {
		mode := x.Choose(7)
		send := x.Bool()
		code := []byte{}
		others := false
		if mode > 0 {
			others = x.Bool()
			s := append([]byte(nil), selector("f(uint256)")...)
			if mode == 2 {
				s = []byte{1, 2, 3, 4}
			}
			if mode > 2 {
				s[mode-3] ^= 0x40
			}
			table := ""
			if others {
				table = "63aabbccdd14610033578063a1b2c3d414610034578063"
			} else {
				table = "63"
			}
			code, _ = hex.DecodeString("6000357c0100000000000000000000000000000000000000000000000000000000900480" + table + hex.EncodeToString(s) + "146100455700000000000000")
		}
		sub, pass := "read", ""
		if send {
			sub, pass = "call", "pw"
		}
		args := []string{sub, w.addr, "f(uint256)", "1"}
		res, t := w.eth(x, pass, func(m string, p []interface{}) (string, string) {
			if m == "eth_getCode" {
				return `"0x` + hex.EncodeToString(code) + `"`, ""
			}
			return "", ""
		}, args...)
		calls, _, raws := w.sent(x, args, t)
		n := len(calls) + len(raws)
		if mode == 1 && (res.code != 0 || n != 1) || mode != 1 && (res.code == 0 || n != 0) {
			x.Failf("jump-table", "code %x: %v, %d calls", code, res, n)
		}
		x.Case(fmt.Sprint(mode, send, others))
		x.Validated()
	})

	// results
	type result struct {
		typ   string
		words []byte // head word
		tail  []byte
		want  []string // acceptable lines
	}
	var rs []result
	one1 := func(typ string, word []byte, want ...string) {
		rs = append(rs, result{typ: typ, words: word, want: want})
	}
	for _, b := range []uint{8, 16, 32, 64, 128, 256} {
		for _, n := range []*big.Int{plus(pow2(b), -1), big.NewInt(0), big.NewInt(1), pow2(b - 1)} {
			one1(fmt.Sprintf("uint%d", b), abiWord(n), n.String())
		}
		for _, n := range []*big.Int{big.NewInt(-1), plus(pow2(b-1), -1), new(big.Int).Neg(pow2(b - 1)), big.NewInt(0), big.NewInt(1)} {
			one1(fmt.Sprintf("int%d", b), abiWord(n), n.String())
		}
	}
	one1("uint", abiWord(plus(pow2(256), -1)), plus(pow2(256), -1).String())
	one1("int", abiWord(big.NewInt(-5)), "-5")
	one1("int", abiWord(big.NewInt(5)), "5")
	one1("bool", abiWord(big.NewInt(1)), "true")
	one1("bool", abiWord(big.NewInt(0)), "false")
	for _, a := range [][]byte{adrPat, adrLow, adrHigh} {
		one1("address", vAddr(a).word, "0x"+hex.EncodeToString(a))
	}
	for n := 1; n <= 32; n++ {
		b := patBytes(n, 0x61)
		v := vFixed(b)
		one1(v.typ, v.word, hex.EncodeToString(b), hex.EncodeToString(v.word), "0x"+hex.EncodeToString(b))
		// zeros in it belong to it
		for _, z := range [][]int{{n - 1}, {0}, {0, n - 1}} {
			b := append([]byte(nil), b...)
			for _, i := range z {
				b[i] = 0
			}
			v := vFixed(b)
			one1(v.typ, v.word, hex.EncodeToString(b), hex.EncodeToString(v.word), "0x"+hex.EncodeToString(b))
		}
	}
	for _, n := range []int{0, 1, 31, 32, 33, 100} {
		b := patBytes(n, 0x71)
		rs = append(rs, result{typ: "bytes", tail: vBytes("bytes", b).tail, want: []string{hex.EncodeToString(b), "0x" + hex.EncodeToString(b)}})
		s := strings.Repeat("some text é ", 10)[:n]
		rs = append(rs, result{typ: "string", tail: vBytes("string", []byte(s)).tail, want: []string{s}})
	}
	show := func(x *mc.X, res []result) {
		args := []string{"read", "-f", w.addr, "f()"}
		var head, tail []byte
		for _, q := range res {
			args = append(args, q.typ)
			if q.tail != nil {
				head = append(head, abiWord(big.NewInt(int64(32*len(res)+len(tail))))...)
				tail = append(tail, q.tail...)
			} else {
				head = append(head, q.words...)
			}
		}
		out, t := w.eth(x, "", func(m string, p []interface{}) (string, string) {
			if m == "eth_call" {
				return wordsOf(head, tail), ""
			}
			return "", ""
		}, args...)
		if calls, _, _ := w.sent(x, args, t); len(calls) != 1 || out.code != 0 {
			x.Failf("read-failed", "%q of %x%x: %v", args, head, tail, out)
		}
		rest := out.out
		for i, q := range res {
			found := false
			for _, l := range q.want {
				if strings.HasPrefix(rest, l+"\n") {
					rest, found = rest[len(l)+1:], true
					break
				}
			}
			if !found {
				x.Failf("printed", "%q of %x%x: result %d printed as %q, want %q", args, head, tail, i, rest, q.want)
			}
		}
		if rest != "" {
			x.Failf("printed", "%q of %x%x: also printed %q", args, head, tail, rest)
		}
		x.Case(append(args, string(head), string(tail))...)
		x.Validated()
	}
	r.Explore(mc.Opts{Name: "results", Bound: fmt.Sprintf("%d results, and every ordered pair of the first of each type", len(rs))}, func(x *mc.X) {
		show(x, []result{rs[x.Choose(len(rs))]})
	})
	var firsts []result
	have := map[string]bool{}
	for _, q := range rs {
		if !have[q.typ] && (!strings.HasPrefix(q.typ, "bytes") || strings.Contains("bytes bytes4 bytes32", q.typ)) && (r.Thorough || !strings.Contains(q.typ, "16") && !strings.Contains(q.typ, "128")) {
			have[q.typ] = true
			firsts = append(firsts, q)
		}
	}
	r.Explore(mc.Opts{Name: "result pairs", Bound: fmt.Sprintf("ordered pairs of %d result types", len(firsts))}, func(x *mc.X) {
		show(x, []result{firsts[x.Choose(len(firsts))], firsts[x.Choose(len(firsts))]})
	})
	faults := [][2]string{{"", "execution reverted"}, {`"0x"`, ""}, {`"0x00"`, ""}, {`null`, ""}, {`7`, ""}, {`"zz"`, ""}, {wordsOf(abiWord(big.NewInt(64))), ""}}
	badrets := []string{"uint7", "", "tuple", "uint256[]", "bytes0", "bytes33", "Uint8", "int0"}
	r.Explore(mc.Opts{Name: "failed reads", Bound: "every kind of bad answer to each of four result types; result types that do not exist; a failing transaction"}, func(x *mc.X) {
		i := x.Choose(len(faults) + len(badrets) + 4)
		typ := []string{"uint256", "string", "bytes", "address"}[x.Choose(4)]
		ret := faults[0]
		sub, sig, extra, pass := "read", "f()", []string{typ}, ""
		nothing := false
		switch {
		case i < len(faults):
			ret = faults[i]
			if i == len(faults)-1 && (typ == "uint256" || typ == "address") {
				x.Prune()
			}
		case i < len(faults)+len(badrets):
			extra = []string{badrets[i-len(faults)]}
			ret = [2]string{wordsOf(abiWord(big.NewInt(7))), ""}
			nothing = true
			if extra[0] == "uint256[]" {
				x.Prune() // may be supported
			}
		default:
			sub, pass, extra = "call", "pw", nil
		}
		fail := []string{"eth_estimateGas", "eth_getTransactionCount", "eth_sendRawTransaction", "eth_sendRawTransaction"}[i&3]
		args := append([]string{sub, "-f", w.addr, sig}, extra...)
		out, t := w.eth(x, pass, func(m string, p []interface{}) (string, string) {
			if m == "eth_call" {
				return ret[0], ret[1]
			}
			if m == fail && sub == "call" {
				return "", "the node refuses"
			}
			return "", ""
		}, args...)
		if out.code == 0 {
			x.Failf("failure-lost", "%q, call answered %q, %s fails: %v", args, ret, fail, out)
		}
		if out.out != "" {
			x.Failf("failure-output", "%q, call answered %q, %s fails: %v", args, ret, fail, out)
		}
		if calls, _, raws := w.sent(x, args, t); nothing && len(calls)+len(raws) > 0 {
			x.Failf("not-refused", "%q: a call was made", args)
		}
		x.Case(fmt.Sprint(i, typ))
		x.Validated()
	})
}

// call checks one run of `eth call`.
func (w *c35World) call(x *mc.X, sig string, texts []string, vs []abiVal, kind, nonce, gwei int, pass string) {
	args := []string{"call", "-f"}
	price := big.NewInt(4e9)
	if gwei != -1 {
		args = append(args, fmt.Sprintf("-g=%d", gwei))
		price = new(big.Int).Mul(big.NewInt(int64(gwei)), big.NewInt(1e9))
	}
	wantNonce := uint64(9)
	if nonce >= 0 {
		args = append(args, "-n", fmt.Sprint(nonce))
		wantNonce = uint64(nonce)
	}
	args = append(append(args, w.addr, sig), texts...)
	r, t := w.eth(x, pass, nil, args...)
	calls, _, raws := w.sent(x, args, t)
	if len(calls) > 0 {
		x.Failf("call-unsigned", "%q: sent without a signature", args)
	}
	if kind == argRefuse {
		if r.code == 0 || len(raws) > 0 {
			x.Failf("not-refused", "%q (passphrase %s) has to be refused: %v, %d transactions sent", args, pass, r, len(raws))
		}
		x.Outcome("refused")
	} else {
		if r.code != 0 || len(raws) != 1 {
			x.Failf("refused", "%q: %d transactions sent, %v", args, len(raws), r)
		}
		tx := raws[0]
		want := append(selector(sig), abiTuple(vs)...)
		from, err := types.NewEIP155Signer(big.NewInt(1)).Sender(tx)
		if err != nil || !bytes.Equal(from[:], refAddress(big.NewInt(77))) {
			x.Failf("sender", "%q: signed by %x (%v)", args, from, err)
		}
		if !bytes.Equal(tx.Data(), want) {
			x.Failf("call-data", "%q: sent %x, want %x", args, tx.Data(), want)
		}
		if tx.To() == nil || !strings.EqualFold(tx.To().Hex(), w.addr) || tx.Nonce() != wantNonce || tx.GasPrice().Cmp(price) != 0 || tx.Value().Sign() != 0 || tx.Gas() < 21000 {
			js, _ := tx.MarshalJSON()
			x.Failf("call-fields", "%q: sent %s, want nonce %d, gas price %v, no value", args, js, wantNonce, price)
		}
		if strings.TrimSpace(r.out) != "0x"+strings.Repeat("5a", 32) {
			x.Failf("printed", "%q: printed %q", args, r.out)
		}
		x.Outcome("sent")
	}
	x.Case(append(args, pass)...)
	x.Validated()
}
