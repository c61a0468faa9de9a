package props

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"

	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{
		ID:    "C39",
		Level: "exploration",
		Rule:  "every query and posting command of the eth program, run as a process against a recording node, over bounded alphabets of arguments, node states and failing requests, and every way of naming the node; a case is a distinct command line, input and node behaviour",
		Notes: []string{"what is printed is read back by independent code and compared with the node's own state"},
		Run:   runC39,
	})
}

// c39 checks shared by all commands.
func c39Sane(x *mc.X, args []string, t toolRun) {
	if t.crashed() || t.code == -1 {
		x.Failf("crash", "%q: %v", args, t)
	}
	if t.code != 0 && t.err == "" && t.out == "" {
		x.Failf("silent-failure", "%q: %v", args, t)
	}
}

// decimalWei reads an amount printed in ether, exactly.
func decimalWei(s string) *big.Int {
	f := strings.Fields(s)
	if len(f) != 2 || f[1] != "ETH" {
		return nil
	}
	ip, fp := f[0], ""
	if i := strings.IndexByte(ip, '.'); i >= 0 {
		ip, fp = ip[:i], ip[i+1:]
		if fp == "" {
			return nil
		}
	}
	if len(fp) > 18 || ip == "" {
		return nil
	}
	for _, c := range ip + fp {
		if c < '0' || c > '9' {
			return nil
		}
	}
	n, _ := new(big.Int).SetString(ip+fp+strings.Repeat("0", 18-len(fp)), 10)
	return n
}

func hexBig(s string) *big.Int {
	if !strings.HasPrefix(s, "0x") || len(s) < 3 {
		return nil
	}
	n, ok := new(big.Int).SetString(s[2:], 16)
	if !ok || strings.ContainsAny(s[2:], "+-_") {
		return nil
	}
	return n
}

// c39Chain is the node's idea of the chain: blocks 0..latest, and pending.
type c39Chain struct {
	latest    int64
	noPending bool // the pending block has no number, as the protocol says
	failAt    int64
	fail      string // "error", "null", "garbage"
}

// doc is block n in the protocol's form.
func (c c39Chain) doc(n int64, full bool) map[string]interface{} {
	h := func(b byte) string { return "0x" + hex.EncodeToString(patBytes(32, b)) }
	m := map[string]interface{}{
		"number":           fmt.Sprintf("0x%x", n),
		"hash":             h(byte(n)),
		"parentHash":       h(byte(n - 1)),
		"nonce":            fmt.Sprintf("0x%016x", n*7+1),
		"sha3Uncles":       h(0x31),
		"logsBloom":        "0x" + strings.Repeat("00", 255) + fmt.Sprintf("%02x", byte(n)),
		"transactionsRoot": h(0x32),
		"stateRoot":        h(byte(n) ^ 0x55),
		"receiptsRoot":     h(0x33),
		"miner":            "0x" + hex.EncodeToString(patBytes(20, byte(n+3))),
		"gasLimit":         fmt.Sprintf("0x%x", 6000000+n),
		"gasUsed":          fmt.Sprintf("0x%x", n),
		"uncles":           []interface{}{},
		"difficulty":       "0x" + fmt.Sprintf("%x", n+1) + "0000000000000000000",
		"totalDifficulty":  "0x" + fmt.Sprintf("%x", n+1) + "00000000000000000000000",
		"timestamp":        fmt.Sprintf("0x%x", 1500000000+n*15),
		"extraData":        "0x" + hex.EncodeToString([]byte(fmt.Sprint("extra", n))),
	}
	if n%3 == 1 {
		m["uncles"] = []interface{}{h(0x41), h(0x42)}
	}
	txs := []interface{}{}
	for i := int64(0); i < n%3; i++ {
		if full {
			txs = append(txs, map[string]interface{}{"hash": h(byte(n*3 + i)), "nonce": fmt.Sprintf("0x%x", i), "value": "0xde0b6b3a7640000", "input": "0x", "from": m["miner"], "to": nil, "gas": "0x5208", "gasPrice": "0x1"})
		} else {
			txs = append(txs, h(byte(n*3+i)))
		}
	}
	m["transactions"] = txs
	if c.noPending && n == c.latest+1 {
		m["number"], m["hash"], m["nonce"], m["logsBloom"], m["miner"] = nil, nil, nil, nil, nil
	}
	return m
}

// answer answers eth_getBlockByNumber.
func (c c39Chain) answer(method string, p []interface{}) (string, string) {
	if method != "eth_getBlockByNumber" || len(p) != 2 {
		return "", "unexpected " + method
	}
	var n int64
	switch p[0] {
	case "latest":
		n = c.latest
	case "pending":
		n = c.latest + 1
	case "earliest":
		n = 0
	default:
		s, _ := p[0].(string)
		b := hexBig(s)
		if b == nil {
			return "", fmt.Sprintf("bad block number %v", p[0])
		}
		if !b.IsInt64() || b.Int64() > c.latest {
			return "null", ""
		}
		n = b.Int64()
	}
	if n == c.failAt {
		switch c.fail {
		case "error":
			return "", "database closed"
		case "null":
			return "null", ""
		case "garbage":
			return `"0x1"`, ""
		}
	}
	b, _ := json.Marshal(c.doc(n, p[1] == true))
	return string(b), ""
}

// sameDoc compares what was printed with the node's document: numbers by
// value, hex without regard to case.
func sameDoc(key string, got, want interface{}) string {
	switch w := want.(type) {
	case nil:
		// what is unknown may be absent, null, or the zero value
		switch g := got.(type) {
		case nil:
			return ""
		case string:
			if strings.Trim(g, "0x") == "" {
				return ""
			}
		}
	case string:
		g, ok := got.(string)
		if !ok {
			break
		}
		if strings.EqualFold(g, w) {
			return ""
		}
		switch key {
		case "number", "nonce", "gasLimit", "gasUsed", "difficulty", "totalDifficulty", "timestamp":
			if a, b := hexBig(g), hexBig(w); a != nil && b != nil && a.Cmp(b) == 0 {
				return ""
			}
		}
	case []interface{}:
		if g, ok := got.([]interface{}); ok && len(g) == len(w) {
			for i := range w {
				if s := sameDoc("", g[i], w[i]); s != "" {
					return s
				}
			}
			return ""
		} else if got == nil && len(w) == 0 {
			return ""
		}
	default:
		if reflect.DeepEqual(got, want) {
			return ""
		}
		if g, ok := got.(map[string]interface{}); ok {
			if w, ok := want.(map[string]interface{}); ok {
				for k := range w {
					if s := sameDoc(k, g[k], w[k]); s != "" {
						return s
					}
				}
				return ""
			}
		}
	}
	return fmt.Sprintf("%s is %v instead of %v", key, got, want)
}

func runC39(r *mc.R) {
	node := newToolNode()
	defer node.close()
	scratch, done := toolScratch(r, "C39")
	defer done()
	env := func(url string) []string {
		return []string{"SETH_URL=" + url, "HOME=" + scratch, "PATH=/nonexistent"}
	}

	// ---- balances
	dec := func(s string) *big.Int { n, _ := new(big.Int).SetString(s, 10); return n }
	e18 := dec("1000000000000000000")
	bals := []*big.Int{
		new(big.Int), big.NewInt(1), big.NewInt(9), big.NewInt(10), big.NewInt(255), dec("99999999999999999"), dec("100000000000000000"),
		new(big.Int).Sub(e18, big.NewInt(1)), e18, new(big.Int).Add(e18, big.NewInt(1)), dec("1500000000000000000"), dec("10000000000000000000"),
		dec("18446744073709551615"), dec("18446744073709551616"), dec("120000000000000000000000001"), dec("123456789012345678901234567"),
		new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1)),
	}
	addrs := []string{"0x" + hex.EncodeToString(patBytes(20, 0xa1)), "0x" + hex.EncodeToString(patBytes(20, 0xb2)), "0x0000000000000000000000000000000000000000"}
	forms := [][]string{{}, {"-d"}, {"-x"}}
	readBal := func(form, line string) *big.Int {
		switch form {
		case "-d":
			n, ok := new(big.Int).SetString(line, 10)
			if !ok || n.String() != line {
				return nil
			}
			return n
		case "-x":
			return hexBig(line)
		}
		return decimalWei(line)
	}
	balanceOf := func(x *mc.X, addrs []string, form []string, who []int, val []*big.Int, failAt int, fail string) {
		args := append([]string{"balance"}, form...)
		for _, i := range who {
			args = append(args, addrs[i])
		}
		x.Step()
		n := 0
		t, url := node.talk(func(method string, p []interface{}) (string, string) {
			if method != "eth_getBalance" || len(p) == 0 {
				return "", "unexpected " + method
			}
			n++
			if n-1 == failAt {
				if fail == "error" {
					return "", "database closed"
				}
				return fail, ""
			}
			for i := range addrs {
				if p[0] == strings.ToLower(addrs[i]) {
					return fmt.Sprintf(`"0x%x"`, val[i]), ""
				}
			}
			return "", "who?"
		})
		res := tool("eth", env(url), nil, args...)
		node.done(url)
		c39Sane(x, args, res)
		ok := who
		if failAt < len(who) {
			ok = who[:failAt]
			if res.code == 0 {
				x.Failf("not-failed", "%q with the answer %d failing (%s): %v", args, failAt, fail, res)
			}
		} else if res.code != 0 {
			x.Failf("failed", "%q: %v", args, res)
		}
		for _, q := range t.asked {
			known := false
			for _, w := range who {
				known = known || q.Params[0] == strings.ToLower(addrs[w])
			}
			if !known || len(q.Params) != 2 || q.Params[1] != "latest" && q.Params[1] != "pending" {
				x.Failf("asked", "%q asked %v", args, t.asked)
			}
		}
		lines := strings.Split(strings.TrimSuffix(res.out, "\n"), "\n")
		if res.out == "" {
			lines = nil
		}
		if len(lines) != len(ok) {
			x.Failf("printed", "%q with %d answers: %v", args, len(ok), res)
		}
		f := ""
		if len(form) > 0 {
			f = form[0]
		}
		for i, l := range lines {
			if b := readBal(f, l); b == nil || b.Cmp(val[ok[i]]) != 0 {
				x.Failf("printed", "%q: the balance %v is printed as %q", args, val[ok[i]], l)
			}
		}
		x.Case(fmt.Sprint(args, val, failAt, fail))
		x.Validated()
	}
	balance := func(x *mc.X, form []string, who []int, val []*big.Int, failAt int, fail string) {
		balanceOf(x, addrs, form, who, val, failAt, fail)
	}
	r.Explore(mc.Opts{Name: "similar accounts", Bound: "two accounts that differ in one byte, at every place, in small and in capital digits, in every order with repetitions of two and three"}, func(x *mc.X) {
		b := patBytes(20, 0x9a)
		a0 := hex.EncodeToString(b)
		p := x.Choose(20)
		b[p] ^= byte([]int{1, 0x80}[x.Choose(2)])
		a1 := hex.EncodeToString(b)
		if x.Bool() {
			a1 = strings.ToUpper(a1)
		}
		var who []int
		for n := 2 + x.Choose(2); n > 0; n-- {
			who = append(who, x.Choose(2))
		}
		balanceOf(x, []string{"0x" + a0, "0x" + a1}, nil, who, []*big.Int{e18, big.NewInt(17)}, 9, "")
	})
	r.Explore(mc.Opts{Name: "balance", Bound: fmt.Sprintf("%d balances in every form, one account, and all pairs of one of them and another", len(bals))}, func(x *mc.X) {
		form := forms[x.Choose(3)]
		i := x.Choose(len(bals))
		if x.Bool() {
			balance(x, form, []int{0}, []*big.Int{bals[i], bals[0], bals[0]}, 9, "")
		} else {
			balance(x, form, []int{0, 1}, []*big.Int{bals[i], bals[(i*5+3)%len(bals)], bals[0]}, 9, "")
		}
	})
	fails := []string{"error", "null", `"0xzz"`, "{}", `"-0x1"`, `""`}
	r.Explore(mc.Opts{Name: "balances", Bound: "every sequence of up to three of three accounts; a failing answer of every kind at every place"}, func(x *mc.X) {
		var who []int
		for n := 1 + x.Choose(3); n > 0; n-- {
			who = append(who, x.Choose(3))
		}
		failAt := x.Choose(len(who) + 1)
		fail := ""
		if failAt < len(who) {
			fail = fails[x.Choose(r.N(3, len(fails)))]
		}
		balance(x, nil, who, []*big.Int{e18, big.NewInt(1), dec("1500000000000000000")}, failAt, fail)
	})
	badAddrs := []string{"", "0x", "0x12", addrs[0] + "0", addrs[0][:41], "0y" + addrs[0][2:], addrs[0][:41] + "g", "alice", addrs[0] + " ", addrs[0] + addrs[1][2:]}
	r.Explore(mc.Opts{Name: "refused accounts", Bound: "malformed addresses first, last or alone, by balance and code"}, func(x *mc.X) {
		bad := badAddrs[x.Choose(len(badAddrs))]
		args := [][]string{{"balance", bad}, {"balance", bad, addrs[0]}, {"balance", addrs[0], bad}, {"code", bad}}[x.Choose(4)]
		x.Step()
		t, url := node.talk(func(string, []interface{}) (string, string) { return `"0x1"`, "" })
		res := tool("eth", env(url), nil, args...)
		node.done(url)
		c39Sane(x, args, res)
		if res.code == 0 || res.out != "" || len(t.asked) > 0 {
			x.Failf("not-refused", "%q: %v, asked %v", args, res, t.asked)
		}
		x.Case(args...)
	})

	// ---- code
	codes := [][]byte{{}, {0}, {0x60, 0x80}, patBytes(31, 1), patBytes(32, 2), patBytes(300, 3), make([]byte, 40), patBytes(24576, 4)}
	r.Explore(mc.Opts{Name: "code", Bound: fmt.Sprintf("%d codes and %d failures, for two accounts", len(codes), len(fails))}, func(x *mc.X) {
		i := x.Choose(len(codes) + len(fails))
		a := addrs[x.Choose(2)]
		args := []string{"code", a}
		x.Step()
		t, url := node.talk(func(method string, p []interface{}) (string, string) {
			if method != "eth_getCode" || len(p) != 2 || p[0] != a {
				return "", "unexpected"
			}
			if i < len(codes) {
				return `"0x` + hex.EncodeToString(codes[i]) + `"`, ""
			}
			if f := fails[i-len(codes)]; f != "error" {
				return f, ""
			}
			return "", "database closed"
		})
		res := tool("eth", env(url), nil, args...)
		node.done(url)
		c39Sane(x, args, res)
		if len(t.asked) != 1 || t.asked[0].Params[0] != a {
			x.Failf("asked", "%q asked %v", args, t.asked)
		}
		if i < len(codes) {
			if res.code != 0 || res.out != hex.EncodeToString(codes[i])+"\n" {
				x.Failf("printed", "%q of %x: %v", args, codes[i], res)
			}
		} else if fails[i-len(codes)] != `""` && (res.code == 0 || res.out != "") {
			// the empty string is empty data to some nodes
			x.Failf("not-failed", "%q answered %s: %v", args, fails[i-len(codes)], res)
		}
		x.Case(fmt.Sprint(i), a)
		x.Validated()
	})

	// ---- blocks
	block := func(x *mc.X, c c39Chain, specs []string, want []int64, bad bool) {
		args := append([]string{"block"}, specs...)
		x.Step()
		t, url := node.talk(c.answer)
		res := tool("eth", env(url), nil, args...)
		node.done(url)
		c39Sane(x, args, res)
		where := fmt.Sprintf("%q with blocks up to %d", args, c.latest)
		if c.fail != "" {
			where += fmt.Sprintf(" and block %d failing (%s)", c.failAt, c.fail)
		}
		if bad && res.code == 0 {
			x.Failf("not-failed", "%s: exits with 0; it asked for %v, printed %.200q", where, t.asked, res.out)
		}
		if !bad && res.code != 0 {
			x.Failf("failed", "%s: %v", where, res)
		}
		d := json.NewDecoder(strings.NewReader(res.out))
		var got []map[string]interface{}
		for d.More() {
			var m map[string]interface{}
			if err := d.Decode(&m); err != nil {
				x.Failf("printed", "%s: printed %.300q: %v", where, res.out, err)
			}
			got = append(got, m)
		}
		if len(got) != len(want) {
			var nums []interface{}
			for _, m := range got {
				nums = append(nums, m["number"])
			}
			x.Failf("printed", "%s: printed the blocks %v, want %v; %v", where, nums, want, t.asked)
		}
		for i, m := range got {
			if s := sameDoc("", m, c.doc(want[i], true)); s != "" {
				x.Failf("printed", "%s: block %d of the output: %s", where, i, s)
			}
		}
		x.Case(fmt.Sprint(specs, c))
		x.Validated()
	}
	// wantOf says which blocks a specification stands for; bad if they are
	// not all there.
	wantOf := func(c c39Chain, spec string) (want []int64, bad bool) {
		single := func(s string) (int64, bool) {
			switch s {
			case "latest":
				return c.latest, true
			case "pending":
				return c.latest + 1, true
			case "earliest":
				return 0, true
			}
			n, ok := new(big.Int).SetString(s, 0)
			if !ok || s == "" || strings.ContainsAny(s, "_+-") || !n.IsInt64() {
				return 0, false
			}
			return n.Int64(), true
		}
		have := func(n int64, named bool) bool {
			return n >= 0 && (n <= c.latest || named && n == c.latest+1) && !(c.fail != "" && n == c.failAt)
		}
		i := strings.IndexAny(spec, "+-")
		if i < 0 {
			n, ok := single(spec)
			if !ok || !have(n, spec == "pending") {
				return nil, true
			}
			return []int64{n}, false
		}
		start, ok := single(spec[:i])
		count, ok2 := single(spec[i+1:])
		if !ok || !ok2 || strings.Trim(spec[i+1:], "0123456789xabcdef") != "" {
			return nil, true
		}
		named := spec[:i] == "pending" || spec[:i] == "latest"
		if named {
			if c.fail != "" && c.failAt == start {
				return nil, true
			}
			if c.noPending && spec[:i] == "pending" {
				return nil, true // the node does not say which one it is
			}
		}
		for k := int64(0); k < count; k++ {
			n := start + k
			if spec[i] == '-' {
				n = start - k
			}
			if !have(n, false) {
				return want, true
			}
			want = append(want, n)
		}
		return want, false
	}
	starts := []string{"earliest", "latest", "pending", "0", "1", "3", "7", "0x5", "0x7", "8", "9", "100", "9223372036854775807"}
	var singles []string
	singles = append(singles, starts...)
	singles = append(singles, "0X5", "9223372036854775808", "0x8000000000000000", "x", "1.5", "Latest", "latest ", "0x", "0xg", " 1", "1 ", "finalized")
	var ranges []string
	for _, s := range starts {
		for _, op := range []string{"+", "-"} {
			for _, n := range []string{"0", "1", "2", "3", "5", "9", "0x2"} {
				ranges = append(ranges, s+op+n)
			}
		}
	}
	ranges = append(ranges, "1+", "+1", "1+x", "x+1", "1+-2", "3-+2", "1++2", "3--2", "1+2+3", "3-1-1", "1-", "3-2+1", "2+9223372036854775808", "latest+latest", "3+latest", "3-1.5")
	chains := []c39Chain{{latest: 7}, {latest: 7, noPending: true}}
	if r.Thorough {
		chains = append(chains, c39Chain{latest: 0}, c39Chain{latest: 0, noPending: true}, c39Chain{latest: 8})
	}
	r.Explore(mc.Opts{Name: "block", Bound: fmt.Sprintf("%d chains x %d specifications, and none at all", len(chains), len(singles))}, func(x *mc.X) {
		c := chains[x.Choose(len(chains))]
		i := x.Choose(len(singles) + 1)
		if i == len(singles) {
			block(x, c, nil, []int64{c.latest + 1}, false) // the pending block is the default
			return
		}
		want, bad := wantOf(c, singles[i])
		if strings.HasPrefix(singles[i], "0X") {
			x.Outcome("lenient") // either spelling may be accepted
			return
		}
		block(x, c, singles[i:i+1], want, bad)
	})
	r.Explore(mc.Opts{Name: "block ranges", Bound: fmt.Sprintf("%d chains x %d ranges: every start, direction and length, within, across and beyond either end", len(chains), len(ranges))}, func(x *mc.X) {
		c := chains[x.Choose(len(chains))]
		spec := ranges[x.Choose(len(ranges))]
		want, bad := wantOf(c, spec)
		block(x, c, []string{spec}, want, bad)
	})
	seqs := []string{"2", "latest", "pending", "3+2", "3-2", "1-3", "9", "bad"}
	r.Explore(mc.Opts{Name: "block failures", Bound: "every pair of specifications of a table x every block failing in every way"}, func(x *mc.X) {
		c := c39Chain{latest: 7}
		specs := []string{seqs[x.Choose(len(seqs))], seqs[x.Choose(len(seqs))]}
		if f := x.Choose(4); f > 0 {
			c.fail = []string{"error", "null", "garbage"}[f-1]
			c.failAt = []int64{2, 3, 4, 7, 8}[x.Choose(5)]
		}
		want, bad := wantOf(c, specs[0])
		if !bad {
			var w2 []int64
			w2, bad = wantOf(c, specs[1])
			want = append(want, w2...)
		}
		block(x, c, specs, want, bad)
	})

	// ---- posting
	type input struct {
		text string
		raw  []byte // nil: has to be refused
	}
	inputs := []input{{text: "f86c"}, {text: "00\n"}, {text: "F8aB\n"}, {text: strings.Repeat("5a", 5000)}, {text: strings.Repeat("a5", 70000) + "\n"}}
	for i := range inputs {
		inputs[i].raw, _ = hex.DecodeString(strings.TrimSpace(inputs[i].text))
	}
	for _, s := range []string{"", "\n", "f", "f86", "f8 6c", "zz", "f86c\nf86c\n", "f86g\n", "f86"} {
		inputs = append(inputs, input{text: s})
	}
	var fileMu sync.Mutex
	fileNo := 0
	file := func(s string) string {
		fileMu.Lock()
		fileNo++
		p := filepath.Join(scratch, fmt.Sprintf("in%d", fileNo))
		fileMu.Unlock()
		os.WriteFile(p, []byte(s), 0644)
		return p
	}
	post := func(x *mc.X, ins []input, stdin int, failAt int, fail string) {
		args := []string{"post"}
		var names []string
		var in []byte
		bad := false
		for i, q := range ins {
			if i == stdin {
				args = append(args, "-")
				in = []byte(q.text)
			} else {
				p := file(q.text)
				defer os.Remove(p)
				args = append(args, p)
			}
			if q.raw == nil {
				bad = true
			}
			names = append(names, fmt.Sprintf("%.20q", q.text))
		}
		x.Step()
		n := 0
		hash := func(i int) string { return "0x" + hex.EncodeToString(patBytes(32, byte(0x60+i))) }
		t, url := node.talk(func(method string, p []interface{}) (string, string) {
			if method != "eth_sendRawTransaction" {
				return "", "unexpected"
			}
			n++
			if n-1 == failAt {
				if fail == "error" {
					return "", "nonce too low"
				}
				return fail, ""
			}
			return `"` + hash(n-1) + `"`, ""
		})
		res := tool("eth", env(url), in, args...)
		node.done(url)
		c39Sane(x, args, res)
		where := fmt.Sprintf("post of %v, stdin %d, answer %d %s", names, stdin, failAt, fail)
		if bad {
			if res.code == 0 || len(t.asked) > 0 || res.out != "" {
				x.Failf("not-refused", "%s: %v, sent %v", where, res, t.asked)
			}
			x.Case(where)
			return
		}
		sent := len(ins)
		out := ""
		if failAt < len(ins) {
			sent = failAt + 1
			if res.code == 0 {
				x.Failf("not-failed", "%s: %v", where, res)
			}
		} else if res.code != 0 {
			x.Failf("failed", "%s: %v", where, res)
		}
		for i := 0; i < len(ins) && i < failAt; i++ {
			out += hash(i) + "\n"
		}
		if len(t.asked) != sent {
			x.Failf("sent", "%s: %d sent, want %d", where, len(t.asked), sent)
		}
		for i, q := range t.asked {
			if len(q.Params) != 1 || q.Params[0] != "0x"+hex.EncodeToString(ins[i].raw) {
				x.Failf("sent", "%s: transaction %d sent as %.100v", where, i, q.Params)
			}
		}
		if res.out != out {
			x.Failf("printed", "%s: %v, want %q", where, res, out)
		}
		x.Case(where)
		x.Validated()
	}
	r.Explore(mc.Opts{Name: "post", Bound: fmt.Sprintf("%d inputs from a file and from standard input; every answer failing in every way", len(inputs))}, func(x *mc.X) {
		in := inputs[x.Choose(len(inputs))]
		failAt, fail := x.Choose(2), ""
		if failAt == 0 {
			fail = []string{"error", "null", `"0x12"`, "7"}[x.Choose(4)]
		}
		post(x, []input{in}, x.Choose(2)-1, failAt, fail)
	})
	r.Explore(mc.Opts{Name: "posts", Bound: "every pair and triple of a good and two bad inputs, any of them from standard input, every answer failing"}, func(x *mc.X) {
		var ins []input
		for n := 2 + x.Choose(2); n > 0; n-- {
			ins = append(ins, inputs[[]int{0, 2, 5, 7}[x.Choose(4)]])
		}
		failAt := x.Choose(len(ins) + 1)
		fail := "error"
		post(x, ins, x.Choose(len(ins)+1)-1, failAt, fail)
	})
	r.Explore(mc.Opts{Name: "post no file", Bound: "a file that is not there, alone and after one that is"}, func(x *mc.X) {
		p := file("f86c")
		defer os.Remove(p)
		args := [][]string{{"post", "/nonexistent/x"}, {"post", p, "/nonexistent/x"}, {"post", scratch}, {"post"}}[x.Choose(4)]
		x.Step()
		t, url := node.talk(func(string, []interface{}) (string, string) { return "null", "" })
		res := tool("eth", env(url), nil, args...)
		node.done(url)
		c39Sane(x, args, res)
		if res.code == 0 || len(t.asked) > 0 {
			x.Failf("not-refused", "%q: %v", args, res)
		}
		x.Case(args[len(args)-1])
	})

	// ---- recovering signers
	n256 := ecN
	half := new(big.Int).Rsh(n256, 1)
	ds := []*big.Int{big.NewInt(1), big.NewInt(77), new(big.Int).Sub(n256, big.NewInt(1))}
	msgs := [][]byte{{}, []byte("x"), []byte("a message\n"), patBytes(200, 9), patBytes(70001, 9)}
	r.Explore(mc.Opts{Name: "recover", Bound: "3 keys x 5 messages, by message and by hash, both outputs, every spelling; the signature untouched, with another hash, v flipped or out of range, s high, r or s zero, cut short, too long, not hex"}, func(x *mc.X) {
		d, m := ds[x.Choose(3)], msgs[x.Choose(5)]
		byHash, pub := x.Bool(), x.Bool()
		kind := x.Choose(11)
		h := refKeccak(m)
		rr, ss, v := refSign(d, h)
		sig := append(append(be32(rr), be32(ss)...), byte(v))
		given := append([]byte(nil), h...)
		switch kind {
		case 1:
			given[31] ^= 1
			m = append(append([]byte(nil), m...), '!')
			if !byHash {
				given = refKeccak(m)
			}
		case 2:
			sig[64] ^= 1
		case 3:
			sig[64] = 2
		case 4:
			sig = append(append(be32(rr), be32(new(big.Int).Sub(n256, ss))...), byte(v^1))
		case 5:
			sig = append(append(be32(new(big.Int)), be32(ss)...), byte(v))
		case 6:
			sig = append(append(be32(rr), be32(new(big.Int))...), byte(v))
		case 7:
			sig = sig[:64]
		case 8:
			sig = append(sig, 0)
		case 9:
			sig = append(append(be32(n256), be32(ss)...), byte(v))
		}
		text := hex.EncodeToString(sig)
		if kind == 10 {
			text = text[:10] + "g" + text[11:]
		}
		text = "0x" + text
		args := []string{"recover"}
		if pub {
			args = append(args, "-pub")
		}
		args = append(args, text)
		if byHash {
			args = append(args, "0x"+hex.EncodeToString(given))
		}
		x.Step()
		res := tool("eth", []string{"HOME=" + scratch, "PATH=/nonexistent"}, m, args...)
		c39Sane(x, args, res)
		var want []byte
		if len(sig) == 65 && kind != 10 {
			r0, s0 := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])
			if r0.Sign() > 0 && s0.Sign() > 0 && r0.Cmp(n256) < 0 && s0.Cmp(half) <= 0 && sig[64] <= 1 {
				want = refRecover(r0, s0, int(sig[64]), given)
			}
		}
		where := fmt.Sprintf("%q of %.20q", args, m)
		if want == nil {
			if res.code == 0 || res.out != "" {
				x.Failf("not-refused", "%s: %v", where, res)
			}
			x.Outcome("refused")
		} else {
			line := "0x" + hex.EncodeToString(refKeccak(want)[12:]) + "\n"
			if pub {
				line = "0x" + hex.EncodeToString(want) + "\n"
			}
			if res.code != 0 || !strings.EqualFold(res.out, line) {
				x.Failf("printed", "%s: %v, want %q", where, res, line)
			}
			x.Outcome("recovered")
		}
		x.Case(where)
		x.Validated()
	})

	// ---- keys: generated, listed, used
	r.Explore(mc.Opts{Name: "keygen", Bound: "keys generated to a new file, over an old one and to standard output, with and without a name; listed, decrypted by an independent reader, and used to sign"}, func(x *mc.X) {
		toFile, named, old := x.Bool(), x.Bool(), false
		dir, err := os.MkdirTemp(scratch, "kg")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		args := []string{"keygen"}
		p := filepath.Join(dir, "key")
		if toFile {
			args = append(args, "-o", p)
			if old = x.Bool(); old {
				os.WriteFile(p, []byte(strings.Repeat("{\"id\": \"an old key file\"}\n", 100)), 0600)
			}
		}
		if named {
			args = append(args, "my key")
		}
		x.Step()
		ev := []string{"HOME=" + dir, "KEY_PATH=" + dir, "PATH=/nonexistent"}
		res := toolPass("eth", ev, "pässword", args...)
		c39Sane(x, args, res)
		if old && res.code != 0 {
			// it may be kept, as it was
			if b, _ := os.ReadFile(p); !strings.HasPrefix(string(b), "{\"id\": \"an old") {
				x.Failf("failed", "%q: %v, and the old file is gone", args, res)
			}
			return
		}
		if res.code != 0 {
			x.Failf("failed", "%q: %v", args, res)
		}
		if !toFile {
			os.WriteFile(p, []byte(res.out), 0600)
		} else if res.out != "" {
			x.Failf("printed", "%q: %v", args, res)
		}
		buf, _ := os.ReadFile(p)
		var kf struct {
			Name, ID string
			Crypto   struct {
				Cipher, Ciphertext, KDF, MAC string
				CipherParams                 struct{ IV string }
				KDFParams                    struct {
					DkLen, N, R, P int
					Salt           string
				}
			}
		}
		if err := json.Unmarshal(buf, &kf); err != nil {
			x.Failf("keyfile", "%q wrote %q: %v", args, buf, err)
		}
		if named && kf.Name != "my key" || !named && kf.Name != "" {
			x.Failf("keyfile", "%q: the name is %q", args, kf.Name)
		}
		kc := kf.Crypto
		dec := kfile{cipher: kc.Cipher, ct: kc.Ciphertext, iv: kc.CipherParams.IV, kdf: kc.KDF, mac: kc.MAC, salt: kc.KDFParams.Salt, dklen: kc.KDFParams.DkLen, n: kc.KDFParams.N, r: kc.KDFParams.R, p: kc.KDFParams.P, pass: "pässword"}
		priv, err := dec.open()
		if err != nil || len(priv) != 32 {
			x.Failf("keyfile", "%q wrote a key file that cannot be decrypted (%v): %s", args, err, buf)
		}
		d := new(big.Int).SetBytes(priv)
		if d.Sign() == 0 || d.Cmp(ecN) >= 0 {
			x.Failf("keyfile", "%x is no private key", priv)
		}
		addr := "0x" + hex.EncodeToString(refAddress(d))
		ks := tool("eth", ev, nil, "keys")
		label := kf.ID
		if named {
			label = "my key"
		}
		if ks.code != 0 || !strings.Contains(ks.out, label) || strings.Count(ks.out, "\n") != 1 {
			x.Failf("keys", "the key %s of %s is listed as %v", label, addr, ks)
		}
		msg := file("to be signed")
		defer os.Remove(msg)
		// only the right passphrase opens it, and then it is the address's key
		for _, pass := range []string{"pässword", "passw"} {
			s := toolPass("eth", append(ev, "ETHER_ADDR=^"+label+"$"), pass, "sign", "-x", msg)
			if pass != "pässword" {
				if s.code == 0 || s.out != "" {
					x.Failf("keyfile", "signs with a wrong passphrase: %v", s)
				}
				continue
			}
			b, err := hex.DecodeString(strings.TrimSpace(s.out))
			if s.code != 0 || err != nil || len(b) != 65 {
				x.Failf("keyfile", "cannot sign with the key generated: %v", s)
			}
			pub := refRecover(new(big.Int).SetBytes(b[:32]), new(big.Int).SetBytes(b[32:64]), int(b[64]), refKeccak([]byte("to be signed")))
			if pub == nil || "0x"+hex.EncodeToString(refKeccak(pub)[12:]) != addr {
				x.Failf("keyfile", "the key generated for %s signs as another", addr)
			}
		}
		x.Case(args...)
		x.Validated()
	})

	// ---- which node is asked
	r.Explore(mc.Opts{Name: "endpoint", Bound: "SETH_URL unset, empty, an HTTP address, a socket, a relative socket, a file that is no socket, or nothing that exists; a local node in the home directory, or none"}, func(x *mc.X) {
		kind := x.Choose(10)
		local := x.Bool()
		home, err := os.MkdirTemp(scratch, "h")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(home)
		os.Mkdir(filepath.Join(home, ".ethereum"), 0755)
		serve := func(path string, bal string) func() {
			l, err := net.Listen("unix", path)
			if err != nil {
				panic(err)
			}
			go func() {
				for {
					c, err := l.Accept()
					if err != nil {
						return
					}
					go func() {
						defer c.Close()
						d := json.NewDecoder(c)
						for {
							var q struct {
								ID json.RawMessage `json:"id"`
							}
							if d.Decode(&q) != nil {
								return
							}
							fmt.Fprintf(c, `{"jsonrpc":"2.0","id":%s,"result":%q}`, q.ID, bal)
						}
					}()
				}
			}()
			return func() { l.Close() }
		}
		if local {
			defer serve(filepath.Join(home, ".ethereum", "geth.ipc"), "0x1")()
		}
		sock := filepath.Join(home, "s")
		defer serve(sock, "0x2")()
		_, url := node.talk(func(string, []interface{}) (string, string) { return `"0x3"`, "" })
		defer node.done(url)
		ev := []string{"HOME=" + home, "PATH=/nonexistent"}
		want := ""
		loc := ""
		if local {
			loc = "0x1\n"
		}
		switch kind {
		case 0:
			want = loc
		case 1:
			ev = append(ev, "SETH_URL=")
			want = loc
		case 2:
			ev = append(ev, "SETH_URL="+url)
			want = "0x3\n"
		case 3:
			ev = append(ev, "SETH_URL="+sock)
			want = "0x2\n"
		case 4:
			ev = append(ev, "SETH_URL="+home)
		case 5:
			p := filepath.Join(home, "plain")
			os.WriteFile(p, []byte("x"), 0644)
			ev = append(ev, "SETH_URL="+p)
		case 6:
			ev = append(ev, "SETH_URL="+filepath.Join(home, "none"))
		case 7:
			ev = append(ev, "SETH_URL=http://127.0.0.1:1/")
		case 8, 9:
			// what is in front of the host is not the host
			who := []string{"user:pw", "mainnet.infura.io"}[kind-8]
			ev = append(ev, "SETH_URL="+strings.Replace(url, "http://", "http://"+who+"@", 1))
			want = "0x3\n"
		}
		x.Step()
		res := tool("eth", ev, nil, "balance", "-x", addrs[0])
		c39Sane(x, ev, res)
		if want == "" && (res.code == 0 || res.out != "") || want != "" && (res.code != 0 || res.out != want) {
			x.Failf("endpoint", "%q, a local node: %v: %v, want %q", ev, local, res, want)
		}
		x.Case(fmt.Sprint(kind, local))
	})

	// ---- the command line itself
	goodHash := "0x" + hex.EncodeToString(refKeccak([]byte("x")))
	gr, gs, gv := refSign(big.NewInt(77), refKeccak([]byte("x")))
	goodSig := "0x" + hex.EncodeToString(append(append(be32(gr), be32(gs)...), byte(gv)))
	r.Explore(mc.Opts{Name: "usage", Bound: "every command without arguments, with too many, with an unknown flag; no command, an unknown one"}, func(x *mc.X) {
		lines := [][]string{{}, {"help"}, {"nosuch"}, {"balance"}, {"code"}, {"code", addrs[0], addrs[1]}, {"post"}, {"recover"}, {"recover", "a", "b", "c"}, {"recover", goodSig, goodHash, "x"}, {"recover", goodSig, goodHash, goodHash}, {"recover", goodSig, ""}, {"keys", "x"}, {"sign"}, {"sign", "a", "b"}, {"read"}, {"read", addrs[0]}, {"call"}, {"call", addrs[0]}, {"jumptab"}, {"keygen", "a", "b"},
			{"balance", "-nosuch"}, {"block", "-nosuch"}, {"code", "-nosuch"}, {"call", "-nosuch"}, {"read", "-nosuch"}, {"post", "-nosuch"}, {"sign", "-nosuch"}, {"keys", "-nosuch"}, {"keygen", "-nosuch"}, {"recover", "-nosuch"}, {"jumptab", "-nosuch"}}
		args := lines[x.Choose(len(lines))]
		x.Step()
		t, url := node.talk(func(string, []interface{}) (string, string) { return "null", "" })
		res := tool("eth", env(url), nil, args...)
		node.done(url)
		c39Sane(x, args, res)
		if res.code == 0 || len(t.asked) > 0 || res.err == "" && res.out == "" {
			x.Failf("not-refused", "%q: %v, asked %v", args, res, t.asked)
		}
		x.Case(args...)
	})
}
