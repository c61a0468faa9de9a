package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"

	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{
		ID:    "C37",
		Level: "exploration",
		Rule:  "every supported preamble x every short sequence of table entries of every form and jump width x every kind of ending, every truncation and every corruption of bytes of such code, and short arbitrary code, run as the real program; a case is a distinct bytecode, non-trivial if it has a preamble",
		Notes: []string{"where several preambles can be seen in the code the one that begins first, and is longest, counts"},
		Run:   runC37,
	})
}

// the supported preambles, from the description of the tool
var c37Pre = []string{
	"6000357c0100000000000000000000000000000000000000000000000000000000900463ffffffff16",
	"63ffffffff6000357c0100000000000000000000000000000000000000000000000000000000900416",
	"63ffffffff7c01000000000000000000000000000000000000000000000000000000006000350416",
	"6000357c01000000000000000000000000000000000000000000000000000000009004",
	"63ffffffff60e060020a6000350416",
	"60e060020a60003504",
}

type c37Entry struct {
	sel  [4]byte
	dest uint64
}

// refJumptab reads the table; ok is false if there is no preamble.
func refJumptab(code []byte) (out []c37Entry, ok bool) {
	start, end := -1, -1
	for _, p := range c37Pre {
		b, _ := hex.DecodeString(p)
		if i := bytes.Index(code, b); i >= 0 && (start < 0 || i < start || i == start && i+len(b) > end) {
			start, end = i, i+len(b)
		}
	}
	if start < 0 {
		return nil, false
	}
	rest := code[end:]
	at := func(i int) int {
		if i < len(rest) {
			return int(rest[i])
		}
		return -1
	}
	for {
		var e c37Entry
		switch {
		case at(0) == 0x63 && at(5) == 0x81 && at(6) == 0x14:
			copy(e.sel[:], rest[1:5])
		case at(0) == 0x80 && at(1) == 0x63 && at(6) == 0x14:
			copy(e.sel[:], rest[2:6])
		default:
			return out, true
		}
		w := at(7) - 0x5f
		if w < 1 || w > 4 || at(8+w) != 0x57 {
			return out, true
		}
		for i := 0; i < w; i++ {
			e.dest = e.dest<<8 | uint64(rest[8+i])
		}
		out = append(out, e)
		rest = rest[9+w:]
	}
}

func c37Line(form, width int, sel []byte, dest uint64) []byte {
	var b []byte
	if form == 0 {
		b = append(append([]byte{0x63}, sel...), 0x81, 0x14)
	} else {
		b = append(append([]byte{0x80, 0x63}, sel...), 0x14)
	}
	b = append(b, byte(0x5f+width))
	for i := width - 1; i >= 0; i-- {
		b = append(b, byte(dest>>(8*i)))
	}
	return append(b, 0x57)
}

func c37Check(x *mc.X, code []byte, newline bool) {
	in := hex.EncodeToString(code)
	if newline {
		in += "\n"
	}
	t := tool("eth", []string{"HOME=/nonexistent", "PATH=/nonexistent"}, []byte(in), "jumptab", "-")
	x.Step()
	if t.crashed() || t.code == -1 || t.code == 2 {
		x.Failf("crash", "%s: %v", in, t)
	}
	c37Judge(x, in, code, t)
}

func c37Judge(x *mc.X, in string, code []byte, t toolRun) {
	want, ok := refJumptab(code)
	if !ok {
		if t.code == 0 || t.out != "" {
			x.Failf("invented", "%s has no preamble: %v", in, t)
		}
		x.Outcome("no preamble")
		return
	}
	lines := strings.Split(strings.TrimSuffix(t.out, "\n"), "\n")
	if t.out == "" {
		lines = nil
	}
	bad := t.code != 0 || len(lines) != len(want)
	for i := range lines {
		if bad {
			break
		}
		var sel, name string
		var pc uint64
		n, _ := fmt.Sscanf(strings.Replace(lines[i], "pc:", "pc: ", 1), "%s pc: %d %s", &sel, &pc, &name)
		bad = n < 2 || sel != hex.EncodeToString(want[i].sel[:]) || pc != want[i].dest || name != "" && !bytes.Equal(selector(name), want[i].sel[:])
	}
	if bad {
		x.Failf("wrong-table", "%s: want %x, got %v", in, want, t)
	}
	x.Outcome(fmt.Sprintf("%d entries", len(want)))
	x.Case(string(code))
	x.Validated()
}

func runC37(r *mc.R) {
	var pre [][]byte
	for _, p := range c37Pre {
		b, err := hex.DecodeString(p)
		if err != nil {
			panic(err)
		}
		pre = append(pre, b)
	}
	sels := [][]byte{selector("transfer(address,uint256)"), {0, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff}, {0x63, 0x80, 0x14, 0x57}, selector("name()")}
	dest := func(i, w int) uint64 {
		d := []uint64{0x1, 0xfffefdfc, 0x57575757, 0x00000100, 0x80631481}[i%5]
		return d & (1<<(8*uint(w)) - 1)
	}
	ends := [][]byte{{}, {0}, {0x5b, 0x60, 0, 0x80, 0xfd}, c37Line(0, 5, sels[0], 77), c37Line(1, 0, sels[0], 77), append([]byte{0x5b}, c37Line(1, 2, sels[0], 77)...), c37Line(0, 2, sels[0], 77)[:10], c37Line(1, 4, sels[0], 77)[:12], {0x80, 0x63}, {0x63},
		append(c37Line(0, 2, sels[0], 77)[:10:10], 0x56), {0x80, 0x63, 1, 2, 3, 4, 0x11, 0x61, 0, 1, 0x57, 0, 0, 0, 0}}
	before := [][]byte{{}, {0x60, 0x80, 0x60, 0x40, 0x52}, {0x60, 0x00, 0x35, 0x63, 0xff, 0xff, 0xff, 0xff}}
	table := func(x *mc.X, n int) []byte {
		var code []byte
		for i := 0; i < n; i++ {
			form, width := x.Choose(2), 1+x.Choose(4)
			code = append(code, c37Line(form, width, sels[(i+form)%5], dest(i+width, width))...)
		}
		return code
	}
	for n := 0; n <= r.N(2, 3); n++ {
		n := n
		r.Explore(mc.Opts{Name: fmt.Sprintf("tables-%d", n), Bound: fmt.Sprintf("%d preambles x %d entries of 2 forms and 4 jump widths x %d endings x %d codes in front", len(pre), n, len(ends), len(before))}, func(x *mc.X) {
			code := append([]byte(nil), before[0]...)
			p := x.Choose(len(pre))
			b := 0
			if n == 1 {
				b = x.Choose(len(before))
			}
			e := x.Choose(len(ends))
			if n == 3 {
				if p != x.Choose(2) || e > 4 {
					x.Prune()
				}
			}
			code = append(append(code, before[b]...), pre[p]...)
			code = append(code, table(x, n)...)
			code = append(code, ends[e]...)
			// NOTE: an ending never holds a second preamble: whether that one or the first counts is not settled
			c37Check(x, code, x.R.N(0, 1) == 1 && e == 0)
		})
	}
	r.Explore(mc.Opts{Name: "selectors", Bound: "one to eight entries with selectors and destinations over boundary bytes, both forms"}, func(x *mc.X) {
		p := x.Choose(len(pre))
		n := 1 + x.Choose(8)
		form := x.Choose(3)
		rot := x.Choose(5)
		code := append([]byte(nil), pre[p]...)
		for i := 0; i < n; i++ {
			f := form
			if f == 2 {
				f = i % 2
			}
			w := 1 + (i+rot)%4
			code = append(code, c37Line(f, w, sels[(i+rot)%5], dest(i*rot+1, w))...)
		}
		c37Check(x, append(code, 0x5b, 0, 0, 0, 0, 0), true)
	})
	sample := func(p, kind int) []byte {
		code := append([]byte{0x60, 0x40}, pre[p]...)
		code = append(code, c37Line(kind&1, 2, sels[0], 0x145)...)
		code = append(code, c37Line(1-kind&1, 1+kind>>1*3, sels[4], 0x57)...)
		return append(code, 0x5b, 0x60, 0, 0x80, 0xfd)
	}
	r.Explore(mc.Opts{Name: "long tables", Bound: "tables of 15 to 300 entries, all different or with one selector again, each preamble"}, func(x *mc.X) {
		p := x.Choose(len(pre))
		n := []int{15, 16, 17, 32, 63, 64, 65, 100, 128, 256, 257, 300}[x.Choose(12)]
		again := x.Bool()
		code := append([]byte(nil), pre[p]...)
		for i := 0; i < n; i++ {
			sel := []byte{byte(i >> 8), 0x81, byte(i), 0x14}
			if again && i == n-1 {
				sel = []byte{0, 0x81, 0, 0x14}
			}
			code = append(code, c37Line(i%2, 2, sel, uint64(0x100+i))...)
		}
		c37Check(x, append(code, 0x5b), false)
	})
	r.Explore(mc.Opts{Name: "input", Bound: "code given on standard input that is no hexadecimal: odd, with another character at each place, empty, with more than one line"}, func(x *mc.X) {
		good := hex.EncodeToString(sample(x.Choose(len(pre)), 0))
		in := ""
		switch k := x.Choose(12); k {
		case 0:
			in = good[:len(good)-1]
		case 1:
			in = good + "6"
		case 2:
			in = ""
		case 3:
			in = "\n"
		case 4:
			in = good + "\n" + good
		case 5:
			in = good + "\n60"
		default:
			at := []int{0, 1, len(good) / 2, len(good) - 30, len(good) - 2, len(good) - 1}[k-6]
			in = good[:at] + "g" + good[at+1:]
		}
		if x.Bool() {
			in += "\n"
			if in == "\n\n" {
				x.Prune()
			}
		}
		t := tool("eth", []string{"HOME=/nonexistent", "PATH=/nonexistent"}, []byte(in), "jumptab", "-")
		x.Step()
		if t.crashed() || t.code == 0 || t.out != "" {
			x.Failf("invented", "%q: %v", in, t)
		}
		x.Outcome("refused")
		x.Case(in)
		x.Validated()
	})
	node := newToolNode()
	defer node.close()
	r.Explore(mc.Opts{Name: "from the chain", Bound: "the code is fetched from a node: each preamble, no code, an error"}, func(x *mc.X) {
		p := x.Choose(len(pre) + 2)
		var code []byte
		if p < len(pre) {
			code = sample(p, 0)
		}
		addr := "0x" + hex.EncodeToString(patBytes(20, 3))
		asked := ""
		_, url := node.talk(func(m string, ps []interface{}) (string, string) {
			asked += fmt.Sprint(m, ps[:1])
			if p > len(pre) {
				return "", "broken"
			}
			return `"0x` + hex.EncodeToString(code) + `"`, ""
		})
		defer node.done(url)
		t := tool("eth", []string{"SETH_URL=" + url, "HOME=/nonexistent", "PATH=/nonexistent"}, nil, "jumptab", addr)
		x.Step()
		if t.crashed() {
			x.Failf("crash", "%x: %v", code, t)
		}
		if p >= len(pre) {
			if t.code == 0 || t.out != "" {
				x.Failf("failure-lost", "%v", t)
			}
			return
		}
		if asked != "eth_getCode["+addr+"]" {
			x.Failf("asked", "the node was asked %s", asked)
		}
		c37Judge(x, hex.EncodeToString(code), code, t)
	})
	r.Explore(mc.Opts{Name: "truncations", Bound: "every prefix of sample codes for each preamble, 4 samples each"}, func(x *mc.X) {
		c := sample(x.Choose(len(pre)), x.Choose(r.N(2, 4)))
		n := x.Choose(len(c) + 1)
		if n == 0 {
			x.Prune()
		}
		c37Check(x, c[:n], false)
	})
	r.Explore(mc.Opts{Name: "corruptions", Bound: "every byte after the start of the sample codes xor each of 1,2,4,..,128 and set to every opcode near PUSH"}, func(x *mc.X) {
		p := x.Choose(len(pre))
		c := sample(p, x.Choose(r.N(2, 4)))
		at := x.Choose(len(c))
		k := x.Choose(16)
		if k < 8 {
			if !r.Thorough && (k+at)%2 == 0 {
				x.Prune()
			}
			c[at] ^= 1 << k
		} else {
			if at < len(pre[p])+2 && !r.Thorough {
				x.Prune() // inside the preamble one change is like another
			}
			c[at] = []byte{0x00, 0x5f, 0x60, 0x63, 0x64, 0x7f, 0x80, 0xff}[k-8]
		}
		c37Check(x, c, false)
	})
	frag := [][]byte{{0x63}, {0x80}, {0x81}, {0x14}, {0x57}, {0x61}, {0x00, 0x10}, {1, 2, 3, 4}, {0x5b}}
	r.Explore(mc.Opts{Name: "fragments", Bound: fmt.Sprintf("a preamble, then every sequence of up to %d of %d fragments of entries", r.N(3, 4), len(frag))}, func(x *mc.X) {
		code := append([]byte(nil), pre[3]...)
		n := x.Choose(r.N(3, 4) + 1)
		for i := 0; i < n; i++ {
			code = append(code, frag[x.Choose(len(frag))]...)
		}
		c37Check(x, code, false)
	})
}
