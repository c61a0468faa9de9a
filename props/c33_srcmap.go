package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/philhofer/seth"
	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{
		ID:    "C33",
		Level: "exploration",
		Rule:  "every short bytecode over the opcode classes crossed with every short source map over a field alphabet, every program counter from before the code to after it; a case is non-trivial if at least one program counter resolves to source text",
		Notes: []string{"a map whose first entry leaves fields out has nothing to inherit from, and a range outside the file has no text: there only the absence of a panic is checked"},
		Run:   runC33,
	})
}

// srcWant says what SourceOf has to report; any means nothing is specified.
type srcWant struct {
	text string
	any  bool
}

// refSourceOf resolves a program counter by reading the definition of the
// compressed source map literally.
func refSourceOf(sources []string, code []byte, smap string, pc int) srcWant {
	// which instruction holds the byte
	n, at := -1, 0
	for i := 0; at < len(code); i++ {
		w := 1
		if op := code[at]; op >= 0x60 && op <= 0x7f {
			w += int(op) - 0x5f
		}
		if pc >= at && pc < at+w && pc < len(code) {
			n = i
			break
		}
		at += w
	}
	if n < 0 {
		return srcWant{}
	}
	entries := strings.Split(smap, ";")
	if n >= len(entries) {
		return srcWant{}
	}
	var field [3]string
	for k := 0; k < 3; k++ {
		for i := n; i >= 0 && field[k] == ""; i-- {
			if p := strings.Split(entries[i], ":"); len(p) > k {
				field[k] = p[k]
			}
		}
	}
	for _, f := range field {
		if f == "" {
			return srcWant{any: true}
		}
	}
	s, err1 := strconv.Atoi(field[0])
	l, err2 := strconv.Atoi(field[1])
	f, err3 := strconv.Atoi(field[2])
	if err1 != nil || err2 != nil || err3 != nil {
		return srcWant{any: true}
	}
	if f < 0 || f >= len(sources) {
		return srcWant{} // no source
	}
	if s < 0 || l < 0 || s+l > len(sources[f]) || s+l < s {
		return srcWant{any: true}
	}
	return srcWant{text: sources[f][s : s+l]}
}

var srcFiles = []string{"contract Zero { é }", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", ""}

func checkSourceOf(x *mc.X, code []byte, smap string, pcs []int, order int) {
	b := &seth.CompiledBundle{Filenames: []string{"zero", "one", "two"}, Sources: srcFiles,
		Contracts: []seth.CompiledContract{{Name: "other", Code: []byte{0}, Sourcemap: "0:1:0:-"}, {Name: "C", Code: code, Sourcemap: smap}}}
	c := b.Contract("C")
	if order == 1 {
		c = &seth.CompiledContract{Name: "C", Code: code, Sourcemap: smap}
	}
	found := false
	for _, pc := range pcs {
		want := refSourceOf(srcFiles, code, smap, pc)
		x.Step()
		got, panicked := "", ""
		func() {
			defer func() {
				if p := recover(); p != nil {
					panicked = fmt.Sprint(p)
				}
			}()
			got = b.SourceOf(c, pc)
		}()
		if panicked != "" {
			x.Failf("panic", "code %x map %q pc %d: panic: %s", code, smap, pc, panicked)
		}
		if !want.any && got != want.text {
			x.Failf("wrong-range", "code %x map %q pc %d: %q, want %q", code, smap, pc, got, want.text)
		}
		found = found || want.text != ""
	}
	if found {
		x.Case(string(code), smap)
		x.Sample(map[string]string{"code": fmt.Sprintf("%x", code), "map": smap})
	} else {
		x.Outcome("no source")
	}
	x.Validated()
}

func runC33(r *mc.R) {
	allPCs := func(code []byte) []int {
		var out []int
		for pc := -2; pc <= len(code)+2; pc++ {
			out = append(out, pc)
		}
		return append(out, 1<<31, -1<<31, 1<<62, -1<<62)
	}
	ops := []byte{0x00, 0x5f, 0x60, 0x61, 0x63, 0x7f, 0x80}
	fills := []byte{0x00, 0x60, 0x7f}
	// genCode chooses a code of exactly n instructions, the last possibly cut short
	genCode := func(x *mc.X, n int, ops, fills []byte) []byte {
		var code []byte
		for i := 0; i < n; i++ {
			op := ops[x.Choose(len(ops))]
			code = append(code, op)
			w := 0
			if op >= 0x60 && op <= 0x7f {
				w = int(op) - 0x5f
			}
			if w > 0 {
				fill := fills[x.Choose(len(fills))]
				if i == n-1 {
					// every length of what is left of the push data
					w -= x.Choose(w + 1)
				}
				for k := 0; k < w; k++ {
					code = append(code, fill)
				}
			}
		}
		return code
	}
	// every instruction has its own letter
	letters := func(n int) string {
		var es []string
		for i := 0; i < n; i++ {
			e := fmt.Sprintf("%d", i)
			if i == 0 {
				e = "0:1:1:-"
			}
			es = append(es, e)
		}
		return strings.Join(es, ";")
	}
	for n := 0; n <= r.N(4, 5); n++ {
		n := n
		r.Explore(mc.Opts{Name: fmt.Sprintf("codes-%d", n), Budget: -1, Bound: fmt.Sprintf("%d instructions over {STOP PUSH0 PUSH1 PUSH2 PUSH4 PUSH32 DUP1} with push data all 00, 60 or 7f, the last cut short everywhere; maps with one entry fewer, as many and one more than instructions", n)}, func(x *mc.X) {
			code := genCode(x, n, ops, fills)
			k := n - 1 + x.Choose(3)
			if k < 1 {
				k = 1
			}
			checkSourceOf(x, code, letters(k), allPCs(code), 0)
		})
	}
	r.Explore(mc.Opts{Name: "opcodes", Budget: -1, Bound: "every opcode followed by 0..40 bytes of STOP; each byte's own instruction"}, func(x *mc.X) {
		op := byte(x.Choose(256))
		tail := x.Choose(41)
		code := append([]byte{op}, make([]byte, tail)...)
		checkSourceOf(x, code, letters(26), allPCs(code), 1)
	})
	firsts := []string{"0:3:0:-", "2:1:1:i", "1:2:-1:o", "", "3", "20:2:0:-", "5:0:1:-", "0:1:2:-", "16:2:0:-", "1:2:0:-:7", "0:26:1:-", "0:1:9:-"}
	entries := []string{"", "4", ":2", "::1", ":::i", "2:1:-1", "1:1:1:o", "::0:", "::::3", "5:3::-:1", "0:99", "3:::o:2", "::2", ":0", "10:5:1", "::3", "99999999999999999999:1"}
	for n := 1; n <= r.N(4, 5); n++ {
		n := n
		r.Explore(mc.Opts{Name: fmt.Sprintf("maps-%d", n), Budget: -1, Bound: fmt.Sprintf("maps of %d entries over %d first and %d further entries; code of %d instructions", n, len(firsts), len(entries), n+1)}, func(x *mc.X) {
			es := []string{firsts[x.Choose(len(firsts))]}
			for i := 1; i < n; i++ {
				es = append(es, entries[x.Choose(len(entries))])
			}
			code := []byte{0x60, 0x01, 0x01, 0x61, 0x5b, 0x5b, 0x5b, 0x00}[:]
			cut := map[int]int{1: 3, 2: 6, 3: 7, 4: 8, 5: 8}[n]
			checkSourceOf(x, code[:cut], strings.Join(es, ";"), allPCs(code[:cut]), n%2)
		})
	}
	r.Explore(mc.Opts{Name: "codes x maps", Budget: -1, Bound: "2 instructions (3 in the thorough tier) x maps of 2 entries (3)"}, func(x *mc.X) {
		n := r.N(2, 3)
		code := genCode(x, n, []byte{0x00, 0x60, 0x62, 0x7f}, []byte{0x61})
		es := []string{firsts[x.Choose(len(firsts))]}
		for i := 1; i < n; i++ {
			es = append(es, entries[x.Choose(len(entries))])
		}
		checkSourceOf(x, code, strings.Join(es, ";"), allPCs(code), 0)
	})
	// through the compiler: ids are the compiler's, not the order of the files
	fake := filepath.Join(os.Getenv("MC_BIN"), "solc")
	if _, err := os.Stat(fake); err != nil {
		panic("the fake compiler was not built: " + err.Error())
	}
	base, err := os.MkdirTemp("", "mcC33")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(base)
	old := os.Getenv("TMPDIR")
	os.Setenv("TMPDIR", base)
	defer os.Setenv("TMPDIR", old)
	r.Explore(mc.Opts{Name: "compiled", Serial: true, Bound: "Compile and CompileString of 1..3 files of one contract each under every assignment of names and both orders of ids, compiled and then loaded from the cache"}, func(x *mc.X) {
		n := 1 + x.Choose(3)
		rev := x.Bool()
		rot := x.Choose(n)
		var src []seth.Source
		for i := 0; i < n; i++ {
			body := fmt.Sprintf("contract K%d\n%s", i, strings.Repeat("x", 3*i))
			if rev && i == 0 {
				body += "\nrev\n"
			}
			src = append(src, seth.Source{Filename: string(rune('a' + (i+rot)%n)), Body: body})
		}
		for pass := 0; pass < 3; pass++ {
			var b *seth.CompiledBundle
			var err error
			if pass == 2 {
				if n > 1 {
					break
				}
				b, err = seth.CompileString(src[0].Body)
			} else {
				b, err = seth.Compile(append([]seth.Source(nil), src...))
			}
			if err != nil {
				x.Failf("compile", "pass %d: %v", pass, err)
			}
			for i := range src {
				name := fmt.Sprintf("K%d", i)
				c := b.Contract(name)
				if c == nil {
					x.Failf("compile", "no contract %s", name)
				}
				same := make([]string, n) // whatever the id, the text is this file's
				for k := range same {
					same[k] = src[i].Body
				}
				for pc := -1; pc < len(c.Code)+1; pc++ {
					want := refSourceOf(same, c.Code, c.Sourcemap, pc).text
					x.Step()
					if got := b.SourceOf(c, pc); got != want {
						x.Failf("wrong-file", "pass %d: contract %s of %q pc %d: %q, want %q", pass, name, src[i].Filename, pc, got, want)
					}
				}
			}
		}
		x.Case(fmt.Sprint(src))
		x.Validated()
	})
}
