package props

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"syscall"

	"github.com/philhofer/seth"
	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{
		ID:    "C32",
		Level: "fault_enumeration",
		Rule:  "every ordered pair of small source sets compiled one after the other over one cache; every truncation, every single-byte corruption and every zeroed tail of a cache file; every short sequence of compilations and cache faults; every location and neighbourhood of the cache directory; a case is non-trivial if the bundle returned was compared with the one expected of the compiler",
		Notes: []string{"the compiler is cmd/fakesolc, found through PATH; the cache lives in a scratch directory through TMPDIR, and the implementation runs as an unprivileged user"},
		Run:   runC32,
	})
}

type srcSet []seth.Source

func (s srcSet) String() string {
	var out []string
	for _, f := range s {
		out = append(out, fmt.Sprintf("%q:%.60q", f.Filename, f.Body))
	}
	return "{" + strings.Join(out, " ") + "}"
}

// refBundle is what cmd/fakesolc makes of the sources; ok is false if
// compilation has to fail.
func refBundle(s srcSet) (b *seth.CompiledBundle, ok bool) {
	files := append(srcSet(nil), s...)
	sort.Slice(files, func(i, j int) bool { return files[i].Filename < files[j].Filename })
	all := ""
	for _, f := range files {
		all += "\n" + f.Body + "\n"
	}
	n := len(files)
	b = &seth.CompiledBundle{Filenames: make([]string, n), Sources: make([]string, n)}
	for i, f := range files {
		id := i
		if strings.Contains(all, "\nrev\n") {
			id = n - 1 - i
		}
		b.Filenames[id], b.Sources[id] = f.Filename, f.Body
		for _, l := range strings.Split(f.Body, "\n") {
			w := strings.Fields(l)
			if len(w) == 0 {
				continue
			}
			switch w[0] {
			case "contract", "big", "rand":
				code := []byte(w[1] + "|" + f.Filename + "|" + f.Body)
				if w[0] == "big" {
					k := 0
					fmt.Sscan(w[2], &k)
					code = bytes.Repeat([]byte{0x5b}, k)
				}
				if w[0] == "rand" {
					k := 0
					fmt.Sscan(w[2], &k)
					code = make([]byte, k)
					for i, v := 0, uint32(1); i < k; i++ {
						v = v*1664525 + 1013904223
						code[i] = byte(v >> 24)
					}
				}
				b.Contracts = append(b.Contracts, seth.CompiledContract{Name: w[1], Code: code, Sourcemap: fmt.Sprintf("0:%d:%d:-;;", len(f.Body), id), ABI: []seth.ABIDescriptor{
					{Type: "function", Name: "f" + w[1], Payable: true, Mutability: "payable",
						Inputs:  []seth.ABIParam{{Name: "a", Type: "uint256"}, {Name: "t", Type: "tuple", Components: []seth.ABIParam{{Name: "x", Type: "bytes"}}}},
						Outputs: []seth.ABIParam{{Type: "address"}}},
					{Type: "event", Name: "E", Anonymous: true, Inputs: []seth.ABIParam{{Name: "i", Type: "bool", Indexed: true}}},
				}})
			case "abi":
				code, err := hex.DecodeString(w[2])
				if err != nil {
					panic(err)
				}
				c := seth.CompiledContract{Name: w[1], Code: code}
				var list []refABIDesc
				if err := json.Unmarshal([]byte(w[3]), &list); err != nil {
					panic(err)
				}
				for _, d := range list {
					c.ABI = append(c.ABI, seth.ABIDescriptor{Type: d.Type, Name: d.Name, Inputs: refABIParams(d.Inputs), Outputs: refABIParams(d.Outputs), Payable: d.Payable, Mutability: d.StateMutability, Constant: d.Constant, Anonymous: d.Anonymous})
				}
				b.Contracts = append(b.Contracts, c)
			case "warn":
				b.Warnings = append(b.Warnings, f.Filename+": "+l)
			case "error", "junk", "cut", "die", "unlinked":
				return nil, false
			}
		}
	}
	return b, true
}

// an ABI as the compiler writes it
type refABIParam struct {
	Name       string         `json:"name"`
	Type       string         `json:"type"`
	Components []*refABIParam `json:"components,omitempty"`
	Indexed    bool           `json:"indexed"`
}

type refABIDesc struct {
	Type            string         `json:"type"`
	Name            string         `json:"name"`
	Inputs          []*refABIParam `json:"inputs"`
	Outputs         []*refABIParam `json:"outputs"`
	Payable         bool           `json:"payable"`
	StateMutability string         `json:"stateMutability"`
	Constant        bool           `json:"constant"`
	Anonymous       bool           `json:"anonymous"`
}

func refABIParams(ps []*refABIParam) (out []seth.ABIParam) {
	for _, p := range ps {
		out = append(out, seth.ABIParam{Name: p.Name, Type: p.Type, Components: refABIParams(p.Components), Indexed: p.Indexed})
	}
	return out
}

// canonBundle prints a bundle; the order of its contracts does not matter.
func canonBundle(b *seth.CompiledBundle) string {
	if b == nil {
		return "no bundle"
	}
	var cs []string
	for i := range b.Contracts {
		c := &b.Contracts[i]
		abi, _ := json.Marshal(c.ABI)
		abi = bytes.ReplaceAll(abi, []byte(`"inputs":null`), []byte(`"inputs":[]`))
		cs = append(cs, fmt.Sprintf("%s code %x map %s abi %s", c.Name, c.Code, c.Sourcemap, abi))
	}
	sort.Strings(cs)
	return fmt.Sprintf("files %q sources %q contracts %q warnings %q", b.Filenames, b.Sources, cs, b.Warnings)
}

// unprivileged makes the process an unprivileged user over the directory dir
// until the function it returns is called.
func unprivileged(r *mc.R, dir string) func() {
	if os.Geteuid() != 0 {
		return func() {}
	}
	for d := dir; len(d) > len("/tmp"); d = filepath.Dir(d) {
		if st, err := os.Stat(d); err == nil {
			os.Chmod(d, st.Mode().Perm()|0011)
		}
	}
	filepath.WalkDir(dir, func(p string, _ fs.DirEntry, err error) error {
		os.Chown(p, 65534, 65534)
		return nil
	})
	if err := syscall.Setresuid(-1, 65534, -1); err != nil {
		panic(err)
	}
	back := func() { syscall.Setresuid(-1, 0, -1) }
	r.OnFinish = back
	return back
}

type c32World struct {
	x    *mc.X
	dir  string // scratch of this execution
	tmp  string // the temporary directory in it
	hist []string
	// cache files seen, by source names
	files map[string]map[string]bool
}

func (w *c32World) fail(key, f string, args ...interface{}) {
	w.x.Failf(key, "%s: %s", strings.Join(w.hist, "; "), fmt.Sprintf(f, args...))
}

func (w *c32World) tree() map[string]bool {
	m := map[string]bool{}
	filepath.WalkDir(w.dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil {
			m[p] = true
		}
		return nil
	})
	return m
}

func names(s srcSet) string {
	var out []string
	for _, f := range s {
		out = append(out, fmt.Sprintf("%q", f.Filename))
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

// compile compiles and judges; it returns the cache file, if one was made.
func (w *c32World) compile(s srcSet) string {
	w.hist = append(w.hist, "compile "+s.String())
	before := w.tree()
	arg := append(srcSet(nil), s...)
	b, err := seth.Compile(arg)
	w.x.Step()
	want, ok := refBundle(s)
	switch {
	case !ok && err == nil:
		w.fail("failure-lost", "compilation fails, but a bundle is returned: %.500s", canonBundle(b))
	case ok && err != nil:
		w.fail("compile-failed", "%v", err)
	case ok && canonBundle(b) != canonBundle(want):
		w.fail("other-bundle", "got %.700s, the compiler makes %.700s", canonBundle(b), canonBundle(want))
	}
	if ok {
		for i := range want.Contracts {
			n := want.Contracts[i].Name
			if c := b.Contract(n); c == nil || c.Name != n {
				w.fail("no-contract", "contract %q is not found", n)
			}
		}
		if c := b.Contract("no such"); c != nil {
			w.fail("no-contract", "there is a contract %q", c.Name)
		}
	}
	after := w.tree()
	key := names(s)
	for p := range before {
		if !after[p] && !w.files[key][p] {
			w.fail("removed", "the file %s was removed", strings.TrimPrefix(p, w.dir))
		}
	}
	made := ""
	for p := range after {
		if !before[p] {
			if st, err := os.Lstat(p); err == nil && st.Mode().IsRegular() {
				if !strings.HasPrefix(p, w.tmp+"/") {
					w.fail("elsewhere", "the file %s was made", strings.TrimPrefix(p, w.dir))
				}
				if w.files[key] == nil {
					w.files[key] = map[string]bool{}
				}
				w.files[key][p] = true
				made = p
			}
		}
	}
	return made
}

func runC32(r *mc.R) {
	fake := filepath.Join(os.Getenv("MC_BIN"), "solc")
	if _, err := os.Stat(fake); err != nil {
		panic("the fake compiler was not built: " + err.Error())
	}
	base, err := os.MkdirTemp("/tmp", "mcC32") // no dash in its name
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(base)
	// a copy of the compiler where an unprivileged user can run it
	bin, err := os.ReadFile(fake)
	if err != nil {
		panic(err)
	}
	os.Mkdir(filepath.Join(base, "bin"), 0755)
	if err := os.WriteFile(filepath.Join(base, "bin", "solc"), bin, 0755); err != nil {
		panic(err)
	}
	oldpath := os.Getenv("PATH")
	os.Setenv("PATH", filepath.Join(base, "bin")+":"+oldpath)
	defer os.Setenv("PATH", oldpath)
	defer unprivileged(r, base)()
	old := os.Getenv("TMPDIR")
	defer os.Setenv("TMPDIR", old)
	serial := 0
	world := func(x *mc.X, tmp string) *c32World {
		serial++
		w := &c32World{x: x, dir: filepath.Join(base, fmt.Sprintf("w%d", serial)), files: map[string]map[string]bool{}}
		w.tmp = filepath.Join(w.dir, tmp)
		if err := os.MkdirAll(w.tmp, 0777); err != nil {
			panic(err)
		}
		os.Setenv("TMPDIR", w.tmp)
		return w
	}
	done := func(w *c32World) { os.RemoveAll(w.dir) }

	// one or two files; the texts collide when run together
	bodies := []string{"", "contract A", "contract A\ncontract B"}
	fnames := []string{"a", "ab", "b"}
	var sets []srcSet
	for _, n := range fnames {
		for _, b := range bodies {
			sets = append(sets, srcSet{{Filename: n, Body: b}})
		}
	}
	split := []string{"", "\n", "contract A", "\ncontract A", "contract A\n"}
	for i, n := range fnames {
		for j, n2 := range fnames {
			if i >= j {
				continue
			}
			for _, b := range split {
				for _, b2 := range split {
					if r.Thorough || b != b2 && (n != "b" && n2 != "b" || b == "") {
						sets = append(sets, srcSet{{Filename: n2, Body: b2}, {Filename: n, Body: b}})
					}
				}
			}
		}
	}
	sets = append(sets, srcSet{{Filename: "aab", Body: "contract A"}}, srcSet{{Filename: "", Body: "contract A"}}, srcSet{{Filename: "a", Body: "contract A"}, {Filename: "ab", Body: "warn w\nrev"}, {Filename: "b", Body: "contract C"}})
	r.Explore(mc.Opts{Name: "pairs", Serial: true, Share: 0.5, Bound: fmt.Sprintf("all ordered pairs of %d source sets, compiled A, B, A over one cache", len(sets))}, func(x *mc.X) {
		i, j := x.Choose(len(sets)), x.Choose(len(sets))
		w := world(x, "t")
		defer done(w)
		a := w.compile(sets[i])
		b := w.compile(sets[j])
		if i != j && a != "" && b != "" && a == b {
			w.fail("same-file", "both sets are cached in %s", filepath.Base(a))
		}
		if names(sets[i]) == names(sets[j]) {
			w.compile(sets[i])
		}
		x.Case(w.hist...)
		x.Validated()
	})

	// everything an ABI can say comes back out of the cache
	var leaves, params []*refABIParam
	for _, n := range []string{"", "n"} {
		for _, ix := range []bool{false, true} {
			leaves = append(leaves, &refABIParam{Name: n, Type: "uint8", Indexed: ix})
		}
	}
	params = append(params, leaves...)
	for _, n := range []string{"", "t"} {
		for _, ix := range []bool{false, true} {
			params = append(params, &refABIParam{Name: n, Type: "tuple", Indexed: ix}, &refABIParam{Name: n, Type: "tuple[]", Indexed: ix, Components: []*refABIParam{{Name: "in", Type: "tuple", Components: leaves[:1]}}})
			for i := range leaves {
				params = append(params, &refABIParam{Name: n, Type: "tuple", Indexed: ix, Components: []*refABIParam{leaves[i], leaves[(i*3+1)%4]}})
			}
		}
	}
	kinds := []string{"function", "event", "constructor", "fallback"}
	muts := []string{"", "pure", "view", "nonpayable", "payable"}
	r.Explore(mc.Opts{Name: "contents", Serial: true, Bound: fmt.Sprintf("contracts with descriptors of every one of %d types, %d mutabilities, named and unnamed, payable, constant and anonymous or not, and with every one or two inputs and two outputs of %d parameters; compiled twice", len(kinds), len(muts), len(params))}, func(x *mc.X) {
		w := world(x, "t")
		defer done(w)
		var list []*refABIDesc
		mk := func(kind, mut, bits, p, q int) {
			d := &refABIDesc{Type: kinds[kind], Name: []string{"", "name"}[bits&1], StateMutability: muts[mut], Payable: bits&2 > 0, Constant: bits&4 > 0, Anonymous: bits&8 > 0, Inputs: []*refABIParam{}}
			if p > 0 {
				d.Inputs = append(d.Inputs, params[p-1])
			}
			if q > 0 {
				d.Inputs = append(d.Inputs, params[q-1])
				d.Outputs = append(d.Outputs, params[q-1], params[(p+q)%len(params)])
			}
			list = append(list, d)
		}
		// all about the descriptors, then all about the parameters
		bits, first := 0, 0
		if x.Bool() {
			bits = x.Choose(16)
			for kind := range kinds {
				for mut := range muts {
					for p := 0; p < 3; p++ {
						mk(kind, mut, bits, p*bits%(len(params)+1), p*mut)
					}
				}
			}
		} else {
			first = x.Choose(len(params) + 1)
			for q := 0; q <= len(params); q++ {
				for kind := range kinds {
					mk(kind, (first+q)%len(muts), first*5+q*3, first, q)
				}
			}
		}
		j, _ := json.Marshal(list)
		set := srcSet{{Filename: "x.sol", Body: "abi X 6001 " + string(j)}}
		w.compile(set)
		w.compile(set)
		x.Case(fmt.Sprint(len(list), bits, first))
		x.Validated()
	})

	// many source sets: their cache files must not be shared
	many := r.N(1000, 6000)
	r.Explore(mc.Opts{Name: "many", Serial: true, Bound: fmt.Sprintf("%d files of one text, and %d texts of one file, compiled one after the other; any two that used the same cache file are compiled over one cache", many, many)}, func(x *mc.X) {
		w := world(x, "t")
		defer func() { done(w) }()
		kind := x.Choose(2)
		set := func(i int) srcSet {
			if kind == 0 {
				return srcSet{{Filename: fmt.Sprintf("f%d.sol", i), Body: "contract A"}}
			}
			return srcSet{{Filename: "a.sol", Body: fmt.Sprintf("contract A%d", i)}}
		}
		used, last := map[string]int{}, ""
		for i := 0; i < many; i++ {
			w.hist = nil
			// an empty cache each time, so that the file is new
			os.Remove(last)
			w.files = map[string]map[string]bool{}
			f := w.compile(set(i))
			if f == "" {
				continue
			}
			if j, ok := used[f]; ok {
				w2 := world(x, "t2")
				w2.compile(set(j))
				w2.compile(set(i))
				w2.compile(set(j))
				done(w2)
				os.Setenv("TMPDIR", w.tmp)
			}
			used[f], last = i, f
			if i%16 == 15 && kind == 0 {
				x.Sample(fmt.Sprint(set(i)))
			}
		}
		x.Case(fmt.Sprint(kind))
		x.Validated()
	})

	good := srcSet{{Filename: "x.sol", Body: "contract A\nwarn careful\n"}, {Filename: "dir/y.sol", Body: "contract B\ncontract C"}, {Filename: "nothing.sol", Body: "rev"}}
	plain := srcSet{{Filename: "x.sol", Body: "contract A"}}
	large := srcSet{{Filename: "x.sol", Body: fmt.Sprintf("contract A\nrand R %d", r.N(2300, 9000))}}
	for _, set := range []srcSet{good, large} {
		set := set
		var image []byte
		var name string
		func() {
			w := world(nil, "t")
			defer done(w)
			defer func() { recover() }() // the explorations will tell
			seth.Compile(append(srcSet(nil), set...))
			for p := range w.tree() {
				if st, err := os.Lstat(p); err == nil && st.Mode().IsRegular() {
					image, _ = os.ReadFile(p)
					name = strings.TrimPrefix(p, w.tmp)
				}
			}
		}()
		flips := []byte{1, 0x80}
		if r.Thorough {
			flips = []byte{1, 2, 4, 8, 16, 32, 64, 128, 255}
		}
		kinds := 5
		if len(set) == 1 {
			flips = []byte{0x10}
			kinds = r.N(2, 4)
		}
		r.Note(fmt.Sprintf("cache_file_bytes %d", len(set)), len(image))
		r.Explore(mc.Opts{Name: fmt.Sprintf("torn and corrupt files %d", len(set)), Serial: true, Share: 0.6, Bound: fmt.Sprintf("a cache file of %d bytes: every truncation, every byte xor each of %v, every zeroed tail, every doubled prefix, a directory in its place (%d of these)", len(image), flips, kinds)}, func(x *mc.X) {
			w := world(x, "t")
			defer done(w)
			if image == nil { // nothing is cached: nothing to corrupt
				w.compile(set)
				x.Case("no cache")
				return
			}
			p := w.tmp + name
			os.MkdirAll(filepath.Dir(p), 0777)
			data := append([]byte(nil), image...)
			at := 0
			kind := []int{1, 0, 2, 3, 4}[x.Choose(kinds)]
			if kind < 4 {
				at = x.Choose(len(image))
				if kinds == 2 && kind == 0 && at%16 != 0 {
					return
				}
			}
			switch kind {
			case 0:
				data = data[:at]
			case 1:
				data[at] ^= flips[x.Choose(len(flips))]
			case 2:
				for i := at; i < len(data); i++ {
					data[i] = 0
				}
			case 3:
				data = append(data, data[:at]...)
			case 4:
				os.Mkdir(p, 0777)
			}
			w.hist = append(w.hist, fmt.Sprintf("corrupt the file: kind %d at %d", kind, at))
			if kind < 4 {
				if err := os.WriteFile(p, data, 0666); err != nil {
					panic(err)
				}
			}
			w.files[names(set)] = map[string]bool{p: true}
			w.compile(set)
			if kind == 1 && len(set) > 1 || kind == 4 {
				w.compile(set)
			}
			x.Case(w.hist...)
			x.Validated()
		})
	}

	depth := r.N(3, 4)
	comps := []srcSet{plain, {{Filename: "x.sol", Body: "contract B"}}, {{Filename: "y.sol", Body: "contract A"}}, good,
		{{Filename: "x.sol", Body: "error oops"}}, {{Filename: "x.sol", Body: "contract A\njunk"}}, {{Filename: "x.sol", Body: "contract A\ndie"}}, {{Filename: "x.sol", Body: "contract A\ncut"}}, {{Filename: "x.sol", Body: "contract A\nunlinked"}},
		{{Filename: "big.sol", Body: "big G 100000"}}}
	if !r.Thorough {
		comps = append(comps[:6:6], comps[8])
	}
	r.Explore(mc.Opts{Name: "sequences", Serial: true, Share: 0.6, Bound: fmt.Sprintf("%d operations: compilations of %d source sets (some of which fail), truncation, emptying and deletion of all cache files", depth, len(comps))}, func(x *mc.X) {
		w := world(x, "t")
		defer done(w)
		for i := 0; i < depth; i++ {
			op := x.Choose(len(comps) + 3)
			if op < len(comps) {
				w.compile(comps[op])
				continue
			}
			op -= len(comps)
			w.hist = append(w.hist, []string{"halve", "empty", "delete"}[op]+" all cache files")
			for p := range w.tree() {
				st, err := os.Lstat(p)
				if err != nil || !st.Mode().IsRegular() {
					continue
				}
				switch op {
				case 0:
					os.Truncate(p, st.Size()/2)
				case 1:
					os.Truncate(p, 0)
				case 2:
					os.Remove(p)
				}
			}
		}
		x.Case(w.hist...)
		x.Validated()
	})

	dirs := []string{"t", "t-mp", "a-b-c", "-", "t*", "t?", "[t", "[a-z]", `t\`, "t mp/-x/y", "tevm", "tevm-1"}
	extra := []string{"t-other", "x-", "a", "a-b", "a-file", "-z", "--", "tt", "tz", "b", "q", "[x", "t mp/-a", "t mp/b", "tevm-x"}
	r.Explore(mc.Opts{Name: "neighbours", Serial: true, Bound: fmt.Sprintf("%d temporary directories (with dashes and wildcards in their names) x bystanders around and inside the cache directory x stale file present or not", len(dirs))}, func(x *mc.X) {
		w := world(x, dirs[x.Choose(len(dirs))])
		defer done(w)
		for _, e := range extra {
			p := filepath.Join(w.dir, e)
			if _, err := os.Lstat(p); err != nil {
				os.MkdirAll(filepath.Dir(p), 0777)
				os.WriteFile(p, []byte("bystander"), 0666)
			}
			os.WriteFile(filepath.Join(w.tmp, filepath.Base(e)+".keep"), nil, 0666)
		}
		stale := ""
		if x.Bool() {
			stale = w.compile(srcSet{{Filename: "x.sol", Body: "contract Old"}})
		}
		other := w.compile(srcSet{{Filename: "y.sol", Body: "contract A"}})
		cache := filepath.Join(w.tmp, "tevm")
		if other != "" {
			cache = filepath.Dir(other)
		}
		if x.Bool() {
			for _, e := range []string{"-", "a-b", "-.bundle", "0-0.bundle", "000000000000-000000000000.bundle", "README", ".hidden", "ffffffffffff-"} {
				os.WriteFile(filepath.Join(cache, e), nil, 0666)
			}
			if stale != "" {
				b := filepath.Base(stale)
				os.WriteFile(filepath.Join(cache, "x"+b), nil, 0666)
				os.WriteFile(filepath.Join(cache, b[1:]), nil, 0666)
			}
		}
		w.compile(plain)
		w.compile(plain)
		w.compile(srcSet{{Filename: "y.sol", Body: "contract A"}})
		x.Case(w.hist...)
		x.Validated()
	})

	r.Explore(mc.Opts{Name: "uncached", Serial: true, Bound: "CompileString and CompileGlob"}, func(x *mc.X) {
		w := world(x, "t")
		defer done(w)
		if x.Bool() {
			body := comps[x.Choose(len(comps)-1)][0].Body
			b, err := seth.CompileString(body)
			x.Step()
			want, ok := refBundle(srcSet{{Filename: "<stdin>", Body: body}})
			if ok != (err == nil) || ok && canonBundle(b) != canonBundle(want) {
				x.Failf("compile-string", "%q: %.500s (%v)", body, canonBundle(b), err)
			}
			x.Case(body)
			return
		}
		var s srcSet
		for _, n := range []string{"a.sol", "b.sol", "c.sol"} {
			if x.Bool() {
				s = append(s, seth.Source{Filename: filepath.Join(w.dir, n), Body: "contract " + strings.ToUpper(n[:1]) + "\n"})
			}
		}
		for _, f := range s {
			os.WriteFile(f.Filename, []byte(f.Body), 0666)
		}
		os.WriteFile(filepath.Join(w.dir, "d.txt"), []byte("junk"), 0666)
		for i := 0; i < 2; i++ {
			b, err := seth.CompileGlob(filepath.Join(w.dir, "*.sol"))
			x.Step()
			if len(s) == 0 {
				if err == nil {
					x.Failf("compile-glob", "no files, but a bundle: %s", canonBundle(b))
				}
				continue
			}
			want, _ := refBundle(s)
			if err != nil || !reflect.DeepEqual(canonBundle(b), canonBundle(want)) {
				x.Failf("compile-glob", "%v: %.700s (%v)", s, canonBundle(b), err)
			}
		}
		x.Case(s.String())
		x.Validated()
	})
}
