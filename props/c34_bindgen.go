package props

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"

	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{
		ID:    "C34",
		Level: "exploration",
		Rule:  "every function shape over the type alphabet up to two inputs and two outputs (three for a few types), constant and not, some without outputs, overloaded and unusually named, twenty to a contract and several contracts to a run of the real generator; every generated package is compiled and every method called with three sets of arguments and results and with a failing node; a case is a distinct function and argument set",
		Notes: []string{"the compiler is cmd/fakesolc", "which Go types stand for the contract types is up to the generator; a word that is returned as raw data counts as decoded"},
		Run:   runC34,
	})
}

type bgFn struct {
	name     string
	in, out  []string
	constant bool
	kind     string // "function" unless said otherwise
}

func (f *bgFn) sig() string { return f.name + "(" + strings.Join(f.in, ",") + ")" }

func (f *bgFn) trivial() bool { return f.kind != "function" || f.constant && len(f.out) == 0 }

type bgContract struct {
	name string
	fns  []*bgFn
	pkg  string
	code []byte
}

func (c *bgContract) abi() string {
	type param struct {
		Name string `json:"name"`
		Type string `json:"type"`
	}
	list := []map[string]interface{}{}
	for k, f := range c.fns {
		// the names of parameters are legal, if unhelpful
		names := [][5]string{
			{"", "type", "err", "d", "z"},
			{"owner", "_owner", "owner_", "Owner", "__owner"},
			{"arg1", "arg0", "arg3", "arg2", "_arg0"},
			{"range", "_range", "func", "Func", "map"},
			{"seth", "string", "error", "nil", "big"},
			{"_", "__", "$", "_1", "$1"},
			{"ret0", "ret1", "out", "w", "s"},
		}
		conv := func(ts []string) []param {
			ps := []param{}
			for i, t := range ts {
				ps = append(ps, param{names[k%len(names)][i%5], t})
			}
			k++ // results are named differently
			return ps
		}
		mut := []string{"nonpayable", "payable"}[k%2]
		if f.constant {
			mut = []string{"view", "pure"}[k%2]
		}
		list = append(list, map[string]interface{}{"type": f.kind, "name": f.name, "inputs": conv(f.in), "outputs": conv(f.out), "constant": f.constant, "stateMutability": mut, "payable": mut == "payable"})
	}
	b, _ := json.Marshal(list)
	return string(b)
}

// the values the driver passes, by Go kind, position and set
const bgSets = 3

func bgInt(pos, set int) *big.Int {
	return [][]*big.Int{{big.NewInt(1), big.NewInt(0), big.NewInt(1)}, {big.NewInt(0), big.NewInt(1), big.NewInt(1)}, {big.NewInt(7), big.NewInt(100), big.NewInt(-1)}}[set][pos%3]
}

// bgOut is the value of result number pos of type typ: the encoding and the
// ways of showing it that count as faithful.
func bgOut(typ string, pos, set int) (v abiVal, show []string) {
	raw := func(w []byte) string { return "data:" + hex.EncodeToString(w) }
	switch {
	case strings.HasSuffix(typ, "[]"):
		elem := strings.TrimSuffix(typ, "[]")
		var es []abiVal
		var ss []string
		for i := 0; i < (set+pos)%3; i++ {
			e, s := bgOut(elem, pos+i, set)
			es = append(es, e)
			ss = append(ss, s[0][strings.Index(s[0], ":")+1:])
		}
		kind := map[string]string{"address": "addrs", "bytes32": "datas"}[elem]
		if kind == "" {
			kind = "ints"
		}
		return vSlice(typ, es), []string{kind + ":[" + strings.Join(ss, " ") + "]"}
	case typ == "bool":
		n := big.NewInt(int64(pos+set+1) & 1)
		return vInt(typ, n), []string{fmt.Sprintf("bool:%v", n.Sign() != 0)}
	case strings.HasPrefix(typ, "uint") || strings.HasPrefix(typ, "int"):
		bits := uint(0)
		fmt.Sscanf(strings.TrimLeft(typ, "uint"), "%d", &bits)
		var n *big.Int
		if typ[0] == 'u' {
			n = [][]*big.Int{{plus(pow2(bits), -1), big.NewInt(3)}, {big.NewInt(0), big.NewInt(200)}, {pow2(bits - 1), big.NewInt(1)}}[set][pos%2]
		} else {
			n = [][]*big.Int{{big.NewInt(-1), big.NewInt(3)}, {plus(pow2(bits-1), -1), big.NewInt(0)}, {new(big.Int).Neg(pow2(bits - 1)), big.NewInt(-2)}}[set][pos%2]
		}
		return vInt(typ, n), []string{"int:" + n.String(), raw(abiWord(n))}
	case typ == "address":
		b := patBytes(20, byte(16*set+pos))
		return vAddr(b), []string{"addr:" + hex.EncodeToString(b), raw(vAddr(b).word)}
	case typ == "string":
		s := strings.Repeat("é text ", 20)[:[]int{0, 33, 64}[(set+pos)%3]]
		return vBytes(typ, []byte(s)), []string{"string:" + hex.EncodeToString([]byte(s))}
	case typ == "bytes":
		b := patBytes([]int{5, 0, 70}[(set+pos)%3], byte(set))
		return vBytes(typ, b), []string{"bytes:" + hex.EncodeToString(b), "data:" + hex.EncodeToString(b)}
	default: // bytesN
		n := 0
		fmt.Sscanf(typ, "bytes%d", &n)
		v := vFixed(patBytes(n, byte(40*set+pos)))
		return v, []string{raw(v.word), raw(patBytes(n, byte(40*set+pos)))}
	}
}

const bgDriver = `package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"reflect"
	"strings"

	"github.com/philhofer/seth"
IMPORTS)

var made = map[string]func(*seth.Address, *seth.Sender) interface{}{
MAKERS}

var codes = map[string][]byte{
CODES}

type req struct {
	Method string
	Params []json.RawMessage
}

type node struct {
	ret  map[string]string // by selector
	fail bool
	log  []req
}

func (n *node) Execute(q *seth.RPCRequest, res *seth.RPCResponse) error {
	b, _ := json.Marshal(q)
	var r req
	json.Unmarshal(b, &r)
	n.log = append(n.log, r)
	out := ""
	switch r.Method {
	case "eth_call":
		var o struct{ Data string }
		json.Unmarshal(r.Params[0], &o)
		if len(o.Data) >= 10 {
			out = "\"0x" + n.ret[o.Data[2:10]] + "\""
		}
		if n.fail {
			out = ""
		}
	case "eth_estimateGas":
		out = "\"0x5208\""
	case "eth_gasPrice", "eth_getTransactionCount":
		out = "\"0x1\""
	case "eth_sendTransaction":
		out = "\"0x" + strings.Repeat("5a", 32) + "\""
		if n.fail {
			out = ""
		}
	}
	if out == "" {
		out = "{\"jsonrpc\":\"2.0\",\"id\":" + fmt.Sprint(q.ID) + ",\"error\":{\"code\":-1,\"message\":\"failed\"}}"
	} else {
		out = "{\"jsonrpc\":\"2.0\",\"id\":" + fmt.Sprint(q.ID) + ",\"result\":" + out + "}"
	}
	return json.Unmarshal([]byte(out), res)
}

func intOf(pos, set int) int64 {
	return [][]int64{{1, 0, 1}, {0, 1, 1}, {7, 100, -1}}[set][pos%3]
}

func pat(n int, seed byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = seed + byte(i*7)
		if b[i] == 0 {
			b[i] = 0xee
		}
	}
	return b
}

// arg makes an argument of the type and says what it is.
func arg(t reflect.Type, pos, set int) (reflect.Value, string) {
	n := intOf(pos, set)
	ad := func(k int) seth.Address {
		var a seth.Address
		copy(a[:], pat(20, byte(pos*9+set+k)))
		return a
	}
	da := func(k int) seth.Data { return seth.Data(pat(4-set, byte(pos*5+set+k))) }
	by := pat([]int{0, 33, 64}[(pos+set)%3], byte(pos+set))
	l := (pos + set + 1) % 3
	ptr := t.Kind() == reflect.Ptr
	if ptr {
		t = t.Elem()
	}
	v := reflect.New(t)
	text := ""
	switch p := v.Interface().(type) {
	case *seth.Int:
		(*big.Int)(p).SetInt64(n)
		text = "int:" + fmt.Sprint(n)
	case *big.Int:
		p.SetInt64(n)
		text = "int:" + fmt.Sprint(n)
	case *bool:
		*p = n&1 == 1
		text = "int:" + fmt.Sprint(n&1)
	case *seth.Address:
		*p = ad(0)
		text = "addr:" + hex.EncodeToString(p[:])
	case *seth.Data:
		*p = da(0)
		text = "data:" + hex.EncodeToString(*p)
	case *seth.Hash:
		copy(p[:], da(0))
		text = "data:" + hex.EncodeToString(da(0))
	case *seth.Bytes:
		*p = by
		text = "bytes:" + hex.EncodeToString(by)
	case *[]byte:
		*p = by
		text = "bytes:" + hex.EncodeToString(by)
	case *string:
		*p = string(by)
		text = "bytes:" + hex.EncodeToString(by)
	case *seth.IntSlice:
		text = "ints:"
		for i := 0; i < l; i++ {
			*p = append(*p, *seth.NewInt(n + int64(i)))
			text += fmt.Sprint(n+int64(i), " ")
		}
	case *seth.AddrSlice:
		text = "addrs:"
		for i := 0; i < l; i++ {
			a := ad(i)
			*p = append(*p, a)
			text += hex.EncodeToString(a[:]) + " "
		}
	case *seth.DataSlice:
		text = "datas:"
		for i := 0; i < l; i++ {
			*p = append(*p, da(i))
			text += hex.EncodeToString(da(i)) + " "
		}
	default:
		switch t.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			v.Elem().SetInt(n)
			text = "int:" + fmt.Sprint(n)
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			v.Elem().SetUint(uint64(n))
			text = "int:" + fmt.Sprint(uint64(n))
		default:
			text = "unknown " + t.String()
		}
	}
	if ptr {
		return v, text
	}
	return v.Elem(), text
}

func show(i interface{}) string {
	switch v := i.(type) {
	case nil:
		return "nil"
	case error:
		return "error:" + v.Error()
	case seth.Hash:
		return "hash:" + v.String()
	case *seth.Int:
		return "int:" + (*big.Int)(v).String()
	case seth.Int:
		return "int:" + (*big.Int)(&v).String()
	case *big.Int:
		return "int:" + v.String()
	case big.Int:
		return "int:" + v.String()
	case bool:
		return fmt.Sprint("bool:", v)
	case seth.Address:
		return "addr:" + hex.EncodeToString(v[:])
	case *seth.Address:
		return "addr:" + hex.EncodeToString(v[:])
	case seth.Data:
		return "data:" + hex.EncodeToString(v)
	case *seth.Data:
		return "data:" + hex.EncodeToString(*v)
	case seth.Bytes:
		return "bytes:" + hex.EncodeToString(v)
	case []byte:
		return "bytes:" + hex.EncodeToString(v)
	case string:
		return "string:" + hex.EncodeToString([]byte(v))
	case seth.IntSlice:
		s := []string{}
		for i := range v {
			s = append(s, (*big.Int)(&v[i]).String())
		}
		return "ints:[" + strings.Join(s, " ") + "]"
	case seth.AddrSlice:
		s := []string{}
		for i := range v {
			s = append(s, hex.EncodeToString(v[i][:]))
		}
		return "addrs:[" + strings.Join(s, " ") + "]"
	case seth.DataSlice:
		s := []string{}
		for i := range v {
			s = append(s, hex.EncodeToString(v[i]))
		}
		return "datas:[" + strings.Join(s, " ") + "]"
	}
	switch reflect.TypeOf(i).Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprint("int:", i)
	}
	return fmt.Sprintf("%T:%v", i, i)
}

type result struct {
	Contract, Method string
	Set              int
	Args, Outs       []string
	Log              []req
	Panic            string
	Code             string
}

func main() {
	var in map[string][]map[string]string // contract -> set -> selector -> data returned
	if err := json.NewDecoder(os.Stdin).Decode(&in); err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	for name, c := range codes {
		enc.Encode(&result{Contract: name, Method: "", Code: hex.EncodeToString(c)})
	}
	for name, mk := range made {
		for set := 0; set < len(in[name])+1; set++ {
			n := &node{}
			if set < len(in[name]) {
				n.ret = in[name][set]
			} else {
				n.fail = true
			}
			var to, from seth.Address
			copy(to[:], pat(20, 0x99))
			copy(from[:], pat(20, 0x55))
			z := reflect.ValueOf(mk(&to, seth.NewSender(seth.NewClientTransport(n), &from)))
			for i := 0; i < z.NumMethod(); i++ {
				m := z.Method(i)
				r := result{Contract: name, Method: z.Type().Method(i).Name, Set: set}
				n.log = nil
				var args []reflect.Value
				for k := 0; k < m.Type().NumIn(); k++ {
					v, t := arg(m.Type().In(k), k, set%3)
					args = append(args, v)
					r.Args = append(r.Args, t)
				}
				func() {
					defer func() {
						if p := recover(); p != nil {
							r.Panic = fmt.Sprint(p)
						}
					}()
					for _, o := range m.Call(args) {
						r.Outs = append(r.Outs, show(o.Interface()))
					}
				}()
				r.Log = n.log
				enc.Encode(&r)
			}
		}
	}
}
`

// bgTitle is the exported form of a name.
func bgTitle(s string) string { return strings.ToUpper(s[:1]) + s[1:] }

type bgResult struct {
	Contract, Method string
	Set              int
	Args, Outs       []string
	Log              []struct {
		Method string
		Params []json.RawMessage
	}
	Panic string
	Code  string
}

// bgArg encodes what the driver passed as the contract type; ok is false if
// the Go value cannot stand for that type.
func bgArg(typ, text string) (v abiVal, ok bool) {
	i := strings.Index(text, ":")
	if i < 0 {
		return
	}
	kind, body := text[:i], text[i+1:]
	switch {
	case strings.HasSuffix(typ, "[]"):
		elem := strings.TrimSuffix(typ, "[]")
		one := map[string]string{"ints": "int:", "addrs": "addr:", "datas": "data:"}[kind]
		var es []abiVal
		for _, w := range strings.Fields(body) {
			e, ok := bgArg(elem, one+w)
			if !ok {
				return abiVal{}, false
			}
			es = append(es, e)
		}
		wantKind := map[string]string{"address": "addrs", "bytes32": "datas", "bytes4": "datas"}[elem]
		if wantKind == "" {
			wantKind = "ints"
		}
		return vSlice(typ, es), kind == wantKind
	case typ == "bytes" || typ == "string":
		b, err := hex.DecodeString(body)
		return vBytes(typ, b), err == nil && kind == "bytes"
	case typ == "address":
		b, err := hex.DecodeString(body)
		return vAddr(b), err == nil && kind == "addr"
	case strings.HasPrefix(typ, "bytes"):
		b, err := hex.DecodeString(body)
		if err != nil || kind != "data" {
			return abiVal{}, false
		}
		v := vFixed(b)
		v.typ = typ
		return v, true
	default:
		n, good := new(big.Int).SetString(body, 10)
		if !good || kind != "int" {
			return abiVal{}, false
		}
		return vInt(typ, n), true
	}
}

func runC34(r *mc.R) {
	ins := strings.Fields("uint256 address bool bytes32 string bytes uint256[] address[] int8 int16 int32 int64 uint8 uint16 uint32 uint64 int128 uint128 int256 bytes4 bytes1 bytes32[] int256[] uint8[]")
	outs := strings.Fields("uint256 address bool bytes32 string bytes uint256[] address[] int8 int16 int32 int64 uint8 uint16 uint32 uint64 int128 uint128 int256 bytes4 bytes1 bytes32[] uint8[]")
	few := ins[:7]
	if r.Thorough {
		few = ins[:10]
	}
	var fns []*bgFn
	add := func(in, out []string, constant bool) {
		fns = append(fns, &bgFn{name: fmt.Sprintf("f%d", len(fns)), in: in, out: out, constant: constant, kind: "function"})
	}
	add(nil, nil, false)
	add(nil, nil, true)
	add(nil, []string{"uint256"}, false)
	for _, a := range ins {
		add([]string{a}, nil, false)
		add([]string{a}, []string{"uint256"}, true)
		add([]string{a}, nil, true)
		for _, b := range ins {
			add([]string{a, b}, nil, false)
			add([]string{a, b}, []string{"bool"}, true)
		}
	}
	for _, a := range outs {
		add(nil, []string{a}, true)
		add([]string{"address"}, []string{a}, true)
		add(nil, []string{a}, false)
		for _, b := range outs {
			add(nil, []string{a, b}, true)
		}
	}
	for _, a := range few {
		for _, b := range few {
			for _, c := range few {
				add([]string{a, b, c}, nil, false)
				add([]string{c}, []string{a, b, c}, true)
			}
		}
	}
	var cs []*bgContract
	newC := func(name string, fs []*bgFn) {
		code := patBytes(len(cs)%40, byte(len(cs)))
		if len(cs)%4 == 2 { // with a metadata trailer
			code = append(code, append(append([]byte{0xa1, 0x65, 'b', 'z', 'z', 'r', '0', 0x58, 0x20}, patBytes(32, 3)...), 0, 0x29)...)
		}
		cs = append(cs, &bgContract{name: name, fns: fs, pkg: fmt.Sprintf("p%d", len(cs)), code: code})
	}
	// few to a contract at first, so that what does not compile is told apart
	for i := 0; i < len(fns); {
		n := 25
		if i+n > len(fns) {
			n = len(fns) - i
		}
		newC(fmt.Sprintf("C%d", len(cs)), fns[i:i+n])
		i += n
	}
	odd := func(names ...string) (l []*bgFn) {
		for i, n := range names {
			l = append(l, &bgFn{name: n, in: ins[i%4 : i%4+1], kind: "function"})
		}
		return
	}
	newC("Names", append(odd("transferFrom", "a1", "snake_case", "CAPS", "type", "func", "addr", "s", "String", "error", "seth", "big", "z", "d", "err"), &bgFn{kind: "constructor", in: []string{"uint256"}}, &bgFn{kind: "fallback"}, &bgFn{kind: "event", name: "Transfer", in: []string{"address"}}, &bgFn{kind: "event", name: "transferFrom"}))
	newC("lower", odd("balanceOf", "owner"))
	newC("Empty", nil)
	var many []*bgFn
	for i := 0; i < 70; i++ {
		many = append(many, &bgFn{kind: "function", name: fmt.Sprintf("f%d", i)})
	}
	newC("Many", many)
	newC("EventsOnly", []*bgFn{{kind: "event", name: "E"}, {kind: "constructor"}})
	newC("Overloaded", []*bgFn{{kind: "function", name: "get", constant: true, out: []string{"uint256"}}, {kind: "function", name: "get", constant: true, in: []string{"address"}, out: []string{"uint256"}}, {kind: "function", name: "get", in: []string{"uint256"}},
		{kind: "function", name: "safeTransferFrom", in: []string{"address", "address", "uint256"}}, {kind: "function", name: "safeTransferFrom", in: []string{"address", "address", "uint256", "bytes"}}})
	newC("CaseOnly", []*bgFn{{kind: "function", name: "token", constant: true, out: []string{"address"}}, {kind: "function", name: "Token", in: []string{"address"}}, {kind: "function", name: "TOKEN"}})
	newC("Numbered", []*bgFn{{kind: "function", name: "get"}, {kind: "function", name: "get", in: []string{"address"}}, {kind: "function", name: "get1", in: []string{"uint256"}}, {kind: "function", name: "get0", in: []string{"bool"}}, {kind: "function", name: "get2", in: []string{"bool", "bool"}}, {kind: "function", name: "get_1", in: []string{"bool", "bool"}}, {kind: "function", name: "get", in: []string{"bool"}}})

	base, done := toolScratch(r, "C34")
	defer done()
	// several contracts to a run of the generator: alone, and two at a time into one package
	type job struct {
		pkg string
		cs  []*bgContract
		bin bool
	}
	var jobs []*job
	for i, c := range cs {
		jobs = append(jobs, &job{pkg: c.pkg, cs: []*bgContract{c}, bin: i%2 == 0})
	}
	pair := func(a, b int) {
		p := fmt.Sprintf("q%d", len(jobs))
		jobs = append(jobs, &job{pkg: p, cs: []*bgContract{cs[a], cs[b]}, bin: true})
	}
	pair(0, 1)
	pair(1, 0)
	pair(len(cs)-1, len(cs)-3)
	var imports, makers, codes bytes.Buffer
	key := func(j *job, c *bgContract) string { return j.pkg + "." + c.name }
	failed := map[string]string{}
	input := map[string][]map[string]string{}
	gw := os.Getenv("MC_BIN")
	for _, j := range jobs {
		os.Mkdir(filepath.Join(base, j.pkg), 0755)
		src := ""
		var names []string
		for _, c := range j.cs {
			src += fmt.Sprintf("abi %s 0x%x %s\n", c.name, c.code, c.abi())
			names = append(names, c.name)
		}
		os.WriteFile(filepath.Join(base, j.pkg+".sol"), []byte(src), 0644)
		args := []string{"-c", strings.Join(names, ","), "-p", j.pkg}
		toFile := len(j.cs)+len(j.pkg)&1 == 0
		if toFile {
			args = append(args, "-o", filepath.Join(base, j.pkg, "gen.go"))
		}
		if j.bin {
			args = append(args, "-b")
		}
		t := tool("bindgen", []string{"PATH=" + gw + ":" + os.Getenv("PATH"), "TMPDIR=" + base, "HOME=" + base, "GOCACHE=" + os.Getenv("GOCACHE"), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local"}, nil, append(args, filepath.Join(base, j.pkg+".sol"))...)
		if t.code != 0 {
			for _, c := range j.cs {
				failed[key(j, c)] = "bindgen: " + t.String()
			}
			continue
		}
		if !toFile {
			os.WriteFile(filepath.Join(base, j.pkg, "gen.go"), []byte(t.out), 0644)
		}
	}
	b, err := os.ReadFile(filepath.Join(filepath.Dir(gw), "gen.mod"))
	if err != nil {
		panic(err)
	}
	os.WriteFile(filepath.Join(base, "go.mod"), b, 0644)
	b, _ = os.ReadFile(filepath.Join(filepath.Dir(gw), "gen.sum"))
	os.WriteFile(filepath.Join(base, "go.sum"), b, 0644)
	gobuild := func(args ...string) (string, error) {
		c := exec.Command("go", append([]string{"build"}, args...)...)
		c.Dir = base
		out, err := c.CombinedOutput()
		return string(out), err
	}
	// which packages do not compile?
	var pats []string
	for _, j := range jobs {
		if failed[key(j, j.cs[0])] == "" {
			pats = append(pats, "./"+j.pkg)
		}
	}
	out, err := gobuild(append([]string{"-gcflags=-e"}, pats...)...)
	if err != nil {
		head := regexp.MustCompile(`(?m)^# verif\.local/gen/(\w+)$`).FindAllStringSubmatchIndex(out, -1)
		if len(head) == 0 {
			panic("building the generated code: " + out)
		}
		for i, h := range head {
			end := len(out)
			if i+1 < len(head) {
				end = head[i+1][0]
			}
			for _, j := range jobs {
				if j.pkg == out[h[2]:h[3]] {
					for _, c := range j.cs {
						failed[key(j, c)] = strings.TrimSpace(out[h[1]:end])
					}
				}
			}
		}
	}
	for _, j := range jobs {
		if failed[key(j, j.cs[0])] != "" {
			continue
		}
		fmt.Fprintf(&imports, "\t%q\n", "verif.local/gen/"+j.pkg)
		for _, c := range j.cs {
			if c.name != "lower" {
				fmt.Fprintf(&makers, "\t%q: func(a *seth.Address, s *seth.Sender) interface{} { return %s.New%s(a, s) },\n", key(j, c), j.pkg, c.name)
			} else {
				fmt.Fprintf(&makers, "\t%q: func(a *seth.Address, s *seth.Sender) interface{} { return %s.New%s(a, s) },\n", key(j, c), j.pkg, c.name)
			}
			if j.bin && c.name != "lower" {
				fmt.Fprintf(&codes, "\t%q: %s.%sCode,\n", key(j, c), j.pkg, c.name)
			}
			sets := make([]map[string]string, bgSets)
			for set := range sets {
				sets[set] = map[string]string{}
				for _, f := range c.fns {
					if f.trivial() {
						continue
					}
					var vs []abiVal
					for pos, typ := range f.out {
						v, _ := bgOut(typ, pos, set)
						vs = append(vs, v)
					}
					sets[set][hex.EncodeToString(selector(f.sig()))] = hex.EncodeToString(abiTuple(vs))
				}
			}
			input[key(j, c)] = sets
		}
	}
	drv := strings.NewReplacer("IMPORTS", imports.String(), "MAKERS", makers.String(), "CODES", codes.String()).Replace(bgDriver)
	os.Mkdir(filepath.Join(base, "drv"), 0755)
	os.WriteFile(filepath.Join(base, "drv", "main.go"), []byte(drv), 0644)
	got := map[string][]bgResult{}
	drvErr := ""
	if out, err := gobuild("-o", filepath.Join(base, "drv", "drv"), "./drv"); err != nil {
		drvErr = out
	} else {
		c := exec.Command(filepath.Join(base, "drv", "drv"))
		js, _ := json.Marshal(input)
		c.Stdin = bytes.NewReader(js)
		var eb bytes.Buffer
		c.Stderr = &eb
		o, err := c.Output()
		if err != nil {
			drvErr = eb.String()
		}
		d := json.NewDecoder(bytes.NewReader(o))
		for d.More() {
			var q bgResult
			if err := d.Decode(&q); err != nil {
				drvErr += err.Error()
				break
			}
			got[q.Contract] = append(got[q.Contract], q)
		}
	}
	r.Note("contracts", len(cs))
	r.Note("functions", len(fns))
	addr := "0x" + hex.EncodeToString(patBytes(20, 0x99))
	r.Explore(mc.Opts{Name: "contracts", Budget: -1, Bound: fmt.Sprintf("%d contracts with %d function shapes over %d input and %d output types, in %d runs of the generator", len(cs), len(fns), len(ins), len(outs), len(jobs))}, func(x *mc.X) {
		j := jobs[x.Choose(len(jobs))]
		c := j.cs[x.Choose(len(j.cs))]
		k := key(j, c)
		if f := failed[k]; f != "" {
			x.Failf("does-not-compile", "contract %s: %.1500s", c.name, f)
		}
		if drvErr != "" {
			x.Failf("does-not-run", "%.1500s", drvErr)
		}
		// which method calls which function
		method := map[string]map[string]bool{}
		by := map[string]*bgFn{}
		for _, f := range c.fns {
			if !f.trivial() {
				by[hex.EncodeToString(selector(f.sig()))] = f
			}
		}
		for _, q := range got[k] {
			if q.Method == "" {
				if q.Code != hex.EncodeToString(c.code) {
					x.Failf("code", "contract %s: the code is %s, want %x", c.name, q.Code, c.code)
				}
				continue
			}
			where := fmt.Sprintf("contract %s: %s(%s)", c.name, q.Method, strings.Join(q.Args, ", "))
			x.Step()
			if q.Panic != "" {
				x.Failf("panic", "%s: panic: %s", where, q.Panic)
			}
			var f *bgFn
			n := 0
			for _, l := range q.Log {
				if l.Method != "eth_call" && l.Method != "eth_sendTransaction" {
					continue
				}
				n++
				var o struct{ Data, To, From string }
				json.Unmarshal(l.Params[0], &o)
				if len(o.Data) < 10 || by[o.Data[2:10]] == nil {
					x.Failf("selector", "%s: sent %s", where, o.Data)
				}
				f = by[o.Data[2:10]]
				if (l.Method == "eth_call") != f.constant {
					x.Failf("kind", "%s: %s is called by %s", where, f.sig(), l.Method)
				}
				if len(q.Args) != len(f.in) {
					x.Failf("arguments", "%s: %s", where, f.sig())
				}
				var vs []abiVal
				for i, a := range q.Args {
					v, ok := bgArg(f.in[i], a)
					if !ok {
						x.Failf("argument-type", "%s: %s cannot be argument %d of %s", where, a, i, f.sig())
					}
					vs = append(vs, v)
				}
				want := "0x" + hex.EncodeToString(append(selector(f.sig()), abiTuple(vs)...))
				if o.Data != want || !strings.EqualFold(o.To, addr) {
					x.Failf("call-data", "%s: %s sent %s to %s, want %s", where, f.sig(), o.Data, o.To, want)
				}
			}
			if n != 1 {
				x.Failf("calls", "%s: %d calls", where, n)
			}
			if method[f.sig()] == nil {
				method[f.sig()] = map[string]bool{}
			}
			method[f.sig()][q.Method] = true
			errOut := q.Outs[len(q.Outs)-1]
			if q.Set == bgSets {
				if errOut == "nil" {
					x.Failf("failure-lost", "%s: the node fails, but %v is returned", where, q.Outs)
				}
				continue
			}
			if errOut != "nil" {
				x.Failf("failed", "%s: %v", where, q.Outs)
			}
			if !f.constant {
				if len(q.Outs) != 2 || q.Outs[0] != "hash:0x"+strings.Repeat("5a", 32) {
					x.Failf("hash", "%s: returned %v", where, q.Outs)
				}
			} else {
				if len(q.Outs) != len(f.out)+1 {
					x.Failf("results", "%s: returned %v", where, q.Outs)
				}
				for i, typ := range f.out {
					_, shows := bgOut(typ, i, q.Set)
					ok := false
					for _, s := range shows {
						ok = ok || s == q.Outs[i]
					}
					if !ok {
						x.Failf("result", "%s: result %d (%s) is %s, want %v", where, i, typ, q.Outs[i], shows)
					}
				}
			}
			x.Case(k, f.sig(), fmt.Sprint(q.Set))
			x.Validated()
		}
		named := map[string]int{}
		for _, f := range by {
			named[bgTitle(f.name)]++
		}
		for _, f := range by {
			if len(method[f.sig()]) != 1 {
				x.Failf("method-missing", "contract %s: %d methods for %s", c.name, len(method[f.sig()]), f.sig())
			}
			if t := bgTitle(f.name); named[t] == 1 && !method[f.sig()][t] {
				x.Failf("method-name", "contract %s: the method for %s is %v, want %s", c.name, f.sig(), method[f.sig()], t)
			}
		}
		x.Sample(map[string]interface{}{"contract": c.name, "functions": len(by)})
	})
}
