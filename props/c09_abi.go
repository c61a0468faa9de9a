package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"runtime/metrics"
	"strings"

	"github.com/philhofer/seth"
	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{ID: "C09", Level: "exploration",
		Rule: "every call with up to 3 (thorough 4) arguments over an alphabet of types and boundary values, compared byte for byte with an independent encoder; every argument kind for every type at every position, every wrong count, " +
			"and every malformation of a signature, which must panic; a case is a distinct signature and value list",
		Notes: []string{"the types are those the package has a representation for; calls the signature cannot describe (an Int for a bytesN with N<32, fixed-size or nested arrays) are not judged"},
		Run:   runC09})
	mc.Register(&mc.Prop{ID: "C10", Level: "exploration",
		Rule: "every tuple of up to 3 (thorough 4) values over an alphabet of values and destination types, each destination fresh, holding something smaller or something larger, decoded from the canonical encoding directly and through JSON; a case is a distinct tuple",
		Run:  runC10})
	mc.Register(&mc.Prop{ID: "C11", Level: "exploration",
		Rule: "every truncation of the encodings of the tuples, and every replacement of one word (thorough: two) by each of 22 boundary values, including unaligned reads of the same bytes; an independent reader decides which ones must be refused and what an accepted one must hold; a case is a distinct input and destination list",
		Run:  runC11})
}

func encodeCall(sig string, args []seth.EtherType) (out []byte, refused interface{}) {
	defer func() { refused = recover() }()
	return seth.ABIEncode(sig, args...), nil
}

func runC09(r *mc.R) {
	encode := func(x *mc.X, name string, vs []abiVal) {
		sig := abiSig(name, vs)
		var args []seth.EtherType
		txt := sig
		for _, v := range vs {
			args = append(args, v.arg())
			txt += " " + v.text
		}
		x.Step()
		x.Logf("%s", txt)
		want := append(refKeccak([]byte(sig))[:4:4], abiTuple(vs)...)
		got, ref := encodeCall(sig, args)
		if ref != nil {
			x.Failf("abi-encode-refused "+sig, "%s: panic: %v", txt, ref)
		}
		if !bytes.Equal(got, want) {
			x.Failf("abi-encode "+sig, "%s\n got %x\nwant %x", txt, got, want)
		}
		// again, through CallOpts: the arguments must not have been touched
		var o seth.CallOpts
		o.EncodeCall(sig, args...)
		if !bytes.Equal(o.Data, want) {
			x.Failf("abi-encode-again "+sig, "%s encoded a second time\n got %x\nwant %x", txt, []byte(o.Data), want)
		}
		x.Case(txt)
		x.Validated()
	}
	all, small := abiValues(), abiSmall()
	names := []string{"f", "transferFrom", "_x1", "mint"}
	r.Explore(mc.Opts{Name: "values", Budget: -1, Bound: fmt.Sprintf("0-2 arguments over %d values, 4 names", len(all))}, func(x *mc.X) {
		name := names[x.Choose(len(names))]
		var vs []abiVal
		for n := x.Choose(3); n > 0; n-- {
			vs = append(vs, all[x.Choose(len(all))])
		}
		x.Sample(abiSig(name, vs))
		encode(x, name, vs)
	})
	most := r.N(4, 5)
	r.Explore(mc.Opts{Name: "shapes", Budget: -1, Bound: fmt.Sprintf("3-%d arguments over %d values", most, len(small))}, func(x *mc.X) {
		n := 3 + x.Choose(most-2)
		var vs []abiVal
		for i := 0; i < n; i++ {
			vs = append(vs, small[x.Choose(len(small))])
		}
		encode(x, "f", vs)
	})

	kinds := []struct {
		name string
		mk   func() seth.EtherType
		fits func(t string) bool
		skip func(t string) bool
	}{
		{"*Address", vAddr(adrPat).arg, func(t string) bool { return t == "address" }, nil},
		{"*Int", vInt("", big.NewInt(3)).arg, func(t string) bool {
			return t == "bool" || t == "bytes32" || (strings.HasPrefix(t, "int") || strings.HasPrefix(t, "uint")) && !strings.HasSuffix(t, "]")
		}, func(t string) bool {
			return strings.HasPrefix(t, "bytes") && t != "bytes" && !strings.HasSuffix(t, "]")
		}},
		{"*Data", vFixed(patBytes(1, 1)).arg, func(t string) bool {
			return strings.HasPrefix(t, "bytes") && t != "bytes" && !strings.HasSuffix(t, "]")
		}, nil},
		{"*Bytes", vBytes("", patBytes(3, 1)).arg, func(t string) bool { return t == "bytes" || t == "string" }, nil},
		{"*IntSlice", vSlice("uint256[]", nil).arg, func(t string) bool { return t == "uint256[]" || t == "int256[]" || t == "bool[]" }, func(t string) bool { return t == "bytes32[]" }},
		{"*AddrSlice", vSlice("address[]", nil).arg, func(t string) bool { return t == "address[]" }, nil},
		{"*DataSlice", vSlice("bytes32[]", nil).arg, func(t string) bool { return t == "bytes32[]" || t == "bytes4[]" }, nil},
	}
	types := []string{"address", "bool", "uint", "int", "uint256", "int256", "uint8", "int64", "bytes32", "bytes4", "bytes", "string", "uint256[]", "int256[]", "bool[]", "address[]", "bytes32[]", "bytes4[]"}
	good := func(t string) seth.EtherType {
		for _, k := range kinds {
			if k.fits(t) {
				return k.mk()
			}
		}
		panic(t)
	}
	r.Explore(mc.Opts{Name: "kinds", Budget: -1, Bound: fmt.Sprintf("%d types x %d kinds of argument x every position among 1-3, the others correct", len(types), len(kinds))}, func(x *mc.X) {
		n := 1 + x.Choose(3)
		pos := x.Choose(n)
		t := types[x.Choose(len(types))]
		k := kinds[x.Choose(len(kinds))]
		other := types[x.Choose(len(types))]
		var ts []string
		var args []seth.EtherType
		for i := 0; i < n; i++ {
			if i == pos {
				ts, args = append(ts, t), append(args, k.mk())
			} else {
				ts, args = append(ts, other), append(args, good(other))
			}
		}
		if k.skip != nil && k.skip(t) && !k.fits(t) {
			x.Prune()
		}
		sig := "f(" + strings.Join(ts, ",") + ")"
		x.Step()
		got, ref := encodeCall(sig, args)
		if k.fits(t) && ref != nil {
			x.Failf("abi-kind-refused "+t+" "+k.name, "%s with %s at position %d: panic: %v", sig, k.name, pos, ref)
		}
		if !k.fits(t) && ref == nil {
			x.Failf("abi-kind-accepted "+t+" "+k.name, "%s with %s at position %d gave %x", sig, k.name, pos, got)
		}
		x.Case(sig, k.name, fmt.Sprint(pos))
		x.Outcome(fmt.Sprintf("refused=%v", ref != nil))
		x.Validated()
	})
	r.Explore(mc.Opts{Name: "counts", Budget: -1, Bound: "0-4 parameters x 0-5 arguments, all of the same type"}, func(x *mc.X) {
		t := types[x.Choose(len(types))]
		np, na := x.Choose(5), x.Choose(6)
		sig := "f(" + strings.TrimSuffix(strings.Repeat(t+",", np), ",") + ")"
		var args []seth.EtherType
		for i := 0; i < na; i++ {
			args = append(args, good(t))
		}
		x.Step()
		got, ref := encodeCall(sig, args)
		if np == na && ref != nil {
			x.Failf("abi-count-refused", "%s with %d arguments: panic: %v", sig, na, ref)
		}
		if np != na && ref == nil {
			key := fmt.Sprintf("abi-count-accepted %d parameters", np)
			if na < np {
				key += " too few"
			}
			msg := fmt.Sprintf("%s with %d arguments gave %x", sig, na, got)
			if !x.Known(key, msg) {
				x.Failf(key, "%s", msg)
			}
		}
		x.Case(sig, fmt.Sprint(na))
		x.Validated()
	})
	r.Explore(mc.Opts{Name: "malformed", Budget: -1, Bound: "every insertion, deletion and replacement of one character in 6 signatures (thorough: two in the shorter ones)"}, func(x *mc.X) {
		base := []string{"f()", "f(address)", "go(address,uint256)", "f(uint256[],bytes)", "f(bytes,string,bool)", "f(address,address)"}
		b := base[x.Choose(len(base))]
		muts := 1
		if r.Thorough && len(b) < 12 {
			muts = 2
		}
		s := b
		const alpha = " \t\n\b-+/~!@#$%^&*=|;:\"<>\\?(),"
		for i := 0; i < muts; i++ {
			p := x.Choose(len(s) + 1)
			switch op := x.Choose(1 + 2*len(alpha)); {
			case op == 0:
				if p < len(s) {
					s = s[:p] + s[p+1:]
				}
			case op <= len(alpha):
				s = s[:p] + alpha[op-1:op] + s[p:]
			default:
				if p < len(s) {
					s = s[:p] + alpha[op-1-len(alpha):op-len(alpha)] + s[p+1:]
				}
			}
			if s == "" {
				break
			}
		}
		bad := strings.Count(s, "(") != 1 || strings.Count(s, ")") != 1 || !strings.HasSuffix(s, ")") || strings.ContainsAny(s, " \t\n\b-+/~!@#$%^&*=|;:\"<>\\?")
		var args []seth.EtherType
		if !bad {
			in := s[strings.Index(s, "(")+1 : len(s)-1]
			ps := strings.Split(in, ",")
			for _, p := range ps {
				bad = bad || p == "" && len(ps) > 1
			}
		}
		if !bad {
			x.Prune()
		}
		// the arguments of the original signature, and the right number of them for the malformed one
		n := strings.Count(s, ",") + 1
		in := strings.Split(b[strings.Index(b, "(")+1:len(b)-1], ",")
		if in[0] == "" {
			in = nil
		}
		if x.Bool() {
			for i := 0; i < n; i++ {
				if i < len(in) {
					args = append(args, good(in[i]))
				} else {
					args = append(args, good("uint256"))
				}
			}
		} else {
			for i := range in {
				args = append(args, good(in[i]))
			}
		}
		x.Step()
		if got, ref := encodeCall(s, args); ref == nil {
			x.Failf("abi-malformed-accepted", "malformed signature %q was encoded as %x", s, got)
		}
		x.Case(s)
		x.Validated()
	})
	r.Explore(mc.Opts{Name: "overflow", Budget: -1, Bound: "integers of 257 bits or more, negative ones below -2^255, fixed data above 32 bytes, alone and in slices"}, func(x *mc.X) {
		big1 := []*big.Int{pow2(256), plus(pow2(256), 1), pow2(300), new(big.Int).Neg(plus(pow2(255), 1)), new(big.Int).Neg(pow2(256)), new(big.Int).Neg(pow2(300))}
		i := x.Choose(len(big1) + 2)
		var sig string
		var arg seth.EtherType
		inSlice := x.Bool()
		if i < len(big1) {
			n := (*seth.Int)(big1[i])
			sig, arg = "f(int256)", n
			if inSlice {
				sig, arg = "f(int256[])", &seth.IntSlice{*seth.NewInt(1), *n}
			}
		} else {
			d := seth.Data(patBytes(33+31*(i-len(big1)), 1))
			sig, arg = "f(bytes32)", &d
			if inSlice {
				sig, arg = "f(bytes32[])", &seth.DataSlice{d}
			}
		}
		x.Step()
		if got, ref := encodeCall(sig, []seth.EtherType{arg}); ref == nil {
			x.Failf("abi-overflow-accepted", "%s of value %d gave %x", sig, i, got)
		}
		x.Case(sig, fmt.Sprint(i))
		x.Validated()
	})
}

func runC10(r *mc.R) {
	decodeInto := func(x *mc.X, cs []abiCase, dirty []int, made []interface{}) {
		var vs []abiVal
		var dst []interface{}
		txt := ""
		for i, c := range cs {
			vs = append(vs, c.v)
			if made != nil {
				dst = append(dst, made[i])
				txt += fmt.Sprintf(" %v(shared)", c)
				continue
			}
			dst = append(dst, c.d.make(dirty[i]))
			txt += fmt.Sprintf(" %v(dirty %d)", c, dirty[i])
		}
		x.Step()
		x.Logf("%s", txt)
		enc := abiTuple(vs)
		in := append([]byte(nil), enc...)
		key := func(i int) string {
			return fmt.Sprintf("%s position %d", cs[i].d.kind, i)
		}
		if err := seth.DecodeABI(in, dst...); err != nil {
			x.Failf("abi-decode-error", "%s: %v (data %x)", txt, err, enc)
		}
		if !bytes.Equal(in, enc) {
			x.Failf("abi-decode-input", "%s: decoding modified its input", txt)
		}
		for i := range in {
			in[i] ^= 0x5a // the destinations own what they hold
		}
		for i, c := range cs {
			if got := c.d.show(dst[i]); got != c.want {
				x.Failf("abi-decode "+key(i), "%s: position %d holds %s, want %s (data %x)", txt, i, got, c.want, enc)
			}
		}
		// once more through JSON, into the destinations just used
		j, _ := json.Marshal(fmt.Sprintf("0x%x", enc))
		if err := json.Unmarshal(j, seth.NewABIDecoder(dst...)); err != nil {
			x.Failf("abi-decode-json", "%s: %v", txt, err)
		}
		for i, c := range cs {
			if got := c.d.show(dst[i]); got != c.want {
				x.Failf("abi-decode-json "+key(i), "%s: through JSON, position %d holds %s, want %s", txt, i, got, c.want)
			}
		}
		x.Case(txt)
		x.Validated()
	}
	decode := func(x *mc.X, cs []abiCase, dirty []int) { decodeInto(x, cs, dirty, nil) }
	all, small := abiCases(false), abiCases(true)
	r.Explore(mc.Opts{Name: "values", Budget: -1, Bound: fmt.Sprintf("1-2 values over %d (value, destination) pairs, each destination fresh or dirty in 2 ways", len(all))}, func(x *mc.X) {
		n := 1 + x.Choose(2)
		var cs []abiCase
		var ds []int
		for i := 0; i < n; i++ {
			cs = append(cs, all[x.Choose(len(all))])
			ds = append(ds, x.Choose(3))
		}
		if n == 1 {
			x.Sample(cs[0].String())
		}
		decode(x, cs, ds)
	})
	// what a byte string holds does not matter, nor how long it is
	alphabet := []byte{0, ' ', 'a', 0x80, 0xff, '\n', '"'}
	clen := r.N(4, 6)
	r.Explore(mc.Opts{Name: "contents", Budget: -1, Bound: fmt.Sprintf("every byte string of up to %d bytes over %q, alone or after 31 other bytes, and every length up to 130 of zero bytes and of distinct bytes, as string, []byte and Bytes", clen, alphabet)}, func(x *mc.X) {
		var b []byte
		if x.Bool() {
			n := x.Choose(clen + 1)
			if x.Bool() {
				b = patBytes(31, 3)
			}
			for i := 0; i < n; i++ {
				b = append(b, alphabet[x.Choose(len(alphabet))])
			}
		} else {
			n := x.Choose(131)
			if b = make([]byte, n); x.Bool() {
				b = patBytes(n, 9)
			}
		}
		c := abiCase{vBytes("string", b), dString(), fmt.Sprintf("%x", b)}
		switch x.Choose(3) {
		case 1:
			c = abiCase{vBytes("bytes", b), dByteSlice(), fmt.Sprintf("%x", b)}
		case 2:
			c = abiCase{vBytes("bytes", b), dBytes(), fmt.Sprintf("%x", b)}
		}
		decode(x, []abiCase{c}, []int{2})
	})
	// and so for words: every single and double bit
	r.Explore(mc.Opts{Name: "bits", Budget: -1, Bound: "every word with one or two bits set, as uint256, bytes32 and address, and as every native integer type that can hold it"}, func(x *mc.X) {
		n := new(big.Int).SetBit(new(big.Int), x.Choose(256), 1)
		n.SetBit(n, x.Choose(256), 1)
		w := abiWord(n)
		cs := []abiCase{intCase("uint256", n, dInt()), intCase("uint256", n, dBig()), {vFixed(w), dData(), fmt.Sprintf("%x", w)}}
		if n.BitLen() <= 160 {
			cs = append(cs, abiCase{vAddr(w[12:]), dAddr(), fmt.Sprintf("%x", w[12:])})
		}
		for _, bits := range []int{8, 16, 32, 64} {
			if n.BitLen() <= bits {
				name := fmt.Sprintf("uint%d", bits)
				cs = append(cs, intCase(name, n, native(name)))
				if bits == 64 {
					cs = append(cs, intCase(name, n, native("uint")))
				}
			}
			if n.BitLen() < bits {
				name := fmt.Sprintf("int%d", bits)
				cs = append(cs, intCase(name, n, native(name)), intCase(name, new(big.Int).Neg(n), native(name)))
				if bits == 64 {
					cs = append(cs, intCase(name, n, native("int")))
				}
			}
		}
		decode(x, []abiCase{cs[x.Choose(len(cs))]}, []int{2})
	})
	// what the destinations held may be slices of one array
	var shared []abiCase
	for _, c := range all {
		switch c.d.kind {
		case "seth.Data", "[]byte", "seth.Bytes", "seth.IntSlice", "seth.AddrSlice", "seth.DataSlice":
			shared = append(shared, c)
		}
	}
	if len(shared) == 0 {
		panic("no slices among the destinations")
	}
	r.Explore(mc.Opts{Name: "shared", Budget: -1, Bound: fmt.Sprintf("2 values over %d (value, destination) pairs; the destinations hold slices of one array that are equal, overlap or follow each other, with and without room behind them", len(shared))}, func(x *mc.X) {
		bytes := patBytes(256, 5)
		datas := make([]seth.Data, 8)
		for i := range datas {
			datas[i] = seth.Data(bytes[32*i:][:32])
		}
		ints, addrs := make([]seth.Int, 8), make([]seth.Address, 8)
		spans := [][2][2]int{{{0, 4}, {0, 4}}, {{0, 4}, {2, 6}}, {{0, 3}, {3, 6}}, {{3, 6}, {0, 3}}, {{0, 0}, {0, 0}}}
		span := spans[x.Choose(len(spans))]
		cut := x.Bool()
		var cs []abiCase
		var dst []interface{}
		for i := 0; i < 2; i++ {
			c := shared[x.Choose(len(shared))]
			lo, hi := span[i][0], span[i][1]
			max := 8
			if cut {
				max = hi
			}
			cs = append(cs, c)
			switch c.d.kind {
			case "seth.Data":
				v := seth.Data(bytes[32*lo : 32*hi : 32*max])
				dst = append(dst, &v)
			case "[]byte":
				v := bytes[32*lo : 32*hi : 32*max]
				dst = append(dst, &v)
			case "seth.Bytes":
				v := seth.Bytes(bytes[32*lo : 32*hi : 32*max])
				dst = append(dst, &v)
			case "seth.IntSlice":
				v := seth.IntSlice(ints[lo:hi:max])
				dst = append(dst, &v)
			case "seth.AddrSlice":
				v := seth.AddrSlice(addrs[lo:hi:max])
				dst = append(dst, &v)
			case "seth.DataSlice":
				v := seth.DataSlice(datas[lo:hi:max])
				dst = append(dst, &v)
			}
		}
		x.Logf("spans %v cut %v", span, cut)
		decodeInto(x, cs, nil, dst)
	})
	r.Explore(mc.Opts{Name: "shapes", Budget: -1, Bound: fmt.Sprintf("3 values over %d (value, destination) pairs, fresh or dirty together", len(small))}, func(x *mc.X) {
		var cs []abiCase
		for i := 0; i < 3; i++ {
			cs = append(cs, small[x.Choose(len(small))])
		}
		d := 0
		if r.Thorough {
			d = x.Choose(3)
		} else {
			d = 2 * x.Choose(2)
		}
		decode(x, cs, []int{d, d, d})
	})
	if r.Thorough {
		tiny := sliceCases(true)
		tiny = append(tiny, small[0], bytesCase("string", 33, dString()), bytesCase("bytes", 0, dBytes()), abiCase{vFixed(w32a), dData(), fmt.Sprintf("%x", w32a)}, abiCase{vAddr(adrPat), dAddr(), fmt.Sprintf("%x", adrPat)}, abiCase{vInt("bool", big.NewInt(1)), dBool(), "true"})
		r.Explore(mc.Opts{Name: "long", Budget: -1, Bound: fmt.Sprintf("4-5 values over %d (value, destination) pairs", len(tiny))}, func(x *mc.X) {
			n := 4 + x.Choose(2)
			var cs []abiCase
			var ds []int
			for i := 0; i < n; i++ {
				cs = append(cs, tiny[x.Choose(len(tiny))])
				ds = append(ds, i%3)
			}
			decode(x, cs, ds)
		})
	}
}

// refDecode reads the data the way the specification says. mustFail is set if
// some value lies outside the data; odd if an offset points back into the heads,
// which an implementation may refuse.
func refDecode(data []byte, cs []abiCase) (want []string, mustFail, odd bool) {
	word := func(p int) *big.Int { return new(big.Int).SetBytes(data[p : p+32]) }
	for i, c := range cs {
		if len(data) < 32*i+32 {
			return nil, true, odd
		}
		w := word(32 * i)
		switch {
		case !c.v.dynamic():
			want = append(want, showStatic(c.d.kind, w))
		default:
			if w.Cmp(big.NewInt(int64(len(data)-32))) > 0 {
				return nil, true, odd
			}
			off := int(w.Int64())
			if off < 32*len(cs) {
				odd = true
			}
			n := word(off)
			size := int64(32)
			if c.v.typ == "string" || c.v.typ == "bytes" {
				size = 1
			}
			room := int64(len(data)) - int64(off) - 32
			if n.Cmp(big.NewInt(room/size)) > 0 {
				return nil, true, odd
			}
			body := data[off+32 : off+32+int(n.Int64()*size)]
			s := ""
			if size == 1 {
				s = fmt.Sprintf("%x", body)
			} else {
				for ; len(body) > 0; body = body[32:] {
					switch c.d.kind {
					case "seth.IntSlice":
						s += new(big.Int).SetBytes(body[:32]).String() + ","
					case "seth.AddrSlice":
						s += fmt.Sprintf("%x,", body[12:32])
					default:
						s += fmt.Sprintf("%x,", body[:32])
					}
				}
			}
			want = append(want, s)
		}
	}
	return want, false, odd
}

func showStatic(kind string, w *big.Int) string {
	switch kind {
	case "seth.Int", "big.Int":
		return w.String()
	case "seth.Address":
		return fmt.Sprintf("%x", abiWord(w)[12:])
	case "seth.Data":
		return fmt.Sprintf("%x", abiWord(w))
	}
	return "" // native types and bool: the value of an overlong word is not specified
}

func heapAllocs() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

func runC11(r *mc.R) {
	small := abiCases(true)
	judge := func(x *mc.X, cs []abiCase, data []byte, what string) {
		var dst []interface{}
		txt := what + ":"
		for _, c := range cs {
			dst = append(dst, c.d.make(0))
			txt += " " + c.String()
		}
		x.Step()
		x.Logf("%s data=%x", txt, data)
		want, mustFail, odd := refDecode(data, cs)
		var err error
		func() {
			defer func() {
				if p := recover(); p != nil {
					x.Failf("abi-decode-panic", "%s: panic: %v (data %x)", txt, p, data)
				}
			}()
			// capacity is the length: reads beyond it cannot go unnoticed
			err = seth.DecodeABI(data[:len(data):len(data)], dst...)
		}()
		switch {
		case mustFail && err == nil:
			x.Failf("abi-decode-outside", "%s: accepted although a value lies outside the data %x", txt, data)
		case mustFail || odd && err != nil:
			x.Outcome("refused")
		case err != nil:
			x.Outcome("refused although inside the data")
		default:
			x.Outcome("accepted")
			for i, c := range cs {
				if got := c.d.show(dst[i]); want[i] != "" && got != want[i] {
					x.Failf("abi-decode-wrong", "%s: position %d holds %s, want %s (data %x)", txt, i, got, want[i], data)
				}
			}
		}
		x.Case(txt, string(data))
		x.Validated()
	}
	tuple := func(x *mc.X, n int) []abiCase {
		var cs []abiCase
		for i := 0; i < n; i++ {
			cs = append(cs, small[x.Choose(len(small))])
		}
		return cs
	}
	enc := func(cs []abiCase) []byte {
		var vs []abiVal
		for _, c := range cs {
			vs = append(vs, c.v)
		}
		return abiTuple(vs)
	}
	most := r.N(2, 3)
	r.Explore(mc.Opts{Name: "truncations", Budget: -1, Bound: fmt.Sprintf("tuples of 1-%d of %d values, cut at every byte", most, len(small))}, func(x *mc.X) {
		cs := tuple(x, 1+x.Choose(most))
		data := enc(cs)
		for n := 0; n <= len(data); n++ {
			judge(x, cs, data[:n], fmt.Sprintf("first %d of %d bytes", n, len(data)))
		}
		x.Sample(fmt.Sprint(cs))
	})
	boundary := func(n int) []*big.Int {
		l := int64(n)
		out := []*big.Int{pow2(31), pow2(32), plus(pow2(63), -1), pow2(63), plus(pow2(63), -32), plus(pow2(64), -1), plus(pow2(64), -32), plus(pow2(64), -64), pow2(64), plus(pow2(64), 32), plus(pow2(256), -1), plus(pow2(256), -32), plus(pow2(255), 64), pow2(59), pow2(58), pow2(26)}
		for _, d := range []int64{0, 1, 31, 32, 33, 63, 64, 65, l/32 - 2, l / 32, l - 65, l - 64, l - 63, l - 33, l - 32, l - 31, l - 1, l, l + 1} {
			if d >= 0 {
				out = append(out, big.NewInt(d))
			}
		}
		return out
	}
	r.Explore(mc.Opts{Name: "words", Budget: -1, Bound: fmt.Sprintf("tuples of 1-%d of %d values, each word replaced by 35 boundary values", most, len(small))}, func(x *mc.X) {
		cs := tuple(x, 1+x.Choose(most))
		base := enc(cs)
		data := make([]byte, len(base))
		for w := 0; w < len(base)/32; w++ {
			for _, b := range boundary(len(base)) {
				copy(data, base)
				copy(data[32*w:], abiWord(b))
				judge(x, cs, data, fmt.Sprintf("word %d = 0x%x", w, b))
			}
		}
	})
	r.Explore(mc.Opts{Name: "two-words", Budget: -1, Bound: "single values, and pairs of dynamic values: two words replaced by boundary values, then cut by 0, 1, 31 or 32 bytes"}, func(x *mc.X) {
		var dyn []abiCase
		for _, c := range small {
			if c.v.dynamic() {
				dyn = append(dyn, c)
			}
		}
		cs := []abiCase{dyn[x.Choose(len(dyn))]}
		if r.Thorough && x.Bool() {
			cs = append(cs, dyn[x.Choose(len(dyn))])
		}
		base := enc(cs)
		bs := boundary(len(base))
		n := len(base) / 32
		b1 := bs[x.Choose(len(bs))]
		data := make([]byte, len(base))
		for w := 0; w < n; w++ {
			for v := w + 1; v < n; v++ {
				for _, b2 := range bs {
					copy(data, base)
					copy(data[32*w:], abiWord(b1))
					copy(data[32*v:], abiWord(b2))
					for _, cut := range []int{0, 1, 31, 32} {
						judge(x, cs, data[:len(data)-cut], fmt.Sprintf("word %d = 0x%x, word %d = 0x%x, %d bytes cut", w, b1, v, b2, cut))
					}
				}
			}
		}
	})
	r.Explore(mc.Opts{Name: "memory", Budget: -1, Serial: true, Bound: "each destination type, length word replaced by boundary values: bytes allocated"}, func(x *mc.X) {
		c := small[x.Choose(len(small))]
		base := enc([]abiCase{c})
		bs := boundary(len(base))
		b := bs[x.Choose(len(bs))]
		w := x.Choose(len(base) / 32)
		copy(base[32*w:], abiWord(b))
		before := heapAllocs()
		judge(x, []abiCase{c}, base, fmt.Sprintf("word %d = 0x%x", w, b))
		if d := heapAllocs() - before; d > 1<<20 {
			x.Failf("abi-decode-memory", "%v: decoding %d bytes with word %d = 0x%x allocated %d bytes", c, len(base), w, b, d)
		}
	})
	r.Explore(mc.Opts{Name: "short", Budget: -1, Bound: "no data, and 1-33 bytes of 0x00, 0x20 and 0xff, for every destination type and unknown destinations"}, func(x *mc.X) {
		c := small[x.Choose(len(small))]
		n := x.Choose(34)
		b := []byte{0, 0x20, 0xff}[x.Choose(3)]
		judge(x, []abiCase{c}, bytes.Repeat([]byte{b}, n), fmt.Sprintf("%d bytes of %x", n, b))
		if n == 32 {
			var unknown struct{}
			if err := seth.DecodeABI(make([]byte, 32), &unknown); err == nil {
				x.Failf("abi-decode-unknown", "an unsupported destination was accepted")
			}
		}
	})
}
