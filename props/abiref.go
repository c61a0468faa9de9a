package props

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"

	"github.com/philhofer/seth"
)

// An independent implementation of the contract ABI, written from the
// specification: a value knows its type, its head word or tail, and how to
// make the Go argument and destination that stand for it.
type abiVal struct {
	typ  string
	text string
	word []byte // static: the head word
	tail []byte // dynamic: length word and contents, padded
	arg  func() seth.EtherType
}

func (v abiVal) dynamic() bool { return v.word == nil }

func abiWord(n *big.Int) []byte {
	m := new(big.Int).Mod(n, new(big.Int).Lsh(big.NewInt(1), 256))
	out := make([]byte, 32)
	m.FillBytes(out)
	return out
}

// abiTuple is the canonical encoding of a tuple.
func abiTuple(vs []abiVal) []byte {
	var head, tail []byte
	for _, v := range vs {
		if v.dynamic() {
			head = append(head, abiWord(big.NewInt(int64(32*len(vs)+len(tail))))...)
			tail = append(tail, v.tail...)
		} else {
			head = append(head, v.word...)
		}
	}
	return append(head, tail...)
}

func abiSig(name string, vs []abiVal) string {
	var ts []string
	for _, v := range vs {
		ts = append(ts, v.typ)
	}
	return name + "(" + strings.Join(ts, ",") + ")"
}

func bigS(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 0)
	if !ok {
		panic(s)
	}
	return n
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func plus(a *big.Int, n int64) *big.Int { return new(big.Int).Add(a, big.NewInt(n)) }

func patBytes(n int, seed byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = seed + byte(i*7)
		if b[i] == 0 {
			b[i] = 0xee
		}
	}
	return b
}

func vInt(typ string, n *big.Int) abiVal {
	return abiVal{typ: typ, text: fmt.Sprintf("%s:%v", typ, n), word: abiWord(n), arg: func() seth.EtherType {
		return (*seth.Int)(new(big.Int).Set(n))
	}}
}

func vAddr(b []byte) abiVal {
	w := make([]byte, 32)
	copy(w[12:], b)
	return abiVal{typ: "address", text: fmt.Sprintf("address:%x", b), word: w, arg: func() seth.EtherType {
		var a seth.Address
		copy(a[:], b)
		return &a
	}}
}

func vFixed(b []byte) abiVal {
	w := make([]byte, 32)
	copy(w, b)
	return abiVal{typ: fmt.Sprintf("bytes%d", len(b)), text: fmt.Sprintf("bytes%d:%x", len(b), b), word: w, arg: func() seth.EtherType {
		d := seth.Data(append([]byte(nil), b...))
		return &d
	}}
}

func vBytes(typ string, b []byte) abiVal {
	t := abiWord(big.NewInt(int64(len(b))))
	t = append(t, b...)
	for len(t)%32 != 0 {
		t = append(t, 0)
	}
	return abiVal{typ: typ, text: fmt.Sprintf("%s:%d bytes", typ, len(b)), tail: t, arg: func() seth.EtherType {
		d := seth.Bytes(append([]byte{}, b...))
		return &d
	}}
}

func vSlice(typ string, elems []abiVal) abiVal {
	t := abiWord(big.NewInt(int64(len(elems))))
	var txt []string
	for _, e := range elems {
		t = append(t, e.word...)
		txt = append(txt, e.text)
	}
	return abiVal{typ: typ, text: typ + "[" + strings.Join(txt, " ") + "]", tail: t, arg: func() seth.EtherType {
		switch {
		case typ == "address[]":
			s := make(seth.AddrSlice, len(elems))
			for i := range elems {
				s[i] = *elems[i].arg().(*seth.Address)
			}
			return &s
		case strings.HasPrefix(typ, "bytes"):
			s := make(seth.DataSlice, len(elems))
			for i := range elems {
				s[i] = *elems[i].arg().(*seth.Data)
			}
			return &s
		default:
			s := make(seth.IntSlice, len(elems))
			for i := range elems {
				s[i] = *elems[i].arg().(*seth.Int)
			}
			return &s
		}
	}}
}

var (
	adrLow  = append(make([]byte, 19), 1)
	adrHigh = bytes.Repeat([]byte{0xff}, 20)
	adrPat  = patBytes(20, 0x11)
	w32a    = patBytes(32, 0x21)
	w32b    = bytes.Repeat([]byte{0xff}, 32)
	w32z    = make([]byte, 32)
)

// abiValues is the value alphabet of C09: all boundary values of every type.
func abiValues() []abiVal {
	max := plus(pow2(256), -1)
	var out []abiVal
	for _, n := range []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(255), big.NewInt(256), plus(pow2(64), -1), pow2(64), pow2(248), pow2(255), max} {
		out = append(out, vInt("uint256", n))
	}
	for _, n := range []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(-1), big.NewInt(-256), plus(pow2(255), -1), new(big.Int).Neg(pow2(255)), new(big.Int).Neg(pow2(64))} {
		out = append(out, vInt("int256", n))
	}
	out = append(out, vInt("uint", max), vInt("int", big.NewInt(-2)), vInt("uint8", big.NewInt(255)), vInt("uint8", big.NewInt(0)), vInt("int8", big.NewInt(-128)), vInt("int8", big.NewInt(127)),
		vInt("uint64", plus(pow2(64), -1)), vInt("int64", new(big.Int).Neg(pow2(63))), vInt("uint128", plus(pow2(128), -1)), vInt("bool", big.NewInt(0)), vInt("bool", big.NewInt(1)))
	out = append(out, vAddr(make([]byte, 20)), vAddr(adrLow), vAddr(adrHigh), vAddr(adrPat))
	for _, n := range []int{1, 4, 20, 31, 32} {
		out = append(out, vFixed(patBytes(n, 0x31)))
	}
	out = append(out, vFixed(w32z), vFixed(w32b))
	for _, n := range []int{0, 1, 31, 32, 33, 64, 65} {
		out = append(out, vBytes("bytes", patBytes(n, byte(n))))
	}
	for _, n := range []int{0, 5, 32, 40} {
		out = append(out, vBytes("string", patBytes(n, byte(n+1))))
	}
	for _, k := range []struct {
		t string
		e []abiVal
	}{
		{"uint256[]", []abiVal{vInt("uint256", max), vInt("uint256", big.NewInt(0)), vInt("uint256", big.NewInt(7))}},
		{"int256[]", []abiVal{vInt("int256", big.NewInt(-1)), vInt("int256", big.NewInt(5))}},
		{"address[]", []abiVal{vAddr(adrPat), vAddr(adrHigh), vAddr(adrLow)}},
		{"bytes32[]", []abiVal{vFixed(w32a), vFixed(w32b), vFixed(w32z)}},
		{"bytes4[]", []abiVal{vFixed(patBytes(4, 3)), vFixed(patBytes(4, 9))}},
		{"bool[]", []abiVal{vInt("bool", big.NewInt(1)), vInt("bool", big.NewInt(0))}},
	} {
		for n := 0; n <= len(k.e); n++ {
			out = append(out, vSlice(k.t, k.e[:n]))
		}
	}
	return out
}

// abiSmall is one short and one long value of each shape.
func abiSmall() []abiVal {
	return []abiVal{
		vInt("uint256", bigS("0x123456789abcdef0")), vInt("int256", big.NewInt(-3)), vInt("bool", big.NewInt(1)), vInt("uint8", big.NewInt(9)),
		vAddr(adrPat), vFixed(w32a), vFixed(patBytes(4, 0x41)),
		vBytes("bytes", nil), vBytes("bytes", patBytes(33, 1)), vBytes("string", patBytes(32, 2)), vBytes("string", patBytes(3, 3)),
		vSlice("uint256[]", nil), vSlice("uint256[]", []abiVal{vInt("uint256", big.NewInt(1)), vInt("uint256", big.NewInt(2))}),
		vSlice("address[]", []abiVal{vAddr(adrHigh)}), vSlice("bytes32[]", []abiVal{vFixed(w32a), vFixed(w32b)}),
	}
}

// A destination to decode a value into.
type abiDest struct {
	kind string
	make func(dirty int) interface{} // 0: zero value, 1: holds shorter/smaller, 2: holds longer/larger
	// show renders the content canonically
	show func(p interface{}) string
}

func dInt() abiDest {
	return abiDest{"seth.Int", func(d int) interface{} {
		return (*seth.Int)(new(big.Int).Set([]*big.Int{new(big.Int), big.NewInt(-77), plus(pow2(256), -3)}[d]))
	}, func(p interface{}) string { return (*big.Int)(p.(*seth.Int)).String() }}
}

func dBig() abiDest {
	return abiDest{"big.Int", func(d int) interface{} {
		return new(big.Int).Set([]*big.Int{new(big.Int), big.NewInt(-77), plus(pow2(256), -3)}[d])
	}, func(p interface{}) string { return p.(*big.Int).String() }}
}

func dBool() abiDest {
	return abiDest{"bool", func(d int) interface{} { b := d == 2; return &b }, func(p interface{}) string { return fmt.Sprint(*p.(*bool)) }}
}

func dAddr() abiDest {
	return abiDest{"seth.Address", func(d int) interface{} {
		var a seth.Address
		if d > 0 {
			copy(a[:], patBytes(20, byte(0x90+d)))
		}
		return &a
	}, func(p interface{}) string { return fmt.Sprintf("%x", *p.(*seth.Address)) }}
}

func dirtyBytes(d int) []byte { return [][]byte{nil, patBytes(5, 0x77), patBytes(100, 0x78)}[d] }

func dData() abiDest {
	return abiDest{"seth.Data", func(d int) interface{} { v := seth.Data(dirtyBytes(d)); return &v }, func(p interface{}) string { return fmt.Sprintf("%x", []byte(*p.(*seth.Data))) }}
}

func dString() abiDest {
	return abiDest{"string", func(d int) interface{} { v := string(dirtyBytes(d)); return &v }, func(p interface{}) string { return fmt.Sprintf("%x", *p.(*string)) }}
}

func dByteSlice() abiDest {
	return abiDest{"[]byte", func(d int) interface{} { v := dirtyBytes(d); return &v }, func(p interface{}) string { return fmt.Sprintf("%x", *p.(*[]byte)) }}
}

func dBytes() abiDest {
	return abiDest{"seth.Bytes", func(d int) interface{} { v := seth.Bytes(dirtyBytes(d)); return &v }, func(p interface{}) string { return fmt.Sprintf("%x", []byte(*p.(*seth.Bytes))) }}
}

func dIntSlice() abiDest {
	return abiDest{"seth.IntSlice", func(d int) interface{} {
		v := seth.IntSlice{}
		for i := 0; i < []int{0, 1, 7}[d]; i++ {
			v = append(v, *seth.NewInt(int64(1000 + i)))
		}
		return &v
	}, func(p interface{}) string {
		s := ""
		for i := range *p.(*seth.IntSlice) {
			s += (*big.Int)(&(*p.(*seth.IntSlice))[i]).String() + ","
		}
		return s
	}}
}

func dAddrSlice() abiDest {
	return abiDest{"seth.AddrSlice", func(d int) interface{} {
		v := make(seth.AddrSlice, []int{0, 1, 7}[d])
		for i := range v {
			copy(v[i][:], patBytes(20, 0x55))
		}
		return &v
	}, func(p interface{}) string {
		s := ""
		for _, a := range *p.(*seth.AddrSlice) {
			s += fmt.Sprintf("%x,", a)
		}
		return s
	}}
}

func dDataSlice() abiDest {
	return abiDest{"seth.DataSlice", func(d int) interface{} {
		v := make(seth.DataSlice, []int{0, 1, 7}[d])
		for i := range v {
			v[i] = patBytes(40, 0x56)
		}
		return &v
	}, func(p interface{}) string {
		s := ""
		for _, a := range *p.(*seth.DataSlice) {
			s += fmt.Sprintf("%x,", []byte(a))
		}
		return s
	}}
}

// native makes the destination for a Go integer type.
func native(name string) abiDest {
	return abiDest{name, func(d int) interface{} {
		n := []int64{0, 1, -2}[d]
		switch name {
		case "uint8":
			v := uint8(n)
			return &v
		case "uint16":
			v := uint16(n)
			return &v
		case "uint32":
			v := uint32(n)
			return &v
		case "uint64":
			v := uint64(n)
			return &v
		case "uint":
			v := uint(n)
			return &v
		case "int8":
			v := int8(n)
			return &v
		case "int16":
			v := int16(n)
			return &v
		case "int32":
			v := int32(n)
			return &v
		case "int64":
			v := n
			return &v
		default:
			v := int(n)
			return &v
		}
	}, func(p interface{}) string {
		switch v := p.(type) {
		case *uint8:
			return fmt.Sprint(*v)
		case *uint16:
			return fmt.Sprint(*v)
		case *uint32:
			return fmt.Sprint(*v)
		case *uint64:
			return fmt.Sprint(*v)
		case *uint:
			return fmt.Sprint(*v)
		case *int8:
			return fmt.Sprint(*v)
		case *int16:
			return fmt.Sprint(*v)
		case *int32:
			return fmt.Sprint(*v)
		case *int64:
			return fmt.Sprint(*v)
		case *int:
			return fmt.Sprint(*v)
		}
		return "?"
	}}
}

// abiCase pairs a value with a destination and the canonical rendering expected in it.
type abiCase struct {
	v    abiVal
	d    abiDest
	want string
}

func (c abiCase) String() string { return c.v.text + "->" + c.d.kind }

func intCase(typ string, n *big.Int, d abiDest) abiCase { return abiCase{vInt(typ, n), d, n.String()} }

func bytesCase(typ string, n int, d abiDest) abiCase {
	b := patBytes(n, byte(n+3))
	return abiCase{vBytes(typ, b), d, fmt.Sprintf("%x", b)}
}

func sliceCases(small bool) []abiCase {
	var out []abiCase
	ints := []*big.Int{plus(pow2(256), -1), big.NewInt(0), big.NewInt(258)}
	addrs := [][]byte{adrPat, adrHigh, adrLow}
	words := [][]byte{w32a, w32b, w32z}
	for n := 0; n <= 3; n++ {
		if small && n != 0 && n != 2 {
			continue
		}
		var vi, va, vw []abiVal
		var si, sa, sw string
		for i := 0; i < n; i++ {
			vi, si = append(vi, vInt("uint256", ints[i])), si+ints[i].String()+","
			va, sa = append(va, vAddr(addrs[i])), sa+fmt.Sprintf("%x,", addrs[i])
			vw, sw = append(vw, vFixed(words[i])), sw+fmt.Sprintf("%x,", words[i])
		}
		out = append(out, abiCase{vSlice("uint256[]", vi), dIntSlice(), si}, abiCase{vSlice("address[]", va), dAddrSlice(), sa}, abiCase{vSlice("bytes32[]", vw), dDataSlice(), sw})
	}
	return out
}

// abiCases is the alphabet of C10.
func abiCases(small bool) []abiCase {
	max := plus(pow2(256), -1)
	var out []abiCase
	us := []*big.Int{big.NewInt(0), big.NewInt(1), plus(pow2(64), 5), pow2(255), max}
	lens := []int{0, 1, 31, 32, 33, 64, 65}
	if small {
		us = []*big.Int{big.NewInt(0), plus(pow2(248), 7)}
		lens = []int{0, 31, 33}
	}
	for _, n := range us {
		out = append(out, intCase("uint256", n, dInt()), intCase("uint256", n, dBig()))
	}
	for _, w := range []uint{8, 16, 32, 64} {
		name := fmt.Sprintf("int%d", w)
		if !small || w == 8 {
			for _, n := range []*big.Int{plus(pow2(w-1), -1), new(big.Int).Neg(pow2(w - 1)), big.NewInt(-1)} {
				out = append(out, intCase(name, n, native(name)))
			}
		}
		if !small || w == 64 {
			for _, n := range []*big.Int{plus(pow2(w), -1), big.NewInt(0)} {
				out = append(out, intCase("u"+name, n, native("u"+name)))
			}
		}
	}
	if !small {
		out = append(out, intCase("int64", big.NewInt(-5), native("int")), intCase("uint64", plus(pow2(64), -2), native("uint")))
	}
	out = append(out, abiCase{vInt("bool", big.NewInt(0)), dBool(), "false"}, abiCase{vInt("bool", big.NewInt(1)), dBool(), "true"})
	out = append(out, abiCase{vAddr(adrPat), dAddr(), fmt.Sprintf("%x", adrPat)})
	if !small {
		out = append(out, abiCase{vAddr(make([]byte, 20)), dAddr(), fmt.Sprintf("%040x", 0)})
	}
	out = append(out, abiCase{vFixed(w32a), dData(), fmt.Sprintf("%x", w32a)}, abiCase{vFixed(w32z), dData(), fmt.Sprintf("%x", w32z)})
	for _, n := range lens {
		out = append(out, bytesCase("string", n, dString()), bytesCase("bytes", n, dByteSlice()), bytesCase("bytes", n, dBytes()))
	}
	return append(out, sliceCases(small)...)
}
