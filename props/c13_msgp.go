package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strings"
	"testing/iotest"

	"github.com/philhofer/seth"
	"github.com/tinylib/msgp/msgp"
	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{ID: "C13", Level: "exploration",
		Rule: "for every serialisable type, every field (recursively, to nesting depth 3) set to each of its boundary values while the others are empty or full (thorough: every pair of fields), encoded through both forms, decoded through both into new and used values, " +
			"then every truncation of the encoding decoded through both; a case is a distinct (type, field assignment)",
		Notes: []string{"a nil and an empty byte string or list are equal"},
		Run:   runC13})
}

type msgCodec interface {
	msgp.Encodable
	msgp.Decodable
	msgp.Marshaler
	msgp.Unmarshaler
}

type variant struct {
	what string
	v    reflect.Value
}

var (
	tBytes = reflect.TypeOf([]byte(nil))
	tInt   = reflect.TypeOf(seth.Int{})
	tRaw   = reflect.TypeOf(json.RawMessage(nil))
)

func bigInts() []*big.Int {
	return []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(255), big.NewInt(256), pow2(63), pow2(64), plus(pow2(256), -1), pow2(2100)}
}

// full is a value of the type in which nothing is empty.
func full(t reflect.Type, depth, salt int) reflect.Value {
	v := reflect.New(t).Elem()
	switch {
	case t == tInt:
		n := seth.Int(*plus(pow2(200), int64(salt)))
		v.Set(reflect.ValueOf(n))
	case t == tRaw:
		v.SetBytes([]byte(fmt.Sprintf(`"0x%02x"`, salt&0xff)))
	case t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Uint8:
		v.SetBytes(patBytes(5+salt%3, byte(salt)))
	case t.Kind() == reflect.Array:
		for i := 0; i < t.Len(); i++ {
			v.Index(i).SetUint(uint64(byte(salt + i*3 + 1)))
		}
	case t.Kind() == reflect.String:
		v.SetString(fmt.Sprintf("s%d", salt))
	case t.Kind() == reflect.Bool:
		v.SetBool(true)
	case t.Kind() == reflect.Int || t.Kind() == reflect.Int64:
		v.SetInt(int64(1000 + salt))
	case t.Kind() == reflect.Uint64:
		v.SetUint(uint64(1<<40 + salt))
	case t.Kind() == reflect.Ptr:
		p := reflect.New(t.Elem())
		p.Elem().Set(full(t.Elem(), depth, salt+1))
		v.Set(p)
	case t.Kind() == reflect.Slice:
		if depth > 0 {
			v.Set(reflect.Append(v, full(t.Elem(), depth-1, salt+1), full(t.Elem(), depth-1, salt+2)))
		}
	case t.Kind() == reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath == "" {
				v.Field(i).Set(full(t.Field(i).Type, depth, salt+7*i+1))
			}
		}
	default:
		panic(t.String())
	}
	return v
}

// variants lists the boundary values of a type.
func variants(t reflect.Type, depth int) []variant {
	var out []variant
	add := func(what string, v interface{}) {
		out = append(out, variant{what, reflect.ValueOf(v).Convert(t)})
	}
	switch {
	case t == tInt:
		for _, n := range bigInts() {
			add(fmt.Sprintf("%d bits", n.BitLen()), seth.Int(*n))
		}
	case t == tRaw:
		add("nil", json.RawMessage(nil))
		add("null", json.RawMessage("null"))
		add("object", json.RawMessage(`{"a":["\u00e9",1]}`))
		add("long", json.RawMessage(`"`+strings.Repeat("ab", 300)+`"`))
	case t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Uint8:
		for _, n := range []int{0, 1, 31, 32, 255, 256, 65535, 65536} {
			add(fmt.Sprintf("%d bytes", n), append([]byte{}, patBytes(n, byte(n+1))...))
		}
	case t.Kind() == reflect.Array:
		for _, b := range []byte{0, 0xff, 0x80} {
			v := reflect.New(t).Elem()
			for i := 0; i < t.Len(); i++ {
				v.Index(i).SetUint(uint64(b))
			}
			out = append(out, variant{fmt.Sprintf("all %x", b), v})
		}
		out = append(out, variant{"pattern", full(t, 0, 3)})
	case t.Kind() == reflect.String:
		for _, s := range []string{"", "a", "\x00\xff", strings.Repeat("b", 31), strings.Repeat("c", 32), strings.Repeat("d", 255), strings.Repeat("e", 256), strings.Repeat("f", 65536)} {
			add(fmt.Sprintf("%d characters", len(s)), s)
		}
	case t.Kind() == reflect.Bool:
		add("false", false)
		add("true", true)
	case t.Kind() == reflect.Int || t.Kind() == reflect.Int64:
		for _, n := range []int64{0, 1, -1, 31, 32, -32, -33, 127, 128, -128, -129, 255, 256, 32767, 32768, -32769, 1 << 31, 1<<31 - 1, -1 << 31, -1<<31 - 1, 1<<32 - 1, 1 << 32, math.MaxInt64, math.MinInt64} {
			add(fmt.Sprint(n), n)
		}
	case t.Kind() == reflect.Uint64:
		for _, n := range []uint64{0, 1, 127, 128, 255, 256, 65535, 65536, 1<<32 - 1, 1 << 32, 1 << 63, math.MaxUint64} {
			add(fmt.Sprint(n), n)
		}
	case t.Kind() == reflect.Ptr:
		out = append(out, variant{"nil", reflect.Zero(t)})
		for _, v := range variants(t.Elem(), depth) {
			p := reflect.New(t.Elem())
			p.Elem().Set(v.v)
			out = append(out, variant{"&" + v.what, p})
		}
	case t.Kind() == reflect.Slice:
		out = append(out, variant{"nil", reflect.Zero(t)}, variant{"empty", reflect.MakeSlice(t, 0, 0)})
		if depth == 0 {
			break
		}
		for _, v := range variants(t.Elem(), depth-1) {
			s := reflect.MakeSlice(t, 0, 1)
			out = append(out, variant{"[" + v.what + "]", reflect.Append(s, v.v)})
		}
		for _, n := range []int{2, 15, 16, 17} {
			s := reflect.MakeSlice(t, 0, n)
			for i := 0; i < n; i++ {
				s = reflect.Append(s, full(t.Elem(), 0, i))
			}
			out = append(out, variant{fmt.Sprintf("%d elements", n), s})
		}
	case t.Kind() == reflect.Struct:
		for _, bg := range []string{"empty", "full"} {
			for i := 0; i < t.NumField(); i++ {
				if t.Field(i).PkgPath != "" {
					continue
				}
				for _, f := range variants(t.Field(i).Type, depth) {
					v := reflect.New(t).Elem()
					if bg == "full" {
						v.Set(full(t, depth, 11))
					}
					v.Field(i).Set(f.v)
					out = append(out, variant{bg + " " + t.Field(i).Name + "=" + f.what, v})
				}
			}
		}
	}
	return out
}

// sameValue compares exported content.
func sameValue(a, b reflect.Value) string {
	t := a.Type()
	switch {
	case t == tInt:
		x, y := a.Interface().(seth.Int), b.Interface().(seth.Int)
		if x.Big().Cmp(y.Big()) != 0 {
			return fmt.Sprintf(" %v != %v", x.Big(), y.Big())
		}
	case t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Uint8:
		if !bytes.Equal(a.Bytes(), b.Bytes()) {
			return fmt.Sprintf(" %.80x != %.80x", a.Bytes(), b.Bytes())
		}
	case t.Kind() == reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf(" has %d elements != %d", a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := sameValue(a.Index(i), b.Index(i)); d != "" {
				return fmt.Sprintf("[%d]%s", i, d)
			}
		}
	case t.Kind() == reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf(" nil=%v != nil=%v", a.IsNil(), b.IsNil())
			}
			return ""
		}
		return sameValue(a.Elem(), b.Elem())
	case t.Kind() == reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath == "" {
				if d := sameValue(a.Field(i), b.Field(i)); d != "" {
					return "." + t.Field(i).Name + d
				}
			}
		}
	default:
		if a.Interface() != b.Interface() {
			return fmt.Sprintf(" %.60v != %.60v", a.Interface(), b.Interface())
		}
	}
	return ""
}

func runC13(r *mc.R) {
	types := []reflect.Type{
		reflect.TypeOf(seth.Block{}), reflect.TypeOf(seth.Transaction{}), reflect.TypeOf(seth.Receipt{}), reflect.TypeOf(seth.Log{}), reflect.TypeOf(seth.CompiledBundle{}),
		reflect.TypeOf(seth.CompiledContract{}), reflect.TypeOf(seth.ABIDescriptor{}), reflect.TypeOf(seth.ABIParam{}), reflect.TypeOf(seth.Source{}), reflect.TypeOf(seth.TokenTransfer{}),
	}
	decode := func(x *mc.X, how string, p interface{}, enc []byte) (err error) {
		defer func() {
			if e := recover(); e != nil {
				x.Failf("msgp-panic "+reflect.TypeOf(p).Elem().Name(), "%s: decoding %d bytes panicked: %v", how, len(enc), e)
			}
		}()
		switch how {
		case "stream":
			return p.(msgp.Decodable).DecodeMsg(msgp.NewReader(bytes.NewReader(enc)))
		case "stream by bytes":
			return p.(msgp.Decodable).DecodeMsg(msgp.NewReaderSize(iotest.OneByteReader(bytes.NewReader(enc)), 32))
		default:
			rest, err := p.(msgp.Unmarshaler).UnmarshalMsg(enc)
			if err == nil && len(rest) != 0 {
				x.Failf("msgp-rest", "%d bytes left over", len(rest))
			}
			return err
		}
	}
	check := func(x *mc.X, t reflect.Type, v variant) {
		name := t.Name()
		x.Step()
		x.Logf("%s %s", name, v.what)
		p := reflect.New(t)
		p.Elem().Set(v.v)
		c := p.Interface().(msgCodec)
		var buf bytes.Buffer
		w := msgp.NewWriter(&buf)
		if err := c.EncodeMsg(w); err != nil {
			x.Failf("msgp-encode "+name, "%s %s: EncodeMsg: %v", name, v.what, err)
		}
		w.Flush()
		mem, err := c.MarshalMsg(nil)
		if err != nil {
			x.Failf("msgp-encode "+name, "%s %s: MarshalMsg: %v", name, v.what, err)
		}
		if !bytes.Equal(mem, buf.Bytes()) {
			x.Failf("msgp-forms "+name, "%s %s: the two forms differ\n%.400x\n%.400x", name, v.what, buf.Bytes(), mem)
		}
		if pre, err := c.MarshalMsg([]byte("prefix")); err != nil || string(pre) != "prefix"+string(mem) {
			x.Failf("msgp-append "+name, "%s %s: MarshalMsg does not append", name, v.what)
		}
		for _, how := range []string{"stream", "stream by bytes", "memory"} {
			for _, used := range []bool{false, true} {
				q := reflect.New(t)
				if used {
					q.Elem().Set(full(t, 2, 40))
				}
				in := append([]byte(nil), mem...)
				if err := decode(x, how, q.Interface(), in); err != nil {
					x.Failf("msgp-decode "+name, "%s %s: %s: %v", name, v.what, how, err)
				}
				for i := range in {
					in[i] ^= 0x55
				}
				if d := sameValue(p.Elem(), q.Elem()); d != "" {
					x.Failf("msgp-roundtrip "+name, "%s %s: decoded through %s (used destination: %v), value%s", name, v.what, how, used, d)
				}
			}
		}
		q := reflect.New(t)
		rest, err := q.Interface().(msgp.Unmarshaler).UnmarshalMsg(append(append([]byte(nil), mem...), 0xc0, 7))
		if err != nil || !bytes.Equal(rest, []byte{0xc0, 7}) {
			x.Failf("msgp-rest "+name, "%s %s: with 2 trailing bytes, %x is left over: %v", name, v.what, rest, err)
		}
		step := 1
		if len(mem) > 3000 {
			step = 997
		}
		for n := 0; n < len(mem); n += step {
			for _, how := range []string{"stream", "memory"} {
				if err := decode(x, how, reflect.New(t).Interface(), mem[:n:n]); err == nil {
					x.Failf("msgp-truncated "+name, "%s %s: %s accepted the first %d of %d bytes", name, v.what, how, n, len(mem))
				}
			}
		}
		x.Case(name, v.what)
		x.Validated()
	}
	depth := r.N(2, 3)
	all := make([][]variant, len(types))
	for i, t := range types {
		all[i] = variants(t, depth)
	}
	r.Explore(mc.Opts{Name: "fields", Budget: -1, Bound: fmt.Sprintf("%d types, each field at each boundary value, nesting %d, others empty or full; all truncations (encodings above 3000 bytes: every 997th)", len(types), depth)}, func(x *mc.X) {
		i := x.Choose(len(types))
		v := all[i][x.Choose(len(all[i]))]
		if x.R.Thorough || len(v.what) < 40 {
			x.Sample(types[i].Name() + " " + v.what)
		}
		check(x, types[i], v)
	})
	if r.Thorough {
		r.Explore(mc.Opts{Name: "pairs", Budget: -1, Bound: "every pair of fields at each pair of boundary values, nesting 1, others empty"}, func(x *mc.X) {
			t := types[x.Choose(len(types))]
			i := x.Choose(t.NumField())
			j := x.Choose(t.NumField())
			if j <= i || t.Field(i).PkgPath != "" || t.Field(j).PkgPath != "" {
				x.Prune()
			}
			vi, vj := variants(t.Field(i).Type, 0), variants(t.Field(j).Type, 0)
			a, b := vi[x.Choose(len(vi))], vj[x.Choose(len(vj))]
			v := reflect.New(t).Elem()
			v.Field(i).Set(a.v)
			v.Field(j).Set(b.v)
			check(x, t, variant{t.Field(i).Name + "=" + a.what + " " + t.Field(j).Name + "=" + b.what, v})
		})
	}
}
