package props

import (
	"bytes"
	"encoding"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"github.com/philhofer/seth"
	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{ID: "C12", Level: "exploration",
		Rule: "round trips: every value of each type's alphabet (all short data, each byte of a fixed-size value set to each of 256 values, integers around every power of two) through every way of formatting and parsing, into fresh and used destinations; " +
			"grammar: every string up to 5 (thorough 6) characters over a digit/prefix/sign/junk alphabet, and every one-character edit of valid strings; a case is a distinct (type, text)",
		Notes: []string{"numbers without 0x are only judged when they are plain decimals; data and numbers with an odd number of digits or leading zeros are accepted by design and not judged"},
		Run:   runC12})
}

type textCodec interface {
	encoding.TextMarshaler
	encoding.TextUnmarshaler
}

type textType struct {
	name  string
	size  int // fixed size in bytes, 0: data, -1: quantity, -2: 64-bit quantity
	fresh func(dirty bool) textCodec
	raw   func(v textCodec) []byte
	set   func(v textCodec, b []byte)
	str   func(v textCodec) (string, bool)
	parse func(s string) (textCodec, error)
	from  func(v textCodec, s string) error
	scan  string
}

func textTypes() []textType {
	junk := func(b []byte) {
		for i := range b {
			b[i] = 0xb7
		}
	}
	return []textType{
		{"Address", 20, func(d bool) textCodec {
			v := new(seth.Address)
			if d {
				junk(v[:])
			}
			return v
		}, func(v textCodec) []byte { return v.(*seth.Address)[:] }, func(v textCodec, b []byte) { copy(v.(*seth.Address)[:], b) },
			func(v textCodec) (string, bool) { return v.(*seth.Address).String(), true },
			func(s string) (textCodec, error) { return seth.ParseAddress(s) },
			func(v textCodec, s string) error { return v.(*seth.Address).FromString(s) }, "%a"},
		{"Hash", 32, func(d bool) textCodec {
			v := new(seth.Hash)
			if d {
				junk(v[:])
			}
			return v
		}, func(v textCodec) []byte { return v.(*seth.Hash)[:] }, func(v textCodec, b []byte) { copy(v.(*seth.Hash)[:], b) },
			func(v textCodec) (string, bool) { return v.(*seth.Hash).String(), true },
			func(s string) (textCodec, error) { return seth.ParseHash(s) },
			func(v textCodec, s string) error { return v.(*seth.Hash).FromString(s) }, "%h"},
		{"Signature", 65, func(d bool) textCodec {
			v := new(seth.Signature)
			if d {
				junk(v[:])
			}
			return v
		}, func(v textCodec) []byte { return v.(*seth.Signature)[:] }, func(v textCodec, b []byte) { copy(v.(*seth.Signature)[:], b) },
			func(v textCodec) (string, bool) { return v.(*seth.Signature).String(), true },
			func(s string) (textCodec, error) { return seth.ParseSignature(s) },
			func(v textCodec, s string) error { return v.(*seth.Signature).FromString(s) }, ""},
		{"PrivateKey", 32, func(d bool) textCodec {
			v := new(seth.PrivateKey)
			if d {
				junk(v[:])
			}
			return v
		}, func(v textCodec) []byte { return v.(*seth.PrivateKey)[:] }, func(v textCodec, b []byte) { copy(v.(*seth.PrivateKey)[:], b) },
			func(v textCodec) (string, bool) { return v.(*seth.PrivateKey).String(), true },
			func(s string) (textCodec, error) { return seth.ParsePrivateKey(s) },
			func(v textCodec, s string) error { return v.(*seth.PrivateKey).FromString(s) }, ""},
		{"PublicKey", 64, func(d bool) textCodec {
			v := new(seth.PublicKey)
			if d {
				junk(v[:])
			}
			return v
		}, func(v textCodec) []byte { return v.(*seth.PublicKey)[:] }, func(v textCodec, b []byte) { copy(v.(*seth.PublicKey)[:], b) },
			func(v textCodec) (string, bool) { return v.(*seth.PublicKey).String(), true },
			func(s string) (textCodec, error) { return seth.ParsePublicKey(s) },
			func(v textCodec, s string) error { return v.(*seth.PublicKey).FromString(s) }, ""},
		{"Data", 0, func(d bool) textCodec {
			v := new(seth.Data)
			if d {
				*v = bytes.Repeat([]byte{0xb7}, 40)
			}
			return v
		}, func(v textCodec) []byte { return *v.(*seth.Data) }, func(v textCodec, b []byte) { *v.(*seth.Data) = append(seth.Data{}, b...) },
			func(v textCodec) (string, bool) { return v.(*seth.Data).String(), true }, nil, nil, ""},
		{"Bytes", 0, func(d bool) textCodec {
			v := new(seth.Bytes)
			if d {
				*v = bytes.Repeat([]byte{0xb7}, 40)
			}
			return v
		}, func(v textCodec) []byte { return *v.(*seth.Bytes) }, func(v textCodec, b []byte) { *v.(*seth.Bytes) = append(seth.Bytes{}, b...) },
			func(v textCodec) (string, bool) { return v.(*seth.Bytes).String(), true }, nil, nil, ""},
		{"Int", -1, func(d bool) textCodec {
			v := new(seth.Int)
			if d {
				v.Big().Set(new(big.Int).Neg(plus(pow2(300), 12345)))
			}
			return v
		}, func(v textCodec) []byte {
			n := v.(*seth.Int).Big()
			if n.Sign() < 0 {
				return []byte("negative")
			}
			return n.Bytes()
		}, func(v textCodec, b []byte) { v.(*seth.Int).Big().SetBytes(b) },
			func(v textCodec) (string, bool) { return v.(*seth.Int).String(), true },
			func(s string) (textCodec, error) { return seth.ParseInt(s) },
			func(v textCodec, s string) error { return v.(*seth.Int).FromString(s) }, "%v"},
		{"Uint64", -2, func(d bool) textCodec {
			v := new(seth.Uint64)
			if d {
				*v = 0xb7b7b7b7b7b7b7b7
			}
			return v
		}, func(v textCodec) []byte {
			return new(big.Int).SetUint64(uint64(*v.(*seth.Uint64))).Bytes()
		},
			func(v textCodec, b []byte) {
				*v.(*seth.Uint64) = seth.Uint64(new(big.Int).SetBytes(b).Uint64())
			},
			func(v textCodec) (string, bool) { return "", false }, nil, nil, ""},
	}
}

// canonText is the protocol's form of the value with these bytes.
func (t *textType) canon(b []byte) string {
	if t.size < 0 {
		return fmt.Sprintf("0x%x", new(big.Int).SetBytes(b))
	}
	return "0x" + hex.EncodeToString(b)
}

func (t *textType) norm(b []byte) []byte {
	if t.size < 0 {
		return bytes.TrimLeft(b, "\x00")
	}
	return b
}

// value of text t for this type: 1 accept (with bytes), 0 not judged, -1 reject
func (t *textType) meaning(s string) ([]byte, int) {
	isHex := func(c byte) bool {
		return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
	}
	if strings.HasPrefix(s, "0x") {
		for i := 2; i < len(s); i++ {
			if !isHex(s[i]) {
				return nil, -1
			}
		}
		d := s[2:]
		switch {
		case t.size > 0:
			if len(d) != 2*t.size {
				return nil, -1
			}
		case t.size == 0:
			if len(d)%2 != 0 {
				return nil, 0
			}
		default:
			if d == "" {
				return nil, 0
			}
			n, _ := new(big.Int).SetString(d, 16)
			if t.size == -2 && n.BitLen() > 64 {
				return nil, -1
			}
			return n.Bytes(), 1
		}
		b, err := hex.DecodeString(d)
		if err != nil {
			return nil, -1
		}
		return b, 1
	}
	if t.size >= 0 {
		return nil, -1
	}
	if s == "" {
		return nil, -1
	}
	if u := strings.TrimLeft(s, "+-"); strings.HasPrefix(u, "0x") || strings.HasPrefix(u, "0X") {
		return nil, 0
	}
	plain := true
	for i := range s {
		if s[i] < '0' || s[i] > '9' {
			plain = false
		}
		if strings.IndexByte("gxyz xX,.\"\x80/:@G`", s[i]) >= 0 && !(i == 1 && s[0] == '0' && s[i] == 'X') {
			return nil, -1
		}
	}
	if plain && (s == "0" || s[0] != '0') {
		n, _ := new(big.Int).SetString(s, 10)
		if t.size == -2 && n.BitLen() > 64 {
			return nil, -1
		}
		return n.Bytes(), 1
	}
	if s[0] == '-' && t.size == -2 && strings.Trim(s, "-0_") != "" {
		return nil, -1
	}
	return nil, 0
}

func runC12(r *mc.R) {
	types := textTypes()
	roundtrip := func(x *mc.X, t *textType, b []byte) {
		want := t.canon(b)
		key := func(s string) string { return "text-" + s + " " + t.name }
		x.Step()
		x.Logf("%s %x", t.name, b)
		v := t.fresh(false)
		t.set(v, b)
		nb := t.norm(b)
		texts := map[string]string{}
		m, err := v.MarshalText()
		if err != nil {
			x.Failf(key("marshal"), "%s %x: MarshalText: %v", t.name, b, err)
		}
		texts["MarshalText"] = string(m)
		if s, ok := t.str(v); ok {
			texts["String"] = s
		}
		j, err := json.Marshal(v)
		if err != nil {
			x.Failf(key("json"), "%s %x: json: %v", t.name, b, err)
		}
		if len(j) < 2 || j[0] != '"' {
			x.Failf(key("json"), "%s %x: json gave %s", t.name, b, j)
		}
		texts["JSON"] = string(j[1 : len(j)-1])
		for how, s := range texts {
			if s != want {
				x.Failf(key("format"), "%s %x formatted by %s as %q, want %q", t.name, b, how, s, want)
			}
		}
		if !bytes.Equal(t.raw(v), nb) {
			x.Failf(key("mutated"), "formatting %s %x changed it", t.name, b)
		}
		for _, dirty := range []bool{false, true} {
			check := func(how string, v textCodec, err error) {
				if err != nil {
					x.Failf(key("parse"), "%s: %s of %q: %v", t.name, how, want, err)
				}
				if got := t.raw(v); !bytes.Equal(got, nb) {
					x.Failf(key("parse"), "%s: %s of %q (used destination: %v) gave %x", t.name, how, want, dirty, got)
				}
			}
			for _, s := range []string{want, "0x" + strings.ToUpper(want[2:])} {
				v = t.fresh(dirty)
				check("UnmarshalText", v, v.UnmarshalText([]byte(s)))
				v = t.fresh(dirty)
				check("json", v, json.Unmarshal([]byte(`"`+s+`"`), v))
				if t.from != nil {
					v = t.fresh(dirty)
					check("FromString", v, t.from(v, s))
				}
				if t.parse != nil {
					p, err := t.parse(s)
					check("Parse", p, err)
				}
				if t.scan != "" {
					v = t.fresh(dirty)
					n, err := fmt.Sscanf(s+" tail", t.scan, v)
					if n != 1 && err == nil {
						err = fmt.Errorf("scanned %d items", n)
					}
					check("Scan", v, err)
				}
			}
			if t.size < 0 {
				v = t.fresh(dirty)
				check("json number", v, json.Unmarshal([]byte(new(big.Int).SetBytes(b).String()), v))
			}
		}
		x.Case(t.name, want)
		x.Validated()
	}
	r.Explore(mc.Opts{Name: "roundtrip", Budget: -1, Bound: "fixed-size types: each byte x 256 values over 3 backgrounds; data: all of 0-2 bytes and lengths to 70; integers: 0-4096 and 2^k-1, 2^k, 2^k+1 for k<=264"}, func(x *mc.X) {
		t := &types[x.Choose(len(types))]
		switch {
		case t.size > 0:
			b := bytes.Repeat([]byte{[]byte{0, 0xff, 0x5c}[x.Choose(3)]}, t.size)
			i := x.Choose(t.size)
			for c := 0; c < 256; c++ {
				b[i] = byte(c)
				roundtrip(x, t, b)
			}
		case t.size == 0:
			switch k := x.Choose(1 + 256 + 70); {
			case k == 0:
				roundtrip(x, t, []byte{})
				for c := 0; c < 256; c++ {
					roundtrip(x, t, []byte{byte(c)})
				}
			case k <= 256:
				for c := 0; c < 256; c++ {
					roundtrip(x, t, []byte{byte(k - 1), byte(c)})
				}
			default:
				roundtrip(x, t, patBytes(k-256, 0))
				roundtrip(x, t, make([]byte, k-256))
			}
		default:
			max := 264
			if t.size == -2 {
				max = 63
			}
			k := x.Choose(max + 17)
			if k > max {
				for i := 0; i < 256; i++ {
					roundtrip(x, t, big.NewInt(int64((k-max-1)*256+i)).Bytes())
				}
				return
			}
			for d := int64(-1); d <= 1; d++ {
				roundtrip(x, t, plus(pow2(uint(k)), d).Bytes())
			}
			if k == max {
				roundtrip(x, t, plus(new(big.Int).Lsh(big.NewInt(2), uint(k)), -1).Bytes())
			}
		}
	})
	judge := func(x *mc.X, t *textType, s string) {
		b, m := t.meaning(s)
		if m == 0 {
			return
		}
		x.Step()
		x.Logf("%s %q", t.name, s)
		check := func(how string, v textCodec, err error) {
			if m < 0 && err == nil {
				x.Failf("text-accepted "+t.name, "%s: %s accepted %q as %x", t.name, how, s, t.raw(v))
			}
			if m > 0 && err != nil {
				x.Failf("text-refused "+t.name, "%s: %s refused %q: %v", t.name, how, s, err)
			}
			if m > 0 && !bytes.Equal(t.raw(v), t.norm(b)) {
				x.Failf("text-wrong "+t.name, "%s: %s read %q as %x, want %x", t.name, how, s, t.raw(v), b)
			}
		}
		v := t.fresh(true)
		check("UnmarshalText", v, v.UnmarshalText([]byte(s)))
		if t.from != nil {
			v = t.fresh(true)
			check("FromString", v, t.from(v, s))
		}
		if t.parse != nil {
			p, err := t.parse(s)
			check("Parse", p, err)
		}
		if j, err := json.Marshal(s); err == nil && string(j[1:len(j)-1]) == s {
			v = t.fresh(true)
			check("json", v, json.Unmarshal(j, v))
		}
		x.Case(t.name, s)
		x.Outcome(map[int]string{-1: "refused", 1: "accepted"}[m])
		x.Validated()
	}
	const alpha = "01aFgxX-+ _\x80"
	n := r.N(5, 6)
	r.Explore(mc.Opts{Name: "grammar", Budget: -1, Bound: fmt.Sprintf("all strings up to %d characters over %q, for each type", n, alpha)}, func(x *mc.X) {
		t := &types[x.Choose(len(types))]
		l := x.Choose(n + 1)
		s := ""
		for i := 0; i < l-2; i++ {
			c := x.Choose(len(alpha))
			s += alpha[c : c+1]
		}
		if l < 2 {
			judge(x, t, s)
		}
		for i := 0; l >= 1 && i < len(alpha); i++ {
			if l == 1 {
				judge(x, t, alpha[i:i+1])
			}
			for j := 0; l > 1 && j < len(alpha); j++ {
				judge(x, t, s+alpha[i:i+1]+alpha[j:j+1])
			}
		}
	})
	r.Explore(mc.Opts{Name: "edits", Budget: -1, Bound: "every deletion, and insertion and replacement by each of 256 characters, in a full-length value of each type, and other prefixes"}, func(x *mc.X) {
		t := &types[x.Choose(len(types))]
		size := t.size
		switch size {
		case 0:
			size = 5
		case -1:
			size = 33
		case -2:
			size = 8
		}
		s := "0x" + hex.EncodeToString(patBytes(size, 0x83))
		i := x.Choose(len(s) + 1)
		if i == 0 {
			for _, p := range []string{"", "0X", "x", "0", "00", "#", " 0x", "-0x", "+0x", "0x0x"} {
				judge(x, t, p+s[2:])
			}
			judge(x, t, s+"00")
			judge(x, t, s+"\n")
			judge(x, t, s+s[2:])
			judge(x, t, s[:len(s)-2])
		}
		if i < len(s) {
			judge(x, t, s[:i]+s[i+1:])
		}
		for c := 0; c < 256; c++ {
			judge(x, t, s[:i]+string([]byte{byte(c)})+s[i:])
			if i < len(s) {
				judge(x, t, s[:i]+string([]byte{byte(c)})+s[i+1:])
			}
		}
	})
}
