package props

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"strings"

	"github.com/philhofer/seth/cc"
	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{ID: "C19", Level: "exploration",
		Rule: "every string over {- + 0 1 9 . space e} up to a length, and every digit-count boundary, parsed as a rate (three ways) and as an amount of currencies with 0 to 20 digits (four ways) into fresh and used destinations, against a recogniser and exact scaling written from the property; every boundary value printed and parsed back; " +
			"a case is a distinct string or value and parser",
		Run: runC19})
	mc.Register(&mc.Prop{ID: "C20", Level: "exploration",
		Rule: "every combination of boundary amounts, rates, signs and currency pairs converted, and every pair of boundary amounts added, subtracted, compared and negated, against exact rational arithmetic; rates from boundary and near-tie floating-point numbers; " +
			"a case is a distinct operation and operands",
		Run: runC20})
}

var ccCurs = func() (out []cc.Currency) {
	for _, d := range []int{0, 1, 3, 4, 8, 9, 16, 18, 20} {
		out = append(out, cc.NewCurrency(fmt.Sprintf("VT%d", d), d))
	}
	return
}()

func ten(n int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil) }

// refDecimal recognises [-]digits[.digits] with a digit somewhere and at most d after the point.
func refDecimal(s string, d int) (*big.Int, bool) {
	neg := strings.HasPrefix(s, "-")
	if neg {
		s = s[1:]
	}
	ip, fp := s, ""
	if i := strings.IndexByte(s, '.'); i >= 0 {
		ip, fp = s[:i], s[i+1:]
	}
	if ip+fp == "" || len(fp) > d {
		return nil, false
	}
	n := new(big.Int)
	for _, c := range []byte(ip + fp + strings.Repeat("0", d-len(fp))) {
		if c < '0' || c > '9' {
			return nil, false
		}
		n.Mul(n, big.NewInt(10)).Add(n, big.NewInt(int64(c-'0')))
	}
	if neg {
		n.Neg(n)
	}
	return n, true
}

func refPrint(n *big.Int, d int) string {
	s := new(big.Int).Abs(n).String()
	for len(s) <= d {
		s = "0" + s
	}
	if d > 0 {
		s = s[:len(s)-d] + "." + s[len(s)-d:]
	}
	if n.Sign() < 0 {
		s = "-" + s
	}
	return s
}

func rateInt(r *cc.Rate) *big.Int { return (*big.Int)(r) }

func newRate(n *big.Int) *cc.Rate { return (*cc.Rate)(new(big.Int).Set(n)) }

// ccVerdict compares one parse with the reference.
func ccVerdict(x *mc.X, what, s string, got *big.Int, err error, want *big.Int, ok bool) {
	x.Step()
	switch {
	case ok && err != nil:
		x.Failf("refuses", "%s(%q): %v, want %v", what, s, err, want)
	case !ok && err == nil:
		x.Failf("accepts", "%s(%q) = %v, want an error", what, s, got)
	case ok && got.Cmp(want) != 0:
		x.Failf("wrong-value", "%s(%q) = %v, want %v", what, s, got, want)
	}
	x.Case(what, s)
}

// ccString runs every parser on one string.
func ccString(x *mc.X, s string) {
	x.Logf("%q", s)
	want, ok := refDecimal(s, cc.RateDigits)
	r, err := cc.ParseRate(s)
	ccVerdict(x, "ParseRate", s, rateInt(r), err, want, ok)
	for _, old := range []int64{0, 7, -123456789} {
		if s != "null" {
			for _, q := range []string{s, `"` + s + `"`} {
				d := newRate(big.NewInt(old))
				err := d.UnmarshalJSON([]byte(q))
				ccVerdict(x, "Rate.UnmarshalJSON", q, rateInt(d), err, want, ok)
			}
		}
		if !strings.ContainsAny(s, " e") {
			d := newRate(big.NewInt(old))
			n, err := fmt.Sscan(s, d)
			if err == nil && n != 1 {
				x.Failf("scan-count", "Sscan(%q) reads %d values", s, n)
			}
			ccVerdict(x, "Rate.Scan", s, rateInt(d), err, want, ok)
			p := &cc.Pair{From: cc.BTC, To: cc.EUR, Rate: *newRate(big.NewInt(old))}
			err = p.FromString(s + " USD/ETH")
			ccVerdict(x, "Pair.FromString", s, rateInt(&p.Rate), err, want, ok)
			if err == nil && (p.From != cc.ETH || p.To != cc.USD) {
				x.Failf("pair", "%q parses as %v to %v", s+" USD/ETH", p.From, p.To)
			}
		}
	}
	for _, c := range ccCurs {
		want, ok := refDecimal(s, c.Digits())
		a, err := c.ParseAmount(s)
		got := new(big.Int)
		if a != nil {
			got = &a.Amount
		}
		ccVerdict(x, c.Name()+".ParseAmount", s, got, err, want, ok)
		if err == nil && a.Currency != c {
			x.Failf("currency", "%s.ParseAmount(%q) is in %s", c, s, a.Currency)
		}
		if strings.Contains(s, " ") {
			continue
		}
		text := s + " " + c.Name()
		a, err = cc.ParseAmount(text)
		if a != nil {
			got = &a.Amount
		}
		ccVerdict(x, "ParseAmount", text, got, err, want, ok)
		for _, old := range []int64{7, -123456789} {
			d := &cc.Amount{Currency: cc.BTC, Amount: *big.NewInt(old)}
			err := d.UnmarshalText([]byte(text))
			ccVerdict(x, "Amount.UnmarshalText over a used amount", text, &d.Amount, err, want, ok)
			if err == nil && d.Currency != c {
				x.Failf("currency", "%q is read as %s", text, d.Currency)
			}
			d = &cc.Amount{Currency: c, Amount: *big.NewInt(old)}
			_, err = fmt.Sscan(text, d)
			ccVerdict(x, "Amount.Scan over a used amount", text, &d.Amount, err, want, ok)
		}
		if len(s) < 4 {
			for _, u := range []string{" x", " 1", " " + c.Name(), " 1 " + c.Name(), "\tx"} {
				if _, err := cc.ParseAmount(text + u); err == nil {
					x.Failf("more-text", "ParseAmount(%q) succeeds", text+u)
				}
				if err := new(cc.Amount).UnmarshalText([]byte(text + u)); err == nil {
					x.Failf("more-text", "UnmarshalText(%q) succeeds", text+u)
				}
			}
		}
		for _, u := range []string{"NOPE", c.Name() + "x", strings.ToLower(c.Name())} {
			if _, err := cc.ParseAmount(s + " " + u); err == nil {
				x.Failf("unknown-currency", "ParseAmount(%q) succeeds", s+" "+u)
			}
		}
	}
}

func runC19(r *mc.R) {
	alpha := "-+019. e"
	maxLen := r.N(6, 7)
	r.Explore(mc.Opts{Name: "strings", Budget: -1, Share: 0.6, Bound: fmt.Sprintf("all strings over %q up to length %d", alpha, maxLen)}, func(x *mc.X) {
		n := x.Choose(maxLen + 1)
		b := make([]byte, n)
		for i := range b {
			b[i] = alpha[x.Choose(len(alpha))]
		}
		ccString(x, string(b))
	})
	lens := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 18, 19, 20, 21, 40}
	fill := []string{"0", "1", "9", "123456789"}
	r.Explore(mc.Opts{Name: "digit-counts", Budget: -1, Bound: "all integer and fraction lengths around every precision x 4 fillings x sign"}, func(x *mc.X) {
		mk := func() string {
			n := lens[x.Choose(len(lens))]
			f := fill[x.Choose(len(fill))]
			return strings.Repeat(f, n/len(f)+1)[:n]
		}
		s := mk()
		if x.Bool() {
			s += "." + mk()
		}
		if x.Bool() {
			s = "-" + s
		}
		ccString(x, s)
	})
	r.Explore(mc.Opts{Name: "odd-strings", Budget: -1, Bound: "fixed list"}, func(x *mc.X) {
		l := []string{"1_0", "1_000.5", "0x10", "0b1", "0o7", "1e3", "1E3", "Inf", "NaN", "inf", "null", "٣", "１", "1,5", "1.5.", ".1.", "1 2", "\t1", "1\n", "1\x00", "\"", "\"1", "1\"", "--1", "-+1", "0-1", "1-", "01", "-00.10", "1/2", "½"}
		s := l[x.Choose(len(l))]
		// only the parsers that take the whole string
		want, ok := refDecimal(s, cc.RateDigits)
		rt, err := cc.ParseRate(s)
		ccVerdict(x, "ParseRate", s, rateInt(rt), err, want, ok)
		d := newRate(big.NewInt(5))
		if s != "null" {
			err = d.UnmarshalJSON([]byte(s))
			ccVerdict(x, "Rate.UnmarshalJSON", s, rateInt(d), err, want, ok)
		}
		for _, c := range ccCurs {
			want, ok := refDecimal(s, c.Digits())
			got := new(big.Int)
			a, err := c.ParseAmount(s)
			if a != nil {
				got = &a.Amount
			}
			ccVerdict(x, c.Name()+".ParseAmount", s, got, err, want, ok)
		}
	})
	r.Explore(mc.Opts{Name: "print", Budget: -1, Bound: "boundary values of every precision, printed and parsed back"}, func(x *mc.X) {
		vals := ccValues(x.R.Thorough)
		n := vals[x.Choose(len(vals))]
		x.Step()
		x.Logf("%v", n)
		rt := newRate(n)
		if s := rt.String(); s != refPrint(n, 8) {
			x.Failf("print", "rate %v prints as %s", n, s)
		}
		b, err := json.Marshal(rt)
		back := newRate(big.NewInt(99))
		if err != nil || json.Unmarshal(b, back) != nil || rateInt(back).Cmp(n) != 0 {
			x.Failf("json", "rate %v marshals to %s (%v) and back to %v", n, b, err, back)
		}
		for _, c := range ccCurs {
			a := &cc.Amount{Currency: c, Amount: *new(big.Int).Set(n)}
			want := refPrint(n, c.Digits()) + " " + c.Name()
			if s := a.String(); s != want {
				x.Failf("print", "%v units of %s print as %q, want %q", n, c, s, want)
			}
			b, err := json.Marshal(a)
			back := &cc.Amount{Currency: cc.ETH, Amount: *big.NewInt(99)}
			if err != nil || json.Unmarshal(b, back) != nil || back.Currency != c || back.Amount.Cmp(n) != 0 {
				x.Failf("json", "%s marshals to %s (%v) and back to %v", want, b, err, back)
			}
			p := &cc.Pair{From: c, To: cc.USD, Rate: *newRate(n)}
			if s := p.String(); s != refPrint(n, 8)+" USD/"+c.Name() {
				x.Failf("print", "pair prints as %q", s)
			}
			q, err := cc.ParsePair(p.String())
			if err != nil || q.From != c || q.To != cc.USD || rateInt(&q.Rate).Cmp(n) != 0 {
				x.Failf("pair", "pair %v parses back as %v, %v", p, q, err)
			}
			x.Case("print", n.String(), c.Name())
		}
	})
}

func ccValues(all bool) []*big.Int {
	var out []*big.Int
	add := func(n *big.Int) {
		out = append(out, n, new(big.Int).Neg(n))
	}
	for i := int64(0); i <= 12; i++ {
		add(big.NewInt(i))
	}
	step := 1
	for d := 1; d <= 40; d += step {
		for _, k := range []int64{-1, 0, 1} {
			add(plus(ten(d), k))
		}
		add(new(big.Int).Mul(ten(d), big.NewInt(5)))
		if all {
			add(new(big.Int).Div(ten(d), big.NewInt(3)))
			add(new(big.Int).Div(new(big.Int).Mul(ten(d), big.NewInt(2)), big.NewInt(3)))
		}
	}
	for _, b := range []uint{31, 32, 53, 63, 64, 128, 256} {
		add(pow2(b))
		add(plus(pow2(b), -1))
	}
	return out
}

func runC20(r *mc.R) {
	one := ten(cc.RateDigits)
	amounts := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(2), big.NewInt(3), big.NewInt(9), big.NewInt(10), big.NewInt(99999999), one, plus(one, 1), plus(ten(18), -1), ten(18), plus(ten(18), 1), ten(26), plus(ten(26), -1), bigS("123456789012345678901234567890"), pow2(64), plus(pow2(256), -1)}
	rates := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(2), big.NewInt(3), big.NewInt(7), plus(one, -1), one, plus(one, 1), new(big.Int).Div(one, big.NewInt(2)), new(big.Int).Div(one, big.NewInt(3)), new(big.Int).Mul(one, big.NewInt(3)), plus(ten(16), -1), ten(16), plus(ten(16), 1), ten(17), bigS("123456789012345678"), pow2(64)}
	neg := func(l []*big.Int) []*big.Int {
		for _, n := range l[1:] {
			l = append(l, new(big.Int).Neg(n))
		}
		return l
	}
	amounts, rates = neg(amounts), neg(rates)
	near := func(x *mc.X, key, what string, got *big.Int, exact *big.Rat) {
		d := new(big.Rat).Sub(new(big.Rat).SetInt(got), exact)
		if d.Abs(d).Cmp(big.NewRat(1, 1)) >= 0 {
			x.Failf(key, "%s = %v units, exactly %s", what, got, exact.FloatString(4))
		}
	}
	conv := func(a *big.Int, from, to cc.Currency, rate *big.Int) *big.Rat {
		q := new(big.Rat).SetInt(a)
		q.Mul(q, new(big.Rat).SetFrac(rate, one))
		return q.Mul(q, new(big.Rat).SetFrac(ten(to.Digits()), ten(from.Digits())))
	}
	r.Explore(mc.Opts{Name: "convert", Budget: -1, Bound: fmt.Sprintf("%d amounts x %d rates x all pairs of %d currencies", len(amounts), len(rates), len(ccCurs))}, func(x *mc.X) {
		a, rt := amounts[x.Choose(len(amounts))], rates[x.Choose(len(rates))]
		from, to := ccCurs[x.Choose(len(ccCurs))], ccCurs[x.Choose(len(ccCurs))]
		x.Step()
		what := fmt.Sprintf("%v units of %s at rate %v to %s", a, from, rt, to)
		x.Logf("%s", what)
		in := &cc.Amount{Currency: from, Amount: *new(big.Int).Set(a)}
		rate := newRate(rt)
		out := cc.Convert(in, to, rate)
		if out.Currency != to {
			x.Failf("convert-currency", "%s is in %s", what, out.Currency)
		}
		exact := conv(a, from, to, rt)
		near(x, "convert", what, &out.Amount, exact)
		if exact.IsInt() && exact.Num().Cmp(&out.Amount) != 0 {
			x.Failf("convert-exact", "%s = %v, exactly %v", what, &out.Amount, exact.Num())
		}
		check := func() {
			if in.Currency != from || in.Amount.Cmp(a) != 0 || rateInt(rate).Cmp(rt) != 0 {
				x.Failf("convert-mutates", "%s changed its arguments", what)
			}
		}
		check()
		// the result shares nothing with the arguments
		out.Amount.Add(&out.Amount, big.NewInt(1)).Neg(&out.Amount)
		check()
		if from == to {
			return
		}
		p := &cc.Pair{From: from, To: to, Rate: *newRate(rt)}
		if o := p.Convert(in); o.Currency != to {
			x.Failf("pair-convert", "%s through a pair is in %s", what, o.Currency)
		} else {
			near(x, "pair-convert", what+" through a pair", &o.Amount, exact)
		}
		check()
		inv := p.Inverse()
		if inv.From != to || inv.To != from {
			x.Failf("pair-inverse", "the inverse of %v is %v", p, inv)
		}
		if rt.Sign() != 0 {
			near(x, "inverse", fmt.Sprintf("the inverse of rate %v", rt), rateInt(&inv.Rate), new(big.Rat).SetFrac(new(big.Int).Mul(one, one), rt))
			// against the pair's direction the inverse rate is used
			back := &cc.Amount{Currency: to, Amount: *new(big.Int).Set(a)}
			o := p.Convert(back)
			if o.Currency != from {
				x.Failf("pair-convert", "%s backwards is in %s", what, o.Currency)
			}
			near(x, "pair-convert-back", what+" backwards", &o.Amount, conv(a, to, from, rateInt(&inv.Rate)))
			if back.Amount.Cmp(a) != 0 {
				x.Failf("convert-mutates", "%s backwards changed its argument", what)
			}
		}
		if rateInt(&p.Rate).Cmp(rt) != 0 || p.From != from || p.To != to {
			x.Failf("convert-mutates", "%s changed the pair", what)
		}
		// an unrelated currency is refused
		for _, c := range ccCurs {
			if c != from && c != to {
				if !panics(func() { p.Convert(&cc.Amount{Currency: c, Amount: *big.NewInt(1)}) }) {
					x.Failf("mixing", "a %s/%s pair converts %s", to, from, c)
				}
				break
			}
		}
		x.Case(what)
	})
	vals := ccValues(r.Thorough)
	r.Explore(mc.Opts{Name: "arithmetic", Budget: -1, Bound: fmt.Sprintf("all pairs of %d amounts", len(vals))}, func(x *mc.X) {
		n, m := vals[x.Choose(len(vals))], vals[x.Choose(len(vals))]
		x.Step()
		mk := func(n *big.Int) *cc.Amount {
			return &cc.Amount{Currency: cc.ETH, Amount: *new(big.Int).Set(n)}
		}
		want := func(what string, got *cc.Amount, w *big.Int) {
			if got.Currency != cc.ETH || got.Amount.Cmp(w) != 0 {
				x.Failf(what, "%v %s %v = %v %s, want %v", n, what, m, &got.Amount, got.Currency, w)
			}
		}
		b := mk(m)
		a := mk(n)
		res := a.Add(b)
		want("add", res, new(big.Int).Add(n, m))
		want("add", a, new(big.Int).Add(n, m))
		a = mk(n)
		want("sub", a.Sub(b), new(big.Int).Sub(n, m))
		want("sub", a, new(big.Int).Sub(n, m))
		want("copy", b, m)
		// an amount not yet given a currency acts as zero, and then shares nothing
		z := new(cc.Amount)
		z.Add(b)
		want("zero add", z, m)
		z.Add(mk(n)).Neg()
		want("zero add", b, m)
		z = new(cc.Amount)
		want("zero sub", z.Sub(b), new(big.Int).Neg(m))
		want("argument of zero sub", b, m)
		cp := b.Copy()
		want("copy", cp, m)
		cp.Neg()
		want("neg of copy", cp, new(big.Int).Neg(m))
		want("argument of copy", b, m)
		cp.Set(a)
		cp.Add(b)
		want("argument of set", a, new(big.Int).Sub(n, m))
		a = mk(n)
		if c := a.Cmp(b); c != n.Cmp(m) {
			x.Failf("cmp", "%v cmp %v = %d", n, m, c)
		}
		if a.Sign() != n.Sign() {
			x.Failf("sign", "sign of %v = %d", n, a.Sign())
		}
		// self operands
		a.Add(a)
		want("self add", a, new(big.Int).Lsh(n, 1))
		a.Sub(a)
		want("self sub", a, new(big.Int))
		// mixing
		o := &cc.Amount{Currency: cc.BTC, Amount: *new(big.Int).Set(m)}
		for name, f := range map[string]func(){"Add": func() { mk(n).Add(o) }, "Sub": func() { mk(n).Sub(o) }, "Cmp": func() { mk(n).Cmp(o) }} {
			if !panics(f) {
				x.Failf("mixing", "%s mixes ETH %v and BTC %v", name, n, m)
			}
		}
		x.Case(n.String(), m.String())
	})
	var floats []float64
	for _, f := range []float64{0, 1, 0.1, 0.29, 0.57, 0.58, 1.1, 1.15, 2.3, 0.07, 1.0 / 3, 2.0 / 3, 1e-8, 1e-9, 4e-9, 5e-9, 6e-9, 1.5e-8, 123456.789, 1e8, 1e15, 1e22, 1e300, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Pi, 1 << 53, 8.95, 1e-8 / 3} {
		floats = append(floats, f, math.Nextafter(f, 0), math.Nextafter(f, math.Inf(1)))
	}
	for i := 0; i < r.N(2000, 20000); i++ {
		floats = append(floats, float64(i)/100, float64(i)/1e8, (float64(i)+0.5)/1e8, float64(i)/256/256/256/256)
	}
	r.Explore(mc.Opts{Name: "rates", Budget: -1, Bound: fmt.Sprintf("%d floating-point numbers and their negatives", len(floats))}, func(x *mc.X) {
		f := floats[x.Choose(len(floats))]
		if x.Bool() {
			f = -f
		}
		if math.IsInf(f, 0) {
			x.Prune()
		}
		x.Step()
		rt := cc.NewRate(f)
		exact := new(big.Rat).SetFloat64(f)
		exact.Mul(exact, new(big.Rat).SetInt(one))
		d := new(big.Rat).Sub(new(big.Rat).SetInt(rateInt(rt)), exact)
		if d.Abs(d).Cmp(big.NewRat(1, 2)) > 0 {
			x.Failf("new-rate", "NewRate(%v) = %v, not the closest rate", f, rt)
		}
		// and back: the closest float
		w, _ := new(big.Rat).SetFrac(rateInt(rt), one).Float64()
		if g := rt.Float(); g != w {
			x.Failf("rate-float", "rate %v as float %v, want %v", rt, g, w)
		}
		if rt.Sign() != rateInt(rt).Sign() {
			x.Failf("rate-sign", "sign of %v is %d", rt, rt.Sign())
		}
		if cc.One.String() != "1.00000000" {
			x.Failf("one", "cc.One became %v", cc.One)
		}
		x.Case(fmt.Sprint(f))
	})
}

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}
