package props

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/philhofer/seth/ec"
	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{ID: "C16", Level: "exploration",
		Rule: "Add on all pairs, Double on all, ScalarMult and ScalarBaseMult on all (point, scalar, rendering) combinations of a boundary alphabet; every entry of the precomputed base table; and every point whose x or y coordinate, as an operand or as a result, has a boundary pattern in its 26-bit limbs; all compared with affine big-integer arithmetic; " +
			"a case is a distinct operation and operands",
		Run: runC16})
}

func ecXY(p ecPt) (*big.Int, *big.Int) {
	if p.inf {
		return new(big.Int), new(big.Int)
	}
	return new(big.Int).Set(p.x), new(big.Int).Set(p.y)
}

func (p ecPt) String() string {
	if p.inf {
		return "inf"
	}
	return fmt.Sprintf("(%x,%x)", p.x, p.y)
}

func ecSame(x, y *big.Int, p ecPt) bool {
	wx, wy := ecXY(p)
	return x.Cmp(wx) == 0 && y.Cmp(wy) == 0
}

// ecOp runs one operation on fresh copies and checks the result and that inputs survive.
func ecOp(x *mc.X, what string, want ecPt, f func() (*big.Int, *big.Int)) {
	x.Step()
	x.Logf("%s", what)
	gx, gy := f()
	if !ecSame(gx, gy, want) {
		x.Failf("wrong-point", "%s = (%x,%x), want %v", what, gx, gy, want)
	}
	if !want.inf && !ec.S256().IsOnCurve(gx, gy) {
		x.Failf("not-on-curve", "%s = (%x,%x): IsOnCurve says no", what, gx, gy)
	}
}

func ecCheckAdd(x *mc.X, p, q ecPt, same bool, want ecPt) {
	px, py := ecXY(p)
	qx, qy := ecXY(q)
	if same {
		qx, qy = px, py // aliased operands
	}
	ecOp(x, fmt.Sprintf("%v + %v", p, q), want, func() (*big.Int, *big.Int) { return ec.S256().Add(px, py, qx, qy) })
	if !ecSame(px, py, p) || !ecSame(qx, qy, q) {
		x.Failf("mutates", "Add(%v, %v) changed an operand", p, q)
	}
}

func ecCheckDouble(x *mc.X, p, want ecPt) {
	px, py := ecXY(p)
	ecOp(x, fmt.Sprintf("2 %v", p), want, func() (*big.Int, *big.Int) { return ec.S256().Double(px, py) })
	if !ecSame(px, py, p) {
		x.Failf("mutates", "Double(%v) changed its operand", p)
	}
}

func runC16(r *mc.R) {
	half := new(big.Int).Rsh(ecN, 1)
	lambda := bigS("0x5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72")
	lambda2 := new(big.Int).Mod(new(big.Int).Mul(lambda, lambda), ecN)
	var mult []*big.Int // multiples of G used as points
	for i := int64(0); i <= 12; i++ {
		mult = append(mult, big.NewInt(i))
	}
	for i := int64(1); i <= 5; i++ {
		mult = append(mult, plus(ecN, -i))
	}
	mult = append(mult, half, plus(half, 1), plus(half, -1), lambda, lambda2, new(big.Int).Sub(ecN, lambda), plus(lambda, 1), plus(lambda, -1))
	for _, b := range []uint{32, 64, 127, 128, 129, 192, 255} {
		mult = append(mult, pow2(b), plus(pow2(b), -1))
	}
	pts := make([]ecPt, len(mult))
	for i, k := range mult {
		pts[i] = ecMul(ecG, k)
	}
	r.Explore(mc.Opts{Name: "add", Budget: -1, Bound: fmt.Sprintf("all pairs of %d points, aliased when equal", len(pts))}, func(x *mc.X) {
		p, q := pts[x.Choose(len(pts))], pts[x.Choose(len(pts))]
		same := false
		if fmt.Sprint(p) == fmt.Sprint(q) {
			same = x.Bool()
		}
		ecCheckAdd(x, p, q, same, ecAdd(p, q))
		ecCheckDouble(x, p, ecAdd(p, p))
		// negation: p + (-q)
		ecCheckAdd(x, p, ecNeg(q), false, ecAdd(p, ecNeg(q)))
		x.Case("add", p.String(), q.String())
	})

	// scalars
	scal := append([]*big.Int(nil), mult...)
	scal = append(scal, ecN, plus(ecN, 1), plus(ecN, 2), plus(ecN, -6), new(big.Int).Lsh(ecN, 1), plus(pow2(256), -1), plus(pow2(256), -2), pow2(256), plus(pow2(256), 1), ecP,
		new(big.Int).Mul(ecN, ecN), plus(new(big.Int).Mul(ecN, big.NewInt(255)), 3), pow2(511))
	for i := uint(0); i < 256; i += uint(r.N(8, 1)) {
		scal = append(scal, pow2(i))
		if i > 0 {
			scal = append(scal, plus(pow2(i), -1), plus(pow2(i), 1), new(big.Int).Sub(ecN, pow2(i)))
		}
	}
	// long runs of ones and alternating bits for the non-adjacent form
	for _, h := range []string{"0x55", "0xaa", "0x33", "0xcc", "0x77", "0xee", "0xff", "0x7f", "0x80", "0x01"} {
		for _, n := range []int{1, 2, 15, 16, 17, 31, 32, 33} {
			scal = append(scal, new(big.Int).SetBytes(bytes.Repeat([]byte{byte(bigS(h).Int64())}, n)))
		}
	}
	// scalars around the lattice decomposition: small combinations of the basis vectors and multiples of n/2^k
	a1, b1 := bigS("0x3086d221a7d46bcde86c90e49284eb15"), bigS("0xe4437ed6010e88286f547fa90abfe4c3")
	for i := int64(-2); i <= 2; i++ {
		for j := int64(-2); j <= 2; j++ {
			k := new(big.Int).Mul(a1, big.NewInt(i))
			k.Add(k, new(big.Int).Mul(new(big.Int).Mul(b1, big.NewInt(j)), lambda))
			scal = append(scal, k.Mod(k, ecN))
			k2 := new(big.Int).Mul(big.NewInt(i), lambda)
			scal = append(scal, k2.Add(k2, big.NewInt(j)).Mod(k2, ecN))
		}
	}
	render := func(k *big.Int, how int) []byte {
		b := k.Bytes()
		switch how {
		case 0:
			return b
		case 1: // at least 32 bytes
			if len(b) < 32 {
				b = append(make([]byte, 32-len(b)), b...)
			}
		case 2:
			b = append([]byte{0}, b...)
		case 3:
			if len(b) < 64 {
				b = append(make([]byte, 64-len(b)), b...)
			}
		}
		return b
	}
	base := make(map[string]ecPt)
	for _, k := range scal {
		base[k.String()] = ecMul(ecG, k)
	}
	r.Explore(mc.Opts{Name: "scalar-base", Budget: -1, Bound: fmt.Sprintf("%d scalars x 4 renderings", len(scal))}, func(x *mc.X) {
		k := scal[x.Choose(len(scal))]
		b := render(k, x.Choose(4))
		keep := append([]byte(nil), b...)
		ecOp(x, fmt.Sprintf("%x * G", b), base[k.String()], func() (*big.Int, *big.Int) { return ec.S256().ScalarBaseMult(b) })
		if !bytes.Equal(b, keep) {
			x.Failf("mutates", "ScalarBaseMult(%x) changed its operand", keep)
		}
		x.Case("base", string(b))
	})
	ptset := []int{0, 1, 2, 3, 12, 13, 18, 21, 22}
	if r.Thorough {
		ptset = nil
		for i := range pts {
			ptset = append(ptset, i)
		}
	}
	r.Explore(mc.Opts{Name: "scalar-mult", Budget: -1, Bound: fmt.Sprintf("%d points x %d scalars x 4 renderings", len(ptset), len(scal))}, func(x *mc.X) {
		i := ptset[x.Choose(len(ptset))]
		k := scal[x.Choose(len(scal))]
		want := ecMul(pts[i], k)
		for how := 0; how < 4; how++ {
			b := render(k, how)
			keep := append([]byte(nil), b...)
			px, py := ecXY(pts[i])
			ecOp(x, fmt.Sprintf("%x * %v", b, pts[i]), want, func() (*big.Int, *big.Int) { return ec.S256().ScalarMult(px, py, b) })
			if !bytes.Equal(b, keep) || !ecSame(px, py, pts[i]) {
				x.Failf("mutates", "ScalarMult(%v, %x) changed an operand", pts[i], keep)
			}
		}
		x.Case("mult", fmt.Sprint(i), k.String())
	})

	// every entry of the precomputed table
	r.Explore(mc.Opts{Name: "base-table", Budget: -1, Bound: "all 32 x 256 byte positions and values"}, func(x *mc.X) {
		i := x.Choose(32)
		step := ecMul(ecG, pow2(uint(8*i)))
		acc := ecPt{inf: true}
		for v := 0; v < 256; v++ {
			b := make([]byte, i+1)
			b[0] = byte(v)
			ecOp(x, fmt.Sprintf("%x * G", b), acc, func() (*big.Int, *big.Int) { return ec.S256().ScalarBaseMult(b) })
			acc = ecAdd(acc, step)
		}
		x.Case("table", fmt.Sprint(i))
	})

	// limb patterns in coordinates of operands and of results
	vals := []uint64{0, 1, 1<<26 - 1}
	var pats []*big.Int
	var gen func(i int, dev int, n *big.Int, bg int)
	maxDev := r.N(4, 6)
	gen = func(i, dev int, n *big.Int, bg int) {
		if i == 10 {
			pats = append(pats, n)
			return
		}
		for vi, v := range vals {
			d := dev
			if vi != bg {
				d++
			}
			if d > maxDev {
				continue
			}
			if i == 9 && v > 1<<22-1 {
				v = 1<<22 - 1
			}
			m := new(big.Int).Lsh(new(big.Int).SetUint64(v), uint(26*i))
			gen(i+1, d, m.Add(m, n), bg)
		}
	}
	for bg := range vals {
		gen(0, 0, new(big.Int), bg)
	}
	// close to the prime
	for i := int64(1); i < 40; i++ {
		pats = append(pats, plus(ecP, -i), big.NewInt(i))
	}
	inv2 := plus(half, 1)
	cube := new(big.Int).Div(plus(ecP, 2), big.NewInt(9))
	negG := ecNeg(ecG)
	r.Explore(mc.Opts{Name: "limb-patterns", Budget: -1, Bound: fmt.Sprintf("%d field elements with boundary limbs, as x or y, as operand or result", len(pats))}, func(x *mc.X) {
		n := pats[x.Choose(len(pats))]
		var p ecPt
		if x.Bool() {
			var ok bool
			if p, ok = ecLift(n, 0); !ok {
				x.Prune()
			}
		} else {
			if n.Cmp(ecP) >= 0 {
				x.Prune()
			}
			// x^3 = y^2 - 7
			c := ecMod(new(big.Int).Sub(new(big.Int).Mul(n, n), big.NewInt(7)))
			xx := new(big.Int).Exp(c, cube, ecP)
			t := new(big.Int).Exp(xx, big.NewInt(3), ecP)
			if t.Cmp(c) != 0 {
				x.Prune()
			}
			p = ecPt{x: xx, y: new(big.Int).Set(n)}
		}
		if !ec.S256().IsOnCurve(p.x, p.y) {
			x.Failf("is-on-curve", "IsOnCurve rejects %v", p)
		}
		if y := ecMod(plus(p.y, 1)); ec.S256().IsOnCurve(p.x, y) && ecMod(new(big.Int).Neg(p.y)).Cmp(y) != 0 {
			x.Failf("is-on-curve", "IsOnCurve accepts (%x,%x)", p.x, y)
		}
		ecCheckDouble(x, p, ecAdd(p, p))
		ecCheckAdd(x, p, ecG, false, ecAdd(p, ecG))
		ecCheckAdd(x, ecG, p, false, ecAdd(p, ecG))
		ecCheckAdd(x, p, ecNeg(p), false, ecPt{inf: true})
		h := ecMul(p, inv2)
		ecCheckDouble(x, h, p)
		ecCheckAdd(x, ecAdd(p, negG), ecG, false, p)
		px, py := ecXY(p)
		for _, k := range []int64{1, 2, 3, 7} {
			ecOp(x, fmt.Sprintf("%d * %v", k, p), ecMul(p, big.NewInt(k)), func() (*big.Int, *big.Int) { return ec.S256().ScalarMult(px, py, []byte{byte(k)}) })
		}
		ecOp(x, fmt.Sprintf("1/2 * %v", p), h, func() (*big.Int, *big.Int) { return ec.S256().ScalarMult(px, py, inv2.Bytes()) })
		x.Case("pat", p.String())
	})
}
