package props

import "math/big"

// An independent affine implementation of secp256k1 over math/big.
var (
	ecP  = bigS("0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
	ecN  = bigS("0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
	ecGx = bigS("0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
	ecGy = bigS("0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")
)

// ecPt is a point; inf is the point at infinity.
type ecPt struct {
	x, y *big.Int
	inf  bool
}

var ecG = ecPt{x: ecGx, y: ecGy}

func ecMod(n *big.Int) *big.Int { return n.Mod(n, ecP) }

func ecAdd(a, b ecPt) ecPt {
	if a.inf {
		return b
	}
	if b.inf {
		return a
	}
	var l *big.Int
	if a.x.Cmp(b.x) == 0 {
		if a.y.Cmp(b.y) != 0 || a.y.Sign() == 0 {
			return ecPt{inf: true}
		}
		num := new(big.Int).Mul(big.NewInt(3), new(big.Int).Mul(a.x, a.x))
		l = num.Mul(num, new(big.Int).ModInverse(new(big.Int).Lsh(a.y, 1), ecP))
	} else {
		num := new(big.Int).Sub(b.y, a.y)
		den := ecMod(new(big.Int).Sub(b.x, a.x))
		l = num.Mul(num, den.ModInverse(den, ecP))
	}
	ecMod(l)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, a.x).Sub(x, b.x)
	ecMod(x)
	y := new(big.Int).Sub(a.x, x)
	y.Mul(y, l).Sub(y, a.y)
	return ecPt{x: x, y: ecMod(y)}
}

func ecNeg(a ecPt) ecPt {
	if a.inf {
		return a
	}
	return ecPt{x: a.x, y: ecMod(new(big.Int).Neg(a.y))}
}

func ecMul(a ecPt, k *big.Int) ecPt {
	k = new(big.Int).Mod(k, ecN)
	out := ecPt{inf: true}
	for i := k.BitLen() - 1; i >= 0; i-- {
		out = ecAdd(out, out)
		if k.Bit(i) == 1 {
			out = ecAdd(out, a)
		}
	}
	return out
}

func be32(n *big.Int) []byte {
	b := make([]byte, 32)
	n.FillBytes(b)
	return b
}

func refPub(d *big.Int) []byte {
	p := ecMul(ecG, d)
	return append(be32(p.x), be32(p.y)...)
}

func refAddress(d *big.Int) []byte { return refKeccak(refPub(d))[12:] }

// ecLift finds the point with the given x-coordinate and y parity.
func ecLift(x *big.Int, odd uint) (ecPt, bool) {
	if x.Sign() < 0 || x.Cmp(ecP) >= 0 {
		return ecPt{}, false
	}
	y := new(big.Int).Mul(x, x)
	y.Mul(y, x).Add(y, big.NewInt(7))
	ecMod(y)
	if y.ModSqrt(y, ecP) == nil {
		return ecPt{}, false
	}
	if y.Bit(0) != odd {
		y.Sub(ecP, y)
	}
	return ecPt{x: new(big.Int).Set(x), y: y}, true
}

// refSign signs with a fixed nonce; the signature is canonical.
func refSign(d *big.Int, hash []byte) (r, s *big.Int, v int) {
	k := new(big.Int).SetBytes(patBytes(31, 0x2b))
	R := ecMul(ecG, k)
	r = new(big.Int).Mod(R.x, ecN)
	v = int(R.y.Bit(0))
	s = new(big.Int).Mul(r, d)
	s.Add(s, new(big.Int).SetBytes(hash))
	s.Mul(s, new(big.Int).ModInverse(k, ecN)).Mod(s, ecN)
	if s.Cmp(new(big.Int).Rsh(ecN, 1)) > 0 {
		s.Sub(ecN, s)
		v ^= 1
	}
	return r, s, v
}
