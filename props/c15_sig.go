package props

import (
	"bytes"
	"fmt"
	"math/big"
	"sync"

	"github.com/ethereum/go-ethereum/crypto"
	"github.com/philhofer/seth"
	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{ID: "C15", Level: "exploration",
		Rule: "every pair of boundary private keys and hashes is signed, verified and recovered with libsecp256k1 and by affine big-integer arithmetic; every combination of boundary r, s, v (and crafted ones whose recovery is the point at infinity, or whose r is no x-coordinate) is recovered and compared with the reference verdict; the nonces of all enumerated signatures are derived and compared with each other; " +
			"a case is a distinct (key, hash) or (r, s, v, hash)",
		Notes: []string{"generated keys come from the system's entropy, so which ones are seen is not enumerated; what is checked holds for every one"},
		Run:   runC15})
}

// refRecover recovers the public key from a compact signature, or nil if the signature is not canonical.
func refRecover(r, s *big.Int, v int, hash []byte) []byte {
	half := new(big.Int).Rsh(ecN, 1)
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(ecN) >= 0 || s.Cmp(half) > 0 || v < 0 || v > 1 {
		return nil
	}
	R, ok := ecLift(r, uint(v))
	if !ok {
		return nil
	}
	e := new(big.Int).SetBytes(hash)
	ri := new(big.Int).ModInverse(r, ecN)
	u1 := new(big.Int).Mul(e, ri)
	u1.Neg(u1).Mod(u1, ecN)
	u2 := ri.Mul(ri, s)
	Q := ecAdd(ecMul(R, u2), ecMul(ecG, u1))
	if Q.inf {
		return nil
	}
	return append(be32(Q.x), be32(Q.y)...)
}

func runC15(r *mc.R) {
	half := new(big.Int).Rsh(ecN, 1)
	max := plus(pow2(256), -1)
	pat := new(big.Int).SetBytes(patBytes(32, 0x11))
	keys := []*big.Int{big.NewInt(1), big.NewInt(2), big.NewInt(3), big.NewInt(0xff), big.NewInt(0x100), plus(ecN, -1), plus(ecN, -2), half, plus(half, 1), pow2(255), pow2(128), plus(pow2(128), -1), plus(pow2(248), -1), pat}
	hashes := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(2), big.NewInt(0xff), half, plus(half, 1), plus(ecN, -1), ecN, plus(ecN, 1), max, pow2(255), pow2(248), plus(pow2(128), -1), new(big.Int).SetBytes(patBytes(32, 0x53))}
	n := r.N(24, 200)
	for i := 0; i < n; i++ {
		hashes = append(hashes, new(big.Int).SetBytes(refKeccak([]byte{byte(i), 1})))
		if i%4 == 0 {
			keys = append(keys, new(big.Int).Mod(new(big.Int).SetBytes(refKeccak([]byte{byte(i), 2})), ecN))
		}
	}
	hash := func(h *big.Int) *seth.Hash {
		out := new(seth.Hash)
		copy(out[:], be32(h))
		return out
	}
	pubs := make([][]byte, len(keys))
	for i, d := range keys {
		pubs[i] = refPub(d)
	}
	r.Explore(mc.Opts{Name: "sign", Budget: -1, Bound: fmt.Sprintf("%d keys x %d hashes", len(keys), len(hashes))}, func(x *mc.X) {
		ki := x.Choose(len(keys))
		d, h := keys[ki], hashes[x.Choose(len(hashes))]
		x.Step()
		what := fmt.Sprintf("key %x hash %x", d, h)
		x.Logf("%s", what)
		priv := seth.NewPrivateKey(d)
		if !bytes.Equal(priv[:], be32(d)) {
			x.Failf("key-bytes", "%s: the private key is stored as %x", what, priv[:])
		}
		pub := priv.PublicKey()
		if !bytes.Equal(pub[:], pubs[ki]) {
			x.Failf("public-key", "%s: public key %x, want %x", what, pub[:], pubs[ki])
		}
		if a := priv.Address(); !bytes.Equal(a[:], refKeccak(pubs[ki])[12:]) {
			x.Failf("address", "%s: address %x", what, a[:])
		}
		ek, pk := priv.ToECDSA(), pub.ToECDSA()
		if ek.D.Cmp(d) != 0 || !bytes.Equal(append(be32(ek.X), be32(ek.Y)...), pubs[ki]) || ek.Curve == nil || ek.Curve.Params().N.Cmp(ecN) != 0 || ek.Curve.Params().P.Cmp(ecP) != 0 {
			x.Failf("to-ecdsa", "%s: as ECDSA key %x at %x, %x", what, ek.D, ek.X, ek.Y)
		}
		if pk.X.Cmp(ek.X) != 0 || pk.Y.Cmp(ek.Y) != 0 || pk.Curve != ek.Curve {
			x.Failf("to-ecdsa", "%s: the public key as ECDSA key is at %x, %x", what, pk.X, pk.Y)
		}
		if again := seth.NewPublicKey(pk.X, pk.Y); *again != *pub {
			x.Failf("to-ecdsa", "%s: back from ECDSA the public key is %x", what, again[:])
		}
		if pa := pub.Address(); *pa != *priv.Address() {
			x.Failf("address", "%s: address of the public key %x", what, pa[:])
		}
		hh := hash(h)
		var sig *seth.Signature
		if x.Choose(2) == 0 {
			sig = priv.Sign(hh)
		} else {
			var err error
			if sig, err = priv.Signer()(hh); err != nil {
				x.Failf("signer-error", "%s: %v", what, err)
			}
		}
		if !bytes.Equal(hh[:], be32(h)) || !bytes.Equal(priv[:], be32(d)) {
			x.Failf("sign-mutates", "%s: Sign changed its inputs", what)
		}
		if s := new(big.Int).SetBytes(sig[32:64]); s.Cmp(half) > 0 || s.Sign() == 0 {
			x.Failf("high-s", "%s: s=%x", what, s)
		}
		if sig[64] > 1 {
			x.Failf("v", "%s: v=%d", what, sig[64])
		}
		if !sig.Valid() {
			x.Failf("own-invalid", "%s: Valid() refuses the signature", what)
		}
		full := append([]byte{4}, pubs[ki]...)
		if !crypto.VerifySignature(full, be32(h), sig[:64]) {
			x.Failf("rejected", "%s: libsecp256k1 rejects %x", what, sig[:])
		}
		rp, err := crypto.Ecrecover(be32(h), sig[:])
		if err != nil || !bytes.Equal(rp, full) {
			x.Failf("recovers-elsewhere", "%s: libsecp256k1 recovers %x (%v) from %x", what, rp, err, sig[:])
		}
		got, err := sig.Recover(hh)
		if err != nil || !bytes.Equal(got[:], pubs[ki]) {
			x.Failf("recover", "%s: Recover gives %v, %v", what, got, err)
		}
		pr, ps, pv := sig.Parts()
		if !bytes.Equal(be32(&pr), sig[:32]) || !bytes.Equal(be32(&ps), sig[32:64]) || pv != int(sig[64]) {
			x.Failf("parts", "%s: Parts gives %x %x %d", what, &pr, &ps, pv)
		}
		if s2 := seth.NewSignature(&pr, &ps, pv); *s2 != *sig {
			x.Failf("parts", "%s: NewSignature(Parts()) gives %x", what, s2[:])
		}
		// the same signature with s negated is canonicalised
		hs := new(big.Int).Sub(ecN, &ps)
		hc := new(big.Int).Set(hs)
		if s2 := seth.NewSignature(&pr, hs, pv^1); *s2 != *sig || hs.Cmp(hc) != 0 {
			x.Failf("canonical", "%s: NewSignature(high s) gives %x", what, s2[:])
		}
		if x.Bool() { // every other hash gives another key
			for i := 0; i < len(hashes); i++ {
				if new(big.Int).Mod(hashes[i], ecN).Cmp(new(big.Int).Mod(h, ecN)) == 0 {
					continue
				}
				if p, err := sig.Recover(hash(hashes[i])); err == nil && bytes.Equal(p[:], pubs[ki]) {
					x.Failf("recover-any-hash", "%s: the signature also recovers for hash %x", what, hashes[i])
				}
				if i > 3 {
					break
				}
			}
		}
		x.Case(what)
	})

	// The secret nonce of every signature follows from the key: it must be a large number, and never
	// the same in two signatures of different hashes or by different keys.
	nonce := func(d, h *big.Int) *big.Int {
		sig := seth.NewPrivateKey(d).Sign(hash(h))
		rr, s, _ := sig.Parts()
		k := new(big.Int).Mul(&rr, d)
		si := new(big.Int).ModInverse(&s, ecN)
		if si == nil {
			return new(big.Int)
		}
		k.Add(k, h).Mul(k, si).Mod(k, ecN)
		if o := new(big.Int).Sub(ecN, k); o.Cmp(k) < 0 {
			k = o
		}
		return k
	}
	var once sync.Once
	type use struct{ d, h *big.Int }
	uses := map[string][]use{}
	r.Explore(mc.Opts{Name: "nonces", Budget: -1, Bound: fmt.Sprintf("%d keys x %d hashes, all pairs of signatures", len(keys), len(hashes))}, func(x *mc.X) {
		once.Do(func() {
			for _, d := range keys {
				for _, h := range hashes {
					k := nonce(d, h).String()
					uses[k] = append(uses[k], use{d, h})
				}
			}
		})
		d, h := keys[x.Choose(len(keys))], hashes[x.Choose(len(hashes))]
		x.Step()
		what := fmt.Sprintf("key %x hash %x", d, h)
		x.Logf("%s", what)
		k := nonce(d, h)
		if k.BitLen() < 192 {
			x.Failf("nonce-small", "%s: the nonce of the signature is %x", what, k)
		}
		for _, was := range uses[k.String()] {
			if was.d.Cmp(d) != 0 || new(big.Int).Mod(was.h, ecN).Cmp(new(big.Int).Mod(h, ecN)) != 0 {
				x.Failf("nonce-reused", "%s: the signature has the same nonce as that of key %x and hash %x", what, was.d, was.h)
			}
		}
		x.Case("nonce " + what)
	})

	// r values: boundaries, x-coordinates of small multiples, non-x-coordinates
	rs := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(2), big.NewInt(3), big.NewInt(4), big.NewInt(5), big.NewInt(6), half, plus(half, 1), plus(ecN, -1), plus(ecN, -2), ecN, plus(ecN, 1), ecP, plus(ecP, -1), plus(ecP, 1), max, pat}
	for i := int64(1); i < 6; i++ {
		rs = append(rs, new(big.Int).Mod(ecMul(ecG, big.NewInt(i)).x, ecN))
	}
	ss := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(2), plus(half, -1), half, plus(half, 1), plus(ecN, -1), ecN, plus(ecN, 1), max, pow2(254), pat}
	vs := []byte{0, 1, 2, 3, 4, 26, 27, 28, 29, 128, 254, 255}
	hs := []*big.Int{big.NewInt(0), big.NewInt(1), ecN, plus(ecN, -1), max, pat}
	// crafted hashes make the recovered key the point at infinity: R = kG, e = s k
	for _, k := range []int64{1, 2, 3, -1, -2} {
		for _, s := range []*big.Int{big.NewInt(1), big.NewInt(2), half} {
			hs = append(hs, new(big.Int).Mod(new(big.Int).Mul(s, big.NewInt(k)), ecN))
		}
	}
	r.Explore(mc.Opts{Name: "recover", Budget: -1, Bound: fmt.Sprintf("%d r x %d s x %d v x %d hashes", len(rs), len(ss), len(vs), len(hs))}, func(x *mc.X) {
		rr, s, v, h := rs[x.Choose(len(rs))], ss[x.Choose(len(ss))], vs[x.Choose(len(vs))], hs[x.Choose(len(hs))]
		x.Step()
		what := fmt.Sprintf("r=%x s=%x v=%d hash=%x", rr, s, v, h)
		x.Logf("%s", what)
		var sig seth.Signature
		copy(sig[:], be32(rr))
		copy(sig[32:], be32(s))
		sig[64] = v
		before := sig
		want := refRecover(rr, s, int(v), be32(h))
		got, err := sig.Recover(hash(h))
		if sig != before {
			x.Failf("recover-mutates", "%s: Recover changed the signature", what)
		}
		switch {
		case want == nil && err == nil:
			x.Failf("recover-accepts", "%s: Recover returns %x and no error", what, got[:])
		case want != nil && err != nil:
			x.Failf("recover-refuses", "%s: Recover returns %v", what, err)
		case want != nil && !bytes.Equal(got[:], want):
			x.Failf("recover-wrong", "%s: Recover returns %x, want %x", what, got[:], want)
		case err != nil && got != nil:
			x.Failf("recover-both", "%s: Recover returns a key with its error", what)
		}
		ok := rr.Sign() > 0 && s.Sign() > 0 && rr.Cmp(ecN) < 0 && s.Cmp(half) <= 0 && v <= 1
		if sig.Valid() != ok {
			x.Failf("valid", "%s: Valid() = %v", what, sig.Valid())
		}
		if want != nil {
			// second opinion
			p, e2 := crypto.Ecrecover(be32(h), sig[:])
			if e2 != nil || !bytes.Equal(p[1:], want) {
				x.R.Cap("reference disagreement: " + what)
			}
			x.Outcome("key")
		} else {
			x.Outcome("error")
		}
		x.Case(what)
	})

	var gmu sync.Mutex
	gen := map[seth.PrivateKey]bool{}
	ngen := r.N(100, 2000)
	r.Explore(mc.Opts{Name: "generate", Budget: -1, Bound: fmt.Sprintf("%d freshly generated keys", ngen)}, func(x *mc.X) {
		h := hash(hashes[x.Choose(ngen)%len(hashes)])
		x.Step()
		priv := seth.GenPrivateKey()
		d := new(big.Int).SetBytes(priv[:])
		if d.Sign() == 0 || d.Cmp(ecN) >= 0 || d.BitLen() < 128 {
			x.Failf("generated", "the key %x was generated", priv[:])
		}
		gmu.Lock()
		dup := gen[*priv]
		gen[*priv] = true
		gmu.Unlock()
		if dup {
			x.Failf("generated", "the key %x was generated twice", priv[:])
		}
		if want := refPub(d); !bytes.Equal(priv.PublicKey()[:], want) {
			x.Failf("generated", "the generated key %x has the public key %x", priv[:], priv.PublicKey()[:])
		}
		if got, err := priv.Sign(h).Recover(h); err != nil || *got != *priv.PublicKey() {
			x.Failf("generated", "a signature by the generated key %x recovers %v, %v", priv[:], got, err)
		}
		x.Validated()
	})
}
