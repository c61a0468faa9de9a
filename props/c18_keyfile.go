package props

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/pbkdf2"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash"
	"math/big"
	"strings"

	"github.com/philhofer/seth"
	"golang.org/x/crypto/scrypt"
	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{ID: "C18", Level: "exploration",
		Rule: "key files for every supported KDF and a set of cost and length parameters, made by an independent writer, are opened with the right and with every near-miss passphrase, and after every single-digit change and every truncation of each hexadecimal field and every change of each parameter; the outcome (key or error) must be that of an independent reader; key files written by the code are opened by the independent reader; " +
			"a case is a distinct file and passphrase",
		Notes: []string{"cost parameters too large to run are not tried", "passphrases that HMAC itself identifies (trailing zero bytes, keys longer than its block and their hash) are not told apart by the format"},
		Run:   runC18})
}

// kfile is a key file as written in JSON, for the independent reader and writer.
type kfile struct {
	cipher, ct, iv, kdf, mac, address string
	prf, salt                         string
	c, dklen, n, r, p                 int
	pass                              string
	drop                              string // a parameter left out
}

func (k *kfile) json() []byte {
	kp := map[string]interface{}{"dklen": k.dklen, "salt": k.salt}
	if strings.EqualFold(k.kdf, "scrypt") {
		kp["n"], kp["r"], kp["p"] = k.n, k.r, k.p
	} else {
		kp["c"], kp["prf"] = k.c, k.prf
	}
	cp := map[string]interface{}{"iv": k.iv}
	delete(kp, k.drop)
	delete(cp, k.drop)
	cr := map[string]interface{}{"cipher": k.cipher, "ciphertext": k.ct, "cipherparams": cp, "kdf": k.kdf, "kdfparams": kp, "mac": k.mac}
	delete(cr, k.drop)
	top := map[string]interface{}{"version": 3, "id": "x", "crypto": cr}
	if k.address != "" {
		top["address"] = k.address
	}
	b, err := json.Marshal(top)
	if err != nil {
		panic(err)
	}
	return b
}

func (k *kfile) derive() ([]byte, error) {
	salt, err := hex.DecodeString(k.salt)
	if err != nil {
		return nil, err
	}
	if k.dklen < 32 {
		return nil, fmt.Errorf("dklen")
	}
	switch strings.ToLower(k.kdf) {
	case "scrypt":
		return scrypt.Key([]byte(k.pass), salt, k.n, k.r, k.p, k.dklen)
	case "pbkdf2":
		h := map[string]func() hash.Hash{"hmac-sha1": sha1.New, "hmac-sha224": sha256.New224, "hmac-sha256": sha256.New, "hmac-sha384": sha512.New384, "hmac-sha512": sha512.New}[strings.ToLower(k.prf)]
		if h == nil || k.c < 1 {
			return nil, fmt.Errorf("parameters")
		}
		return pbkdf2.Key(h, k.pass, salt, k.c, k.dklen)
	}
	return nil, fmt.Errorf("kdf")
}

// open is the independent reader.
func (k kfile) open() ([]byte, error) {
	switch k.drop {
	case "dklen":
		k.dklen = 0
	case "salt":
		k.salt = ""
	case "n":
		k.n = 0
	case "r":
		k.r = 0
	case "p":
		k.p = 0
	case "c":
		k.c = 0
	case "prf":
		k.prf = ""
	case "iv":
		k.iv = ""
	case "cipherparams":
		k.iv = ""
	case "kdfparams":
		k.dklen = 0
	case "cipher":
		k.cipher = ""
	case "ciphertext":
		k.ct = ""
	case "mac":
		k.mac = ""
	case "kdf":
		k.kdf = ""
	}
	if strings.ToLower(k.kdf) == "scrypt" && (k.r < 1 || k.p < 1) {
		return nil, fmt.Errorf("parameters")
	}
	dk, err := k.derive()
	if err != nil {
		return nil, err
	}
	ct, err := hex.DecodeString(k.ct)
	if err != nil || len(ct) != 32 {
		return nil, fmt.Errorf("ciphertext")
	}
	mac, err := hex.DecodeString(k.mac)
	if err != nil || !bytes.Equal(mac, refKeccak(append(append([]byte(nil), dk[16:32]...), ct...))) {
		return nil, fmt.Errorf("mac")
	}
	iv, err := hex.DecodeString(k.iv)
	if err != nil || len(iv) != 16 || strings.ToLower(k.cipher) != "aes-128-ctr" {
		return nil, fmt.Errorf("cipher")
	}
	b, _ := aes.NewCipher(dk[:16])
	out := make([]byte, 32)
	cipher.NewCTR(b, iv).XORKeyStream(out, ct)
	if k.address != "" {
		a, err := hex.DecodeString(k.address)
		if err != nil || !bytes.Equal(a, refAddress(new(big.Int).SetBytes(out))) {
			return nil, fmt.Errorf("address")
		}
	}
	return out, nil
}

// seal fills in ciphertext, MAC and address.
func (k *kfile) seal(priv []byte, address bool) {
	if k.drop == "" && k.dklen < 32 {
		panic("dklen")
	}
	dk, err := k.derive()
	if err != nil {
		panic(err)
	}
	iv, _ := hex.DecodeString(k.iv)
	b, _ := aes.NewCipher(dk[:16])
	ct := make([]byte, len(priv))
	cipher.NewCTR(b, iv).XORKeyStream(ct, priv)
	k.ct = hex.EncodeToString(ct)
	k.mac = hex.EncodeToString(refKeccak(append(append([]byte(nil), dk[16:32]...), ct...)))
	if address {
		k.address = hex.EncodeToString(refAddress(new(big.Int).SetBytes(priv)))
	}
}

func kcheck(x *mc.X, k kfile, what string) {
	x.Step()
	js := k.json()
	x.Logf("%s pass %q: %s", what, k.pass, js)
	want, werr := k.open()
	var kf seth.Keyfile
	if err := json.Unmarshal(js, &kf); err != nil {
		if werr == nil {
			x.Failf("unreadable", "%s: %v", what, err)
		}
		return
	}
	for i := 0; i < 2; i++ { // opening does not change the file
		got, err := kf.Private([]byte(k.pass))
		switch {
		case werr == nil && err != nil:
			x.Failf("refused", "%s: %s with passphrase %q: %v", what, js, k.pass, err)
		case werr != nil && err == nil:
			x.Failf("accepted", "%s: %s with passphrase %q yields %x; want an error (%v)", what, js, k.pass, got[:], werr)
		case err == nil && !bytes.Equal(got[:], want):
			x.Failf("wrong-key", "%s: %s with passphrase %q yields %x, want %x", what, js, k.pass, got[:], want)
		}
	}
	if werr == nil {
		x.Outcome("key")
	} else {
		x.Outcome("error")
	}
	x.Case(string(js), k.pass)
}

func runC18(r *mc.R) {
	type base struct {
		name string
		k    kfile
	}
	var bases []base
	salt := hex.EncodeToString(patBytes(32, 9))
	iv := hex.EncodeToString(patBytes(16, 5))
	add := func(k kfile) {
		k.cipher, k.iv = "aes-128-ctr", iv
		if k.salt == "" {
			k.salt = salt
		}
		bases = append(bases, base{fmt.Sprintf("%s prf=%s c=%d n=%d r=%d p=%d dklen=%d", k.kdf, k.prf, k.c, k.n, k.r, k.p, k.dklen), k})
	}
	for _, prf := range []string{"hmac-sha1", "hmac-sha224", "hmac-sha256", "hmac-sha384", "hmac-sha512", "HMAC-SHA256"} {
		for _, c := range []int{1, 2, 7} {
			for _, dk := range []int{32, 33, 48, 64, 100} {
				add(kfile{kdf: "pbkdf2", prf: prf, c: c, dklen: dk})
			}
		}
	}
	for _, n := range []int{2, 4, 16} {
		for _, rr := range []int{1, 2, 8} {
			for _, p := range []int{1, 2} {
				for _, dk := range []int{32, 48, 64} {
					add(kfile{kdf: "scrypt", n: n, r: rr, p: p, dklen: dk})
				}
			}
		}
	}
	add(kfile{kdf: "PBKDF2", prf: "hmac-sha256", c: 2, dklen: 32})
	add(kfile{kdf: "Scrypt", n: 2, r: 1, p: 1, dklen: 32})
	add(kfile{kdf: "pbkdf2", prf: "hmac-sha256", c: 2, dklen: 32, salt: "00"})
	privs := [][]byte{be32(big.NewInt(1)), be32(plus(ecN, -1)), patBytes(32, 1), append(make([]byte, 4), patBytes(28, 3)...)}
	passes := []string{"", "a", "correct horse", string([]byte{0, 1, 0xff, 0x80}), strings.Repeat("long", 40), "pässword"}
	r.Explore(mc.Opts{Name: "open", Budget: -1, Bound: fmt.Sprintf("%d parameter sets x 4 keys x 6 passphrases x address or not", len(bases))}, func(x *mc.X) {
		b := bases[x.Choose(len(bases))]
		k := b.k
		k.pass = passes[x.Choose(len(passes))]
		priv := privs[x.Choose(4)]
		k.seal(priv, x.Bool())
		kcheck(x, k, b.name)
		if got, err := k.open(); err != nil || !bytes.Equal(got, priv) {
			panic("reference reader and writer disagree")
		}
	})
	// near-miss passphrases and single alterations
	sel := []int{}
	for i := range bases {
		if i%r.N(9, 2) == 0 || i >= len(bases)-3 {
			sel = append(sel, i)
		}
	}
	r.Explore(mc.Opts{Name: "passphrase", Budget: -1, Bound: fmt.Sprintf("%d files x every single edit of the passphrase", len(sel))}, func(x *mc.X) {
		b := bases[sel[x.Choose(len(sel))]]
		k := b.k
		pass := passes[x.Choose(len(passes))]
		k.pass = pass
		k.seal(privs[2], false)
		var near []string
		for i := range pass {
			near = append(near, pass[:i]+pass[i+1:], pass[:i], pass[i:]+"x")
			for _, d := range []byte{1, 0x20, 0x80} {
				p := []byte(pass)
				p[i] ^= d
				near = append(near, string(p))
			}
			if i > 6 {
				break
			}
		}
		near = append(near, pass+" ", " "+pass, pass+"x", strings.ToUpper(pass)+"x", pass+pass+"y", "\x00"+pass+"z")
		for _, p := range near {
			k.pass = p
			kcheck(x, k, b.name+" near-miss")
		}
	})
	r.Explore(mc.Opts{Name: "alterations", Budget: -1, Bound: fmt.Sprintf("%d files, with and without address, x every digit change, truncation and extension of each hex field, every parameter change and omission", len(sel))}, func(x *mc.X) {
		b := bases[sel[x.Choose(len(sel))]]
		k := b.k
		k.pass = "correct horse"
		k.seal(privs[2], x.Bool())
		if k.address == "" && x.Bool() {
			// a file whose contents have another length, but a right MAC
			n := []int{0, 1, 16, 31, 33, 48}[x.Choose(6)]
			k2 := k
			k2.seal(patBytes(n, 1), false)
			kcheck(x, k2, b.name+" short contents")
			return
		}
		fields := []*string{&k.ct, &k.salt, &k.iv, &k.mac, &k.address}
		kind := x.Choose(8)
		switch {
		case kind < 5:
			f := fields[kind]
			orig := *f
			if orig == "" {
				x.Prune()
			}
			for i := range orig {
				for _, d := range []byte{orig[i] ^ 1, '0', 'f', 'g', ' ', 'A'} {
					if d == orig[i] {
						continue
					}
					*f = orig[:i] + string(d) + orig[i+1:]
					kcheck(x, k, b.name+" changed digit")
				}
				*f = orig[:i]
				kcheck(x, k, b.name+" truncated field")
				*f = orig[i:]
				kcheck(x, k, b.name+" truncated field")
			}
			for _, s := range []string{orig + "00", "00" + orig, "0x" + orig, strings.ToUpper(orig), orig + orig, ""} {
				*f = s
				kcheck(x, k, b.name+" altered field")
			}
		case kind == 5:
			ints := []*int{&k.c, &k.dklen, &k.n, &k.r, &k.p}
			for _, p := range ints {
				orig := *p
				for _, v := range []int{-1 << 31, -32, -2, -1, 0, 1, 2, 3, 4, 8, 15, 16, 17, 31, 32, 33, 47, 64, 128, orig + 1, orig - 1, orig * 2} {
					*p = v
					kcheck(x, k, b.name+" changed parameter")
				}
				*p = orig
			}
		case kind == 6:
			for _, d := range []string{"dklen", "salt", "n", "r", "p", "c", "prf", "iv", "cipherparams", "kdfparams", "cipher", "ciphertext", "mac", "kdf"} {
				k.drop = d
				kcheck(x, k, b.name+" without "+d)
			}
		case kind == 7:
			orig := k
			for _, s := range []string{"", "aes-128-cbc", "aes-256-ctr", "AES-128-CTR", "aes"} {
				k.cipher = s
				kcheck(x, k, b.name+" cipher "+s)
			}
			k = orig
			for _, s := range []string{"", "scrypt", "pbkdf2", "bcrypt", "SCRYPT", "Pbkdf2"} {
				k.kdf = s
				kcheck(x, k, b.name+" kdf "+s)
			}
			k = orig
			for _, s := range []string{"", "hmac-sha1", "hmac-sha224", "hmac-sha256", "hmac-sha384", "hmac-sha512", "hmac-md5", "sha256"} {
				k.prf = s
				kcheck(x, k, b.name+" prf "+s)
			}
		}
	})
	r.Explore(mc.Opts{Name: "write", Budget: -1, Bound: "6 passphrases x 6 names x 4 keys (quick: each passphrase and name once) written by the code, read by the independent reader"}, func(x *mc.X) {
		names := []string{"name", "", " na\tme ", "näme\"\\<&>", strings.Repeat("n", 300), "0x00"}
		pi := x.Choose(len(passes))
		ki, ni := pi%4, pi
		if r.Thorough {
			ki, ni = x.Choose(4), x.Choose(len(names))
		}
		priv, pass, name := privs[ki], passes[pi], names[ni]
		x.Step()
		pk := new(seth.PrivateKey)
		copy(pk[:], priv)
		kf := pk.ToKeyfile(name, []byte(pass))
		js, err := json.Marshal(kf)
		if err != nil {
			x.Failf("write", "key file not serialisable: %v", err)
		}
		var w struct {
			Version int
			Name    string
			Address string
			Crypto  struct {
				Cipher, Ciphertext, KDF, MAC string
				CipherParams                 struct{ IV string }
				KDFParams                    struct {
					Dklen, N, R, P int
					Salt           string
				}
			}
		}
		if err := json.Unmarshal(js, &w); err != nil {
			x.Failf("write", "key file not readable: %v", err)
		}
		k := kfile{cipher: w.Crypto.Cipher, ct: w.Crypto.Ciphertext, iv: w.Crypto.CipherParams.IV, kdf: w.Crypto.KDF, mac: w.Crypto.MAC, address: w.Address, salt: w.Crypto.KDFParams.Salt,
			dklen: w.Crypto.KDFParams.Dklen, n: w.Crypto.KDFParams.N, r: w.Crypto.KDFParams.R, p: w.Crypto.KDFParams.P, pass: pass}
		got, err := k.open()
		if err != nil || !bytes.Equal(got, priv) || w.Version != 3 || w.Name != name {
			x.Failf("write", "key file %s reads as %x, %v", js, got, err)
		}
		x.Case(string(priv), pass, name, "w")
	})
}
