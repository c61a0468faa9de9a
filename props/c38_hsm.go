//go:build yubihsm

package props

// #include <stdlib.h>
// #include "vdev.h"
import "C"

import (
	"encoding/asn1"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
	"sync"
	"unsafe"

	"github.com/philhofer/seth"
	"github.com/philhofer/seth/yubihsm"

	"verif.local/mc/mc"
)

func init() {
	mc.Register(&mc.Prop{
		ID:    "C38",
		Level: "fault_enumeration",
		Rule:  "every sequence of unlocking (right and wrong passphrase), listing, signing and device changes up to a depth, on every device content and with every single failing device call; every signature shape a device can answer with; every driver call with every return code and every buffer size; a case is a distinct history with its fault",
		Notes: []string{"the vendor library is replaced by a software device with the same interface (shim/yubihsm); it is not the vendor's code"},
		Run:   runC38,
	})
}

type vdev struct{}

func (vdev) reset()            { C.vdev_reset() }
func (vdev) fault(nth, rc int) { C.vdev_fault(C.int(nth), C.int(rc)) }
func (vdev) fired() int        { return int(C.vdev_fired()) }
func (vdev) calls() int        { return int(C.vdev_calls()) }
func (vdev) log() string       { return C.GoString(C.vdev_log()) }
func (vdev) clearlog()         { C.vdev_clearlog() }
func (vdev) misuse() string    { return C.GoString(C.vdev_misuse()) }
func (vdev) open() int         { return int(C.vdev_open()) }
func (vdev) on() int           { return int(C.vdev_open_on()) }
func (vdev) remove(id int)     { C.vdev_remove(C.int(id)) }
func (vdev) info(n int)        { C.vdev_info(C.int(n)) }
func (vdev) password(p string, late bool) {
	c := C.CString(p)
	defer C.free(unsafe.Pointer(c))
	l := 0
	if late {
		l = 1
	}
	C.vdev_password(c, C.size_t(len(p)), C.int(l))
}

func cbytes(b []byte) *C.uint8_t {
	if len(b) == 0 {
		b = make([]byte, 1)
	}
	return (*C.uint8_t)(&b[0])
}

type vobj struct {
	id, typ, alg, domains int
	caps                  []byte // 8
	label                 string
	len                   int
	pub                   []byte
	pubalg                int
	d                     *big.Int
}

func (vdev) add(o *vobj) {
	l := C.CString(o.label)
	defer C.free(unsafe.Pointer(l))
	C.vdev_add(C.int(o.id), C.int(o.typ), C.int(o.alg), C.int(o.domains), cbytes(o.caps), l, C.int(o.len), cbytes(o.pub), C.size_t(len(o.pub)), C.int(o.pubalg))
}

func (vdev) sig(id int, digest, der []byte) {
	C.vdev_sig(C.int(id), cbytes(digest), cbytes(der), C.size_t(len(der)))
}

const (
	vK256   = 15
	vP256   = 12
	vAsym   = 3
	vNetErr = -3
)

var (
	capECDSA = []byte{0, 0, 0, 0, 0, 0, 0, 0x80}
	capOther = []byte{0, 0, 0, 0, 0, 0, 1, 0x40}
	capBoth  = []byte{0, 0, 0, 0, 0, 0, 1, 0xc0}
)

var hsmKeys = func() (ds []*big.Int) {
	for i := 0; i < 3; i++ {
		ds = append(ds, new(big.Int).SetBytes(refKeccak([]byte{'h', 's', 'm', byte(i)})))
	}
	return
}()

var hsmDigests = [][]byte{refKeccak([]byte("first digest")), refKeccak([]byte("second digest")), make([]byte, 32)}

func derSig(r, s *big.Int) []byte {
	b, err := asn1.Marshal(struct{ R, S *big.Int }{r, s})
	if err != nil {
		panic(err)
	}
	return b
}

// what a device with key d may sign a digest with: low and high s
func hsmSig(d *big.Int, digest []byte, high bool) (r, s *big.Int) {
	k := d.String() + string(digest)
	v, ok := hsmSeen.Load(k)
	if !ok {
		v = ethSign(d, digest)
		hsmSeen.Store(k, v)
	}
	sig := v.([]byte)
	r, s = new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])
	if high {
		s.Sub(ecN, s)
	}
	return
}

func keyObj(id int, d *big.Int, caps []byte) *vobj {
	pub, ok := hsmSeen.Load("pub" + d.String())
	if !ok {
		pub = refPub(d)
		hsmSeen.Store("pub"+d.String(), pub)
	}
	return &vobj{id: id, typ: vAsym, alg: vK256, domains: 1, caps: caps, label: fmt.Sprintf("key %d", id), len: 32, pub: pub.([]byte), pubalg: vK256, d: d}
}

// goodSig says whether sig is a canonical signature of digest by the key.
func goodSig(sig *seth.Signature, pub []byte, digest []byte) bool {
	k := string(sig[:]) + string(pub) + string(digest)
	v, ok := hsmSeen.Load(k)
	if !ok {
		v = goodSig1(sig, pub, digest)
		hsmSeen.Store(k, v)
	}
	return v.(bool)
}

var hsmSeen sync.Map

func goodSig1(sig *seth.Signature, pub []byte, digest []byte) bool {
	r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])
	if s.Cmp(new(big.Int).Rsh(ecN, 1)) > 0 || sig[64] > 1 {
		return false
	}
	return string(refRecover(r, s, int(sig[64]), digest)) == string(pub)
}

func runC38(r *mc.R) {
	var dev vdev
	layouts := [][]*vobj{
		{keyObj(12, hsmKeys[0], capECDSA), keyObj(1, hsmKeys[1], capBoth)},
		{
			{id: 9, typ: vAsym, alg: vP256, caps: capECDSA, pub: patBytes(64, 1), pubalg: vP256, label: "p256"},
			keyObj(65535, hsmKeys[0], capBoth),
			{id: 65535, typ: 1, alg: 30, caps: capOther, label: "opaque"},
			keyObj(3, hsmKeys[1], capOther), // may not sign
			{id: 4, typ: 4, alg: 29, caps: capOther, label: "wrapkey"},
		},
		{},
		{keyObj(1, hsmKeys[0], capECDSA), {id: 2, typ: vAsym, alg: vK256, caps: capECDSA, pub: patBytes(64, 1), pubalg: vP256, label: "odd"}},
	}
	usable := func(o *vobj) bool { return o.typ == vAsym && o.alg == vK256 && o.caps[7]&0x80 != 0 }
	install := func(o *vobj) {
		dev.add(o)
		if o.d != nil {
			for i, h := range hsmDigests {
				a, b := hsmSig(o.d, h, (i+o.id)&1 == 1)
				dev.sig(o.id, h, derSig(a, b))
			}
		}
	}
	depth := r.N(4, 5)
	hint := []string{"", "http://10.0.0.1:9", "other", "https://[::1]/x"}
	r.Explore(mc.Opts{Name: "histories", Budget: -1, Serial: true, Bound: fmt.Sprintf("every sequence of %d operations (unlock right/wrong, list, sign with a key taken now or earlier, key removed or replaced on the device) on %d device contents with no or one failing device call", depth, len(layouts))}, func(x *mc.X) {
		dev.reset()
		layout := layouts[x.Choose(len(layouts))]
		late := x.Bool()
		dev.password("right horse", late)
		objs := append([]*vobj(nil), layout...)
		for _, o := range objs {
			install(o)
		}
		nth := x.Choose(10)
		code := []int{vNetErr, -15}[x.Choose(2)]
		if nth == 0 && code != vNetErr {
			x.Prune()
		}
		if nth > 0 {
			dev.fault(nth, code)
		}
		h := seth.FindHSM("yubihsm")
		hist := fmt.Sprintf("late=%v fault=%d/%d;", late, nth, code)
		fired := dev.fired()
		if fired > 0 {
			if h != nil {
				x.Failf("probe", "%s the device cannot be reached, but there is an HSM", hist)
			}
			x.Case("probe", hist)
			return
		}
		if h == nil {
			x.Failf("probe", "%s the device is there, but no HSM", hist)
		}
		unlocked := false
		var listed []seth.HSMKey // as last returned
		type held struct {
			k  seth.HSMKey
			sg seth.Signer
		}
		var old *held
		current := func() (ks []*vobj, bad bool) {
			for _, o := range objs {
				if usable(o) {
					ks = append(ks, o)
					bad = bad || o.pubalg != vK256 || len(o.pub) != 64
				}
			}
			return
		}
		checkSig := func(what string, k *seth.HSMKey, digest []byte, sig *seth.Signature, err error, broken, mayFail bool) {
			if err != nil {
				if !broken && !mayFail {
					x.Failf("sign-failed", "%s %s: %v", hist, what, err)
				}
				if sig != nil {
					x.Failf("sign-both", "%s %s: a signature and an error", hist, what)
				}
				return
			}
			if broken {
				x.Failf("sign-fault-lost", "%s %s: the device failed, but there is a signature", hist, what)
			}
			if sig == nil || !goodSig(sig, k.Public[:], digest) {
				x.Failf("sign-invalid", "%s %s: signature %v is not one by key %s (%x)", hist, what, sig, k.ID, k.Public[:4])
			}
			want := fmt.Sprintf("sign %s %x=0\n", strings.TrimPrefix(k.ID, "yubihsm:"), digest)
			if strings.Count(dev.log(), "sign ") != 1 || !strings.HasSuffix(dev.log(), want) {
				x.Failf("sign-call", "%s %s: device saw %q, want %q", hist, what, dev.log(), want)
			}
		}
		for step := 0; step < depth; step++ {
			op := x.Choose(7)
			x.Step()
			dev.clearlog()
			before := dev.fired()
			switch op {
			case 0, 1:
				pw := "right horse"
				if op == 1 {
					pw = "wrong horse"
				}
				hist += " unlock(" + pw + ")"
				err := h.Unlock([]byte(pw))
				broken := dev.fired() > before
				if good := op == 0 && !broken; (err == nil) != good {
					x.Failf("unlock", "%s: error %v (device failed: %v); %s", hist, err, broken, dev.log())
				}
				unlocked = err == nil
			case 2:
				hist += " list"
				ks, err := h.Pubkeys()
				broken := dev.fired() > before
				cur, bad := current()
				if err != nil {
					if unlocked && !broken && !bad {
						x.Failf("list-failed", "%s: %v", hist, err)
					}
					break
				}
				if !unlocked {
					x.Failf("list-locked", "%s: %d keys listed while locked", hist, len(ks))
				}
				// the keys now on the device, or those listed before
				same := func(n int, id func(int) string, pub func(int) []byte) bool {
					if n != len(ks) {
						return false
					}
					seen := map[string]string{}
					for i := 0; i < n; i++ {
						seen[id(i)] = string(pub(i))
					}
					for i := range ks {
						if p, ok := seen[ks[i].ID]; !ok || p != string(ks[i].Public[:]) {
							return false
						}
						delete(seen, ks[i].ID)
					}
					return true
				}
				ok := !bad && !broken && same(len(cur), func(i int) string { return fmt.Sprint("yubihsm:", cur[i].id) }, func(i int) []byte { return cur[i].pub })
				if listed != nil {
					ok = ok || same(len(listed), func(i int) string { return listed[i].ID }, func(i int) []byte { return listed[i].Public[:] })
				}
				if !ok {
					x.Failf("list", "%s: listed %s with %d usable keys on the device (device failed: %v, unusable key: %v)", hist, hsmList(ks), len(cur), broken, bad)
				}
				listed = append([]seth.HSMKey(nil), ks...)
				if listed == nil {
					listed = []seth.HSMKey{}
				}
			case 3: // sign with a listed key, now
				n := x.Choose(3)
				hist += fmt.Sprint(" sign", n)
				var k *seth.HSMKey
				if n < len(listed) {
					k = &seth.HSMKey{ID: listed[n].ID, Public: listed[n].Public}
				} else if n == 2 {
					// no key of the device
					k = &seth.HSMKey{ID: "yubihsm:77"}
					if u := x.Choose(4); u > 0 && len(listed) == 0 {
						x.Prune()
					} else if id := ""; u > 0 {
						id = listed[0].ID
						k.ID = []string{id + "0", id[:len("yubihsm:")], "Y" + id[1:]}[u-1]
					}
					hist += "(" + k.ID + ")"
				} else {
					x.Prune()
				}
				sg, err := h.Signer(k)
				if err == nil && (!unlocked || n == 2) {
					x.Failf("signer", "%s: there is a signer", hist)
				}
				if err != nil {
					if unlocked && n != 2 {
						x.Failf("signer-failed", "%s: %v", hist, err)
					}
					break
				}
				old = &held{*k, sg}
				hsmSignNow(x, dev, hist, k, sg, objs, checkSig, before)
			case 4: // sign with a signer taken earlier
				if old == nil {
					x.Prune()
				}
				hist += " sign-held"
				digest := hsmDigests[1]
				sig, err := hsmTry(old.sg, digest)
				checkSig("sign-held", &old.k, digest, sig, err, dev.fired() > before, true)
			case 5, 6: // a change on the device: first key removed or replaced
				if len(objs) == 0 {
					x.Prune()
				}
				o := objs[0]
				dev.remove(o.id)
				objs = append([]*vobj(nil), objs[1:]...)
				hist += fmt.Sprint(" remove", o.id)
				if op == 6 {
					if !usable(o) {
						x.Prune()
					}
					p := keyObj(o.id, hsmKeys[2], capECDSA)
					install(p)
					objs = append(objs, p)
					hist += " replace"
				}
			}
			if m := dev.misuse(); m != "" && op != 4 {
				x.Failf("session", "%s: %s", hist, m)
			}
			n := 0
			if unlocked {
				n = 1
			}
			if dev.open() != n || dev.on() != n {
				x.Failf("sessions", "%s: %d sessions open, %d of them authenticated, want %d", hist, dev.open(), dev.on(), n)
			}
		}
		if nth > 0 && dev.fired() == 0 {
			x.Prune() // no such call: covered without the fault
		}
		x.Case(hist)
		x.Validated()
		x.Sample(map[string]string{"history": hist})
	})

	// what the device may answer to a request to sign
	type shape struct {
		name string
		der  func(d *big.Int, h []byte) []byte
		good bool
	}
	rs := func(f func(r, s *big.Int) []byte) func(*big.Int, []byte) []byte {
		return func(d *big.Int, h []byte) []byte { return f(hsmSig(d, h, false)) }
	}
	shapes := []shape{
		{"low s", rs(func(r, s *big.Int) []byte { return derSig(r, s) }), true},
		{"high s", rs(func(r, s *big.Int) []byte { return derSig(r, new(big.Int).Sub(ecN, s)) }), true},
		{"other key", func(d *big.Int, h []byte) []byte { return derSig(hsmSig(hsmKeys[2], h, false)) }, false},
		{"other digest", func(d *big.Int, h []byte) []byte { return derSig(hsmSig(d, refKeccak(h), true)) }, false},
		{"r zero", rs(func(r, s *big.Int) []byte { return derSig(new(big.Int), s) }), false},
		{"s zero", rs(func(r, s *big.Int) []byte { return derSig(r, new(big.Int)) }), false},
		{"r negative", rs(func(r, s *big.Int) []byte { return derSig(new(big.Int).Neg(r), s) }), false},
		{"s negative", rs(func(r, s *big.Int) []byte { return derSig(r, new(big.Int).Neg(s)) }), false},
		{"r plus order", rs(func(r, s *big.Int) []byte { return derSig(new(big.Int).Add(r, ecN), s) }), false},
		{"s plus order", rs(func(r, s *big.Int) []byte { return derSig(r, new(big.Int).Add(s, ecN)) }), false},
		{"r huge", rs(func(r, s *big.Int) []byte { return derSig(new(big.Int).Lsh(r, 40), s) }), false},
		{"s huge", rs(func(r, s *big.Int) []byte { return derSig(r, new(big.Int).Lsh(s, 40)) }), false},
		{"r order", rs(func(r, s *big.Int) []byte { return derSig(ecN, s) }), false},
		{"swapped", rs(func(r, s *big.Int) []byte { return derSig(s, r) }), false},
		{"trailing byte", rs(func(r, s *big.Int) []byte { return append(derSig(r, s), 0) }), false},
		{"cut", rs(func(r, s *big.Int) []byte { b := derSig(r, s); return b[:len(b)-1] }), false},
		{"empty", rs(func(r, s *big.Int) []byte { return nil }), false},
		{"raw", rs(func(r, s *big.Int) []byte { return append(be32(r), be32(s)...) }), false},
		{"one integer", rs(func(r, s *big.Int) []byte { b, _ := asn1.Marshal(struct{ R *big.Int }{r}); return b }), false},
	}
	nd := r.N(8, 40)
	r.Explore(mc.Opts{Name: "signatures", Budget: -1, Serial: true, Bound: fmt.Sprintf("%d answers to a signing request x 2 keys x %d digests", len(shapes), nd+3)}, func(x *mc.X) {
		dev.reset()
		dev.password("p", false)
		sh := shapes[x.Choose(len(shapes))]
		kn := x.Choose(2)
		var digest []byte
		if n := x.Choose(nd + 3); n < 3 {
			digest = hsmDigests[n]
		} else {
			digest = refKeccak([]byte{byte(n)})
		}
		o := keyObj(kn+1, hsmKeys[kn], capECDSA)
		dev.add(o)
		dev.sig(o.id, digest, sh.der(o.d, digest))
		h := seth.FindHSM("yubihsm")
		if err := h.Unlock([]byte("p")); err != nil {
			x.Failf("unlock", "%v", err)
		}
		ks, err := h.Pubkeys()
		if err != nil || len(ks) != 1 {
			x.Failf("list", "%d keys, %v", len(ks), err)
		}
		sg, err := h.Signer(&ks[0])
		if err != nil {
			x.Failf("signer", "%v", err)
		}
		sig, err := hsmTry(sg, digest)
		what := fmt.Sprintf("%s, key %d, digest %x", sh.name, o.id, digest)
		if err != nil && (sh.good || sig != nil) || err != nil && strings.HasPrefix(err.Error(), "panic") {
			x.Failf("sign-failed", "%s: %v", what, err)
		}
		if err == nil && !goodSig(sig, o.pub, digest) {
			x.Failf("sign-invalid", "%s: signature %v is not one by the key", what, sig)
		}
		x.Case(sh.name, fmt.Sprint(kn), hex.EncodeToString(digest))
		x.Validated()
	})

	r.Explore(mc.Opts{Name: "finding", Budget: -1, Serial: true, Bound: "every sequence of up to three hints to the probe; registered and unknown module names"}, func(x *mc.X) {
		dev.reset()
		var hints []string
		want := seth.ConnectorURL
		for n := x.Choose(4); n > 0; n-- {
			s := hint[x.Choose(len(hint))]
			hints = append(hints, s)
		}
		urls := map[string]bool{}
		for _, s := range hints {
			if strings.HasPrefix(s, "http") {
				urls[s] = true
			}
		}
		if len(urls) == 0 {
			urls[want] = true
		}
		h := seth.FindHSM("yubihsm", hints...)
		if h == nil {
			x.Failf("probe", "hints %q: not found", hints)
		}
		ok := false
		for u := range urls {
			ok = ok || dev.log() == fmt.Sprintf("init_connector %s=0\nconnect %[1]s 1=0\n", u)
		}
		if !ok {
			x.Failf("url", "hints %q: device saw %q", hints, dev.log())
		}
		if g := seth.FindHSM("nothing", hints...); g != nil {
			x.Failf("unknown", "an unknown module was found")
		}
		x.Case(fmt.Sprint(hints))
	})
	c38Driver(r, dev)
}

func hsmList(ks []seth.HSMKey) string {
	s := []string{}
	for i := range ks {
		s = append(s, fmt.Sprintf("%s=%x", ks[i].ID, ks[i].Public[:4]))
	}
	return fmt.Sprint(s)
}

func hsmTry(sg seth.Signer, digest []byte) (sig *seth.Signature, err error) {
	defer func() {
		if p := recover(); p != nil {
			sig, err = nil, fmt.Errorf("panic: %v", p)
		}
	}()
	var h seth.Hash
	copy(h[:], digest)
	return sg(&h)
}

func hsmSignNow(x *mc.X, dev vdev, hist string, k *seth.HSMKey, sg seth.Signer, objs []*vobj, check func(string, *seth.HSMKey, []byte, *seth.Signature, error, bool, bool), before int) {
	var on *vobj
	for _, o := range objs {
		if fmt.Sprint("yubihsm:", o.id) == k.ID {
			on = o
		}
	}
	for _, digest := range hsmDigests[:1] {
		dev.clearlog()
		b := dev.fired()
		sig, err := hsmTry(sg, digest)
		check("sign", k, digest, sig, err, dev.fired() > b, on == nil || string(on.pub) != string(k.Public[:]))
	}
}

// c38Driver checks the driver call by call.
func c38Driver(r *mc.R, dev vdev) {
	codes := []int{0}
	for i := -1; i >= -29; i-- {
		codes = append(codes, i)
	}
	good := func(rc int) bool { return rc == 0 || rc == int(yubihsm.CodeDeviceOK) }
	// open makes an authenticated session.
	open := func() (*yubihsm.Connector, *yubihsm.Session) {
		dev.reset()
		dev.password("pw", false)
		c, err := yubihsm.Connect("http://dev")
		if err != nil {
			panic(err)
		}
		ctx := new(yubihsm.Context)
		s, err := c.NewDerivedSession(1, []byte("pw"), false, ctx)
		if err != nil {
			panic(err)
		}
		if err := s.Authenticate(ctx); err != nil {
			panic(err)
		}
		for _, o := range drvObjs {
			dev.add(o)
		}
		dev.sig(1, hsmDigests[0], derSig(big.NewInt(5), big.NewInt(77)))
		dev.clearlog()
		return c, s
	}
	texts := []string{"", "a", "two words", "https://host:1/path", "clé", "鍵", "a\xffb"}
	caps := func(bits ...int) *yubihsm.Capabilities {
		c := new(yubihsm.Capabilities)
		b := (*[8]byte)(unsafe.Pointer(c))
		for _, n := range bits {
			b[7-n/8] |= 1 << uint(n%8)
		}
		return c
	}
	type call struct {
		name string
		do   func(x *mc.X, c *yubihsm.Connector, s *yubihsm.Session) (log string, err error, then func(x *mc.X))
	}
	none := func(x *mc.X) {}
	calls := []call{
		{"Connect", func(x *mc.X, c *yubihsm.Connector, s *yubihsm.Session) (string, error, func(*mc.X)) {
			return "connect http://dev 1", c.Connect(), none
		}},
		{"Disconnect", func(x *mc.X, c *yubihsm.Connector, s *yubihsm.Session) (string, error, func(*mc.X)) {
			return "disconnect http://dev", c.Disconnect(), none
		}},
		{"NewConnector", func(x *mc.X, c *yubihsm.Connector, s *yubihsm.Session) (string, error, func(*mc.X)) {
			u := texts[x.Choose(len(texts))]
			n, err := yubihsm.NewConnector(u)
			if err == nil && n == nil {
				x.Failf("nil", "NewConnector(%q): nothing", u)
			}
			return "init_connector " + u, err, none
		}},
		{"SetHTTPSCA", func(x *mc.X, c *yubihsm.Connector, s *yubihsm.Session) (string, error, func(*mc.X)) {
			u := texts[x.Choose(len(texts))]
			return "option 1 " + u, c.SetHTTPSCA(u), none
		}},
		{"SetProxyServer", func(x *mc.X, c *yubihsm.Connector, s *yubihsm.Session) (string, error, func(*mc.X)) {
			u := texts[x.Choose(len(texts))]
			return "option 2 " + u, c.SetProxyServer(u), none
		}},
		{"Send", func(x *mc.X, c *yubihsm.Connector, s *yubihsm.Session) (string, error, func(*mc.X)) {
			n, extra, cp := x.Choose(4), x.Choose(3), 4
			data := patBytes(n, 3)
			res := &yubihsm.Message{Data: make([]byte, x.Choose(5), cp+extra)}
			err := c.Send(&yubihsm.Message{Command: yubihsm.CmdBlink, Data: data}, res)
			return fmt.Sprintf("send %d %x %d", int(yubihsm.CmdBlink), data, cp+extra), err, func(x *mc.X) {
				want := make([]byte, n)
				for i := range want {
					want[i] = data[n-1-i]
				}
				if string(res.Data) != string(want) || int(res.Command) != int(yubihsm.CmdBlink)|0x80 {
					x.Failf("send", "response %d %x, want %x", res.Command, res.Data, want)
				}
			}
		}},
		{"DeviceInfo", func(x *mc.X, c *yubihsm.Connector, s *yubihsm.Session) (string, error, func(*mc.X)) {
			n := x.Choose(10)
			dev.info(n)
			di, err := c.DeviceInfo()
			return "info 9", err, func(x *mc.X) {
				if di.Major != 2 || di.Minor != 7 || di.Patch != 19 || di.Serial != 0xdeadbeef || di.LogTotal != 62 || di.LogUsed != 5 || len(di.Algorithms) != n {
					x.Failf("info", "%+v with %d algorithms", di, n)
				}
				for i, a := range di.Algorithms {
					if a != yubihsm.AlgoECK256+yubihsm.Algorithm(i) {
						x.Failf("info", "%+v", di)
					}
				}
			}
		}},
		{"NewDerivedSession", func(x *mc.X, c *yubihsm.Connector, s *yubihsm.Session) (string, error, func(*mc.X)) {
			re := x.Bool()
			rei := 0
			if re {
				rei = 1
			}
			ctx := new(yubihsm.Context)
			s2, err := c.NewDerivedSession(1, []byte("pw"), re, ctx)
			return fmt.Sprintf("create 1 %x %d", "pw", rei), err, func(x *mc.X) {
				if err := s2.Authenticate(ctx); err != nil || dev.on() != 2 {
					x.Failf("session", "the new session: %v, %d open", err, dev.on())
				}
				if err := s2.Destroy(); err != nil || dev.open() != 1 {
					x.Failf("session", "destroying: %v, %d open", err, dev.open())
				}
				s2.Destroy()
				if s2.Authenticate(ctx) == nil || dev.open() != 1 {
					x.Failf("session", "a destroyed session is used")
				}
			}
		}},
		{"NewSession", func(x *mc.X, c *yubihsm.Connector, s *yubihsm.Session) (string, error, func(*mc.X)) {
			re := x.Bool()
			rei := 0
			if re {
				rei = 1
			}
			ctx := new(yubihsm.Context)
			s2, err := c.NewSession(1, patBytes(16, 1), patBytes(12, 9), re, ctx)
			return fmt.Sprintf("create2 1 %x %x %d", patBytes(16, 1), patBytes(12, 9), rei), err, func(x *mc.X) {
				if err := s2.Authenticate(ctx); err != nil || dev.on() != 2 {
					x.Failf("session", "the new session: %v, %d open", err, dev.on())
				}
				if err := s2.Destroy(); err != nil || dev.open() != 1 {
					x.Failf("session", "destroying: %v, %d open", err, dev.open())
				}
			}
		}},
		{"ListObjects", func(x *mc.X, c *yubihsm.Connector, s *yubihsm.Session) (string, error, func(*mc.X)) {
			f := &yubihsm.Filter{}
			cv := "0000000000000000"
			if x.Bool() {
				f = nil
			} else {
				f.ID = []int{0, 1, 65535}[x.Choose(3)]
				f.Type = []yubihsm.ObjectType{0, yubihsm.TypeAsymmetric, yubihsm.TypeOpaque}[x.Choose(3)]
				f.Domains = []int{0, 1, 0x8001}[x.Choose(3)]
				if x.Bool() {
					f.Capabilities = *caps(7)
					cv = "0000000000000080"
				}
				f.Algorithm = []yubihsm.Algorithm{0, yubihsm.AlgoECK256}[x.Choose(2)]
				f.Label = []string{"", "key 1", "clé"}[x.Choose(3)]
			}
			objs, err := s.ListObjects(f)
			var g yubihsm.Filter
			label := "-"
			if f != nil {
				g = *f
				if f.Label != "" {
					label = f.Label
				}
			}
			return fmt.Sprintf("list %d %d %d %s %d %s", g.ID, g.Type, g.Domains, cv, g.Algorithm, label), err, func(x *mc.X) {
				var want []*vobj
				for _, o := range drvObjs {
					if g.ID != 0 && o.id != g.ID || g.Type != 0 && int(g.Type) != o.typ || g.Domains != 0 && o.domains&g.Domains == 0 || g.Algorithm != 0 && int(g.Algorithm) != o.alg || label != "-" && label != o.label || cv[14] == '8' && o.caps[7]&0x80 == 0 {
						continue
					}
					want = append(want, o)
				}
				if len(objs) != len(want) {
					x.Failf("objects", "filter %+v: %d objects, want %d", g, len(objs), len(want))
				}
				for i := range objs {
					checkObj(x, objs[i], want[i])
				}
			}
		}},
		{"GetObject", func(x *mc.X, c *yubihsm.Connector, s *yubihsm.Session) (string, error, func(*mc.X)) {
			o := drvObjs[x.Choose(len(drvObjs))]
			g, err := s.GetObject(o.id, yubihsm.ObjectType(o.typ))
			return fmt.Sprintf("object %d %d", o.id, o.typ), err, func(x *mc.X) { checkObj(x, g, o) }
		}},
		{"GetPublicKey", func(x *mc.X, c *yubihsm.Connector, s *yubihsm.Session) (string, error, func(*mc.X)) {
			b, err := s.GetPublicKey(1)
			return "pubkey 1", err, func(x *mc.X) {
				if string(b) != string(drvObjs[0].pub) {
					x.Failf("pubkey", "%x", b)
				}
			}
		}},
		{"GenerateECKey", func(x *mc.X, c *yubihsm.Connector, s *yubihsm.Session) (string, error, func(*mc.X)) {
			l := texts[x.Choose(len(texts))]
			d := []int{0, 1, 0xffff}[x.Choose(3)]
			var cp *yubihsm.Capabilities
			cv := "-"
			if x.Bool() {
				cp, cv = caps(7, 28), "0000000010000080"
			}
			id, err := s.GenerateECKey(l, d, cp, yubihsm.AlgoECK256)
			if l == "" {
				l = "-"
			}
			return fmt.Sprintf("generate 0 %s %d %s 15", l, d, cv), err, func(x *mc.X) {
				if id != 0x4242 {
					x.Failf("generate", "id %d", id)
				}
			}
		}},
		{"SignECDSA", func(x *mc.X, c *yubihsm.Connector, s *yubihsm.Session) (string, error, func(*mc.X)) {
			a, b, err := s.SignECDSA(1, hsmDigests[0])
			return fmt.Sprintf("sign 1 %x", hsmDigests[0]), err, func(x *mc.X) {
				if a.Int64() != 5 || b.Int64() != 77 {
					x.Failf("sign", "%v %v", a, b)
				}
			}
		}},
	}
	r.Explore(mc.Opts{Name: "driver", Budget: -1, Serial: true, Bound: fmt.Sprintf("%d driver calls over their argument alphabets x %d return codes", len(calls), len(codes))}, func(x *mc.X) {
		k := calls[x.Choose(len(calls))]
		c, s := open()
		rc := codes[x.Choose(len(codes))]
		if rc == int(yubihsm.CodeDeviceOK) {
			x.Prune() // a success that carries nothing
		}
		if rc != 0 {
			dev.fault(1, rc)
		}
		log, err, then := k.do(x, c, s)
		want := fmt.Sprintf("%s=%d\n", log, rc)
		if dev.log() != want {
			x.Failf("call", "%s: device saw %q, want %q", k.name, dev.log(), want)
		}
		if good(rc) {
			if err != nil {
				x.Failf("failed", "%s: %v", log, err)
			}
			then(x)
		} else if e, ok := err.(yubihsm.ReturnCode); !ok || int(e) != rc || e.Error() != fmt.Sprintf("device error %d", rc) {
			x.Failf("code", "%s: the device returned %d, the driver %v", log, rc, err)
		}
		x.Case(k.name, log, fmt.Sprint(rc))
		x.Validated()
		s.Destroy()
	})

	r.Explore(mc.Opts{Name: "refusals", Budget: -1, Serial: true, Bound: "empty and unsupported arguments, public keys of other sizes and kinds, buffers too small"}, func(x *mc.X) {
		c, s := open()
		what, err := "", error(nil)
		func() {
			defer func() {
				if p := recover(); p != nil {
					x.Failf("panic", "%s: panic: %v", what, p)
				}
			}()
			switch x.Choose(8) {
			case 0:
				what = "a session without a password"
				_, err = c.NewDerivedSession(1, nil, false, new(yubihsm.Context))
			case 1:
				what = "unlocking with an empty passphrase"
				err = seth.FindHSM("yubihsm").Unlock([]byte{})
			case 2:
				what = "signing nothing"
				_, _, err = s.SignECDSA(1, nil)
			case 3:
				what = "generating a P256 key"
				_, err = s.GenerateECKey("x", 1, caps(7), yubihsm.AlgoECP256)
				if dev.log() != "" {
					x.Failf("generated", "%s: device saw %s", what, dev.log())
				}
			case 4:
				what = "the public key of a P256 key"
				_, err = s.GetPublicKey(3)
			case 5:
				what = "a session with empty keys"
				_, err = c.NewSession(1, nil, nil, false, new(yubihsm.Context))
			case 6:
				what = "a response larger than the buffer"
				err = c.Send(&yubihsm.Message{Data: patBytes(5, 1)}, &yubihsm.Message{Data: make([]byte, 2, 4)})
			case 7:
				what = "a session for another key set"
				_, err = c.NewDerivedSession(2, []byte("pw"), false, new(yubihsm.Context))
			}
		}()
		if err == nil {
			x.Failf("accepted", "%s is accepted", what)
		}
		x.Case(what)
		s.Destroy()
	})

	r.Explore(mc.Opts{Name: "names", Budget: -1, Serial: true, Bound: "every named capability, type, algorithm and option; every set of up to three capabilities; every set of up to three domains and every invalid one"}, func(x *mc.X) {
		names := map[string]int{"get_opaque": 0, "put_opaque": 1, "asymmetric_sign_ecdsa": 7, "asymmetric_sign_eddsa": 8, "asymmetric_decrypt_ecdh": 11, "reset": 0x1c, "unwrap_data": 0x26}
		order := []string{"get_opaque", "put_opaque", "asymmetric_sign_ecdsa", "asymmetric_sign_eddsa", "asymmetric_decrypt_ecdh", "reset", "unwrap_data"}
		switch x.Choose(4) {
		case 0:
			n := x.Choose(len(order))
			s := order[n]
			if int(yubihsm.CapabilityByName(s)) != names[s] || yubihsm.Capability(names[s]).String() != s {
				x.Failf("capability", "%s", s)
			}
			if yubihsm.Capability(0x3f).String() != "<nil>" {
				x.Failf("capability", "unknown")
			}
			x.Case("cap", s)
		case 1:
			set := map[int]bool{}
			var list []string
			for n := x.Choose(4); n > 0; n-- {
				k := x.Choose(len(order))
				if set[k] {
					x.Prune()
				}
				set[k] = true
				list = append(list, order[k])
			}
			if len(list) == 0 {
				x.Prune()
			}
			c, err := yubihsm.CapabilitiesByName(list...)
			var bits []int
			var want []string
			for k := range order {
				if set[k] {
					bits = append(bits, names[order[k]])
					want = append(want, order[k])
				}
			}
			if err != nil || *c != *caps(bits...) || c.String() != strings.Join(want, ",") {
				x.Failf("capabilities", "%q: %v %v", list, c, err)
			}
			if c, err := yubihsm.CapabilitiesByName(append(list, "nonsense")...); err == nil || c != nil {
				x.Failf("capabilities", "%q and nonsense are accepted", list)
			}
			x.Case("caps", fmt.Sprint(list))
		case 2:
			var ds []int
			want, bad := 0, false
			for n := x.Choose(4); n > 0; n-- {
				d := x.Choose(18)
				ds = append(ds, d)
				bad = bad || d < 1 || d > 16
				if d > 0 {
					want |= 1 << uint(d-1)
				}
			}
			panicked := false
			got := 0
			func() {
				defer func() { panicked = recover() != nil }()
				got = yubihsm.Domains(ds...)
			}()
			if panicked != bad || !bad && got != want {
				x.Failf("domains", "%v: %#x (refused: %v), want %#x", ds, got, panicked, want)
			}
			x.Case("domains", fmt.Sprint(ds))
		case 3:
			if yubihsm.TypeByName("asymmetric") != yubihsm.TypeAsymmetric || yubihsm.TypeAsymmetric.String() != "asymmetric" || yubihsm.TypeByName("x") != 0 || yubihsm.ObjectType(99).String() != "<nil>" ||
				yubihsm.AlgorithmByName("eck256") != yubihsm.AlgoECK256 || yubihsm.AlgoECK256.String() != "eck256" || yubihsm.AlgorithmByName("x") != 0 || yubihsm.Algorithm(99).String() != "<nil>" ||
				yubihsm.OptionByName("command_audit") != yubihsm.OptionCommandAudit || yubihsm.OptionForceAudit.String() != "force_audit" || yubihsm.OptionByName("x") != 0 || yubihsm.Option(99).String() != "<nil>" {
				x.Failf("names", "a name does not match its value")
			}
			x.Case("names")
		}
	})
}

var drvObjs = []*vobj{
	{id: 1, typ: vAsym, alg: vK256, domains: 1, caps: capECDSA, label: "key 1", len: 32, pub: patBytes(64, 9), pubalg: vK256},
	{id: 65535, typ: vAsym, alg: vK256, domains: 0xffff, caps: capBoth, label: "clé", len: 32, pub: patBytes(64, 8), pubalg: vK256},
	{id: 3, typ: vAsym, alg: vP256, domains: 0x8000, caps: capECDSA, label: "", len: 300, pub: patBytes(64, 7), pubalg: vP256},
	{id: 300, typ: 1, alg: 30, domains: 2, caps: capOther, label: strings.Repeat("l", 40), len: 65535},
}

func checkObj(x *mc.X, g *yubihsm.Object, o *vobj) {
	w := &yubihsm.Object{ID: o.id, Length: o.len, Domains: o.domains, Type: yubihsm.ObjectType(o.typ), Algorithm: yubihsm.Algorithm(o.alg), Sequence: byte(o.id), Origin: 2, Label: o.label}
	copy((*[8]byte)(unsafe.Pointer(&w.Capabilities))[:], o.caps)
	(*[8]byte)(unsafe.Pointer(&w.DelegatedCapabilities))[0] = byte(o.id)
	if *g != *w {
		x.Failf("object", "object %+v, want %+v", *g, *w)
	}
}
